#!/usr/bin/env python3
"""Builds the extractor (tool/egx.cpp) from the committed source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from eg.prog import tool
print(tool())
