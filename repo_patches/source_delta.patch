From bf5e95089b3c47147f0d60e29dea0803f1f727b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 01/59] fix: ballot verification must not let a later result
 mask an invalid one

CiphertextBallot::isValidEncryption collected the results in a map keyed by
object ids, so a contest or selection with a repeated id could hide the failed
verification of an earlier one.
---
 src/electionguard/ballot.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..3238b2c 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1072,22 +1072,20 @@ namespace electionguard
         }
 
         // Check the proofs on the ballot
-        unordered_map<string, bool> validProofs;
+        bool isValid = true;
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
-                string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
-                  *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                if (!selection.get().isValidEncryption(*selection.get().getDescriptionHash(),
+                                                       elgamalPublicKey, cryptoExtendedBaseHash)) {
+                    Log::info(": CiphertextBallot found invalid proof for: " +
+                              contest.get().getObjectId() + '-' + selection.get().getObjectId());
+                    isValid = false;
+                }
             }
-            string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
-              *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
-        }
-
-        bool isValid = true;
-        for (const auto &[key, value] : validProofs) {
-            if (!value) {
-                Log::info(": CiphertextBallot found invalid proof for: " + key);
+            if (!contest.get().isValidEncryption(*contest.get().getDescriptionHash(),
+                                                 elgamalPublicKey, cryptoExtendedBaseHash)) {
+                Log::info(": CiphertextBallot found invalid proof for: " +
+                          contest.get().getObjectId());
                 isValid = false;
             }
         }
-- 
2.43.0


From 3988d0e4048cae258744af6fc91599a019a633e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 02/59] fix: contest verification must reject, not dereference,
 a missing proof

---
 src/electionguard/ballot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 3238b2c..de8f56d 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -739,8 +739,8 @@ namespace electionguard
             consistent_accumulation = false;
         }
 
-        bool valid_proof =
-          pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
+        bool valid_proof = proof_exists && pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey,
+                                                                 cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
                        consistent_accumulation && valid_proof;
-- 
2.43.0


From d1b4993834faffa377712513a7846472eaa5f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 03/59] fix: DisjunctiveChaumPedersenProof::clone lost
 proof_one_data

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 28fd86b3296ec20ad62047ddb9b7620614fc597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 04/59] fix: copying an ElGamalKeyPair must not move the keys
 out of its source

---
 src/electionguard/elgamal.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..4bca2ae 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -32,6 +32,12 @@ namespace electionguard
         {
         }
 
+        [[nodiscard]] unique_ptr<ElGamalKeyPair::Impl> clone() const
+        {
+            return make_unique<ElGamalKeyPair::Impl>(make_unique<ElementModQ>(*secretKey),
+                                                     make_unique<ElementModP>(*publicKey));
+        }
+
         unique_ptr<ElementModQ> secretKey;
         unique_ptr<ElementModP> publicKey;
     };
@@ -39,7 +45,7 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(other.pimpl->clone())
     {
     }
 
-- 
2.43.0


From 7ac691242ac82fbe02b7c8cb09c0d74edfa8e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 05/59] fix: SubmittedBallot assignment must assign the ballot,
 not only its state

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index de8f56d..5a6add1 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1179,6 +1179,7 @@ namespace electionguard
 
     SubmittedBallot &SubmittedBallot::operator=(SubmittedBallot other)
     {
+        CiphertextBallot::operator=(other);
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From b6517b09dc1328f96a20b18df1fda7f18b3f414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 06/59] fix: wipe every limb of a destroyed element, not the
 first eighth of it

---
 src/electionguard/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..4285839 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -134,7 +134,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data)); };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -293,7 +293,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data)); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
-- 
2.43.0


From f7df7d34c1525c3b9922fa53e632b98007cdb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 07/59] fix: reject a limb vector longer than the element it
 initialises

---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4285839..0e62a12 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP is greater than allowed");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -275,6 +278,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ is greater than allowed");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From f0f97d2561e11edba2c6d447fee9737face45255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 08/59] fix: rand_p read 512 bytes out of a 256 byte buffer

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 0e62a12..bbbf7b0 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -800,7 +800,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(ByteSize::SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 9ff2f49ecffaf26e7d67dc13a48e99bb1534fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 09/59] fix: add_mod_p must offset an overflowing sum by 2^4096
 - P, not by Q's offset

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index bbbf7b0..e30f0c9 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -553,7 +553,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From 111ae77e6a5440769c5773ac3d075c009dad6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:08 +0000
Subject: [PATCH 10/59] fix: ElementModP::toHex must not write to elements
 shared between threads

The const accessor cached its result in the element without synchronisation;
G(), P() and a context's public key are read concurrently.
---
 src/electionguard/group.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index e30f0c9..87ab3dc 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -110,7 +110,6 @@ namespace electionguard
 
         bool isFixedBase = false;
         uint64_t data[MAX_P_LEN] = {};
-        string hexRepresentation;
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
@@ -228,17 +227,12 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
-        if (!pimpl->hexRepresentation.empty()) {
-            return pimpl->hexRepresentation;
-        }
-
         // Returned bytes array from Hacl needs to be pre-allocated to 512 bytes
         uint8_t byteResult[MAX_P_SIZE] = {};
         // Use Hacl to convert the bignum to byte array
         Bignum4096::toBytes(static_cast<uint64_t *>(pimpl->data),
                             static_cast<uint8_t *>(byteResult));
-        pimpl->hexRepresentation = bytes_to_hex(byteResult);
-        return pimpl->hexRepresentation;
+        return bytes_to_hex(byteResult);
     }
 
     std::unique_ptr<ElementModP> ElementModP::clone() const
-- 
2.43.0


From 33a507dbd359daf33353254bef6ab230c456da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:08 +0000
Subject: [PATCH 11/59] fix: hold a lock while the lookup table map is searched
 and extended

AsyncSemaphore::wait() releases the semaphore before it returns, so concurrent
exponentiations raced on key_map.
---
 src/electionguard/lookup_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..d9b21d8 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -166,14 +166,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().key_map_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex key_map_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From 3ed1db6911cc922d2014936ade277c7cdc0b6df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:08 +0000
Subject: [PATCH 12/59] fix: access the precompute queues, their limit and the
 stop flag only under queue_lock

---
 src/electionguard/precompute_buffers.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..3e2163d 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -207,6 +207,7 @@ namespace electionguard
         // queue size in we could use that.
         // for now we just go through the loop once
         int iteration_count = 0;
+        bool is_full = false;
         do {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
@@ -241,18 +242,29 @@ namespace electionguard
                     getInstance().triple_queue.push(move(contest_triple2));
                 }
                 iteration_count++;
+                is_full =
+                  getInstance().twoTriplesAndAQuadruple_queue.size() >= getInstance().max;
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        } while (!is_full);
     }
 
-    void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
+    void PrecomputeBufferContext::stop_populate()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        getInstance().populate_OK = false;
+    }
 
-    uint32_t PrecomputeBufferContext::get_max_queue_size() { return getInstance().max; }
+    uint32_t PrecomputeBufferContext::get_max_queue_size()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        return getInstance().max;
+    }
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From 01d5fdb572cb89a78b60011a4ae8bf836955f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 13/59] fix: CiphertextBallot::make must hash the contests in
 sequence order, as verification does

---
 src/electionguard/ballot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 5a6add1..1bbe617 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1024,6 +1024,13 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        // hash in the order getContests() presents, as crypto_hash_with() does
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From cbd77d0a0687e928fb2848b133f4b632ac626a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:34 +0000
Subject: [PATCH 14/59] fix: copying a ballot must not dereference a nonce,
 proof or hashed ElGamal value that was never set

---
 src/electionguard/ballot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 1bbe617..45567e1 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -632,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
@@ -930,7 +934,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From 9d285af7b6c01fd283083e4139e466f759f3fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 15/59] fix: copying a ContestDescription lost votes_allowed,
 the subtitle and the primary parties

---
 src/electionguard/manifest.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..754c497 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1093,17 +1093,15 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle =
+              ballotTitle != nullptr ? make_unique<InternationalizedText>(*ballotTitle) : nullptr;
+            auto _ballotSubtitle = ballotSubtitle != nullptr
+                                     ? make_unique<InternationalizedText>(*ballotSubtitle)
+                                     : nullptr;
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 5d2178fc20b48850ab51661e54cf27ac7bbe253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 16/59] fix: manifest and contest hashes must bind each
 optional text on its own

---
 src/electionguard/manifest.cpp | 41 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 754c497..ad86617 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1112,19 +1112,18 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
+            // an absent optional value hashes as null
+            CryptoHashableType titleRef = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                titleRef = ref<CryptoHashable>(*ballotTitle);
+            }
+            CryptoHashableType subtitleRef = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitleRef = ref<CryptoHashable>(*ballotSubtitle);
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
-                                    name, numberElected, votesAllowed, selectionRefs});
+                                    getVoteVariationTypeString(voteVariation), titleRef,
+                                    subtitleRef, name, numberElected, votesAllowed, selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
         }
@@ -1521,21 +1520,21 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            // an absent optional value hashes as null
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = ref<CryptoHashable>(*name);
+            }
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = ref<CryptoHashable>(*contactInformation);
             }
 
             auto hash =
               hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+                          timePointToIsoString(startDate), timePointToIsoString(endDate), nameRef,
+                          contactRef, geopoliticalUnitRefs, partyRefs, contestRefs,
+                          ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From ff973ae6f2c863c5fc7d5d912ee67fc5fbd88e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 17/59] fix: assigning a ContestDescriptionWithPlaceholders
 must assign the contest, not only the placeholders

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index ad86617..1caf38a 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1389,8 +1389,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(other);
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From baa664b2af047f10c2aa29742c16424339d51fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 18/59] fix: placeholder sequence orders must not wrap at 32
 bits

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 1caf38a..eab194b 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1993,7 +1993,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From 4756f5e0046aeb94421a9c2d8302f831bff40dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 19/59] fix: compact encryption must refuse, not dereference,
 an unknown ballot style

---
 src/electionguard/encrypt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..f3a0c1d 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
@@ -555,6 +558,9 @@ namespace electionguard
                     bool shouldVerifyProofs /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
         auto normalizedBallot = emplaceMissingValues(ballot, internalManifest);
 
-- 
2.43.0


From f45fd68ca0a23d9307ac9fa88c058cfa226d52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 20/59] fix: SubmittedBallot::from removes the nonces, as
 documented

---
 src/electionguard/ballot.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 45567e1..0f28eeb 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1205,7 +1205,39 @@ namespace electionguard
     SubmittedBallot::from(const CiphertextBallot &ballot,
                           BallotBoxState state /* = BallotBoxState::unknown */)
     {
-        return make_unique<SubmittedBallot>(ballot, state);
+        // a submitted ballot keeps the ciphertexts and all proofs, but no nonces
+        vector<unique_ptr<CiphertextBallotContest>> contests;
+        for (const auto &contestRef : ballot.getContests()) {
+            const auto &contest = contestRef.get();
+
+            vector<unique_ptr<CiphertextBallotSelection>> selections;
+            for (const auto &selectionRef : contest.getSelections()) {
+                const auto &selection = selectionRef.get();
+                auto proof = selection.getProof();
+                selections.push_back(make_unique<CiphertextBallotSelection>(
+                  selection.getObjectId(), selection.getSequenceOrder(),
+                  *selection.getDescriptionHash(),
+                  make_unique<ElGamalCiphertext>(*selection.getCiphertext()),
+                  selection.getIsPlaceholder(), nullptr,
+                  make_unique<ElementModQ>(*selection.getCryptoHash()),
+                  proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr));
+            }
+
+            auto proof = contest.getProof();
+            contests.push_back(make_unique<CiphertextBallotContest>(
+              contest.getObjectId(), contest.getSequenceOrder(), *contest.getDescriptionHash(),
+              move(selections), nullptr,
+              make_unique<ElGamalCiphertext>(*contest.getCiphertextAccumulation()),
+              make_unique<ElementModQ>(*contest.getCryptoHash()),
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr,
+              contest.getHashedElGamalCiphertext()));
+        }
+
+        return make_unique<SubmittedBallot>(
+          ballot.getObjectId(), ballot.getStyleId(), *ballot.getManifestHash(),
+          make_unique<ElementModQ>(*ballot.getBallotCodeSeed()), move(contests),
+          make_unique<ElementModQ>(*ballot.getBallotCode()), ballot.getTimestamp(), nullptr,
+          make_unique<ElementModQ>(*ballot.getCryptoHash()), state);
     }
 
     unique_ptr<SubmittedBallot> SubmittedBallot::make(
-- 
2.43.0


From 7e1b309bf376d17be4dd44a2e6377f0b71033986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:07 +0000
Subject: [PATCH 21/59] fix: cloning an ElementModQ must not fail on a value
 outside the group

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 87ab3dc..877ca2f 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -413,7 +413,7 @@ namespace electionguard
 
     std::unique_ptr<ElementModQ> ElementModQ::clone() const
     {
-        return make_unique<ElementModQ>(pimpl->data);
+        return make_unique<ElementModQ>(pimpl->data, true);
     }
 
 #pragma endregion
-- 
2.43.0


From 2ba7ca0b8780780b3d3554ac73d1c4d6bbb2c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:07 +0000
Subject: [PATCH 22/59] fix: copying a Party without a name must not give it an
 empty one

---
 src/electionguard/manifest.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index eab194b..0897004 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -731,12 +731,8 @@ namespace electionguard
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
         {
-            if (name != nullptr) {
-                auto _name = make_unique<InternationalizedText>(*name);
-                return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color,
-                                                logoUri);
-            }
-            return make_unique<Party::Impl>(object_id, abbreviation, color, logoUri);
+            auto _name = name != nullptr ? make_unique<InternationalizedText>(*name) : nullptr;
+            return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color, logoUri);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 586f0cef6a3a984328c10dbf5439b9c7a4fe0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 23/59] fix: reading the hex form of zero must not throw

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..6fbc1ff 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto first = hexString.find_first_not_of(LEADING_CHARS);
+        if (first == string::npos && hexString.find('0') != string::npos) {
+            // nothing but zeros: the trimmed string would be empty
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(first);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From 44ff19518eb7cb3a69789625756a2d62d37c3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 24/59] fix: reading a compact ballot must not quote its
 write-ins, nor fail without selections

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..fe0b1a3 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1018,11 +1018,11 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 5ed870750686389bd21b3f8d3be08492bf96a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 25/59] fix: reading a manifest must keep its name and contact
 information independently of each other

---
 src/electionguard/serialize.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index fe0b1a3..4fde7fc 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -550,22 +550,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From 7570bc370d82888e9aa499c15dc02227e23d963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 26/59] fix: empty contact information must not be written as
 null, which reads as absent

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 4fde7fc..84d000e 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
-- 
2.43.0


From 911449bb09c2a0eb6eb31db8ad8155a46c38c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 27/59] fix: a contest written without votes_allowed was read
 back with another value than it had

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 84d000e..8556dc6 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -422,9 +422,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From 6e13d9268e70dab28bd363744d614754bdaa7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 28/59] fix: an internal manifest must be read back with its
 titles and votes_allowed

---
 src/electionguard/serialize.hpp | 46 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 8556dc6..1b67ca9 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -624,14 +624,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -671,28 +670,21 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
-
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, votes_allowed,
-                            name, move(ballotTitle), move(ballotSubtitle), move(selections),
-                            move(placeholders)));
-
-                    } else {
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, name,
-                            move(selections), move(placeholders)));
-                    }
+                    auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
+                    auto ballotTitle =
+                      contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_title"])
+                        : nullptr;
+                    auto ballotSubtitle =
+                      contest.contains("ballot_subtitle") && !contest["ballot_subtitle"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_subtitle"])
+                        : nullptr;
+
+                    contestDescriptions.push_back(make_unique<ContestDescriptionWithPlaceholders>(
+                      contest_object_id, electoral_district_id, contest_sequence_order,
+                      getVoteVariationType(vote_variation), number_elected, votes_allowed, name,
+                      move(ballotTitle), move(ballotSubtitle), move(selections),
+                      move(placeholders)));
                 }
 
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
-- 
2.43.0


From 62e1886a5a8fec3d67a6158f0caa26d65860ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:38 +0000
Subject: [PATCH 29/59] fix: leading zero bytes of a hashed ElGamal ciphertext
 and its MAC must survive serialization

---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 6fbc1ff..179a1bd 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -204,6 +204,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// the hex form of a byte string (unlike a number's, its leading zeros count)
+    inline string byte_string_to_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase << setfill('0');
+        for (auto byte : bytes) {
+            stream << setw(2) << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 1b67ca9..c98f355 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1097,8 +1097,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", byte_string_to_hex(e->getData())},
+                      {"mac", byte_string_to_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1167,14 +1167,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From a4a756c145c82fd3d19ef37fa8a8da166cd637c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:38 +0000
Subject: [PATCH 30/59] fix: serializing a ballot must not dereference a proof,
 extended data or nonce that was never set

---
 src/electionguard/serialize.hpp | 176 +++++++++++++++++---------------
 1 file changed, 92 insertions(+), 84 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index c98f355..dff08af 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1054,29 +1054,28 @@ namespace electionguard
                         json ciphertext = {
                           {"pad", selection.get().getCiphertext()->getPad()->toHex()},
                           {"data", selection.get().getCiphertext()->getData()->toHex()}};
-                        auto *p = selection.get().getProof();
-                        json selection_proof = {
-                          {"proof_zero_pad", p->getProofZeroPad()->toHex()},
-                          {"proof_zero_data", p->getProofZeroData()->toHex()},
-                          {"proof_one_pad", p->getProofOnePad()->toHex()},
-                          {"proof_one_data", p->getProofOneData()->toHex()},
-                          {"proof_zero_challenge", p->getProofZeroChallenge()->toHex()},
-                          {"proof_one_challenge", p->getProofOneChallenge()->toHex()},
-                          {"challenge", p->getChallenge()->toHex()},
-                          {"proof_zero_response", p->getProofZeroResponse()->toHex()},
-                          {"proof_one_response", p->getProofOneResponse()->toHex()},
-                        };
-
                         json selection_props = {
                           {"object_id", selection.get().getObjectId()},
                           {"sequence_order", selection.get().getSequenceOrder()},
                           {"description_hash", selection.get().getDescriptionHash()->toHex()},
                           {"ciphertext", ciphertext},
                           {"is_placeholder_selection", selection.get().getIsPlaceholder()},
-                          {"crypto_hash", selection.get().getCryptoHash()->toHex()},
-                          {"proof", selection_proof}};
-
-                        if (withNonces) {
+                          {"crypto_hash", selection.get().getCryptoHash()->toHex()}};
+
+                        if (auto *p = selection.get().getProof(); p != nullptr) {
+                            selection_props["proof"] = {
+                              {"proof_zero_pad", p->getProofZeroPad()->toHex()},
+                              {"proof_zero_data", p->getProofZeroData()->toHex()},
+                              {"proof_one_pad", p->getProofOnePad()->toHex()},
+                              {"proof_one_data", p->getProofOneData()->toHex()},
+                              {"proof_zero_challenge", p->getProofZeroChallenge()->toHex()},
+                              {"proof_one_challenge", p->getProofOneChallenge()->toHex()},
+                              {"challenge", p->getChallenge()->toHex()},
+                              {"proof_zero_response", p->getProofZeroResponse()->toHex()},
+                              {"proof_one_response", p->getProofOneResponse()->toHex()},
+                            };
+                        }
+                        if (withNonces && selection.get().getNonce() != nullptr) {
                             selection_props["nonce"] = selection.get().getNonce()->toHex();
                         }
                         selections.push_back(selection_props);
@@ -1086,20 +1085,6 @@ namespace electionguard
                       {"pad", contest.get().getCiphertextAccumulation()->getPad()->toHex()},
                       {"data", contest.get().getCiphertextAccumulation()->getData()->toHex()}};
 
-                    auto *p = contest.get().getProof();
-                    json contest_proof = {
-                      {"pad", p->getPad()->toHex()},
-                      {"data", p->getData()->toHex()},
-                      {"challenge", p->getChallenge()->toHex()},
-                      {"response", p->getResponse()->toHex()},
-                      {"constant", p->getConstant()},
-                    };
-                    auto e = contest.get().getHashedElGamalCiphertext();
-                    json extended_data = {
-                      {"pad", e->getPad()->toHex()},
-                      {"data", byte_string_to_hex(e->getData())},
-                      {"mac", byte_string_to_hex(e->getMac())},
-                    };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
                       {"sequence_order", contest.get().getSequenceOrder()},
@@ -1107,10 +1092,24 @@ namespace electionguard
                       {"ballot_selections", selections},
                       {"ciphertext_accumulation", ciphertext},
                       {"crypto_hash", contest.get().getCryptoHash()->toHex()},
-                      {"proof", contest_proof},
-                      {"extended_data", extended_data},
                     };
-                    if (withNonces) {
+                    if (auto *p = contest.get().getProof(); p != nullptr) {
+                        contest_props["proof"] = {
+                          {"pad", p->getPad()->toHex()},
+                          {"data", p->getData()->toHex()},
+                          {"challenge", p->getChallenge()->toHex()},
+                          {"response", p->getResponse()->toHex()},
+                          {"constant", p->getConstant()},
+                        };
+                    }
+                    if (auto e = contest.get().getHashedElGamalCiphertext(); e != nullptr) {
+                        contest_props["extended_data"] = {
+                          {"pad", e->getPad()->toHex()},
+                          {"data", byte_string_to_hex(e->getData())},
+                          {"mac", byte_string_to_hex(e->getMac())},
+                        };
+                    }
+                    if (withNonces && contest.get().getNonce() != nullptr) {
                         contest_props["nonce"] = contest.get().getNonce()->toHex();
                     }
 
@@ -1126,7 +1125,7 @@ namespace electionguard
                   {"timestamp", serializable.getTimestamp()},
                   {"crypto_hash", serializable.getCryptoHash()->toHex()},
                 };
-                if (withNonces) {
+                if (withNonces && serializable.getNonce() != nullptr) {
                     result["nonce"] = serializable.getNonce()->toHex();
                 }
                 return result;
@@ -1162,29 +1161,34 @@ namespace electionguard
                         ElementModP::fromHex(contest_ciphertext_data));
                     auto contest_crypto_hash = contest["crypto_hash"].get<string>();
 
+                    unique_ptr<electionguard::HashedElGamalCiphertext> deserializedHashedElGamal;
                     auto hashed_el_gamal = contest["extended_data"];
-                    auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
-                    auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
-                    auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
-
-                    auto deserializedHashedElGamal =
-                      make_unique<electionguard::HashedElGamalCiphertext>(
-                        ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data),
-                        hex_to_bytes(hashed_el_gamal_mac));
+                    if (!hashed_el_gamal.is_null()) {
+                        auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
+                        auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
+                        auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
+
+                        deserializedHashedElGamal =
+                          make_unique<electionguard::HashedElGamalCiphertext>(
+                            ElementModP::fromHex(hashed_el_gamal_pad),
+                            hex_to_bytes(hashed_el_gamal_data), hex_to_bytes(hashed_el_gamal_mac));
+                    }
 
+                    unique_ptr<electionguard::ConstantChaumPedersenProof> deserializedProof;
                     auto proof = contest["proof"];
-                    auto contest_proof_pad = proof["pad"].get<string>();
-                    auto contest_proof_data = proof["data"].get<string>();
-                    auto contest_proof_challenge = proof["challenge"].get<string>();
-                    auto contest_proof_response = proof["response"].get<string>();
-                    auto contest_proof_constant = proof["constant"].get<uint64_t>();
-
-                    auto deserializedProof = make_unique<electionguard::ConstantChaumPedersenProof>(
-                      ElementModP::fromHex(contest_proof_pad),
-                      ElementModP::fromHex(contest_proof_data),
-                      ElementModQ::fromHex(contest_proof_challenge),
-                      ElementModQ::fromHex(contest_proof_response), contest_proof_constant);
+                    if (!proof.is_null()) {
+                        auto contest_proof_pad = proof["pad"].get<string>();
+                        auto contest_proof_data = proof["data"].get<string>();
+                        auto contest_proof_challenge = proof["challenge"].get<string>();
+                        auto contest_proof_response = proof["response"].get<string>();
+                        auto contest_proof_constant = proof["constant"].get<uint64_t>();
+
+                        deserializedProof = make_unique<electionguard::ConstantChaumPedersenProof>(
+                          ElementModP::fromHex(contest_proof_pad),
+                          ElementModP::fromHex(contest_proof_data),
+                          ElementModQ::fromHex(contest_proof_challenge),
+                          ElementModQ::fromHex(contest_proof_response), contest_proof_constant);
+                    }
 
                     auto selections = contest["ballot_selections"];
                     vector<unique_ptr<electionguard::CiphertextBallotSelection>>
@@ -1209,36 +1213,40 @@ namespace electionguard
                           ElementModP::fromHex(ciphertext_pad),
                           ElementModP::fromHex(ciphertext_data));
 
+                        unique_ptr<electionguard::DisjunctiveChaumPedersenProof>
+                          deserializedDisjunctive;
                         auto selection_proof = selection["proof"];
-                        auto selection_proof_zero_pad =
-                          selection_proof["proof_zero_pad"].get<string>();
-                        auto selection_proof_zero_data =
-                          selection_proof["proof_zero_data"].get<string>();
-                        auto selection_proof_one_pad =
-                          selection_proof["proof_one_pad"].get<string>();
-                        auto selection_proof_one_data =
-                          selection_proof["proof_one_data"].get<string>();
-                        auto selection_proof_zero_challenge =
-                          selection_proof["proof_zero_challenge"].get<string>();
-                        auto selection_proof_one_challenge =
-                          selection_proof["proof_one_challenge"].get<string>();
-                        auto selection_proof_challenge = selection_proof["challenge"].get<string>();
-                        auto selection_proof_zero_response =
-                          selection_proof["proof_zero_response"].get<string>();
-                        auto selection_proof_one_response =
-                          selection_proof["proof_one_response"].get<string>();
-
-                        auto deserializedDisjunctive =
-                          make_unique<electionguard::DisjunctiveChaumPedersenProof>(
-                            ElementModP::fromHex(selection_proof_zero_pad),
-                            ElementModP::fromHex(selection_proof_zero_data),
-                            ElementModP::fromHex(selection_proof_one_pad),
-                            ElementModP::fromHex(selection_proof_one_data),
-                            ElementModQ::fromHex(selection_proof_zero_challenge),
-                            ElementModQ::fromHex(selection_proof_one_challenge),
-                            ElementModQ::fromHex(selection_proof_challenge),
-                            ElementModQ::fromHex(selection_proof_zero_response),
-                            ElementModQ::fromHex(selection_proof_one_response));
+                        if (!selection_proof.is_null()) {
+                            auto selection_proof_zero_pad =
+                              selection_proof["proof_zero_pad"].get<string>();
+                            auto selection_proof_zero_data =
+                              selection_proof["proof_zero_data"].get<string>();
+                            auto selection_proof_one_pad =
+                              selection_proof["proof_one_pad"].get<string>();
+                            auto selection_proof_one_data =
+                              selection_proof["proof_one_data"].get<string>();
+                            auto selection_proof_zero_challenge =
+                              selection_proof["proof_zero_challenge"].get<string>();
+                            auto selection_proof_one_challenge =
+                              selection_proof["proof_one_challenge"].get<string>();
+                            auto selection_proof_challenge = selection_proof["challenge"].get<string>();
+                            auto selection_proof_zero_response =
+                              selection_proof["proof_zero_response"].get<string>();
+                            auto selection_proof_one_response =
+                              selection_proof["proof_one_response"].get<string>();
+
+                            deserializedDisjunctive =
+                              make_unique<electionguard::DisjunctiveChaumPedersenProof>(
+                                ElementModP::fromHex(selection_proof_zero_pad),
+                                ElementModP::fromHex(selection_proof_zero_data),
+                                ElementModP::fromHex(selection_proof_one_pad),
+                                ElementModP::fromHex(selection_proof_one_data),
+                                ElementModQ::fromHex(selection_proof_zero_challenge),
+                                ElementModQ::fromHex(selection_proof_one_challenge),
+                                ElementModQ::fromHex(selection_proof_challenge),
+                                ElementModQ::fromHex(selection_proof_zero_response),
+                                ElementModQ::fromHex(selection_proof_one_response));
+                        }
 
                         auto nonce = selection_nonce.empty()
                                        ? make_unique<ElementModQ>(ZERO_MOD_Q())
-- 
2.43.0


From b34acab2718e938545f02b80ffdaaabfc9d05eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:00 +0000
Subject: [PATCH 31/59] fix: contact information without a name must be
 constructible

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..d24c686 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From b7a99a8d8b19b4c84fb077e51532d38a0f73ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:17 +0000
Subject: [PATCH 32/59] fix: the approval vote variation must have a text

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 0897004..70b417c 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From c1c9e3624bfc5adb86142e6b2aac92555f96f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:08 +0000
Subject: [PATCH 33/59] fix: a compact ciphertext ballot handle must not have
 the type of a ciphertext ballot handle

---
 include/electionguard/ballot_compact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/ballot_compact.h b/include/electionguard/ballot_compact.h
index 07f2dd2..3adf808 100644
--- a/include/electionguard/ballot_compact.h
+++ b/include/electionguard/ballot_compact.h
@@ -62,7 +62,7 @@ struct eg_compact_ciphertext_ballot_s;
 *
 * Don't make this directly. Use `make` instead.
 */
-typedef struct eg_ciphertext_ballot_s eg_compact_ciphertext_ballot_t;
+typedef struct eg_compact_ciphertext_ballot_s eg_compact_ciphertext_ballot_t;
 
 // no constructors defined.  use `eg_encrypt_compact_ballot` in encrypt.h
 
-- 
2.43.0


From cd9abb49ac62c2fac4659fd87ebfd40bc5a290a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:08 +0000
Subject: [PATCH 34/59] fix: an unknown status code must have the unknown text,
 not read past the table

---
 include/electionguard/status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/status.h b/include/electionguard/status.h
index c7dd091..af5fde1 100644
--- a/include/electionguard/status.h
+++ b/include/electionguard/status.h
@@ -36,7 +36,7 @@ static const char *const eg_electionguard_status_codes[] = {
 static const char *eg_electionguard_get_status(eg_electionguard_status_t status)
 {
     if (status >= ELECTIONGUARD_STATUS_UNKNOWN) {
-        eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
+        return eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
     }
     return eg_electionguard_status_codes[status];
 }
-- 
2.43.0


From 5be8416318e75757e7028aa12514caa77d661322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:24 +0000
Subject: [PATCH 35/59] fix: the C date getters of a manifest must report
 milliseconds, as its constructors take

---
 src/electionguard/facades/manifest.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..69f8989 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -1795,9 +1795,9 @@ eg_election_type_t eg_election_manifest_get_type(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
@@ -1807,9 +1807,9 @@ uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_end_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
-- 
2.43.0


From ef158294d0ec75068641917420538089851a8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 36/59] fix: the C validity of a plaintext contest must be true
 when the contest is valid

---
 src/electionguard/facades/ballot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..00c9625 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,8 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected, in_votes_allowed) == electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From 8981aa16d869487a737fc418e3e6f7aff9731189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 37/59] fix: the C name of contact information must not be read
 as that of a geopolitical unit

---
 src/electionguard/facades/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 69f8989..4a80fd3 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From d82afb36fe282607ab8c36c549b044fd92387b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 38/59] fix: the C hash of contact information must not be
 computed as that of a text

---
 src/electionguard/facades/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 4a80fd3..f117dc6 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 8f4f6cf1bf5e63a7e89191749628e971d30119fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 39/59] fix: the C hash of a candidate must not be computed as
 that of a party

---
 src/electionguard/facades/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index f117dc6..4e59245 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From bb8e80d8b57172b057f26062b42ba7a9876ba547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 40/59] fix: an election context made from hex must keep the
 extended data it is given

---
 src/electionguard/facades/election.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..a416717 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -328,7 +328,8 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
         }
 
         auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash,
+          extendedData);
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 37d03ff5d27cdf27cc4843cf9962da274cb89e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:01 +0000
Subject: [PATCH 41/59] fix: an exponent in Z_p must be taken with all of its
 bits

---
 src/electionguard/group.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 877ca2f..6238792 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -602,7 +602,8 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), MAX_P_SIZE * 8, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -624,7 +625,10 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        CONTEXT_P().modExp(base.get(), MAX_Q_SIZE * 8, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From 776e728f0f2973f3ab73aa5602d709ea7172de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 42/59] fix: the C checks of a proof must not let an exception
 out

---
 src/electionguard/facades/chaum_pedersen.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/chaum_pedersen.cpp b/src/electionguard/facades/chaum_pedersen.cpp
index 003401f..533752b 100644
--- a/src/electionguard/facades/chaum_pedersen.cpp
+++ b/src/electionguard/facades/chaum_pedersen.cpp
@@ -172,7 +172,12 @@ bool eg_disjunctive_chaum_pedersen_proof_is_valid(eg_disjunctive_chaum_pedersen_
     auto *ciphertext = AS_TYPE(ElGamalCiphertext, in_ciphertext);
     auto *k = AS_TYPE(ElementModP, in_k);
     auto *q = AS_TYPE(ElementModQ, in_q);
-    return AS_TYPE(DisjunctiveChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    try {
+        return AS_TYPE(DisjunctiveChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    } catch (const exception &e) {
+        Log::error(":eg_disjunctive_chaum_pedersen_proof_is_valid", e);
+        return false;
+    }
 }
 
 #pragma endregion
@@ -261,7 +266,12 @@ bool eg_constant_chaum_pedersen_proof_is_valid(eg_constant_chaum_pedersen_proof_
     auto *ciphertext = AS_TYPE(ElGamalCiphertext, in_ciphertext);
     auto *k = AS_TYPE(ElementModP, in_k);
     auto *q = AS_TYPE(ElementModQ, in_q);
-    return AS_TYPE(ConstantChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    try {
+        return AS_TYPE(ConstantChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    } catch (const exception &e) {
+        Log::error(":eg_constant_chaum_pedersen_proof_is_valid", e);
+        return false;
+    }
 }
 
 #pragma endregion
\ No newline at end of file
-- 
2.43.0


From 0d5efa0391714732edefb638db3653f8cb556ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 43/59] fix: mod_p must not read past the element it reduces

---
 src/electionguard/group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 6238792..e97a265 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,11 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // HACL expects a number of twice the size of the modulus
+        uint64_t value[MAX_P_LEN_DOUBLE] = {};
+        memcpy(static_cast<uint64_t *>(value), element.get(), MAX_P_SIZE);
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(value), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From 31ef463b073838a748fad9511418bf336bebd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:25 +0000
Subject: [PATCH 44/59] fix: P itself is not an element of Z_p

---
 src/electionguard/group.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index e97a265..2115a61 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -118,8 +118,8 @@ namespace electionguard
             }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
-            if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
-                                                   static_cast<uint64_t *>(array)) > 0) {
+            if (!unchecked && Bignum4096::lessThan(static_cast<uint64_t *>(array),
+                                                   const_cast<uint64_t *>(P().get())) == 0) {
                 throw out_of_range("Value for ElementModP is greater than allowed");
             }
             isFixedBase = fixedBase;
@@ -128,8 +128,8 @@ namespace electionguard
 
         Impl(const uint64_t (&elem)[MAX_P_LEN], bool unchecked, bool fixedBase)
         {
-            if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
-                                                   const_cast<uint64_t *>(elem)) > 0) {
+            if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(elem),
+                                                   const_cast<uint64_t *>(P().get())) == 0) {
                 throw out_of_range("Value for ElementModP is greater than allowed");
             }
             isFixedBase = fixedBase;
-- 
2.43.0


From b7f3f2f6b0df4e727a7c9201570ac1d813571182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 45/59] fix: the C functions of a ciphertext contest must take
 the contest, and have C linkage

---
 include/electionguard/ballot.h       | 8 ++++----
 src/electionguard/facades/ballot.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..76aa66d 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -431,7 +431,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +446,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +461,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +471,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 00c9625..b76b41f 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
-- 
2.43.0


From 08d1b6c30ea4a17b005a53350e35445d7b4f2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 46/59] fix: the C timestamp of a ciphertext ballot must be the
 function its header declares

---
 src/electionguard/facades/ballot.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index b76b41f..6ba6311 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -929,14 +929,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0


From 72d6eb7e2c563b5b1523c2c576aa143ab29abf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 47/59] fix: the C constructors of contests with titles must be
 declared with the votes they take

---
 include/electionguard/manifest.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..76a4c3d 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
-- 
2.43.0


From c561504c83ecc8d6d04e2fcd1b3c71dc181f402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 48/59] fix: C handles of e-mail and phone lines, placeholders
 and texts must name what they point to

---
 include/electionguard/manifest.h       |  9 +++++----
 src/electionguard/facades/manifest.cpp | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index 76a4c3d..3e0d2a9 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -201,7 +201,8 @@ EG_API eg_electionguard_status_t eg_internationalized_text_get_text_at_index(
  * A hash representation of the object. Caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash);
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle,
+                                       eg_element_mod_q_t **out_crypto_hash);
 
 #endif
 
@@ -269,7 +270,7 @@ EG_API uint64_t eg_contact_information_get_email_line_size(eg_contact_informatio
  */
 EG_API eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref);
+                                               eg_annotated_string_t **out_address_ref);
 
 /**
  * Get the Size of the phone line collection
@@ -289,7 +290,7 @@ EG_API uint64_t eg_contact_information_get_phone_line_size(eg_contact_informatio
  *                          The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_contact_information_get_phone_line_at_index(
-  eg_contact_information_t *handle, uint64_t in_index, eg_internationalized_text_t **out_phone_ref);
+  eg_contact_information_t *handle, uint64_t in_index, eg_annotated_string_t **out_phone_ref);
 
 EG_API eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information_t *handle,
                                                                  const char **out_name);
@@ -729,7 +730,7 @@ EG_API uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref);
+  eg_selection_description_t **out_placeholder_ref);
 
 EG_API bool eg_contest_description_with_placeholders_is_placeholder(
   eg_contest_description_with_placeholders_t *handle, eg_selection_description_t *in_selection);
diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 4e59245..8fd5259 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -244,7 +244,8 @@ eg_internationalized_text_get_text_at_index(eg_internationalized_text_t *handle,
 }
 
 eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash)
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle,
+                                       eg_element_mod_q_t **out_crypto_hash)
 {
     try {
         auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
@@ -355,13 +356,13 @@ uint64_t eg_contact_information_get_email_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref)
+                                               eg_annotated_string_t **out_address_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getEmail();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_address_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_address_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -377,13 +378,13 @@ uint64_t eg_contact_information_get_phone_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_phone_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_phone_ref)
+                                               eg_annotated_string_t **out_phone_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getPhone();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_phone_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_phone_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -1578,13 +1579,13 @@ uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref)
+  eg_selection_description_t **out_placeholder_ref)
 {
     try {
         auto collection = AS_TYPE(ContestDescriptionWithPlaceholders, handle)->getPlaceholders();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_placeholder_ref = AS_TYPE(eg_contest_description_with_placeholders_t, reference);
+        *out_placeholder_ref = AS_TYPE(eg_selection_description_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 8547c8a03b2a8cda9a83e2ae17079908bccefec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 49/59] fix: eg_encrypt_contest must be declared with the
 manifest it takes

---
 .../ElectionGuard/ElectionGuard.Encryption/Encrypt.cs       | 6 ++++--
 .../ElectionGuard.Encryption/NativeInterface.cs             | 3 ++-
 include/electionguard/encrypt.h                             | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
index d422d16..29c91d1 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
@@ -226,6 +226,7 @@ namespace ElectionGuard
         /// votes
         /// </summary>
         /// <param name="plaintext">the selection in the valid input form</param>
+        /// <param name="internalManifest">the `InternalManifest` which defines this ballot's structure</param>
         /// <param name="description">the `ContestDescriptionWithPlaceholders` from the `ContestDescription`
         ///                           which defines this contest's structure</param>
         /// <param name="elgamalPublicKey">the public key (K) used to encrypt the ballot</param>
@@ -237,7 +238,8 @@ namespace ElectionGuard
         /// <returns>A `CiphertextBallotContest`</returns>
         public static unsafe CiphertextBallotContest Contest(
             PlaintextBallotContest plaintext,
-            ContestDescription description,
+            InternalManifest internalManifest,
+            ContestDescriptionWithPlaceholders description,
             ElementModP elgamalPublicKey,
             ElementModQ cryptoExtendedBaseHash,
             ElementModQ nonceSeed,
@@ -245,7 +247,7 @@ namespace ElectionGuard
         )
         {
             var status = NativeInterface.Encrypt.Contest(
-                    plaintext.Handle, description.Handle, elgamalPublicKey.Handle,
+                    plaintext.Handle, internalManifest.Handle, description.Handle, elgamalPublicKey.Handle,
                     cryptoExtendedBaseHash.Handle, nonceSeed.Handle, shouldVerifyProofs,
                     out NativeCiphertextBallotContest ciphertext);
             status.ThrowIfError();
diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index 8f3472e..1c026fb 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -3390,7 +3390,8 @@ namespace ElectionGuard
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
             internal static extern Status Contest(
                 PlaintextBallotContest.PlaintextBallotContestHandle plaintext,
-                ContestDescription.ContestDescriptionHandle description,
+                InternalManifest.InternalManifestHandle manifest,
+                ContestDescriptionWithPlaceholders.ContestDescriptionWithPlaceholdersHandle description,
                 ElementModP.ElementModPHandle publicKey,
                 ElementModQ.ElementModQHandle crypto_extended_base_hash,
                 ElementModQ.ElementModQHandle nonceSeed,
diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..a54612f 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -161,7 +161,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
-- 
2.43.0


From 1cc484eb04219e97d0f9777e20069b8b0a0b04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 50/59] fix: the .NET phone line must be read from the phone
 numbers

---
 .../ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index 1c026fb..df6566a 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -1090,7 +1090,7 @@ namespace ElectionGuard
             internal static extern ulong GetPhoneLineSize(
                 ContactInformationHandle handle);
 
-            [DllImport(DllName, EntryPoint = "eg_contact_information_get_email_line_at_index",
+            [DllImport(DllName, EntryPoint = "eg_contact_information_get_phone_line_at_index",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
             internal static extern Status GetPhoneLineAtIndex(
                 ContactInformationHandle handle,
-- 
2.43.0


From 96bef0067e27f7e4a9127318806c716725e8fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 51/59] fix: encrypting with a nonce over the C interface must
 not free the caller's nonce

---
 src/electionguard/facades/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/encrypt.cpp b/src/electionguard/facades/encrypt.cpp
index a42fb42..b0acea7 100644
--- a/src/electionguard/facades/encrypt.cpp
+++ b/src/electionguard/facades/encrypt.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_encrypt_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        unique_ptr<ElementModQ> nonce_ptr = nonce != nullptr ? nonce->clone() : nullptr;
 
         auto ciphertext = encryptBallot(*plaintext, *manifest, *context, *code_seed,
                                         move(nonce_ptr), 0, in_should_verify_proofs);
@@ -413,7 +413,7 @@ eg_electionguard_status_t eg_encrypt_compact_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        unique_ptr<ElementModQ> nonce_ptr = nonce != nullptr ? nonce->clone() : nullptr;
 
         auto ciphertext = encryptCompactBallot(*plaintext, *manifest, *context, *code_seed,
                                                move(nonce_ptr), 0, in_should_verify_proofs);
-- 
2.43.0


From 8dce470b980f24f86c6b8ce7de9d566c2d61c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 52/59] fix: the .NET validity of an encrypted contest must not
 be that of a selection

---
 .../ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index df6566a..a5848c3 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -2774,7 +2774,7 @@ namespace ElectionGuard
                 out ElGamalCiphertext.ElGamalCiphertextHandle ciphertext_accumulation);
 
             [DllImport(DllName,
-                EntryPoint = "eg_ciphertext_ballot_selection_is_valid_encryption",
+                EntryPoint = "eg_ciphertext_ballot_contest_is_valid_encryption",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
             internal static extern bool IsValidEncryption(
                 CiphertextBallotContestHandle handle,
-- 
2.43.0


From 805c6ad924c0bba93b2d5fc2ea6a45c49305b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 53/59] fix: the .NET selection encryption must pass all
 parameters of eg_encrypt_selection

---
 .../ElectionGuard/ElectionGuard.Encryption/Encrypt.cs           | 2 +-
 .../ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
index 29c91d1..dbd80ca 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Encrypt.cs
@@ -211,7 +211,7 @@ namespace ElectionGuard
         {
             var status = NativeInterface.Encrypt.Selection(
                     plaintext.Handle, description.Handle, elgamalPublicKey.Handle,
-                    cryptoExtendedBaseHash.Handle, nonceSeed.Handle, shouldVerifyProofs,
+                    cryptoExtendedBaseHash.Handle, nonceSeed.Handle, plaintext.IsPlaceholder, shouldVerifyProofs,
                     out NativeCiphertextBallotSelection ciphertext);
             status.ThrowIfError();
             return new CiphertextBallotSelection(ciphertext);
diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index a5848c3..62564d4 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -3383,6 +3383,7 @@ namespace ElectionGuard
                 ElementModP.ElementModPHandle publicKey,
                 ElementModQ.ElementModQHandle crypto_extended_base_hash,
                 ElementModQ.ElementModQHandle nonceSeed,
+                bool isPlaceholder,
                 bool shouldVerifyProofs,
                 out CiphertextBallotSelection.CiphertextBallotSelectionHandle handle);
 
-- 
2.43.0


From adc21f3044e1287c25e838532aee46d3122dca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 54/59] fix: .NET imports that return a handle must pass its
 address

---
 .../ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index 62564d4..a1658f2 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -1846,7 +1846,7 @@ namespace ElectionGuard
             internal static extern Status SelectionForId(
                 ContestDescriptionWithPlaceholdersHandle handle,
                 [MarshalAs(UnmanagedType.LPStr)] string selectionId,
-                SelectionDescription.SelectionDescriptionHandle selection);
+                out SelectionDescription.SelectionDescriptionHandle selection);
         }
 
         #endregion
@@ -2377,7 +2377,7 @@ namespace ElectionGuard
             [DllImport(DllName, EntryPoint = "eg_ciphertext_election_context_from_bson",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
             internal static extern Status FromBson(
-                uint* data, ulong length, CiphertextElectionContextHandle handle);
+                byte* data, ulong length, out CiphertextElectionContextHandle handle);
 
             [DllImport(DllName, EntryPoint = "eg_ciphertext_election_context_to_json",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
-- 
2.43.0


From eb1e46b8c1e58c3197443f2fd0a5ada3b3e1238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:22 +0000
Subject: [PATCH 55/59] fix: the .NET e-mail and phone lines must have the
 class they have

---
 .../ElectionGuard.Encryption/Manifest.cs             | 12 ++++++------
 .../ElectionGuard.Encryption/NativeInterface.cs      |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Manifest.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Manifest.cs
index 51a9cb2..d79689f 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Manifest.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/Manifest.cs
@@ -436,29 +436,29 @@ namespace ElectionGuard
         /// <Summary>
         /// Associates an email address with the contact.
         /// </Summary>
-        public unsafe InternationalizedText GetEmailLineAt(ulong index)
+        public unsafe AnnotatedString GetEmailLineAt(ulong index)
         {
             var status = NativeInterface.ContactInformation.GetEmailLineAtIndex(
-                Handle, index, out NativeInternationalizedText value);
+                Handle, index, out NativeAnnotatedString value);
             if (status != Status.ELECTIONGUARD_STATUS_SUCCESS)
             {
                 throw new ElectionGuardException($"ContactInformation Error GetEmailLineAt: {status}");
             }
-            return new InternationalizedText(value);
+            return new AnnotatedString(value);
         }
 
         /// <Summary>
         /// Associates a phone number with the contact.
         /// </Summary>
-        public unsafe InternationalizedText GetPhoneLineAt(ulong index)
+        public unsafe AnnotatedString GetPhoneLineAt(ulong index)
         {
             var status = NativeInterface.ContactInformation.GetPhoneLineAtIndex(
-                Handle, index, out NativeInternationalizedText value);
+                Handle, index, out NativeAnnotatedString value);
             if (status != Status.ELECTIONGUARD_STATUS_SUCCESS)
             {
                 throw new ElectionGuardException($"ContactInformation Error GetPhoneLineAt: {status}");
             }
-            return new InternationalizedText(value);
+            return new AnnotatedString(value);
         }
 
         /// <Summary>
diff --git a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
index a1658f2..6189969 100644
--- a/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
+++ b/bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs
@@ -1083,7 +1083,7 @@ namespace ElectionGuard
             internal static extern Status GetEmailLineAtIndex(
                 ContactInformationHandle handle,
                 ulong index,
-                out InternationalizedText.InternationalizedTextHandle email);
+                out AnnotatedString.AnnotatedStringHandle email);
 
             [DllImport(DllName, EntryPoint = "eg_contact_information_get_phone_line_size",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
@@ -1095,7 +1095,7 @@ namespace ElectionGuard
             internal static extern Status GetPhoneLineAtIndex(
                 ContactInformationHandle handle,
                 ulong index,
-                out InternationalizedText.InternationalizedTextHandle phone);
+                out AnnotatedString.AnnotatedStringHandle phone);
 
             [DllImport(DllName, EntryPoint = "eg_contact_information_get_name",
                 CallingConvention = CallingConvention.Cdecl, SetLastError = true)]
-- 
2.43.0


From 4fc4183a02be660737636920ff434dbafce04b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 56/59] fix: register the console logger once when threads log
 for the first time together

---
 src/electionguard/log.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c2ad724..2e5365f 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -80,17 +80,8 @@ namespace electionguard
     class Log::Impl
     {
       private:
-        Impl() {}
-
-      public:
-        shared_ptr<spdlog::logger> logger;
-
-        static Impl &instance()
+        Impl()
         {
-            static Impl _instance;
-            if (_instance.logger != nullptr)
-                return _instance;
-
             auto console = spdlog::stdout_logger_mt("console");
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
@@ -101,7 +92,17 @@ namespace electionguard
 #endif
             spdlog::set_default_logger(console);
             spdlog::set_pattern("[%H:%M:%S:%e %z] [p: %P] [t: %t] [%l] :: %v");
-            _instance.logger = console;
+            logger = console;
+        }
+
+      public:
+        shared_ptr<spdlog::logger> logger;
+
+        static Impl &instance()
+        {
+            // the construction of a static local is synchronized, so that the logger is
+            // registered once however many threads make the first call
+            static Impl _instance;
             return _instance;
         }
     };
-- 
2.43.0


From 01b604956db8cccd81e700853bf21d076ea03c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:16 +0000
Subject: [PATCH 57/59] fix: rand_q masked five bits of every random exponent
 to zero

---
 src/electionguard/group.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 2115a61..f8aafcc 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -825,9 +825,6 @@ namespace electionguard
             throw bad_alloc();
         }
 
-        // first index of Q cannot cannod exceed 0xFFFFFFFFFFFFFF43
-        bigNum[0] = bigNum[0] & 0xFFFFFFFFFFFFFF43;
-
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
         free(bigNum);
-- 
2.43.0


From 5e51aaacd4823671c974f94db666d88c25f588de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:23 +0000
Subject: [PATCH 58/59] fix: a ciphertext that cannot be decrypted no longer
 decrypts to zero

---
 src/electionguard/elgamal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 4bca2ae..e2a2b9f 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -176,7 +176,7 @@ namespace electionguard
                                             secret->get(), static_cast<uint64_t *>(divisor));
         if (!success) {
             Log::warn("could not calculate mod exp");
-            return 0;
+            return MAX_UINT64;
         }
 
         uint64_t inverse[MAX_P_LEN] = {};
@@ -192,7 +192,7 @@ namespace electionguard
                                       static_cast<uint64_t *>(result));
         if (!success) {
             Log::warn("could not calculate mod");
-            return 0;
+            return MAX_UINT64;
         }
 
         // TODO: ISSUE #133: traverse a discrete_log lookup to find the result
-- 
2.43.0


From 020b7cde5072d17bb113bf64d53c649f13499a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 59/59] fix: eg_plaintext_ballot_selection_is_valid lets no
 exception out

---
 src/electionguard/facades/ballot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 6ba6311..d4f276f 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -182,7 +182,12 @@ eg_plaintext_ballot_selection_get_write_in(eg_plaintext_ballot_selection_t *hand
 bool eg_plaintext_ballot_selection_is_valid(eg_plaintext_ballot_selection_t *handle,
                                             char *in_object_id)
 {
-    return AS_TYPE(PlaintextBallotSelection, handle)->isValid(string(in_object_id));
+    try {
+        return AS_TYPE(PlaintextBallotSelection, handle)->isValid(string(in_object_id));
+    } catch (const exception &e) {
+        Log::error("eg_plaintext_ballot_selection_is_valid", e);
+        return false;
+    }
 }
 
 #pragma endregion
-- 
2.43.0

