#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
S = "src/electionguard/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), claim=True, reason=""):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
    P[-1]["_t"] = (technique, note, claim, reason)


prop("C01", "A ballot proof is accepted only if every equation of its scheme holds",
     "A disjunctive (0-or-1) or constant Chaum-Pedersen proof verifies only when every element is a member of its group, "
     "the challenge is the hash of the base hash, the ciphertext and the commitments, and every published verification "
     "equation holds. Group membership means in range and, for residues, of order Q; element equality compares all limbs.",
     ["inputs"], "every proof, ciphertext, key and base hash, including adversarial ones",
     "tests verify honest proofs and one or two perturbed ones; a dropped conjunct or equation accepts only specially forged proofs",
     [S + "chaum_pedersen.cpp", S + "group.cpp"],
     [("DisjunctiveChaumPedersenProof::isValid", S + "chaum_pedersen.cpp"), ("ConstantChaumPedersenProof::isValid", S + "chaum_pedersen.cpp"),
      ("ElementModP::isValidResidue", S + "group.cpp")],
     "gated value numbering of the acceptance condition, entailment of each specified conjunct in algebraic normal form",
     "Sound for the source analysed: the acceptance condition is computed for all inputs and each conjunct must be entailed. "
     "Trusts clang's AST, the group functions' arithmetic (mod mult/exp), and SHA-256.", ["isValid() return value"])
prop("C02", "Everything the library encrypts or proves is accepted by its own verifier",
     "For every key, nonce and vote in {0,1}, with or without precomputed values, the selection produced encrypts exactly "
     "that vote as (g^r, g^v K^r) and satisfies selection verification; any other vote is refused. The proof factories "
     "produce accepted proofs, homomorphic addition multiplies all components, and a contest verifies whenever the votes of its selections sum to the number elected.",
     ["inputs", "configurations"], "every vote, key, nonce, seed, selection list and both precompute states",
     "tests sample a few random nonces and mostly the path without precomputed values",
     [S + "encrypt.cpp", S + "elgamal.cpp", S + "chaum_pedersen.cpp", S + "ballot.cpp", S + "precompute_buffers.cpp"],
     [("encryptSelection", S + "encrypt.cpp"), ("make / make_with_precomputed", S + "ballot.cpp"), ("elgamalAdd", S + "elgamal.cpp")],
     "gated value numbering of prover and verifier; equations decided in Z_q polynomials and free abelian group normal form",
     "Symbolic identity for all inputs, up to the laws of the group; hash treated as an uninterpreted function.", ["isValidEncryption() of the result"])
prop("C03", "Hashes commit to every field the scheme binds",
     "The hash of each manifest object, election context, ciphertext, contest, ballot, device and ballot code is the hash of "
     "exactly the fields the scheme binds, in its order, so changing any one of them changes the hash input; optional fields "
     "are each bound on their own. The hash stored by a factory equals the one verification recomputes.",
     ["inputs"], "every object, every combination of present and absent optional fields, every collection size and order",
     "tests check that equal objects hash equally; a field left out of a hash, or two fields swapped, is invisible to them",
     [S + "manifest.cpp", S + "ballot.cpp", S + "election.cpp", S + "ballot_code.cpp", S + "elgamal.cpp"],
     [("crypto_hash / crypto_hash_with", S + "manifest.cpp, ballot.cpp"), ("CiphertextElectionContext::make", S + "election.cpp"),
      ("BallotCode", S + "ballot_code.cpp")],
     "gated value numbering of every crypto_hash, compared with the term built from the public getters",
     "Identity of hash-input terms for all objects; SHA-256 itself is trusted (see C10 for the encoding).", ["crypto_hash()"])
prop("C04", "Ballot verification covers every contest, selection and ciphertext",
     "A selection, contest or ballot is accepted only if the expected description or manifest hash is its own, its stored hash "
     "recomputes, its proof is present and valid for its own ciphertext under the given key and base hash, the contest's "
     "accumulation is the product of all its selections, and every contest and every selection of every contest is itself accepted.",
     ["inputs"], "every ballot, any number of contests and selections, any tampering",
     "tests verify intact ballots; a loop that lets a later result mask an earlier failure passes them (the pinned commit had that defect)",
     [S + "ballot.cpp"], [("isValidEncryption of selection, contest, ballot", S + "ballot.cpp")],
     "gated value numbering of the acceptance condition of every isValidEncryption",
     "Entailment for all inputs; quantified over all contests/selections by loop summaries.", ["isValidEncryption()"])
prop("C05", "Nothing unverified is returned when verification is requested",
     "When the caller asks for proof verification (the default), every selection, contest and ballot the encryption functions "
     "return has passed verification against the caller's key, hash and description, and the request reaches all nested encryptions, "
     "also through the mediator and compact encryption.",
     ["inputs", "configurations"], "every path of the encryption functions, with and without precomputed values",
     "the verification only matters when something went wrong earlier, which tests never provoke",
     [S + "encrypt.cpp"], [("shouldVerifyProofs", S + "encrypt.cpp")],
     "gated value numbering: path condition of every return",
     "All paths; the object verified must be the object returned (same value number).", ["return value / exception"])
prop("C06", "Every nonce is fresh or derived from the ballot's own seed",
     "Ballot, contest and selection nonces are the hash of the parent nonce with the object's own description hash and sequence "
     "order (or drawn fresh); the random values inside one proof are independent of each other and of the encryption nonce; the "
     "mediator never fixes a nonce; item i of a nonce sequence is the hash of its seed (with its header) and i; a range gives items start, start+1, ... without repeating one, and next() continues after the item last taken.",
     ["inputs", "configurations"], "every ballot, key and seed, with and without precomputed values",
     "reusing a nonce or a proof commitment leaves every output valid; only an adversary comparing outputs notices",
     [S + "encrypt.cpp", S + "nonces.cpp", S + "chaum_pedersen.cpp", S + "ballot.cpp"],
     [("Nonces", S + "nonces.cpp"), ("nonceSeed", S + "ballot.cpp"), ("proof commitments", S + "chaum_pedersen.cpp")],
     "gated value numbering of every nonce; distinctness and elimination of random atoms",
     "Identity of terms for all inputs; the generator's entropy itself is not judged.", ["getNonce(), proof elements"])
prop("C07", "Each vote is encrypted for exactly the selection it was cast for",
     "Encrypting a ballot encrypts every selection of every contest of its ballot style exactly once, with the voter's own vote "
     "for that id or 0 if none; an overvoted contest counts no selection; placeholders are selected exactly up to the number "
     "elected; overvotes and write-ins are recorded under their own ids; invalid contests and unknown styles are refused.",
     ["inputs"], "every ballot and manifest: any number, order and subset of contests and selections, over- and undervotes",
     "tests use a handful of generated ballots that list selections in manifest order and rarely overvote",
     [S + "encrypt.cpp", S + "ballot.cpp", S + "manifest.cpp"],
     [("encryptContest / encryptContests", S + "encrypt.cpp"), ("PlaintextBallotContest::isValid", S + "ballot.cpp"), ("getContestsFor", S + "manifest.cpp")],
     "gated value numbering with loop summaries; origin enumeration of the vote passed to each encryption",
     "All ballots and manifests, by summaries of the loops; the loop counters are resolved as linear recurrences.", ["arguments of encryptSelection"])
prop("C08", "A mediator chains its ballots and serves only its own manifest",
     "A mediator can only be created for a context whose manifest hash is its manifest's. Its first ballot is chained to the "
     "device hash and every later one, compact or not, to the code of the ballot before it; ballots carry the given seed and "
     "timestamp, and their code is the hash of seed, timestamp and ballot hash.",
     ["histories", "inputs"], "every sequence of encrypt and compactEncrypt calls (by induction over two steps)",
     "tests encrypt one or two ballots and do not look at the links between them",
     [S + "encrypt.cpp", S + "ballot.cpp", S + "ballot_code.cpp"], [("EncryptionMediator", S + "encrypt.cpp")],
     "gated value numbering with the object state threaded through all orders of two operations",
     "Inductive: the state after any operation is the previous ballot's code.", ["getBallotCodeSeed(), getBallotCode()"])
prop("C12", "A compact ballot expands to exactly the ballot it was made from",
     "Compressing keeps all votes and write-ins in order, the id, style, nonce, seed, timestamp and code; expanding reads each "
     "back at its own position for the contests of the style, re-encrypts with exactly the stored parameters, and returns only "
     "a ballot whose code is the recorded one.",
     ["inputs"], "every plaintext ballot and manifest, any number of contests and selections",
     "tests expand one generated ballot; a lost write-in, a shifted index or a skipped code comparison needs particular ballots",
     [S + "ballot_compact.cpp", S + "encrypt.cpp"], [("compress / expand", S + "ballot_compact.cpp")],
     "gated value numbering of both directions; the running index resolved from its loop recurrence",
     "All inputs; equality of getter terms.", ["expandCompactCiphertextBallot()"])
prop("C13", "A submitted ballot is the encrypted ballot without its nonces",
     "Submitting keeps the id, style, hashes, code, timestamp, every contest, selection, ciphertext and proof and the given "
     "state, and removes the nonces of the ballot, all contests and all selections.",
     ["inputs"], "every encrypted ballot, any number of contests and selections",
     "tests only check that the submitted ballot still verifies",
     [S + "ballot.cpp"], [("SubmittedBallot::from / make", S + "ballot.cpp")],
     "gated value numbering, compared getter by getter with the source ballot",
     "All ballots; field identity.", ["getters of SubmittedBallot"])
prop("C10", "The hash input encoding is complete and unambiguous per element",
     "Hashing a list feeds SHA-256, for every element in order, the full text of that element by its own type followed by a "
     "constant delimiter; nested lists and hashable objects contribute the hash of their content, absent values a constant. The result is the whole digest, read big endian, reduced modulo Q.",
     ["inputs"], "every list of hashable values of every supported alternative",
     "tests compare a few hashes for (in)equality; truncation, skipped elements or a type read through the wrong alternative need particular inputs",
     [S + "hash.cpp"], [("hash_elems", S + "hash.cpp")],
     "gated value numbering of hash_elems with SHA-256 as a byte stream; case split over the variant's alternatives",
     "All inputs of all alternatives; trusts SHA-256 and the text conversions of elements.", ["hash_elems()"])

prop("C11", "Hashed ElGamal decryption inverts encryption and authenticates first",
     "Hashed ElGamal encryption and decryption derive the same session key H(g^r, K^r), MAC key and per-block keys (a counter "
     "per block, never the MAC key's; each byte of a block takes its own byte of the key). The MAC covers the pad and all ciphertext; decryption returns nothing unless the stored "
     "MAC equals it. Padding is length-prefixed big endian; overlong or unaligned messages are refused unless truncation was asked for.",
     ["inputs", "configurations"], "every message, key, nonce, seed, padding size and both precompute states",
     "tests round-trip a few messages; key reuse between blocks, an unauthenticated tail or a skipped check keep the round trip working",
     [S + "elgamal.cpp", S + "hmac.cpp"], [("hashedElgamalEncrypt", S + "elgamal.cpp"), ("HashedElGamalCiphertext::decrypt", S + "elgamal.cpp"), ("get_hmac", S + "hmac.cpp")],
     "gated value numbering of encryption and decryption; comparison of their key schedules in group normal form",
     "All inputs up to HMAC and hash as uninterpreted functions; trusts HACL* HMAC.", ["decrypt()"])

prop("C21", "Copies are faithful and leave the original unchanged",
     "For every public class, a copy-constructed, assigned, moved-into or cloned object shows, through every public getter, the "
     "same values as the object it came from, present or absent optional parts included; copying never fails, and leaves every "
     "getter of the original as it was.",
     ["inputs"], "every object of every public class, every combination of absent optional parts",
     "tests hardly copy objects; the pinned commit lost fields in eight copy operations with all tests passing",
     [S + "ballot.cpp", S + "manifest.cpp", S + "elgamal.cpp", S + "chaum_pedersen.cpp", S + "group.cpp", S + "precompute_buffers.cpp"],
     [("copy constructors, operator=, clone, Impl::clone", S + "*.cpp")],
     "gated value numbering of every copy constructor, assignment, move and clone; getter-by-getter comparison with the source object",
     "All objects; classes, copies and getters are enumerated from the source. Nested copies are assumed faithful and are obligations of their own class (induction).", ["public getters"])

prop("C14", "Reading what was written yields the same object",
     "For every class with a public serialization (JSON, BSON, MessagePack), reading what its writer wrote does not fail and yields "
     "an object every public getter of which shows what it shows of the original, nested objects, order, widths of numbers, empty "
     "and absent parts included. Exceptions, by design of the format: nonces are only kept when they are asked for, an absent nonce "
     "reads as zero, and a submitted ballot carries none. The published constants are written under their own names.",
     ["inputs"], "every object of every serializable class, in every format",
     "tests round trip a few fully populated objects and compare a few fields; a field dropped, swapped, narrowed or mishandled when absent passes",
     [S + "serialize.hpp", S + "ballot.cpp", S + "manifest.cpp", S + "election.cpp"],
     [("Serialize::*::fromObject / toObject", S + "serialize.hpp"), ("toJson/fromJson, toBson/fromBson, toMsgPack/fromMsgPack", S + "*.cpp")],
     "gated value numbering of every public reader applied to what the matching writer yields; getter-by-getter comparison with the original object",
     "All objects, modulo: the JSON library is the identity on the document it wrote; toHex/fromHex, byte string hex and time text conversions are inverse pairs "
     "(enumeration texts are decided by C26).", ["public getters"])

prop("C15", "Serialized ballots reveal no nonces unless asked for",
     "No encryption nonce of an encrypted ballot, its contests or its selections reaches the JSON, BSON or MessagePack form of a "
     "submitted ballot, or of an encrypted ballot written without asking for nonces; the C functions ask for nonces exactly when they are named so.",
     ["inputs"], "every ballot, every format and public writer",
     "tests look at a few documents; a nonce in one field under one condition decrypts every vote published in it",
     [S + "serialize.hpp", S + "ballot.cpp", S + "facades/ballot.cpp"],
     [("Serialize::CiphertextBallot::fromObject", S + "serialize.hpp"), ("eg_ciphertext_ballot_to_*", S + "facades/ballot.cpp")],
     "gated value numbering of every public writer of an encrypted ballot; no nonce reaches the written value",
     "All ballots: the written document is computed as a value of the ballot's fields. Compact ballots hold the nonce by design and are not covered.", ["toJson, toBson, toMsgPack"])

prop("C26", "Enumerations and their texts convert back and forth",
     "Every enumerator of the election, reporting unit, vote variation and ballot box state types has a text of its own, and that "
     "text converts back to the same enumerator; manifest hashes and serializations contain these texts.",
     ["inputs"], "every enumerator of every enumeration with a text form",
     "tests use two or three enumerators; the pinned commit had no text for one of them and dereferenced the end of a table",
     [S + "manifest.cpp", S + "ballot.cpp"], [("get*TypeString / get*Type", S + "manifest.cpp"), ("getBallotBoxState(String)", S + "ballot.cpp")],
     "gated value numbering of the conversions, for every enumerator",
     "Exhaustive over the enumerators found in the source.", ["get*String, get*"])

prop("C19", "C functions answer what the C++ class of their name answers",
     "Every function of the C interface (eg_*) is faithful to C++: a getter returns, or stores through its out parameter, exactly the value of "
     "the getter of that name on the handle's object (by index: the element at that index, and an index past the end is refused); a constructor "
     "makes an object whose getters give back each argument, as the C++ constructor does (extended data lists keep every key and value); any other "
     "operation passes its arguments to the C++ operation of its name, each in its place, and hands out that result; text is handed out as a "
     "complete zero-terminated copy allocated with malloc, binary data with its exact size; a success status is never returned without the value; "
     "every status code has its name as text.",
     ["inputs"], "every eg_* function, every success path, every argument",
     "the C++ tests do not call most of the C functions, and the C tests read few of the values back; a wrong cast, a swapped argument or a dropped "
     "argument compiles because handles are cast",
     [S + "facades"], [("eg_* functions", S + "facades"), ("dynamicCopy", S + "convert.hpp")],
     "gated value numbering of every C function, compared term by term with the C++ getter, constructor or operation of its name",
     "Pairs C functions with C++ members by name (with a table for names that differ); functions with no counterpart are outside. Text is modelled "
     "up to its first zero byte.", ["eg_* functions"])

prop("C18", "No exception leaves a C function, and a caught one is reported as failure",
     "Running out of memory aside, no C++ exception of any type propagates out of a function of the C interface: every operation that can throw runs inside a handler that catches "
     "its type, and no handler lets one out again. A handler that catches an exception makes the function return a failure (a non-success status, a null "
     "handle, false), never success.",
     ["inputs"], "every eg_* function, every call chain under it that can throw, every handler",
     "tests call the C functions with arguments that do not throw; an exception crossing into C terminates the caller's process",
     [S + "facades"], [("eg_* functions", S + "facades")],
     "interprocedural exception-flow analysis (thrown types against handlers) and gated value numbering of what each handler returns",
     "Every C function. Memory exhaustion is not counted as a throw; destructors are taken as non-throwing.", ["eg_* functions"])

prop("C09", "Group operations compute the residue they are named for",
     "For all operands below their modulus, add/sub/multiply-add in Z_q (add_mod_q of two and of a list, sub_mod_q, a_plus_bc_mod_q), add, multiply "
     "(pairs and lists of P and Q elements), mod and both powers in Z_p (with and without a fixed-base lookup table) and both powers of G return exactly "
     "the canonical residue of the mathematical operation, sub_from_q returns Q - a, no operand is changed, no array is accessed outside its bounds, and "
     "an exponent is used with all of its bits; two bases never share a lookup table. P, Q, R and G are the standard parameters: primes, P - 1 = Q R, G of order Q.",
     ["inputs"], "all operands in [0, modulus), every carry, borrow and wrap-around path; lists up to three elements",
     "the failing carries and wrap-arounds have a probability near 2^-128 or depend on one byte value of the exponent; tests use a handful of values",
     [S + "group.cpp", S + "lookup_table.hpp", S + "facades/Hacl_Bignum256.cpp", S + "facades/Hacl_Bignum4096.cpp", "include/electionguard/constants.h"],
     [("add_mod_q / sub_mod_q / a_plus_bc_mod_q / pow_mod_p", S + "group.cpp"), ("LookupTable::pow_mod_p", S + "lookup_table.hpp")],
     "abstract interpretation over integer polynomials in the operands (bounded atoms, path ranges, HACL* primitives as vocabulary)",
     "Operands at or above the modulus are outside the property: the tests pin results there that are not residues. A violation is reported only with operand values "
     "that follow the path; paths the analysis cannot settle are listed as undecided.", ["the public functions of group.hpp"])

prop("C24", "Checked construction accepts exactly the values below the modulus",
     "Constructing an element without asking for `unchecked` (from an array, a vector of limbs, bytes, hex text or an integer, in C++ or through the C "
     "functions without unchecked in their name) gives an element for every value below P (or Q) and fails for every value of P (Q) or more; an input longer than the element is refused even unchecked; and the library "
     "never turns text or bytes it was given into an element with the range check switched off unless its caller asked for that.",
     ["inputs"], "every value of the full width of the limbs, every call site that converts text or bytes",
     "the boundary values are single points of a 256 or 4096 bit space", [S + "group.cpp", S + "facades/group.cpp", S + "serialize.hpp"],
     [("ElementModP::Impl / ElementModQ::Impl", S + "group.cpp"), ("eg_element_mod_*_new", S + "facades/group.cpp")],
     "abstract interpretation over integer polynomials with the given value as a symbol, plus a query over all conversion call sites",
     "Known findings: Q itself is accepted as an element of Z_q, which an existing test requires.", ["constructors, fromHex, bytes_to_p/q"])

prop("C31", "Elements keep, compare and convert their value exactly",
     "An element made unchecked from limbs (array or vector of any length up to the element's), from big-endian bytes of any length up to the full size, from "
     "an integer, from hex text or from another element has exactly that value; get, ref, toBytes (big-endian, full size), toElementModP and clone give "
     "back exactly that value; ==, != and < compare whole values; isInBounds is true exactly for 0 < x < modulus.",
     ["inputs"], "every value of the full width; byte lengths 1 to 32 (Z_q) and up to 512 (Z_p)",
     "a conversion that loses a leading or partial limb goes wrong only for particular lengths and values", [S + "group.cpp", S + "facades/Hacl_Bignum256.cpp", S + "facades/Hacl_Bignum4096.cpp"],
     [("ElementModP, ElementModQ", S + "group.cpp"), ("bytes_to_p, bytes_to_q", S + "group.cpp")],
     "abstract interpretation over integer polynomials with the given value as a symbol",
     "Text is taken as the digits of a number of a given length; the digit loop of the hex reader itself is not analysed here.", ["the element classes"])

prop("C20", "C handles keep their class and their owner",
     "A handle of type eg_X_t always points to an object of the class X stands for. What a C function hands out through an out parameter either belongs to "
     "the caller (and a release function for its type exists) or lives in an object the caller already holds, as the headers document; it never points into "
     "an object that ends with the call, and neither does a pointer or reference any C++ function returns. Only eg_X_free (and the buffer release functions) "
     "release an argument, a non-null one exactly once, destroying class X with the deallocation that matches its allocation; no other function releases or "
     "adopts what its caller still owns, and released storage is neither used nor released again.",
     ["inputs", "histories"], "every C function, every cast of a handle, every returned pointer or reference, every release, on every path",
     "a dangling or doubly owned pointer usually still reads the right bytes in a test; it fails when the allocator reuses the block",
     [S + "facades", "include/electionguard/*.h", S + "convert.hpp"],
     [("eg_*_free", S + "facades"), ("AS_TYPE casts", S + "facades"), ("dynamicCopy", S + "convert.hpp")],
     "interprocedural ownership and lifetime analysis of pointers, typestate of released storage, handle/class agreement of casts",
     "The nodes of the linked list in collections.c are outside; ownership promises are read from the headers' comments and out parameter names.", ["the C functions"])

prop("C27", "Headers, library and .NET imports agree on every C function",
     "Every function a C header under include/electionguard declares is defined in the library under exactly that C name with the declared parameter and "
     "result types; every enumerator of a C enum has the value of the C++ enumerator it stands for; every .NET import names a declared function, passes the "
     "same number of parameters with types of the same size, direction and handle class, a .NET getter is bound to the C getter of its own name, and every "
     ".NET enumerator has the C value.",
     ["inputs"], "every declared function, enumerator and import",
     "a definition whose parameter list drifts from the header still compiles (C++ overload) and only fails when somebody links or calls it",
     ["include/electionguard/*.h", S + "facades", "bindings/netstandard/ElectionGuard/ElectionGuard.Encryption/NativeInterface.cs"],
     [("EG_API declarations", "include/electionguard"), ("DllImport declarations", "bindings/netstandard")],
     "comparison of the C headers parsed as C, the library's resolved definitions with their linkage, and the .NET declarations",
     "Known findings: two declared functions about extended data of a plaintext selection have no definition.", ["the C symbols of the library"])


prop("C22", "State shared between threads is accessed under one lock",
     "The library may be called from several threads. State they share (the precompute queues with their limit and stop flag, the lookup tables, the logger, "
     "every static object) is read and written with one common mutex held whenever anything writes it; a container is tested and used in one critical "
     "section; no thread takes a mutex it holds, mutexes are taken in one order and given back on every path; a const method that observes an object "
     "(toHex, getters, hashes, verification) changes nothing of it, so const objects, the shared constants and contexts can be read concurrently.",
     ["inputs", "schedules"], "every schedule of any number of threads; every access, critical section and const method in the source",
     "a race shows in a test only if two threads meet at the one bad instruction; the pinned commit had three unlocked structures with all tests passing",
     [S + "precompute_buffers.cpp", S + "lookup_table.hpp", S + "log.cpp", S + "group.cpp"],
     [("PrecomputeBufferContext::*", S + "precompute_buffers.cpp"), ("LookupTableContext", S + "lookup_table.hpp"), ("const methods", S + "*.cpp")],
     "lockset dataflow over the call graph, effect summaries of const methods, lock-order graph",
     "Mutexes are identified by their variable or field. Known findings: the mediator's const encrypt functions update the code seed without a lock.", ["the public functions, from several threads"])

prop("C29", "A precomputed value is fresh, made for its key, and handed out once",
     "Every triple and quadruple the precompute buffer holds consists of random exponents drawn for it alone and the powers of the generator and of the given "
     "public key that belong to them; taking one returns the value at the front of its queue and removes exactly that value, nothing when the queue is "
     "empty; emptying the buffer empties every queue. init(n) sets the limit n (a limit above zero for n = 0), get_current_queue_size counts the queue of "
     "bundles, and after stop_populate nothing is added until init.",
     ["inputs", "histories"], "every history of filling, taking and emptying, every key",
     "a value handed out twice yields two valid ciphertexts with one nonce, from which the votes can be computed; every test still passes",
     [S + "precompute_buffers.cpp", "include/electionguard/precompute_buffers.hpp"],
     [("PrecomputeBufferContext::populate / getTriple / getTwoTriplesAndAQuadruple", S + "precompute_buffers.cpp")],
     "gated value numbering of the precompute buffer's operations over the symbolic content of its queues",
     "Values for one key may be taken for another if the caller does not empty the buffer in between (by design).", ["getTriple, getTwoTriplesAndAQuadruple"])

prop("C25", "Random elements take every bit from the seeded generator, or throw",
     "Every element rand_q and rand_p return is the value, modulo the order, of output bytes of a generator that was seeded with bytes of the operating "
     "system: every one of its 256 (4096) bits is drawn, none masked off, fixed, or left uninitialised, so every element can occur; two draws share no "
     "bytes. When the operating system or the generator fails, or delivers fewer bytes than asked for, they throw and return nothing.",
     ["inputs", "fault_sequences"], "every outcome of every call to the operating system's source and to the generator, every byte they deliver",
     "secret nonces with known or repeated bits give the votes away; a test sees a few draws that all look random",
     [S + "random.hpp", S + "group.cpp", "src/karamel/Lib_RandomBuffer_System.c"],
     [("rand_q / rand_p", S + "group.cpp"), ("Random::getBytes", S + "random.hpp")],
     "abstract interpretation of the drawing of random elements down to the operating system's calls, each draw a symbol or a failure",
     "The quality of the operating system's bytes and of the HACL* HMAC-DRBG is taken as given.", ["rand_q, rand_p"])

prop("C16", "Secrets never reach a log line, an exception text or an output stream",
     "No vote, plaintext, encryption nonce or nonce seed, proof randomness, precomputed exponent, secret key or session key, nor anything computed from one "
     "other than by exponentiation in the group or as the response of a proof, is written to the log at any level, to standard output or error or a file "
     "stream, or put into the text of an exception, in the C++ library and behind the C interface.",
     ["inputs"], "every function and every path to a log call, throw or stream, every log level",
     "log lines and exception texts leave the machine that holds the votes; tests do not read them",
     [S + "encrypt.cpp", S + "elgamal.cpp", S + "chaum_pedersen.cpp", S + "ballot.cpp", S + "nonces.cpp", S + "log.hpp"],
     [("Log::trace … error, throw", S + "log.hpp")],
     "interprocedural information-flow analysis over the resolved syntax tree, from the secrets of the public interface to log calls, exception texts and streams",
     "Explicit flows: what a branch on a secret reveals by which message appears (such as 'too many votes') is not counted. Object ids are not secrets.", ["Log, throw, std::cout"])
prop("C17", "Elements and derived keys are wiped from memory after use",
     "When an ElementModP or ElementModQ is destroyed, every byte of its limbs has been overwritten by a call the compiler may not remove; in hashed ElGamal "
     "encryption and decryption, every block key and MAC key derived for it is overwritten over its whole length when it has been used, before its scope is "
     "left, also when authentication fails.",
     ["inputs"], "every value, every path out of the scope of a derived key",
     "freed memory with keys and nonces in it can be read later; no test looks at freed memory",
     [S + "group.cpp", S + "elgamal.cpp"],
     [("ElementModP::Impl::~Impl, ElementModQ::Impl::~Impl", S + "group.cpp"), ("HashedElGamalCiphertext::decrypt, hashedElgamalEncrypt", S + "elgamal.cpp")],
     "abstract interpretation of the destructors over the object's bytes; scope analysis of the buffers that hold derived keys",
     "Copies made by value inside HACL* wrappers and temporaries are not covered.", ["element destructors, hashed ElGamal"])

prop("C28", "A manifest is valid exactly when all its parts and references are",
     "ContestDescription::isValid returns true exactly when: the number elected is at most the number of selections; votes allowed is 0 or at least the number elected; "
     "every selection has a non-empty object id and a non-empty candidate id; and no two selections share an object id, a candidate id or a sequence order. "
     "Manifest::isValid returns true exactly when: every geopolitical unit, ballot style, party, candidate and contest has a non-empty object id that no other entry of its kind has; "
     "every ballot style names at least one geopolitical unit and only units of the manifest; every candidate's party id is empty or is that of a party of the manifest; "
     "every contest's electoral district is a geopolitical unit of the manifest; no two contests share a sequence order; and every contest is itself valid. "
     "This holds whatever the number and order of the entries: a defect in any one of them, first, last or between, makes the answer false.",
     ["inputs"], "every manifest and contest description: all collections of any length, all ids and numbers",
     "A manifest accepted with a dangling or repeated id gives ballots that cannot be counted or counted twice; the tests check one valid and one invalid manifest.",
     [S + "manifest.cpp", "include/electionguard/manifest.hpp"],
     [("ContestDescription::isValid", S + "manifest.cpp"), ("Manifest::isValid", S + "manifest.cpp")],
     "gated value numbering: the returned condition as a formula over all elements of the collections, compared with the stated one",
     "Obligations are implications between quantified conditions over the collections; conditions over prefixes of a loop (break) are kept exact. A form that is not reduced to such a condition is left undecided.",
     ["return value of ContestDescription::isValid", "return value of Manifest::isValid"])

prop("C30", "The internal manifest is the manifest, with placeholders of its own",
     "An InternalManifest built from a Manifest has all its geopolitical units, candidates and ballot styles in their order, the hash Manifest::crypto_hash gives, and one contest for "
     "every contest, with every getter's value unchanged and exactly numberElected placeholders, whose object ids, candidate ids and sequence orders differ from one another and whose sequence orders are "
     "above those of every selection of that contest. getContests, getSelections and getPlaceholders give all of them in sequence order. getBallotStyle returns the style with that id, null "
     "when there is none; getContestsFor throws for an unknown style and otherwise returns, in sequence order, exactly the contests whose electoral district is among the style's geopolitical units; "
     "ContestDescriptionWithPlaceholders::selectionFor returns the selection or placeholder with that id and throws when there is none; IsPlaceholder is true exactly for the ids of its placeholders.",
     ["inputs"], "every manifest: any number and order of units, candidates, contests, selections and styles, any ids and sequence orders; every id looked up",
     "Every ballot is encrypted against this object: a contest missing from a style, or a placeholder that collides with a selection, silently loses or misplaces votes; the tests use two fixed manifests.",
     [S + "manifest.cpp", "include/electionguard/manifest.hpp"],
     [("InternalManifest::InternalManifest", S + "manifest.cpp"), ("InternalManifest::getContestsFor", S + "manifest.cpp"), ("generatePlaceholderSelectionFrom", S + "manifest.cpp")],
     "gated value numbering of the constructor, getters and look-ups; loops as binders over the collections",
     "Uint64 overflow of sequence orders is not considered. A loop form that does not reduce to a binder over the collection is left undecided.",
     ["values of the getters of InternalManifest and ContestDescriptionWithPlaceholders", "results and exceptions of the look-ups"])


prop("C32", "Decryption gives the encrypted vote, or no result",
     "ElGamalCiphertext::decrypt(s) returns 0 exactly when data / pad^s mod P is 1, 1 exactly when it is g, and the largest 64-bit number (no result) for every other ciphertext, "
     "among them those with a pad that is zero or not below P. ElGamalKeyPair::fromSecret throws for a secret below 2 and for every other secret s returns the pair of s and g^s mod P.",
     ["inputs"], "every pad of 4096 bits, every data below P, every secret below Q",
     "A ciphertext that decrypts to 0 or 1 although it holds something else is a forged vote; the tests decrypt a few honest ciphertexts.",
     [S + "elgamal.cpp", "include/electionguard/elgamal.hpp"],
     [("ElGamalCiphertext::decrypt", S + "elgamal.cpp"), ("ElGamalKeyPair::fromSecret", S + "elgamal.cpp")],
     "abstract interpretation over integer polynomials: the quotient as a residue polynomial, the paths' comparisons as constraints on it",
     "HACL* primitives are the vocabulary (their contracts, including refusal of unreduced bases and of zero inverses, are assumed).",
     ["return value of ElGamalCiphertext::decrypt", "key pair or exception of ElGamalKeyPair::fromSecret"])
prop("C33", "C linked lists give back every pair put in, in order",
     "An eg_linked_list_t holds the pairs appended to it, in order: eg_linked_list_append adds a copy of key and value as the last pair, whatever the list holds; "
     "eg_linked_list_delete_last removes exactly the last pair and releases its storage; get_count is the number of pairs; get_element_at and get_value_at hand out the key and value of the "
     "pair at that position and refuse a position that is not below the count; a new list is empty, and eg_linked_list_free releases every pair and the list.",
     ["inputs", "histories"], "every list, every sequence of appends and deletions, every position",
     "Extended data of elections reaches C callers through these lists; the tests look at lists of a few pairs and never at what is left after deletions.",
     [S + "facades/collections.c", "include/electionguard/collections.h"],
     [("eg_linked_list_*", S + "facades/collections.c")],
     "gated value numbering of each operation, compared with its specification on the three shapes of list (empty, one, more) as an inductive step",
     "A list kept in another data structure is left undecided. malloc and strdup are taken to succeed.",
     ["pairs read through eg_linked_list_get_element_at after any sequence of operations"])

prop("C23", "No array of the library is ever accessed outside its bounds",
     "No operation of the library or of the HACL* code below it reads or writes outside the object it was given, for any input, size or history.",
     ["inputs", "histories"], "every input and every size",
     "an access just past a buffer usually goes unnoticed in a test",
     [S + "group.cpp", "src/karamel/Hacl_Bignum4096.c"], [("every array access", "src")],
     "none", "", [], claim=False,
     reason="decided only in parts (C09, C25, C31: the arrays of the group operations, of the elements and of the random draws). In general the sizes are run-time "
            "quantities (lengths of texts, serialized data, queues, HACL* scratch buffers addressed by computed offsets) that no sound static argument in reach bounds; "
            "a lint over memcpy/index sites would either alarm on correct code or prove nothing.")
prop("C34", "The time an operation takes does not depend on the secrets it handles",
     "Exponentiation, comparison and hashing of secret elements take the same time and touch the same memory whatever the secret's value.",
     ["inputs"], "every secret",
     "tests do not measure time",
     [S + "group.cpp", S + "lookup_table.hpp"], [("pow_mod_p / lookup table", S + "group.cpp")],
     "none", "", [], claim=False,
     reason="time and cache behaviour are properties of the generated machine code and the processor, not of the source; moreover the fixed-base tables are indexed "
            "by digits of the exponent by design, so the claim in its strict form does not hold of this library.")
prop("C35", "Encryption with precomputed values is never slower than without",
     "Populating the precompute buffers in the background finishes within the time and memory it is given, and encryption that finds values there is faster.",
     ["schedules", "configurations"], "every machine and schedule",
     "timing depends on the machine",
     [S + "precompute_buffers.cpp"], [("PrecomputeBufferContext::populate", S + "precompute_buffers.cpp")],
     "none", "", [], claim=False,
     reason="a statement about run-time durations and scheduler progress; static analysis bounds neither. What the buffer holds, hands out and locks is C29 and C22.")


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_t"}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
           "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's sources as they are", "source_commits": []},
           "notes": "All checks are static: an extractor (tool/egx.cpp, clang libTooling) turns every translation unit into facts, rules under eg/rules decide them."}
    for p in P:
        t, note, claim, reason = p["_t"]
        if claim:
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 run_check.py " + p["id"],
                                  "thorough_cmd": "python3 run_check.py %s --thorough" % p["id"],
                                  "technique": "static analysis: " + t, "level": "other", "level_note": note})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": reason})
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
