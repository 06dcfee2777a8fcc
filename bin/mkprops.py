#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts are kept here) and MANIFEST.json (from props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "src/include/sse/crypto/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Every plaintext is recovered from its ciphertext, by any holder of the key",
  "For every non-empty message, decrypting its encryption with any cipher object that holds the same key gives it back exactly, whatever either object did before, for strings (in place included) and byte arrays. "
  "A ciphertext is 32 bytes longer than the message and has a fixed format (16-byte nonce, then ChaCha20-Poly1305 under a key derived by keyed BLAKE2b from the master key and the nonce), so that it stays readable by other builds.",
  ["inputs", "histories"], "all messages, keys, nonces and histories of encryptions and decryptions on several live objects",
  "the tests encrypt a few fixed strings and arrays with one object; length-, content-, nonce- and history-dependent failures need the whole space",
  [I + "cipher.hpp", "src/cipher.cpp"], [("nonce-derived AEAD", "src/cipher.cpp Cipher::encrypt/decrypt"), ("length bookkeeping", I + "cipher.hpp ciphertext_length/plaintext_length")],
  ["Cipher::encrypt", "Cipher::decrypt", "Cipher::ciphertext_length", "Cipher::plaintext_length"])
p("C02", "An altered ciphertext is always rejected and yields no plaintext",
  "Decrypting a string that is not a ciphertext made with this key (any bit changed in nonce, body or tag, truncated, extended, recombined from other ciphertexts, or made with another key) raises runtime_error, or invalid_argument when it is too short to be one, and leaves the caller's output string untouched. "
  "A refused decryption does not change what later calls on the same object return.",
  ["inputs", "histories"], "all ciphertexts and all alterations of them, in any order with valid decryptions",
  "the tests flip one bit position of one ciphertext; a position, length or order that escapes verification is outside their sample",
  ["src/cipher.cpp"], [("AEAD tag verification", "src/cipher.cpp Cipher::decrypt"), ("length guard", "src/cipher.cpp Cipher::decrypt(string)")], ["Cipher::decrypt"])
p("C03", "Keys, nonces and samples come fresh and whole from the system generator",
  "Every randomised result (default-constructed keys and objects of every class, nonces of encryption and wrapping, random byte functions, sampled trapdoor messages) takes all its bits from the system's random generator: each bit of the generator's answer influences the result, and two calls never reuse the same answer. "
  "RSA keys are generated from that same generator: the bits of the primes come from its answers.",
  ["inputs", "histories", "configurations"], "all generator answers, all sequences of randomised calls, with and without memory locking",
  "tests can only see that two results differ; a partially filled buffer, a reused or truncated nonce or a fixed seed passes them",
  ["src/random.cpp", I + "random.hpp", I + "key.hpp", "src/cipher.cpp", I + "wrapper.hpp", I + "prp.hpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
  [("randombytes_buf for all randomness", "src/random.cpp"), ("random default keys", I + "key.hpp Key::Key()")],
  ["random_bytes", "random_string", "Key()", "Cipher::encrypt", "Wrapper::wrap", "Tdp::sample", "TdpInverse()"])
p("C04", "The PRG's output is one fixed stream, whatever slice or function reads it",
  "For every key, the bytes at positions [offset, offset+len) of the generator are the same whether obtained through member or static functions, pointers, arrays or strings, from offset 0 or any other offset, in any order and after any history; and they are the ChaCha20 keystream of the key with the library's fixed nonce. "
  "Keys derived from the generator (one or many, at any key offset) hold exactly the corresponding slices of that stream.",
  ["inputs", "histories"], "all keys, offsets, lengths and call histories",
  "the tests compare a few offsets; block-boundary, offset and state dependent errors need every (offset, length) residue",
  [I + "prg.hpp", "src/prg.cpp"], [("offset to block counter arithmetic", "src/prg.cpp Prg::derive")], ["Prg::derive", "Prg::derive_keys", "Prg::derive_key"])
p("C05", "PRF, HMAC and hash are fixed deterministic functions of their input bytes",
  "Prf<N>, HMAC and Hash are the published functions (keyed BLAKE2b/HMAC-BLAKE2b with the library's output extension, HMAC of RFC 2104, BLAKE2b, SHA-512) of key and input, for every input and output length, through every overload, and independent of call history and of which object with that key computes them. "
  "Derived keys equal the corresponding output bytes, and outputs requested longer than the function can produce without repeating are refused at compile time.",
  ["inputs", "histories"], "all keys, messages, output lengths and call histories",
  "the tests use known answers for few lengths and one output size; truncation, padding and extension errors depend on the lengths",
  [I + "prf.hpp", "src/prf.cpp", I + "hmac.hpp", "src/hmac.cpp", I + "hash.hpp", "src/hash.cpp", "src/hash/sha512.cpp", "src/hash/blake2b.cpp"],
  [("output extension", I + "prf.hpp PrfBase"), ("ipad/opad, key padding", I + "hmac.hpp")], ["Prf::prf", "Prf::derive_key", "HMac::hmac", "Hash::hash"])
p("C06", "Encryption by the PRP is a length-preserving bijection that decryption inverts",
  "For every key and every string (and 32/64-bit integer), encrypting gives a string of the same length, decrypting it gives the original back, decrypting any string and encrypting the result gives that string back, and the map is one fixed function (AEZ v4.1 without associated data) of key and string, for every length and after any history. "
  "Distinct strings of a length have distinct images, and both key and every input byte influence the image.",
  ["inputs", "histories"], "all keys, lengths, contents and operation histories on several live objects",
  "the tests round-trip a few lengths; AEZ has many length classes and a hardware path, and a wrong class still round-trips elsewhere",
  [I + "prp.hpp", "src/prp.cpp", "src/aez/aez_ni.c"], [("AEZ tiny/core", "src/aez/aez_ni.c"), ("integer wrappers", I + "prp.hpp")], ["Prp::encrypt", "Prp::decrypt", "Prp::encrypt_64", "Prp::decrypt_64", "Prp::encrypt_string"])
p("C07", "A constrained RC-PRF agrees with the full one everywhere in its range",
  "For every tree height, key, range and leaf, a key constrained to the range (once or repeatedly, moved, wrapped and unwrapped, or reassembled from its elements) evaluates each leaf of its range to the value of the unconstrained function; that value is a fixed function of root key, height and leaf. "
  "Evaluating a range calls back exactly once per leaf in increasing order, with the same value as single evaluation; and this continues to hold after the source object is destroyed.",
  ["inputs", "histories"], "all heights, ranges, nested ranges, leaves and histories of constraining and evaluating",
  "the tests sample one or two trees; which inner node covers a range depends on the alignment of both its ends",
  [I + "rcprf.hpp", "src/rcprf.cpp"], [("cover of the range by subtrees", I + "rcprf.hpp generate_constrained_subkeys"), ("subtree evaluation", I + "rcprf.hpp ConstrainedRCPrfInnerElement")],
  ["RCPrf::eval", "RCPrf::eval_range", "RCPrf::constrain", "ConstrainedRCPrf::eval", "ConstrainedRCPrf::eval_range", "ConstrainedRCPrf::constrain"])
p("C08", "A constrained RC-PRF reveals and evaluates nothing outside its range",
  "A key constrained to a range refuses every evaluation, range evaluation and further constraining that is not inside the range (out_of_range, or invalid_argument for reversed or empty ranges), calling back nothing; and neither its exported form nor the memory it owns contains a leaf value outside the range or a node from which one can be derived. "
  "The unconstrained function likewise refuses leaves and ranges beyond its number of leaves and heights outside the documented bounds.",
  ["inputs", "histories"], "all heights, ranges, and query points inside and outside",
  "the tests query a few points outside one range and never look at the key material",
  [I + "rcprf.hpp"], [("bounds checks", I + "rcprf.hpp eval/eval_range/constrain"), ("minimal subtree selection", I + "rcprf.hpp generate_constrained_subkeys")],
  ["ConstrainedRCPrf::*", "RCPrf::*", "Wrapper::wrap"])
p("C09", "A set hash depends only on the multiset added and removed",
  "The value of a set hash is the group sum of its elements' hashes, minus the removed ones: it is the same for every order and grouping of additions, removals, copies and unions, removal undoes addition exactly, the empty set gives the neutral value, and different multisets give different values. "
  "Its exported form re-imports to an equal hash, and anything that is not the encoding of a group element is refused with invalid_argument.",
  ["inputs", "histories"], "all element sets, all histories of operations, all 32-byte encodings",
  "the tests try three elements in two orders",
  [I + "set_hash.hpp", "src/set_hash.cpp"], [("ristretto/ed25519 group operations", "src/set_hash.cpp")], ["SetHash::add_element", "SetHash::remove_element", "SetHash::add_set", "SetHash::remove_set", "SetHash::data", "SetHash(array)"])
p("C10", "An unwrapped object behaves exactly like the object that was wrapped",
  "For every wrappable class (Cipher, Prf, Prg, Prp, RCPrf, ConstrainedRCPrf, TdpInverse), every object and every wrapper key, unwrapping the representation made by any wrapper with the same key yields an object with the same behaviour, and the wrapped object continues to work. "
  "The representation is fixed (type byte and content, sealed under the wrapper key and a random nonce), so that it can be read by other builds, and empty or extremal objects are included.",
  ["inputs", "histories"], "all objects of all wrappable classes, wrapper keys and histories of wrapping, moving and unwrapping",
  "the tests wrap one random object per class; the constrained RC-PRF has a variable-size recursive encoding",
  [I + "wrapper.hpp", "src/wrapper.cpp", I + "rcprf.hpp", I + "prf.hpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", "src/tdp.cpp"],
  [("serialize/deserialize pairs", "every wrappable class")], ["Wrapper::wrap", "Wrapper::unwrap"])
p("C11", "Only an untouched representation of the right type, size and key unwraps",
  "Unwrapping a representation with any bit changed, truncated, extended, spliced from two others, made with another wrapper key, or made from an object of another class or template parameter is refused with an exception (and never yields an object), leaving the given representation unchanged and the wrapper usable; every class and parameter has its own type. "
  "A malformed content sealed under the right key is refused too, without reading outside of it.",
  ["inputs", "histories"], "all representations, alterations and (class, class) pairs",
  "the tests change one byte and try a single wrong type",
  [I + "wrapper.hpp", "src/wrapper.cpp"], [("AEAD with type byte and parameters as associated data", I + "wrapper.hpp")], ["Wrapper::unwrap"])
p("C12", "Key memory is inaccessible whenever no operation is using it",
  "With memory locking enabled, after every public operation, whether it returns or throws, and after any history of operations, moves and destructions, the memory of every live key cannot be read or written (and a key object in use elsewhere is not disturbed); locking and unlocking never lose or change the key. "
  "No operation leaves key material behind in accessible heap memory that the library owns.",
  ["histories", "inputs", "fault_sequences"], "all operations of all classes, all histories of them, including failing calls",
  "tests see return values only; a missing re-lock on one path or one exception changes none of them",
  [I + "key.hpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", I + "prf.hpp", I + "hmac.hpp", I + "rcprf.hpp"],
  [("lock after each use", I + "key.hpp Key::lock/unlock")], ["memory protection of the pages that hold keys after each call"], [("page protection", "PROT_NONE at rest", "libsodium guarded heap")])
p("C13", "Keys are consumed exactly once: buffers wiped, moved-from keys empty",
  "Constructing a key from a caller's buffer copies all its bytes and wipes that buffer; a moved-from key or object is empty and using it is refused with an exception instead of working on stale or foreign memory; move assignment leaves exactly one owner (a key assigned to itself keeps its content), and each key's memory is freed exactly once. "
  "This holds after every history of constructions, moves, swaps and destructions.",
  ["histories", "inputs"], "all histories of construction, move, assignment, use and destruction on several keys and objects, all key sizes",
  "the tests move each class once",
  [I + "key.hpp", I + "cipher.hpp", I + "prf.hpp", I + "prg.hpp", I + "prp.hpp", I + "rcprf.hpp", I + "wrapper.hpp"],
  [("move operations", I + "key.hpp")], ["buffers passed to constructors", "behaviour and memory of moved objects"])
p("C14", "Trapdoor inversion undoes evaluation, any number of times at once",
  "For every RSA key and every message, evaluating the public permutation is exponentiation modulo the modulus, inverting it gives back the message reduced modulo the modulus, and evaluating an inverse gives back the value; inverting k times at once equals k single inversions for every k including 0. "
  "Objects built from the private key, from its public part, copied, moved, wrapped or re-imported compute the same function, after any history.",
  ["inputs", "histories"], "all messages (0, 1, around the modulus and its factors, maximal), orders, keys and call histories",
  "the tests use random messages, for which boundary and carry cases have negligible probability",
  [I + "tdp.hpp", "src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/rsa.c"], [("CRT inversion with cached exponents", "src/tdp_impl/tdp_impl_mbedtls.cpp invert_mult")],
  ["Tdp::eval", "TdpInverse::eval", "TdpInverse::invert", "TdpInverse::invert_mult"])
p("C15", "A trapdoor pool evaluates each order exactly as iterated evaluation",
  "For every pool size and every order from 1 to that size, the pool's evaluation equals the order-fold application of the plain permutation of the same public key, and any other order is refused with invalid_argument; pools copied or assigned from each other (different keys and sizes included) behave as their source did, also after the source is destroyed. "
  "maximum_order() is the size given at construction.",
  ["inputs", "histories"], "all pool sizes, orders, messages and histories of copies and assignments",
  "the tests use one pool of one size",
  [I + "tdp.hpp", "src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"], [("precomputed exponents", "TdpMultPoolImpl_mbedTLS")], ["TdpMultPool::eval", "TdpMultPool::eval_pool", "TdpMultPool::maximum_order"])
p("C16", "Generated and sampled trapdoor messages are in range and deterministic",
  "Every message sampled or generated for a key, from a seed or a PRF, is below the modulus and has the fixed size; generation from a seed or PRF is a fixed function (the PRF output of fixed size reduced modulo the modulus) of seed, PRF key and public key, identical in public, private and pool objects and through strings and arrays, after any history. "
  "Sampling is the same reduction of the generator's answer.",
  ["inputs", "histories"], "all seeds, PRF keys, generator answers and RSA keys",
  "random samples never hit the extreme generator answers or leading zero bytes",
  ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", I + "tdp.hpp"], [("reduction modulo N", "TdpImpl_mbedTLS::generate/sample")], ["Tdp::sample", "Tdp::generate", "TdpInverse::generate", "TdpMultPool::generate"])
p("C17", "RSA keys survive export and import; malformed ones are refused",
  "Exporting the public or private key and importing it again, any number of times and through any class, gives an object computing the same function with an identical export; the exported text is standard PEM that another implementation reads, and standard PEM is accepted. "
  "Damaged, truncated, inconsistent, wrongly sized or wrong-kind keys are refused with an exception without reading outside the text.",
  ["inputs", "histories"], "all RSA keys of the supported size, all alterations of their encodings",
  "the tests import one generated key",
  ["src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/rsa_io.c", "src/mbedtls/pkparse.c", "src/mbedtls/pem.c", "src/mbedtls/asn1parse.c", "src/mbedtls/asn1write.c"],
  [("PEM/DER reader and writer", "src/mbedtls"), ("key validation", "src/mbedtls/rsa.c")], ["Tdp(pk)", "TdpInverse(sk)", "public_key", "private_key"])
p("C18", "Big-number arithmetic is exact for all operand sizes and aliasings",
  "The arithmetic behind the trapdoor permutation (comparison, shifts, addition, subtraction, multiplication, division, reduction, modular exponentiation, gcd, inverse, primality, prime generation, binary and text import/export) returns the mathematically exact result for every sign, length, limb pattern and for results stored in an operand, and reports its documented error otherwise. "
  "Failing calls do not crash and leave numbers usable.",
  ["inputs", "histories"], "all operands with boundary limb patterns, all aliasings, all operation histories",
  "carry and quotient-correction cases have probability about 2^-64 for random operands",
  ["src/mbedtls/bignum.c", "src/mbedtls/bn_mul.h", "src/mbedtls/bignum.h"], [("limb arithmetic", "src/mbedtls/bignum.c")], ["mbedtls_mpi_*"])
p("C19", "Base64, PEM and ASN.1 codecs invert each other and reject malformed input",
  "Encoding any bytes as base64, PEM or DER (lengths, integers, tags) and decoding gives them back, and an output buffer of the announced size suffices; decoders accept only well-formed input, report the documented error otherwise, and never read or write outside the given buffers whatever their sizes. "
  "A too small output buffer is reported with the required size and not overrun.",
  ["inputs"], "all byte strings and buffer sizes",
  "the tests decode a handful of strings",
  ["src/mbedtls/base64.c", "src/mbedtls/pem.c", "src/mbedtls/asn1parse.c", "src/mbedtls/asn1write.c"], [("codec functions", "src/mbedtls")], ["mbedtls_base64_encode/decode", "mbedtls_pem_read_buffer/write_buffer", "mbedtls_asn1_*"])
p("C20", "Operations on distinct objects in different threads never interfere",
  "Any operations run concurrently on distinct objects (also sharing a key's value, a class, or a copied source) return what they return alone, for every interleaving: no operation touches mutable memory that is reachable from another object or global, except under synchronisation. "
  "The same holds for any two calls of static or free functions.",
  ["schedules"], "all pairs of public operations on distinct objects and all their interleavings",
  "the tests are single-threaded, and an interleaving that interferes is improbable",
  ["src/*.cpp", "src/mbedtls/*.c", "src/aez/aez_ni.c", I + "*.hpp"], [("no mutable globals; thread-safe generator", "whole library")], ["results of operations; memory accesses"])
p("C21", "An allocation failure never yields a wrong result or a leaked key",
  "If any memory allocation inside an operation fails, that operation reports it by an exception or error and returns no wrong result, does not crash, leaves no key memory unlocked or leaked, and the objects involved can still be used or destroyed; when the operation is repeated with memory available it gives the right result. ",
  ["fault_sequences", "inputs"], "every single allocation failing, at every allocation point of every public operation",
  "tests never see an allocation fail",
  [I + "key.hpp", "src/*.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", I + "wrapper.hpp"], [("bad_alloc/return code propagation", "whole library")], ["operations under injected allocation failures"])
p("C22", "Failing calls report as documented and leave objects as they were",
  "Every call with an argument outside its documented domain (empty or wrongly sized strings, null outputs, zero or excessive counts and orders, reversed ranges, moved-from objects) throws the documented exception class, before changing its outputs, and the object afterwards behaves exactly as if the call had not been made; calls inside the domain, including its boundary, do not throw.",
  ["histories", "inputs"], "all calls at and around the boundary of their domain, all sequences of failing and succeeding calls",
  "the tests check single failing calls on fresh objects",
  ["src/*.cpp", I + "*.hpp"], [("argument checks before effects", "every public function")], ["exceptions and later behaviour"])
p("C23", "Puncturable encryption decrypts exactly the unpunctured tags",
  "A ciphertext made for a tag is decrypted to its message by a punctured key as long as, and only as long as, the tag is not one of those it was punctured on, whatever and however many other tags were punctured, in whatever order, with shares made by any object holding the master key and listed in any order; a refused decryption leaves the output alone. "
  "An incomplete or mixed collection of shares, another owner's key, or a ciphertext whose parts were exchanged never gives the message; shares are a fixed function of the master key, their number and the tag, each freshly blinded, and encryption is randomised. The reserved tag is refused with invalid_argument by encryption and puncturing.",
  ["inputs", "histories"], "all tags, messages, puncture histories and orders, collections of shares",
  "the repository's tests of it use one history of five punctures with consecutive tags, and do not build here (RELIC is not installed)",
  ["src/puncturable_enc.cpp", I + "puncturable_enc.hpp", "src/ppke/GMPpke.cpp", "src/ppke/GMPpke.hpp", "src/ppke/util.hpp", "src/ppke/relic_wrapper/relic_api.cpp"],
  [("telescoping key shares", "src/ppke/GMPpke.cpp sk0Gen/skShareGen/puncture"), ("Lagrange interpolation of the tags", "src/ppke/util.hpp, GMPpke.cpp recoverBlind"), ("check of the punctured tags", "src/ppke/GMPpke.cpp isPuncturedOnTag")],
  ["PuncturableEncryption::encrypt", "PuncturableEncryption::initial_keyshare", "PuncturableEncryption::inc_puncture", "PuncturableDecryption::decrypt", "Gmppke::*"])
p("C24", "No operation reads or writes outside the buffers it is given",
  "Every function given a pointer and a length, array or string touches no byte outside of it, whatever the length, alignment and position in memory, modifies no input other than those documented as wiped, writes every byte of its output, and gives the same result for unaligned, adjacent and (where documented) identical input and output buffers.",
  ["inputs"], "all lengths, alignments and positions of buffers against unmapped memory",
  "an overread changes no result; tests have neither guard pages nor alignments",
  ["src/*.cpp", "src/aez/aez_ni.c", "src/mbedtls/*.c", I + "*.hpp"], [("length arithmetic", "whole library")], ["buffers between unmapped pages"])
p("C25", "Secrets are erased from memory when it is released",
  "When an object is destroyed or an operation ends, by return or exception, no heap memory released by the library still contains secret bytes: keys, keys and tree nodes derived from them, wrapped contents, RSA private numbers and private key text, or the temporaries holding generator output and plaintexts, for every class and operation history and also when an allocation fails on the way.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations on all classes, including failing ones",
  "freed memory is invisible to tests",
  [I + "key.hpp", I + "wrapper.hpp", I + "hmac.hpp", "src/prg.cpp", "src/prp.cpp"], [("sodium_free / sodium_memzero before delete", "whole library")], ["contents of freed blocks"])
p("C26", "A refused change of memory protection never loses a key or a result",
  "If the system refuses to change the protection of a key's memory inside an operation, the operation reports it by an exception: it never gives a wrong result, crashes, or returns normally with a key left readable. Key memory that was being set up is freed, keys whose protection was not refused are locked, the objects can still be destroyed or used again, and the repeated operation gives the right result and locks the key. "
  "On a system without memory protection (ENOSYS) every operation works as usual.",
  ["fault_sequences"], "every change of memory protection refused, in every public operation",
  "tests never see mprotect fail (those lines are excluded from coverage)",
  [I + "key.hpp", "src/*.cpp"], [("lock state changes only when the system agreed", I + "key.hpp lock/unlock"), ("cleanup in constructors", I + "key.hpp")], ["operations under refused changes of protection"])

NA = json.load(open(os.path.join(V, "bin/not_applicable.json")))
ids = {x["id"] for x in P}
claimed = [x["id"] for x in P if x["id"] in PROPS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks = []
for i in claimed:
    s = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=s.get("technique", "bounded exhaustive enumeration of inputs and operation sequences on the real code against a reference model"),
        level=s["level"], level_note="Exhaustive within: " + s["bounds"] + ". Trusted: " + "; ".join(s.get("assumptions", []) or ["the harness"])))
m = dict(version=1, setup_cmd="python3 bin/vbuild.py plain asan", checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "check under construction")) for i in sorted(ids) if i not in PROPS],
         notes="All checks compile /repo's current sources into /verif/build (ignored by git) and need no hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(claimed), "claimed")

# DESIGN.md: doc/head.md, one section per property, doc/tail.md
out = [open(V + "/doc/head.md").read() + "## Properties\n"]
cost = json.load(open(V + "/doc/cost.json")) if os.path.exists(V + "/doc/cost.json") else {}
for x in P:
    i = x["id"]
    out.append("### %s: %s\n" % (i, x["title"]))
    if i not in PROPS:
        out.append("Not claimed: %s\n" % NA.get(i, "check under construction"))
        continue
    s = PROPS[i]
    out.append("* Level: %s. %s." % (s["level"], s.get("technique", "Bounded exhaustive enumeration of inputs and operation sequences on the real code against a reference model").rstrip(".")))
    out.append("* Enumerated and compared: %s." % s["rule"].rstrip("."))
    out.append("* Bounds (quick): %s." % s["bounds"].rstrip("."))
    if s.get("bounds_thorough"):
        out.append("* Bounds (thorough): %s." % s["bounds_thorough"].rstrip("."))
    out.append("* Units: %s." % "; ".join("checks/%s/%s (%s%s)" % (u.get("dir", i), u["src"][0], u["variant"], ", thorough only" if u.get("thorough_only") else "") for u in s["units"]))
    if s.get("assumptions"):
        out.append("* Trusted: %s." % "; ".join(s["assumptions"]))
    out.append("* What the tests cannot reach: %s." % x["why_tests_cant"].rstrip("."))
    if i in cost:
        out.append("* Cost on 8 cores, with build: %s." % cost[i])
    out.append("")
tail = open(V + "/doc/tail.md").read()
tail = tail.replace("@FIXED@", "\n".join("* %s (%s): %s" % tuple(l.split(" ", 3)[1:4]) for l in open(V + "/known_findings.txt").read().replace("property=", "").splitlines() if l.startswith("fixed:")))
res = json.load(open(V + "/doc/seed_results.json")) if os.path.exists(V + "/doc/seed_results.json") else {}
rows = ["| planted bug | property | what it breaks | quick check |", "|---|---|---|---|"]
if os.path.isdir(V + "/seeded"):
    for d in sorted(os.listdir(V + "/seeded")):
        q = json.load(open(V + "/seeded/%s/meta.json" % d))
        rows.append("| %s | %s | %s | %s |" % (d, q["property"], q["what_it_breaks"], res.get(d, "?")))
    tail = tail.replace("@SEEDS@", "\n".join(rows))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail)
