PROPS = {}
WRAP = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free",)
PROPS["C04"] = dict(
    level="model_checking",
    rule="one case per (key content, offset, length) window, per (key size, offset) and (key size, number, offset) derivation and per operation "
         "sequence on one generator; every public overload is executed and compared byte for byte with an independent ChaCha20; outcomes are distinct expected streams",
    bounds="windows offset 0..130 x length 0..200, 10 key contents and all 256 one-bit key changes, lengths to 2 MiB, offsets around every power of two to 2^64, "
           "13 derived-key sizes, operation sequences to depth 4 over 8 operations",
    bounds_thorough="windows offset 0..260 x length 0..520, lengths to 32 MiB, operation sequences to depth 5",
    assumptions=["the ChaCha20 reference in mc/ref.hpp (written from RFC 7539, cross-checked with OpenSSL)"],
    units=[dict(name="prg", src=["prg.cpp"], variant="plain"), dict(name="prg-asan", src=["prg.cpp"], variant="asan")])
PROPS["C05"] = dict(
    level="model_checking",
    rule="one case per (function, key content/size, message length and content, output length) and per sequence of calls on one object; each overload is "
         "executed and compared with independent BLAKE2b/HMAC/counter-mode references (SHA-512: OpenSSL); outcomes are distinct expected values",
    bounds="hash: every length to 2100 x 5 contents and the neighbourhoods of powers of two to 4 MiB, every output length; HMAC: 13 hash/key-size pairs, lengths to 140..600 and 2^k to 256 KiB or 2 MiB, every key bit; "
           "PRF: every output size 1..65 and 22 larger ones to 16384, call sequences to depth 3 over 13 calls",
    bounds_thorough="hash to 64 MiB, HMAC to 16 MiB, call sequences to depth 4",
    assumptions=["BLAKE2b reference in mc/ref.hpp (written from RFC 7693), OpenSSL SHA-512"],
    units=[dict(name="prf", src=["prf.cpp"], variant="plain")])
PROPS["C01"] = dict(
    level="model_checking",
    rule="one case per (length, content, key), per nonce value answered by the generator, per array size and per operation sequence on three live cipher objects; each ciphertext is recomputed by an "
         "independent implementation from its nonce, decrypted by several objects and in place; outcomes are distinct ciphertexts",
    bounds="every length to 2200 x 5 contents, neighbourhoods of powers of two to 4 MiB, all 1- and 2-byte messages, 40 keys, each nonce byte at each value, 23 array sizes, operation sequences to depth 4 over 12 operations",
    bounds_thorough="every length to 9000, to 64 MiB, operation sequences to depth 5",
    assumptions=["BLAKE2b reference in mc/ref.hpp, OpenSSL ChaCha20-Poly1305", "libsodium's generator replaced through its public interface"],
    units=[dict(name="cipher", src=["cipher.cpp"], variant="plain")])
PROPS["C02"] = dict(
    level="model_checking",
    rule="one case per (length, alteration family, position): every single-bit flip, byte replacement, pair of bit flips, truncation, extension, insertion, deletion, splice of two ciphertexts, block exchange, one-bit key change; "
         "each must be refused with the documented exception and an untouched output; outcomes are distinct refused strings",
    bounds="lengths 1..150 and 2^k to 4096 (bit flips, truncations, extensions), a choice of them for 2^k to 8 MiB, pairs of bits for lengths 1, 2, 17, sequences of valid/forged calls to depth 5 over 6 calls",
    bounds_thorough="lengths 1..600 and 2^k to 20000, sequences to depth 6",
    assumptions=["alterations are enumerated within the stated families; resistance to all forgeries is the AEAD's cryptographic assumption"],
    units=[dict(name="forge", src=["forge.cpp"], variant="plain")])
PROPS["C03"] = dict(
    level="model_checking",
    rule="the system's random generator is replaced by a controlled stream; one case per randomised function and stream, each executed once per bit of the generator's answer (every bit must change the result, and no two answers "
         "may give the same one), per sequence of randomised calls, and per long run on one object; outcomes are distinct results",
    bounds="56 randomised functions x 3 streams, every bit of the answers up to 300 bytes (every 37th..4001st bit above), call sequences to depth 3 over 12 calls, runs of 3000 calls, lengths 1 to 1200 and the neighbourhoods of the powers of two to 3*2^20, every generator bit used by a 256-bit RSA key generation",
    bounds_thorough="call sequences to depth 4, runs of 70000 calls, 24 pairs of key generations",
    assumptions=["libsodium's generator (replaced through its public interface) is a good generator"],
    units=[dict(name="fresh", src=["fresh.cpp"], variant="plain"), dict(name="fresh-nolock", src=["fresh.cpp"], variant="nolock", args=["symmetric"])])
PROPS["C06"] = dict(
    level="model_checking",
    rule="one case per (length, content, key), per slice of a complete short domain, per altered byte or key bit, per integer and per operation sequence on two live objects; each image is compared with an independent "
         "AEZ implementation and inverted, and each string is also deciphered and enciphered again; outcomes are distinct images",
    bounds="every length 0..1300 x 5 contents, neighbourhoods of powers of two to 4 MiB, all 1- and 2-byte strings for 6 keys, byte values at every position for 28 lengths, all 384 key bits, operation sequences to depth 5 over 8 operations",
    bounds_thorough="every length to 4200, to 8 MiB, all 1- and 2-byte strings for 40 keys, all 3-byte strings, operation sequences to depth 6",
    assumptions=["the portable AEZ v4.1 reference in mc/refaez.hpp (cross-checked with the library, no third implementation is installed)"],
    units=[dict(name="prp", src=["prp.cpp"], variant="plain")])
PROPS["C07"] = dict(
    level="model_checking",
    rule="one case per tree, per constrained range (each constrained again to every sub-range, up to three times), per first end point of the boundary ranges of a tall tree, per operation chain "
         "(constrain/wrap/move/join/destroy source) and per assembled key; every evaluation is compared with an independent tree of ChaCha20-derived nodes; states are (range, source alive)",
    bounds="all ranges and sub-ranges of trees of height 2..6 (leaf sizes 16, 32; 1..65535 at small heights), boundary ranges for 18 heights to 64, operation chains to depth 4 over 9 operations",
    bounds_thorough="all ranges to height 7, all powers of two in tall trees, operation chains to depth 6",
    assumptions=["ChaCha20 reference in mc/ref.hpp"],
    units=[dict(name="agree", src=["agree.cpp"], variant="plain")])
PROPS["C08"] = dict(
    level="model_checking",
    rule="one case per constrained range (constrained again to each sub-range), per boundary range of a tall tree, per height and per element description; every evaluation, range evaluation and constraining with an end point outside must be "
         "refused without calling back, and neither the exported form nor the process' key memory may hold any node of the tree whose leaves are not all inside the range, nor a leaf outside; outcomes are distinct ranges",
    bounds="all ranges of trees of height 2..6 against all end points (height <=5) or boundary ones, boundary ranges for 9 heights to 64, heights 0..255",
    bounds_thorough="all ranges to height 7, all powers of two in tall trees",
    assumptions=["ChaCha20 reference in mc/ref.hpp", "the wrapper's format (decided by C10) is used to look into exported keys"],
    units=[dict(name="confine", src=["confine.cpp"], variant="plain")])
PROPS["C09"] = dict(
    level="model_checking",
    rule="one case per element, per history of additions, removals, copies and unions on two live hashes, per state of the multiset model (all its transitions are executed), per insertion order and split, and per 32-byte encoding; "
         "every hash is compared with the sum of the elements' points computed by independent affine GMP arithmetic; states are multisets (signed counts)",
    bounds="element lengths 0..400 x 5 contents and 2^k to 4 MiB, all strings of at most 2 bytes, histories to depth 4 over 16 operations, multisets with counts -2..2, all 120 orders of 5 elements, all one-bit changes of 4 encodings, all small and non-canonical ones",
    bounds_thorough="element lengths to 1500 and 4 MiB, histories to depth 5, counts -4..4, one-bit changes of 12 encodings",
    assumptions=["libsodium's map from uniform bytes to the curve; BLAKE2b reference in mc/ref.hpp"],
    units=[dict(name="sethash", src=["sethash.cpp"], variant="plain")])
PROPS["C10"] = dict(
    level="model_checking",
    rule="one case per (class, object, wrapper key), per range of a small tree and per sequence of wrap/unwrap/move/replace operations on one wrapper and three objects; representations are compared with an independent model of the format, "
         "and unwrapped objects with a fingerprint of the expected behaviour; outcomes are distinct representations",
    bounds="29 classes x up to 12 objects x 4 wrapper keys, all ranges of trees of height 2..7, operation sequences to depth 4 over 9 operations",
    bounds_thorough="operation sequences to depth 6",
    assumptions=["references of mc/ref.hpp, mc/refaez.hpp", "libsodium's generator replaced through its public interface"],
    units=[dict(name="wrap", src=["wrap.cpp"], variant="plain")])
PROPS["C11"] = dict(
    level="model_checking",
    rule="one case per (class, object, position or family of alteration), per ordered pair of classes, per type byte, per wrapper-key bit and per malformed content; every altered representation must be refused with the documented exception and left as it was; "
         "outcomes are distinct refused representations",
    bounds="10 classes x up to 9 objects: at every byte all bit flips, 4 replacements, truncation, deletion, insertion, exchange and compensated changes; splices; 256 wrapper-key bits; 18x17 pairs of classes; 256 type bytes; every shorter content",
    bounds_thorough="every byte of the long representations too",
    assumptions=["alterations are enumerated within the stated families; resistance to all forgeries is the PRF's cryptographic assumption", "the format model of mc/refwrap.hpp (decided by C10)"],
    units=[dict(name="forge", src=["forge.cpp"], variant="plain"), dict(name="forge-asan", src=["forge.cpp"], variant="asan", thorough_only=True)])
PROPS["C12"] = dict(
    level="model_checking",
    rule="one case per operation, per ordered pair and per triple of operations (succeeding, failing, rebuilding, or left because an allocation failed) on a world with one object of every class; after every operation all live key blocks must be inaccessible (asked from the kernel), "
         "unchanged and as many as before, and no part of one may be in accessible heap or global memory; states are contents of the key memory, outcomes (operation, result)",
    bounds="all 160 operations, all ordered pairs of the 128 symmetric ones, each operation with each of its allocations (and all from it on) failing, triples with two failing or rebuilding operations, 13 key sizes",
    bounds_thorough="all triples of operations within the symmetric and the RC-PRF families",
    assumptions=["keys live in libsodium's guarded heap, whose allocation functions are wrapped to list the live blocks", "RSA private keys are outside this protection by design and not claimed"],
    units=[dict(name="rest", src=["rest.cpp"], variant="plain", ld=WRAP)])
PROPS["C13"] = dict(
    level="model_checking",
    rule="one case per pair of first operations of a history; all continuations to the depth bound are executed. Slots hold a key or object, are moved-from or destroyed; after every operation each slot must behave as the ownership model says "
         "(content or behaviour of the key it owns, refusal if empty), with exactly one block of key memory per key and none freed twice; states are ownership states, outcomes are not counted",
    bounds="keys: 2 slots to depth 5 (21 operations) and 3 slots to depth 4 (39 operations) for 32-byte keys, one less for five other sizes; objects of 10 classes: 2 slots to depth 4 or 5 over 16 operations; 30 consuming functions x 6 keys, with and without memory locking",
    bounds_thorough="one operation deeper",
    assumptions=["keys live in libsodium's guarded heap, whose allocation functions are wrapped to list the live blocks"],
    units=[dict(name="own", src=["own.cpp"], variant="plain"), dict(name="own-nolock", src=["own.cpp"], variant="nolock")])
PROPS["C14"] = dict(
    level="model_checking",
    rule="one case per (key, message), per pair of ways to obtain the private and the public object, per generator stream, per generated key and per prefix of a history on live objects; every eval, invert and invert_mult overload is "
         "compared with modular exponentiation over GMP; outcomes are distinct results, states are histories",
    bounds="11 keys (exponents 3 to 101 bits, exchanged and unbalanced primes, extremal moduli), 79 boundary messages each (0, 1, around modulus, factors, powers of two; unreduced), orders 0..20 and 23 boundary orders to 2^32-1 for one message in 8 and 6 orders for the others, "
           "5 x 6 object origins, 40 generator streams, runs of 500 inversions, histories to depth 3 over 14 operations",
    bounds_thorough="orders 0..140 and the boundary orders for every message, runs of 20000, histories to depth 4",
    assumptions=["GMP's powm"],
    units=[dict(name="tdp", src=["tdp.cpp"], variant="plain", libs=("sodium", "gmpxx", "gmp", "crypto"))])
PROPS["C15"] = dict(
    level="model_checking",
    rule="one case per (key, pool size) and per prefix of a history of three pools (creation, copy, assignment, destruction, use); every order 0..255 of every overload is compared with the iterated permutation over GMP or must be refused; "
         "states are (key, size) and configurations of the three pools, outcomes distinct results",
    bounds="8 keys (exponents 3 to 101 bits), sizes 0..10 and boundary sizes to 255 (thorough: all), 8 messages, histories to depth 4 over 40 operations on pools of 5 kinds, of the public class and of the two classes behind it",
    bounds_thorough="all sizes and all orders, histories to depth 5",
    assumptions=["GMP's powm", "sizes whose largest exponent exceeds the modulus are refused with runtime_error"],
    units=[dict(name="pool", src=["pool.cpp"], variant="plain", libs=("sodium", "gmpxx", "gmp", "crypto"))])
PROPS["C16"] = dict(
    level="model_checking",
    rule="one case per (RSA key, seed length), PRF key, block of 400 seeds, (sampling function, answer of the generator) and history; every generate/sample overload of the three classes is compared with the independent PRF "
         "(or the forced answer) reduced by GMP; outcomes are distinct messages, states histories",
    bounds="6 RSA keys, seed lengths 0..300 x 5 contents and 2^k to 1 MiB, 40 PRF keys, 6400 counter seeds per key, 30 boundary answers x 6 sampling functions, runs of 300 samples, histories to depth 4 over 10 operations",
    bounds_thorough="seed lengths to 700 and 1 MiB, 64000 counter seeds per key, runs of 5000, histories to depth 5",
    assumptions=["GMP; BLAKE2b reference in mc/ref.hpp"],
    units=[dict(name="gen", src=["gen.cpp"], variant="plain", libs=("sodium", "gmpxx", "gmp", "crypto"))])
PROPS["C17"] = dict(
    level="model_checking",
    rule="one case per key (all accepted text forms, OpenSSL as reader and writer), per chain of exports and imports, per position of the text and byte of the encoding (all alterations there), per inconsistent number, per modulus size and per structural change; "
         "an altered text must be refused with an exception, or the object must be the key an independent decoder reads from it (private keys: the original); outcomes are distinct texts or refusals",
    bounds="35 keys of various shapes and 4 generated ones, chains to depth 4 over 9 operations, at every text position up to 22 alterations of 2 public and 2 private keys, at every encoding byte every bit flip, special value, truncation, deletion, insertion, 8 numbers x about 30 wrong values x 4 keys, 33 modulus sizes; a part of it again under AddressSanitizer",
    bounds_thorough="91 keys, chains to depth 5, all 255 other values of every encoding byte",
    assumptions=["OpenSSL, GMP", "primality of the factors of an imported key is not examined by the library and not claimed"],
    units=[dict(name="keys", src=["keys.cpp"], variant="plain", libs=("sodium", "gmpxx", "gmp", "crypto")),
           dict(name="keys-asan", src=["keys.cpp"], variant="asan", args=["lite"], libs=("sodium", "gmpxx", "gmp", "crypto"))])

PROPS["C21"] = dict(
    level="fault_enumeration",
    rule="one case per operation, kind of fault and block of 16 allocation ordinals: the operation is executed once per ordinal with that allocation (or it and all later ones) failing; it must throw or return the right result, leave every key locked, "
         "lose or leak neither key memory nor heap blocks, and the operation repeated and all other operations on the same objects must give the right results; outcomes are (operation, ordinal, thrown or returned)",
    bounds="all operations of mc/ops.hpp (about 160, over objects of every class), every single allocation of each and every suffix of its allocations (operator new, malloc, calloc, realloc, sodium_malloc)",
    bounds_thorough="the same with every operation of the class as a probe afterwards",
    assumptions=["refused changes of memory protection are C26's", "allocations inside the C++ runtime and OpenSSL/GMP (used by the harness only) do not fail"],
    units=[dict(name="oom", src=["oom.cpp"], variant="plain", ld=WRAP)])

PROPS["C25"] = dict(
    level="fault_enumeration",
    rule="one case per operation: every secret of the world (keys, subkeys and nodes learnt from sodium memory, RSA numbers in several encodings, private key text, answers of the generator, plaintexts) is cut in 8-byte pieces; "
         "every block handed back to the allocator while the operation runs (to its end, and with each of its allocations failing) and while the objects are destroyed is scanned for them; outcomes are (operation, blocks released)",
    bounds="all operations of mc/ops.hpp and object histories written for this check (192), each complete and with every single allocation and every suffix of its allocations failing",
    bounds_thorough="also all ordered pairs of operations on the same objects",
    assumptions=["memory on the stack and in registers is not examined", "results handed to the caller belong to the caller"],
    units=[dict(name="erase", src=["erase.cpp"], variant="plain", ld=WRAP)])

PROPS["C26"] = dict(
    level="fault_enumeration",
    rule="one case per operation and change of memory protection inside it: the operation is executed with that change refused by the system, and with that one and all later ones refused; it must throw or return the right result with every key locked, at most the key whose locking was refused stays accessible, "
         "no key memory is lost or freed twice, and the operation repeated and all others on the same objects give the right results and lock the key again; also each operation with all changes answered ENOSYS; outcomes are (operation, change, thrown or returned)",
    bounds="all operations of mc/ops.hpp on symmetric, constrained-PRF and trapdoor objects (about 160), every single change of protection of each (beyond 600 of them: the first and last 200 and 200 between) and every suffix, and each pair of one in an operation and one in each of the operations after it",
    bounds_thorough="the pairs also after all later changes of the first operation were refused",
    assumptions=["the library changes protection through libsodium's functions", "mlock failures are handled by libsodium"],
    units=[dict(name="protect", src=["protect.cpp"], variant="plain")])

PROPS["C18"] = dict(
    level="model_checking",
    rule="one case per first operand (or modulus, exponent length, radix, text length, interval of candidates); inside it every second operand, sign, representation (extra zero limbs, no limbs), destination and aliasing is executed on the real "
         "functions and compared with GMP, return codes with the documented ones; outcomes count cases with distinct numbers of operations",
    bounds="all pairs of numbers of up to 2 limbs over 8 boundary limbs in 4 representations and of up to 3 limbs over 7; 4-5 by 2-3 limb divisions; 96 long numbers to 24 limbs, all pairs; all integers -70..70; 5 destinations (15 for division); powers: all |a|<=40, e<=33, "
           "n<=61, 2-limb triples, every exponent length to 1100 bits in 7 patterns, every modulus length to 32 limbs; shifts 0..260; every buffer size for import/export; radices 2..16; primality of all numbers below 2^18 and around powers of two; composites of 24 lengths with strong liars at all draws but one",
    bounds_thorough="12 letters for two limbs, 9 for three, integers -200..200, 160 long numbers to 40 limbs, moduli to 201, exponents to 2100 bits, primality below 2^21; also under AddressSanitizer and UBSan",
    assumptions=["GMP is right", "exp_mod is called with the result in the base or in another number, as the library does (not in the exponent or modulus)", "the sign of zero is not compared", "primality is decided with the number of independent bases of HAC, table 4.4, at least"],
    units=[dict(name="arith", src=["arith.cpp"], variant="plain"), dict(name="arith-asan", src=["arith.cpp"], variant="asan", thorough_only=True)])

PROPS["C19"] = dict(
    level="model_checking",
    rule="one case per text, length, buffer room, tag or truncation block; inside it every decoder/encoder call is executed on buffers that end (and begin) at unmapped pages and compared with independent models of the formats written in the harness "
         "(GMP for integers); return codes, announced sizes, consumed lengths and every output byte are compared; outcomes are distinct (result, length) pairs",
    bounds="base64: all texts over 8 representative symbols to length 6 and all bytes in short texts, every length to 200 and room; PEM: every size, line layout and truncation; ASN.1: all headers of up to 5 bytes over representative octets, every length form and truncation, "
           "all integers of up to 2 bytes and boundary ones, every room for writing, round trips of sequences; substring search over all short binary strings; lists of named values to 3 stores",
    bounds_thorough="longer texts, lengths and alphabets; also under AddressSanitizer",
    assumptions=["a text base64 accepts may contain the padding and blanks the documentation mentions", "write_int is used with non-negative values", "the size announced for a PEM output may exceed the need by at most 2 bytes"],
    units=[dict(name="codec", src=["codec.cpp"], variant="plain"), dict(name="codec-asan", src=["codec.cpp"], variant="asan", thorough_only=True)])
PROPS["C22"] = dict(
    level="model_checking",
    rule="one case per operation alone, per ordered pair (thorough: triple) of failing and succeeding operations on the same objects, and per argument boundary (heights, ranges, lengths, orders, sizes, array lengths); each call must throw exactly the documented class, leave its output "
         "untouched and the next operations' results equal to those on a fresh world; outcomes are distinct (operation, result); states are the histories",
    bounds="about 160 operations over objects of every class, all pairs (failing first, then any), every tree height 0..255, every range of small trees and the boundary ones of tall trees, message lengths 0..600 of the trapdoor functions, pool sizes to 255 with all orders 0..255",
    bounds_thorough="all triples of (failing, failing, any) operations and all orders",
    assumptions=["where documentation and code name different standard exceptions (RCPrf::eval), either is accepted"],
    units=[dict(name="refuse", src=["refuse.cpp"], variant="plain", libs=("sodium", "gmpxx", "gmp", "crypto"))])
PROPS["C23"] = dict(
    level="model_checking",
    rule="one case per history of punctures, order of shares, collection of shares, exchange of ciphertext parts, pair of owners, number of punctures, message bit, answer of the generator at a border of the field and tag differing in one bit; "
         "the model is the set of punctured tags: exactly the other tags decrypt, and nothing but a complete key reveals a message; states are punctured keys, outcomes are ciphertexts and kinds of result",
    bounds="all histories of up to 5 punctures of 6 tags (4 with sanitizers), all orders of up to 5 shares, all collections of 4 first and 3 further shares, all exchanges of the 4 parts of two ciphertexts, 6 x 6 owners, material of one owner offered to another, parts rewritten for another tag, keys with 0..24 punctures and around 127, 255, 511 and 1001 shares, share numbers around 14 boundaries to 2^64-1, "
           "the 128 neighbours of 3 tags, 65 messages, 8 border values of the generator, histories to depth 3 on the public-key class behind",
    bounds_thorough="histories one deeper, collections of 5 first and 4 further shares, keys with up to 130 punctures and up to 65537 shares, freshness over 1200 shares",
    assumptions=["the RELIC library is replaced by a stand-in (mc/fakerelic): the same interface on a group whose elements are represented by their logarithms modulo the order of BN-P254, GMP integers, SHA-256 of libsodium; the repository's own 13 tests of this code pass on it. What RELIC itself computes is not decided",
                 "libsodium's generator replaced through its public interface"],
    units=[dict(name="punct", src=["punct.cpp"], variant="ppkeplain", libs=("sodium", "gmpxx", "gmp", "crypto")),
           dict(name="punct-asan", src=["punct.cpp"], variant="ppkeasan", libs=("sodium", "gmpxx", "gmp", "crypto"))])
PROPS["C24"] = dict(
    level="model_checking",
    rule="one case per function and length (alignments, distances to the unmapped page and contents inside it), per array size, per operation of mc/ops.hpp on a heap whose every block is exactly sized and ends (then begins) at an unmapped page and is unmapped when freed, per truncation "
         "of an RSA key text and per room offered to the key writers; a fault, a changed input, a changed byte around a buffer, an unwritten output byte or a result that depends on the position is a violation; outcomes are distinct results",
    bounds="every pointer function at every length to 200 and around powers of two to 1 MiB, 16 alignments, both page sides, inputs adjacent or identical to outputs where documented; all operations in both heap modes; every truncation of 2 key encodings",
    bounds_thorough="every length to 700, arrays to 200",
    assumptions=["the heap of the harness serves operator new, malloc, calloc and realloc; key memory is libsodium's (guarded by itself)", "accesses inside the same page before a block that ends at the page are seen only in the other mode"],
    units=[dict(name="fence", src=["fence.cpp"], variant="plain", ld=WRAP)])

import os, re
_rt = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/tsanrt.cpp")).read()
TSAN_WRAP = ("-Wl," + ",".join("--wrap=" + n for n in sorted(set(re.findall(r"\bX\((\w+), \{", _rt)) | set(re.findall(r"__wrap_(\w+)\(", _rt)))),)
PROPS["C20"] = dict(
    level="model_checking",
    technique="stateless exploration of the real code under a controlled scheduler: preemption-bounded enumeration of the interleavings of two threads, reduced by a happens-before analysis of all memory accesses",
    rule="one case per unordered pair of operations and kind of distinct objects (independent; copies, derivations and unwrappings of one another; constructed in the two threads of a fresh process); each case runs in its own process and executes the pair "
         "under every schedule with the stated number of switches at the scheduling points (calls into libsodium, atomics, locks, one-time initialisations); every memory access of the library is checked for conflicts not ordered by synchronisation "
         "(accesses that never conflict commute, so schedules that differ between scheduling points are equivalent), every result is compared with that of the operation alone; states are pairs, transitions executed operations",
    bounds="all pairs of about 160 operations on independent objects, one switch at any point (pairs with the trapdoor permutation: at the ends only, each with itself at any point); pairs of one class on linked objects; each operation with itself from a cold start",
    bounds_thorough="two switches for pairs of one class with at most 40000 such schedules (one otherwise), one for pairs of trapdoor operations, all pairs on linked objects, all pairs of one class from a cold start",
    assumptions=["libsodium (its functions are reported by their arguments), the C and C++ runtimes are thread-safe", "inline assembly of the multiplication kernel is not traced (its operands are, elsewhere)", "init_crypto_lib and cleanup_crypto_lib are called by one thread"],
    units=[dict(name="threads", src=["threads.cpp"], variant="trace", plain_src=["tsanrt.cpp"], ld=TSAN_WRAP)])

for _n in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 22):
    _p = PROPS["C%02d" % _n]
    _p["units"].append(dict(name="long", dir="long", src=["long.cpp"], variant="plain", flags=["-DLONG=%d" % _n]))
    _p["bounds"] += "; each operation of mc/ops.hpp concerned 66000 times in a row (tree functions other than eval 5000, trapdoor functions 300 or 3000) and on 300 (8) objects alive at once"
