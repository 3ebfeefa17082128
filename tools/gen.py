#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "existing tests run one fixed parameter set and one fixed call shape each; "
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))

EV = "mkckks/evaluator.go"; KS = "mkrlwe/keyswitch.go"; KH = "mkrlwe/keyswitch_hoisted.go"
TRUST = " Assumes lattigo v2.3.0 and the Go toolchain; values outside the stated alphabets and bounds are not covered."

prop("C01", "Any encrypted program decrypts to the result of its cleartext program",
 "For every sequence of supported operations (encrypt, add, subtract, multiply, plaintext and constant multiply, rotate, conjugate, rescale, drop level, with hoisted variants) applied to ciphertexts of any parties, as long as levels and magnitudes suffice, decrypting any intermediate or final result with the secret keys of its participants yields the value of the same program on cleartext slot vectors, up to noise many orders of magnitude below the data. The result's participants, level and scale are the ones the operations prescribe.",
 ["programs", "inputs", "configurations"], "every operation sequence of bounded depth over two registers, from every starting participant configuration, on every listed parameter shape",
 T + "they apply one operation to fresh ciphertexts (encryption and one product); no sequence, no rotation, conjugation, plaintext product, constant product, addition or rescale is ever executed.",
 [EV, KS, KH, "mkckks/encryptor.go", "mkckks/decryptor.go", "mkrlwe/elements.go"],
 [("evaluator operations and their level/scale bookkeeping", EV), ("key switching and gadget products", KS), ("hoisted variants", KH)],
 "stateless bounded exhaustive exploration of operation sequences on the real code against a cleartext machine",
 "All operation sequences up to the stated depth on the real library, every intermediate decrypted and compared, noise bound derived from the parameters." + TRUST)

prop("C02", "Encryption followed by decryption returns the message",
 "Encrypting any message under a party's public key through any of the encryption entry points (new, into an existing ciphertext, encoded first, expanded to more participants, generic layer in and out of the transform domain) and decrypting with that party's secret key returns the message up to fresh-encryption noise. This holds at every level and scale, for every party name (other than the reserved \"0\"), whatever was encrypted or decrypted before with the same objects, and extra keys in the decryption key set do not matter.",
 ["inputs", "configurations", "histories"], "every message of the alphabet, party, entry point, level, scale and parameter shape; every ordered pair of (level, magnitude) uses of one encryptor and one decryptor",
 T + "enc/dec tests use random messages at the top level with a fresh object and one entry point.",
 ["mkckks/encryptor.go", "mkckks/decryptor.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/elements.go"],
 [("public-key encryption with level handling", "mkrlwe/encryptor.go"), ("partial decryption and decoding", "mkrlwe/decryptor.go, mkckks/decryptor.go")],
 "exhaustive enumeration of messages, entry points, levels, domains and two-step histories on the real code",
 "Linear maps are decided on the complete basis plus extreme vectors; every entry point, level, scale and parameter shape enumerated." + TRUST)

prop("C03", "Addition and subtraction act slotwise across any parties, levels and scales",
 "The sum and the difference of two ciphertexts decrypt to the slotwise sum and difference (first minus second) for any two participant sets (disjoint, overlapping, equal, one contained in the other), any two levels and scales that agree up to an integer factor. The result belongs to the union of the participants, at the lower level and the larger scale, and for equal scales the underlying integers add exactly without adding noise.",
 ["inputs", "configurations"], "every pair of participant sets over three parties, every pair of levels, scale ratios in both operand orders, aliased and expanded operands, sums of three in all orders",
 T + "no test calls addition or subtraction at all.",
 [EV, "mkrlwe/elements.go", "mkrlwe/idset.go"], [("operand alignment of level, scale and participants", EV), ("participant union and padding", "mkrlwe/elements.go")],
 "exhaustive enumeration of operand shapes on the real code, exact integer phase oracle",
 "Complete product of participant sets, levels and scale factors; for equal scales an exact identity modulo Q rather than a tolerance." + TRUST)

prop("C04", "Multiplication acts slotwise across any parties and levels",
 "The product of two ciphertexts, relinearised and rescaled, decrypts to the slotwise product for any two participant sets and any two levels of at least one, and belongs to the union of the participants. All ways of asking for it (operand order, squaring one ciphertext, reusing precomputed decompositions of either or both operands, plain or hoisted routine, fresh or used output) agree up to noise, in level and in scale.",
 ["inputs", "configurations"], "every pair of participant sets, every pair of levels, every product variant, on parameter shapes with one to three moduli per digit and even and odd numbers of special moduli",
 T + "the product tests multiply fresh top-level ciphertexts with the one parameter shape and check a loose tolerance; lower levels, mixed levels, overlapping participants of unequal sets, squaring and hoisted operands are not executed.",
 [EV, KS, KH, "mkrlwe/basis_extension.go"], [("relinearisation with the parties' keys", KS), ("hoisted relinearisation", KH), ("gadget decomposition", "mkrlwe/basis_extension.go")],
 "exhaustive enumeration of operand shapes and product variants on the real code against cleartext and across variants",
 "Complete product of participant sets, level pairs, variants and parameter shapes." + TRUST)

prop("C05", "Plaintext and constant products act slotwise",
 "Multiplying a ciphertext by an encoded plaintext decrypts to the slotwise product at every level, for every plaintext scale and plaintext level not below the ciphertext's, whether the plaintext was encoded in or out of the transform domain, and every participant set. Multiplying by a constant of any supported numeric type, real or complex, integral or fractional, positive, negative or zero, decrypts to the ciphertext's value times that constant, into a fresh, the same or a previously used output ciphertext of the same participants and at most the same level.",
 ["inputs", "configurations"], "every level, participant set, basis message, plaintext scale factor and transform domain; 53 constants of every supported type and sign pattern and every magnitude from 2^-12 to 2^80, three kinds of output",
 T + "no test multiplies by a plaintext or a constant.",
 [EV], [("constant scaling and per-modulus reduction", EV), ("plaintext product and rescale", EV)],
 "exhaustive enumeration of levels, constants, plaintext shapes and output states on the real code",
 "Complete product of the stated alphabets; level and scale compared with the documented rule." + TRUST)

prop("C06", "Rotation by any index is the cyclic left shift of the slots",
 "Rotating a ciphertext by k decrypts to the slots shifted cyclically to the left by k, for every integer k (negative, zero, beyond the number of slots), every level and every participant set, whether every participant has a key for k (then no other key is needed) or the rotation is composed from power-of-two keys, from the hoisted form, and into an output that held other data. Rotations compose additively, keep level, scale and participants, and a key generated for a negative index serves the equivalent positive rotation.",
 ["inputs", "configurations", "programs"], "every index in [-N, 2N], every level and participant set, with and without extra precomputed indices; every ordered pair of rotations",
 T + "no test generates or uses a rotation key.",
 [EV, KS, KH, "mkrlwe/keygen.go", "mkrlwe/params.go"], [("index normalisation and power-of-two composition", EV), ("automorphism with key switching", KS), ("rotation keys over per-index reference strings", "mkrlwe/keygen.go")],
 "exhaustive enumeration of rotation indices, levels, key availability and pairs on the real code",
 "All indices of the enumerated rings, not a selection." + TRUST)

prop("C07", "Conjugation is the slotwise complex conjugate",
 "Conjugating a ciphertext decrypts to the complex conjugate of every slot for every participant set and every level, keeping participants, level and scale, whatever the output held before. Conjugating twice gives the value back, and conjugation commutes with rotation.",
 ["inputs", "configurations"], "every participant set, level, basis message, and combination with rotations by powers of two",
 T + "no test conjugates.",
 [EV, KS, "mkrlwe/keygen.go"], [("conjugation automorphism with key switching", KS), ("conjugation keys", "mkrlwe/keygen.go")],
 "exhaustive enumeration of participant sets, levels and basis messages on the real code",
 "Complete basis at every level on every shape." + TRUST)

prop("C08", "Rescaling and level dropping keep the value and follow the scale rule",
 "Rescaling divides by the moduli of the chain from the top exactly as long as the resulting scale stays at least half of the requested minimum, never consumes the last modulus, and records level and scale accordingly, so the decrypted value is unchanged up to rounding (every division rounds to nearest: each component is off by at most half a unit); into a separate output the input keeps its value. Invalid requests (level zero, zero scale, non-positive minimum) return an error and leave the ciphertext as it was, and dropping levels changes nothing but the level.",
 ["inputs", "configurations"], "every level, participant set, scale exponent around every threshold, minimum scale and output kind",
 T + "rescale is only reached once, inside the product test, with exactly one division.",
 [EV], [("rescale loop and its stop condition", EV), ("level dropping", EV)],
 "exhaustive enumeration of levels, scales around thresholds and output kinds on the real code against the rule",
 "Threshold neighbourhoods enumerated for every level; decrypted value compared." + TRUST)

prop("C09", "Operations change nothing but their output, and outputs share no memory",
 "No operation that returns a new object or writes into a given output modifies its operands, keys, key sets, reference strings, plaintexts, messages or precomputed forms. What an operation returned is never changed by later operations on the same encryptor, evaluator, decryptor or key generator, and later changes to operands and results do not affect each other.",
 ["histories", "inputs"], "every public operation instance with content fingerprints before and after, scribbling over inputs and outputs, and every ordered pair of operations on one evaluator",
 "tests look at the returned value only; aliasing and scratch-buffer leaks need a second operation or a later write to show.",
 [EV, KS, KH, "mkckks/encryptor.go", "mkckks/decryptor.go", "mkrlwe/elements.go", "mkrlwe/keygen.go", "mkrlwe/keys.go"],
 [("copies into fresh ciphertexts", "mkrlwe/elements.go"), ("scratch pools inside the switcher, encryptor and decryptor", KS)],
 "exhaustive enumeration of operations and ordered pairs with content fingerprints and destructive aliasing probes",
 "Every public operation instance and ordered pair at the stated shapes; fingerprints are over full contents." + TRUST)

prop("C10", "Results do not depend on what the objects were used for before",
 "An encryptor, evaluator, decryptor, key generator or key set that has performed any earlier operations, including refused ones, gives for every deterministic operation exactly the result that freshly created objects give. Encryption after any history still produces a valid encryption of its message.",
 ["histories"], "every history of two operations (about 160 operation instances) followed by every probe operation",
 "tests create fresh objects and perform each operation once; state left in scratch buffers by a lower-level or failed call never meets a second call.",
 [KS, KH, EV, "mkrlwe/decryptor.go", "mkrlwe/encryptor.go", "mkrlwe/keygen.go"], [("scratch buffers owned by the evaluators, encryptors and decryptors", KS)],
 "exhaustive exploration of operation histories with a fresh-object differential oracle",
 "All histories of the bound; results compared bit for bit (modulo residue representatives)." + TRUST)

prop("C11", "Decryption succeeds exactly when every participant contributes its key",
 "A ciphertext decrypts to its value if and only if the secret key of every participant is supplied; if one is missing decryption refuses instead of returning anything, with another party's key in place of one participant's the value is not recovered, and while any participant's contribution is outstanding the remaining data does not reveal the value. Distributed decryption gives the same result in every order of contributions and equals joint decryption, and keys of non-participants have no influence.",
 ["inputs", "configurations", "schedules"], "every participant set, every subset of supplied keys, every order of partial decryptions, for fresh, summed, multiplied, rotated and expanded ciphertexts at every level",
 T + "tests decrypt with exactly the right key set once; missing, foreign and surplus keys and partial-decryption orders are not executed.",
 ["mkrlwe/decryptor.go", "mkckks/decryptor.go", "mkrlwe/keys.go"], [("iteration over participants with key lookup", "mkrlwe/decryptor.go"), ("partial decryption removing one component", "mkrlwe/decryptor.go")],
 "exhaustive enumeration of key subsets and contribution orders on the real code, exact phase oracle",
 "All subsets and all orders of contributions; order independence is checked exactly modulo Q." + TRUST)

prop("C12", "Key sets and participant sets follow set semantics under dynamic membership",
 "Every key set behaves as a finite map from party (and rotation index) to the last key added: added keys are found, deleted keys are gone, other entries are untouched, and a missing key is refused rather than substituted; participant sets behave as finite sets under add, remove, copy, union, intersection, membership and size, and the derived sets are independent of the sets they came from. When parties join, leave or renew keys while one evaluator is in use, each operation uses exactly the keys currently registered and works if and only if all participants involved are present.",
 ["histories", "schedules"], "every sequence of add, delete, replace and lookup up to the depth on each set kind; every sequence of join, leave and re-key events followed by every probe",
 T + "tests add keys once at start-up and never delete, replace or miss one; participant-set operations are not tested.",
 ["mkrlwe/keys.go", "mkrlwe/idset.go", "mkckks/keys.go", KS], [("map-backed key sets", "mkrlwe/keys.go"), ("participant sets", "mkrlwe/idset.go")],
 "explicit-state exploration of set-operation and membership-event sequences against a map model",
 "All event sequences of the bound against a reference model after every step." + TRUST)

prop("C13", "Keys and ciphertexts have the prescribed form with fresh errors",
 "Every public, relinearisation, rotation and conjugation key generated for any party equals its prescribed payload under the common reference string plus a small nonzero error that is one consistent integer polynomial over all moduli; secret keys are ternary (sparse ones of exactly the requested weight) and carry the owner's id. Every key generation and every encryption draws new errors and new masks (nothing repeats or is left zero, every coefficient is drawn, with the deviation of the parameters), and the common reference strings stay distinct and unchanged.",
 ["histories", "configurations"], "every key kind for every party after every one or two other generations on the same generator; every encryption entry point and level",
 T + "tests check a loose bound on the noise of public, switching and relinearisation keys of one fresh generator; rotation and conjugation keys, sparse keys, freshness and consistency over all moduli are not looked at.",
 ["mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/params.go", "mkckks/params.go"], [("key generation over the common reference strings", "mkrlwe/keygen.go"), ("encryption masks and errors", "mkrlwe/encryptor.go")],
 "exhaustive enumeration of generator histories with exact recovery of every error polynomial",
 "The error of every digit over every modulus is recovered exactly and checked; entropy is owned by the harness." + TRUST)

prop("C14", "Basis extension, division and digit splitting are exact",
 "Converting a residue vector from one modulus basis to the other yields the residues of the same integer (up to the documented multiple of the source modulus at the representation boundary), dividing by one basis yields the rounded quotient in the other, and splitting into gadget digits yields the residues of each digit, for every level of either basis and every digit, including shorter last digits, odd numbers of special moduli, and chains as long as the parameters accept.",
 ["inputs", "configurations"], "every integer of the rings over tiny primes, the complete product of boundary residues over 40 to 61 bit primes, every level pair and digit",
 T + "conversions are only exercised through products of random data at one parameter shape; residue extremes, every level pair and odd special-modulus counts are not.",
 ["mkrlwe/basis_extension.go"], [("fast basis extension with floating-point quotient estimate", "mkrlwe/basis_extension.go"), ("digit decomposer", "mkrlwe/basis_extension.go")],
 "exhaustive enumeration of whole residue rings on the real code against big-integer arithmetic",
 "Whole rings over tiny primes (about 36 million coefficients in the quick tier) and the complete boundary product over large primes." + TRUST)

prop("C19", "Gadget decomposition and external product compute the exact key switch",
 "Decomposing a ring element and recombining the digits gives the element back, every digit is small, and the external product of an element with a switching key of a secret equals element times secret up to the gadget noise bound, at every level and for every digit size. Computing it from a stored decomposition gives the identical result, whatever the switcher did before and whatever the buffers held.",
 ["inputs", "histories", "configurations"], "every level of every parameter shape of both layers, all single-coefficient extremes and structured polynomials, in both transform domains, after different prior uses",
 T + "the decomposition and external-product tests use one uniform random element at the top level.",
 [KS, KH, "mkrlwe/basis_extension.go"], [("decompose / external product", KS), ("hoisted external product", KH)],
 "exhaustive enumeration of levels, shapes and boundary polynomials on the real code, exact recombination oracle",
 "Exact recombination modulo Q and a derived noise bound, on the complete stated alphabet." + TRUST)

prop("C20", "Parameter and vector utilities match their definitions",
 "Standard deviation, the in-place bit-reversal permutations and the key-switch rescaling constants equal their mathematical definitions for every input, and touch nothing beyond the range they are given. Parameters report ring degree, slot count, levels, scale and digit layout consistently with the moduli they were built from, and the reference strings needed for every default rotation exist.",
 ["inputs", "configurations"], "every vector over a seven-value alphabet, every power of two up to the bound, every basis shape",
 "no test calls these functions.",
 ["mkckks/utils.go", "mkckks/params.go", "mkrlwe/params.go"], [("utilities", "mkckks/utils.go"), ("parameter construction", "mkrlwe/params.go")],
 "bounded exhaustive enumeration of inputs against the definitions",
 "Complete enumeration of the stated finite input spaces." + TRUST)

prop("C21", "Parties working at the same time do not disturb each other",
 "Two parties that each use an encryptor, decryptor, evaluator, key generator and relinearisation key set of their own may share the parameters, the keys, the other key sets and the input ciphertexts, plaintexts and messages, and work at the same time: however their operations are interleaved, each obtains the result, or the refusal, that it obtains alone, newly made keys and encryptions are valid, and no memory that both reach is written without synchronisation.",
 ["schedules", "inputs"], "every ordered pair of about 180 operations (evaluation, encryption, decryption, partial decryption, key generation, construction, key sets), every point at which the first can be preempted before a statement of the library; for selected operations every pair of points with two preemptions",
 "the tests are sequential and create one object of each kind; no test runs two of them.",
 [EV, KS, KH, "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/keygen.go", "mkckks/encryptor.go", "mkckks/decryptor.go"],
 [("scratch space belongs to one object", EV), ("key material and parameters are only read", KS), ("one sampler and generator per object", "mkrlwe/encryptor.go")],
 "stateless exploration of all schedules up to one (selected operations: two) preemptions on the real code under a controlled scheduler, with a scheduling point before every statement; for memory accesses inside statements, exhaustive pairwise execution without order and vector-clock conflict detection",
 "The library is compiled with a scheduling point before every statement (and in the stateful parts of lattigo at their two upper statement levels, first execution); all ordered operation pairs and all points of the first and second execution of each statement. Interleavings inside one statement are covered through their conflicting accesses: all operations, twice each and in three orders, run without any order between them under the race detector. Schedules of more than two preemptions are not covered." + TRUST)

prop("C22", "The generic layer computes ring products and automorphisms in every layout",
 "Below the CKKS layer, for every number of ordinary and special moduli, every gadget factor gamma and every level, and for ciphertexts with arbitrary components: the phase (first component plus the other components times their owners' secrets) of a product of two ciphertexts is the ring product of their phases, and the phase of a rotation or conjugation is the automorphic image of the phase, up to the key-switching noise of the layout, with or without precomputed decompositions, into used outputs and for operands above the output level. Encryption puts the message plus bounded noise into the phase, and partial decryptions in any order as well as joint decryption, in either transform domain and to any plaintext level, return the phase exactly. Digit size and number of digits are the ones the layout prescribes.",
 ["inputs", "configurations"], "every digit layout of up to six ordinary and eight special moduli with gamma one to four and two width patterns, every level, five participant pairs, components from a boundary alphabet, every variant of each operation",
 T + "the generic tests run key generation and one external product in one layout; no generic product, rotation, conjugation or decryption is executed, and only one gamma is ever used.",
 [KS, KH, "mkrlwe/basis_extension.go", "mkrlwe/params.go", "mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go"],
 [("relinearisation, rotation, conjugation", KS), ("hoisted variants", KH), ("digit layout", "mkrlwe/params.go")],
 "exhaustive enumeration of layouts, levels, operand shapes and operation variants on the real code against exact ring arithmetic",
 "Complete product of the stated layouts, levels, participant shapes and operation variants; phases compared as big integers against a worst-case gadget noise bound. Layouts in which the noise may exceed the modulus promise nothing (counted)." + TRUST)

exec(open(os.path.join(here, "tools", "lrprops.py")).read()) if os.path.exists(os.path.join(here, "tools", "lrprops.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                      "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
     "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
  "not_applicable": [], "notes": "See DESIGN.md. No hooks in /repo; the checks drive exported entry points, the LR programs through generated copies of their sources, and C21 a build of generated copies of the library sources with scheduling points (go build -overlay)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
