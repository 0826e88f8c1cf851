#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LIB, GRP, FP, FM = "src/lib.rs", "src/groups/mod.rs", "src/fields/fp.rs", "src/fields/mod.rs"
F2, F6, F12, AR = "src/fields/fq2.rs", "src/fields/fq6.rs", "src/fields/fq12.rs", "src/arith.rs"
ALG = [LIB, GRP, FP, FM, F2, F6, F12, AR]

p("C01", "Key agreement ends with one common secret",
  "Parties that exchange public values over an unreliable network (two-party and two-round three-party Diffie-Hellman in either group, one-round three-party agreement with the pairing) and finish a session all hold the same secret: the element the protocol defines, equal under == and identical in exported bytes (points after normalising). Secrets of sessions with different keys differ. Once faults stop, every session finishes.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "for every delivery order, loss, duplication, delay and partition of the messages, every crash and restart of a party with only its stored state surviving, and every choice of private keys (including 1, -1 and other extreme values)",
  "The examples run one fault-free session in a fixed order in one process and pass elements as in-memory values; the unit tests sample ~50 random keys and never serialise, reorder or resume anything.",
  ALG + ["examples/dh.rs", "examples/joux.rs"],
  [("scalar multiplication", "src/groups/mod.rs Mul<Fr>"), ("pairing and exponentiation in the target group", "src/groups/mod.rs pairing, src/lib.rs Gt::pow"), ("equality of projective representations", "src/groups/mod.rs PartialEq")],
  ["G1/G2/Gt ==", "into_bytes()", "decoded messages"])
p("C02", "Replicas folding the same contributions converge",
  "Replicas that apply the same multiset of contributions and retractions to an accumulator in the scalar field, G1, G2 or the target group, in any order and grouping (one by one, or by merging partial accumulators), hold equal accumulators, equal to the mathematical total. Replicas whose totals differ hold accumulators that compare unequal. Normalising, negating twice, re-encoding or rescaling intermediate values at any moment does not change this.",
  ["schedules", "histories", "fault_sequences"],
  "for every delivery order and merge tree, duplicated and retracted contributions, crashes with snapshot and log replay, and contributions in every projective representation, including the identity and inverses of what was already accumulated",
  "Unit tests add three random points in two groupings; coincidences that a schedule creates (adding a value to itself, to its inverse, to the identity, in another representation) are only hit at one fixed place.",
  ALG,
  [("addition with its doubling, inverse and identity cases", "src/groups/mod.rs Add, double, Neg, Sub"), ("equality across representations", "src/groups/mod.rs PartialEq"), ("to_affine / normalize", "src/groups/mod.rs to_affine, src/lib.rs normalize")],
  ["==", "is_zero()", "serialised coordinates"])
p("C03", "Acknowledged stored values survive crashes and faulty I/O",
  "A scalar, G1, G2 or target-group value written through a reader/writer codec and acknowledged as durable decodes after any later crash to a value that is equal to the original and re-encodes to the same bytes. A stream that ends early never decodes to a value. Short reads and writes, interrupted calls and odd chunk boundaries never change what is written or read.",
  ["crash_points", "fault_sequences", "inputs"],
  "for every value and projective representation, every codec the crate supports (serde text and binary, borsh), every placement of short, interrupted and failing calls, every crash point and torn tail",
  "No existing test serialises or deserialises anything.",
  [LIB, GRP, FP, F2, F6, F12, AR],
  [("Serialize/Deserialize, BorshSerialize/BorshDeserialize", "derives on Fr, G1, G2, Gt and every layer below")],
  ["bytes on the simulated disk", "decoded values"])
p("C04", "Damaged bytes never become an element outside its group",
  "Decoding bytes that were damaged or forged in storage or transit either fails with an error or yields a genuine member of the type: a reduced scalar, a point on the curve in the prime-order group (or the identity), a target-group element of prime order. No damage makes decoding admit anything else, and equal accepted scalars and target elements have one encoding.",
  ["fault_sequences", "inputs"],
  "for every bit flip, overwrite, zeroed or swapped sector, misdirected read, splice and forged field (including coordinates at or above the modulus, off-curve points, and on-curve points outside the subgroup) applied to any encoded value in any supported codec",
  "No existing test decodes anything; hostile encodings are unbounded.",
  [LIB, GRP, FP, F2, F12],
  [("range check of field coordinates on decode", "src/fields/fp.rs"), ("curve equation and order check on decode", "src/groups/mod.rs"), ("order check of target elements on decode", "src/lib.rs / src/fields/fq12.rs")],
  ["decode result", "coordinates of accepted values"])
p("C05", "Operations on every accepted value finish and do not panic",
  "Decoding any bytes as a scalar, point or target-group element, and every public operation on any values of these types that decoding accepted or operations produced, returns within a bounded amount of work and memory and without panicking. A damaged or forged message therefore cannot hang or kill the node that processes it; it is rejected or processed.",
  ["fault_sequences", "inputs", "histories"],
  "for every damaged, forged or genuine message and every sequence of operations a node then performs on what it accepted",
  "Unit tests only operate on values the library produced itself; a value admitted from bytes is never operated on.",
  ALG,
  [("inversion loop", "src/arith.rs invert"), ("unwrap/expect in Gt::inverse, to_affine, pairing", "src/lib.rs, src/groups/mod.rs"), ("decode-time checks", "src/fields/fp.rs, src/groups/mod.rs")],
  ["return of the call", "executed basic blocks per call", "bytes allocated per call"],
  hook="none in /repo: the check compiles the crate with LLVM basic-block callbacks")
p("C06", "Sampling uses the caller's randomness, all of it and nothing else",
  "A sampled scalar, group or target-group element is a function of what the caller's random source returned during that call and of nothing else. Each scalar is a valid member that depends on every draw and on enough source bits that it is uniform up to a negligible bias (at least 128 bits beyond the size of the field). A stuck, degenerate or shared source still yields valid members, and each caller's sample depends only on the draws it made.",
  ["inputs", "schedules", "fault_sequences"],
  "for every stream the source returns (stuck, all-zero, all-one, periodic, with flipped bits), every interleaving of several callers drawing from one shared source, and a source that fails in the middle of a draw",
  "Tests sample from a healthy source and look only at algebraic laws, which a biased or partly ignored source satisfies.",
  [LIB, FP, AR, GRP],
  [("wide reduction of 64 random bytes", "src/lib.rs Distribution impls, src/fields/fp.rs interpret"), ("U256::random / U512::random", "src/arith.rs"), ("G::random", "src/groups/mod.rs")],
  ["values sampled", "calls received by the simulated source"])
p("C07", "Concurrent callers do not affect each other",
  "Whatever other threads or re-entrant callbacks do with the library at the same time, and wherever a call is preempted or delayed, every call returns what it returns when it runs alone. Calls from several threads always complete.",
  ["schedules"],
  "for every interleaving, at the granularity of basic blocks and memory accesses, of operations on several threads, and for calls made from inside a random source, reader, writer or formatter callback",
  "Tests run each operation alone; the harness's own threads share no values and their interleaving is neither controlled nor varied.",
  ALG,
  [("operations are functions of their arguments and share no state", "the whole crate; Send + Sync bounds on Group in src/lib.rs")],
  ["results of each call"],
  hook="none in /repo: preemption points are compiled in by LLVM coverage callbacks; futex calls are intercepted")
p("C08", "Aggregate signatures verify exactly when genuine",
  "In a pairing-based signature service, verification of a single or aggregated signature over the pairing accepts exactly when the signature is the one the signers' keys and messages define, whatever order and grouping the shares arrived in. Forged, mixed-up, negated, doubled, missing or identity shares make it reject unless they cancel mathematically. All honest verifiers reach the same verdict.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "for every arrival order, duplication, loss and retry of shares, every Byzantine substitution of a share, key or message, and every set of signers",
  "test_binlinearity checks 50 random triples of fresh elements; products of pairings over arriving sets, cancellation and rejection are never exercised.",
  ALG,
  [("pairing", "src/groups/mod.rs pairing, miller_loop, precompute"), ("final exponentiation", "src/fields/fq12.rs"), ("group and target-group arithmetic", "src/groups/mod.rs, src/lib.rs")],
  ["verdict of e(sig, g2) == prod e(H(m), pk)"])
p("C09", "Any quorum of shares recovers the threshold secret",
  "When a secret is shared among n nodes with threshold t, any t of them that answer, in any order, recover exactly the shared scalar, the same point in the exponent and the same target-group key; fewer than t shares, a wrong share or a share under a wrong index recover something else. Which nodes crash, answer late or answer twice makes no difference to the recovered value.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "for every choice of n, t, node identifiers and polynomial, every set and order of responders, every crash and retry",
  "Tests invert random scalars one at a time; interpolation over the subsets and orders that failures leave is never run.",
  [LIB, FP, FM, AR, GRP, F12],
  [("scalar inverse, subtraction, multiplication", "src/arith.rs invert, sub, mul"), ("Gt::pow, Gt::inverse", "src/lib.rs"), ("scalar multiplication", "src/groups/mod.rs")],
  ["recovered scalar, point, target element, exported key bytes"])
p("C10", "I/O and formatting errors are reported, never swallowed",
  "When the sink or source that a value is encoded to, decoded from or printed to fails, the call returns an error; when the call returns success, the sink accepted every byte of the complete encoding. What a failing sink received before the failure is a prefix of that encoding, and the value itself is unchanged and can be written again.",
  ["fault_sequences", "crash_points", "inputs"],
  "for every operation that writes or reads a stream (serde text and binary, borsh, Display and Debug of every public type), every position at which the stream fails, and every kind of failure (error, zero-length write, full disk, end of input, interruption)",
  "No existing test gives the crate a failing writer, reader or formatter.",
  [LIB, AR, FP, F2, F6, F12, GRP],
  [("Display and Debug implementations", "src/lib.rs, src/arith.rs, src/fields/*.rs, src/groups/mod.rs"), ("serde and borsh implementations", "derives")],
  ["return value of the call", "bytes the sink accepted"])
p("C11", "Nodes of other versions understand each other's encodings",
  "A cluster that mixes this build with another implementation of the published encodings (serde text and binary, borsh) interoperates: each side decodes what the other wrote to the same element, in any representation the other may legitimately choose. The bytes and text a given element exports for hashing do not change between versions, so data written or keys derived before an upgrade stay usable after it.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of exchanges and rolling upgrades in which a value passes between this build, an independent implementation of the encodings and stored data of the pinned version",
  "No existing test pins any encoding; a symmetric change of writer and reader would pass every round-trip test.",
  [LIB, GRP, FP, F2, F6, F12, AR],
  [("field order, names and layout of the derived encodings", "all structs with serde/borsh derives"), ("into_bytes, Display", "src/lib.rs, src/arith.rs, src/fields/*.rs")],
  ["bytes on the wire", "into_bytes()", "to_string()"])
p("C12", "A computation resumed after crashes equals the uninterrupted one",
  "A node that runs a sequence of operations on scalars, points and target-group elements, checkpoints its registers and is killed and resumed at any points ends with the same values as the run without crashes, and both equal the mathematical result, including every ==, is_zero and inverse-exists answer given on the way. Whether a value was computed, decoded, normalised or copied never changes what later operations make of it.",
  ["crash_points", "histories", "inputs"],
  "for every program of operations, every set of checkpoints and crash points, and every initial value including extreme ones",
  "Tests compute short fixed expressions on fresh random values; they never continue from restored state and check no operation against an independent result.",
  ALG,
  [("every public operator of Fr, G1, G2, Gt and pairing", "src/lib.rs")],
  ["register contents after each step"])
p("C13", "An interrupted call leaves no trace",
  "When a call is abandoned because the caller's random source, reader, writer or formatter fails or panics in the middle of it, the values involved keep their meaning and every later call, on the same or another thread, behaves as if the interrupted call had never been made. Retrying the interrupted call with a healthy source gives the normal result.",
  ["fault_sequences", "crash_points", "schedules"],
  "for every operation that calls back into caller code, every callback at which the interruption happens, and every sequence of later operations",
  "No existing test interrupts a call.",
  [LIB, GRP, FP, AR],
  [("no state outlives a call", "the whole crate"), ("values are Copy and mutated only on success", "src/lib.rs normalize and operators")],
  ["results of later calls", "values of operands"])
p("C14", "Normalised digests agree exactly when replica states agree",
  "After normalisation, replicas that hold equal points have identical encodings and exported bytes, and replicas that hold different points do not; scalars and target-group elements have this property without normalisation. This holds for every history that led to the value, including histories whose result is the identity, and normalising again changes nothing.",
  ["histories", "schedules", "inputs"],
  "for every pair of histories (orders, retractions, restarts, rescalings) that reach the same or different values",
  "test_affine_jacobian_conversion checks == after conversion on random non-identity points; it never compares bytes and never reaches the identity through arithmetic.",
  [LIB, GRP, F12, FP, AR],
  [("normalize / to_affine", "src/lib.rs normalize, src/groups/mod.rs to_affine"), ("fully reduced field elements", "src/arith.rs add, sub, mul, neg")],
  ["serialised bytes", "into_bytes()", "to_string()"])
p("C17", "Wide-integer registers stay exact through any history of operations and crashes",
  "A program over the public 256- and 512-bit integers (reduced addition, subtraction, negation, Montgomery multiplication with reduced result, inversion modulo a prime, bit reads and writes, bit iteration, comparison, division with remainder, composition c1*m + c0, construction from bytes and words, random residues) computes exactly what the integers say for every odd modulus below 2^254 that it is given: quotients are returned exactly when they are below the modulus, a bit beyond the width is neither read nor written, slices of another length are refused. Checkpointed through their encodings and resumed after crashes at any points, the registers hold the same integers as without crashes; a torn encoding is no integer.",
  ["crash_points", "histories", "inputs"],
  "for every program, modulus and initial value, including values at limb boundaries and next to multiples of the modulus, and every set of checkpoints, crash points and torn writes",
  "testing_divrem and setting_bits look at one modulus and a few fixed vectors; multiplication and inversion are only used with the two field moduli, and no test encodes an integer.",
  [AR], [("U256, U512", "src/arith.rs")], ["limbs", "answers (bool, Option, Ordering)", "into_bytes()", "encodings"])
p("C18", "Scalars ingested from damaged text and bytes are what the bytes say",
  "A gateway that assembles numbers from fragments which a network loses, repeats, reorders and damages, and reads scalars from them, always understands exactly what the assembled bytes say: non-empty text of decimal digits, of any length and with any leading zeros, is that integer modulo the group order; 32 and 64 big-endian bytes and 256-bit integers likewise, whether or not they are below the order; text with any other character and slices of any other length are refused. What it exports is the canonical export of that scalar. Clients that retransmit until the echo is right all finish once faults stop.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "for every message, fragmentation, loss, duplication, reordering and damage, every crash of a gateway, and every number including multiples of the group order and their neighbours",
  "test_str parses two constants; nothing reads text that is malformed, long or above the order, or slices at all.",
  [FP, LIB, AR],
  [("from_str, from_slice, interpret, new_mul_factor", "src/lib.rs, src/fields/fp.rs"), ("U256::from_slice, U512::interpret, divrem", "src/arith.rs")], ["parsed scalar (into_bytes(), encoding) or refusal"])
p("C20", "Replicas that apply the same log hold byte-identical state",
  "Replicas that execute the same log of operations (decoding, arithmetic, scalar multiplication, pairing, normalising, comparing, parsing, printing, exporting, sampling from a logged seed) from the same start give byte-identical answers and hold registers with byte-identical encodings after every entry, without normalising anything. This holds whatever each process did before or does in between, on whichever thread it runs, whatever its clock, environment and operating-system entropy, and whether its state was computed, restored from its own snapshot or transferred from another replica. Once faults stop, every replica reaches the end of the log.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "for every log, every crash, restart and state transfer, every interleaving of a replica's entries with other work of its process, and every environment a process may run in",
  "Tests run in one process, look at each result once and compare points up to representation; nothing compares two processes with different pasts.",
  ALG,
  [("every public operation; the coordinates it leaves", "src/lib.rs, src/groups/mod.rs, src/fields/*.rs, src/arith.rs")],
  ["serialised bytes of every register after every log entry", "answers (bool, Option, text, bytes)"])
p("C21", "A ciphertext opens for exactly the entitled keys",
  "In attribute-based encryption built on the library (a blinded target-group message, point shares of a secret under a policy of nested thresholds, randomised keys), a user whose attributes satisfy the policy recovers exactly the encrypted element, whichever satisfied parts it combines in whichever order, from the original ciphertext or from one rerandomised on the way, and derives the same bytes from it. Users without enough attributes do not recover it even by pooling keys, and a tampered ciphertext decrypts to something else. Lost, late and repeated messages, crashes and reissued keys make no difference.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "for every policy, set of attributes, choice of parts, randomness of keys and ciphertexts, and every order of faults",
  "The crate's own consumers build such schemes; its tests never combine pairings, inverses and exponentiations in the target group with shares of a secret, and nothing in them crosses an encoding.",
  ALG,
  [("pairing products, inverse and pow in the target group", "src/lib.rs Gt, src/groups/mod.rs pairing, src/fields/fq12.rs"), ("scalar inverse in Lagrange coefficients", "src/fields/fp.rs inverse"), ("scalar multiplication", "src/groups/mod.rs Mul<Fr>")],
  ["Gt ==", "into_bytes() / to_string() of the recovered element"])
# not applicable to this technique
p("C15", "Field towers satisfy the field laws on every input",
  "Addition, multiplication, negation, squaring, inversion and Frobenius in the prime fields and their extensions satisfy the field axioms for every input.",
  ["inputs"], "for all field elements", "Tests sample random elements; the law quantifies over all of them.",
  [FP, FM, F2, F6, F12, AR], [("Montgomery arithmetic and tower formulas", "src/arith.rs, src/fields/*.rs")], ["results of field operations"])
p("C16", "The pairing is bilinear and non-degenerate on every input",
  "For all points P, Q and scalars a, b: e(aP, bQ) = e(P, Q)^(ab), and e(P, Q) = 1 only if P or Q is the identity.",
  ["inputs"], "for all points and scalars", "test_binlinearity samples 50 triples.",
  [GRP, F12], [("optimal ate pairing", "src/groups/mod.rs"), ("final exponentiation", "src/fields/fq12.rs")], ["pairing results"])
p("C19", "Generators and curve constants define the BN254 groups",
  "The published generators lie on their curves and have exactly the group order, and the tower and curve constants are those of the standard curve.",
  ["inputs"], "no quantifier beyond the constants themselves", "Only a few vectors depend on each constant.",
  [GRP, F2, F6, F12, FP], [("constants", "src/groups/mod.rs, src/fields/*.rs")], ["generator coordinates"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
