# Per claimed property: builds and run counts (variant, codec, quick, thorough), and the texts of manifest and evidence.
T = "deterministic simulation with fault injection: "
MODEL = "every value is compared with an independent implementation of the groups and the pairing"
CLAIMED = {
 "C01": {"parts": [("edge", "serde", 2340, 200000), ("edge", "borsh", 320, 30000)], "technique": T + "key agreement sessions under message faults and crashes, against a reference model",
   "simulated": "network, clock and timers, node crashes and restarts, durable key storage, random source",
   "rule": "An execution is one cluster of 2-4 nodes running 1-4 sessions.",
   "note": "Sampled schedules and keys; " + MODEL + "."},
 "C02": {"parts": [("edge", "serde", 32500, 1500000), ("edge", "borsh", 4550, 200000)], "technique": T + "gossiping replicas under message faults and crashes, against a reference model",
   "simulated": "network, clock and timers, node crashes and restarts, snapshots, irregular streams", "rule": "An execution is one cluster of 2-5 replicas folding 1-14 contributions.",
   "note": "Sampled schedules; " + MODEL + " after every step."},
 "C03": {"parts": [("edge", "serde", 4550, 200000), ("edge", "borsh", 3900, 200000)], "technique": T + "a log-structured store on a simulated disk with crashes, torn and lost writes, and I/O errors",
   "simulated": "disk (sync, loss, tearing, sector corruption of unsynced data, full disk, I/O errors, interrupted and short transfers), crashes",
   "rule": "An execution is one store's life with crashes and recoveries.", "note": "Sampled fault sequences; values are checked against an independent implementation."},
 "C04": {"parts": [("edge", "serde", 10400, 400000), ("edge", "borsh", 7800, 300000)], "technique": T + "damaged and forged records against a membership oracle",
   "simulated": "storage and transit damage, irregular streams", "rule": "An execution is a receiver reading 4-27 damaged or forged records.",
   "note": "Sampled damage; membership is decided by an independent implementation."},
 "C05": {"parts": [("edge-chk", "serde", 10400, 500000), ("edge-chk", "borsh", 7800, 400000)], "technique": T + "hostile input with per-operation work and memory budgets counted in executed edges",
   "simulated": "hostile senders, irregular streams; work measured in executed edges, memory by the allocator", "rule": "An execution is a node receiving hostile records and operating on what it accepted.",
   "note": "Sampled histories; non-termination is decided by a deterministic budget of executed edges, not by a clock. Built with overflow checks and debug assertions."},
 "C06": {"parts": [("edge", "serde", 2860, 200000), ("edge", "borsh", 390, 30000)], "technique": T + "simulated random sources: bit-flip influence, replay on other threads and times, re-entrant draws",
   "simulated": "random sources (healthy, stuck, periodic, damaged), operating-system entropy, environment variables, clock, interleaving of callers", "rule": "An execution is 2-11 samples with their perturbed replays.",
   "note": "Sampled sources; the sampler's draws are observed, none of its internals assumed."},
 "C07": {"parts": [("edge", "serde", 1950, 150000), ("mem", "serde", 1170, 100000), ("edge", "borsh", 260, 20000)], "technique": T + "seeded thread scheduler preempting at compiled-in points (basic-block edges; every load and store)",
   "simulated": "thread scheduling, preemption, stalls, lock waits, callbacks", "rule": "An execution is 2-4 threads with 2-9 calls each; interleavings differ by their sequence of switches.",
   "note": "Sequentially consistent interleavings of real threads, one running at a time; weak-memory effects are not explored."},
 "C08": {"parts": [("edge", "serde", 1300, 100000), ("edge", "borsh", 200, 15000)], "technique": T + "signers, aggregator and verifiers under message faults with dishonest signers, against a reference model",
   "simulated": "network, clock and timers, dishonest signers and aggregators", "rule": "An execution is one aggregation service run with 2-4 signers.",
   "note": "Sampled frauds and schedules; the expected verdict comes from an independent implementation."},
 "C09": {"parts": [("edge", "serde", 6500, 400000), ("edge", "borsh", 980, 60000)], "technique": T + "share holders that crash, lag and lie, and combining clients, against a reference model",
   "simulated": "network, clock and timers, crashes and restarts, durable shares, lying holders", "rule": "An execution is one dealing with 1-3 combining clients.",
   "note": "Sampled schedules; " + MODEL + "."},
 "C10": {"parts": [("edge", "serde", 11700, 800000), ("edge", "borsh", 10400, 600000)], "technique": T + "sinks and sources that fail at chosen bytes",
   "simulated": "writers, readers and formatting sinks that fail, once or for good, at chosen positions", "rule": "An execution is 2-13 values written, read or printed with failures.",
   "note": "Sampled failure positions and kinds."},
 "C11": {"parts": [("edge", "serde", 9100, 500000), ("edge", "borsh", 6500, 400000)], "technique": T + "a mixed cluster of this build and an independent implementation of its formats",
   "simulated": "network, the other implementation, irregular streams", "rule": "An execution is a cluster of 2-5 nodes passing 2-9 elements around.",
   "note": "Sampled elements and representations; the other implementation is the reference codec (a stub of another version)."},
 "C12": {"parts": [("edge", "serde", 5200, 300000), ("edge", "borsh", 780, 45000)], "technique": T + "register machine with checkpoints, crash and resume, against a reference model",
   "simulated": "crashes, checkpoint storage, irregular streams", "rule": "An execution is one program, run uninterrupted and run with crashes.",
   "note": "Sampled programs and crash points; every value and answer is compared with an independent implementation."},
 "C13": {"parts": [("edge", "serde", 11700, 800000), ("edge", "borsh", 9100, 500000)], "technique": T + "calls torn down by failing or panicking callbacks, between ordinary calls on several threads",
   "simulated": "random sources, readers, writers and formatters that fail or panic; threads", "rule": "An execution is 3-22 interrupted, ordinary and retried calls.",
   "note": "Sampled interruption points; ordinary results are compared with an independent implementation."},
 "C14": {"parts": [("edge", "serde", 32500, 1500000), ("edge", "borsh", 4640, 214285)], "technique": T + "gossiping replicas exchanging digests of normalised state",
   "simulated": "network, clock and timers, node crashes and restarts, snapshots", "rule": "An execution is one cluster of 2-5 replicas; digests are compared whenever replicas meet.",
   "note": "Sampled histories; equality of states is decided by an independent implementation."},
 "C17": {"parts": [("edge", "serde", 39000, 2000000), ("edge", "borsh", 26000, 1500000)], "technique": T + "register machine of wide integers with checkpoints, torn writes, crash and resume, against a reference model",
   "simulated": "crashes, checkpoint storage with torn writes, irregular streams, random sources",
   "rule": "An execution is one program for one modulus, run uninterrupted and run with crashes.",
   "note": "Sampled programs, moduli and crash points; every value and answer is compared with schoolbook integer arithmetic."},
 "C18": {"parts": [("edge", "serde", 39000, 1500000), ("edge", "borsh", 9750, 300000)], "technique": T + "an ingestion service that reads numbers from fragments under message faults, damage and crashes, against a reference model",
   "simulated": "network, clock and timers, crashes and restarts, damage in transit, fragmentation",
   "rule": "An execution is one service of 1-2 gateways and 1-3 clients with 1-15 numbers.",
   "note": "Sampled messages and faults; what the received bytes say is decided by an independent implementation."},
 "C20": {"parts": [("edge", "serde", 980, 60000), ("edge", "borsh", 460, 30000)], "technique": T + "a replicated log executed by separate processes with different pasts and surroundings, under message faults, kills and state transfers",
   "simulated": "network, sequencer, disks, process kills and restarts, clock, environment, operating-system entropy, other work of each process",
   "rule": "An execution is one log of 4-84 entries executed by 2-4 replicas (a process per life) and an auditor.",
   "note": "Sampled logs and faults; replicas are compared with each other byte for byte, not with a model (C12 does that)."},
 "C21": {"parts": [("edge", "serde", 910, 60000), ("edge", "borsh", 130, 10000)], "technique": T + "an attribute-based encryption service with tampering storage and colluding users under message faults and crashes, against a reference model",
   "simulated": "network, clock and timers, user crashes and durable keys, tampering storage, collusion, random sources",
   "rule": "An execution is one ciphertext under a policy of 1-4 leaves, and 1-3 users.",
   "note": "Sampled policies, keys and schedules; " + MODEL + "."},
}
