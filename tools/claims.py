TV = "TLA+ specification checked with TLC; "
CLAIMS = {
 "P01": (TV + "exhaustive small class groups replayed into the code, recorded production-size calls validated against the spec", "model_checking",
         "Exhaustive over all class groups of the listed small discriminants; sampled (seeded) at 32..1024 bits. Trusts java.math.BigInteger and TLC."),
 "P02": (TV + "exhaustive encodings of small class groups replayed, recorded encode/decode calls (incl. adversarial strings) validated against the spec", "model_checking",
         "Exhaustive round trip / injectivity / strict uniqueness for small discriminants; sampled with systematic mutations for 3..1024 bits."),
 "P03": (TV + "recorded hash-prime, discriminant, challenge and primality calls validated against the spec", "model_checking",
         "All 128 sizes, carry and wrap-around seeds, every integer of an interval, adversarial composites; primality oracle is java BigInteger."),
 "P04": (TV + "recorded verdicts of the real verifier on valid, corrupted, re-segmented and forged blobs validated against the spec", "model_checking",
         "Sampled statements (seeded) with systematic corruptions of every field at 8 discriminant sizes; soundness against arbitrary forgers is a cryptographic assumption."),
 "P05": (TV + "recorded challenge-only verdicts, outputs and extracted challenges validated against the spec", "model_checking",
         "As P04, for the challenge-only entry points, incl. agreement with full verification."),
 "P06": (TV + "recorded one-call proofs validated against the spec (witness exponent taken modulo the group order for long runs)", "model_checking",
         "Every count of an interval for small groups, counts above the l>1 threshold, production sizes sampled; shutdown file present/absent/removed."),
 "P08": (TV + "exhaustive model of the loop under every fast-batch outcome; TLC schedules of batch outcomes replayed into the real loop (faults injected at the pipeline's hook points), recorded deliveries validated against the spec", "model_checking",
         "Model exhaustive for the listed batch shapes; real loop run with scripted partial batches, corruptions and stops at sampled discriminants and sizes; exactness judged by the specification's own group arithmetic."),
 "P09": (TV + "exhaustive model of the two-thread pipeline (counters, fences, flags, visibility); TLC schedules replayed by controlling both threads at their synchronisation points, recorded results validated against the spec", "model_checking",
         "Model exhaustive for 2 squarings incl. failures at each phase; code schedules switch at synchronisation points plus free runs with random delays; x86 memory ordering only; value faults clear one bit."),
 "P10": (TV + "exhaustive model of slot allocation and background workers; recorded slots, lookups and checkpoints of the real storage (direct and worker-filled) validated against the spec", "model_checking",
         "Segment counts 1..10; workers' order and speed scripted; counts above 2^34 squarings are out of scope (fixed checkpoint array)."),
 "P11": (TV + "model of the manager of segment provers checked with liveness; its schedules replayed step by step into the real ProverManager, recorded behaviours and every proof validated against the spec", "model_checking",
         "Model exhaustive for up to 3 lengths, 3 provers, 18 short segments; real manager with scripted ends, late ends, retries, free runs, real provers and worker-filled storage; proofs over groups of known order."),
 "P12": (TV + "model of 2-Wesolowski storage across the stride change; recorded positions, lookups and proofs of the real code around the change validated against the spec", "model_checking",
         "Positions checked up to the supported maximum; proofs below, at and after 91e6 squarings over groups of known order (the loop's powers are synthesised)."),
 "P13": (TV + "recorded stored powers, results and proofs of 1-Wesolowski mode for every batching validated against the spec", "model_checking",
         "Every count of an interval and boundary counts of the stride; batch sizes scripted; stop at scripted moments."),
 "P14": (TV + "exhaustive exponent-level model of the generators with pause/resume/stop; recorded runs of every generator of the code validated against the spec", "model_checking",
         "Model exhaustive for T<=20, k<=3, l<=5; real generators run at sampled (T,k,l), all five generator classes, pause/resume at scripted steps; witness exponents modulo the group order above 2^16."),
 "P07": (TV + "recorded calls of the C, Rust and Python bindings, alone and concurrent, validated against the spec", "model_checking",
         "Valid and malformed arguments of every entry point at 8 sizes; concurrency by 8 racing threads (not schedule-controlled); process death or hang is a recorded result."),
 "P15": (TV + "model of a session (messages, accepted requests, end) checked with liveness; scripted sessions of the real client recorded byte for byte and validated against the specification, every proof by the verification rule or group arithmetic", "model_checking",
         "Valid sessions of all modes with random fragmentation, malformed first messages and iteration messages (address sanitizer), more than 100 two-segment requests; discriminants of 24..1024 bits; the client's own sleeps are shortened."),
 "P16": (TV + "model of a session with a stop, malformed message or lost connection at every point, checked with liveness; its schedules driven into the real client, with arithmetic slowed and squaring held in each phase, and into the n-Wesolowski manager", "model_checking",
         "A session that does not end within 90 s (45 s where squaring is held) counts as hanging; threads still running at STOP count as left over; stop moments are sampled from the model's schedules and the phases of each mode, not from every instruction."),
 "P17": (TV + "model of the proof registry of the hardware client (values, checkpoints, proof threads, restarts) checked with liveness; its schedules replayed with single threads held at each of their steps, recorded answers validated against the spec", "model_checking",
         "Model exhaustive for the listed sizes; real registry fed by a scripted board over groups of known order; interleavings are forced at memory accesses of one thread at a time, not enumerated in full; vendor libraries replaced by stubs."),
 "P18": (TV + "model of a number in redundant digits with carries moved at will; recorded calls of the board driver with every bus transfer validated against a specification of the board's registers", "model_checking",
         "Model exhaustive for 2-5 digits of 1-4 bits; real widths sampled with edge digits and moved carries; vendor libraries replaced by stubs and the board by a recording transport that follows the documented register map."),
 "P19": (TV + "model of the client's event loop with several connections, engines and a board checked with liveness; its schedules and random scenes driven into the real client over sockets with a simulated board, every session's bytes and the board's transfers validated against the spec", "model_checking",
         "Model exhaustive for 2 connections and few messages; the real client runs under the address sanitizer with a simulated board on its bus, sessions shortened to tens of thousands of squarings over groups of known order, waits shortened and the wall clock advanced; a missing answer or STOP is a violation after 75-90 s."),
}
NOTYET = {}
