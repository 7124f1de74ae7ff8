#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, obs, hook=False):
    M = {"input": "inputs", "schedule": "schedules", "history": "histories", "fault": "fault_sequences", "crash_point": "crash_points"}
    over = [M[o] for o in over]
    def where(n):
        """file:line of the first occurrence, informational only"""
        leaf = n.split("::")[-1].split("/")[0]
        for f in files:
            try:
                for i, line in enumerate(open(os.path.join("/repo", f), errors="replace"), 1):
                    if leaf in line: return "%s:%d" % (f, i)
            except OSError:
                pass
        return files[0]
    mech = [{"name": m, "where": where(m)} for m in mech]
    state = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    hook = ("fault injection for the accelerated kernel" if hook else None)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mech, "state": state, "observe_at": obs, "hook_needed": hook}})

p("P01", "Group operations compute the class group product",
  "For every negative prime discriminant D = 1 (mod 8) of at most 1024 bits and all forms of discriminant D, composing, squaring, raising to a power, inverting and reducing return a form of the same discriminant (b^2 - 4ac = D) that represents the exact group product, whichever implementation is used, also when operands alias each other, are equal, inverse, the identity, or are not reduced; NUCOMP, NUDUPL, multiplication and powering also when D has small prime factors. Reduction returns the unique reduced representative.",
  ["input"], "all discriminants D (prime, 1 mod 8, up to 1024 bits), all pairs of forms of D, all exponents",
  "A handful of fixed chains cannot reach the rare quotient sizes, limb boundaries, gcd > 1 branches and aliasing patterns where multi-precision composition goes wrong.",
  ["src/nucomp.h", "src/xgcd_partial.c", "src/Reducer.h", "src/vdf_new.h", "src/vdf_original.h", "src/proof_common.h"],
  ["nucomp_form", "nudupl_form", "mpz_xgcd_partial", "Reducer::run", "PulmarkReducer::reduce", "FastPowFormNucomp", "form::operator*", "vdf_original::square"],
  ["coefficients (a,b,c) of the operand and result forms"], ["return of each group operation"])
p("P02", "Compressed forms decode exactly and strict decoding is unique",
  "Serializing any reduced form of a discriminant of 1 to 1024 bits gives 100 bytes that decode, strictly and leniently, to the same form, and different forms have different encodings. Apart from the flag-marked identity and generator, strict decoding accepts a byte string only if it is exactly what serialization of the decoded reduced form produces; lenient decoding additionally accepts only the historical self-consistent encodings of the same group. Every other string, of any length or content, is refused without a crash or hang.",
  ["input"], "all reduced forms of all discriminants of 1..1024 bits, and all byte strings",
  "Round-trip tests on a few forms do not exercise g > 1, b0 != 0, t = 0, short discriminants, nor the space of malformed strings.",
  ["src/bqfc.c", "src/bqfc.h", "src/proof_common.h", "src/python_bindings/fastvdf.cpp"],
  ["bqfc_compr", "bqfc_decompr", "bqfc_serialize_only", "bqfc_deserialize", "bqfc_verify_canon", "SerializeForm", "DeserializeForm"],
  ["encoded bytes", "decoded (a,b)"], ["return of SerializeForm / DeserializeForm / python bqfc_deserialize"])
p("P03", "Discriminants and challenges are the specified hash primes",
  "From a non-empty seed and a bit length that is a positive multiple of 8 up to 1024, the discriminant is minus the first probable prime of the SHA-256 counter stream with the top bit and the three low bits set; every other argument is refused with an error. (A one-byte seed has a stream of period 256; when that holds no prime there is no answer.) The challenge of a statement (x, y) is the first 264-bit prime with its top bit set of the stream seeded by the two encodings, and no composite is ever returned as prime nor any prime of the stream skipped.",
  ["input"], "all seeds, all requested sizes, all pairs of forms; all integers offered to the primality test",
  "Known-answer tests fix a few seeds; carries in the counter, truncation of the last digest block and rare primality branches are not sampled.",
  ["src/create_discriminant.h", "src/proof_common.h", "src/primetest.h", "src/pprods.h", "src/picosha2.h"],
  ["CreateDiscriminant", "HashPrime", "GetB", "is_prime_bpsw"], ["sprout counter", "candidate integer"],
  ["return of CreateDiscriminant, HashPrime, GetB, integer::prime"])
p("P04", "A proof is accepted exactly when every segment is valid",
  "A proof blob for (discriminant, input, iterations, depth) is accepted if and only if its length is exactly the one for that depth, every element decodes, every recursion segment carries the challenge and witness of its own statement, the segment iteration counts fit in and leave the remaining iterations for the final segment, and the final witness equation holds. Nothing else is accepted: no altered output, witness, challenge, count, order, length, depth, input or discriminant, and refusal never crashes or hangs.",
  ["input"], "all discriminants, inputs, iteration counts, depths and byte strings offered as proofs",
  "The tests verify honest proofs and a few corruptions; soundness quantifies over every malformed or adversarial blob.",
  ["src/verifier.h", "src/proof_common.h", "src/vdf_new.h"],
  ["CheckProofOfTimeNWesolowski", "VerifyWesoSegment", "VerifyWesolowskiProof", "CheckProofOfTimeNWesolowskiCommon"],
  ["position in the blob", "current input form", "remaining iterations"], ["verdict returned to the caller"])
p("P05", "Challenge-only verification agrees with full verification",
  "Verifying a blob from which the output was removed, given only the challenge of its last segment, succeeds exactly when the full blob verifies and then returns the encoding of that output; with any other challenge, witness, count, depth or length it fails and returns no output. The challenge extracted from a well-formed blob is the challenge of its last segment, and malformed blobs are refused.",
  ["input"], "all blobs, challenges, iteration counts and depths",
  "Tests only check one honest proof per depth; the agreement between three separately coded verification entry points is a relation over all inputs.",
  ["src/verifier.h", "src/python_bindings/fastvdf.cpp"],
  ["CheckProofOfTimeNWesolowskiWithB", "GetBFromProof", "CheckProofOfTimeNWesolowskiCommon"],
  ["blob without output", "challenge B"], ["return values of the three entry points"])
p("P06", "One-call proving yields the canonical verifying proof",
  "For every seed, discriminant size, starting form and number of iterations of at least one, one-call proving returns exactly the encoding of the input squared that many times followed by the encoding of the canonical witness, which verifies at depth 0. If a shutdown file was named and is absent when it is polled, proving returns an empty result and never a partial or wrong proof; if the file stays present the result is unaffected.",
  ["input", "crash_point"], "all iteration counts >= 1 (including 1 and block-boundary values), sizes, starting forms, and every moment at which the shutdown file disappears",
  "Tests prove a few counts; off-by-one errors live at counts next to multiples of the checkpoint stride and block width.",
  ["src/prover_slow.h", "src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp"],
  ["ProveSlow", "GenerateWesolowski", "ApproximateParameters", "GetBlock"],
  ["intermediates", "k and l parameters"], ["returned bytes"])
p("P07", "All language bindings give the same answers and contain errors",
  "The C interface, the Python module and the C++ functions return the same discriminants, proofs and verdicts for the same arguments, and arguments that the core refuses surface as false / empty / a Python exception, never as a crash, a hang or a wrong acceptance. Calls made concurrently from several threads return what they return when made alone.",
  ["input", "schedule"], "all arguments (valid and malformed) and all interleavings of concurrent calls",
  "Bindings are tested by one happy path each; agreement and thread-safety quantify over all argument combinations and schedules.",
  ["src/c_bindings/c_wrapper.cpp", "src/c_bindings/c_wrapper.h", "src/python_bindings/fastvdf.cpp", "src/verifier.h"],
  ["create_discriminant_wrapper", "prove_wrapper", "verify_n_wesolowski_wrapper", "PYBIND11_MODULE"],
  ["argument buffers", "result buffers"], ["return of each binding call"])
p("P08", "The squaring loop reports every power exactly, on every path",
  "However the accelerated squaring behaves in a batch (completes, stops early at any iteration, or reports corruption), the loop ends up having delivered to its listener every iteration number, in order, with the form that equals the initial form squared that many times, and continues from that form. Only after a detected corruption is a batch delivered again, from its start, so that the last delivery of every iteration is exact. The published iteration count never exceeds what the listener has received exactly, and the loop ends when the requested count is passed or a stop is requested.",
  ["input", "schedule", "fault"], "all discriminants and starting forms, all outcomes of each accelerated batch, all iteration targets",
  "The accelerated kernel fails only on rare operands; a test run sees few or none of the fallback transitions.",
  ["src/vdf.h", "src/vdf_fast.h", "src/callback.h"],
  ["repeated_square", "repeated_square_original", "repeated_square_nudupl", "repeated_square_fast"],
  ["current form", "iterations done", "published iterations"], ["listener callback", "published iteration counter"], True)
p("P09", "The two-thread squaring pipeline is exact under every schedule",
  "When squarings are split over the two cooperating threads, every interleaving yields the same forms as sequential squaring; a failed quotient step or a detected inconsistency on either side makes both sides leave the batch with the form of the last completed iteration (or the unchanged starting form for corruption), and no schedule deadlocks or lets one side use data the other has not published.",
  ["schedule", "input", "fault"], "all interleavings of the two threads, all operands, all failure points",
  "Races depend on relative speed of the two threads and on operand-dependent failures that tests do not control.",
  ["src/threading.h", "src/vdf_fast.h", "src/gcd_unsigned.h"],
  ["thread_counter fence/wait", "square_state_type::phase_0_master", "square_state_type::phase_1_slave", "square_fast_impl"],
  ["counter values", "error and corruption flags", "a, b, c buffers"], ["return of repeated_square_fast and its callbacks"], False)
p("P10", "Stored intermediates are the right powers until they are consumed",
  "In n-Wesolowski mode, for every segment length and position, looking up the intermediate value for an exponent that a prover of that segment needs returns the starting form raised to 2 to that exponent, as long as the squaring loop is less than the advertised window ahead; slots of different segments, positions or lengths that can be live at once never share storage or fall outside it, and every 2^16-th power up to 2^34 stays available as a checkpoint. This holds both when intermediates are stored while squaring and when background workers recompute them from checkpoints.",
  ["input", "schedule", "history"], "all exponents, all segment lengths, all relative progress of squaring and proving inside the window, all worker schedules",
  "The window wraps only after millions of iterations and the larger buckets are never reached by the tests.",
  ["src/callback.h", "src/fast_storage.h", "src/provers.h"],
  ["FastAlgorithmCallback::GetPosition", "FastAlgorithmCallback::OnIteration", "FastStorage::SubmitCheckpoint", "FastStorage::GetFinishedSegment"],
  ["forms array", "checkpoints array", "finished segment counter"], ["GetForm", "checkpoints", "GetFinishedSegment"])
p("P11", "Every n-Wesolowski request gets one valid proof of exactly its length",
  "In n-Wesolowski mode every requested iteration count that the squaring loop passes is answered, while squaring goes on, by a proof whose segments are contiguous, were really proved, have at most 64 parts and add up to exactly the requested count, whatever the order in which segment provers finish, are paused or resumed, and whenever the request arrives. At most the configured number of segment provers run at once, every stored segment is proved, and when there are more segments than provers the shorter and then the earlier segments run first.",
  ["schedule", "history"], "all interleavings of segment completion, pausing, new segments, requests and stop",
  "Which segment finishes first is decided by the scheduler; tests see one order per run.",
  ["src/vdf.h", "src/provers.h", "src/proof_common.h", "src/util.h"],
  ["ProverManager::RunEventLoop", "ProverManager::Prove", "Segment::IsWorseThan", "InterruptableProver"],
  ["pending segments", "done segments", "running / paused provers", "pending requests", "maximum provable iteration"],
  ["proof returned by Prove", "start / pause / resume of segment provers"])
p("P12", "2-Wesolowski proofs are valid for every count and across the stride change",
  "In 2-Wesolowski mode a request for any iteration count below the supported maximum yields a depth-2 proof of exactly that count that verifies, before, at and after the point where the checkpoint stride grows from 10 to 100, including when the change happens while proving. Lookups of a stored power return that power, never alias another one and never leave the storage, and no proof is built from a power that was not stored.",
  ["input", "history", "schedule"], "all iteration counts, all positions of the stride change, all interleavings of squaring and proving",
  "The stride changes after 91 million iterations, far beyond what tests execute.",
  ["src/callback.h", "src/provers.h", "src/vdf.h"],
  ["TwoWesolowskiCallback", "IncreaseConstants", "GetPosition", "GetFormCopy", "ProveTwoWeso", "TwoWesolowskiProver"],
  ["stride", "switch iteration and index", "forms array"], ["GetFormCopy", "GetPosition", "proof returned by ProveTwoWeso"])
p("P13", "1-Wesolowski mode proves exactly the requested count",
  "In simple mode, for every requested iteration count, the stored intermediates are the powers at multiples of the stride, the result is the form at exactly the requested count regardless of batching, and the proof built from them is the canonical witness and verifies.",
  ["input"], "all iteration counts and discriminants",
  "Tests use one count; stride, capacity and batch boundaries depend on the count.",
  ["src/callback.h", "src/vdf.h", "src/provers.h", "src/vdf_new.h"],
  ["OneWesolowskiCallback", "ProveOneWesolowski", "OneWesolowskiProver", "ApproximateParameters"],
  ["forms array", "result"], ["proof returned by ProveOneWesolowski"])
p("P14", "Every proof generator computes the canonical witness",
  "For every segment length, block width, number of residue classes and discriminant, each witness generator (sequential, parallel, pausable) returns the input raised to the integer quotient of 2^length by the challenge, independently of pausing and resuming, of the split between threads and of lengths that are not multiples of the block size; a paused generator makes no progress until it is resumed, and a generator stopped early never delivers a proof: what a generator delivers as finished is always that witness.",
  ["input", "schedule"], "all (length, k, l), all pause/resume/stop schedules",
  "Tests fix the parameters; boundary blocks and thread splits are parameter dependent.",
  ["src/prover_impl.hpp", "src/provers.h", "src/prover_parallel.hpp", "src/prover_slow.h"],
  ["Prover::GenerateProof", "Prover::GetBlock", "ParallelProver", "InterruptableProver"],
  ["buckets", "k, l parameters", "paused / finished flags"], ["GetProof and IsFinished"])
p("P15", "The timelord protocol is followed byte for byte",
  "In every session mode the client parses the discriminant, initial form and iteration messages exactly as framed, independently of how the bytes are fragmented, answers OK, sends for each accepted iteration exactly one well-framed message whose iteration count, output, witness type and proof verify for that session, and answers a stop message with STOP. Malformed sizes, digits, forms or over-long fields are refused without reading past buffers, without a bogus proof and without abnormal termination.",
  ["input", "history", "fault"], "all message sequences, fragmentations and malformed fields, in all three modes",
  "Tests parse a few handshakes; sessions are never run end to end in the test suite.",
  ["src/vdf_client.cpp", "src/vdf_client_session.h", "src/proof_common.h", "src/util.h"],
  ["InitSession", "ReadIteration", "WriteProof", "SessionOneWeso", "SessionTwoWeso", "SessionFastAlgorithm"],
  ["socket stream", "session mode", "set of accepted iterations"], ["bytes exchanged on the socket", "exit status of the client"])
p("P16", "A session stops cleanly at any moment",
  "Whatever a session is doing (waiting for an iteration, squaring, proving one or several requests, having finished them), a stop request or a lost connection makes all its threads finish within bounded time, the stop is acknowledged, and the process ends normally; no thread is left running, no request blocks the stop, and no proof is sent after the stop was acknowledged.",
  ["schedule", "crash_point", "history"], "every moment of a session at which stop or disconnect can arrive, in all modes",
  "Tests let sessions run to completion; the stop races with proving and waiting are never exercised.",
  ["src/vdf_client.cpp", "src/vdf.h", "src/provers.h"],
  ["FinishSession", "ProverManager::stop", "ProveOneWesolowski", "ProveTwoWeso", "InterruptableProver::stop"],
  ["stopped flags", "condition variables", "worker threads"], ["STOP on the socket and process exit"])
p("P17", "Hardware proving answers every request from valid values only",
  "In hardware mode, for every sequence of values reported by the device (including skipped, repeated or invalid ones) and every request, each emitted proof has segments that are contiguous from zero to the requested count and verifies; invalid values are never used, squaring resumes from the last good value, and storage released for reuse is no longer referenced.",
  ["history", "schedule", "fault"], "all value sequences, request sets and proof completion orders",
  "The hardware path is not part of the test suite at all.",
  ["src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp"],
  ["hw_proof_add_value", "hw_proof_add_iters", "hw_proof_process_req", "hw_retrieve_proof", "hw_compute_proof", "hw_proof_handle_value"],
  ["stored values", "checkpoint proofs", "request queue"], ["proof returned by hw_retrieve_proof"], False)
p("P18", "Hardware registers carry numbers without loss",
  "Writing any coefficient of the supported size into the redundant signed-word register image and reading it back returns the same number, for every sign and carry pattern, and the job and status images are decoded as they were encoded. Starting a job writes exactly that job to exactly that engine, with its clock on and out of reset and the start register last; reading the status of some engines reports each one's own counts and form and leaves the others alone. A requested clock frequency or voltage is set as close as the hardware offers, and refused when it is out of range.",
  ["input", "history"], "all coefficients representable in the register width, all job identifiers and iteration counts",
  "No test exercises the register codec; carries and sign digits depend on the operand.",
  ["src/hw/vdf_driver.cpp", "src/hw/vdf_driver.hpp", "src/hw/hw_interface.cpp", "src/hw/chia_driver.cpp", "src/hw/ftdi_driver.cpp"],
  ["VdfDriver::write_bytes", "VdfDriver::read_bytes", "ChiaDriver::SerializeJob", "ChiaDriver::DeserializeJob", "start_hw_vdf", "read_hw_status", "adjust_hw_freq", "SetPLLFrequency", "SetBoardVoltage", "FtdiDriver::Write"],
  ["register image", "engine control registers", "clock dividers"], ["transfers on the board's bus, decoded coefficients and job fields"])
p("P19", "The hardware client serves every timelord session to its end",
  "For every interleaving of timelord messages (in fragments of any size), board reports (right, wrong, stuck, at the end), frequency changes, lost or unreachable timelords and a stop: an engine runs exactly for the sessions in progress and for the session's own discriminant and form, after a refused value it resumes from the right power; every accepted request within reach is answered once with a canonical proof; a session ends with one STOP and a stopped engine; one timelord's faults (silence, malformed messages, disconnects, not reading) do not disturb the other sessions or the client, which ends normally on SIGTERM at any moment.",
  ["schedule", "history", "fault", "input"], "all message fragmentations and orders on up to three connections, all board behaviours, all moments of disconnect or stop",
  "The hardware client is not part of the test suite at all; its event loop, sockets and board access are only exercised by use.",
  ["src/hw/hw_vdf_client.cpp", "src/hw/hw_interface.cpp", "src/hw/hw_proof.cpp"],
  ["event_loop", "handle_conn", "read_data", "write_data", "flush_data", "handle_iters", "handle_proofs", "init_conn", "close_conn", "stop_conn", "drop_conn", "hw_vdf_client_main", "adjust_hw_freq", "start_hw_vdf", "stop_hw_vdf"],
  ["connection states and buffers", "engine states", "clock of the board"], ["bytes on each connection", "jobs, clocks and resets on the board", "exit of the process"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
