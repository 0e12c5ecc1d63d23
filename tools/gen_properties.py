#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})

prop("C01", "N-Wesolowski answers are correct under every schedule",
 "Whenever the timelord client in N-Wesolowski mode answers a requested iteration count, the answer carries exactly that count, the exact form reached by squaring the session's initial form that many times, and a chain of at most 64 sub-proofs that covers exactly that count and verifies. This holds however the squaring loop, the proving threads and the arrival of requests interleave, in whatever order background segment proofs finish, and however often provers are paused and resumed, as long as proving lags the squaring loop by less than the documented window.",
 ["schedules", "histories", "inputs"],
 "All thread schedules of squaring loop, prover event loop, segment provers and request threads; all request counts, orders and arrival times reachable in a session; all discriminants and initial forms a session accepts.",
 "No test runs the N-Wesolowski proof manager at all, let alone under a chosen schedule; the 1weso/2weso/prover test programs check one free-running interleaving each.",
 ["src/vdf.h", "src/provers.h", "src/callback.h", "src/vdf_client.cpp", "src/prover_impl.hpp", "src/util.h"],
 [("segment scheduling: done/pending segment tables, greedy cover of the requested count", "src/vdf.h ProverManager::RunEventLoop, ProverManager::Prove"),
  ("last partial segment recomputed from the 2^16 checkpoint", "src/vdf.h ProverManager::Prove"),
  ("sliding window of stored intermediates", "src/callback.h FastAlgorithmCallback")],
 [("done_segments/max_proving_iteration", "which prefix of the chain is proved", "src/vdf.h")],
 ["the answer frame on the socket"])

prop("C02", "N-Wesolowski mode answers every request exactly once",
 "In N-Wesolowski mode every request for a positive iteration count receives exactly one answer frame before the stop request, provided the squaring loop reaches that count and threads keep being scheduled; no count is answered that was not requested, and requests that are already in the past, that coincide, or that arrive out of order are answered too. No sequence of thread delays can leave an answerable request waiting forever.",
 ["schedules", "histories"],
 "All schedules that are eventually fair, all request multisets and arrival orders, spurious condition-variable wake-ups.",
 "Liveness under adversarial scheduling (lost wake-ups, missed notifications, stuck paused provers) is invisible to a test that happens to run freely; no test issues concurrent requests.",
 ["src/vdf.h", "src/vdf_client.cpp", "src/provers.h"],
 [("new_event / proof_cv / last_segment_cv condition variables", "src/vdf.h ProverManager"), ("one request thread per count", "src/vdf_client.cpp SessionFastAlgorithm")],
 [("pending_iters, pending_iters_last_sg", "requests waiting for segments", "src/vdf.h")],
 ["request bytes and answer frames on the socket"])

prop("C03", "Two-Wesolowski answers are correct under every schedule",
 "Whenever the timelord client in two-Wesolowski mode answers a requested iteration count, the answer carries exactly that count, the exact squared form and a depth-two proof chain that verifies and covers that count. This holds for any interleaving of the squaring loop with any number of concurrent proving threads, including while the spacing at which intermediate forms are stored is being switched.",
 ["schedules", "histories", "inputs"],
 "All schedules; all sets of concurrent requests; counts on both sides of and straddling the spacing switch (exercised with scaled-down constants).",
 "2weso_test runs one free schedule with one request; the spacing switch at 91 million iterations is only covered by a unit test of index arithmetic, never with provers racing it.",
 ["src/vdf.h", "src/callback.h", "src/provers.h", "src/vdf_client.cpp"],
 [("intermediate store with spacing switch under a lock", "src/callback.h TwoWesolowskiCallback"), ("recursive prover that polls progress", "src/vdf.h ProveTwoWeso"), ("round-up to a multiple of 100 before switching", "src/vdf.h repeated_square")],
 [("transition_state, kl", "spacing switch metadata", "src/callback.h")],
 ["the answer frame on the socket"], "compile-time override of the two scaling constants (guard CHIAVDF_SIM)")

prop("C04", "Two-Wesolowski mode answers each distinct count once, at any load",
 "In two-Wesolowski mode each distinct positive count that is admitted is answered exactly once and a repeated count is ignored without a second answer. When more than one hundred distinct counts have been requested, a further smaller count still gets admitted by giving up the largest one, and nothing else changes: the client keeps running, corrupts no memory, and still answers every count it has not given up.",
 ["histories", "schedules"],
 "All request histories, including duplicates, more than one hundred distinct counts, arrival orders that trigger eviction, and any schedule of the proving threads.",
 "No test drives the session with more than one request, so admission, eviction and the hundred-thread limit never execute.",
 ["src/vdf_client.cpp", "src/vdf.h"],
 [("seen_iterations set, per-thread stop flags, hundred-thread limit", "src/vdf_client.cpp SessionTwoWeso")],
 [("stop_vector", "stop flag per proving thread", "src/vdf_client.cpp")],
 ["request bytes and answer frames on the socket", "process exit status"])

prop("C05", "One-Wesolowski mode answers its request once and correctly",
 "In one-Wesolowski mode the first requested positive count is answered exactly once with that count, the exact squared form and a single Wesolowski proof that verifies, for any interleaving of the squaring loop and the proving thread. Further counts sent before the stop request are tolerated and not answered.",
 ["schedules", "inputs", "histories"],
 "All schedules of the squaring and proving threads, counts from one up to what a run can reach (including counts on batch and storage boundaries), extra requests.",
 "1weso_test runs the callback in one process with one fixed count and no session; boundary counts combined with schedules are not exercised.",
 ["src/vdf.h", "src/callback.h", "src/provers.h", "src/vdf_client.cpp"],
 [("result captured at the wanted iteration, prover polls progress", "src/callback.h OneWesolowskiCallback; src/vdf.h ProveOneWesolowski"), ("loop overrun past the wanted count", "src/vdf.h repeated_square")],
 None, ["the answer frame on the socket"])

prop("C06", "A stop request always ends the session in bounded time",
 "At whatever moment the stop request arrives, in every mode, the client stops all its threads, sends the four-byte stop notice exactly once as its last bytes, reads the acknowledgement and exits with status zero, within a bounded time that does not depend on how far any computation has got beyond a small grace. After the stop notice nothing else is written, no proof is left half-written, and no thread is left blocked.",
 ["schedules", "crash_points"],
 "Stop arriving before, during and after every phase of every request (waiting, proving, paused, sleeping before a retry, writing) under all schedules.",
 "No test stops a running session; shutdown races (lost wake-up between flag and wait, provers paused while stopped, stop during the retry sleep) depend on exact timing.",
 ["src/vdf.h", "src/vdf_client.cpp", "src/provers.h", "src/fast_storage.h"],
 [("ordered stop: flag, wake event loop, stop provers, wake request threads, join", "src/vdf.h ProverManager::stop; src/vdf_client.cpp Session*"), ("STOP / ACK handshake", "src/vdf_client.cpp FinishSession")],
 None, ["socket byte stream", "process exit status", "simulated time from stop request to exit"])

prop("C07", "A lost or misbehaving peer never crashes or wedges the client",
 "If the peer closes or resets the connection, or sends malformed bytes, at any point of a session in any mode, the client process ends by itself within bounded time, without aborting on an unhandled error, touching invalid memory or leaving a thread blocked. No proof of anything the peer did not request is ever emitted.",
 ["crash_points", "fault_sequences", "schedules"],
 "Every byte offset of the incoming stream and every outgoing write as the point of failure (end of stream, reset, broken pipe), every malformed length or digit, with any amount of work in flight.",
 "vdf_client_session_test covers only the handshake reader with a handful of truncated inputs; nothing covers failure while worker threads exist.",
 ["src/vdf_client.cpp", "src/vdf_client_session.h", "src/vdf.h"],
 [("handshake and request parsing with error codes turned into exceptions", "src/vdf_client_session.h; src/vdf_client.cpp ReadIteration"), ("session-level exception handling", "src/vdf_client.cpp Session*")],
 None, ["process exit status", "socket byte stream"])

prop("C08", "Answers from concurrent threads never mix on the wire",
 "The byte stream the client sends is always the ready mark followed by whole answer frames and, after a stop request, the stop notice: each frame is a big-endian length followed by exactly that many hexadecimal characters that decode to count, value size, value, proof kind and proof. This holds when many threads finish at the same moment, when the transport accepts any number of bytes per write, and when incoming requests arrive in arbitrary fragments.",
 ["schedules", "fault_sequences"],
 "All interleavings of frame writers with each other and with the stop handshake, all short-write and fragmentation patterns and arbitrary write delays.",
 "No test has two writers, a short write or a fragmented request.",
 ["src/vdf_client.cpp", "src/vdf_client_session.h"],
 [("socket mutex around the two writes of a frame and around the stop notice", "src/vdf_client.cpp WriteProof, FinishSession")],
 None, ["socket byte stream"])

prop("C09", "The two-thread squaring pipeline is exact under every schedule",
 "For every interleaving of its two threads, including one being descheduled for so long that the other gives up waiting, the accelerated squaring pipeline reports a number of completed squarings and a form that is exactly the input squared that many times, or, only when one of its integers really was corrupted, reports corruption and leaves the input unchanged. Every value it announces to its observer along the way for a squaring it counts is exact as well, and it always terminates.",
 ["schedules", "configurations", "inputs"],
 "All interleavings of the master and slave thread at memory-access granularity (and between instructions of the generated assembly), long stalls of either thread, both instruction-set variants, discriminant sizes.",
 "Tests run the pipeline freely on idle cores, where the lock-free counters are never stressed; stalls longer than the spin limit never happen.",
 ["src/threading.h", "src/vdf_fast.h", "src/asm_gcd_unsigned.h", "src/vdf.h"],
 [("per-thread monotone counters with fences and error flags", "src/threading.h thread_state"), ("counter published by generated assembly after each matrix entry", "src/asm_gcd_unsigned.h"), ("five-phase split of one squaring", "src/vdf_fast.h square_state_type")],
 [("master_counter/slave_counter", "progress of each thread", "src/threading.h")],
 ["returned count and form", "observer callbacks"])

prop("C10", "Corruption in the accelerated path is detected and repaired",
 "If bits of the accelerated squaring path's intermediate integers or matrices are corrupted at any point of a squaring (before its finished value is being copied out to the observer, and to a value that is not by itself another form of the discriminant, which only a tiny first coefficient in the first squarings from the generator allows), every form the squaring loop later exposes (results, stored intermediates, checkpoints) for finished progress is still the exact one, because the corruption is detected and the affected stretch is recomputed by the independent slow path. A premature end of the accelerated path for any reason likewise loses or repeats no squaring.",
 ["fault_sequences", "schedules", "inputs"],
 "All single and repeated corruptions at the built-in injection points, premature terminations at every iteration, combined with all schedules.",
 "Error injection is compiled out in production and test builds (a constant false), so the detection and recovery path never executes in tests.",
 ["src/vdf.h", "src/vdf_fast.h", "src/threading.h", "src/integer.h"],
 [("validation of the discriminant each iteration, corruption flag, slow-path recomputation of the batch", "src/vdf_fast.h; src/vdf.h repeated_square"), ("existing injection points", "src/integer.h inject_error")],
 None, ["answers and stored intermediates of a session"], "an injection hook in the existing error-injection function (guard CHIAVDF_SIM)")

prop("C11", "Deferred storage of intermediates on many-core machines is faithful",
 "On machines with many processors, where intermediate forms are recomputed and stored by background threads instead of by the squaring loop, every answer is as correct and every request as certainly answered as on small machines. No background order, delay or stop can make a prover use an intermediate form that has not been stored or has been overwritten.",
 ["schedules", "configurations"],
 "All schedules of the squaring loop, the six storage threads and the provers, with the processor count reported as sixteen or more; stop at any time.",
 "The path is only enabled on machines with at least sixteen hardware threads, and no test exercises it at all.",
 ["src/fast_storage.h", "src/callback.h", "src/vdf.h", "src/vdf_client.cpp"],
 [("queue of pending checkpoints, two stored-flags per 2^16 segment, finished-prefix scan", "src/fast_storage.h FastStorage")],
 [("intermediates_stored", "half-segments whose intermediates are complete", "src/fast_storage.h")],
 ["the answer frame on the socket", "process exit status"])

prop("C12", "Pausing, resuming or stopping a prover never changes or loses a proof",
 "A background segment proof that is paused and resumed any number of times at any points ends with exactly the proof an undisturbed run produces, and signals completion once it is available. A paused proof makes no progress past its next step, a resumed one always continues, and a stopped one always terminates, whether it was running, paused or just finishing.",
 ["schedules", "histories"],
 "All sequences of start, pause, resume and stop against all points of the proof computation, under all schedules.",
 "No test pauses, resumes or stops an interruptible prover.",
 ["src/provers.h", "src/prover_impl.hpp"],
 [("pause flag with condition variable, finished flags, join on stop", "src/provers.h InterruptableProver")],
 [("is_paused, is_finished, is_fully_finished", "prover life cycle", "src/provers.h")],
 ["prover completion flags and proof form"])

prop("C13", "Cancelling a library proof is prompt and never yields a partial proof",
 "A library proving call that was given a shutdown marker file returns either the complete correct proof or the documented empty result, never anything else. Once the marker disappears it stops within 65,536 further squarings, a marker that stays in place or a marker check that is merely interrupted never cancels it, and without a marker path the file system is never consulted for cancellation.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every squaring at which the marker may disappear, every failing or interrupted file check, all iteration counts and discriminants.",
 "prover_slow_regression_test checks parameter arithmetic only; python tests use one count and no mid-flight cancellation.",
 ["src/prover_slow.h", "src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp"],
 [("periodic check of the marker inside the squaring loop", "src/prover_slow.h ProveSlow")],
 None, ["return value of the proving call", "file-status calls issued"])

prop("C14", "Concurrent library calls behave as if each ran alone",
 "Any mix of proving, verifying and discriminant-creating library calls issued from different threads at the same time returns, for each call, exactly what the same call returns when run alone. No interleaving, thread creation or thread exit makes one caller see another's data.",
 ["schedules", "programs"],
 "All mixes and interleavings of calls from several threads, at memory-access granularity, including threads that start and end between calls.",
 "Tests call the library from one thread; shared scratch state would go unnoticed.",
 ["src/c_bindings/c_wrapper.cpp", "src/nucomp.h", "src/xgcd_partial.c", "src/prover_slow.h", "src/verifier.h", "src/proof_common.h", "src/Reducer.h"],
 [("per-thread scratch integers", "src/nucomp.h; src/xgcd_partial.c"), ("no shared mutable state in calls", "src/c_bindings/c_wrapper.cpp")],
 None, ["return values of the C API"])

prop("C15", "Library calls fail cleanly when memory runs out",
 "If any C++ memory allocation inside a library call fails, the call returns its documented failure value or the correct result: it never crashes, never lets an error escape to the caller, never reports success with a wrong or partial result, and leaks nothing it handed out. The next call, made when memory is available again, behaves normally.",
 ["fault_sequences", "inputs"],
 "Every C++ allocation of every library entry point as the failing one, single and repeated failures, followed by a normal call.",
 "No test injects an allocation failure.",
 ["src/c_bindings/c_wrapper.cpp", "src/c_bindings/c_wrapper.h"],
 [("catch-all at the C boundary", "src/c_bindings/c_wrapper.cpp")],
 None, ["return values of the C API", "allocations outstanding after each call"])

prop("C16", "Splitting a proof over two threads yields the same proof",
 "The two-thread proof computation used by the hardware timelord produces exactly the form the single-thread computation defines, for every interleaving of its threads and every length it accepts. When told to stop at any point it ends with both threads finished and no result claimed as complete.",
 ["schedules", "inputs", "crash_points"],
 "All interleavings of the two halves, all lengths on either side of the parameter boundaries, stop at any step.",
 "No test runs the parallel prover outside free-running hardware tools.",
 ["src/prover_impl.hpp", "src/prover_interface.hpp", "src/hw/hw_proof.cpp"],
 [("split of the block loop into two halves combined at the end", "src/prover_impl.hpp ParallelProver")],
 None, ["proof form and completion flag"])

prop("C17", "Hardware timelord answers are correct despite bad chip values",
 "Every proof the hardware timelord software emits for a requested iteration count is the exact squared form with a chain of proofs that verifies, even when the chip delivers wrong values, repeats values, jumps or stalls. A wrong chip value is either detected and repaired from an earlier good one or nothing is emitted that depends on it.",
 ["fault_sequences", "schedules", "histories"],
 "All sequences of good, corrupted and missing chip reads, all schedules of the value-computation and proof threads, any set of requests.",
 "hw_test and the emulator run freely with a fixed error rate and are not part of the test suite; nothing in the suite executes the hardware path.",
 ["src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp", "src/hw/vdf_driver.cpp", "src/hw/hw_interface.cpp", "src/hw/hw_vdf_client.cpp"],
 [("validity check of each value, recomputation from the last good value, intermediate recomputation threads", "src/hw/hw_proof.cpp")],
 [("values[], done_values, last_good", "values known per interval", "src/hw/hw_proof.hpp")],
 ["proof bytes on the socket"])

prop("C18", "Hardware timelord answers each request once when faults stop",
 "The hardware timelord software answers each requested iteration count at most once, and exactly once within bounded time after the chip behaves normally (provided every wrong value it delivered before is recognisable as wrong), in whatever order and density requests arrive on each of its connections. It never answers a count that was not requested on that connection.",
 ["schedules", "histories", "fault_sequences"],
 "All request histories on up to three connections, all thread schedules, chip faults that eventually stop.",
 "No test in the suite runs the hardware client.",
 ["src/hw/hw_proof.cpp", "src/hw/hw_vdf_client.cpp"],
 [("request queue, proof threads limit, retrieval of finished proofs", "src/hw/hw_proof.cpp; src/hw/hw_vdf_client.cpp")],
 None, ["proof bytes on the socket"])

prop("C19", "Hardware timelord connections survive fragmentation, stops and loss",
 "However the transport fragments or delays bytes in either direction, the hardware timelord client reads exactly the requests that were sent, writes whole answers only, answers a stop request with the stop notice, and treats a closed or malformed connection as the end of that connection's session without crashing or disturbing the other connections.",
 ["fault_sequences", "crash_points", "schedules"],
 "All fragmentations, short writes, would-block results, closes and malformed inputs at any byte on any of the connections.",
 "No test in the suite runs the hardware client's event loop.",
 ["src/hw/hw_vdf_client.cpp"],
 [("non-blocking per-connection state machine", "src/hw/hw_vdf_client.cpp")],
 None, ["socket byte streams", "process exit status"])

prop("C20", "Verification accepts exactly the valid proofs",
 "A verification call accepts every proof the provers produce for the same inputs and rejects every other byte string, without crashing on any input.",
 ["inputs"],
 "All byte strings, discriminants and iteration counts.",
 "Unit tests sample a few valid and mutated proofs.",
 ["src/verifier.h", "src/c_bindings/c_wrapper.cpp"],
 [("recursive n-Wesolowski check", "src/verifier.h")], None, ["return value"])

prop("C21", "Form serialization is canonical and lossless",
 "Serializing a reduced form and deserializing the bytes returns the same form, and in strict mode only the canonical encoding of a form is accepted.",
 ["inputs"],
 "All reduced forms and all byte strings of the encoding's length.",
 "Unit tests sample a few forms.",
 ["src/bqfc.c"],
 [("compressed form codec with canonical re-encoding check", "src/bqfc.c")], None, ["return value"])

prop("C22", "Discriminant derivation is deterministic and well-formed",
 "The same seed and size always give the same discriminant: a negative prime of exactly the requested size, congruent to one modulo eight; invalid sizes and seeds are rejected.",
 ["inputs"],
 "All seeds and sizes.",
 "Unit tests sample a few seeds and bounds.",
 ["src/create_discriminant.h", "src/proof_common.h"],
 [("hash-to-prime", "src/proof_common.h HashPrime")], None, ["return value"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
