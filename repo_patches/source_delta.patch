From 09a6b11cb966d7de09e748404a3806ac07621a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 01/28] sim hooks: scaled 2-weso constants and error injection
 under CHIAVDF_SIM

---
 src/callback.h |  8 ++++++++
 src/integer.h  | 11 +++++++++++
 src/provers.h  |  2 +-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..bab795c 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -13,8 +13,16 @@
 const int kWindowSize = 20;
 
 // Applies only to 2-weso.
+#ifndef CHIAVDF_SIM
 const int kMaxItersAllowed = 8e8;
 const int kSwitchIters = 91000000;
+const int kLargeSegmentIters = 10000000;
+#else
+// Deterministic simulation: the same layout, a thousand times smaller.
+const int kMaxItersAllowed = 8e5;
+const int kSwitchIters = 91000;
+const int kLargeSegmentIters = 10000;
+#endif
 
 class WesolowskiCallback :public INUDUPLListener {
 public:
diff --git a/src/integer.h b/src/integer.h
index 1bb9428..8345fb8 100644
--- a/src/integer.h
+++ b/src/integer.h
@@ -30,7 +30,18 @@ void xgcd_partial(integer& u, integer& v, integer& a, integer& b, const integer&
     mpz_clear(f_L);
 }
 
+#ifdef CHIAVDF_SIM
+// Deterministic simulation: lets the simulator corrupt an intermediate value.
+extern void (*chiavdf_sim_inject)(mpz_struct*);
+#endif
+
 void inject_error(mpz_struct* i) {
+#ifdef CHIAVDF_SIM
+    if (chiavdf_sim_inject) {
+        chiavdf_sim_inject(i);
+        return;
+    }
+#endif
     if (!enable_random_error_injection) {
         return;
     }
diff --git a/src/provers.h b/src/provers.h
index ffb1245..fb4532d 100644
--- a/src/provers.h
+++ b/src/provers.h
@@ -50,7 +50,7 @@ class TwoWesolowskiProver : public Prover{
         this->weso = weso;
         this->done_iterations = segm.start;
         k = 10;
-        l = (segm.length < 10000000) ? 1 : 10;
+        l = (segm.length < kLargeSegmentIters) ? 1 : 10;
     }
 
     ~TwoWesolowskiProver() {
-- 
2.43.0


From e7226cd39d7e7d8ccbc613b0215d49b5dfd7eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 02/28] fix: never build an n-weso proof from a segment that is
 not proved yet

A larger segment can be finished before the smaller ones it covers, so
max_proving_iteration alone does not say that done_segments[i][position]
holds a proof.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..7f3fd23 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -543,7 +543,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From fa8722a551a8cc096b0e80afec301e562cb27a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 03/28] fix: do not assemble an n-weso proof after being
 stopped while retrying

The retry loop also ends when the session is stopped; proof_segments may
then be empty and was indexed at -1.
---
 src/vdf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 7f3fd23..3d577d0 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -566,6 +566,10 @@ class ProverManager {
                 valid_proof = true;
             }
         }
+        if (!valid_proof) {
+            // Stopped while waiting for segments.
+            return Proof();
+        }
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From 69bdf84a81ef08f0fe28800402dcf6190c2852d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:29 +0000
Subject: [PATCH 04/28] fix: do not lose the wakeup of proof threads when an
 n-weso session stops

ProverManager::stop() notified without holding the waiters' mutexes; a
proof thread between testing 'stopped' and blocking slept for ever.
---
 src/vdf.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 3d577d0..83af781 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -469,7 +469,14 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
+        // Take the mutexes, so that no waiter is between testing 'stopped' and blocking when it is notified.
+        {
+            std::lock_guard<std::mutex> lk(proof_mutex);
+        }
         proof_cv.notify_all();
+        {
+            std::lock_guard<std::mutex> lk(last_segment_mutex);
+        }
         last_segment_cv.notify_all();
     }
 
-- 
2.43.0


From a2cf6941c98948e73b87c2bfb40ad804b3593377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:29 +0000
Subject: [PATCH 05/28] fix: end a 1-weso proof that is stopped while being
 generated

The prover returns unfinished when stopped, and waiting for it to finish
never ended.
---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 83af781..afa7a7b 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,11 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From 987b7696deb901097309cf42905f5dcb7dd6d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:29 +0000
Subject: [PATCH 06/28] fix: keep a stop flag for every 2-weso proof thread

The hundred-and-first thread's flag was written past the end of a fixed
array of one hundred on the stack.
---
 src/vdf_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..aa53670 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,8 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        // One entry per proof thread; references stay valid while it grows.
+        std::deque<std::atomic<bool>> stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +303,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From 08800a351549072ecb9b65bc11714b0b53c15915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 07/28] fix: shut a client session down in order when its
 connection fails

An error while reading a request or writing an answer unwound past running
threads (or out of a proof thread) and ended the process through
std::terminate. Stop and join everything first, and let proof threads
report the error.
---
 src/vdf_client.cpp | 183 +++++++++++++++++++++++++++------------------
 1 file changed, 109 insertions(+), 74 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index aa53670..0ee7443 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -52,31 +52,40 @@ void WriteProof(uint64_t iteration, Proof& result, tcp::socket& sock) {
     PrintInfo("Sent proof");
 }
 
-void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = pm.Prove(iteration);
     if (stop_signal == true) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iteration, result, sock);
+} catch (std::exception& e) {
+    // The connection is gone; the session ends when it notices.
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
-void CreateAndWriteProofOneWeso(uint64_t iters, integer& D, form f, OneWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProofOneWeso(uint64_t iters, integer& D, form f, OneWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = ProveOneWesolowski(iters, D, f, weso, stop_signal);
     if (stop_signal) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iters, result, sock);
+} catch (std::exception& e) {
+    // The connection is gone; the session ends when it notices.
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
-void CreateAndWriteProofTwoWeso(integer& D, form f, uint64_t iters, TwoWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProofTwoWeso(integer& D, form f, uint64_t iters, TwoWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = ProveTwoWeso(D, f, iters, 0, weso, 0, stop_signal);
     if (stop_signal) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iters, result, sock);
+} catch (std::exception& e) {
+    // The connection is gone; the session ends when it notices.
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
 void ConfigureSessionRuntime() {
@@ -174,29 +183,37 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
-
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
-
-        while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
-            if (iters == 0) {
-                PrintInfo("Got stop signal!");
-                stopped = true;
-                pm.stop();
-                vdf_worker.join();
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                if (fast_storage != NULL) {
-                    delete(fast_storage);
+        auto stop_all = [&] {
+            stopped = true;
+            pm.stop();
+            vdf_worker.join();
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            if (fast_storage != NULL) {
+                delete(fast_storage);
+            }
+            delete(weso);
+        };
+
+        try {
+            // Tell client that I'm ready to get the challenges.
+            boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
+            while (!stopped) {
+                uint64_t iters = ReadIteration(sock);
+                if (iters == 0) {
+                    PrintInfo("Got stop signal!");
+                    break;
                 }
-                delete(weso);
-            } else {
                 PrintInfo("Received iteration: " + to_string(iters));
                 threads.push_back(std::thread(CreateAndWriteProof, std::ref(pm), iters, std::ref(stopped), std::ref(sock)));
             }
+        } catch (...) {
+            stop_all();
+            throw;
         }
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -224,15 +241,23 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
-        while (iter != 0) {
-            std::cout << "Warning: did not receive stop signal\n";
+        auto stop_all = [&] {
+            stopped = true;
+            vdf_worker.join();
+            th_prover.join();
+            delete(weso);
+        };
+        try {
             iter = ReadIteration(sock);
+            while (iter != 0) {
+                std::cout << "Warning: did not receive stop signal\n";
+                iter = ReadIteration(sock);
+            }
+        } catch (...) {
+            stop_all();
+            throw;
         }
-        stopped = true;
-        vdf_worker.join();
-        th_prover.join();
-        delete(weso);
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -262,59 +287,69 @@ void SessionTwoWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
-        while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
-            if (iters == 0) {
-                PrintInfo("Got stop signal!");
-                stopped = true;
-                for (int i = 0; i < threads.size(); i++)
-                    stop_vector[i] = true;
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                vdf_worker.join();
-                delete(weso);
-            } else {
-                uint64_t max_iter = 0;
-                uint64_t max_iter_thread_id = -1;
-                uint64_t min_iter = 1ULL << 62;
-                bool unique = true;
-                for (auto active_iter: seen_iterations) {
-                    if (active_iter.first > max_iter) {
-                        max_iter = active_iter.first;
-                        max_iter_thread_id = active_iter.second;
+        auto stop_all = [&] {
+            stopped = true;
+            for (int i = 0; i < threads.size(); i++)
+                stop_vector[i] = true;
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            vdf_worker.join();
+            delete(weso);
+        };
+
+        try {
+            while (!stopped) {
+                uint64_t iters = ReadIteration(sock);
+                if (iters == 0) {
+                    PrintInfo("Got stop signal!");
+                    break;
+                } else {
+                    uint64_t max_iter = 0;
+                    uint64_t max_iter_thread_id = -1;
+                    uint64_t min_iter = 1ULL << 62;
+                    bool unique = true;
+                    for (auto active_iter: seen_iterations) {
+                        if (active_iter.first > max_iter) {
+                            max_iter = active_iter.first;
+                            max_iter_thread_id = active_iter.second;
+                        }
+                        if (active_iter.first < min_iter) {
+                            min_iter = active_iter.first;
+                        }
+                        if (active_iter.first == iters) {
+                            unique = false;
+                            break;
+                        }
                     }
-                    if (active_iter.first < min_iter) {
-                        min_iter = active_iter.first;
+                    if (!unique) {
+                        PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
+                        continue;
                     }
-                    if (active_iter.first == iters) {
-                        unique = false;
-                        break;
+                    if (iters >= kMaxProcessesAllowed - 500000) {
+                        PrintInfo("Too big iter... ignoring");
+                        continue;
                     }
-                }
-                if (!unique) {
-                    PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
-                    continue;
-                }
-                if (iters >= kMaxProcessesAllowed - 500000) {
-                    PrintInfo("Too big iter... ignoring");
-                    continue;
-                }
-                if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
-                    seen_iterations.insert({iters, threads.size()});
-                    PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector.emplace_back(false);
-                    threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
-                                      std::ref(sock)));
-                    if (threads.size() > kMaxProcessesAllowed) {
-                        PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-                        stop_vector[max_iter_thread_id] = true;
-                        seen_iterations.erase({max_iter, max_iter_thread_id});
+                    if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
+                        seen_iterations.insert({iters, threads.size()});
+                        PrintInfo("Running proving for iter: " + to_string(iters));
+                        stop_vector.emplace_back(false);
+                        threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
+                                          (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
+                                          std::ref(sock)));
+                        if (threads.size() > kMaxProcessesAllowed) {
+                            PrintInfo("Stopping proving for iter: " + to_string(max_iter));
+                            stop_vector[max_iter_thread_id] = true;
+                            seen_iterations.erase({max_iter, max_iter_thread_id});
+                        }
                     }
                 }
             }
+        } catch (...) {
+            stop_all();
+            throw;
         }
+        stop_all();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
-- 
2.43.0


From 27e6461e8ad2dedd847006fc85a3d74a7b2a6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 08/28] fix: do not prove a segment before the squaring loop
 stored its end

With FAST_MACHINE storage threads, both halves of a segment can be stored
before repeated_square stored the checkpoint at the segment's end, so that the
event loop took an unset form for the segment's y and the prover divided by
zero. Never go past the iteration the squaring loop has reached.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index afa7a7b..f337ef1 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -718,7 +718,8 @@ class ProverManager {
             }
 
             if (fast_storage != NULL) {
-                intermediates_iter = fast_storage -> GetFinishedSegment();
+                // The storage threads can be ahead of the squaring loop, which stores the checkpoints.
+                intermediates_iter = std::min<uint64_t>(fast_storage -> GetFinishedSegment(), vdf_iteration);
             } else {
                 intermediates_iter = vdf_iteration;
             }
-- 
2.43.0


From 4e23829b6808b058a1b55935ab1f3ad189ac7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 09/28] fix: wake every request waiting for the same last
 segment

Two requests whose counts lie in the same 2^16 segment shared one entry of
pending_iters_last_sg. When one of them saw the new vdf_iteration before the
event loop took last_segment_mutex, it erased the entry and the event loop
did not notify the other, whose answer never came.
---
 src/vdf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index f337ef1..1be5410 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -503,7 +503,7 @@ class ProverManager {
             if (stopped) {
                 return Proof();
             }
-            pending_iters_last_sg.erase(iteration - iteration % (1 << 16));
+            pending_iters_last_sg.erase(pending_iters_last_sg.find(iteration - iteration % (1 << 16)));
             lk.unlock();
         }
         Segment last_segment;
@@ -842,8 +842,8 @@ class ProverManager {
     std::vector<std::vector<Segment>> done_segments;
     // Iterations that we need proof for.
     std::set<uint64_t> pending_iters;
-    // Last segment beginning for our pending iters.
-    std::set<uint64_t> pending_iters_last_sg;
+    // Last segment beginning for our pending iters (one entry per waiting iter: several can share it).
+    std::multiset<uint64_t> pending_iters_last_sg;
     // Protect pending_iters and done_segments.
     std::mutex proof_mutex;
     std::mutex last_segment_mutex;
-- 
2.43.0


From 8ce78db98fbd3dd34b19a574635993b5a38a523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 10/28] sim hooks (CHIAVDF_SIM): premature end or corruption of
 the portable fast path

---
 src/vdf.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 1be5410..00b9b8c 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -91,6 +91,10 @@ bool debug_mode = false;
 bool fast_algorithm = false;
 bool two_weso = false;
 
+#ifdef CHIAVDF_SIM
+extern uint64 (*chiavdf_sim_fast_path)(uint64 batch_size, bool& corruption);
+#endif
+
 //always works
 void repeated_square_original(vdf_original &vdfo, form& f, const integer&, const integer&, uint64 base, uint64 iterations, INUDUPLListener *nuduplListener) {
     vdf_original::form f_in, *f_res;
@@ -202,8 +206,25 @@ void repeated_square(uint64_t iterations, form f, const integer& D, const intege
         actual_iterations = repeated_square_fast(square_state, f, D, L, num_iterations, batch_size, weso);
 #else
         // Non-x86: use the C++ NUDUPL path (faster and lower maintenance than the phased pipeline).
+#ifdef CHIAVDF_SIM
+        // Deterministic simulation: let the fast path end prematurely, or find corruption in what it squared so far.
+        bool sim_corruption = false;
+        const uint64 sim_iterations = chiavdf_sim_fast_path ? chiavdf_sim_fast_path(batch_size, sim_corruption) : batch_size;
+        if (sim_corruption) {
+            form sim_f = f;
+            nudupl_form(sim_f, sim_f, D, L);
+            repeated_square_nudupl(sim_f, D, L, num_iterations, sim_iterations, weso, weso);
+            actual_iterations = ~uint64(0);
+        } else if (sim_iterations < batch_size) {
+            repeated_square_nudupl(f, D, L, num_iterations, sim_iterations, weso, weso);
+            actual_iterations = sim_iterations;
+        } else {
+#endif
         repeated_square_nudupl(f, D, L, num_iterations, batch_size, weso, weso);
         actual_iterations = batch_size;
+#ifdef CHIAVDF_SIM
+        }
+#endif
 #endif
 
         #ifdef VDF_TEST
-- 
2.43.0


From 51647748d62721605c2d0d73d71495929f95aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 11/28] fix: do not leak the class group context when
 allocating the reducer fails

PulmarkReducer allocated its two parts into raw pointers, so an allocation
failure of the second one, which callers such as the C API report as an
ordinary failure, leaked the first one and the integers it owns.
---
 src/proof_common.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..b14644c 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -1,5 +1,6 @@
 #ifndef PROOF_COMMON_H
 #define PROOF_COMMON_H
+#include <memory>
 #include "Reducer.h"
 #include "bqfc.c"
 
@@ -83,19 +84,14 @@ integer GetB(const integer& D, form &x, form& y) {
 }
 
 class PulmarkReducer {
-    ClassGroupContext *t;
-    Reducer *reducer;
+    // Owned by smart pointers: the context must not leak if allocating the
+    // reducer throws.
+    std::unique_ptr<ClassGroupContext> t;
+    std::unique_ptr<Reducer> reducer;
 
   public:
-    PulmarkReducer() {
-        t=new ClassGroupContext(4096);
-        reducer=new Reducer(*t);
-    }
-
-    ~PulmarkReducer() {
-        delete(reducer);
-        delete(t);
-    }
+    PulmarkReducer()
+        : t(new ClassGroupContext(4096)), reducer(new Reducer(*t)) {}
 
     void reduce(form &f) {
         mpz_set(t->a, f.a.impl);
-- 
2.43.0


From 661fbc8a09b5a06fad02f7e84b6d934fbd862cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 12/28] sim hooks (CHIAVDF_SIM): spin limit and batch length of
 the squaring loop as variables

---
 src/parameters.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parameters.h b/src/parameters.h
index 58d733e..d74d168 100644
--- a/src/parameters.h
+++ b/src/parameters.h
@@ -332,7 +332,11 @@ exponent    fraction    base_bits   base_iter   128_iter    seconds
 3           10          50          5           3           0m1.379s
 ***/
 
+#ifndef CHIAVDF_SIM
 const uint64 max_spin_counter=10000000;
+#else
+extern uint64 max_spin_counter; // deterministic simulation: set per run
+#endif
 
 //this value makes square_original not be called in 100k iterations. with every iteration reduced, minimum value is 1
 const int num_extra_bits_ab=3;
@@ -341,7 +345,11 @@ const bool calculate_k_repeated_mod=false;
 const bool calculate_k_repeated_mod_interval=1;
 
 const int validate_interval=1; //power of 2. will check the discriminant in the slave thread at this interval. -1 to disable. no effect on performance
+#ifndef CHIAVDF_SIM
 const int checkpoint_interval=10000; //at each checkpoint, the slave thread is restarted and the master thread calculates c
+#else
+extern int checkpoint_interval; // deterministic simulation: set per run
+#endif
 //checkpoint_interval=100000: 39388
 //checkpoint_interval=10000:  39249 cycles per fast iteration
 //checkpoint_interval=1000:   38939
-- 
2.43.0


From 168abcd002d4d728771840567d599a45126089ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 13/28] CHIAVDF_SIM: hardware client spacing, checkpoint
 threshold and job length set per run

---
 src/hw/hw_proof.cpp      | 8 ++++++++
 src/hw/hw_proof.hpp      | 6 ++++++
 src/hw/hw_vdf_client.cpp | 9 +++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..2647d69 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -5,7 +5,13 @@
 #include <algorithm>
 #include <cstdlib>
 
+#ifdef CHIAVDF_SIM
+// Simulation hook: scaled down with HW_VDF_VALUE_INTERVAL.
+extern uint32_t g_chkp_thres;
+extern size_t g_values_mult;
+#else
 static const uint32_t g_chkp_thres = 1000000;
+#endif
 static const uint32_t g_skip_thres = 10;
 
 void report_bad_vdf_value(struct vdf_state *vdf, struct vdf_value *val)
@@ -97,7 +103,9 @@ void hw_proof_print_stats(struct vdf_state *vdf, uint64_t elapsed_us, bool detai
     LOG_INFO("");
 }
 
+#ifndef CHIAVDF_SIM
 static const size_t g_values_mult = 1UL << 12;
+#endif
 
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 3668413..b6b26e4 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -11,7 +11,13 @@
 #include <mutex>
 #include <thread>
 
+#ifdef CHIAVDF_SIM
+// Simulation hook: the spacing of intermediate values is set per run.
+extern uint32_t sim_hw_value_interval;
+#define HW_VDF_VALUE_INTERVAL sim_hw_value_interval
+#else
 #define HW_VDF_VALUE_INTERVAL 4000
+#endif
 #define HW_VDF_VALUE_INTERVAL_DIVISORS { 2, 4, 5, 8, 10, 16, 20 }
 #define HW_VDF_CHKP_INTERVAL 1000000
 #define HW_VDF_MAX_AUX_THREADS 64
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..9af1caf 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -76,6 +76,11 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size);
 
 static volatile bool g_stopping = false;
 
+#ifdef CHIAVDF_SIM
+// Simulation hook: the length of a chip job is set per run.
+extern uint64_t sim_hw_n_iters;
+#endif
+
 static int vdf_socket_set_nonblock(vdf_socket_t sock)
 {
 #ifdef _WIN32
@@ -352,7 +357,11 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
     if (conn->state == WAITING) {
         uint64_t d_size;
         char d_str[350];
+#ifdef CHIAVDF_SIM
+        uint64_t n_iters = sim_hw_n_iters;
+#else
         uint64_t n_iters = 2000UL * 1000 * 1000;
+#endif
         uint8_t *init_form;
 
         bytes = read_data(client, conn);
-- 
2.43.0


From c40a8c7a2c8dc41be84f1b5ce10e0236dd55325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 14/28] fix: take the lock to retrieve finished hardware proofs

---
 src/hw/hw_proof.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 2647d69..00a67d4 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -740,6 +740,8 @@ out:
 
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
 {
+    // Proof threads add to done_proofs and set the flags
+    std::lock_guard<std::mutex> lock(vdf->proofs_resize_mtx);
 #if 0
     if (!vdf->proofs.empty()) {
         for (size_t i = 0; i < vdf->proofs.size(); i++) {
-- 
2.43.0


From 50039d7a2cb4df49629fa96e19d1873a78e1535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 15/28] fix: serialize growing the table of hardware VDF values

---
 src/hw/hw_proof.cpp | 2 ++
 src/hw/hw_proof.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 00a67d4..36e63e0 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -110,6 +110,8 @@ static const size_t g_values_mult = 1UL << 12;
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
     size_t idx = pos / g_values_mult;
+    // Called by the main, value and proof threads
+    std::lock_guard<std::mutex> lock(vdf->values_mtx);
     size_t old_size = vdf->values.size();
 
     if (idx + 1 >= old_size) {
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index b6b26e4..10299f4 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -70,6 +70,7 @@ struct vdf_state {
     //std::vector<struct vdf_value> raw_values;
     struct vdf_value last_val;
     std::vector<form *> values;
+    std::mutex values_mtx;
     std::vector<uint8_t> valid_values;
     std::mutex valid_values_mtx;
     std::deque<struct vdf_proof_req> req_proofs;
-- 
2.43.0


From 7ab8c8aa7777b1e7b6d042c281a16e2665bcd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 16/28] fix: count a hardware proof thread down before it is
 marked idle

---
 src/hw/hw_proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 36e63e0..09a551e 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -735,8 +735,9 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
+        // The state may be reset as soon as the thread isn't marked busy
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
-- 
2.43.0


From cbf27d32ffb82537d09283fb88ca18c499e32711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 17/28] fix: keep valid hardware VDF values when they are
 computed again

---
 src/hw/hw_proof.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 09a551e..fd1919a 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -137,13 +137,17 @@ form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
     return hw_proof_value_at(vdf, pos);
 }
 
-void hw_proof_add_intermediate(struct vdf_state *vdf, struct vdf_value *val, size_t pos)
+void hw_proof_add_intermediate(struct vdf_state *vdf, const form &f, size_t pos)
 {
-    if (val) {
-        hw_proof_get_form(hw_proof_value_at(vdf, pos), vdf, val);
-    }
+    form *dst = hw_proof_value_at(vdf, pos);
+
     vdf->valid_values_mtx.lock();
-    vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    // After a restart values are computed again; the ones that are already
+    // valid may be in use by proof threads.
+    if (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+        *dst = f;
+        vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    }
     vdf->valid_values_mtx.unlock();
     vdf->done_values++;
 }
@@ -185,8 +189,7 @@ void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_
                 abort();
             }
 
-            *hw_proof_value_at(vdf, pos) = f;
-            hw_proof_add_intermediate(vdf, NULL, pos);
+            hw_proof_add_intermediate(vdf, f, pos);
 
             next_iters += vdf->interval;
         }
@@ -529,7 +532,9 @@ void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val)
     bool print_stats = false;
 
     if (val->iters == end_iters) {
-        hw_proof_add_intermediate(vdf, val, val->iters / interval);
+        form f;
+        hw_proof_get_form(&f, vdf, val);
+        hw_proof_add_intermediate(vdf, f, val->iters / interval);
         if (end_iters) {
             end_iters -= interval;
         }
-- 
2.43.0


From fb60a0206834c058f2315c631f291edb978d04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 18/28] fix: reduce the values read from hardware before they
 are used

---
 src/hw/hw_proof.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index fd1919a..14a7f5a 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -71,6 +71,9 @@ void hw_proof_get_form(form *f, struct vdf_state *vdf, struct vdf_value *val)
     mpz_swap(b.impl, val->b);
 
     *f = form::from_abd(a, b, vdf->D);
+    // b is only known modulo 2 * a
+    PulmarkReducer reducer;
+    reducer.reduce(*f);
 
     mpz_swap(a.impl, val->a);
     mpz_swap(b.impl, val->b);
-- 
2.43.0


From 6421d708697ca58184ed0e9ee84973ef7f39fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 19/28] fix: reject hardware values beyond the target or with
 negative a

---
 src/hw/hw_proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 14a7f5a..17d4e63 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -48,7 +48,7 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
     }
     vdf->n_skipped = 0;
 
-    if (mpz_sgn(val->a) == 0) {
+    if (val->iters > vdf->target_iters || mpz_sgn(val->a) <= 0) {
         report_bad_vdf_value(vdf, val);
         return -1;
     }
-- 
2.43.0


From 73dcb6c37e5a38bedd2c7e326b1ed5ffc25b464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 20/28] fix: do not use the status of a hardware VDF that could
 not be read

---
 src/hw/hw_interface.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index 129c6c6..600d2c9 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -181,12 +181,13 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
     for (int i = 0; i < N_HW_VDFS; i++) {
         uint8_t *job;
         struct vdf_value *val = &values[i];
+        int ret;
 
         if (i == 0 && idx_mask & (HW_VDF_TEMP_FLAG | (1 << i))) {
-            drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
+            ret = drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
             job = read_status + 20;
 
-            if (idx_mask & HW_VDF_TEMP_FLAG) {
+            if (!ret && idx_mask & HW_VDF_TEMP_FLAG) {
                 uint32_t temp_code;
                 drv->read_bytes(4, 0, read_status, temp_code);
                 double temp = drv->ValueToTemp(temp_code);
@@ -194,13 +195,20 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
                         temp, pll_entries[drv->freq_idx].freq, drv->freq_idx);
             }
         } else if (idx_mask & (1 << i)) {
-            drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
-                           read_status, HW_VDF_STATUS_SIZE);
+            ret = drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
+                                 read_status, HW_VDF_STATUS_SIZE);
             job = read_status;
         } else {
             continue;
         }
 
+        if (ret) {
+            LOG_ERROR("VDF %d: Failed to read status (error %d)", i, ret);
+            // Same as a value that's not available yet
+            val->iters = 0;
+            continue;
+        }
+
         if (idx_mask & (1 << i)) {
             drv->DeserializeJob(job, job_id, val->iters, val->a, val->b);
             LOG_DEBUG("VDF %d: Got iters=%lu", i, val->iters);
-- 
2.43.0


From e4dafec11f78f57351f41538dc4f29bbbf908297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 21/28] fix: keep proving after a hardware VDF reached its
 target

---
 src/hw/hw_proof.hpp      | 1 +
 src/hw/hw_vdf_client.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 10299f4..612e822 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -99,6 +99,7 @@ struct vdf_state {
 
 int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val);
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos);
+void hw_proof_process_work(struct vdf_state *vdf);
 void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val);
 void hw_stop_proof(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 9af1caf..1ea99a5 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -472,6 +472,9 @@ void event_loop(struct vdf_client *client)
                     stop_hw_vdf(client->drv, i);
                     client->conns[i].state = IDLING;
                 }
+            } else if (client->conns[i].state == IDLING) {
+                // No new values, but there can be new requests and queued work
+                hw_proof_process_work(&client->conns[i].vdf);
             }
         }
 
-- 
2.43.0


From 837c175332b5d8942e6870385e0b2d4573aa1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 22/28] fix: initialize init_done of the hardware VDF state

---
 src/hw/hw_vdf_client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 1ea99a5..0401ca7 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -180,6 +180,7 @@ void init_vdf_client(struct vdf_client *client)
             continue;
         }
         client->conns[i].vdf.idx = i;
+        client->conns[i].vdf.init_done = false;
         client->conns[i].sock = kInvalidSocket;
         memset(client->conns[i].read_buf, 0, sizeof(client->conns[i].read_buf));
         client->conns[i].buf_pos = 0;
-- 
2.43.0


From 0ea3f187b4564ac654174204b7ef44ac1a8a25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 23/28] fix: close the socket of a failed hardware client
 connection

---
 src/hw/hw_vdf_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 0401ca7..9550de7 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -151,6 +151,8 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     ret = connect(conn->sock, (struct sockaddr *)&sa, sizeof(sa));
     if (ret < 0) {
         perror("connect");
+        vdf_socket_close(conn->sock);
+        conn->sock = kInvalidSocket;
         vdf_sleep(1);
         return;
     }
-- 
2.43.0


From 6072c8613f56375f9e5673c3374e262faec686d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 24/28] fix: keep hardware client answers that cannot be sent
 at once

---
 src/hw/hw_vdf_client.cpp | 60 ++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 9550de7..1d71b50 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -10,6 +10,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <string>
 #include <signal.h>
 
 #ifdef _WIN32
@@ -41,6 +42,8 @@ struct vdf_conn {
     vdf_socket_t sock;
     char read_buf[512];
     uint32_t buf_pos;
+    std::string out_buf; // Data that couldn't be sent yet
+    timepoint_t stop_time;
     enum conn_state state;
 };
 
@@ -72,6 +75,9 @@ struct vdf_proof_segm {
     uint8_t proof[BQFC_FORM_SIZE];
 };
 
+// How long a stopped connection waits for its data to be sent
+static const uint64_t g_stop_timeout_us = 10 * 1000000;
+
 void write_data(struct vdf_conn *conn, const char *buf, size_t size);
 
 static volatile bool g_stopping = false;
@@ -104,9 +110,13 @@ static int vdf_socket_write(vdf_socket_t sock, const char *buf, size_t size)
 {
 #ifdef _WIN32
     return send(sock, buf, static_cast<int>(size), 0);
+#else
+#ifdef MSG_NOSIGNAL
+    return send(sock, buf, size, MSG_NOSIGNAL);
 #else
     return write(sock, buf, size);
 #endif
+#endif
 }
 
 static int vdf_socket_close(vdf_socket_t sock)
@@ -166,6 +176,7 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     }
     conn->state = WAITING;
     conn->buf_pos = 0;
+    conn->out_buf.clear();
     LOG_INFO("VDF %d: Connected to timelord, waiting for challenge", conn->vdf.idx);
 }
 
@@ -211,6 +222,7 @@ void stop_conn(struct vdf_client *client, struct vdf_conn *conn)
         stop_hw_vdf(client->drv, conn->vdf.idx);
     }
     conn->state = STOPPED;
+    conn->stop_time = vdf_get_cur_time();
     LOG_INFO("VDF %d: Stopped at iters=%llu", conn->vdf.idx, (unsigned long long)conn->vdf.cur_iters);
 }
 
@@ -224,6 +236,29 @@ void close_conn(struct vdf_conn *conn)
     }
 }
 
+// Send as much as possible without blocking. Returns -1 on errors.
+int flush_data(struct vdf_conn *conn)
+{
+    while (!conn->out_buf.empty()) {
+        int bytes = vdf_socket_write(conn->sock, conn->out_buf.data(), conn->out_buf.size());
+        if (bytes < 0) {
+            return vdf_socket_would_block() ? 0 : -1;
+        }
+        conn->out_buf.erase(0, bytes);
+    }
+    return 0;
+}
+
+// End a connection which failed
+void end_conn(struct vdf_client *client, struct vdf_conn *conn)
+{
+    if (conn->state != STOPPED) {
+        stop_conn(client, conn);
+        flush_data(conn);
+    }
+    close_conn(conn);
+}
+
 int read_data(struct vdf_client *client, struct vdf_conn *conn)
 {
     int bytes = vdf_socket_read(conn->sock, conn->read_buf + conn->buf_pos,
@@ -234,8 +269,7 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
         } else {
             perror("read");
         }
-        stop_conn(client, conn);
-        close_conn(conn);
+        end_conn(client, conn);
     } else if (bytes > 0) {
         conn->buf_pos += bytes;
         return conn->buf_pos;
@@ -245,11 +279,7 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
 
 void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
-    }
+    conn->out_buf.append(buf, size);
 }
 
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
@@ -400,13 +430,18 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
     } else if (conn->state == RUNNING || conn->state == IDLING) {
         handle_proofs(client, conn);
         bytes = read_data(client, conn);
-        if (bytes <= 0) {
-            return;
+        if (bytes > 0) {
+            handle_iters(client, conn);
         }
-
-        handle_iters(client, conn);
+    }
+    if (conn->state != CLOSED && flush_data(conn) < 0) {
+        perror("write");
+        end_conn(client, conn);
     }
     if (conn->state == STOPPED) {
+        if (!conn->out_buf.empty() && vdf_get_elapsed_us(conn->stop_time) < g_stop_timeout_us) {
+            return;
+        }
         bytes = read_data(client, conn);
         if (bytes != 3 || memcmp(buf, "ACK", 3)) {
             LOG_ERROR("Bad data size after stop: %d", bytes);
@@ -748,6 +783,9 @@ int hw_vdf_client_main(int argc, char **argv)
     signal(SIGINT, signal_handler);
     signal(SIGTERM, signal_handler);
 #else
+#ifndef MSG_NOSIGNAL
+    signal(SIGPIPE, SIG_IGN);
+#endif
     sa.sa_handler = signal_handler;
     sigaction(SIGINT, &sa, NULL);
     sigaction(SIGTERM, &sa, NULL);
-- 
2.43.0


From 845a773b8f99b2db9d3ecb6f21cb7b9a914f3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 25/28] fix: read fragmented hardware client requests, end only
 the connection of a malformed one

---
 src/hw/hw_vdf_client.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 1d71b50..940a749 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -7,6 +7,7 @@
 #include "pll_freqs.hpp"
 #include "version.hpp"
 
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -284,22 +285,33 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
-    char *buf = conn->read_buf;
-    char iters_size_buf[3] = {0}, iters_buf[16];
+    char iters_size_buf[3] = {0}, iters_buf[17];
     uint64_t iters;
-    uint32_t bytes = conn->buf_pos, iters_size;
+    uint32_t pos = 0, iters_size;
+
+    while (conn->buf_pos - pos >= 2) {
+        const char *buf = &conn->read_buf[pos];
+        bool is_valid = isdigit((uint8_t)buf[0]) && isdigit((uint8_t)buf[1]);
 
-    while (bytes) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
-            LOG_ERROR("Bad iters data size: %u", bytes);
-            throw std::runtime_error("Bad data size");
+        is_valid = is_valid && iters_size < sizeof(iters_buf);
+        for (uint32_t i = 0; is_valid && i < iters_size && pos + 2 + i < conn->buf_pos; i++) {
+            is_valid = isdigit((uint8_t)buf[2 + i]);
+        }
+        if (!is_valid) {
+            LOG_ERROR("VDF %d: Bad iters data", conn->vdf.idx);
+            end_conn(client, conn);
+            return;
+        }
+        if (conn->buf_pos - pos < 2 + iters_size) {
+            // The rest has yet to arrive
+            break;
         }
-        //buf[2 + iters_size] = '\0';
         memcpy(iters_buf, &buf[2], iters_size);
         iters_buf[iters_size] = '\0';
-        iters = strtoul(iters_buf, NULL, 10);
+        iters = strtoull(iters_buf, NULL, 10);
+        pos += 2 + iters_size;
 
         if (iters) {
             LOG_DEBUG("VDF %d: Requested proof for iters=%llu", conn->vdf.idx, (unsigned long long)iters);
@@ -307,16 +319,11 @@ void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
         } else {
             LOG_INFO("VDF %d: Stop requested", conn->vdf.idx);
             stop_conn(client, conn);
-            bytes -= 2 + iters_size;
             break;
         }
-
-        bytes -= 2 + iters_size;
-        buf += 2 + iters_size;
-    }
-    if (!bytes) {
-        conn->buf_pos = 0;
     }
+    conn->buf_pos -= pos;
+    memmove(conn->read_buf, &conn->read_buf[pos], conn->buf_pos);
     if (!conn->vdf.req_proofs.empty()) {
         size_t n_proofs = conn->vdf.req_proofs.size();
         char iters_str[100];
-- 
2.43.0


From 4d6de43dcfe68721ab6754aee0f65f44800dd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 26/28] fix: check the header a hardware client connection
 starts with

---
 src/hw/hw_proof.cpp      | 20 +++++++++++++-------
 src/hw/hw_proof.hpp      |  2 +-
 src/hw/hw_vdf_client.cpp | 34 ++++++++++++++++++++++++++--------
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 17d4e63..3a6b209 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -793,9 +793,8 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
     return -1;
 }
 
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
 {
-    //int ret;
     //struct vdf_value initial;
     size_t num_values;
     vdf->cur_iters = 0;
@@ -827,11 +826,21 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
         vdf->max_proof_threads = opts->max_proof_threads;
     }
 
-    mpz_set_str(vdf->D.impl, d_str, 0);
+    if (mpz_set_str(vdf->D.impl, d_str, 0) < 0 || mpz_sgn(vdf->D.impl) >= 0 ||
+            mpz_sizeinbase(vdf->D.impl, 2) > BQFC_MAX_D_BITS || mpz_fdiv_ui(vdf->D.impl, 4) != 1) {
+        return -1;
+    }
     mpz_set(vdf->L.impl, vdf->D.impl);
     mpz_neg(vdf->L.impl, vdf->L.impl);
     mpz_root(vdf->L.impl, vdf->L.impl, 4);
 
+    init_vdf_value(&vdf->last_val);
+    if (bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
+                BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false) || mpz_sgn(vdf->last_val.a) <= 0 ||
+            verify_vdf_value(vdf, &vdf->last_val)) {
+        clear_vdf_value(&vdf->last_val);
+        return -1;
+    }
     num_values = vdf->target_iters / vdf->interval + 1;
     vdf->values.reserve((num_values + g_values_mult - 1) / g_values_mult);
     vdf->valid_values.resize((num_values + 7) / 8, 0);
@@ -839,14 +848,11 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     //mpz_init_set_ui(initial.a, 2);
     //mpz_init_set_ui(initial.b, 1);
     //initial.iters = 0;
-    init_vdf_value(&vdf->last_val);
-    // TODO: verify validity of initial form
-    bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
     vdf->init_done = true;
+    return 0;
 }
 
 void clear_vdf_state(struct vdf_state *vdf)
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 612e822..2289033 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -105,7 +105,7 @@ void hw_stop_proof(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
 void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof *out_proof, uint8_t thr_idx);
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **proof);
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
 void clear_vdf_state(struct vdf_state *vdf);
 
 #endif // HW_PROOF_H
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 940a749..8dfe705 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -395,7 +395,7 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
     }
 
     if (conn->state == WAITING) {
-        uint64_t d_size;
+        uint64_t d_size, form_size;
         char d_str[350];
 #ifdef CHIAVDF_SIM
         uint64_t n_iters = sim_hw_n_iters;
@@ -410,24 +410,42 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
             return;
         }
 
-        if (buf[0] != 'S' && buf[0] != 'N' && buf[0] != 'T') {
-            throw std::runtime_error("Bad initial data from timelord");
+        if ((buf[0] != 'S' && buf[0] != 'N' && buf[0] != 'T') ||
+                !isdigit((uint8_t)buf[1]) || !isdigit((uint8_t)buf[2]) || !isdigit((uint8_t)buf[3])) {
+            LOG_ERROR("VDF %d: Bad initial data from timelord", vdf->idx);
+            end_conn(client, conn);
+            return;
         }
 
-        d_size = strtoul(&buf[1], NULL, 10);
+        d_size = (buf[1] - '0') * 100 + (buf[2] - '0') * 10 + (buf[3] - '0');
+        if (d_size >= sizeof(d_str)) {
+            LOG_ERROR("VDF %d: Bad discriminant size: %u", vdf->idx, (unsigned)d_size);
+            end_conn(client, conn);
+            return;
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
         }
         memcpy(d_str, &buf[4], d_size);
         d_str[d_size] = '\0';
-        if ((uint64_t)bytes != 4 + d_size + 1 + buf[4 + d_size]) {
-            LOG_ERROR("Bad data size: %d", bytes);
-            throw std::runtime_error("Bad data size");
+        form_size = (uint8_t)buf[4 + d_size];
+        if (form_size != BQFC_FORM_SIZE || (uint64_t)bytes > 4 + d_size + 1 + form_size) {
+            LOG_ERROR("VDF %d: Bad data size: %d", vdf->idx, bytes);
+            end_conn(client, conn);
+            return;
+        }
+        if ((uint64_t)bytes < 4 + d_size + 1 + form_size) {
+            /* Expecting the rest of the initial form */
+            return;
         }
 
         init_form = (uint8_t *)&buf[4 + d_size + 1];
-        init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
+        if (init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx) < 0) {
+            LOG_ERROR("VDF %d: Bad discriminant or initial form", vdf->idx);
+            end_conn(client, conn);
+            return;
+        }
         start_hw_vdf(client->drv, vdf->D.impl, vdf->last_val.a, vdf->last_val.b,
                 vdf->target_iters, vdf->idx);
         write_data(conn, "OK", 2);
-- 
2.43.0


From 8bf8dd807b9715fc6b781cb8257f4cd8c3957002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:33 +0000
Subject: [PATCH 27/28] fix: detect a corrupted discriminant in the squaring
 pipeline while a is a power of two

---
 src/vdf_fast.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vdf_fast.h b/src/vdf_fast.h
index 8372865..3174bb7 100644
--- a/src/vdf_fast.h
+++ b/src/vdf_fast.h
@@ -1061,6 +1061,11 @@ uint64 repeated_square_fast_multithread(square_state_type &square_state, form& f
 
     slave_thread.join(); //slave thread can't get stuck; is supposed to error out instead
 
+    //corruption of D passes the divisions by 4a while a is a small power of 2
+    if (mpz_cmp(square_state.phase_constant.D, D.impl)!=0) {
+        square_state.phase_start.corruption_flag=true;
+    }
+
     uint64 res;
     square_state.assign(f.a, f.b, f.c, res);
 
@@ -1130,6 +1135,11 @@ uint64 repeated_square_fast_single_thread(square_state_type &square_state, form&
             nuduplListener->OnIteration(NL_SQUARESTATE,&square_state,base+iter);
     }
 
+    //corruption of D passes the divisions by 4a while a is a small power of 2
+    if (mpz_cmp(square_state.phase_constant.D, D.impl)!=0) {
+        square_state.phase_start.corruption_flag=true;
+    }
+
     uint64 res;
     square_state.assign(f.a, f.b, f.c, res); //sets res to ~uint64(0) and leaves f unchanged if there is corruption
 
-- 
2.43.0


From c334de1f9cd614c092806755316e0f51eb1e83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:59 +0000
Subject: [PATCH 28/28] Simulation guard: tell the simulator which segment a
 prover was started for

---
 src/vdf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 00b9b8c..6b76032 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -93,6 +93,7 @@ bool two_weso = false;
 
 #ifdef CHIAVDF_SIM
 extern uint64 (*chiavdf_sim_fast_path)(uint64 batch_size, bool& corruption);
+extern void (*chiavdf_sim_prover_started)(uint64 start, uint64 length);
 #endif
 
 //always works
@@ -836,6 +837,9 @@ class ProverManager {
                             )
                         );
                         provers[provers.size() - 1].first->start();
+#ifdef CHIAVDF_SIM
+                        if (chiavdf_sim_prover_started) chiavdf_sim_prover_started(best.start, best.length);
+#endif
                         pending_segments[index].erase(pending_segments[index].begin());
                     }
                 }
-- 
2.43.0

