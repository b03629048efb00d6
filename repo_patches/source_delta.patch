From 85b8eb2580bd7adfae41e1dc127f9f72ff470e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/49] fix: make memoised results survive clears and failures
 during a calculation

ClearCache() now takes the object's lock and invalidates calculations
already under way, so that their results are not stored afterwards and
waiting callers never pick up a missing entry. A calculation that throws
is withdrawn instead of leaving every later caller waiting, and
CachedValue waits for the calculation actually in process, not only for
the first one ever made.
---
 src/caching.h | 206 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 134 insertions(+), 72 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..2735cf0 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -21,6 +21,7 @@
 
 #include <unordered_map>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -175,44 +176,43 @@ namespace SLAT {
                      */
                     bool cached = cache.count(v) != 0;
 
-                    if (!cached) {
+                    if (cached) {
+                        // Record cache hit
+                        hits++;
+                    }
+
+                    /*
+                     * Keep going until we have a result: a calculation we wait
+                     * for might fail, or be invalidated by ClearCache(), in
+                     * which case we need to try again.
+                     */
+                    while (!cached) {
                         /*
                          * The value isn't cached, so we need to calculate
                          * it. For efficiency, we only want to calculate it
                          * once. We use a map 'in_process' to record which
                          * values are being actively calculated at a given
-                         * time. Each entry in 'in_process' has a lock and a
-                         * count.
+                         * time. Each entry in 'in_process' has a lock, which is
+                         * held until the calculation has finished.
                          */
                         bool happening = in_process.count(v) != 0;
                         if (happening) {
                             /*
                              *  The calculation is already being
-                             *  performed. Increment the count, release the lock
-                             *  for this object, and then take corresponding
-                             *  'in_process' lock.
+                             *  performed. Release the lock for this object, and
+                             *  then wait for the corresponding 'in_process'
+                             *  lock.
                              */
-                            in_process[v].count++;
-                            omp_lock_t *calc_lock = &in_process[v].lock;
+                            std::shared_ptr<WAITING> calc = in_process[v];
                             omp_unset_lock(&lock);
-                            omp_set_lock(calc_lock);
+                            omp_set_lock(&calc->lock);
+                            omp_unset_lock(&calc->lock); // Release for anyone else who's waiting
 
                             /*
-                             * Once we have calc_lock, we know the value is in
-                             * the cache. Wait for the object lock, then
-                             * decrement the 'in_process' count for the
-                             * requested value. If it isn't zero, there's
-                             * someone else waiting, so release the lock. If
-                             * we're the last one, erase the appropriate
-                             * 'in_process' element.
+                             * Retake the object lock, and look again.
                              */
                             omp_set_lock(&lock);
-                            in_process[v].count--;
-                            if (in_process[v].count > 0) {
-                                omp_unset_lock(&in_process[v].lock);
-                            } else {
-                                in_process.erase(v);
-                            }
+                            cached = cache.count(v) != 0;
                         } else {
                             /*
                              * We're the first one to request this
@@ -220,15 +220,38 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            omp_init_lock(&in_process[v].lock);
-                            omp_set_lock(&in_process[v].lock);
-                            in_process[v].count = 0;
+                            std::shared_ptr<WAITING> calc = std::make_shared<WAITING>();
+                            omp_set_lock(&calc->lock);
+                            in_process[v] = calc;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
+                            T result;
+                            try {
+                                result = func(v);  // Perform calculation
+                            } catch (...) {
+                                /*
+                                 * The calculation failed. Withdraw it, so
+                                 * someone else can try, then pass the exception
+                                 * on to our caller.
+                                 */
+                                omp_set_lock(&lock);
+                                if (in_process.count(v) != 0 && in_process[v] == calc) {
+                                    in_process.erase(v);
+                                }
+                                omp_unset_lock(&calc->lock);
+                                omp_unset_lock(&lock);
+                                throw;
+                            }
                             
                             omp_set_lock(&lock); // Get object lock
                             
+                            /*
+                             * If our 'in_process' entry is gone, the cache has
+                             * been cleared since we started: give our caller
+                             * the result, but don't save it.
+                             */
+                            bool current = in_process.count(v) != 0 && in_process[v] == calc;
+
                             /*
                              * This is a sanity check. If when we get here, the
                              * value is in the cache already, something is wrong
@@ -236,29 +259,24 @@ namespace SLAT {
                              * somebody else wanted the same result, and
                              * calculated it instead of waiting for us.
                              */
-                            if (cache.count(v) != 0) {
+                            if (current && cache.count(v) != 0) {
                                 std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
-                                std::cout << in_process[v].count << std::endl;
                                 raise(SIGINT);
                             }
 
-                            cache[v] = result; // Save the result
+                            if (current) {
+                                cache[v] = result; // Save the result
+                                in_process.erase(v);
+                            }
 
                             /*
-                             * If no one else is interested in the result,
-                             * remove the 'in_process' entry; otherwise, release
-                             * the 'in_process' lock to signal other interested
-                             * parties.
+                             * Release the 'in_process' lock to signal other
+                             * interested parties.
                              */
-                            if (in_process[v].count == 0) {
-                                in_process.erase(v);
-                            } else {
-                                omp_unset_lock(&in_process[v].lock);
-                            }
+                            omp_unset_lock(&calc->lock);
+                            omp_unset_lock(&lock);
+                            return result;
                         }
-                    } else {
-                        // Record cache hit
-                        hits++;
                     }
                     
                     /*
@@ -285,7 +303,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                in_process.clear(); // Don't save results of calculations already underway
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -302,12 +323,16 @@ namespace SLAT {
 
             /// Structure for recording calcuations in process.
             struct WAITING {
-                omp_lock_t lock; ///< Lock for this record
-                int count;       ///< Count of waiting clients
+                omp_lock_t lock; ///< Held until the calculation has finished
+
+                WAITING() { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
+                WAITING(const WAITING &) = delete;
+                WAITING &operator=(const WAITING &) = delete;
             };
 
             /// Map of calculations in process.
-            std::unordered_map<V, struct WAITING> in_process;
+            std::unordered_map<V, std::shared_ptr<WAITING>> in_process;
 
             /// OpenMP lock for this object
             omp_lock_t lock;
@@ -345,10 +370,18 @@ namespace SLAT {
          */
         template <class T> class CachedValue {
         private:
-            bool in_process; ///< Flag indicating the value is being calculated
+            /// Structure for recording a calcuation in process.
+            struct WAITING {
+                omp_lock_t lock; ///< Held until the calculation has finished
+
+                WAITING() { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
+                WAITING(const WAITING &) = delete;
+                WAITING &operator=(const WAITING &) = delete;
+            };
 
-            /// Lock for clients waiting for the calculation to finish:
-            omp_lock_t waiting_lock;
+            /// The calculation in process, if there is one:
+            std::shared_ptr<WAITING> in_process; 
 
             omp_lock_t lock; ///< Lock for this object
 
@@ -380,15 +413,7 @@ namespace SLAT {
 
                 omp_init_lock(&lock); // Initialise the lock for this object
 
-                /**
-                 * Set up the lock that's used to ensure the value is calculated
-                 * only once.
-                 */
-                omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
-
                 // Set member variables:
-                in_process = false; 
                 this->name = name;
                 cache_valid = false;
                 total_calls = 0;     
@@ -430,45 +455,79 @@ namespace SLAT {
                  * calculate it; if the calculation is already in process, wait
                  * for it to finish.
                  */
-                if (!cache_valid) {
+                if (cache_valid) {
+                    // Already cached; no need to calculate
+                    hits++;
+                }
+
+                /*
+                 * Keep going until we have a result: a calculation we wait for
+                 * might fail, or be invalidated by ClearCache(), in which case
+                 * we need to try again.
+                 */
+                while (!cache_valid) {
                     /*
                      * The calculating is being performed. Release the object
-                     * lock, then wait for the 'waiting_lock' to indicate the
-                     * calculation has been completed.
+                     * lock, then wait for the calculation to be completed.
                      */
                     if (in_process) {
+                        std::shared_ptr<WAITING> calc = in_process;
                         omp_unset_lock(&lock);
-                        omp_set_lock(&waiting_lock);
-                        omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting
-                        omp_set_lock(&lock); // Re-take the lock before returning the value
+                        omp_set_lock(&calc->lock);
+                        omp_unset_lock(&calc->lock); // Release for anyone else who's waiting
+                        omp_set_lock(&lock); // Re-take the lock, and look again
                     } else {
                         /*
                          * This is the first request--calculate the value.
                          */
-                        in_process = true;
+                        std::shared_ptr<WAITING> calc = std::make_shared<WAITING>();
+                        omp_set_lock(&calc->lock);
+                        in_process = calc;
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
-                        T result = func();
+                        T result;
+                        try {
+                            result = func();
+                        } catch (...) {
+                            /*
+                             * The calculation failed. Withdraw it, so someone
+                             * else can try, then pass the exception on to our
+                             * caller.
+                             */
+                            omp_set_lock(&lock);
+                            if (in_process == calc) in_process.reset();
+                            omp_unset_lock(&calc->lock);
+                            omp_unset_lock(&lock);
+                            throw;
+                        }
                         
                         omp_set_lock(&lock); // Lock before saving to cache
+
+                        /*
+                         * If the cache has been cleared since we started, give
+                         * our caller the result, but don't save it.
+                         */
+                        bool current = in_process == calc;
+
                         /*
                          * Sanity check--if cache_valid is set, the calculation
                          * has been performed more than once.
                          */
-                        if (cache_valid) {
+                        if (current && cache_valid) {
                             std::cout << "DUPLICATE (v): " << name << std::endl;
                             raise(SIGINT);
                         }
                         
-                        // Save the result, and release the 'waiting_lock' to anyone waiting
-                        cached_value = result;
-                        cache_valid = true;
-                        in_process = false;
-                        omp_unset_lock(&waiting_lock);
+                        // Save the result, and signal anyone waiting
+                        if (current) {
+                            cached_value = result;
+                            cache_valid = true;
+                            in_process.reset();
+                        }
+                        omp_unset_lock(&calc->lock);
+                        omp_unset_lock(&lock);
+                        return result;
                     }                        
-                } else {
-                    // Already cached; no need to calculate
-                    hits++;
                 }
 
                 /*
@@ -485,7 +544,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                in_process.reset(); // Don't save results of a calculation already underway
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From 3f69aa703c77b94aeb38db9f6788374752d07a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/49] fix: initialise the cache registry's lock exactly once

Two threads constructing the first caches at the same time raced on the
first_call flag.
---
 src/caching.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 36cb2ff..f1dc865 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -35,10 +35,13 @@ namespace SLAT {
             void Init_Caching(void)
             {
                 static bool first_call = true;
-                if (first_call) {
-                    omp_init_lock(&lock);
-                };
-                first_call = false;
+                #pragma omp critical (SLAT_Caching_Init)
+                {
+                    if (first_call) {
+                        omp_init_lock(&lock);
+                    };
+                    first_call = false;
+                }
             }
 
             /**
-- 
2.43.0


From 4e2602a6699da025dc699371f54af5ffadd56b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 03/49] fix: keep every dependant when a Replaceable is
 replaced

Client ids were only unique per object, so replacing an object could
discard the replacement's own clients, and clients registered later
could take over the id of one moved from the replaced object. Replacing
an object by itself dropped all of its clients.
---
 src/replaceable.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..57f742c 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,7 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -69,13 +70,14 @@ namespace SLAT {
         /**
          * id_counter is used as the key for clients. It is incremented by
          * add_callbacks().  Client ids do not need to be sequential; just
-         * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * unique. As replace() moves clients from one object to another, they
+         * need to be unique across all objects. This is an easy way to ensure
+         * that, but other mechanisms could be used without affecting anything
+         * outside this template.
          */
-        int id_counter;
+        static std::atomic<int> id_counter;
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
@@ -84,7 +86,7 @@ namespace SLAT {
         {
             omp_set_lock(&lock);
             int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,14 +106,26 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            /*
+             * Move our clients to the replacement (which may have clients of
+             * its own), then tell them about it.
+             */
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
-            for (auto it=callbacks.begin(); it != callbacks.end();) {
+            std::map<int, callback_struct> clients = callbacks;
+            callbacks.clear();
+            omp_unset_lock(&lock);
+
+            Replaceable<T> *target = replacement.get();
+            omp_set_lock(&target->lock);
+            target->callbacks.insert(clients.begin(), clients.end());
+            omp_unset_lock(&target->lock);
+
+            for (auto it=clients.begin(); it != clients.end(); it++) {
                 it->second.replace_cb(replacement);
-                it = callbacks.erase(it);
             }
-            omp_unset_lock(&lock);
         }
     };
+
+    template <class T> std::atomic<int> Replaceable<T>::id_counter(0);
 }
 #endif
-- 
2.43.0


From 58000474c5c65cb26e217babb4774466865cafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 04/49] fix: give every thread its own diagnostic context

The tree of contexts is indexed by nesting level, but was walked using
the number of active levels, so that the members of a team started
inside a serialised region shared one context. A team larger than the
previous one indexed past the end of the stored contexts, and the first
use re-initialised the lock while holding it.
---
 src/context.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..fe1d6ca 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -23,13 +23,14 @@ namespace SLAT {
 
      std::shared_ptr<Context> Context::LockContext()
      {
-        omp_set_lock(&Context::lock);
+        // GetInstance() initialises the lock, so it must be called first
         std::shared_ptr<Context> instance = GetInstance();
+        omp_set_lock(&Context::lock);
         
-        if (omp_get_active_level() > 0) {
-            for (int i=0; i <= omp_get_active_level(); i++) {
+        if (omp_get_level() > 0) {
+            for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
+                if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
@@ -170,9 +171,9 @@ namespace SLAT {
             result << separator;
         }
 
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
+            if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
             if (instance == NULL) break;
             
-- 
2.43.0


From 9ce4929f75f71a294ba8c64e6b34810ddeeb7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 05/49] fix: keep integration statistics exact under
 concurrency; define the two missing default setters

---
 src/maq.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..5e25a7b 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -136,6 +136,16 @@ namespace SLAT {
             integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
         }
 
+        void IntegrationSettings::Use_Default_Integration_Search_Limit() 
+        {
+            integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
+        }
+
+        void IntegrationSettings::Use_Default_Method() 
+        {
+            integration_method = METHOD_DEFAULT;
+        }
+
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
@@ -600,10 +610,11 @@ namespace SLAT {
                     break;
                 }
 #pragma omp critical
-                stats.total_search_evals += r.evaluations;
-                if (stats.max_successful_search < r.evaluations) {
-#pragma omp critical
-                    stats.max_successful_search = r.evaluations;
+                {
+                    stats.total_search_evals += r.evaluations;
+                    if (stats.max_successful_search < r.evaluations) {
+                        stats.max_successful_search = r.evaluations;
+                    }
                 }
                 if (std::isnan(r.a)) {
 #pragma omp critical
@@ -744,8 +755,8 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
-            if (counter > stats.max_successful_integration) {
 #pragma omp critical
+            if (counter > stats.max_successful_integration) {
                 stats.max_successful_integration = counter;
             }
             if (success) {
-- 
2.43.0


From 879af53d2a610a4ca112e52a0238c57429568534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 06/49] fix: keep collapse and demolition rates and compound
 demands current

CollapseRate and DemolitionRate stayed memoised when the hazard curve changed
or was replaced, DemolitionRate also when the collapse distribution was set;
replacing the second function of a compound EDP replaced its first.
---
 src/relationships.cpp | 6 +++++-
 src/relationships.h   | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..8cab089 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,10 +49,14 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
                 this->f = new_f;
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             });
     }
@@ -403,7 +407,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..f8833bf 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From 05eb1e9b6fd006577dbf6c1088ad88c50fb68946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 07/49] fix: component groups pass changes on to the building

The building's annual cost stayed memoised when a group's demand, fragility,
cost or delay function changed or was replaced.
---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 6895084ba4e902cfb76cebdaee49d8f6cfc3d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 08/49] fix: buildings follow removals and cost settings, and
 unregister when destroyed

Removing a group, or setting the rebuild or demolition cost, left the annual
cost stale; removed groups and destroyed buildings stayed registered as
dependants (use after free); queries on a building without groups crashed.
---
 src/structure.cpp | 25 ++++++++++++++++++++++++-
 src/structure.h   |  7 ++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..9d9943d 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -24,6 +24,16 @@ namespace SLAT {
     {
         this->name = name;
     };
+
+    Structure::~Structure()
+    {
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+        if (im) {
+            im->remove_callbacks(im_callback_id);
+        }
+    }
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
@@ -36,6 +46,7 @@ namespace SLAT {
     
     double Structure::pdf(double im) 
     {
+        if (this->im == NULL) return NAN;
         return TotalCost(im).get_mean_X() * std::abs(this->im->DerivativeAt(im));
     };
 
@@ -44,7 +55,7 @@ namespace SLAT {
     {
         if (components.size() == 0) {
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,7 +85,13 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                components[i]->first->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                if (components.size() == 0) {
+                    im->remove_callbacks(im_callback_id);
+                    im.reset();
+                }
+                this->Clear_Cache();
                 break;
             }
         }
@@ -113,6 +130,9 @@ namespace SLAT {
 
     LogNormalDist Structure::TotalCost(double im)
     {
+        if (this->im == NULL) {
+            return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(NAN, NAN);
+        }
         LogNormalDist cost_repair = CostNC(im);
         LogNormalDist cost_demolition = demolition_cost;
         LogNormalDist cost_collapse = rebuild_cost;
@@ -164,6 +184,9 @@ namespace SLAT {
 
     std::pair<LogNormalDist, LogNormalDist> Structure::DeaggregatedCost(double im)
     {
+        if (this->im == NULL) {
+            return std::make_pair(LogNormalDist(), LogNormalDist());
+        }
         LogNormalDist cost_nc = CostNC(im);
         LogNormalDist cost_c = rebuild_cost;
         LogNormalDist cost_demo = demolition_cost;
diff --git a/src/structure.h b/src/structure.h
index 31187a2..1ca314a 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure(); /**< Destructor; unregister callbacks */
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From 080ef6f8f64b4afaa0f825d7d42934524e870425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 09/49] fix: do not share lookup state between threads
 evaluating an interpolated function

---
 src/functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..4a092a0 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -221,7 +221,7 @@ namespace SLAT {
             //std::cout << "CLIPPED at " << x << std::endl;
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, x, accel, &y);
+            (void)gsl_spline_eval_e(interp, x, NULL, &y);
         }
         return y;
     }
@@ -270,7 +270,7 @@ namespace SLAT {
         } else if (x > max_x.first) {
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, log(x), accel, &y);
+            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);
             y = exp(y);
 
         }
-- 
2.43.0


From cb1644cf203e3853af0738f0fa6a3295de1bd684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 10/49] fix: lognormal functions given by a median or log-mean
 and a standard deviation

---
 src/functions.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 4a092a0..4a49929 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -349,11 +349,20 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                // The mean depends on sigma_lnX, so work from the median
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double median = this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * (sd * sd)/(median * median))) / 2.0)); 
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From dd046e4621edabed4d4a2b55a92f4d5652cc83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 11/49] fix: the probability of demolition is never negative

---
 src/relationships.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/relationships.h b/src/relationships.h
index f8833bf..eb348da 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -121,7 +121,8 @@ namespace SLAT {
 
         double pDemolition(double im) {
             if (demolition) {
-                return demolition->p_at_most(im) - pCollapse(im);
+                double p = demolition->p_at_most(im) - pCollapse(im);
+                return p < 0 ? 0 : p;
             } else {
                 return 0;
             }
-- 
2.43.0


From d5a10df8d10c02bfe2eb4406469d21e49647f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 12/49] fix: the present value without discounting is not a
 number

---
 src/structure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 9d9943d..e1eb474 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -169,7 +169,10 @@ namespace SLAT {
 
     double Structure::E_cost(int year, double discount_rate)
     {
-        return ((1.0 - exp(-discount_rate * year)) / discount_rate) * AnnualCost().get_mean_X();
+        // Without discounting, every year counts in full:
+        double factor = discount_rate == 0 ? year
+            : (1.0 - exp(-discount_rate * year)) / discount_rate;
+        return factor * AnnualCost().get_mean_X();
     }
 
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
-- 
2.43.0


From bb23803e260cf5526e63ba93841294afbafab683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 13/49] fix: rounding made the total cost not a number when one
 outcome is certain

---
 src/structure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index e1eb474..50d0561 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -162,7 +162,8 @@ namespace SLAT {
             E_sq_cost += E_sq_cost_collapse * this->im->pCollapse(im);
         }
         
-        double var_cost = E_sq_cost - E_cost * E_cost;
+        // Rounding can make this negative when the variance is zero:
+        double var_cost = std::max(0.0, E_sq_cost - E_cost * E_cost);
         double sigma_cost = sqrt(var_cost);
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sigma_cost);
     }
-- 
2.43.0


From a575e1938ba875057e7259118fa26aa1c6bd334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 14/49] fix: raise Python exceptions for library errors and
 unusable parameters

C++ exceptions ended the interpreter, and unusable parameters gave null
functions or empty distributions.
---
 src/pyslatcore.cpp | 26 +++++++++++++-------------
 src/pyslatcore.i   | 13 +++++++++++++
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..15782c0 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -107,14 +107,12 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     switch (t) {
     case PLC:
     case NLH:
-        std::cout << "Must have exactly one list of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly one list of data.");
 
     case LIN:
     {
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LinearInterpolatedFn>(x.data(), y.data(), x.size());
@@ -122,14 +120,13 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     }
     case LOGLOG:
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());
         break;
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -146,6 +143,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     switch (t) {
     case PLC:
     {
+        if (params.size() != 2) {
+            throw std::invalid_argument("A power law has exactly two parameters.");
+        }
         double a = params[0];
         double b = params[1];
         result = std::make_shared<SLAT::PowerLawParametricCurve>(a, b);
@@ -154,6 +154,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     case NLH:
     {
         // std::cout << "[NLH]" << std::endl;
+        if (params.size() != 3) {
+            throw std::invalid_argument("A hyperbolic law has exactly three parameters.");
+        }
         double alpha = params[0];
         double IM_asy = params[1];
         double v_asy = params[2];
@@ -161,13 +164,10 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
         break;
     }
     case LIN:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
     case LOGLOG:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly two lists of data.");
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -543,7 +543,7 @@ LogNormalDist *MakeLogNormalDist(double mu, LOGNORMAL_MU_TYPE mu_type,
     } else if (mu_type == MEAN_X && sigma_type == SD_X) {
         dist = SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(mu, sigma);
     } else {
-        std::cout << "Unsupported combination of mu and sigma." << std::endl;
+        throw std::invalid_argument("Unsupported combination of mu and sigma.");
     }
 
     std::shared_ptr<SLAT::LogNormalDist> temp = std::make_shared<SLAT::LogNormalDist>(dist);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..002f865 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -8,6 +8,19 @@
 %include <std_vector.i>
 %include <std_list.i>
 %include <std_map.i>
+%include <exception.i>
+
+// Errors raised by the library become Python exceptions (rather than ending the process):
+%exception {
+    try {
+        $action
+    } catch (const std::invalid_argument &e) {
+        SWIG_exception(SWIG_ValueError, e.what());
+    } catch (const std::exception &e) {
+        SWIG_exception(SWIG_RuntimeError, e.what());
+    }
+}
+
 namespace std{
     %template(VectorDouble) std::vector<double>;
     %template(VectorLogNormal_p) std::vector<LogNormalDist *>;
-- 
2.43.0


From c36f5a278c16bab7f0fecaf53a001269a0b76b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 15/49] fix: expose the queries of probabilistic functions to
 Python

---
 src/pyslatcore.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 002f865..1898b29 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -61,6 +61,17 @@ public:
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
 DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params);
 
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+};
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                                   LOGNORMAL_MU_TYPE mu_type,
                                                   const DeterministicFn &sigma_function,
-- 
2.43.0


From abf60525b976709d56d174a90dcab696441e0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 16/49] fix: redefining a detfn or probfn updates its users

---
 src/pyslat.py      | 13 +++++++++----
 src/pyslatcore.cpp | 10 ++++++++++
 src/pyslatcore.h   |  2 ++
 src/pyslatcore.i   |  2 ++
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..2a75a8c 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -396,6 +396,9 @@ class detfn:
             self._func = factory2(fntype, parameters)
 
         if id != None:
+            old = detfn.lookup(id)
+            if old:
+                old._func.replace(self._func)
             detfn.defs[id] = self
 
     ## Return the detfn object with the corresponding id.
@@ -468,6 +471,9 @@ class probfn:
     # function--describes.
     def __init__(self, id, type, mu_func, sigma_func):
         
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         self._id = id
         self._type = type
         self._mu_func = mu_func
@@ -477,11 +483,10 @@ class probfn:
                                                   sigma_func[1].function(),
                                                   sigma_func[0]) 
         if id != None:
+            old = probfn.lookup(id)
+            if old:
+                old._func.replace(self._func)
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
-
     
     ## Return the probfn object with the corresponding id.
     # @param id The identifier provided to the constructor of a probfn object.
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 15782c0..79d43df 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -100,6 +100,11 @@ double DeterministicFn::ValueAt(double v)
     return function->ValueAt(v);
 }
 
+void DeterministicFn::replace(DeterministicFn *f)
+{
+    function->replace(f->function);
+}
+
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y)
 {
     std::shared_ptr<SLAT::DeterministicFn> result;
@@ -206,6 +211,11 @@ double ProbabilisticFn::SD(double x) {
     return function->SD(x);
 };
 
+void ProbabilisticFn::replace(ProbabilisticFn *f)
+{
+    function->replace(f->function);
+}
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                               LOGNORMAL_MU_TYPE mu_type,
                                               const DeterministicFn &sigma_function,
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 097c289..69f9cfc 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -34,6 +34,7 @@ public:
     DeterministicFn();
     DeterministicFn(std::shared_ptr<SLAT::DeterministicFn> f);
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
     std::shared_ptr<SLAT::DeterministicFn> function;
 };
 
@@ -51,6 +52,7 @@ public:
     double Median(double x);
     double SD_ln(double x);
     double SD(double x);
+    void replace(ProbabilisticFn *f);
 private:
     std::shared_ptr<SLAT::ProbabilisticFn> function;
     friend EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1898b29..1b5eba0 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -56,6 +56,7 @@ enum INTEGRATION_TYPE { BINARY_SUBDIVISION,
 class DeterministicFn {
 public:
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
 };
 
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
@@ -70,6 +71,7 @@ public:
     double Median(double x);
     double SD_ln(double x);
     double SD(double x);
+    void replace(ProbabilisticFn *f);
 };
 
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
-- 
2.43.0


From 646f729ce247907f3750416d4888797093bbadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 17/49] fix: objects reached through a named object are the
 current ones

---
 src/pyslat.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 2a75a8c..e163990 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -20,6 +20,11 @@ def eprint(*args, **kwargs):
 
 pyslatcore.Initialise()
 
+## Return the object currently registered under the id of 'obj', which
+#  differs from 'obj' itself if the id was redefined.
+def _current(obj):
+    return (obj.id() != None and type(obj).lookup(obj.id())) or obj
+
 def ClearCaches():
     detfn.defs = dict()
     probfn.defs = dict()
@@ -764,7 +769,7 @@ class edp:
 
     ## Return the IM driving the EDP.
     def get_IM(self):
-        return self._im
+        return _current(self._im)
 
     ## Return the probabilitic function describing the EDP|IM relationship.
     def function(self):
@@ -1145,15 +1150,15 @@ class compgroup:
 
     ## Return the im driving the EDP affecting the components.
     def get_IM(self):
-        return self._edp.get_IM()
+        return _current(self._edp).get_IM()
 
     ## Return the fragility function.
     def fragfn(self):
-        return self._frag
+        return _current(self._frag)
 
     ## Return the number of damage states.
     def size(self):
-        return self._frag.size()
+        return self.fragfn().size()
         
     ## Return the underlying pyslatcore::CompGroup.
     def function(self):
@@ -1268,6 +1273,7 @@ class structure:
     #         debugging, warning, and error messages.
     def __init__(self, id):
         super().__init__()
+        self._id = id
         self._structure = MakeStructure()
         self._im = None
         if id != None:
@@ -1278,6 +1284,10 @@ class structure:
     def lookup(id):
         return structure.defs.get(id)
 
+    ## Return the id provided to the constructor.
+    def id(self):
+        return self._id
+
     ## Return a string describing the structure object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
@@ -1285,7 +1295,7 @@ class structure:
 
     ## Return the im connected to the structure.
     def get_IM(self):
-        return self._im
+        return self._im and _current(self._im)
 
     ## Return the pdf|im for the structure:
     def pdf(self, im):
@@ -1461,12 +1471,7 @@ class recorder:
            and at==None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
-        if (type =='dsedp' or type == 'dsim') and columns == None:
-            columns = []
-            for i in range(function.size()):
-                columns.append("DS{}".format(i + 1))
-            columns.append("E(DS)")
-        elif (type == 'probfn' or type == 'edpim') and columns == None:
+        if (type == 'probfn' or type == 'edpim') and columns == None:
             columns = ['mean_ln_x', 'sd_ln_x']
         elif (type == 'costedp' or type =='costim' \
               or type == 'delayedp' or type == 'delayim' \
@@ -1548,6 +1553,11 @@ class recorder:
             if y_label:
                 if not isinstance(y_label, list):
                     y_label = [y_label];
+            elif (self._type =='dsedp' or self._type == 'dsim') and self._columns == None:
+                y_label = []
+                for i in range(self._function.size()):
+                    y_label.append("DS{}".format(i + 1))
+                y_label.append("E(DS)")
             else:
                 y_label = self._columns
                       
@@ -1686,6 +1696,7 @@ class recorder:
     #  as required.
     def run(self):
         #print("RUN {}".format(self))
+        self._function = _current(self._function)
         destination = full_output_path(self._options.get('filename'))
         if destination != None:
             if self._options.get('append'):
-- 
2.43.0


From d6334ae633fd360f956c60b1aedf241c3b7ff663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 18/49] fix: a redefined intensity measure was taken for a
 wrong one

---
 src/pyslat.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index e163990..abb520e 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1312,13 +1312,7 @@ class structure:
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
         self._structure.AddCompGroup(group.function())
-        if self._im == None:
-            self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
+        self._im = group.get_IM()
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From d1a53cde4c97fc599745248036851018e35c9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 19/49] fix: bulk queries of an EDP, and EDPs without a name

---
 src/pyslat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index abb520e..81814bb 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -735,12 +735,12 @@ class edp:
             self._func = MakeCompoundEDP(im.function(), fn.function(), 
                                          fn2.function(), "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
-        edp.defs[id] = self
+            edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
     #  @param id The identifier provided to the constructor of a edp object.
@@ -788,7 +788,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -797,7 +797,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -815,7 +815,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From bd200bd89ed48350938797e813aa4f8bda2c19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 20/49] fix: a loss of mean_ln_x zero was taken for no loss

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 81814bb..679afeb 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1026,7 +1026,7 @@ class simplelossfn(lossfn):
 
         params = []
         for d in data:
-            if d[0]:
+            if d[0] or options['mu'] == LOGNORMAL_MU_TYPE.MEAN_LN_X:
                 params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
             else:
                 params.append(DefaultLogNormalDist())
-- 
2.43.0


From d1939338a784245f136bd2605d401727680798bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 21/49] fix: order of the parameters of a hyperbolic function

---
 src/pyslatcore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 79d43df..7f58f13 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -162,9 +162,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
         if (params.size() != 3) {
             throw std::invalid_argument("A hyperbolic law has exactly three parameters.");
         }
-        double alpha = params[0];
+        double v_asy = params[0];
         double IM_asy = params[1];
-        double v_asy = params[2];
+        double alpha = params[2];
         result = std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha);
         break;
     }
-- 
2.43.0


From 94fef9413b834099945ef5efcb2179e4843308ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 22/49] fix: logging to stderr could not be switched off

---
 src/pyslatcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 7f58f13..f85c006 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -31,7 +31,7 @@ void LogToStdErr(bool flag)
 {
     if (flag) {
         if (std_error_sink == NULL) {
-            boost::shared_ptr<logging::sinks::sink> k = logging::add_console_log(std::cerr);
+            std_error_sink = logging::add_console_log(std::cerr);
         }
     } else {
         if (std_error_sink != NULL) {
-- 
2.43.0


From 6a68a044d1dcca0d40e7deb084fb6887e5e1791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 23/49] fix: recorders without a file failed; close the file of
 the others

---
 src/pyslat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 679afeb..24e4e5b 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -64,6 +64,9 @@ def set_output_directory(path):
         os.makedirs(_Output_directory)    
 
 def full_output_path(path):
+    if path == None:
+        return None
+
     if not os.path.dirname(path):
         path = os.path.join(_Output_directory or _DEFAULT_OUTPUT_DIRECTORY, path)
 
@@ -1697,7 +1700,7 @@ class recorder:
                 f = open(destination, "a")
             else:
                 f = open(destination, "w")
-            with redirect_stdout(f):
+            with f, redirect_stdout(f):
                 self.generate_output()
 
         else:
-- 
2.43.0


From 104e4c60697eddfc015485631a79689d928765ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 24/49] fix: edpim recorders left out the columns of given
 exceedence

---
 src/pyslat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index 24e4e5b..47a145c 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1586,6 +1586,8 @@ class recorder:
                         yvals.append(self._function.SD_ln(self._at))
                     elif y == 'sd_x':
                         yvals.append(self._function.SD(self._at))
+                    elif isinstance(y, numbers.Number):
+                        yvals.append([self._function.X_at_exceedence(x, y) for x in self._at])
                 for x, y in zip(self._at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
-- 
2.43.0


From cac5f8b0b760a1fe94ab0ed4fa37692d1c18df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 25/49] fix: structcost recorders did not know the columns
 mean_ln_x and median_x

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 47a145c..1ee83ad 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1809,9 +1809,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1857,9 +1857,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1898,9 +1898,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
-- 
2.43.0


From 5c0bcecdf82bca2b345421b85858c49f6dfe8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 26/49] fix: pdf recorders cut the name of the intensity
 measure and divided by zero

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 1ee83ad..0ccb0f9 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1935,7 +1935,7 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15.6}{:>15.6}".format(self._function.get_IM().id(), "pdf"))
+        print("{:>15}{:>15}".format(self._function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
@@ -1944,7 +1944,7 @@ class PdfRecorder(recorder):
             if (pdf > max_pdf):
                 max_pdf = pdf
 
-        if self._options.get('normalise', None):
+        if self._options.get('normalise', None) and max_pdf > 0:
             divisor = max_pdf
         else:
             divisor = 1.0
-- 
2.43.0


From 1e91a743ebc5a3a2047e4ec33d16ba85f390eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 27/49] fix: deagg recorders failed

---
 src/pyslat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 0ccb0f9..128a3b1 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1393,7 +1393,7 @@ class structure:
     #          The first represents the cost of non-collapse (repair and
     #          demolition); the second represents the cost due to collapse.
     def DeaggregatedCost(self, im):
-        return self._structure.DeaggregatedCost(im)
+        return [lognormaldist(dist) for dist in self._structure.DeaggregatedCost(im)]
 
     ## Return the components, grouped by EDP.
     #  @return A list, each item of which is list of component groups with 
@@ -1614,13 +1614,13 @@ class recorder:
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
+                        values = self._function.DeaggregatedCost(x)
                         nc = values[0]
                         c = values[1]
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
-                            nc.get_mean_X(), nc.get_sigma_lnX(), 
-                            c.get_mean_X(), c.get_sigma_lnX())
+                            line, 
+                            nc.mean(), nc.sd_ln(),
+                            c.mean(), c.sd_ln())
                     elif not self._columns == None:
                         line = "{:>15.6}".format(x)
                         for y in self._columns:
-- 
2.43.0


From c1c6e95c7ebdbbd0feb37e3215dba994df4f4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 28/49] fix: recorders failed at points given as integers

---
 src/pyslat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 128a3b1..6538575 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1461,7 +1461,8 @@ class recorder:
         self._options = options
         self._at = at
         if at != None:
-            self._at = list(at)
+            self._at = [x if options.get('structcost-type') == 'npv' else float(x)
+                        for x in at]
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-- 
2.43.0


From 2ce3839531b426239fce8a60a2e2d31d176fc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 29/49] fix: description of a deterministic function

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6538575..5b549a1 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -430,10 +430,10 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
-                                            self._type,
-                                            self._parameters))
+        return(("Deterministic Function '{}', of type '{}', " +
+                "from parameters {}.").format(self._id, 
+                                              self._type,
+                                              self._parameters))
 
 ## Represents a probabilistic function.
 #
-- 
2.43.0


From ba53ab49369b9dde08a1e5951be58b453c46b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 30/49] fix: ranges that descend, and ranges without a step,
 never ended

---
 src/pyslat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 5b549a1..aa0e4d6 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -80,8 +80,10 @@ def full_output_path(path):
 # @param stop The ending value.
 # @param step The increment.
 def frange(start, stop, step):
+    if step == 0:
+        raise ValueError("A range needs a step other than zero.")
     i = start
-    while i <= stop + step/2:
+    while (i <= stop + step/2) if step > 0 else (i >= stop + step/2):
         yield i
         i += step
 
@@ -99,6 +101,8 @@ def logrange(start, end, count):
 # @param stop The ending value.
 # @param step The increment.
 def linrange(start, end, count):
+    if start == end:
+        return([start] * count)
     return(list(frange(start, end, (end - start)/(count - 1))))
 
 
-- 
2.43.0


From 998454ed6aa77cd414b1ba647b695d10991ac90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 31/49] fix: interpolated functions could not be defined in a
 script

---
 src/SlatInterpreter.py | 15 ++++++++++-----
 src/slatLexer.g4       |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..56412b1 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -88,7 +88,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +96,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -116,6 +113,14 @@ class SlatInterpreter(slatParserListener):
             y_values.append(pair[1])
         self._stack.append([x_values, y_values])
 
+    ## Enter a parse tree produced by slatParser#linear
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.enterLoglog_args(ctx)
+
+    ## Exit a parse tree produced by slatParser#linear
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.exitLoglog_args(ctx)
+
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
         if ctx.STRING():
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 2ceee88..21cc4f0 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -86,7 +86,7 @@ STRING : SINGLE_QUOTED_STRING | DOUBLE_QUOTED_STRING ;
 
 HYPERBOLIC: 'hyperbolic';
 POWERLAW: 'powerlaw';
-LOGLOG: ' loglog';
+LOGLOG: 'loglog';
 LINEAR: 'linear';
 LINFLAG: '--linear';
 LOGFLAG: '--log';
-- 
2.43.0


From be52ff69968512c57ba0af50c04d0174d8e50378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 32/49] fix: numbers starting with a decimal point were taken
 for names

---
 src/slatLexer.g4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 21cc4f0..f388f38 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -157,8 +157,8 @@ Digit : [0-9];
 
 INTEGER : [0-9]+;
     
-ID :   Nondigit (Nondigit | Digit)*;
 FLOAT_VAL: SIGN? FRACTION EXPONENT?;
+ID :   Nondigit (Nondigit | Digit)*;
 
 fragment
 SIGN: '-' | '+';
-- 
2.43.0


From 3068186712de5eb7727d15ff45913e701aaca74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 33/49] fix: quotes and backslashes in strings

---
 src/SlatInterpreter.py | 4 ++--
 src/slatLexer.g4       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 56412b1..b08e47e 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -19,9 +19,9 @@ from contextlib import redirect_stdout
 
 ## Pre-process input string
 #
-#  Escape quotes.
+#  Remove the enclosing quotes, and the backslash of escaped characters.
 def preprocess_string(s):        
-    return s.strip('\'"').replace('\\\"', '\"').replace('\\\'', '\'').replace('\\\\', '\\')
+    return re.sub(r'\\([\\\'"])', r'\1', s[1:-1])
 
 ## Interpreter class
 #
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index f388f38..5b37fd6 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -134,10 +134,10 @@ fragment
 SINGLE_QUOTE : '\'';
 
 fragment
-SQ_UNESCAPED_CHAR : ~['];
+SQ_UNESCAPED_CHAR : ~[\\'];
 
 fragment
-SQ_ESCAPED_CHAR : '\\\'' | '\\\\';
+SQ_ESCAPED_CHAR : '\\' .;
 
 fragment
 DOUBLE_QUOTE : '"';
-- 
2.43.0


From 93a7ea083bb60a7cb95509b2653c39d0f41ca5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 34/49] fix: the options of a lognormal distribution have
 defaults

---
 src/SlatInterpreter.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index b08e47e..5652aff 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -207,7 +207,7 @@ class SlatInterpreter(slatParserListener):
         refs = ctx.function_ref()
         mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
         sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
-        options = self._stack.pop()
+        options = self._pop_lognormal_options()
         mu = options['mu']
         sd = options['sd']
 
@@ -221,7 +221,7 @@ class SlatInterpreter(slatParserListener):
 
     def exitCollapse_command(self, ctx:slatParser.Collapse_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
+        options = self._pop_lognormal_options()
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
@@ -231,7 +231,7 @@ class SlatInterpreter(slatParserListener):
 
     def exitDemolition_command(self, ctx:slatParser.Demolition_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
+        options = self._pop_lognormal_options()
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
@@ -255,7 +255,7 @@ class SlatInterpreter(slatParserListener):
             pyslat.fragfn_db(id, db_params)
         else:
             params = ctx.fragfn_user_defined_params()
-            options = self._stack.pop()
+            options = self._pop_lognormal_options()
             scalars = self._stack.pop()
 
             pyslat.fragfn_user(id, options, scalars)
@@ -302,13 +302,22 @@ class SlatInterpreter(slatParserListener):
             
         self._stack.append({"mu": mu, "sd":sd})
 
+    ## Pop the options of a lognormal distribution, and complete them with the defaults.
+    def _pop_lognormal_options(self):
+        options = self._stack.pop()
+        if options['mu'] == None:
+            options['mu'] = pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X
+        if options['sd'] == None:
+            options['sd'] = pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X
+        return options
+
     ## Exit a parse tree produced by slatParser#lossfn_command.
     def exitLossfn_command(self, ctx:slatParser.Lossfn_commandContext):
         print("--> exitLossfn_command()")
         id = ctx.ID().getText()
         print(ctx)
         if ctx.simple_loss_command():
-            options = self._stack.pop()
+            options = self._pop_lognormal_options()
             data = self._stack.pop()
             print(options)
             print(data)
@@ -386,7 +395,7 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree prodcued by slatParser#rebuild_cost_command.
     def exitRebuildcost_command(self, ctx:slatParser.Rebuildcost_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
+        options = self._pop_lognormal_options()
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
@@ -394,7 +403,7 @@ class SlatInterpreter(slatParserListener):
 
     def exitDemolitioncost_command(self, ctx:slatParser.Demolitioncost_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
+        options = self._pop_lognormal_options()
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
-- 
2.43.0


From 434e8d406cc6382352c3c9f35f106b0dbe2fa14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 35/49] fix: annual cost recorders without options, and with
 columns

---
 src/SlatInterpreter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 5652aff..5f4dfd8 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -593,23 +593,26 @@ class SlatInterpreter(slatParserListener):
                 
             elif ctx.ANNUAL_FLAG():
                 options['structcost-type'] = 'annual'
-                cols = []
+                annual_cols = []
                 for key, value in self._stack.pop().items():
-                    if key == 'mu':
+                    if value == None:
+                        continue
+                    elif key == 'mu':
                         if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
                             c = "mean_ln_x"
                         elif value == pyslat.LOGNORMAL_MU_TYPE.MEAN_X:
                             c = "mean_x"
                         elif value == pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X:
                             c = "median_x"
-                        cols.append(c)
+                        annual_cols.append(c)
                     elif key == 'sd':
                         if value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X:
                             c = "sd_ln_x"
                         elif value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_X:
                             c = "sd_x"
-                        cols.append(c)
-                cols.sort()
+                        annual_cols.append(c)
+                annual_cols.sort()
+                cols = cols or annual_cols
                 
         id = ctx.ID().getText()
 
-- 
2.43.0


From 20bbbe2a02fb7d86d14e85c2b7bc0ba4af7fb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 36/49] fix: probfn commands could not refer to functions by
 variables

---
 src/SlatInterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 5f4dfd8..b7fd673 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -205,9 +205,9 @@ class SlatInterpreter(slatParserListener):
     def exitProbfn_command(self, ctx:slatParser.Probfn_commandContext):
         id = ctx.ID().getText()
         refs = ctx.function_ref()
-        mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
-        sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
         options = self._pop_lognormal_options()
+        sigmafn = refs[1].ID().getText() if refs[1].ID() else self._stack.pop()
+        mufn = refs[0].ID().getText() if refs[0].ID() else self._stack.pop()
         mu = options['mu']
         sd = options['sd']
 
-- 
2.43.0


From a738c7d4333832b2479679a13c1ed8e846c7c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 37/49] fix: undefined names and variables are errors

---
 src/SlatInterpreter.py | 63 ++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index b7fd673..539247a 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -48,6 +48,13 @@ class SlatInterpreter(slatParserListener):
         self._variables = dict()
         self._title = []
 
+    ## Return the object of the given kind named 'id', which must be defined.
+    def _lookup(self, kind, id):
+        result = kind.lookup(id)
+        if result == None:
+            raise ValueError("Undefined {}: {}".format(kind.__name__, id))
+        return result
+
     ## Push a value onto the local stack.
     def _push_stack(self):
         self._stack_stack.append(self._stack)
@@ -145,7 +152,9 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#var_ref.
     def exitVar_ref(self, ctx:slatParser.Var_refContext):
         variable = ctx.ID().getText()
-        value = self._variables.get(variable)
+        if not variable in self._variables:
+            raise ValueError("Undefined variable: {}".format(variable))
+        value = self._variables[variable]
         self._stack.append(value)
 
     ## Exit a parse tree produced by slatParser#numerical_scalar.
@@ -211,13 +220,13 @@ class SlatInterpreter(slatParserListener):
         mu = options['mu']
         sd = options['sd']
 
-        pyslat.probfn(id, 'lognormal', [mu, pyslat.detfn.lookup(mufn)], [sd, pyslat.detfn.lookup(sigmafn)])
+        pyslat.probfn(id, 'lognormal', [mu, self._lookup(pyslat.detfn, mufn)], [sd, self._lookup(pyslat.detfn, sigmafn)])
 
     ## Exit a parse tree produced by slatParser#im_command.
     def exitIm_command(self, ctx:slatParser.Im_commandContext):
         im_id = ctx.ID(0).getText()
         fn_id = ctx.ID(1).getText()
-        pyslat.im(im_id, pyslat.detfn.lookup(fn_id))
+        pyslat.im(im_id, self._lookup(pyslat.detfn, fn_id))
 
     def exitCollapse_command(self, ctx:slatParser.Collapse_commandContext):
         id = ctx.ID().getText()
@@ -227,7 +236,7 @@ class SlatInterpreter(slatParserListener):
         sd = params[1]
 
         dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetCollapse(dist)
+        self._lookup(pyslat.im, id).SetCollapse(dist)
 
     def exitDemolition_command(self, ctx:slatParser.Demolition_commandContext):
         id = ctx.ID().getText()
@@ -237,14 +246,14 @@ class SlatInterpreter(slatParserListener):
         sd = params[1]
 
         dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetDemolition(dist)
+        self._lookup(pyslat.im, id).SetDemolition(dist)
 
     ## Exit a parse tree produced by slatParser#edp_command.
     def exitEdp_command(self, ctx:slatParser.Edp_commandContext):
         edp_id = ctx.ID(0).getText()
         im_id = ctx.ID(1).getText()
         fn_id = ctx.ID(2).getText()
-        pyslat.edp(edp_id, pyslat.im.lookup(im_id), pyslat.probfn.lookup(fn_id))
+        pyslat.edp(edp_id, self._lookup(pyslat.im, im_id), self._lookup(pyslat.probfn, fn_id))
 
     ## Exit a parse tree produced by slatParser#fragfn_command.
     def exitFragfn_command(self, ctx:slatParser.Fragfn_commandContext):
@@ -373,10 +382,10 @@ class SlatInterpreter(slatParserListener):
             delay_adj_factor = float(floats[1].getText())
 
         pyslat.compgroup(compgroup_id,
-                         pyslat.edp.lookup(edp_id),
-                         pyslat.fragfn.lookup(frag_id),
-                         pyslat.lossfn.lookup(cost_id),
-                         delay_id and pyslat.lossfn.lookup(delay_id),
+                         self._lookup(pyslat.edp, edp_id),
+                         self._lookup(pyslat.fragfn, frag_id),
+                         self._lookup(pyslat.lossfn, cost_id),
+                         delay_id and self._lookup(pyslat.lossfn, delay_id),
                          count,
                          cost_adj_factor,
                          delay_adj_factor)
@@ -389,7 +398,7 @@ class SlatInterpreter(slatParserListener):
         groups = []
         for g in ctx.id_list().ID():
             groups.append(g.getText())
-            s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))
+            s.AddCompGroup(self._lookup(pyslat.compgroup, g.getText()))
         print("Create structure {} from {}.".format(id, groups));
         
     ## Exit a parse tree prodcued by slatParser#rebuild_cost_command.
@@ -399,7 +408,7 @@ class SlatInterpreter(slatParserListener):
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
-        pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        self._lookup(pyslat.structure, id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
 
     def exitDemolitioncost_command(self, ctx:slatParser.Demolitioncost_commandContext):
         id = ctx.ID().getText()
@@ -407,7 +416,7 @@ class SlatInterpreter(slatParserListener):
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
-        pyslat.structure.lookup(id).setDemolitionCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        self._lookup(pyslat.structure, id).setDemolitionCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
         
     
     ## Exit a parse tree produced by slatParser#print_command.
@@ -424,19 +433,19 @@ class SlatInterpreter(slatParserListener):
             
             fntype = ctx.print_function()
             if fntype.DETFN():
-                object = pyslat.detfn.lookup(id)
+                object = self._lookup(pyslat.detfn, id)
             elif fntype.PROBFN():
-                object = pyslat.probfn.lookup(id)
+                object = self._lookup(pyslat.probfn, id)
             elif fntype.IM():
-                object = pyslat.im.lookup(id)
+                object = self._lookup(pyslat.im, id)
             elif fntype.EDP():
-                object = pyslat.edp.lookup(id)
+                object = self._lookup(pyslat.edp, id)
             elif fntype.FRAGFN():
-                object = pyslat.fragfn.lookup(id)
+                object = self._lookup(pyslat.fragfn, id)
             elif fntype.LOSSFN():
-                object = pyslat.lossfn.lookup(id)
+                object = self._lookup(pyslat.lossfn, id)
             elif fntype.COMPGROUP():
-                object = pyslat.compgroup.lookup(id)
+                object = self._lookup(pyslat.compgroup, id)
             else:
                 object = 'unknown'
         elif ctx.print_title():
@@ -617,22 +626,22 @@ class SlatInterpreter(slatParserListener):
         id = ctx.ID().getText()
 
         if type == "dsrate" or type == 'dsedp' or type == 'dsim':
-            function = pyslat.compgroup.lookup(id)
+            function = self._lookup(pyslat.compgroup, id)
         elif type == 'detfn':
-            function = pyslat.detfn.lookup(id)
+            function = self._lookup(pyslat.detfn, id)
         elif type == 'probfn':
-            function = pyslat.probfn.lookup(id)
+            function = self._lookup(pyslat.probfn, id)
         elif type == 'imrate' or type == 'collapse' or type == 'collrate':
-            function = pyslat.im.lookup(id)
+            function = self._lookup(pyslat.im, id)
         elif type == 'edpim' or type == 'edprate':
-            function = pyslat.edp.lookup(id)
+            function = self._lookup(pyslat.edp, id)
         elif type == 'lossds' or type == 'costedp' or type == 'costim' \
              or type == 'delayedp' or type == 'delayim' \
              or type == 'anncost' \
              or type == 'costrate':
-            function = pyslat.compgroup.lookup(id)
+            function = self._lookup(pyslat.compgroup, id)
         elif type == 'structcost' or type == 'deagg' or type == 'totalcost' or type == 'pdf':
-            function = pyslat.structure.lookup(id)
+            function = self._lookup(pyslat.structure, id)
         else:
             raise ValueError("Unhandled recorder type")
 
-- 
2.43.0


From 8aa0f724da21c494766ca62ffd01b932cdcbe108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 38/49] fix: keys of dictionaries

---
 src/SlatInterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 539247a..fc3542a 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -206,7 +206,7 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#dictionary_entry.
     def exitDictionary_entry(self, ctx:slatParser.Dictionary_entryContext):
-        key = (ctx.ID() or preprocess_string(ctx.STRING()).getText())
+        key = ctx.ID().getText() if ctx.ID() else preprocess_string(ctx.STRING().getText())
         value = self._stack.pop()
         self._stack.append([key, value])
 
-- 
2.43.0


From 00ae52547071c2d70b9e98e70e2649de8a244afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 39/49] fix: the limit of an integration given by an expression
 was taken for the precision

---
 src/SlatInterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index fc3542a..03eb6dd 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -524,12 +524,12 @@ class SlatInterpreter(slatParserListener):
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
-        
+
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
         
-- 
2.43.0


From 59958fe5fa8d0e9f1cd804fba2b7b1480e0f8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 40/49] fix: characters that are no part of the language were
 skipped

---
 src/SlatInterpreter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 03eb6dd..68c9108 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -7,6 +7,7 @@ import sys
 import io
 import re
 from antlr4 import *
+from antlr4.error.ErrorListener import ErrorListener
 from slatLexer import slatLexer
 from slatParser import slatParser
 from slatParserListener import slatParserListener
@@ -752,6 +753,11 @@ class SlatInterpreter(slatParserListener):
         filename = (ctx.file_spec().FILE_NAME() or ctx.file_spec().ID()).getText().strip('\'"')
         pyslat.set_output_directory(filename)
         
+## Raise errors of the lexer, which would otherwise skip the offending characters.
+class LexerErrors(ErrorListener):
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise ValueError("line {}:{} {}".format(line, column, msg))
+
 def main(argv):
     for file in argv[1:]:
         print("File:", file)
@@ -761,6 +767,8 @@ def main(argv):
 
         input = InputStream(text)
         lexer = slatLexer(input)
+        lexer.removeErrorListeners()
+        lexer.addErrorListener(LexerErrors())
         stream = CommonTokenStream(lexer)
         parser = slatParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From 7fbbbdebff55098d52aec7e1e1715a96b9402b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 41/49] fix: the columns given for damage state recorders were
 ignored

---
 src/pyslat.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index aa0e4d6..83f2a79 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1511,6 +1511,17 @@ class recorder:
 
         return "Recorder: {} {} {} {} {}".format(self._type, self._function, self._options, self._columns, atprint)
 
+    ## Choose the damage states to be reported: those given as columns, or else
+    #  all of them, followed by their sum.
+    #  @param yvals The values for all damage states.
+    def _states(self, yvals):
+        if self._columns == None:
+            return list(yvals) + [sum(yvals)]
+        for i in self._columns:
+            if not 1 <= i <= len(yvals):
+                raise ValueError("There is no damage state {}.".format(i))
+        return [yvals[int(i) - 1] for i in self._columns]
+
     ## Generate the output for the recorder. 
     # The output is sent to stdout; the calling function ('run()') will 
     # redirect it as necessary.
@@ -1555,11 +1566,12 @@ class recorder:
             if y_label:
                 if not isinstance(y_label, list):
                     y_label = [y_label];
-            elif (self._type =='dsedp' or self._type == 'dsim') and self._columns == None:
+            elif self._type =='dsedp' or self._type == 'dsim':
                 y_label = []
-                for i in range(self._function.size()):
-                    y_label.append("DS{}".format(i + 1))
-                y_label.append("E(DS)")
+                for i in self._columns or range(1, self._function.size() + 1):
+                    y_label.append("DS{}".format(i))
+                if self._columns == None:
+                    y_label.append("E(DS)")
             else:
                 y_label = self._columns
                       
@@ -1606,15 +1618,11 @@ class recorder:
                 for x in self._at:
                     line = "{:>15.6}".format(x)
                     if self._type == 'dsedp':
-                        yvals = self._function.fragfn().pExceeded(x)
-                        for y in yvals:
+                        for y in self._states(self._function.fragfn().pExceeded(x)):
                             line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
                     elif self._type == 'dsim':
-                        yvals = self._function.pDS_IM(x)
-                        for y in yvals:
+                        for y in self._states(self._function.pDS_IM(x)):
                             line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
                     elif self._type == 'costrate':
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
-- 
2.43.0


From a9493f5d7a3f6cf70aa27ea400ff005f2306b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 42/49] fix: recorders failed at points given as an array

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 83f2a79..1bb9972 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1464,13 +1464,13 @@ class recorder:
         self._function = function
         self._options = options
         self._at = at
-        if at != None:
+        if at is not None:
             self._at = [x if options.get('structcost-type') == 'npv' else float(x)
                         for x in at]
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-           and at==None:
+           and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if (type == 'probfn' or type == 'edpim') and columns == None:
@@ -1751,7 +1751,7 @@ class StructcostRecorder(recorder):
         print("columns: ", columns)
         print("at: ", at)
         if  (not options['structcost-type'] == 'annual') \
-            and at==None:
+            and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if columns == None or len(columns) == 0:
-- 
2.43.0


From 7b8584cd291d64630332c2f54a664c73db3651d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 43/49] fix: interpolated functions with x values out of order
 ended the program

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index 4a49929..ab0519e 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -9,6 +9,7 @@
  *
  * ©2015 Canterbury University
  */
+#include <stdexcept>
 #include <sstream>
 #include <cmath>
 #include <vector>
@@ -181,6 +182,10 @@ namespace SLAT {
         max_x = std::pair<double, double>(x[size - 1], y[size - 1]);
         
         for (unsigned int i=0; i < size; i++) {
+            // The GSL would end the program:
+            if (i > 0 && !(x[i] > x[i - 1])) {
+                throw std::invalid_argument("Interpolation requires increasing x values.");
+            }
             data.push_back(std::pair<double, double>(x[i], y[i]));
         }
     }
-- 
2.43.0


From 713785e4da20c9d5f409ff05c99a1a4d437778c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 44/49] fix: log-log interpolation over negative x values ended
 the program

---
 src/functions.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index ab0519e..4f7aed1 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -239,16 +239,19 @@ namespace SLAT {
     LogLogInterpolatedFn::LogLogInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
-        interp = gsl_spline_alloc (gsl_interp_linear, size);
-
         // Make a copy of the data in log scale for the interpolator:
         double logx[size];
         double logy[size];
         for (unsigned int i=0; i < size; i++) {
             logx[i] = log(x[i]);
             logy[i] = log(y[i]);
+            // There is no logarithm of a negative x; the GSL would end the program:
+            if (i > 0 && !(logx[i] > logx[i - 1])) {
+                throw std::invalid_argument("Log-log interpolation requires increasing, non-negative x values.");
+            }
         }
+        accel = gsl_interp_accel_alloc();
+        interp = gsl_spline_alloc (gsl_interp_linear, size);
         gsl_spline_init(interp, logx, logy, size);
     }
 
-- 
2.43.0


From 8a4abbb0e53870f690c5630a7e978059819c7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 45/49] fix: interpolated functions of fewer than two points
 ended the program

---
 src/functions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index 4f7aed1..eb65a04 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -178,6 +178,10 @@ namespace SLAT {
     InterpolatedFn::InterpolatedFn(double x[], double y[], size_t size) : 
         DeterministicFn()
     {
+        // The GSL would end the program:
+        if (size < 2) {
+            throw std::invalid_argument("Interpolation requires at least two points.");
+        }
         min_x = std::pair<double, double>(x[0], y[0]);
         max_x = std::pair<double, double>(x[size - 1], y[size - 1]);
         
-- 
2.43.0


From 32a737efc72019c495476734983a2f0b1b98b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 46/49] fix: a damage state without a loss made all losses NaN

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 1bb9972..fa2aef4 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1033,7 +1033,7 @@ class simplelossfn(lossfn):
 
         params = []
         for d in data:
-            if d[0] or options['mu'] == LOGNORMAL_MU_TYPE.MEAN_LN_X:
+            if d[0] != None or options['mu'] == LOGNORMAL_MU_TYPE.MEAN_LN_X:
                 params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
             else:
                 params.append(DefaultLogNormalDist())
-- 
2.43.0


From 74357f136908a1fc6ed86ebbcfda55904a63f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 47/49] fix: carry refusals out of the parallel loops

An exception raised inside an OpenMP region ended the program: asking a
structure for its cost when a group's loss function has a different number
of states than its fragility function called std::terminate (and took the
Python interpreter with it), although the group alone reports the error.
---
 src/comp_group.cpp | 17 +++++++++++++++--
 src/structure.cpp  | 21 +++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 3ff0941..d749ed1 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -12,6 +12,7 @@
 
 #include "comp_group.h"
 #include <vector>
+#include <exception>
 #include <gsl/gsl_deriv.h>
 #include <gsl/gsl_integration.h>
 
@@ -272,17 +273,29 @@ namespace SLAT {
      */
     LogNormalDist CompGroup::CostDist_IM(double im) {
         double E = NAN, sd_ln = NAN;
+        // An exception must not leave the parallel region; rethrow it afterwards:
+        std::exception_ptr E_error, sd_ln_error;
 #pragma omp parallel sections
         {
 #pragma omp section
             {
-                E = E_cost_IM(im);
+                try {
+                    E = E_cost_IM(im);
+                } catch (...) {
+                    E_error = std::current_exception();
+                }
             }
 #pragma omp section
             {
-                sd_ln = SD_ln_cost_IM(im);
+                try {
+                    sd_ln = SD_ln_cost_IM(im);
+                } catch (...) {
+                    sd_ln_error = std::current_exception();
+                }
             }
         }
+        if (E_error) std::rethrow_exception(E_error);
+        if (sd_ln_error) std::rethrow_exception(sd_ln_error);
 
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);
     }
diff --git a/src/structure.cpp b/src/structure.cpp
index 50d0561..67fbcaa 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -11,6 +11,7 @@
  */
 
 #include <memory>
+#include <exception>
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
@@ -101,10 +102,18 @@ namespace SLAT {
     {
         std::vector<LogNormalDist> dists(components.size());
         const size_t N = components.size();
+        // An exception must not leave the parallel region; rethrow it afterwards:
+        std::exception_ptr error;
 #pragma omp parallel for
         for (size_t i=0; i < N; i++) {
-            dists[i] = components[i]->first->CostDist_IM(im);
+            try {
+                dists[i] = components[i]->first->CostDist_IM(im);
+            } catch (...) {
+#pragma omp critical (SLAT_Structure_Error)
+                if (!error) error = std::current_exception();
+            }
         }
+        if (error) std::rethrow_exception(error);
         return LogNormalDist::AddDistributions(dists);
     }
 
@@ -179,10 +188,18 @@ namespace SLAT {
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
     {
         std::vector<double> result(years.size());
+        // An exception must not leave the parallel region; rethrow it afterwards:
+        std::exception_ptr error;
 #pragma omp parallel for
         for (size_t i=0; i < years.size(); i++) {
-            result[i] = E_cost(years[i], discount_rate);
+            try {
+                result[i] = E_cost(years[i], discount_rate);
+            } catch (...) {
+#pragma omp critical (SLAT_Structure_Error)
+                if (!error) error = std::current_exception();
+            }
         }
+        if (error) std::rethrow_exception(error);
         return result;
     }
 
-- 
2.43.0


From 44e807311da1bb1acc2e76357207b56892cbedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 48/49] fix: compound demands can be made from probabilistic
 functions

pyslat.edp with a second function always failed: the library's
MakeCompoundEDP took two EDPs, where pyslat passes, as documented, two
probabilistic functions.  Two EDPs are still accepted.
---
 src/pyslatcore.cpp | 10 ++++++++++
 src/pyslatcore.h   |  2 ++
 src/pyslatcore.i   |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index f85c006..37583f9 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -537,6 +537,16 @@ EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_edp, std::string name)
     return result;
 }
 
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_fn, ProbabilisticFn y_fn, std::string name)
+{
+    std::shared_ptr<SLAT::EDP> relationship = 
+        std::make_shared<SLAT::CompoundEDP>(base_rate.relationship,
+                                            x_fn.function,
+                                            y_fn.function,
+                                            name);
+    return new EDP(relationship);
+}
+
 //     class FragilityFnWrapper;
 //     class LossFnWrapper;
     
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 69f9cfc..86fa0ea 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -56,6 +56,7 @@ public:
 private:
     std::shared_ptr<SLAT::ProbabilisticFn> function;
     friend EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
+    friend EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_fn, ProbabilisticFn y_fn, std::string name);
 
 };
 
@@ -165,6 +166,7 @@ public:
 
 EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
 EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_epd, std::string name);
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_fn, ProbabilisticFn y_fn, std::string name);
 
 class FragilityFn {
 public:
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1b5eba0..2526b90 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -140,6 +140,7 @@ public:
 
 EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
 EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_epd, std::string name);
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_fn, ProbabilisticFn y_fn, std::string name);
 
 class FragilityFn {
 public:
-- 
2.43.0


From 7c5c67bca67df8ef6a40a6edef3b30e2fa0ee2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 49/49] fix: a building follows its groups to another hazard

When a demand, or a whole component group, was replaced by one on another
intensity measure, the building went on using the first one: probabilities
of collapse and the annual cost came from a hazard nothing depends on any
more. Take the intensity measure from the groups whenever one of them says
it has changed.
---
 src/pyslat.py     |  5 ++++-
 src/structure.cpp | 35 +++++++++++++++--------------------
 src/structure.h   |  4 +++-
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index fa2aef4..21408b7 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1302,7 +1302,10 @@ class structure:
 
     ## Return the im connected to the structure.
     def get_IM(self):
-        return self._im and _current(self._im)
+        # Ask a component group; it may have changed since it was added:
+        groups = self._structure.ComponentsByEDP()
+        group = compgroup.lookup(groups[0][0]) if groups else None
+        return group.get_IM() if group else self._im and _current(self._im)
 
     ## Return the pdf|im for the structure:
     def pdf(self, im):
diff --git a/src/structure.cpp b/src/structure.cpp
index 67fbcaa..22702c0 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -31,9 +31,6 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             components[i]->first->remove_callbacks(components[i]->second);
         }
-        if (im) {
-            im->remove_callbacks(im_callback_id);
-        }
     }
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
@@ -54,30 +51,22 @@ namespace SLAT {
 
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
-        if (components.size() == 0) {
-            im = cg->getIM();
-            im_callback_id = im->add_callbacks(
-                [this] (void) {
-                    this->Clear_Cache();
-                },
-                [this] (std::shared_ptr<IM> new_im) {
-                    this->Clear_Cache();
-                    this->im = new_im;
-                });
-        }
-        if (cg->getIM() != im) {
+        if (components.size() > 0 && cg->getIM() != im) {
             throw std::invalid_argument("WRONG IM");
         }
         std::shared_ptr<CG_ENTRY> entry = std::make_shared<CG_ENTRY>(cg, 0);
         entry->second = cg->add_callbacks(
             [this] (void) {
+                this->Update_IM();
                 this->Clear_Cache();
             },
             [this, entry] (std::shared_ptr<CompGroup> new_cg) {
-                this->Clear_Cache();
                 entry->first = new_cg;
+                this->Update_IM();
+                this->Clear_Cache();
             });
         components.push_back(entry);
+        this->Update_IM();
         this->Clear_Cache();
     }
     
@@ -88,15 +77,21 @@ namespace SLAT {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
                 components[i]->first->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
-                if (components.size() == 0) {
-                    im->remove_callbacks(im_callback_id);
-                    im.reset();
-                }
+                this->Update_IM();
                 this->Clear_Cache();
                 break;
             }
         }
     }
+
+    void Structure::Update_IM(void)
+    {
+        if (components.empty()) {
+            im.reset();
+        } else {
+            im = components[0]->first->getIM();
+        }
+    }
     
     LogNormalDist Structure::CostNC(double im)
     {
diff --git a/src/structure.h b/src/structure.h
index 1ca314a..00f761b 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -54,8 +54,10 @@ namespace SLAT {
         LogNormalDist CostNC(double im);
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
+        /** The IM the component groups depend on. A group tells us whenever it
+            changes, which includes any change to its IM. */
         std::shared_ptr<IM> im;
-        int im_callback_id;
+        void Update_IM(void);
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0

