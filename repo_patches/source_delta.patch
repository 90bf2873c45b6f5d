From 2955ba1c7f889de7ed1f825dabb0d637d3b3a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/58] fix: a failed calculation no longer blocks later
 requests for a cached result

An exception thrown by the calculation behind a CachedFunction or CachedValue
left it marked as being in process, so that every later request waited for
ever. Also, CachedValue only held 'waiting_lock' during the first calculation;
after the cache had been cleared, clients which should have waited returned the
old value instead.
---
 src/caching.h | 125 +++++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 53 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..f94cd7c 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -21,6 +21,7 @@
 
 #include <unordered_map>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -175,44 +176,36 @@ namespace SLAT {
                      */
                     bool cached = cache.count(v) != 0;
 
-                    if (!cached) {
+                    if (cached) {
+                        // Record cache hit
+                        hits++;
+                    }
+
+                    /*
+                     * (This is a loop because the calculation we've been
+                     * waiting for may have failed, in which case we try again.)
+                     */
+                    while (!cached) {
                         /*
                          * The value isn't cached, so we need to calculate
                          * it. For efficiency, we only want to calculate it
                          * once. We use a map 'in_process' to record which
                          * values are being actively calculated at a given
-                         * time. Each entry in 'in_process' has a lock and a
-                         * count.
+                         * time. Each entry in 'in_process' has a lock, which is
+                         * shared with the clients waiting for the result.
                          */
                         bool happening = in_process.count(v) != 0;
                         if (happening) {
                             /*
                              *  The calculation is already being
-                             *  performed. Increment the count, release the lock
-                             *  for this object, and then take corresponding
-                             *  'in_process' lock.
+                             *  performed. Release the lock for this object, and
+                             *  wait for the corresponding 'in_process' lock.
                              */
-                            in_process[v].count++;
-                            omp_lock_t *calc_lock = &in_process[v].lock;
+                            std::shared_ptr<WAITING> waiting = in_process[v];
                             omp_unset_lock(&lock);
-                            omp_set_lock(calc_lock);
-
-                            /*
-                             * Once we have calc_lock, we know the value is in
-                             * the cache. Wait for the object lock, then
-                             * decrement the 'in_process' count for the
-                             * requested value. If it isn't zero, there's
-                             * someone else waiting, so release the lock. If
-                             * we're the last one, erase the appropriate
-                             * 'in_process' element.
-                             */
-                            omp_set_lock(&lock);
-                            in_process[v].count--;
-                            if (in_process[v].count > 0) {
-                                omp_unset_lock(&in_process[v].lock);
-                            } else {
-                                in_process.erase(v);
-                            }
+                            omp_set_lock(&waiting->lock);
+                            omp_unset_lock(&waiting->lock); // Release for anyone else who's waiting
+                            omp_set_lock(&lock); // Re-take the lock before looking for the result
                         } else {
                             /*
                              * We're the first one to request this
@@ -220,12 +213,26 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            omp_init_lock(&in_process[v].lock);
-                            omp_set_lock(&in_process[v].lock);
-                            in_process[v].count = 0;
+                            std::shared_ptr<WAITING> waiting = std::make_shared<WAITING>();
+                            omp_set_lock(&waiting->lock);
+                            in_process[v] = waiting;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
+                            T result;
+                            try {
+                                result = func(v);  // Perform calculation
+                            } catch (...) {
+                                /*
+                                 * The calculation failed. Let anyone else who's
+                                 * interested in the result try it for
+                                 * themselves.
+                                 */
+                                omp_set_lock(&lock);
+                                in_process.erase(v);
+                                omp_unset_lock(&waiting->lock);
+                                omp_unset_lock(&lock);
+                                throw;
+                            }
                             
                             omp_set_lock(&lock); // Get object lock
                             
@@ -238,27 +245,19 @@ namespace SLAT {
                              */
                             if (cache.count(v) != 0) {
                                 std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
-                                std::cout << in_process[v].count << std::endl;
                                 raise(SIGINT);
                             }
 
                             cache[v] = result; // Save the result
 
                             /*
-                             * If no one else is interested in the result,
-                             * remove the 'in_process' entry; otherwise, release
-                             * the 'in_process' lock to signal other interested
-                             * parties.
+                             * Remove the 'in_process' entry, and release its
+                             * lock to signal other interested parties.
                              */
-                            if (in_process[v].count == 0) {
-                                in_process.erase(v);
-                            } else {
-                                omp_unset_lock(&in_process[v].lock);
-                            }
+                            in_process.erase(v);
+                            omp_unset_lock(&waiting->lock);
                         }
-                    } else {
-                        // Record cache hit
-                        hits++;
+                        cached = cache.count(v) != 0;
                     }
                     
                     /*
@@ -302,12 +301,13 @@ namespace SLAT {
 
             /// Structure for recording calcuations in process.
             struct WAITING {
-                omp_lock_t lock; ///< Lock for this record
-                int count;       ///< Count of waiting clients
+                omp_lock_t lock; ///< Held while the calculation is performed
+                WAITING() { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
             };
 
             /// Map of calculations in process.
-            std::unordered_map<V, struct WAITING> in_process;
+            std::unordered_map<V, std::shared_ptr<WAITING>> in_process;
 
             /// OpenMP lock for this object
             omp_lock_t lock;
@@ -385,7 +385,6 @@ namespace SLAT {
                  * only once.
                  */
                 omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
 
                 // Set member variables:
                 in_process = false; 
@@ -430,7 +429,16 @@ namespace SLAT {
                  * calculate it; if the calculation is already in process, wait
                  * for it to finish.
                  */
-                if (!cache_valid) {
+                if (cache_valid) {
+                    // Already cached; no need to calculate
+                    hits++;
+                }
+
+                /*
+                 * (This is a loop because the calculation we've been waiting
+                 * for may have failed, in which case we try again.)
+                 */
+                while (!cache_valid) {
                     /*
                      * The calculating is being performed. Release the object
                      * lock, then wait for the 'waiting_lock' to indicate the
@@ -440,15 +448,29 @@ namespace SLAT {
                         omp_unset_lock(&lock);
                         omp_set_lock(&waiting_lock);
                         omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting
-                        omp_set_lock(&lock); // Re-take the lock before returning the value
+                        omp_set_lock(&lock); // Re-take the lock before looking for the value
                     } else {
                         /*
                          * This is the first request--calculate the value.
                          */
                         in_process = true;
+                        omp_set_lock(&waiting_lock);
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
-                        T result = func();
+                        T result;
+                        try {
+                            result = func();
+                        } catch (...) {
+                            /*
+                             * The calculation failed. Let anyone else who's
+                             * interested in the result try it for themselves.
+                             */
+                            omp_set_lock(&lock);
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            throw;
+                        }
                         
                         omp_set_lock(&lock); // Lock before saving to cache
                         /*
@@ -466,9 +488,6 @@ namespace SLAT {
                         in_process = false;
                         omp_unset_lock(&waiting_lock);
                     }                        
-                } else {
-                    // Already cached; no need to calculate
-                    hits++;
                 }
 
                 /*
-- 
2.43.0


From 8f4c53a0bb819df1c1e43155bf80fb0e8efc73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 02/58] fix: clearing a cache also discards results which are
 still being calculated

ClearCache() changed the cache without taking the object's lock, and a
calculation which was in process when the cache was cleared stored its
(possibly out of date) result afterwards.
---
 src/caching.h | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index f94cd7c..5ed382e 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -122,6 +122,7 @@ namespace SLAT {
                 cache_active = activate_cache;
                 hits = 0;
                 total_calls = 0;
+                times_cleared = 0;
                 func = base_func; 
 
                 // Tell the caching module about this object:
@@ -183,7 +184,8 @@ namespace SLAT {
 
                     /*
                      * (This is a loop because the calculation we've been
-                     * waiting for may have failed, in which case we try again.)
+                     * waiting for may have failed, or been overtaken by a call
+                     * to ClearCache(), in which case we try again.)
                      */
                     while (!cached) {
                         /*
@@ -216,6 +218,7 @@ namespace SLAT {
                             std::shared_ptr<WAITING> waiting = std::make_shared<WAITING>();
                             omp_set_lock(&waiting->lock);
                             in_process[v] = waiting;
+                            int generation = times_cleared;
                             omp_unset_lock(&lock);
 
                             T result;
@@ -236,6 +239,19 @@ namespace SLAT {
                             
                             omp_set_lock(&lock); // Get object lock
                             
+                            /*
+                             * If the cache was cleared during the calculation,
+                             * the result may already be out of date. It's good
+                             * enough for this request, but not for later ones,
+                             * so don't save it.
+                             */
+                            if (generation != times_cleared) {
+                                in_process.erase(v);
+                                omp_unset_lock(&waiting->lock);
+                                omp_unset_lock(&lock);
+                                return result;
+                            }
+
                             /*
                              * This is a sanity check. If when we get here, the
                              * value is in the cache already, something is wrong
@@ -284,7 +300,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                times_cleared++;
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -312,6 +331,9 @@ namespace SLAT {
             /// OpenMP lock for this object
             omp_lock_t lock;
 
+            /// Number of times the cache has been cleared
+            int times_cleared;
+
             /**
              * (Optional) name for this object; used in error and debugging
              * messages.
@@ -360,6 +382,7 @@ namespace SLAT {
             
             int hits;        ///< Hit counter (for development)
             int total_calls; ///< Count of total calls (for development)
+            int times_cleared; ///< Number of times the cache has been cleared
             std::string name;  ///< (Optional) object name
 
         public:
@@ -391,6 +414,7 @@ namespace SLAT {
                 this->name = name;
                 cache_valid = false;
                 total_calls = 0;     
+                times_cleared = 0;
                 hits = 0;
                 func = base_func; 
 
@@ -436,7 +460,8 @@ namespace SLAT {
 
                 /*
                  * (This is a loop because the calculation we've been waiting
-                 * for may have failed, in which case we try again.)
+                 * for may have failed, or been overtaken by a call to
+                 * ClearCache(), in which case we try again.)
                  */
                 while (!cache_valid) {
                     /*
@@ -455,6 +480,7 @@ namespace SLAT {
                          */
                         in_process = true;
                         omp_set_lock(&waiting_lock);
+                        int generation = times_cleared;
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
                         T result;
@@ -473,6 +499,20 @@ namespace SLAT {
                         }
                         
                         omp_set_lock(&lock); // Lock before saving to cache
+
+                        /*
+                         * If the cache was cleared during the calculation, the
+                         * result may already be out of date. It's good enough
+                         * for this request, but not for later ones, so don't
+                         * save it.
+                         */
+                        if (generation != times_cleared) {
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            return result;
+                        }
+
                         /*
                          * Sanity check--if cache_valid is set, the calculation
                          * has been performed more than once.
@@ -504,7 +544,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                times_cleared++;
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From 739a045a3c2bf96614e0a835a2e683e38f755448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 03/58] fix: recalculate an IM's collapse and demolition rates
 when its inputs change

Neither rate was recalculated when the rate-of-exceedence function was changed
or replaced, nor the demolition rate when the collapse distribution was.
---
 src/relationships.cpp | 4 ++++
 src/relationships.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..3a0a0d0 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,9 +49,13 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->f = new_f;
                 this->notify_change();
             });
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..94b4bdf 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // pDemolition() depends on pCollapse()
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // pDemolition() depends on pCollapse()
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From 1c30af73f930b78578318622a7add3e96a3d0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 04/58] fix: replacing the second function of a CompoundEDP no
 longer changes the first

---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 3a0a0d0..c05fbce 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -407,7 +407,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
-- 
2.43.0


From 97598ce0f746c6e3ee36ac7836fb3606657efef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 05/58] fix: an object which replaces another keeps its own
 clients

replace() overwrote the clients of the replacement, which were no longer told
of changes; an id assigned by one object could be assigned again to a different
client by its replacement; and replacing an object with itself removed all its
clients.
---
 src/replaceable.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..f45fae7 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,8 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
+#include <functional>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -71,11 +73,17 @@ namespace SLAT {
          * add_callbacks().  Client ids do not need to be sequential; just
          * unique. This is an easy way to ensure that, but other mechanisms
          * could be used without affecting anything outside this template.
+         *
+         * It is shared by all objects of a type, because replace() adds the
+         * clients of one object, with their ids, to those of another.
          */
-        int id_counter;
+        static int next_id(void)
+        {
+            static std::atomic<int> id_counter(0);
+            return ++id_counter;
+        }
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
@@ -83,8 +91,8 @@ namespace SLAT {
                           std::function<void (std::shared_ptr<T>)> replace)
         {
             omp_set_lock(&lock);
-            int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            int result = next_id();
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,8 +112,10 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            if (replacement.get() == this) return; // Nothing to do
+
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
+            replacement->callbacks.insert(callbacks.begin(), callbacks.end());
             for (auto it=callbacks.begin(); it != callbacks.end();) {
                 it->second.replace_cb(replacement);
                 it = callbacks.erase(it);
-- 
2.43.0


From 6a2f8cffdefb8c04efb0a9cb92d8fc608c6ff4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 06/58] fix: a component group tells its clients when its
 inputs change

CompGroup cleared its own caches but didn't call notify_change(), so that the
annual cost of a structure wasn't recalculated after a change to a component's
demand, fragility or cost function.
---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 42f727c4a480cfda46aeec0e455cbbc5e5bad05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 07/58] fix: recalculate annual cost when the rebuild or
 demolition cost is set

---
 src/structure.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.h b/src/structure.h
index 31187a2..ce3042d 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
-- 
2.43.0


From e0d2f75f3730a1471006e80503dc3ec070e96b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 08/58] fix: a structure removes its callbacks when it no
 longer needs them

Removing a component group from a structure left its callbacks installed and
didn't clear the structure's cached annual cost; destroying a structure left
callbacks which refer to it installed in its component groups and IM; and
re-filling an empty structure installed a second set of callbacks in the IM.
---
 src/structure.cpp | 19 ++++++++++++++++++-
 src/structure.h   |  3 ++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..26fa8af 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -24,6 +24,18 @@ namespace SLAT {
     {
         this->name = name;
     };
+
+    Structure::~Structure()
+    {
+        for (size_t i=0; i < components.size(); i++) {
+            // (Removing the callbacks may release the last other reference)
+            std::shared_ptr<CompGroup> cg = components[i]->first;
+            cg->remove_callbacks(components[i]->second);
+        }
+        if (im != NULL) {
+            im->remove_callbacks(im_callback_id);
+        }
+    };
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
@@ -43,8 +55,11 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im != NULL) {
+                im->remove_callbacks(im_callback_id);
+            }
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,7 +89,9 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index ce3042d..1ca314a 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure(); /**< Destructor; unregister callbacks */
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From 5ee2ec7f08fae801ccd867f33e84080f41484865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 09/58] fix: compare and update the integration statistics'
 maxima in one step

When two threads finished at about the same time, the smaller count could
overwrite the larger.
---
 src/maq.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..041c9f0 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -601,8 +601,8 @@ namespace SLAT {
                 }
 #pragma omp critical
                 stats.total_search_evals += r.evaluations;
-                if (stats.max_successful_search < r.evaluations) {
 #pragma omp critical
+                if (stats.max_successful_search < r.evaluations) {
                     stats.max_successful_search = r.evaluations;
                 }
                 if (std::isnan(r.a)) {
@@ -744,8 +744,8 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
-            if (counter > stats.max_successful_integration) {
 #pragma omp critical
+            if (counter > stats.max_successful_integration) {
                 stats.max_successful_integration = counter;
             }
             if (success) {
-- 
2.43.0


From 64abd9b33cfc83abc5d5f809afe9f48be8280d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 10/58] fix: initialise the context lock once

It was initialised by the first thread to use it while it held it, and again by
Initialise(), so that two threads could change the context at the same time.
---
 src/context.cpp | 11 +++++++++--
 src/context.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..a481270 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -5,9 +5,17 @@ namespace SLAT {
     std::shared_ptr<Context> Context::instance;
     omp_lock_t Context::lock;
 
+    // Initialise the lock before anything can use it.
+    static bool InitialiseLock(omp_lock_t *lock)
+    {
+        omp_init_lock(lock);
+        return true;
+    }
+    bool Context::lock_initialised = InitialiseLock(&Context::lock);
+
     void Context::Initialise(void)
     {
-        omp_init_lock(&Context::lock);
+        #pragma omp critical
         instance = std::make_shared<Context>();
     }
 
@@ -15,7 +23,6 @@ namespace SLAT {
     {
         #pragma omp critical
         if (instance == NULL) {
-            omp_init_lock(&Context::lock);
             instance = std::make_shared<Context>();
         }
         return instance;
diff --git a/src/context.h b/src/context.h
index 15c38c4..c15b23a 100644
--- a/src/context.h
+++ b/src/context.h
@@ -36,6 +36,7 @@ namespace SLAT {
         std::vector<std::shared_ptr<Context>> threads;
         static std::shared_ptr<Context> instance;
         static omp_lock_t lock;
+        static bool lock_initialised;
         friend class TempContext;
     };
 
-- 
2.43.0


From c3a616eb5ea622375619cc782d4f19b63bba22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 11/58] fix: don't assume all teams of threads have the same
 size

A context's list of threads was only ever sized for the first team it was used
in; a later, larger team referred to elements past its end.
---
 src/context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index a481270..fe07ad7 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -36,7 +36,7 @@ namespace SLAT {
         if (omp_get_active_level() > 0) {
             for (int i=0; i <= omp_get_active_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
+                if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
@@ -179,7 +179,7 @@ namespace SLAT {
 
         for (int i=0; i <= omp_get_active_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
+            if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
             if (instance == NULL) break;
             
-- 
2.43.0


From 1ec0213d12df0ae6a71bfcada3a227560b844a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 12/58] fix: threads of a team nested in a team of one have
 contexts of their own

omp_get_ancestor_thread_num() expects a nesting level which counts regions
executed by a single thread, but omp_get_active_level() doesn't count them. The
threads of such a team all used the same context.
---
 src/context.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index fe07ad7..136e003 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -34,7 +34,7 @@ namespace SLAT {
         std::shared_ptr<Context> instance = GetInstance();
         
         if (omp_get_active_level() > 0) {
-            for (int i=0; i <= omp_get_active_level(); i++) {
+            for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
                 if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
@@ -55,7 +55,7 @@ namespace SLAT {
     {
         std::stringstream msg;
         msg << "Thread Path: ";
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             msg << omp_get_ancestor_thread_num(i) << " ";
         }
         std::cerr << msg.str() << std::endl;
@@ -177,7 +177,7 @@ namespace SLAT {
             result << separator;
         }
 
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             separator = separator + "/";
             if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
-- 
2.43.0


From dd8f468a8a9e576c9834fd7b2f3ba497aa157ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 13/58] fix: initialise the caching module once, even if two
 threads try at once

---
 src/caching.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 36cb2ff..ed9e0d5 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -34,11 +34,11 @@ namespace SLAT {
              */
             void Init_Caching(void)
             {
-                static bool first_call = true;
-                if (first_call) {
+                static bool initialised = [] (void) {
                     omp_init_lock(&lock);
-                };
-                first_call = false;
+                    return true;
+                } ();
+                (void)initialised;
             }
 
             /**
-- 
2.43.0


From a9b9252a0b29bb2912e5b569c548e7905abf5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 14/58] fix: pass errors in parallel calculations on to the
 caller

An exception thrown by a calculation (such as the mismatch of fragility and
loss functions which BiLevelLossFn reports) within an OpenMP region terminated
the program instead of reaching the code which asked for the result.
---
 src/comp_group.cpp    |  7 +++++--
 src/parallel.h        | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/pyslatcore.cpp    |  5 ++++-
 src/relationships.cpp |  5 ++++-
 src/structure.cpp     |  9 +++++++--
 5 files changed, 62 insertions(+), 6 deletions(-)
 create mode 100644 src/parallel.h

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 3ff0941..603d6f9 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -11,6 +11,7 @@
  */
 
 #include "comp_group.h"
+#include "parallel.h"
 #include <vector>
 #include <gsl/gsl_deriv.h>
 #include <gsl/gsl_integration.h>
@@ -272,17 +273,19 @@ namespace SLAT {
      */
     LogNormalDist CompGroup::CostDist_IM(double im) {
         double E = NAN, sd_ln = NAN;
+        ParallelErrors errors;
 #pragma omp parallel sections
         {
 #pragma omp section
             {
-                E = E_cost_IM(im);
+                errors.Run([&] (void) { E = E_cost_IM(im); });
             }
 #pragma omp section
             {
-                sd_ln = SD_ln_cost_IM(im);
+                errors.Run([&] (void) { sd_ln = SD_ln_cost_IM(im); });
             }
         }
+        errors.Rethrow();
 
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);
     }
diff --git a/src/parallel.h b/src/parallel.h
new file mode 100644
index 0000000..449cbf6
--- /dev/null
+++ b/src/parallel.h
@@ -0,0 +1,42 @@
+/**
+ * @file   parallel.h
+ * 
+ * @brief  Support for parallel calculations.
+ * 
+ * This file part of SLAT (the Seismic Loss Assessment Tool).
+ */
+#ifndef _PARALLEL_H_
+#define _PARALLEL_H_
+
+#include <exception>
+
+namespace SLAT {
+    /**
+     * An exception which isn't caught inside the OpenMP region where it was
+     * thrown terminates the program. Use Run() for any calculation in a region
+     * which may throw, and Rethrow() after the region to pass the (first)
+     * exception on to the caller.
+     */
+    class ParallelErrors {
+    public:
+        template <class F> void Run(F calculation) {
+            try {
+                calculation();
+            } catch (...) {
+#pragma omp critical (SLAT_ParallelErrors)
+                if (!error) {
+                    error = std::current_exception();
+                }
+            }
+        };
+
+        void Rethrow(void) {
+            if (error) {
+                std::rethrow_exception(error);
+            }
+        };
+    private:
+        std::exception_ptr error; ///< The first exception caught
+    };
+}
+#endif
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..1b0edbf 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -1,5 +1,6 @@
 #include "caching.h"
 #include "maq.h"
+#include "parallel.h"
 #include "pyslatcore.h"
 #include "context.h"
 #include "loss_functions.h"
@@ -393,10 +394,12 @@ double EDP::get_lambda(double x)
 std::vector<double> EDP::get_lambda(std::vector<double> x) 
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = get_lambda(x[i]);
+        errors.Run([&] (void) { result[i] = get_lambda(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
diff --git a/src/relationships.cpp b/src/relationships.cpp
index c05fbce..b9bf0e7 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -16,6 +16,7 @@
 
 #include "relationships.h"
 #include "maq.h"
+#include "parallel.h"
 #include <string>
 #include <iostream>
 
@@ -310,10 +311,12 @@ namespace SLAT {
     std::vector<double> EDP::par_lambda(std::vector<double> args)
     {
         std::vector<double> result(args.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < args.size(); i++) {
-            result[i] = lambda(args[i]);
+            errors.Run([&] (void) { result[i] = lambda(args[i]); });
         }
+        errors.Rethrow();
         return result;
     }
     
diff --git a/src/structure.cpp b/src/structure.cpp
index 26fa8af..c9470d8 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -18,6 +18,7 @@
 #include "comp_group.h"
 #include "structure.h"
 #include "maq.h"
+#include "parallel.h"
 
 namespace SLAT {
     Structure::Structure(std::string name) : AnnualCost([this] (void) { return this->calc_AnnualCost(); })
@@ -101,10 +102,12 @@ namespace SLAT {
     {
         std::vector<LogNormalDist> dists(components.size());
         const size_t N = components.size();
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < N; i++) {
-            dists[i] = components[i]->first->CostDist_IM(im);
+            errors.Run([&] (void) { dists[i] = components[i]->first->CostDist_IM(im); });
         }
+        errors.Rethrow();
         return LogNormalDist::AddDistributions(dists);
     }
 
@@ -172,10 +175,12 @@ namespace SLAT {
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
     {
         std::vector<double> result(years.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < years.size(); i++) {
-            result[i] = E_cost(years[i], discount_rate);
+            errors.Run([&] (void) { result[i] = E_cost(years[i], discount_rate); });
         }
+        errors.Rethrow();
         return result;
     }
 
-- 
2.43.0


From e646b0044b5bc9e88093929779c7890bceb34a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 15/58] fix: close recorder and print files, so that failures
 to write them are reported

The files were never closed explicitly: buffered output was written when the file
object was discarded, where errors (such as a full disk) are silently ignored.
---
 src/SlatInterpreter.py | 2 +-
 src/pyslat.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..b7ac82a 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -440,7 +440,7 @@ class SlatInterpreter(slatParserListener):
                 f = open(destination, "a")
             else:
                 f = open(destination, "w")
-            with redirect_stdout(f):
+            with f, redirect_stdout(f):
                 print(message)
         else:
             print(message)
diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..4c4ffe7 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1687,7 +1687,7 @@ class recorder:
                 f = open(destination, "a")
             else:
                 f = open(destination, "w")
-            with redirect_stdout(f):
+            with f, redirect_stdout(f):
                 self.generate_output()
 
         else:
-- 
2.43.0


From 80702a3fe2337b65ae0162922dd0fad2f3dc2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 16/58] fix: a recorder without a file name prints to standard
 output

It failed with a TypeError instead, as the output path was made from None.
---
 src/pyslat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 4c4ffe7..c00e1e7 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1681,8 +1681,9 @@ class recorder:
     #  as required.
     def run(self):
         #print("RUN {}".format(self))
-        destination = full_output_path(self._options.get('filename'))
+        destination = self._options.get('filename')
         if destination != None:
+            destination = full_output_path(destination)
             if self._options.get('append'):
                 f = open(destination, "a")
             else:
-- 
2.43.0


From 975c9bd1a928fd7a51ff2ed40913cf8d330523ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 17/58] fix: pass errors in the list forms of queries on to the
 caller

As for par_lambda(): an exception which leaves an OpenMP region terminates the program.
---
 src/pyslatcore.cpp    | 20 +++++++++++++++-----
 src/relationships.cpp | 36 +++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 1b0edbf..e6790db 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -441,50 +441,60 @@ double EDP::X_at_exceedence(double im, double p)
 std::vector<double> EDP::bulk_Mean(std::vector<double> x)
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = Mean(x[i]);
+        errors.Run([&] (void) { result[i] = Mean(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
 std::vector<double> EDP::bulk_MeanLn(std::vector<double> x)
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = MeanLn(x[i]);
+        errors.Run([&] (void) { result[i] = MeanLn(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
 std::vector<double> EDP::bulk_Median(std::vector<double> x)
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = Median(x[i]);
+        errors.Run([&] (void) { result[i] = Median(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
 std::vector<double> EDP::bulk_SD_ln(std::vector<double> x)
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = SD_ln(x[i]);
+        errors.Run([&] (void) { result[i] = SD_ln(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
 std::vector<double> EDP::bulk_SD(std::vector<double> x)
 {
     std::vector<double> result(x.size());
+    SLAT::ParallelErrors errors;
 #pragma omp parallel for
     for (size_t i=0; i < x.size(); i++) {
-        result[i] = SD(x[i]);
+        errors.Run([&] (void) { result[i] = SD(x[i]); });
     }
+    errors.Rethrow();
     return result;
 }
 
diff --git a/src/relationships.cpp b/src/relationships.cpp
index b9bf0e7..4fad3e5 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -71,40 +71,48 @@ namespace SLAT {
     std::vector<double> IM::lambda(std::vector<double> x)
     {
         std::vector<double> result(x.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < x.size(); i++) {
-            result[i] = lambda(x[i]);
+            errors.Run([&] (void) { result[i] = lambda(x[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
     std::vector<double> IM::pCollapse(std::vector<double> im)
     {
         std::vector<double> result(im.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < im.size(); i++) {
-            result[i] = pCollapse(im[i]);
+            errors.Run([&] (void) { result[i] = pCollapse(im[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
     std::vector<double> IM::pDemolition(std::vector<double> im)
     {
         std::vector<double> result(im.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < im.size(); i++) {
-            result[i] = pDemolition(im[i]);
+            errors.Run([&] (void) { result[i] = pDemolition(im[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
     std::vector<double> IM::pRepair(std::vector<double> im)
     {
         std::vector<double> result(im.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i=0; i < im.size(); i++) {
-            result[i] = pRepair(im[i]);
+            errors.Run([&] (void) { result[i] = pRepair(im[i]); });
         }
+        errors.Rethrow();
         return result;
     }
     
@@ -328,10 +336,12 @@ namespace SLAT {
     std::vector<double> EDP::MeanLn(std::vector<double> base_values) const
     {
         std::vector<double> result(base_values.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i = 0; i < base_values.size(); i++) {
-            result[i] = MeanLn(base_values[i]);
+            errors.Run([&] (void) { result[i] = MeanLn(base_values[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
@@ -343,10 +353,12 @@ namespace SLAT {
     std::vector<double> EDP::Median(std::vector<double> base_values) const
     {
         std::vector<double> result(base_values.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i = 0; i < base_values.size(); i++) {
-            result[i] = Median(base_values[i]);
+            errors.Run([&] (void) { result[i] = Median(base_values[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
@@ -358,10 +370,12 @@ namespace SLAT {
     std::vector<double> EDP::Mean(std::vector<double> base_values) const
     {
         std::vector<double> result(base_values.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i = 0; i < base_values.size(); i++) {
-            result[i] = Mean(base_values[i]);
+            errors.Run([&] (void) { result[i] = Mean(base_values[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
@@ -373,10 +387,12 @@ namespace SLAT {
     std::vector<double> EDP::SD_ln(std::vector<double> base_values) const
     {
         std::vector<double> result(base_values.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i = 0; i < base_values.size(); i++) {
-            result[i] = SD_ln(base_values[i]);
+            errors.Run([&] (void) { result[i] = SD_ln(base_values[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
@@ -388,10 +404,12 @@ namespace SLAT {
     std::vector<double> EDP::SD(std::vector<double> base_values) const
     {
         std::vector<double> result(base_values.size());
+        ParallelErrors errors;
 #pragma omp parallel for
         for (size_t i = 0; i < base_values.size(); i++) {
-            result[i] = SD(base_values[i]);
+            errors.Run([&] (void) { result[i] = SD(base_values[i]); });
         }
+        errors.Rethrow();
         return result;
     }
 
-- 
2.43.0


From 3191a5727585dd3d8129042be407fe5e5b0a2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 18/58] fix: initialise the lock before clearing all caches

Clear_Caches() locked the registry's lock without initialising it; called
alongside the creation of the first cached function, the lock was then
initialised while held, and the registry changed while it was walked.
---
 src/caching.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/caching.cpp b/src/caching.cpp
index ed9e0d5..27f7755 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -66,6 +66,7 @@ namespace SLAT {
          * Clear all (registered) function caches.
          */
         void Clear_Caches(void) {
+            Private::Init_Caching();
             omp_set_lock(&Private::lock);
             for (auto it=Private::caches.begin(); it != Private::caches.end(); it++) {
                 it->second();
-- 
2.43.0


From 512038f20e502df804e9b9b0917a0e01d1834f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 19/58] fix: running out of memory no longer leaves a cache
 locked

---
 src/caching.h | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index 5ed382e..4ceda54 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -215,9 +215,16 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            std::shared_ptr<WAITING> waiting = std::make_shared<WAITING>();
+                            std::shared_ptr<WAITING> waiting;
+                            try {
+                                waiting = std::make_shared<WAITING>();
+                                in_process[v] = waiting;
+                            } catch (...) {
+                                // Out of memory; don't keep the lock
+                                omp_unset_lock(&lock);
+                                throw;
+                            }
                             omp_set_lock(&waiting->lock);
-                            in_process[v] = waiting;
                             int generation = times_cleared;
                             omp_unset_lock(&lock);
 
@@ -264,7 +271,15 @@ namespace SLAT {
                                 raise(SIGINT);
                             }
 
-                            cache[v] = result; // Save the result
+                            try {
+                                cache.emplace(v, result); // Save the result
+                            } catch (...) {
+                                // Out of memory; nothing has been saved
+                                in_process.erase(v);
+                                omp_unset_lock(&waiting->lock);
+                                omp_unset_lock(&lock);
+                                throw;
+                            }
 
                             /*
                              * Remove the 'in_process' entry, and release its
@@ -280,7 +295,14 @@ namespace SLAT {
                      * At this point, the value is in the cache; grab it before
                      * releasing the object lock, then return the value.
                      */
-                    T result = cache[v];
+                    T result;
+                    try {
+                        result = cache[v];
+                    } catch (...) {
+                        // Out of memory; don't keep the lock
+                        omp_unset_lock(&lock);
+                        throw;
+                    }
                     omp_unset_lock(&lock);
                     //Context::PopText();
                     return result;
@@ -523,7 +545,15 @@ namespace SLAT {
                         }
                         
                         // Save the result, and release the 'waiting_lock' to anyone waiting
-                        cached_value = result;
+                        try {
+                            cached_value = result;
+                        } catch (...) {
+                            // Out of memory; nothing has been saved
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            throw;
+                        }
                         cache_valid = true;
                         in_process = false;
                         omp_unset_lock(&waiting_lock);
@@ -534,7 +564,14 @@ namespace SLAT {
                  * At this point, we have the lock, and the value is stored in
                  * the cache. Release the lock and return the cached value.
                  */
-                T result = cached_value;
+                T result;
+                try {
+                    result = cached_value;
+                } catch (...) {
+                    // Out of memory; don't keep the lock
+                    omp_unset_lock(&lock);
+                    throw;
+                }
                 omp_unset_lock(&lock);
                 //Context::PopText();
                 return result;
-- 
2.43.0


From 950a40399e733e240e344199abb302daf1f1e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 20/58] fix: running out of memory no longer leaves the context
 locked

---
 src/context.cpp | 41 ++++++++++++++++++++++++++++++++---------
 src/context.h   |  2 +-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 136e003..7c62639 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,4 +1,5 @@
 #include "context.h"
+#include "parallel.h"
 #include <sstream>
 
 namespace SLAT {
@@ -21,21 +22,42 @@ namespace SLAT {
 
     std::shared_ptr<Context> Context::GetInstance()
     {
+        ParallelErrors errors; // Exceptions can't leave the critical section
         #pragma omp critical
-        if (instance == NULL) {
-            instance = std::make_shared<Context>();
-        }
+        errors.Run([] (void) {
+                if (instance == NULL) {
+                    instance = std::make_shared<Context>();
+                }
+            });
+        errors.Rethrow();
         return instance;
     }
 
-     std::shared_ptr<Context> Context::LockContext()
+     // Releases a lock when it goes out of scope, unless it's been told to keep it.
+     class LockHolder {
+     public:
+         LockHolder(omp_lock_t *lock) : lock(lock) {};
+         ~LockHolder() { if (lock) omp_unset_lock(lock); };
+         void Keep(void) { lock = NULL; };
+     private:
+         omp_lock_t *lock;
+     };
+
+     std::shared_ptr<Context> Context::LockContext(bool create)
      {
         omp_set_lock(&Context::lock);
+        LockHolder holder(&Context::lock);
         std::shared_ptr<Context> instance = GetInstance();
         
         if (omp_get_active_level() > 0) {
             for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
+                if (!create &&
+                    (instance->threads.size() <= (size_t)thread_num ||
+                     instance->threads[thread_num] == NULL)) {
+                    instance = NULL;
+                    break;
+                }
                 if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
@@ -48,6 +70,7 @@ namespace SLAT {
                 instance = temp;//                instance = instance->threads[thread_num];
             }
         }
+        holder.Keep(); // The caller will release the lock
         return instance;
     }
 
@@ -97,6 +120,7 @@ namespace SLAT {
     void Context::PushText(std::function<void (std::ostream &)>f)
     {
         std::shared_ptr<Context> instance = LockContext();        
+        LockHolder holder(&Context::lock);
         //DumpContext();
         instance->text_stack.push_back(f);
         instance->threads.resize(0);
@@ -121,7 +145,6 @@ namespace SLAT {
         //     std::cerr << msg.str() << std::endl;
         // }
         //DumpContext();
-        omp_unset_lock(&Context::lock);
     }
     
     void Context::PushText(std::string text)
@@ -133,7 +156,8 @@ namespace SLAT {
     
     void Context::PopText(void)
     {
-        std::shared_ptr<Context> instance = LockContext();        
+        std::shared_ptr<Context> instance = LockContext(false); // Mustn't throw: called by a destructor
+        LockHolder holder(&Context::lock);
         //DumpContext();
         // {
         //     std::shared_ptr<Context> context = Context::GetInstance();
@@ -149,13 +173,12 @@ namespace SLAT {
         //     std::cerr << msg.str() << std::endl;
         // }
         
-        if (instance->text_stack.size() > 0) {
+        if (instance != NULL && instance->text_stack.size() > 0) {
             (void)instance->text_stack.pop_back();
             instance->threads.resize(0);
         } else { 
             std::cerr << "stack already empty" << std::endl;
         }
-        omp_unset_lock(&Context::lock);
     }
     
     std::string Context::GetText() 
@@ -166,6 +189,7 @@ namespace SLAT {
 
         std::string separator = "/";
         omp_set_lock(&Context::lock);
+        LockHolder holder(&Context::lock);
         std::stringstream result;
         // std::cerr << "GetText --> " << instance->text_stack.size() << std::endl;
         
@@ -192,7 +216,6 @@ namespace SLAT {
                 result << separator;
             }
         }
-        omp_unset_lock(&Context::lock);
         // std::cerr << "< GetText" << std::endl;
         //DumpContext();
         return result.str();
diff --git a/src/context.h b/src/context.h
index c15b23a..6625112 100644
--- a/src/context.h
+++ b/src/context.h
@@ -30,7 +30,7 @@ namespace SLAT {
         static void DumpContext(void);
     private:
         std::string Dump(std::string prefix);
-        static std::shared_ptr<Context> LockContext();
+        static std::shared_ptr<Context> LockContext(bool create=true);
         static std::shared_ptr<Context> GetInstance();
         std::list<std::function<void (std::ostream &)>> text_stack;
         std::vector<std::shared_ptr<Context>> threads;
-- 
2.43.0


From 0a5a42b6c0a6e977548785885cd425537cf149e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 21/58] fix: errors in the library reach Python as exceptions

---
 src/pyslatcore.i | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..72f508a 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -4,6 +4,23 @@
 #include <cmath>
 #include "pyslatcore.h"
 %}
+%include <exception.i>
+
+// Errors in the library become Python exceptions, rather than ending the process:
+%exception {
+    try {
+        $action
+    } catch (const std::bad_alloc &e) {
+        SWIG_exception(SWIG_MemoryError, e.what());
+    } catch (const std::invalid_argument &e) {
+        SWIG_exception(SWIG_ValueError, e.what());
+    } catch (const std::exception &e) {
+        SWIG_exception(SWIG_RuntimeError, e.what());
+    } catch (...) {
+        SWIG_exception(SWIG_RuntimeError, "unknown error");
+    }
+}
+
 %include <std_string.i>
 %include <std_vector.i>
 %include <std_list.i>
-- 
2.43.0


From d5dc704d5ebdadd9277bd05e1d49f52999f5965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 22/58] fix: refuse parameters no deterministic function can be
 made from

---
 src/functions.cpp  | 30 ++++++++++++++++++++++++------
 src/pyslatcore.cpp | 25 +++++++++++++------------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..09f3315 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -10,6 +10,7 @@
  * ©2015 Canterbury University
  */
 #include <sstream>
+#include <stdexcept>
 #include <cmath>
 #include <vector>
 #include <functional>
@@ -186,6 +187,21 @@ namespace SLAT {
     }
 
 
+/*
+ * The GSL ends the process if it's given data it can't interpolate.
+ */
+    static void check_data(const double x[], size_t size)
+    {
+        if (size < 2) {
+            throw std::invalid_argument("At least two points are required");
+        }
+        for (size_t i=1; i < size; i++) {
+            if (!(x[i - 1] < x[i])) {
+                throw std::invalid_argument("x values must be strictly increasing");
+            }
+        }
+    }
+
 /*
  * LinearInterpolatedFn constructor
  *
@@ -194,6 +210,7 @@ namespace SLAT {
     LinearInterpolatedFn::LinearInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
+        check_data(x, size);
         accel = gsl_interp_accel_alloc();
         interp = gsl_spline_alloc (gsl_interp_linear, size);
         gsl_spline_init(interp, x, y, size);
@@ -234,17 +251,18 @@ namespace SLAT {
     LogLogInterpolatedFn::LogLogInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
-        interp = gsl_spline_alloc (gsl_interp_linear, size);
-
         // Make a copy of the data in log scale for the interpolator:
-        double logx[size];
-        double logy[size];
+        std::vector<double> logx(size);
+        std::vector<double> logy(size);
         for (unsigned int i=0; i < size; i++) {
             logx[i] = log(x[i]);
             logy[i] = log(y[i]);
         }
-        gsl_spline_init(interp, logx, logy, size);
+        check_data(logx.data(), size);
+
+        accel = gsl_interp_accel_alloc();
+        interp = gsl_spline_alloc (gsl_interp_linear, size);
+        gsl_spline_init(interp, logx.data(), logy.data(), size);
     }
 
 /*
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index e6790db..5dc3a58 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -108,14 +108,12 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     switch (t) {
     case PLC:
     case NLH:
-        std::cout << "Must have exactly one list of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly one list of data.");
 
     case LIN:
     {
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LinearInterpolatedFn>(x.data(), y.data(), x.size());
@@ -123,14 +121,13 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     }
     case LOGLOG:
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());
         break;
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -147,6 +144,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     switch (t) {
     case PLC:
     {
+        if (params.size() < 2) {
+            throw std::invalid_argument("A power law requires two parameters.");
+        }
         double a = params[0];
         double b = params[1];
         result = std::make_shared<SLAT::PowerLawParametricCurve>(a, b);
@@ -155,6 +155,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     case NLH:
     {
         // std::cout << "[NLH]" << std::endl;
+        if (params.size() < 3) {
+            throw std::invalid_argument("A hyperbolic function requires three parameters.");
+        }
         double alpha = params[0];
         double IM_asy = params[1];
         double v_asy = params[2];
@@ -162,13 +165,11 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
         break;
     }
     case LIN:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly two lists of data.");
     case LOGLOG:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly two lists of data.");
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
-- 
2.43.0


From 21c5c234cfcd55da1fea8f6a1ba0f7c5d1503f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 23/58] fix: refuse combinations of mu and sigma which are not
 supported

---
 src/functions.cpp  | 5 +++++
 src/pyslatcore.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 09f3315..8471ca1 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -331,6 +331,11 @@ namespace SLAT {
                                          std::shared_ptr<DeterministicFn> sigma_function, S_TYPE s_type)
         : ProbabilisticFn(mu_function, sigma_function)
     {
+        if (s_type == SIGMA_X && m_type != MEAN_X) {
+            // sigma(ln(x)) would depend on mean(x), and mean(x) on sigma(ln(x))
+            throw std::invalid_argument("Unsupported combination of mu and sigma.");
+        }
+
         switch (m_type) {
         case MEAN_LN_X:
             mean_lnX = [this] (double x) -> double { return this->mu_function->ValueAt(x); };
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 5dc3a58..04669f5 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -557,7 +557,7 @@ LogNormalDist *MakeLogNormalDist(double mu, LOGNORMAL_MU_TYPE mu_type,
     } else if (mu_type == MEAN_X && sigma_type == SD_X) {
         dist = SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(mu, sigma);
     } else {
-        std::cout << "Unsupported combination of mu and sigma." << std::endl;
+        throw std::invalid_argument("Unsupported combination of mu and sigma.");
     }
 
     std::shared_ptr<SLAT::LogNormalDist> temp = std::make_shared<SLAT::LogNormalDist>(dist);
-- 
2.43.0


From 5852379223cf69f71334671b9407292b27ca91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 24/58] fix: a probability function of an invalid type is not
 defined

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index c00e1e7..bd023ea 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -476,11 +476,11 @@ class probfn:
                                                   mu_func[0],
                                                   sigma_func[1].function(),
                                                   sigma_func[0]) 
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         if id != None:
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
 
     
     ## Return the probfn object with the corresponding id.
-- 
2.43.0


From 4619ee5d732adc33d9d5984103ac5b797024c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 25/58] fix: leave the check of a component group's IM to the
 structure

---
 src/pyslat.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index bd023ea..3498170 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1296,14 +1296,9 @@ class structure:
     #
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
+        # Raises an exception if the group is tied to a different IM:
         self._structure.AddCompGroup(group.function())
-        if self._im == None:
-            self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
+        self._im = group.get_IM()
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From 77167b741fffa75f09ee8e8390174478695506b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 26/58] fix: a structure command which fails defines no
 structure

---
 src/SlatInterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index b7ac82a..bc6ee2b 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -371,11 +371,12 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree prodcued by slatParser#structure_command.
     def exitStructure_command(self, ctx:slatParser.Structure_commandContext):
         id = ctx.ID().getText();
-        s = pyslat.structure(id)
+        s = pyslat.structure(None)
         groups = []
         for g in ctx.id_list().ID():
             groups.append(g.getText())
             s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))
+        pyslat.structure.defs[id] = s
         print("Create structure {} from {}.".format(id, groups));
         
     ## Exit a parse tree prodcued by slatParser#rebuild_cost_command.
-- 
2.43.0


From f11f19f5071547db6eb887080a3dd03038c1e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 27/58] fix: the script form of interpolated deterministic
 functions

---
 src/SlatInterpreter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index bc6ee2b..04eb210 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -88,7 +88,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +96,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -116,6 +113,14 @@ class SlatInterpreter(slatParserListener):
             y_values.append(pair[1])
         self._stack.append([x_values, y_values])
 
+    ## Enter a parse tree produced by slatParser#linear
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.enterLoglog_args(ctx)
+
+    ## Exit a parse tree produced by slatParser#linear
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.exitLoglog_args(ctx)
+
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
         if ctx.STRING():
-- 
2.43.0


From 72245c9697882ed401c310f1778d6f778088c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 28/58] fix: querying a structure without component groups no
 longer crashes

---
 src/structure.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index c9470d8..6da6087 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -49,6 +49,9 @@ namespace SLAT {
     
     double Structure::pdf(double im) 
     {
+        if (this->im == NULL) {
+            return NAN;
+        }
         return TotalCost(im).get_mean_X() * std::abs(this->im->DerivativeAt(im));
     };
 
@@ -133,6 +136,9 @@ namespace SLAT {
 
     LogNormalDist Structure::TotalCost(double im)
     {
+        if (this->im == NULL) {
+            return LogNormalDist();
+        }
         LogNormalDist cost_repair = CostNC(im);
         LogNormalDist cost_demolition = demolition_cost;
         LogNormalDist cost_collapse = rebuild_cost;
@@ -186,6 +192,9 @@ namespace SLAT {
 
     std::pair<LogNormalDist, LogNormalDist> Structure::DeaggregatedCost(double im)
     {
+        if (this->im == NULL) {
+            return std::make_pair(LogNormalDist(), LogNormalDist());
+        }
         LogNormalDist cost_nc = CostNC(im);
         LogNormalDist cost_c = rebuild_cost;
         LogNormalDist cost_demo = demolition_cost;
-- 
2.43.0


From f452e0300119f8154ba3cc16be191d680edd1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 29/58] fix: the list forms of queries of an EDP

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 3498170..9bfe52a 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -778,7 +778,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -787,7 +787,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -805,7 +805,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From 48b3227a0b1a16852af51434d0e6c70616104e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 30/58] fix: make the queries of a probability function
 available to Python

---
 src/pyslatcore.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 72f508a..08f3231 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -65,6 +65,17 @@ public:
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
 DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params);
 
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+};
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                                   LOGNORMAL_MU_TYPE mu_type,
                                                   const DeterministicFn &sigma_function,
-- 
2.43.0


From d3e0e7674c0ae444b11f015b64c130b7828db8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 31/58] fix: objects report the current definitions of what
 they are built on

---
 src/pyslat.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 9bfe52a..bc0ed68 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -20,6 +20,14 @@ def eprint(*args, **kwargs):
 
 pyslatcore.Initialise()
 
+## The object which has replaced another.
+#  When an identifier is redefined, objects built on the previous definition use
+#  the new one from then on.
+def current(object):
+    while object != None and object._redefined_as != None:
+        object = object._redefined_as
+    return object
+
 def ClearCaches():
     detfn.defs = dict()
     probfn.defs = dict()
@@ -558,6 +566,9 @@ class im:
     ## A dictionary of all im objects, indexed by name.
     defs = dict()
 
+    ## The object which has replaced this one, if it has been redefined.
+    _redefined_as = None
+
     ## @var _id
     # A programmer-supplied string identifying the object.
     # This is used to access the im by id, and included in 
@@ -591,6 +602,7 @@ class im:
             old = im.lookup(id)
             if old:
                 im.defs[id]._func.replace(self._func)
+                old._redefined_as = self
             im.defs[id] = self
 
     ## Return the 'max' value, which is used by the GUI as a hint
@@ -695,6 +707,9 @@ class edp:
     ## A dictionary of all edp objects, indexed by name.
     defs = dict()
 
+    ## The object which has replaced this one, if it has been redefined.
+    _redefined_as = None
+
     ## @var _id
     # A programmer-supplied string identifying the object.
     # This is used to access the edp by id, and included in 
@@ -730,6 +745,7 @@ class edp:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
+                old._redefined_as = self
         edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
@@ -759,7 +775,7 @@ class edp:
 
     ## Return the IM driving the EDP.
     def get_IM(self):
-        return self._im
+        return current(self._im)
 
     ## Return the probabilitic function describing the EDP|IM relationship.
     def function(self):
@@ -847,6 +863,9 @@ class fragfn:
     ## A dictionary of all fragfn objects, indexed by name.
     defs = dict()
 
+    ## The object which has replaced this one, if it has been redefined.
+    _redefined_as = None
+
     ## @var _id
     # A programmer-supplied string identifying the object.
     # This is used to access the edp by id, and included in 
@@ -871,6 +890,7 @@ class fragfn:
             old = fragfn.lookup(id)
             if old:
                 fragfn.defs[id]._func.replace(self._func)
+                old._redefined_as = self
             fragfn.defs[id] = self
             
 
@@ -1140,15 +1160,15 @@ class compgroup:
 
     ## Return the im driving the EDP affecting the components.
     def get_IM(self):
-        return self._edp.get_IM()
+        return current(self._edp).get_IM()
 
     ## Return the fragility function.
     def fragfn(self):
-        return self._frag
+        return current(self._frag)
 
     ## Return the number of damage states.
     def size(self):
-        return self._frag.size()
+        return self.fragfn().size()
         
     ## Return the underlying pyslatcore::CompGroup.
     def function(self):
@@ -1280,7 +1300,7 @@ class structure:
 
     ## Return the im connected to the structure.
     def get_IM(self):
-        return self._im
+        return current(self._im)
 
     ## Return the pdf|im for the structure:
     def pdf(self, im):
-- 
2.43.0


From 4d84d5d36cda46a9964e3356c2c678eddb1fec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 32/58] fix: refuse to redefine a fragility function as one
 which does not exist

---
 src/pyslat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index bc0ed68..d176bcf 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -889,6 +889,8 @@ class fragfn:
         if id != None:
             old = fragfn.lookup(id)
             if old:
+                if self._func == None:
+                    raise ValueError("Cannot redefine the fragility function '{}'.".format(id))
                 fragfn.defs[id]._func.replace(self._func)
                 old._redefined_as = self
             fragfn.defs[id] = self
-- 
2.43.0


From 361d0e12a7a1aa1fe74e7600e4065278d248f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 33/58] fix: a component group with an unknown delay function
 is refused

---
 src/SlatInterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 04eb210..c3e760d 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -363,6 +363,9 @@ class SlatInterpreter(slatParserListener):
         if len(floats) > 1:
             delay_adj_factor = float(floats[1].getText())
 
+        if delay_id and pyslat.lossfn.lookup(delay_id) == None:
+            raise ValueError("Component group '{}' refers to an unknown loss function '{}'.".format(compgroup_id, delay_id))
+
         pyslat.compgroup(compgroup_id,
                          pyslat.edp.lookup(edp_id),
                          pyslat.fragfn.lookup(frag_id),
-- 
2.43.0


From 1d0f0f12e0052f392a40423ce48b60eed8a28b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 34/58] fix: using an undefined variable is an error

---
 src/SlatInterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index c3e760d..ec85e5d 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -145,6 +145,8 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#var_ref.
     def exitVar_ref(self, ctx:slatParser.Var_refContext):
         variable = ctx.ID().getText()
+        if not variable in self._variables:
+            raise ValueError("Undefined variable: '{}'".format(variable))
         value = self._variables.get(variable)
         self._stack.append(value)
 
-- 
2.43.0


From 8124394f1b70b431c998173dbbdb6203d2a6ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 35/58] fix: leaving a scope removes its own context text, not
 another thread's

Threads which aren't part of an OpenMP team share the outermost context, and
removed each other's texts. The text left behind refers to an object which may
no longer exist.
---
 src/context.cpp | 33 +++++++++++++++++++++------------
 src/context.h   | 16 +++++++++-------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 7c62639..fdee127 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -98,11 +98,11 @@ namespace SLAT {
         prefix = prefix + "    ";
         msg << prefix;
 
-        for (std::list<std::function<void (std::ostream &)>>::iterator i=this->text_stack.begin();
+        for (auto i=this->text_stack.begin();
              i != this->text_stack.end();
              i++)
         {
-            (*i)(msg);
+            i->second(msg);
             msg << " + ";
         }
         msg << std::endl;
@@ -117,12 +117,14 @@ namespace SLAT {
         return msg.str();
     }
 
-    void Context::PushText(std::function<void (std::ostream &)>f)
+    int Context::PushText(std::function<void (std::ostream &)>f)
     {
         std::shared_ptr<Context> instance = LockContext();        
         LockHolder holder(&Context::lock);
         //DumpContext();
-        instance->text_stack.push_back(f);
+        static int last_id = 0; // (Protected by the lock)
+        int id = ++last_id;
+        instance->text_stack.push_back(std::make_pair(id, f));
         instance->threads.resize(0);
         // {
         //     instance = Context::GetInstance();
@@ -145,16 +147,21 @@ namespace SLAT {
         //     std::cerr << msg.str() << std::endl;
         // }
         //DumpContext();
+        return id;
     }
     
-    void Context::PushText(std::string text)
+    int Context::PushText(std::string text)
     {
-        PushText([text] (std::ostream &o) {
+        return PushText([text] (std::ostream &o) {
                 o << text;
             });
     }
     
-    void Context::PopText(void)
+    /*
+     * The text to be removed needn't be the last one: threads which aren't part
+     * of a team (e.g., std::thread) share the outermost context.
+     */
+    void Context::PopText(int id)
     {
         std::shared_ptr<Context> instance = LockContext(false); // Mustn't throw: called by a destructor
         LockHolder holder(&Context::lock);
@@ -174,7 +181,9 @@ namespace SLAT {
         // }
         
         if (instance != NULL && instance->text_stack.size() > 0) {
-            (void)instance->text_stack.pop_back();
+            instance->text_stack.remove_if([id] (const std::pair<int, std::function<void (std::ostream &)>> &entry) {
+                    return entry.first == id;
+                });
             instance->threads.resize(0);
         } else { 
             std::cerr << "stack already empty" << std::endl;
@@ -193,11 +202,11 @@ namespace SLAT {
         std::stringstream result;
         // std::cerr << "GetText --> " << instance->text_stack.size() << std::endl;
         
-        for (std::list<std::function<void (std::ostream &)>>::iterator i=instance->text_stack.begin();
+        for (auto i=instance->text_stack.begin();
              i != instance->text_stack.end();
              i++)
         {
-            (*i)(result);
+            i->second(result);
             result << separator;
         }
 
@@ -208,11 +217,11 @@ namespace SLAT {
             if (instance == NULL) break;
             
             // std::cerr << "GetText -----> " << instance->text_stack.size() << std::endl;
-            for (std::list<std::function<void (std::ostream &)>>::iterator j=instance->text_stack.begin();
+            for (auto j=instance->text_stack.begin();
                  j != instance->text_stack.end();
                  j++)
             {
-                (*j)(result);
+                j->second(result);
                 result << separator;
             }
         }
diff --git a/src/context.h b/src/context.h
index 6625112..cccc07c 100644
--- a/src/context.h
+++ b/src/context.h
@@ -24,15 +24,15 @@ namespace SLAT {
         static void Initialise();
         static std::string GetText();
     private:
-        static void PushText(std::string text);
-        static void PushText(std::function<void (std::ostream &)>);;
-        static void PopText(void);
+        static int PushText(std::string text);
+        static int PushText(std::function<void (std::ostream &)>);;
+        static void PopText(int id); ///< Removes the text PushText() returned the id of
         static void DumpContext(void);
     private:
         std::string Dump(std::string prefix);
         static std::shared_ptr<Context> LockContext(bool create=true);
         static std::shared_ptr<Context> GetInstance();
-        std::list<std::function<void (std::ostream &)>> text_stack;
+        std::list<std::pair<int, std::function<void (std::ostream &)>>> text_stack;
         std::vector<std::shared_ptr<Context>> threads;
         static std::shared_ptr<Context> instance;
         static omp_lock_t lock;
@@ -43,16 +43,18 @@ namespace SLAT {
     class TempContext {
     public:
         TempContext(std::string text) {
-            Context::PushText(text);
+            id = Context::PushText(text);
         };
 
         TempContext(std::function<void (std::ostream &)>f) {
-            Context::PushText(f);
+            id = Context::PushText(f);
         };
 
         ~TempContext() {
-            Context::PopText();
+            Context::PopText(id);
         }
+    private:
+        int id; ///< Identifies this object's text
     };
 }
 #endif
-- 
2.43.0


From 13206f8f5c548f33b3317013a46ed128cf9a7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 36/58] fix: leaving a scope no longer ends the process when
 memory runs out

PopText() is called by a destructor. It might still allocate, where threads
which are in no common team have teams of different sizes.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index fdee127..4ffd141 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -58,7 +58,7 @@ namespace SLAT {
                     instance = NULL;
                     break;
                 }
-                if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
+                if (create && instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
-- 
2.43.0


From 91eb190777e9e00678e645c78ac56afd0e4dcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 37/58] fix: running out of memory while registering with or
 replacing an object

The lock stayed held, and the registration or some of the registrations
were left half made.
---
 src/replaceable.h | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index f45fae7..30b9902 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -82,6 +82,17 @@ namespace SLAT {
             static std::atomic<int> id_counter(0);
             return ++id_counter;
         }
+
+        /**
+         * Holds the lock, and releases it however the scope is left.
+         */
+        class LockHolder {
+        public:
+            LockHolder(omp_lock_t &lock) : lock(lock) { omp_set_lock(&lock); };
+            ~LockHolder() { omp_unset_lock(&lock); };
+        private:
+            omp_lock_t &lock;
+        };
     public:
         Replaceable()  { 
             omp_init_lock(&lock);
@@ -90,37 +101,40 @@ namespace SLAT {
         int add_callbacks(std::function<void (void)> changed,
                           std::function<void (std::shared_ptr<T>)> replace)
         {
-            omp_set_lock(&lock);
+            // (If memory runs out, nothing must have been added)
+            callback_struct entry = {changed, replace};
+            LockHolder holder(lock);
             int result = next_id();
-            callbacks[result] = {changed, replace};
-            omp_unset_lock(&lock);
+            callbacks.emplace(result, std::move(entry));
             return result;
         }
 
         void remove_callbacks(int id) {
-            omp_set_lock(&lock);
+            LockHolder holder(lock);
             callbacks.erase(id);
-            omp_unset_lock(&lock);
         }
 
         void notify_change(void) {
-            omp_set_lock(&lock);
+            LockHolder holder(lock);
             for (auto it=callbacks.begin(); it != callbacks.end(); it++) {
                 it->second.changed_cb();
             }
-            omp_unset_lock(&lock);
         }
 
         void replace(std::shared_ptr<T> replacement) {
             if (replacement.get() == this) return; // Nothing to do
 
-            omp_set_lock(&lock);
-            replacement->callbacks.insert(callbacks.begin(), callbacks.end());
+            LockHolder holder(lock);
+
+            // (If memory runs out, nothing must have been replaced)
+            std::map<int, callback_struct> all = replacement->callbacks;
+            all.insert(callbacks.begin(), callbacks.end());
+            replacement->callbacks.swap(all);
+            
             for (auto it=callbacks.begin(); it != callbacks.end();) {
                 it->second.replace_cb(replacement);
                 it = callbacks.erase(it);
             }
-            omp_unset_lock(&lock);
         }
     };
 }
-- 
2.43.0


From f52db74c7a13f8ed51a365d95415844d1793de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 38/58] fix: running out of memory while a cache registers
 itself

The lock of the list of caches stayed held, and the entry without a
function to call was left in the list.
---
 src/caching.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 27f7755..6225f85 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -47,7 +47,13 @@ namespace SLAT {
              */
             void Add_Cache(void *cache, std::function<void (void)> clear_func) {
                 omp_set_lock(&lock);
-                caches[cache] = clear_func;
+                try {
+                    caches.emplace(cache, std::move(clear_func));
+                } catch (...) {
+                    // Out of memory; nothing has been added
+                    omp_unset_lock(&lock);
+                    throw;
+                }
                 omp_unset_lock(&lock);
             }
 
-- 
2.43.0


From 33d2773e7c6ceafc1a9ea81eafa6273f17f87365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 39/58] fix: a probabilistic function which could not be
 completed stayed registered

If memory runs out in the constructor the destructor isn't called, and the
mean's function would have gone on telling an object which doesn't exist.
---
 src/functions.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8471ca1..f71704d 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -311,14 +311,20 @@ namespace SLAT {
                 this->notify_change();
             });
 
-        sigma_function_callback_id = sigma_function->add_callbacks(
-            [this] (void) {
-                this->notify_change();
-            },
-            [this] (std::shared_ptr<DeterministicFn> new_sigma_function) {
-                this->sigma_function = new_sigma_function;
-                this->notify_change();
-            });
+        try {
+            sigma_function_callback_id = sigma_function->add_callbacks(
+                [this] (void) {
+                    this->notify_change();
+                },
+                [this] (std::shared_ptr<DeterministicFn> new_sigma_function) {
+                    this->sigma_function = new_sigma_function;
+                    this->notify_change();
+                });
+        } catch (...) {
+            // The destructor won't be called
+            mu_function->remove_callbacks(mu_function_callback_id);
+            throw;
+        }
     }
 
     ProbabilisticFn::~ProbabilisticFn() 
-- 
2.43.0


From 3aedd8522492eb07b6ef2a4308dbe5c8bd69354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 40/58] fix: an EDP which could not be completed stayed
 registered

See the previous commit.
---
 src/relationships.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 4fad3e5..115bdff 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -267,16 +267,22 @@ namespace SLAT {
                 this->notify_change();
             });
 
-        dependent_rate_callback_id = dependent_rate->add_callbacks(
-            [this] (void) {
-                this->lambda.ClearCache();
-                this->notify_change();
-            },
-            [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
-                this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
-                this->notify_change();
-            });
+        try {
+            dependent_rate_callback_id = dependent_rate->add_callbacks(
+                [this] (void) {
+                    this->lambda.ClearCache();
+                    this->notify_change();
+                },
+                [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
+                    this->lambda.ClearCache();
+                    this->dependent_rate = new_dependent_rate;
+                    this->notify_change();
+                });
+        } catch (...) {
+            // The destructor won't be called
+            base_rate->remove_callbacks(base_rate_callback_id);
+            throw;
+        }
     }
 
     double EDP::calc_lambda(double min_y) 
-- 
2.43.0


From 7c22cda84a85f8e0ae7f4e629545a3af133c4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 41/58] fix: a component group which could not be completed
 stayed registered

See the previous two commits.
---
 src/comp_group.cpp | 19 ++++++++++++++++++-
 src/comp_group.h   | 11 +++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 603d6f9..8e46324 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -79,6 +79,19 @@ namespace SLAT {
          count(count),
          cost_adjustment_factor(cost_adj),
          delay_adjustment_factor(delay_adj)
+    {
+        try {
+            AddCallbacks();
+        } catch (...) {
+            RemoveCallbacks(); // The destructor won't be called
+            throw;
+        }
+    };
+
+    /*
+     * Register with everything this depends on.
+     */
+    void CompGroup::AddCallbacks(void)
     {
         /*
          * When the EDP changes or is replaced, clear the cached values.
@@ -210,7 +223,11 @@ namespace SLAT {
      */
     CompGroup::~CompGroup()
     {
-            
+        RemoveCallbacks();
+    };
+
+    void CompGroup::RemoveCallbacks(void)
+    {
         edp->remove_callbacks(edp_callback_id);
         frag_fn->remove_callbacks(frag_fn_callback_id);
         
diff --git a/src/comp_group.h b/src/comp_group.h
index 1835ccb..02773d9 100644
--- a/src/comp_group.h
+++ b/src/comp_group.h
@@ -268,25 +268,28 @@ namespace SLAT {
          * ID returned when installing a callback for the EDP function. When the
          * EDP is changed or replaced, clear the caches.
          */
-        int edp_callback_id;
+        int edp_callback_id = 0;
 
         /**
          * ID returned when installing a callback for the fragility function. When the
          * fragility function is changed or replaced, clear the caches.
          */
-        int frag_fn_callback_id;
+        int frag_fn_callback_id = 0;
 
         /**
          * ID returned when installing a callback for the cost function. When the
          * cost function is changed or replaced, clear the caches.
          */
-        int cost_fn_callback_id;
+        int cost_fn_callback_id = 0;
 
         /**
          * ID returned when installing a callback for the delay function. When the
          * delay function is changed or replaced, clear the caches.
          */
-        int delay_fn_callback_id;
+        int delay_fn_callback_id = 0;
+
+        void AddCallbacks(void);    ///< Register with the EDP and the functions
+        void RemoveCallbacks(void); ///< Undo what AddCallbacks() has done
         
         /*
          * Functions used to calculate cached values 
-- 
2.43.0


From f8ac569f06d700e7d69630ec1e8c5a4419f7e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 42/58] fix: running out of memory while adding a component
 group

The structure had already registered with the intensity measure, or with
the group, which hadn't become a member.
---
 src/structure.cpp | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 6da6087..dce59a4 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -58,23 +58,13 @@ namespace SLAT {
 
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
-        if (components.size() == 0) {
-            if (im != NULL) {
-                im->remove_callbacks(im_callback_id);
-            }
-            im = cg->getIM();
-            im_callback_id = im->add_callbacks(
-                [this] (void) {
-                    this->Clear_Cache();
-                },
-                [this] (std::shared_ptr<IM> new_im) {
-                    this->Clear_Cache();
-                    this->im = new_im;
-                });
-        }
-        if (cg->getIM() != im) {
+        std::shared_ptr<IM> new_im = cg->getIM();
+        if (components.size() != 0 && new_im != im) {
             throw std::invalid_argument("WRONG IM");
         }
+
+        // (If memory runs out, nothing must have been changed)
+        components.reserve(components.size() + 1);
         std::shared_ptr<CG_ENTRY> entry = std::make_shared<CG_ENTRY>(cg, 0);
         entry->second = cg->add_callbacks(
             [this] (void) {
@@ -84,6 +74,27 @@ namespace SLAT {
                 this->Clear_Cache();
                 entry->first = new_cg;
             });
+        if (components.size() == 0) {
+            int new_id;
+            try {
+                new_id = new_im->add_callbacks(
+                    [this] (void) {
+                        this->Clear_Cache();
+                    },
+                    [this] (std::shared_ptr<IM> new_im) {
+                        this->Clear_Cache();
+                        this->im = new_im;
+                    });
+            } catch (...) {
+                cg->remove_callbacks(entry->second);
+                throw;
+            }
+            if (im != NULL) {
+                im->remove_callbacks(im_callback_id);
+            }
+            im = new_im;
+            im_callback_id = new_id;
+        }
         components.push_back(entry);
         this->Clear_Cache();
     }
-- 
2.43.0


From 93f39d70e8d26f3aa156696e3d14e4bf399d6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 43/58] fix: results cached with previous integration settings
 were still returned

---
 src/maq.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index 041c9f0..1784f7e 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -19,6 +19,7 @@
 #include <gsl/gsl_deriv.h>
 #include "maq.h"
 #include "context.h"
+#include "caching.h"
 
 using namespace SLAT;
 using namespace SLAT::Integration;
@@ -97,13 +98,24 @@ namespace SLAT {
         double IntegrationSettings::tolerance = TOLERANCE_DEFAULT;
         IntegrationSettings::METHOD_TYPE  IntegrationSettings::integration_method = IntegrationSettings::METHOD_DEFAULT;
         
+        /*
+         * Results which have been cached were calculated with the previous
+         * settings, and must be re-evaluated.
+         */
+        template <typename T> static void Change_Setting(T &setting, T value)
+        {
+            if (setting != value) {
+                setting = value;
+                Caching::Clear_Caches();
+            }
+        }
+
         void IntegrationSettings::Reset(void)
         {
-            IntegrationSettings::Use_Default_Tolerance();
-            IntegrationSettings::tolerance = TOLERANCE_DEFAULT;
-            IntegrationSettings::integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
-            IntegrationSettings::integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
-            IntegrationSettings::integration_method = METHOD_DEFAULT;
+            Change_Setting(tolerance, double(TOLERANCE_DEFAULT));
+            Change_Setting(integration_eval_limit, (unsigned int)INTEGRATION_EVAL_LIMIT_DEFAULT);
+            Change_Setting(integration_search_limit, (unsigned int)INTEGRATION_SEARCH_LIMIT_DEFAULT);
+            Change_Setting(integration_method, METHOD_TYPE(METHOD_DEFAULT));
         }
 
         unsigned int IntegrationSettings::Get_Integration_Eval_Limit(void)
@@ -128,18 +140,18 @@ namespace SLAT {
 
         void IntegrationSettings::Use_Default_Tolerance() 
         {
-            tolerance = TOLERANCE_DEFAULT;
+            Change_Setting(tolerance, double(TOLERANCE_DEFAULT));
         }
 
         void IntegrationSettings::Use_Default_Integration_Eval_Limit() 
         {
-            integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
+            Change_Setting(integration_eval_limit, (unsigned int)INTEGRATION_EVAL_LIMIT_DEFAULT);
         }
 
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
-                tolerance = tol;
+                Change_Setting(tolerance, tol);
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set tolerance to " << tol
                                         << "; must be > 0.0.";
@@ -149,7 +161,7 @@ namespace SLAT {
         void IntegrationSettings::Set_Integration_Eval_Limit(unsigned int evals)
         {
             if (evals > 0) {
-                integration_eval_limit = evals;
+                Change_Setting(integration_eval_limit, evals);
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set integration eval limit to " << evals
                                         << "; must be > 0.0.";
@@ -159,7 +171,7 @@ namespace SLAT {
         void IntegrationSettings::Set_Integration_Search_Limit(unsigned int evals)
         {
             if (evals > 0) {
-                integration_search_limit = evals;
+                Change_Setting(integration_search_limit, evals);
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set integration search limit to " << evals
                                         << "; must be > 0.0.";
@@ -168,7 +180,7 @@ namespace SLAT {
         
         void IntegrationSettings::Set_Integration_Method(METHOD_TYPE method)
         {
-            IntegrationSettings::integration_method = method;
+            Change_Setting(integration_method, method);
         }
 /*
  * Functions for mapping between the x and t domains:
-- 
2.43.0


From 1b2139acf57854d3339f7d89c916ea4942e34c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 44/58] fix: integration command took the tolerance from the
 number of iterations

---
 src/SlatInterpreter.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index ec85e5d..58dfb83 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -486,41 +486,48 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#integration_command.
     def exitIntegration_command(self, ctx:slatParser.Integration_commandContext):
-        if (ctx.integration_search_option()):
-            if (ctx.integration_search_option().BINARY()):
+        # The values given as variables or as Python expressions are on the
+        # stack, in the order in which they were given. Take all of them before
+        # changing any of the settings:
+        search_option = ctx.integration_search_option()
+        search_method = None
+        if (search_option):
+            if (search_option.BINARY()):
                 search_method = pyslat.INTEGRATION_METHOD.BINARY_SUBDIVISION
-            elif ctx.integration_search_option().REVBIN():
+            elif search_option.REVBIN():
                 search_method = pyslat.INTEGRATION_METHOD.REVERSE_BINARY_SUBDIVISION
-            elif ctx.integration_search_option().LOWREV():
+            elif search_option.LOWREV():
                 search_method = pyslat.INTEGRATION_METHOD.LOW_FIRST_REVERSE_BINARY_SUBDIVISION
-            elif ctx.integration_search_option().SCATTERED():
+            elif search_option.SCATTERED():
                 search_method = pyslat.INTEGRATION_METHOD.SCATTERED
-            elif ctx.integration_search_option().DIRECTED():
+            elif search_option.DIRECTED():
                 search_method = pyslat.INTEGRATION_METHOD.DIRECTED
             else:
                 raise ValueError("Unrecognised search algorithm: " +
-                                 ctx.integration_search_option().getText())
-            pyslat.Set_Integration_Method(search_method)
+                                 search_option.getText())
 
-            if ctx.integration_search_option().INTEGER():
-                pyslat.Set_Integration_Search_Limit(ctx.integration_search_option().INTEGER().getText())
+            if search_option.INTEGER():
+                search_limit = int(search_option.INTEGER().getText())
             else:
-                pyslat.Set_Integration_Search_Limit(self._stack.pop())
+                search_limit = int(self._stack.pop())
 
         method = ctx.integration_method()
         if method.MAQ():
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
         
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
+
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
-        
+        if search_method is not None:
+            pyslat.Set_Integration_Method(search_method)
+            pyslat.Set_Integration_Search_Limit(search_limit)
 
     ## Exit a parse tree produced by slatParser#recorder_command.
     def exitRecorder_command(self, ctx:slatParser.Recorder_commandContext):
-- 
2.43.0


From 842f33d962e0fa2ef30ef52fa47d630a55692980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 45/58] fix: logging to stderr could not be switched off once
 it had been switched on again

Switching it on did not remember the sink, so that switching it on twice wrote every message twice, and switching it off did nothing.
---
 src/pyslatcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 04669f5..62133fd 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -32,7 +32,7 @@ void LogToStdErr(bool flag)
 {
     if (flag) {
         if (std_error_sink == NULL) {
-            boost::shared_ptr<logging::sinks::sink> k = logging::add_console_log(std::cerr);
+            std_error_sink = logging::add_console_log(std::cerr);
         }
     } else {
         if (std_error_sink != NULL) {
-- 
2.43.0


From 63b80e7038958029fc51348abadb4a4b86daa25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 46/58] fix: messages were written to stdout when logging was
 switched off

---
 src/pyslatcore.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 62133fd..39bf39a 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -14,6 +14,12 @@ namespace logging = boost::log;
 boost::shared_ptr<logging::sinks::sink> std_error_sink;
 boost::shared_ptr<logging::sinks::sink> file_sink;
 
+/* Without any sinks, Boost.Log would write messages to stdout. */
+static void EnableLogging(void)
+{
+    logging::core::get()->set_logging_enabled(std_error_sink != NULL || file_sink != NULL);
+}
+
 void Initialise(void)
 {
     SLAT::Context::Initialise();
@@ -26,6 +32,7 @@ void SetLogFile(std::string path)
         logging::core::get()->remove_sink(file_sink);
     } 
     file_sink = logging::add_file_log(path);
+    EnableLogging();
 }
 
 void LogToStdErr(bool flag)
@@ -40,6 +47,7 @@ void LogToStdErr(bool flag)
             std_error_sink = NULL;
         }
     }
+    EnableLogging();
 }
 
 
-- 
2.43.0


From 6d1b609690e80bab4b770239ee6f6398f8374585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 47/58] fix: calculations failed when the log file could not be
 opened

---
 src/pyslatcore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 39bf39a..034a970 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <set>
 #include <boost/log/sinks/text_ostream_backend.hpp>
+#include <boost/log/utility/exception_handler.hpp>
 #include <boost/log/utility/setup/console.hpp>
 using namespace std;
 namespace logging = boost::log;
@@ -31,7 +32,10 @@ void SetLogFile(std::string path)
     if (file_sink != NULL) {
         logging::core::get()->remove_sink(file_sink);
     } 
-    file_sink = logging::add_file_log(path);
+    auto sink = logging::add_file_log(path);
+    /* Messages which can't be written are no reason for calculations to fail. */
+    sink->set_exception_handler(logging::make_exception_suppressor());
+    file_sink = sink;
     EnableLogging();
 }
 
-- 
2.43.0


From 215cdbce551ab952d2342107124b1da0857123b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:16 +0000
Subject: [PATCH 48/58] fix: debugging output was written to stdout

Scripts print their results there.
---
 src/maq.cpp       | 1 -
 src/structure.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index 1784f7e..931c938 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -633,7 +633,6 @@ namespace SLAT {
             double fb = integrand(x_from_t(b))/(b*b);
 
             if (std::isnan(fa)) {
-                std::cout << "fa is NAN" << std::endl;
                 BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; fa is NAN";
 #pragma omp critical
                 stats.nans++;
diff --git a/src/structure.cpp b/src/structure.cpp
index dce59a4..3a8e863 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -103,7 +103,6 @@ namespace SLAT {
     {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
-                std::cout << "REMOVING " << components[i]->first << std::endl;
                 cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
                 this->Clear_Cache();
-- 
2.43.0


From ccf53ded8e02e7bbde1d306e29961e7c697c8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 49/58] fix: description of a deterministic function did not
 say which one it was

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index d176bcf..d6b471a 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -427,10 +427,10 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
-                                            self._type,
-                                            self._parameters))
+        return(("Deterministic Function '{}', of type '{}', " +
+                "from parameters {}.").format(self._id, 
+                                              self._type,
+                                              self._parameters))
 
 ## Represents a probabilistic function.
 #
-- 
2.43.0


From f63e57d8a2a35fde24afab95e29f7ff5c1641227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 50/58] fix: plot_max could not be asked of an engineering
 demand parameter

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index d6b471a..591de54 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -740,7 +740,7 @@ class edp:
             self._func = MakeCompoundEDP(im.function(), fn.function(), 
                                          fn2.function(), "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
-- 
2.43.0


From c50dbbb50ab6c92e95549845e6916b0d1518c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 51/58] fix: the deagg recorder called a method which does not
 exist

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 591de54..77d825c 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1617,11 +1617,11 @@ class recorder:
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
+                        values = self._function.DeaggregatedCost(x)
                         nc = values[0]
                         c = values[1]
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
+                            line, 
                             nc.get_mean_X(), nc.get_sigma_lnX(), 
                             c.get_mean_X(), c.get_sigma_lnX())
                     elif not self._columns == None:
-- 
2.43.0


From 43dce2d4c0ce060930be2f678e8f4eb07e373648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 52/58] fix: structcost recorders could not print mean_ln_x or
 median_x, except for annual costs

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 77d825c..d0cba60 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1812,9 +1812,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y in ('mean_ln_x', 'mean_ln'):
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y in ('median_x', 'median'):
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1860,9 +1860,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y in ('mean_ln_x', 'mean_ln'):
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y in ('median_x', 'median'):
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1901,9 +1901,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y in ('mean_ln_x', 'mean_ln'):
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y in ('median_x', 'median'):
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
-- 
2.43.0


From 58624bdeaa363d5b108a62f17c1d02c55ac895be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 53/58] fix: headings of recorders ran into one another, or
 were cut off, where names are long

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index d0cba60..c9e9754 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1794,7 +1794,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1842,7 +1842,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>20}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>19}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1883,7 +1883,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for f in fates:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(f, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(f, y))
             print(line)
 
             for x in self._at:
@@ -1938,7 +1938,7 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15.6}{:>15.6}".format(self._function.get_IM().id(), "pdf"))
+        print("{:>15}{:>15}".format(self._function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
-- 
2.43.0


From fc54f57407582f8eb8c5a33d4a85f06b5f82106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 54/58] fix: edpim recorders left out the columns of
 probabilities, though not their headings

---
 src/pyslat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index c9e9754..8000dff 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1591,6 +1591,8 @@ class recorder:
                         yvals.append(self._function.SD_ln(self._at))
                     elif y == 'sd_x':
                         yvals.append(self._function.SD(self._at))
+                    elif isinstance(y, numbers.Number):
+                        yvals.append([self._function.X_at_exceedence(x, y) for x in self._at])
                 for x, y in zip(self._at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
-- 
2.43.0


From 77010cdedab0ad8ff3671ec8efba7c58e0fc62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 55/58] fix: annual structcost recorders of only a placement or
 only a spread had a column twice, or were refused; --cols was ignored

---
 src/SlatInterpreter.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 58dfb83..ec78937 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -597,23 +597,22 @@ class SlatInterpreter(slatParserListener):
                 
             elif ctx.ANNUAL_FLAG():
                 options['structcost-type'] = 'annual'
-                cols = []
+                named = []
                 for key, value in self._stack.pop().items():
                     if key == 'mu':
                         if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
-                            c = "mean_ln_x"
+                            named.append("mean_ln_x")
                         elif value == pyslat.LOGNORMAL_MU_TYPE.MEAN_X:
-                            c = "mean_x"
+                            named.append("mean_x")
                         elif value == pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X:
-                            c = "median_x"
-                        cols.append(c)
+                            named.append("median_x")
                     elif key == 'sd':
                         if value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X:
-                            c = "sd_ln_x"
+                            named.append("sd_ln_x")
                         elif value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_X:
-                            c = "sd_x"
-                        cols.append(c)
-                cols.sort()
+                            named.append("sd_x")
+                if named:
+                    cols = sorted(named)
                 
         id = ctx.ID().getText()
 
-- 
2.43.0


From 051cb3796b52baa76206790094e14390096ef8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:10 +0000
Subject: [PATCH 56/58] fix: recorders showed the previous definition of what
 has been redefined, where everything else uses the new one

---
 src/pyslat.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 8000dff..a86694d 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -24,7 +24,7 @@ pyslatcore.Initialise()
 #  When an identifier is redefined, objects built on the previous definition use
 #  the new one from then on.
 def current(object):
-    while object != None and object._redefined_as != None:
+    while getattr(object, '_redefined_as', None) != None:
         object = object._redefined_as
     return object
 
@@ -1095,6 +1095,11 @@ class compgroup:
     ## A dictionary of all fragfn objects, indexed by name.
     defs = dict()
 
+    ## @var _redefined_as
+    #  The component group with the same identifier which has been defined since,
+    #  if any.
+    _redefined_as = None
+
     ## @var _id
     # A programmer-supplied string identifying the object.
     # This is used to access the component group by id, and included in 
@@ -1147,6 +1152,7 @@ class compgroup:
             old = compgroup.lookup(id)
             if old:
                 compgroup.defs[id]._func.replace(self._func)
+                old._redefined_as = self
             compgroup.defs[id] = self
 
     ## Return the compgroup object with the corresponding id.
@@ -1432,8 +1438,8 @@ class recorder:
     #  The type of recorder, as a string. This corresponds to 'recorder_type'
     #  in the SLAT interpreter.
 
-    ## @var _function
-    #  The underlying object being recorded. This will vary based on the
+    ## @var _recorded
+    #  The underlying object which the recorder was given. This will vary based on the
     #  recorder type.
 
     ## @var _options
@@ -1462,7 +1468,7 @@ class recorder:
         print("at: {}".format(at))
 
         self._type = type
-        self._function = function
+        self._recorded = function
         self._options = options
         self._at = at
         if at != None:
@@ -1491,6 +1497,11 @@ class recorder:
             
         print(self)
 
+    ## The object being recorded: what is in force, if it has been redefined.
+    @property
+    def _function(self):
+        return current(self._recorded)
+
     ## Return the recorder object with the corresponding id.
     #  @param id The identifier provided to the constructor of a structure object.
     #  @return The recorder with the corresponding identifier.
-- 
2.43.0


From b6286a02991aef90ad49a0d848e46837a429c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:10 +0000
Subject: [PATCH 57/58] fix: dsedp and dsim recorders had headings for the
 damage states there were when they were defined

---
 src/pyslat.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index a86694d..caee07f 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1479,12 +1479,7 @@ class recorder:
            and at==None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
-        if (type =='dsedp' or type == 'dsim') and columns == None:
-            columns = []
-            for i in range(function.size()):
-                columns.append("DS{}".format(i + 1))
-            columns.append("E(DS)")
-        elif (type == 'probfn' or type == 'edpim') and columns == None:
+        if (type == 'probfn' or type == 'edpim') and columns == None:
             columns = ['mean_ln_x', 'sd_ln_x']
         elif (type == 'costedp' or type =='costim' \
               or type == 'delayedp' or type == 'delayim' \
@@ -1571,6 +1566,9 @@ class recorder:
             if y_label:
                 if not isinstance(y_label, list):
                     y_label = [y_label];
+            elif (self._type == 'dsedp' or self._type == 'dsim') and self._columns == None:
+                y_label = ["DS{}".format(i + 1) for i in range(self._function.size())]
+                y_label.append("E(DS)")
             else:
                 y_label = self._columns
                       
-- 
2.43.0


From 21c8f689944760bec756db9a29b81a3a1688c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:46 +0000
Subject: [PATCH 58/58] fix: SetCollapse and SetDemolition described a
 distribution which had been refused

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index caee07f..a6d12d5 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -661,8 +661,8 @@ class im:
     # @param collapse A deterministic function representing the 
     #        probability of collapse given IM.
     def SetCollapse(self, collapse):
-        self._collapse = collapse
         self._func.SetCollapse(collapse)
+        self._collapse = collapse
 
     ## Return the rate of collapse
     # Returns the rate of collapse of the underlying im object, 
@@ -683,8 +683,8 @@ class im:
     # @param collapse A deterministic function representing the 
     #        probability of demolition given IM.
     def SetDemolition(self, demolition):
-        self._demolition = demolition
         self._func.SetDemolition(demolition)
+        self._demolition = demolition
 
     ## Return the rate of demolition
     # Returns the rate of demolition of the underlying im object, 
-- 
2.43.0

