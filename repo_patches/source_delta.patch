From 32d90963171e40808328e4a0237172802ccdfe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 01/40] fix: percent_decode() reads past the end of strings
 shorter than 3 characters

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..b933940 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -459,7 +459,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (encoded.size() < 3 || i > encoded.size() - 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From 87abfd903548097776efe49a849d75d7161d5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/40] fix: uri constructor validated the path instead of the
 query

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index b933940..c5243f6 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From 51643f19f83ddb8242b6911c9f0a8ac4a21d324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 03/40] fix: remove_dot_segments removed two segments when the
 last one is empty

---
 src/cosim/uri.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index c5243f6..92c96f1 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -309,8 +309,6 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
         while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
         if (!outputBuffer.empty()) outputBuffer.pop_back();
     };
-- 
2.43.0


From d41e32b85858304d11fc4eed02cd08f3a906b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 04/40] fix: an input could be connected to both a simulator
 and a function output

---
 src/cosim/execution.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..24d2967 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -268,13 +268,23 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input);
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
-- 
2.43.0


From 6493ab329c615d03d32e796bbcda260546567631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 05/40] fix: execution::connect_variables() accepted variables
 of different types

---
 src/cosim/execution.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 24d2967..9fa0560 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -267,7 +267,9 @@ private:
     {
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
-
+        if (output.type != input.type) {
+            throw std::logic_error("Error connecting variables: Type mismatch");
+        }
         if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
-- 
2.43.0


From 672a008b13a6ef1866ec2ae7f5edf52a5a2c23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 06/40] fix: execution::is_running() stayed true after
 simulate_until() failed

---
 src/cosim/execution.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 9fa0560..ac80351 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -146,12 +146,17 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
-        timer_.start(currentTime_);
-        duration stepSize;
-        do {
-            stepSize = step();
-            timer_.sleep(currentTime_);
-        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
+        try {
+            timer_.start(currentTime_);
+            duration stepSize;
+            do {
+                stepSize = step();
+                timer_.sleep(currentTime_);
+            } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
+        } catch (...) {
+            stopped_ = true;
+            throw;
+        }
         bool isStopped = stopped_;
         stopped_ = true;
         return !isStopped;
-- 
2.43.0


From 57b34f1dafabbdadb3730782c76af16eac2d368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 07/40] fix: setting an output modifier on a variable that is
 not exposed modified another one

---
 src/cosim/slave_simulator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..1756f34 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -145,7 +145,14 @@ struct get_variable_cache
 
     void set_modifier(value_reference r, std::function<T(T, duration)> m)
     {
-        modifiers[indexMapping[r]] = m;
+        const auto it = indexMapping.find(r);
+        if (it == indexMapping.end()) {
+            std::ostringstream oss;
+            oss << "Variable with reference " << r
+                << " not found in exposed variables. Variables must be exposed before calling set_modifier()";
+            throw std::out_of_range(oss.str());
+        }
+        modifiers[it->second] = m;
     }
 
     void run_modifiers(duration deltaT)
-- 
2.43.0


From 606c968169b207ec1df81e4546665edc93808185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 08/40] fix: an exception from a slave during initialisation
 terminated the process

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 55 +++++++++++++-------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..5aa494e 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -151,32 +151,23 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([&](simulator& sim) {
+            sim.setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_each_simulator([](simulator& sim) {
+                sim.do_iteration();
+            });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([](simulator& sim) {
+            sim.start_simulation();
+        });
         calculate_and_transfer();
     }
 
@@ -273,6 +264,34 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Performs the given operation on all simulators in parallel, waits for
+    // all of them to finish, and throws an exception if any of them failed.
+    template<typename Operation>
+    void for_each_simulator(Operation operation)
+    {
+        std::mutex m;
+        bool failed = false;
+        std::stringstream errMessages;
+        for (auto& s : simulators_) {
+            auto& info = s.second;
+            pool_.submit([&] {
+                try {
+                    operation(*info.sim);
+                } catch (std::exception& ex) {
+                    std::lock_guard<std::mutex> lck(m);
+                    errMessages
+                        << info.sim->name() << ": "
+                        << ex.what() << '\n';
+                    failed = true;
+                }
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        if (failed) {
+            throw error(make_error_code(errc::simulation_error), errMessages.str());
+        }
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From 82018c17e2e0b650d4458d54a9f5563d4cfcab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/40] fix: disconnect_variable() ignored connections from
 functions

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 5aa494e..4aa77e6 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,18 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                update_function_decimation_factor(f.second);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From fa295b6ed53b6cfb0b9ff9e2434b52f7483d59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 10/40] fix: function decimation factors were not updated when
 their targets changed

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 4aa77e6..5e3f69c 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -238,6 +238,7 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        for (auto& f : functions_) update_function_decimation_factor(f.second);
     }
 
 
@@ -321,6 +322,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From 734483333799ec77242c632f91dc80af87d8642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 11/40] fix: a stop request right after simulate_until_async()
 could get lost

---
 src/cosim/execution.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index ac80351..4aa1db7 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -146,6 +146,21 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        return run_until(endTime);
+    }
+
+    std::future<bool> simulate_until_async(std::optional<time_point> endTime)
+    {
+        // This must be reset before the function returns, so that a subsequent
+        // call to stop_simulation() doesn't get lost.
+        stopped_ = false;
+        return std::async(std::launch::async, [this, endTime]{
+            return run_until(endTime);
+        });
+    }
+
+    bool run_until(std::optional<time_point> endTime)
+    {
         try {
             timer_.start(currentTime_);
             duration stepSize;
@@ -162,13 +177,6 @@ public:
         return !isStopped;
     }
 
-    std::future<bool> simulate_until_async(std::optional<time_point> endTime)
-    {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
-    }
-
     void stop_simulation()
     {
         stopped_ = true;
-- 
2.43.0


From 7fbbd2e7f310aef2fbebe80a5fdd5b8fc6c960c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 12/40] fix: execution::connect_variables() accepted
 nonexistent function variable instances

---
 src/cosim/execution.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 4aa1db7..5bd0029 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -326,6 +326,15 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        if (std::get<variable_type>(io.type) != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        if (variable.reference.group_instance < 0 ||
+            variable.reference.group_instance >= std::get<int>(group.count) ||
+            variable.reference.io_instance < 0 ||
+            variable.reference.io_instance >= std::get<int>(io.count)) {
+            throw std::out_of_range("Error connecting function variable: Invalid instance index");
+        }
     }
 
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
-- 
2.43.0


From 8aa05e92dc9a7902e350a671245557c22ee11c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 13/40] fix: thread_pool::wait_for_tasks_to_finish() could hang
 with several waiting threads

---
 src/cosim/utility/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..2e6b9fd 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -54,7 +54,7 @@ private:
                 lck.lock();
                 pending_tasks_--;
                 lck.unlock();
-                cv_finished_.notify_one();
+                cv_finished_.notify_all();
             } else if (done_)
                 break;
         }
-- 
2.43.0


From e80538b757e1c443ecaa15582916b67b58e62982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 14/40] fix: destroying a file_lock could release the lock
 another thread had just acquired on the same file

---
 src/cosim/utility/concurrency.cpp | 61 +++++++++++++++++++------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..45001ca 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -5,9 +5,11 @@
  */
 #include "cosim/utility/concurrency.hpp"
 
+#include <algorithm>
 #include <cassert>
+#include <iterator>
+#include <list>
 #include <system_error>
-#include <vector>
 
 #ifdef _WIN32
 #    include <windows.h>
@@ -230,41 +232,52 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
+    // NOTE: Closing a file releases all locks the process has on it, regardless
+    // of which file descriptor was used to acquire them.  Therefore, at any
+    // time there must be at most one `file_mutex` object per file, and such an
+    // object must be destroyed before a new one can be created for the same
+    // file.  This is why destruction takes place with the cache mutex locked.
     struct file_mutex_cache_entry
     {
         cosim::filesystem::path path;
-        std::weak_ptr<file_mutex> fileMutex;
+        std::unique_ptr<file_mutex> fileMutex;
+        int useCount = 0;
     };
-    static std::vector<file_mutex_cache_entry> fileMutexCache;
-    static std::mutex cacheMutex;
-    std::shared_ptr<file_mutex> fileMutex;
+    struct file_mutex_cache
+    {
+        std::list<file_mutex_cache_entry> entries;
+        std::mutex mutex;
+    };
+    static const auto cache = std::make_shared<file_mutex_cache>();
 
     // If the file already exists, we need to check whether it is already
     // associated with a mutex.  We do so by performing a linear search for
-    // an element corresponding to the given path in `fileMutexes`
-    // (cleaning up any expired elements along the way).
-    std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+    // an element corresponding to the given path.
+    std::unique_lock<std::mutex> guard(cache->mutex);
+    auto entry = cache->entries.end();
     if (cosim::filesystem::exists(path)) {
-        for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
-            if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
-                    assert(!fileMutex);
-                    fileMutex = std::move(fm);
-                }
-                ++it;
-            } else {
-                it = fileMutexCache.erase(it);
-            }
-        }
+        entry = std::find_if(
+            cache->entries.begin(),
+            cache->entries.end(),
+            [&](const auto& e) { return cosim::filesystem::equivalent(path, e.path); });
     }
 
     // If no element corresponding to the given path was found, create one.
-    if (!fileMutex) {
-        fileMutex = std::make_shared<file_mutex>(path);
-        fileMutexCache.push_back({cosim::filesystem::canonical(path), fileMutex});
+    if (entry == cache->entries.end()) {
+        auto fileMutex = std::make_unique<file_mutex>(path);
+        cache->entries.push_back({cosim::filesystem::canonical(path), std::move(fileMutex), 0});
+        entry = std::prev(cache->entries.end());
     }
-
-    return fileMutex;
+    ++entry->useCount;
+    guard.unlock();
+
+    // The last user removes the element again.
+    return std::shared_ptr<file_mutex>(
+        entry->fileMutex.get(),
+        [cache = cache, entry](file_mutex*) {
+            std::lock_guard<std::mutex> guard(cache->mutex);
+            if (--entry->useCount == 0) cache->entries.erase(entry);
+        });
 }
 
 
-- 
2.43.0


From 6cf6435e8c0c310904713edffeae92a8cfc1e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 15/40] fix: temporary_file_cache granted write access while
 read-only access was still in use

---
 src/cosim/file_cache.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..ff31bcf 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,12 @@ public:
         }
         const auto path = root_->path() / percent_encode(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        // Read-only ownership is shared by all who have it.
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 021c21d7f8fa7b7e936a910b82462720f1f07374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 16/40] fix: temporary_file_cache used directories outside the
 cache for keys like ".."

---
 src/cosim/file_cache.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index ff31bcf..951c6ee 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -84,7 +84,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
@@ -99,7 +99,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
 
         // Read-only ownership is shared by all who have it.
         auto ownership = owns.ro.lock();
@@ -130,6 +130,16 @@ private:
         return it->second;
     }
 
+    // The extension ensures that keys like "", "." and ".." also get a
+    // subdirectory of their own.
+    cosim::filesystem::path subdir_path(std::string_view key) const
+    {
+        auto p = root_->path();
+        p /= percent_encode(key);
+        p += ".data";
+        return p;
+    }
+
     std::shared_ptr<utility::temp_dir> root_;
     std::unordered_map<std::string, subdirectory_ownership> ownerships_;
 };
-- 
2.43.0


From 234c4dc57472d2adf0bc03a83832ddd8828552ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 17/40] fix: overriding a variable during a step read the
 simulator's state unsynchronised

override_manipulator queues overrides under a lock so that they can be given
while a simulation is running, but looked up the variable with
manipulable::model_description(), which reads state that the simulation
thread modifies while the simulator is stepped. Look it up in a copy made
when the simulator is added instead.
---
 include/cosim/manipulator/override_manipulator.hpp | 2 ++
 src/cosim/manipulator/override_manipulator.cpp     | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cosim/manipulator/override_manipulator.hpp b/include/cosim/manipulator/override_manipulator.hpp
index 99b180d..71c1c0a 100644
--- a/include/cosim/manipulator/override_manipulator.hpp
+++ b/include/cosim/manipulator/override_manipulator.hpp
@@ -15,6 +15,7 @@
 #include <mutex>
 #include <unordered_map>
 #include <variant>
+#include <vector>
 
 namespace cosim
 {
@@ -56,6 +57,7 @@ private:
             scenario::string_modifier>& m);
 
     std::unordered_map<simulator_index, manipulable*> simulators_;
+    std::unordered_map<simulator_index, std::vector<variable_description>> variables_;
     std::vector<scenario::variable_action> actions_;
     std::mutex lock_;
 };
diff --git a/src/cosim/manipulator/override_manipulator.cpp b/src/cosim/manipulator/override_manipulator.cpp
index f3a42e6..fac2004 100644
--- a/src/cosim/manipulator/override_manipulator.cpp
+++ b/src/cosim/manipulator/override_manipulator.cpp
@@ -57,11 +57,13 @@ void override_manipulator::simulator_added(
     time_point /*currentTime*/)
 {
     simulators_[index] = sim;
+    variables_[index] = sim->model_description().variables;
 }
 
 void override_manipulator::simulator_removed(simulator_index index, time_point)
 {
     simulators_.erase(index);
+    variables_.erase(index);
 }
 
 void override_manipulator::step_commencing(time_point /*currentTime*/)
@@ -124,8 +126,9 @@ void override_manipulator::add_action(
         scenario::boolean_modifier,
         scenario::string_modifier>& m)
 {
-    auto sim = simulators_.at(index);
-    auto causality = find_variable_causality(sim->model_description().variables, type, variable);
+    // This may be called while the simulator is being stepped in another thread,
+    // so we must not access the simulator itself here.
+    auto causality = find_variable_causality(variables_.at(index), type, variable);
     bool input = is_input(causality);
 
     std::lock_guard<std::mutex> lock(lock_);
-- 
2.43.0


From 57d9bdae0fe32eba18bb4f8f0c4399e94a445a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 18/40] fix: scenario events due on the same step were executed
 out of order

The events were kept in an unordered map, so of several events due on one
step which affect the same variable, an earlier one could be executed last
and stay in effect. Execute them in order of their times.
---
 src/cosim/manipulator/scenario_manager.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..fc42e1b 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,8 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <algorithm>
+#include <map>
 
 namespace cosim
 {
@@ -34,7 +36,9 @@ public:
         state.startTime = currentTime;
         state.endTime = s.end;
 
-        for (const auto& event : s.events) {
+        auto events = s.events;
+        std::stable_sort(events.begin(), events.end(), [](const auto& a, const auto& b) { return a.time < b.time; });
+        for (const auto& event : events) {
             const auto index = static_cast<int>(state.remainingEvents.size());
             state.remainingEvents[index] = event;
         }
@@ -110,8 +114,9 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
-        std::unordered_map<int, scenario::event> executedEvents;
+        // Events by index, in order of time.
+        std::map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
         bool running = false;
@@ -211,7 +216,7 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup(const std::map<int, scenario::event>& executedEvents)
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-- 
2.43.0


From 52d3696607d8c303f1ffc2ca0cbc1f11731d5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 19/40] fix: aborting a finished scenario reset its variables
 again

The variables are reset when the scenario finishes; resetting them once more
in abort_scenario() could remove modifiers that had been installed since.
---
 src/cosim/manipulator/scenario_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index fc42e1b..2be8781 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -71,6 +71,7 @@ public:
                 << ", performing cleanup";
             state.running = false;
             cleanup(state.executedEvents);
+            state.executedEvents.clear();
             return;
         }
 
-- 
2.43.0


From f3b984ad6dced1a41848daa3e3a9bef0be17526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 20/40] fix: a scenario naming an unknown variable caused
 undefined behaviour

The result of find_variable() was dereferenced without checking it.
---
 src/cosim/scenario_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..9c286fb 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,15 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto maybeVar =
+            find_variable(simulator->model_description(), varName);
+        if (!maybeVar) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
+        const auto& var = *maybeVar;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From ac5c2809aecdd44d7a5fc656d002efb353887b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 21/40] fix: file_observer wrote another header and metadata
 into an existing file when recording was restarted

---
 src/cosim/observer/file_observer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..399df27 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -221,6 +221,12 @@ private:
             throw std::runtime_error(error.str());
         }
 
+        if (!timeStampedFileNames_) {
+            // When recording is restarted, we continue with the existing file.
+            if (fileCreated_) return time_str;
+            fileCreated_ = true;
+        }
+
         ss << "Time,StepCount";
 
         // Add variable names
@@ -264,6 +270,9 @@ private:
 
     void create_metadata_file(const std::string& time_str)
     {
+        if (!timeStampedFileNames_ && metadataCreated_) return;
+        metadataCreated_ = true;
+
         std::ofstream metadata_fw;
         std::string filename;
         std::stringstream ss;
@@ -275,9 +284,9 @@ private:
         }
 
         const auto filePath = logDir_ / filename;
-        metadata_fw.open(filePath, std::ios_base::out | std::ios_base::app);
+        metadata_fw.open(filePath, std::ios_base::out | std::ios_base::trunc);
 
-        if (fsw_.fail()) {
+        if (metadata_fw.fail()) {
             std::stringstream error;
             error << "Failed to open log metadata file stream: " << filePath.c_str();
             throw std::runtime_error(error.str());
@@ -356,6 +365,8 @@ private:
     std::atomic<bool> recording_ = true;
     std::mutex mutex_;
     bool timeStampedFileNames_ = true;
+    bool fileCreated_ = false;
+    bool metadataCreated_ = false;
     int precision_ = -1;
 };
 
-- 
2.43.0


From 85fe2afc8ae0a372365159e4f33ce85c97385308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 22/40] fix: system_structure accepted connections to function
 variable instances that do not exist

---
 src/cosim/system_structure.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..971ebba 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -250,6 +250,15 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto groupCount = std::get<int>(
+        functionInfo.description.io_groups.at(vit->second.group_index).count);
+    const auto variableCount = std::get<int>(vit->second.description.count);
+    if (v.variable_group_instance < 0 || v.variable_group_instance >= groupCount ||
+        v.variable_instance < 0 || v.variable_instance >= variableCount) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From 3e297a15e6f8420586541c6b288fc738b8bd9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 23/40] fix: system_structure did not report the wrong kind of
 entity as an invalid system structure

---
 src/cosim/system_structure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 971ebba..abfdf45 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -210,7 +210,9 @@ const variable_description& system_structure::get_variable_description(
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
     if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
-- 
2.43.0


From 388d1213f8a4e736bfe140e955381814a8e6e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 24/40] fix: full_variable_name compared instance numbers of
 simulator variables, so that one could be connected twice

---
 include/cosim/system_structure.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cosim/system_structure.hpp b/include/cosim/system_structure.hpp
index b5c4603..3d9a768 100644
--- a/include/cosim/system_structure.hpp
+++ b/include/cosim/system_structure.hpp
@@ -108,9 +108,10 @@ inline bool operator==(
 {
     return a.entity_name == b.entity_name &&
         a.variable_group_name == b.variable_group_name &&
-        a.variable_group_instance == b.variable_group_instance &&
         a.variable_name == b.variable_name &&
-        a.variable_instance == b.variable_instance;
+        (a.is_simulator_variable() ||
+            (a.variable_group_instance == b.variable_group_instance &&
+                a.variable_instance == b.variable_instance));
 }
 
 /// Inequality operator for `full_variable_name`.
@@ -148,9 +149,11 @@ struct hash<cosim::full_variable_name>
         std::size_t h = 0;
         boost::hash_combine(h, v.entity_name);
         boost::hash_combine(h, v.variable_group_name);
-        boost::hash_combine(h, v.variable_group_instance);
         boost::hash_combine(h, v.variable_name);
-        boost::hash_combine(h, v.variable_instance);
+        if (!v.is_simulator_variable()) {
+            boost::hash_combine(h, v.variable_group_instance);
+            boost::hash_combine(h, v.variable_instance);
+        }
         return h;
     }
 };
-- 
2.43.0


From 5bcf4eb8319617d0021237123013c3877ed45edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 25/40] fix: zip archive entries with .. in their names were
 extracted outside the target directory

---
 src/cosim/utility/zip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..7b11fa0 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -7,6 +7,7 @@
 
 #include <zip.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cerrno>
 #include <cstring>
@@ -256,6 +257,10 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            if (std::find(entryPath.begin(), entryPath.end(), "..") != entryPath.end()) {
+                throw error(
+                    "Archive contains an entry with a path that may lead out of the target directory: " + entryName);
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From d3ecf9feea187588cc9b6edf8a2704aa84aadd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 26/40] fix: is_dir_entry read in front of an empty entry name

---
 src/cosim/utility/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 7b11fa0..d910eb9 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -183,7 +183,7 @@ bool archive::is_dir_entry(entry_index index) const
     }
     if ((zs.valid & ZIP_STAT_NAME) && (zs.valid & ZIP_STAT_SIZE) && (zs.valid & ZIP_STAT_CRC)) {
         const auto nameLen = std::strlen(zs.name);
-        return zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
+        return nameLen > 0 && zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
     } else {
         throw error("Cannot determine entry type");
     }
-- 
2.43.0


From 55067eec6762ea83a408c67e63cbb072b13dfc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 27/40] fix: failures to write the end of an extracted file
 were not reported

---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index d910eb9..3667329 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -227,6 +227,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close();
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From 70e8d36b1af7e004b310c8270c4bcb76f1145446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 28/40] fix: absolute model URIs could not be looked up
 relative to a relative base URI

---
 src/cosim/orchestration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/orchestration.cpp b/src/cosim/orchestration.cpp
index c5afea9..53c32be 100644
--- a/src/cosim/orchestration.cpp
+++ b/src/cosim/orchestration.cpp
@@ -26,7 +26,10 @@ std::shared_ptr<model> model_uri_sub_resolver::lookup_model(
     const uri& baseUri,
     const uri& modelUriReference)
 {
-    return lookup_model(resolve_reference(baseUri, modelUriReference));
+    // An absolute reference does not depend on the base, which need not be
+    // absolute in that case.
+    const auto& base = baseUri.scheme().has_value() ? baseUri : modelUriReference;
+    return lookup_model(resolve_reference(base, modelUriReference));
 }
 
 
-- 
2.43.0


From d5f636d168f2642983ee67136696523c2ded47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 29/40] fix: SSP attributes that cannot be read are no longer
 replaced by their default values

An optional numeric attribute such as startTime, factor or offset whose text is
not a number was silently treated as if it were absent.
---
 src/cosim/ssp/ssp_parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..c702ccb 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -18,14 +18,15 @@ namespace
 template<typename T>
 T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    if (defaultValue && !tree.get_child_optional("<xmlattr>." + key)) return *defaultValue;
+    return tree.get<T>("<xmlattr>." + key);
 }
 
 template<typename T>
 std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    if (!tree.get_child_optional("<xmlattr>." + key)) return std::nullopt;
+    return tree.get<T>("<xmlattr>." + key);
 }
 
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
-- 
2.43.0


From fdf16c260877f90c7f8ec370ac8491548b5bb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 30/40] fix: SSP files with unsupported connector or parameter
 types no longer terminate the process

---
 src/cosim/ssp/ssp_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index c702ccb..b4d2684 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -40,9 +40,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::runtime_error("Don't know how to handle Enumeration type!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::runtime_error("Don't know how to handle Binary type!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -67,7 +67,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::runtime_error("Unsupported type of parameter: '" + name + "'!");
         }
     }
     return parameterSet;
-- 
2.43.0


From 852d9258c022caab9372a8a671cc4bbd176035ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 31/40] fix: SSP files with several components of the same name
 are rejected

All but the last of them were silently dropped.
---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index b4d2684..85ac3da 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -184,7 +184,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("More than one component named: '" + comp.name + "'!");
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From 76da8119196cbd3195c6c722c553f01d6b73c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 32/40] fix: malformed OSP model descriptions are rejected

A file that is not well-formed was used as far as it could be read, or crashed
the process if it had no root element or no VariableGroups element.
---
 src/cosim/osp_config_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..637d33b 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -618,9 +618,12 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parser->parseURI(ospModelDescription.string().c_str());
 
-        if (doc == nullptr) {
+        if (errorHandler.failed() || doc == nullptr || doc->getDocumentElement() == nullptr) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -631,6 +634,13 @@ struct extended_model_description
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
 
+        if (variableGroupsElement == nullptr) {
+            std::ostringstream oss;
+            oss << ospModelDescription.string() << " has no VariableGroups element.";
+            BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
+            throw std::runtime_error(oss.str());
+        }
+
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
             variableGroups[vgd.name] = std::move(vgd);
-- 
2.43.0


From 640af0e06998ba36a40a293a1802b341b1fd6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 33/40] fix: OSP configurations with several functions of the
 same name are rejected

All but the last of them were silently dropped.
---
 src/cosim/osp_config_parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 637d33b..bdc6bf7 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -363,7 +363,9 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                if (!linearTransformationFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("More than one function with name " + functionName);
+                }
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -378,7 +380,9 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                if (!sumFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("More than one function with name " + functionName);
+                }
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -409,7 +413,9 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                if (!vectorSumFunctions_.emplace(functionName, function).second) {
+                    throw std::runtime_error("More than one function with name " + functionName);
+                }
 
             } else {
                 std::ostringstream oss;
-- 
2.43.0


From cc2c895f08df3cf3710926d2585e6d494e503096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 34/40] fix: OSP variable group connections follow the
 structure of the groups

Nested groups were looked up by name, so a group of the same name elsewhere in
the model description could be connected in their place; groups nested in
nested groups were not connected at all; and connections between unknown
groups were silently ignored.
---
 src/cosim/osp_config_parser.cpp | 150 ++++++++++++++++----------------
 1 file changed, 74 insertions(+), 76 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index bdc6bf7..d934364 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -734,98 +734,96 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
+// Finds a variable group by name: among the given groups, or else among the
+// groups nested within them.
+const variable_group_description* find_variable_group(
+    const std::vector<variable_group_description>& groups,
+    const std::string& name)
+{
+    for (const auto& group : groups) {
+        if (group.name == name) return &group;
+    }
+    for (const auto& group : groups) {
+        if (const auto found = find_variable_group(group.variable_group_descriptions, name)) return found;
+    }
+    return nullptr;
+}
+
+const variable_group_description& get_variable_group(
+    const extended_model_description& emd,
     const osp_config_parser::VariableEndpoint& endpoint)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
-        }
-    } else {
-        groupVariables = groupIt->second.variables;
+    const auto topLevelGroup = emd.variableGroups.find(endpoint.name);
+    if (topLevelGroup != emd.variableGroups.end()) return topLevelGroup->second;
+    for (const auto& entry : emd.variableGroups) {
+        if (const auto found = find_variable_group(entry.second.variable_group_descriptions, endpoint.name)) return *found;
     }
-    return groupVariables;
+    std::ostringstream oss;
+    oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+    throw std::out_of_range(oss.str());
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+void check_same_size(
+    const osp_config_parser::VariableConnection& connection,
+    std::size_t sizeA,
+    std::size_t sizeB)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    if (sizeA != sizeB) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << connection.variableA.simulator << ":" << connection.variableA.name
+            << " has different size [" << sizeA << "] than variable group "
+            << connection.variableB.simulator << ":" << connection.variableB.name
+            << " size [" << sizeB << "]";
+        throw std::runtime_error(oss.str());
     }
-    return groupIt->second.variable_group_descriptions;
 }
 
+void connect_variable_groups(
+    const osp_config_parser::VariableConnection& connection,
+    const variable_group_description& groupA,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
+{
+    const auto& nestedA = groupA.variable_group_descriptions;
+    const auto& nestedB = groupB.variable_group_descriptions;
+    check_same_size(connection, nestedA.size(), nestedB.size());
+    for (std::size_t i = 0; i < nestedA.size(); ++i) {
+        // clang-format off
+        connect_variable_groups(
+            {{connection.variableA.simulator, nestedA.at(i).name},
+             {connection.variableB.simulator, nestedB.at(i).name}},
+            nestedA.at(i),
+            nestedB.at(i),
+            systemStructure);
+        // clang-format on
+    }
+
+    check_same_size(connection, groupA.variables.size(), groupB.variables.size());
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
+    // clang-format off
+    for (std::size_t i = 0; i < groupA.variables.size(); ++i) {
+        variableConnections.push_back({
+            {connection.variableA.simulator, groupA.variables.at(i)},
+            {connection.variableB.simulator, groupB.variables.at(i)}});
+    }
+    // clang-format on
+    connect_variables(variableConnections, systemStructure);
+}
 
 void connect_variable_groups(
     const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
-
     for (const auto& connection : variableGroupConnections) {
-        const auto& emdA = get_emd(emds, connection.variableA.simulator);
-        const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
-
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
-
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
-
-        connect_variables(variableConnections, systemStructure);
+        const auto emdA = get_emd(emds, connection.variableA.simulator);
+        const auto emdB = get_emd(emds, connection.variableB.simulator);
+        connect_variable_groups(
+            connection,
+            get_variable_group(emdA, connection.variableA),
+            get_variable_group(emdB, connection.variableB),
+            systemStructure);
     }
 }
 
-- 
2.43.0


From b8eddf3f2996da14d8107bcd2adcf068e8b373f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 35/40] fix: OSP signal connections are made or rejected, but
 not ignored

Only the first connection of each signal of a function was used, so an output
could not be connected to several variables, and further connections were
silently dropped, as were those that refer to unknown functions or signals.
---
 src/cosim/osp_config_parser.cpp | 120 ++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 43 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index d934364..963cf38 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,7 +19,9 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <ios>
+#include <iterator>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -679,21 +681,34 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
+std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
+    std::vector<osp_config_parser::SignalConnection> found;
+    std::copy_if(
         signalConnections.begin(),
         signalConnections.end(),
+        std::back_inserter(found),
         [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+    if (found.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return found;
+}
+
+// Throws unless all connections have been used, that is, if any of them refers
+// to a function or signal that doesn't exist.
+void check_all_used(
+    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    std::size_t used)
+{
+    if (used != signalConnections.size()) {
+        throw std::out_of_range("A signal connection refers to an unknown function or signal");
+    }
 }
 
 } // namespace
@@ -827,11 +842,14 @@ void connect_variable_groups(
     }
 }
 
-void connect_linear_transformation_functions(
+// The functions that connect signals return the number of signal connections they have used.
+
+std::size_t connect_linear_transformation_functions(
     const std::unordered_map<std::string, osp_config_parser::LinearTransformationFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     system_structure& systemStructure)
 {
+    std::size_t used = 0;
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
         functionParams[linear_transformation_function_type::offset_parameter_index] = function.offset;
@@ -841,22 +859,28 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+            ++used;
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+            ++used;
+        }
     }
+    return used;
 }
 
-void connect_sum_functions(
+std::size_t connect_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::SumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     system_structure& systemStructure)
 {
+    std::size_t used = 0;
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
         functionParams[vector_sum_function_type::inputCount_parameter_index] = function.inputCount;
@@ -866,24 +890,30 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+                ++used;
+            }
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+            ++used;
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
+    return used;
 }
 
-void connect_vector_sum_functions(
+std::size_t connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
+    std::size_t used = 0;
     for (const auto& [functionName, function] : functions) {
         function_parameter_value_map functionParams;
         functionParams[vector_sum_function_type::inputCount_parameter_index] = function.inputCount;
@@ -894,30 +924,32 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
-                signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+            for (const auto& inGroupConn : find_signal_connections(
+                     signalGroupConnections, functionName, function.inGroups.at(i).name)) {
+                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
+                const auto& inVariables = inEmd.variableGroups.at(inGroupConn.variable.name).variables;
+                for (int j = 0; j < function.dimension; ++j) {
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariables.at(j)),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
+                ++used;
+            }
+        }
 
+        for (const auto& outGroupConn : find_signal_connections(
+                 signalGroupConnections, functionName, function.outGroup.name)) {
+            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
+            const auto& outVariables = outEmd.variableGroups.at(outGroupConn.variable.name).variables;
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariables.at(j)));
             }
-        }
-
-        const auto outGroupConn = find_signal_connection(
-            signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
+            ++used;
         }
     }
+    return used;
 }
 
 cosim::filesystem::path file_query_uri_to_path(
@@ -1007,9 +1039,11 @@ osp_config load_osp_config(
 
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
-    connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
+    const auto usedLinear = connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
+    const auto usedSum = connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
+    check_all_used(parser.get_signal_connections(), usedLinear + usedSum);
+    const auto usedVectorSum = connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
+    check_all_used(parser.get_signal_group_connections(), usedVectorSum);
 
     return config;
 }
-- 
2.43.0


From b63bc4093117c0629604748f6171fd929658781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 36/40] fix: OSP signal groups are only connected to variable
 groups of their size

Variables beyond the dimension of the function were silently left out.
---
 src/cosim/osp_config_parser.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 963cf38..f091824 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -907,6 +907,22 @@ std::size_t connect_sum_functions(
     return used;
 }
 
+void check_signal_group_size(
+    const osp_config_parser::SignalConnection& connection,
+    std::size_t groupSize,
+    int dimension)
+{
+    if (groupSize != static_cast<std::size_t>(dimension)) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between signal group "
+            << connection.signal.function << ":" << connection.signal.name
+            << " of dimension " << dimension << " and variable group "
+            << connection.variable.simulator << ":" << connection.variable.name
+            << " of size " << groupSize;
+        throw std::runtime_error(oss.str());
+    }
+}
+
 std::size_t connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
@@ -928,6 +944,7 @@ std::size_t connect_vector_sum_functions(
                      signalGroupConnections, functionName, function.inGroups.at(i).name)) {
                 const auto& inEmd = emds.at(inGroupConn.variable.simulator);
                 const auto& inVariables = inEmd.variableGroups.at(inGroupConn.variable.name).variables;
+                check_signal_group_size(inGroupConn, inVariables.size(), function.dimension);
                 for (int j = 0; j < function.dimension; ++j) {
                     systemStructure.connect_variables(
                         full_variable_name(inGroupConn.variable.simulator, inVariables.at(j)),
@@ -941,6 +958,7 @@ std::size_t connect_vector_sum_functions(
                  signalGroupConnections, functionName, function.outGroup.name)) {
             const auto& outEmd = emds.at(outGroupConn.variable.simulator);
             const auto& outVariables = outEmd.variableGroups.at(outGroupConn.variable.name).variables;
+            check_signal_group_size(outGroupConn, outVariables.size(), function.dimension);
             for (int j = 0; j < function.dimension; ++j) {
                 systemStructure.connect_variables(
                     full_variable_name(functionName, "out", 0, "", j),
-- 
2.43.0


From faecc0ad5cd8ab83a2f4d387652e58893ca4a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:16 +0000
Subject: [PATCH 37/40] fix: free the FMI Library handle of an FMU that is not
 for co-simulation

---
 src/cosim/fmi/v1/fmu.cpp | 1 +
 src/cosim/fmi/v2/fmu.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..ac44db5 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -53,6 +53,7 @@ fmu::fmu(
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
+        fmi1_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..e48a326 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -52,6 +52,7 @@ fmu::fmu(
     }
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
+        fmi2_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
-- 
2.43.0


From 2fa93b5e8b7e5f12277bf9615654926b634c63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:13 +0000
Subject: [PATCH 38/40] fix: an interrupted unpacking of an FMU is not taken
 for a complete one

---
 src/cosim/fmi/importer.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 9e4fa90..a2733b6 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -20,6 +20,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <fstream>
 #include <new>
 
 
@@ -196,17 +197,14 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
 
     // Unzip the entire FMU if necessary.
-    const auto modelDescriptionPath = fmuUnpackDir->path() / "modelDescription.xml";
-    if (is_outdated(modelDescriptionPath, fmuPath)) {
-        try {
-            zip.extract_all(fmuUnpackDir->path());
-        } catch (...) {
-            // Remove model description again, so we don't erroneously think
-            // that the unpacking was successful the next time we try it.
-            std::error_code ignoredError;
-            cosim::filesystem::remove(modelDescriptionPath, ignoredError);
-            throw;
-        }
+    const auto completionMarker = fmuUnpackDir->path() / ".cosim-unpacked";
+    if (is_outdated(completionMarker, fmuPath)) {
+        // The marker file only exists while the directory contents are complete,
+        // so we don't erroneously think that the unpacking was successful the
+        // next time we try it, even if it was interrupted.
+        cosim::filesystem::remove(completionMarker);
+        zip.extract_all(fmuUnpackDir->path());
+        std::ofstream(completionMarker.string());
     }
 
     // Drop R/W privileges and acquire read-only access to FMU cache directory
-- 
2.43.0


From d83fcd8ddb3e187ec835401fa364d878d18a72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:10 +0000
Subject: [PATCH 39/40] fix: proxyfmu slaves get the step size for the time of
 the step

---
 src/cosim/proxy/remote_slave.cpp | 3 +--
 src/cosim/proxy/remote_slave.hpp | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..b41fef3 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -37,7 +37,6 @@ cosim::model_description cosim::proxy::remote_slave::model_description() const
 void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime,
     std::optional<double> relativeTolerance)
 {
-    startTime_ = startTime;
 
     double start = to_double_time_point(startTime);
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
@@ -71,7 +70,7 @@ void cosim::proxy::remote_slave::end_simulation()
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_));
+    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, currentTime));
     if (!status) {
         bad_status_throw("step");
     }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 4f02aac..7f4ddfc 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -63,7 +63,6 @@ public:
 
 private:
     bool terminated_;
-    cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From d2c85fbf2109faabab664622daed3d3b81bb686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:16 +0000
Subject: [PATCH 40/40] fix: proxyfmu URIs with absolute file URIs refer to the
 file they name

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 1500741..0d43860 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -29,7 +29,11 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
     const auto query = mur.query();
     if (query) {
         if (query->find("file=file:///") < query->size()) {
+#ifdef _WIN32
             const auto newQuery = "file=" + std::string(query->substr(13));
+#else
+            const auto newQuery = "file=" + std::string(query->substr(12)); // keep the leading slash
+#endif
             return model_uri_sub_resolver::lookup_model(
                 baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
         } else if (query->find("file=") < query->size()) {
-- 
2.43.0

