From ee7c47213e229f09e147bc337847f0189aef2750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 01/77] fix: wake every thread waiting on a thread pool, not
 just one

---
 src/task/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index aeb5f77..117c10c 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -322,7 +322,7 @@ namespace neolib
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
             }
-            iWaitConditionVariable.notify_one();
+            iWaitConditionVariable.notify_all();
         }
     }
 
@@ -355,7 +355,7 @@ namespace neolib
     void thread_pool::thread_gone_idle()
     {
         update_idle();
-        iWaitConditionVariable.notify_one();
+        iWaitConditionVariable.notify_all();
     }
 
     void thread_pool::thread_gone_busy()
-- 
2.43.0


From 2428086d8233fe2c5b145b23732697348dd61992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 02/77] fix: a function task's exception goes to its future
 instead of ending the process

---
 include/neolib/task/task.hpp        | 19 +++++++++++++++++--
 include/neolib/task/thread_pool.hpp | 14 ++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/neolib/task/task.hpp b/include/neolib/task/task.hpp
index b812a18..8002224 100644
--- a/include/neolib/task/task.hpp
+++ b/include/neolib/task/task.hpp
@@ -97,7 +97,14 @@ namespace neolib
         }
         void run(yield_type) override
         {
-            iPromise.set_value(iFunction());
+            try
+            {
+                iPromise.set_value(iFunction());
+            }
+            catch (...)
+            {
+                iPromise.set_exception(std::current_exception());
+            }
         }
     private:
         std::function<T()> iFunction;
@@ -107,7 +114,15 @@ namespace neolib
     template <>
     inline void function_task<void>::run(yield_type)
     {
-        iFunction();
+        try
+        {
+            iFunction();
+        }
+        catch (...)
+        {
+            iPromise.set_exception(std::current_exception());
+            return;
+        }
         iPromise.set_value();
     }
 }
diff --git a/include/neolib/task/thread_pool.hpp b/include/neolib/task/thread_pool.hpp
index 4b560e4..9223fc9 100644
--- a/include/neolib/task/thread_pool.hpp
+++ b/include/neolib/task/thread_pool.hpp
@@ -124,23 +124,29 @@ namespace neolib
         auto subrange = aContainer.size() / aThreadPool.max_threads();
         if (subrange < 1)
             subrange = 1;
+        std::vector<std::future<void>> results;
         auto next = aContainer.begin();
         for (auto left = aContainer.size(); left >= subrange; left -= subrange)
         {
             auto end = std::next(next, subrange);
-            aThreadPool.run([next, end, &aFunction]()
+            results.push_back(aThreadPool.run([next, end, &aFunction]()
             {
                 for (auto i = next; i != end; ++i)
                     aFunction(*i);
-            });
+            }).first);
             next = end;
         }
         if (next != aContainer.end())
-            aThreadPool.run([next, &aContainer, &aFunction]()
+            results.push_back(aThreadPool.run([next, &aContainer, &aFunction]()
             {
                 for (auto i = next; i != aContainer.end(); ++i)
                     aFunction(*i);
-            });
+            }).first);
         aThreadPool.wait();
+        if (aThreadPool.stopped())
+            return;
+        for (auto& result : results)
+            if (result.valid() && result.wait_for(std::chrono::seconds{ 0 }) == std::future_status::ready)
+                result.get();
     }
 }
-- 
2.43.0


From 959551c536282b8de3e56a71023890a140511a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 03/77] fix: thread pool keeps to its maximum when it is
 lowered and when try_start calls race

---
 src/task/thread_pool.cpp | 42 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 117c10c..a35a699 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -124,12 +124,25 @@ namespace neolib
                 wait();
             }
         }
+        void resume()
+        {
+            // take up tasks that were left waiting while the maximum was lower
+            std::unique_lock<std::recursive_mutex> lk(iPoolMutex);
+            if (!active() && !iStopped)
+                next_task();
+        }
     private:
         void next_task()
         {
             std::unique_lock<std::recursive_mutex> lk(iPoolMutex);
             if (active())
                 throw already_active();
+            if (iThreadPool.available_threads() == 0 && iThreadPool.max_threads() != 0)
+            {
+                // the maximum has been lowered: leave waiting tasks to the threads that are still busy
+                iThreadPool.thread_gone_idle();
+                return;
+            }
             if (iWaitingTasks.empty())
                 iThreadPool.steal_work(*this);
             if (!iWaitingTasks.empty())
@@ -184,6 +197,8 @@ namespace neolib
         iMaxThreads = aMaxThreads;
         while (iThreads.size() < iMaxThreads)
             iThreads.push_back(std::make_unique<thread_pool_thread>(*this));
+        for (auto& t : iThreads)
+            static_cast<thread_pool_thread&>(*t).resume();
     }
 
     std::size_t thread_pool::active_threads() const
@@ -199,7 +214,8 @@ namespace neolib
     std::size_t thread_pool::available_threads() const
     {
         std::unique_lock lk(iMutex);
-        return max_threads() - active_threads();
+        auto const active = active_threads();
+        return iMaxThreads > active ? iMaxThreads - active : 0;
     }
 
     std::size_t thread_pool::total_threads() const
@@ -214,6 +230,7 @@ namespace neolib
 
     std::size_t thread_pool::max_threads() const
     {
+        std::unique_lock lk(iMutex);
         return iMaxThreads;
     }
 
@@ -227,15 +244,18 @@ namespace neolib
         if (stopped())
             return;
         std::unique_lock lk(iMutex);
-        if (iThreads.empty())
+        if (iThreads.empty() || iMaxThreads == 0)
             throw no_threads();
-        for (auto& t : iThreads)
+        if (available_threads() != 0)
         {
-            auto& tpt = static_cast<thread_pool_thread&>(*t);
-            if (!tpt.active())
+            for (auto& t : iThreads)
             {
-                tpt.add(aTask, aPriority);
-                return;
+                auto& tpt = static_cast<thread_pool_thread&>(*t);
+                if (!tpt.active())
+                {
+                    tpt.add(aTask, aPriority);
+                    return;
+                }
             }
         }
         static_cast<thread_pool_thread&>(*iThreads[0]).add(aTask, aPriority);
@@ -243,18 +263,14 @@ namespace neolib
 
     bool thread_pool::try_start(i_task& aTask, int32_t aPriority)
     {
-        if (stopped())
-            return false;
-        if (available_threads() == 0)
-            return false;
-        start(aTask, aPriority);
-        return true;
+        return try_start(task_pointer{ task_pointer{}, &aTask }, aPriority);
     }
 
     bool thread_pool::try_start(task_pointer aTask, int32_t aPriority)
     {
         if (stopped())
             return false;
+        std::unique_lock lk(iMutex);
         if (available_threads() == 0)
             return false;
         start(aTask, aPriority);
-- 
2.43.0


From 539182037391dae1655329269899f1f2959de746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 04/77] fix: threads can be destroyed unstarted, cancelled,
 waited for by several threads and waited for with events

---
 include/neolib/task/thread.hpp |  5 ++++-
 src/task/thread.cpp            | 34 ++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 47306b2..a86e2a7 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -127,15 +127,18 @@ namespace neolib
         void exec_preamble() override;
         void exec(yield_type aYieldType = yield_type::NoYield) override;
         void entry_point();
+        void join() const;
         // attributes
     private:
         mutable std::recursive_mutex iMutex;
+        mutable std::mutex iJoinMutex;
         const std::string iName;
         bool iUsingExistingThread;
         std::optional<std::function<void()>> iExecFunction;
         std::atomic<thread_state> iState;
         thread_object_pointer iThreadObject;
-        id_type iId;
+        std::atomic<id_type> iId;
         std::atomic<std::size_t> iBlockedCount;
+        std::atomic<bool> iExited;
     };
 }
diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2b606be..60b505c 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -38,6 +38,7 @@
 #include <chrono>
 #include <functional>
 #include <boost/chrono/thread_clock.hpp>
+#include <neolib/core/scoped.hpp>
 #include <neolib/core/singleton.hpp>
 #include <neolib/task/thread.hpp>
 
@@ -112,7 +113,8 @@ namespace neolib
         iUsingExistingThread(aAttachToCurrentThread), 
         iState(thread_state::ReadyToStart), 
         iId{ aAttachToCurrentThread ? std::this_thread::get_id() : std::thread::id{} },
-        iBlockedCount(0)
+        iBlockedCount(0),
+        iExited(false)
     {
     }
 
@@ -124,10 +126,10 @@ namespace neolib
 
     thread::~thread()
     {
-        if (!finished() && !using_existing_thread())
+        if (started() && !finished() && !using_existing_thread())
             abort();
-        if (has_thread_object() && thread_object().joinable())
-            thread_object().join();
+        if (has_thread_object())
+            join();
     }
 
     const std::string& thread::name() const noexcept
@@ -164,12 +166,14 @@ namespace neolib
         catch(const std::exception& aException)
         {
             iState = thread_state::Error;
+            iExited = true;
             std::cerr << std::string("Error starting thread due to exception being thrown (") + aException.what() + ")." << std::endl;
             throw;
         }
         catch(...)
         {
             iState = thread_state::Error;
+            iExited = true;
             std::cerr << std::string("Error starting thread due to exception of unknown type being thrown.") << std::endl;
             throw;
         }
@@ -229,8 +233,7 @@ namespace neolib
             throw thread_not_started();
         if (in())
             throw cannot_wait_on_self();
-        if (thread_object().joinable())
-            thread_object().join();
+        join();
     }
 
     wait_result thread::wait(const waitable_event_list& aEventList) const
@@ -361,7 +364,17 @@ namespace neolib
 
     bool thread::waitable_ready() const noexcept
     {
-        return thread_object().get_id() == std::thread::id();
+        return iExited;
+    }
+
+    void thread::join() const
+    {
+        {
+            std::scoped_lock<std::recursive_mutex> lock{ iMutex }; // start() may still be creating the thread object
+        }
+        std::scoped_lock<std::mutex> lock{ iJoinMutex };
+        if (thread_object().joinable())
+            thread_object().join();
     }
 
     void thread::exec_preamble()
@@ -378,12 +391,13 @@ namespace neolib
 
     void thread::entry_point()
     {
+        scoped_cleanup exited{ [this]() { iExited = true; } };
         {
             std::scoped_lock<std::recursive_mutex> lock{ iMutex };
+            iId = std::this_thread::get_id();
             if (iState != thread_state::Starting)
                 return;
             iState = thread_state::Started;
-            iId = std::this_thread::get_id();
         }
         try
         {
@@ -396,6 +410,10 @@ namespace neolib
                     iState = thread_state::Finished;
             }
         }
+        catch(const cancellation&)
+        {
+            // cancel() was called, or abort() was noticed by block() or unblock(): not an error
+        }
         catch(const std::exception& aException)
         {
             std::cerr << std::string("Thread terminating due to an uncaught exception being thrown (") + aException.what() + ")." << std::endl;
-- 
2.43.0


From 0da2e6971491a5db2b20fcb7fbce716cc205ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 05/77] fix: thread pool stop() is safe against concurrent
 stop() and reserve()

---
 src/task/thread_pool.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index a35a699..9a93c13 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -114,15 +114,12 @@ namespace neolib
         }
         void stop()
         {
-            if (!iStopped)
             {
-                {
-                    std::unique_lock lk2(iCondVarMutex);
-                    iStopped = true;
-                }
-                iConditionVariable.notify_one();
-                wait();
+                std::unique_lock lk2(iCondVarMutex);
+                iStopped = true;
             }
+            iConditionVariable.notify_one();
+            wait();
         }
         void resume()
         {
@@ -330,10 +327,14 @@ namespace neolib
     {
         if (!stopped())
         {
-            for (auto& t : iThreads)
+            std::vector<thread_pool_thread*> threads;
             {
-                static_cast<thread_pool_thread&>(*t).stop();
+                std::unique_lock lk(iMutex);
+                for (auto& t : iThreads)
+                    threads.push_back(&static_cast<thread_pool_thread&>(*t));
             }
+            for (auto t : threads)
+                t->stop();
             {
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
-- 
2.43.0


From e40c84e85ac56b2c29c8a0756172e7d7c21b395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 06/77] fix: waitable_event loses, invents or duplicates no
 signal

---
 include/neolib/task/waitable_event.hpp | 12 +-----
 src/task/waitable_event.cpp            | 57 +++++++++++++++++---------
 2 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/include/neolib/task/waitable_event.hpp b/include/neolib/task/waitable_event.hpp
index 79db6ef..a4b580b 100644
--- a/include/neolib/task/waitable_event.hpp
+++ b/include/neolib/task/waitable_event.hpp
@@ -52,13 +52,6 @@ namespace neolib
         // constants
     public:
         static const uint32_t ShortTimeout_ms = 20;
-        // types
-    private:
-        enum signal_type
-        {
-            SignalOne,
-            SignalAll
-        };
         // construction
     public:
         waitable_event();
@@ -74,9 +67,8 @@ namespace neolib
     private:
         mutable std::mutex iMutex;
         mutable std::condition_variable iCondVar;
-        mutable bool iReady;
-        mutable std::size_t iTotalWaiting;
-        mutable signal_type iSignalType;
+        mutable bool iReady; // a signal made while nobody was waiting
+        mutable std::vector<bool*> iWaiting; // waiters not released yet, longest waiting first
     };
 
     struct wait_result_event { wait_result_event(const waitable_event& aEvent) : iEvent(aEvent) {} const waitable_event& iEvent; };
diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index 10835fe..bf42f5c 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -34,54 +34,73 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
 #include <chrono>
 #include <neolib/task/waitable_event.hpp>
 #include <neolib/task/thread.hpp>
 
 namespace neolib
 {
-    waitable_event::waitable_event() : iReady(false), iTotalWaiting(0)
+    waitable_event::waitable_event() : iReady(false)
     {
     }
 
     void waitable_event::signal_one() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
-        iReady = true;
-        iSignalType = SignalOne;
-        iCondVar.notify_one();
+        if (iWaiting.empty())
+            iReady = true;
+        else
+        {
+            *iWaiting.front() = true;
+            iWaiting.erase(iWaiting.begin());
+            iCondVar.notify_all();
+        }
     }
 
     void waitable_event::signal_all() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
-        iReady = true;
-        iSignalType = SignalAll;
-        iCondVar.notify_all();
+        if (iWaiting.empty())
+            iReady = true;
+        else
+        {
+            for (auto released : iWaiting)
+                *released = true;
+            iWaiting.clear();
+            iCondVar.notify_all();
+        }
     }
 
     void waitable_event::wait() const
     {
         std::unique_lock<std::mutex> lock(iMutex);
-        ++iTotalWaiting;
-        while (!iReady)
-            iCondVar.wait(lock);
-        --iTotalWaiting;
-        if (iSignalType == SignalOne || iTotalWaiting == 0)
+        if (iReady)
+        {
             iReady = false;
+            return;
+        }
+        bool released = false;
+        iWaiting.push_back(&released);
+        while (!released)
+            iCondVar.wait(lock);
     }
 
     bool waitable_event::wait(uint32_t aTimeout_ms) const
     {
-        bool result = true;
         std::unique_lock<std::mutex> lock(iMutex);
-        ++iTotalWaiting;
-        if (!iReady)
-            result = (iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms)) == std::cv_status::no_timeout);
-        --iTotalWaiting;
-        if (result && iSignalType == SignalOne || iTotalWaiting == 0)
+        if (iReady)
+        {
             iReady = false;
-        return result;
+            return true;
+        }
+        if (aTimeout_ms == 0)
+            return false;
+        bool released = false;
+        iWaiting.push_back(&released);
+        if (!iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms), [&]() { return released; }))
+            iWaiting.erase(std::find(iWaiting.begin(), iWaiting.end(), &released));
+        return released;
     }
 
     bool waitable_event::msg_wait(const i_message_queue& aMessageQueue) const
-- 
2.43.0


From e6cc5b75e3ed8c059569b511a4e7bd5934c3ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:16 +0000
Subject: [PATCH 07/77] fix: switchable_mutex does not compile with gcc or
 clang

---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From 46b14403451725a952cb518facaf4b06fae5fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 08/77] fix: mutex profiler reads the identity of the holder,
 not a pointer into its thread-local storage

---
 include/neolib/core/mutex.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index c48e400..218b17a 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -155,12 +155,12 @@ namespace neolib
     {
         namespace lightweight
         {
-            using thread_id = std::thread::id const*;
+            using thread_id = std::thread::id;
 
             inline thread_id get_id()
             {
-                thread_local std::thread::id tId = std::this_thread::get_id();
-                return &tId;
+                thread_local std::thread::id const tId = std::this_thread::get_id();
+                return tId;
             }
         }
     }
@@ -383,8 +383,7 @@ namespace neolib
                     {
                         if (enhancedMetrics)
                         {
-                            auto const lockingThread = iLockingThread.load();
-                            m.emplace_back(lockingThread != nullptr ? *lockingThread : std::thread::id{}, std::chrono::microseconds{});
+                            m.emplace_back(iLockingThread.load(), std::chrono::microseconds{});
                         }
                     },
                     [&]
@@ -420,7 +419,7 @@ namespace neolib
             prevent_icf();
             if (--iLockCount == 0u)
             {
-                iLockingThread.store(nullptr, std::memory_order_relaxed);
+                iLockingThread.store({}, std::memory_order_relaxed);
                 iState.clear(std::memory_order_release);
                 iState.notify_one();
             }
-- 
2.43.0


From 71ee9bdf7e1a6fb94684421ced193f6527ca6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 09/77] fix: service() returns null while another thread
 unregisters or replaces the service

---
 include/neolib/core/service.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/service.hpp b/include/neolib/core/service.hpp
index f3e3722..2960cc7 100644
--- a/include/neolib/core/service.hpp
+++ b/include/neolib/core/service.hpp
@@ -65,6 +65,7 @@ namespace neolib
         template <typename Service>
         inline void register_service(Service& aService)
         {
+            std::unique_lock lock{ get_service_provider() };
             get_service_provider().register_service(aService, Service::iid());
             service_ptr<Service>() = &aService;
         }
@@ -72,6 +73,7 @@ namespace neolib
         template <typename Service>
         inline void unregister_service(Service& aService)
         {
+            std::unique_lock lock{ get_service_provider() };
             get_service_provider().unregister_service(Service::iid());
             service_ptr<Service>() = nullptr;
         }
@@ -85,14 +87,14 @@ namespace neolib
         template <typename Service>
         inline Service& service()
         {
-            if (service_ptr<Service>() != nullptr)
-                return *service_ptr<Service>();
+            if (auto const existing = service_ptr<Service>().load())
+                return *existing;
             std::unique_lock lock{ get_service_provider() };
             if (!service_registered<Service>())
                 register_service(start_service<Service>());
-            else
-                service_ptr<Service>() = &get_service_provider().service<Service>();
-            return *service_ptr<Service>();
+            auto& result = get_service_provider().service<Service>();
+            service_ptr<Service>() = &result;
+            return result;
         }
     }
 
-- 
2.43.0


From 43ebf64f7d42291ac5d82afae7f8d2214d9e5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 10/77] fix: shared thread locals survive failed allocations
 and deleters that use other thread locals

---
 src/app/shared_thread_local.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/app/shared_thread_local.cpp b/src/app/shared_thread_local.cpp
index 0d479b4..9b96dd8 100644
--- a/src/app/shared_thread_local.cpp
+++ b/src/app/shared_thread_local.cpp
@@ -55,15 +55,16 @@ namespace neolib
             void(*deleter)(void*);
 
             // note: we cannot use the unique_ptr's deleter.
-            data(std::size_t aSize, void(*aDeleter)(void*)) :
+            data(std::size_t aSize) :
                 size{ aSize },
                 memory{ std::make_unique<char[]>(aSize) },
-                deleter{ aDeleter }
+                deleter{ nullptr }
             {
             }
             ~data()
             {
-                deleter(memory.get());
+                if (deleter != nullptr)
+                    deleter(memory.get());
             }
         };
 
@@ -78,11 +79,16 @@ namespace neolib
             {
                 while (!tLocalStack.empty())
                 {
+                    // note: a deleter may itself use other shared thread locals.
+                    auto destroying = std::move(tLocalStack.back());
+                    tLocalStack.pop_back();
+                    auto const destroyed = destroying.get();
+                    destroying.reset();
                     auto existing = std::find_if(
                         tLocals.begin(), tLocals.end(), 
-                        [](auto const& e) { return e.second == tLocalStack.back().get(); });
-                    tLocalStack.pop_back();
-                    tLocals.erase(existing);
+                        [&](auto const& e) { return e.second == destroyed; });
+                    if (existing != tLocals.end())
+                        tLocals.erase(existing);
                 }
             }
         };
@@ -92,8 +98,17 @@ namespace neolib
         auto existing = tLocals.find(aFullyQualifiedVariableName);
         if (existing == tLocals.end())
         {
-            tLocalStack.push_back(std::make_unique<data>(aVariableSize, aDeleter));
-            existing = tLocals.insert(std::make_pair(aFullyQualifiedVariableName, tLocalStack.back().get())).first;
+            tLocalStack.push_back(std::make_unique<data>(aVariableSize));
+            try
+            {
+                existing = tLocals.insert(std::make_pair(aFullyQualifiedVariableName, tLocalStack.back().get())).first;
+            }
+            catch (...)
+            {
+                tLocalStack.pop_back();
+                throw;
+            }
+            tLocalStack.back()->deleter = aDeleter;
             result.initializationRequired = true;
         }
 
-- 
2.43.0


From 445ff7cb391b5e561c56f3e1603d985b3cbeed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 11/77] fix: a copy of an object has a lifetime of its own

---
 include/neolib/core/lifetime.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/neolib/core/lifetime.hpp b/include/neolib/core/lifetime.hpp
index 3f36f7f..e4f31cb 100644
--- a/include/neolib/core/lifetime.hpp
+++ b/include/neolib/core/lifetime.hpp
@@ -110,7 +110,10 @@ namespace neolib
         typedef neolib::destroyed_flag destroyed_flag;
     public:
         lifetime(lifetime_state aState = lifetime_state::Alive);
+        lifetime(lifetime const& aOther);
         virtual ~lifetime();
+    public:
+        lifetime& operator=(lifetime const& aOther);
     public:
         lifetime_state object_state() const final;
         i_ref_ptr<i_lifetime_control_block>& object_state_ptr() const final;
@@ -130,6 +133,18 @@ namespace neolib
     {
     }
 
+    template <typename Base>
+    inline lifetime<Base>::lifetime(lifetime const& aOther) : Base{ aOther }, iState{ make_ref<lifetime_control_block>(lifetime_state::Alive) }
+    {
+    }
+
+    template <typename Base>
+    inline lifetime<Base>& lifetime<Base>::operator=(lifetime const& aOther)
+    {
+        Base::operator=(aOther);
+        return *this;
+    }
+
     template <typename Base>
     inline lifetime<Base>::~lifetime()
     {
-- 
2.43.0


From fe95f9503b41c72dd5cdc84e157175505f9d5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 12/77] fix: weak references are safe across threads and failed
 allocations, moving a pointer onto its own object leaks no reference

---
 include/neolib/core/reference_counted.hpp | 56 +++++++++++++----------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..c33d69d 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -57,7 +57,7 @@ namespace neolib
     public:
         ref_control_block(i_reference_counted& aManagedPtr) :
             iManagedPtr{ &aManagedPtr },
-            iWeakUseCount{ 0 }
+            iWeakUseCount{ 1 } // the managed object's own reference, dropped when it expires
         {
         }
     public:
@@ -71,7 +71,7 @@ namespace neolib
         }
         long weak_use_count() const noexcept final
         {
-            return iWeakUseCount;
+            return iWeakUseCount - (expired() ? 0 : 1);
         }
         void add_ref(long aCount = 1) noexcept final
         {
@@ -79,19 +79,18 @@ namespace neolib
         }
         void release(long aCount = 1) final
         {
-            if ((iWeakUseCount -= aCount) <= 0 && expired())
+            if ((iWeakUseCount -= aCount) <= 0)
                 delete this;
         }
     private:
         void set_expired()
         {
             iManagedPtr = nullptr;
-            if (weak_use_count() <= 0)
-                delete this;
+            release();
         }
     private:
-        i_reference_counted* iManagedPtr;
-        long iWeakUseCount;
+        std::atomic<i_reference_counted*> iManagedPtr;
+        std::atomic<long> iWeakUseCount;
     };
 
     template <typename Base, bool DeallocateOnRelease = true>
@@ -112,9 +111,8 @@ namespace neolib
         {
             assert(!(reference_count_checked() && use_count() && !pinned()) && "Destroying in-use reference counted object!");            
             iDestroying = true;
-            bool expected = true;
-            if (iControlled.compare_exchange_strong(expected, false))
-                iControlBlock.load()->set_expired();
+            if (auto const controlBlock = iControlBlock.exchange(nullptr))
+                controlBlock->set_expired();
         }
         reference_counted& operator=(const reference_counted&)
         {
@@ -168,10 +166,15 @@ namespace neolib
     public:
         i_ref_control_block& control_block() final
         {
-            bool expected = false;
-            if (iControlled.compare_exchange_strong(expected, true))
-                iControlBlock = new ref_control_block{ *this };
-            return *iControlBlock;
+            ref_control_block* existing = iControlBlock;
+            if (existing == nullptr)
+            {
+                auto const newControlBlock = new ref_control_block{ *this };
+                if (iControlBlock.compare_exchange_strong(existing, newControlBlock))
+                    return *newControlBlock;
+                delete newControlBlock;
+            }
+            return *existing;
         }
     private:
         void destroy() const
@@ -185,7 +188,6 @@ namespace neolib
         std::atomic<bool> iDestroying;
         mutable std::atomic<long> iReferenceCount;
         mutable std::atomic<bool> iPinned;
-        mutable std::atomic<bool> iControlled;
         mutable std::atomic<ref_control_block*> iControlBlock;
     };
 
@@ -436,8 +438,12 @@ namespace neolib
         template <typename Interface2 = Interface, typename = std::enable_if_t<std::is_base_of_v<Interface2, Interface>, sfinae>>
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
-            if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            if (iPtr == aPtr && iManagedPtr == aManagedPtr && iReferenceCounted == aReferenceCounted)
+            {
+                if (iManagedPtr && iReferenceCounted && !aAddRef)
+                    iManagedPtr->release(); // we already have a reference so the one being given to us is surplus
                 return;
+            }
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
                 throw std::bad_cast();
@@ -488,7 +494,7 @@ namespace neolib
         weak_ref_ptr(const weak_ref_ptr& aOther) noexcept :
             iControlBlock{ nullptr }
         {
-            update_control_block(aOther.ptr());
+            set_control_block(aOther.iControlBlock);
         }
         weak_ref_ptr(const i_ref_ptr<maybe_abstract_t<Interface>>& aOther) noexcept :
             iControlBlock{ nullptr }
@@ -508,7 +514,7 @@ namespace neolib
         }
         weak_ref_ptr& operator=(weak_ref_ptr const& aOther)
         {
-            reset(aOther.ptr());
+            set_control_block(aOther.iControlBlock);
             return *this;
         }
         weak_ref_ptr& operator=(i_ref_ptr<maybe_abstract_t<Interface>> const& aOther)
@@ -602,14 +608,18 @@ namespace neolib
     private:
         void update_control_block(maybe_abstract_t<Interface>* aManagedPtr)
         {
-            auto controlBlock = aManagedPtr != nullptr ? &(*aManagedPtr).control_block() : nullptr;
-            if (iControlBlock != controlBlock)
+            set_control_block(aManagedPtr != nullptr ? &(*aManagedPtr).control_block() : nullptr);
+        }
+        void set_control_block(i_ref_control_block* aControlBlock)
+        {
+            if (iControlBlock != aControlBlock)
             {
-                if (iControlBlock != nullptr)
-                    iControlBlock->release();
-                iControlBlock = controlBlock;
+                auto const previous = iControlBlock;
+                iControlBlock = aControlBlock;
                 if (iControlBlock != nullptr)
                     iControlBlock->add_ref();
+                if (previous != nullptr)
+                    previous->release();
             }
         }
     private:
-- 
2.43.0


From c4e26fb62253df046e4f736ce2a6fc1ff240d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 13/77] fix: time slices can be nested inside a task of an
 outer slice

---
 include/neolib/task/time_slice.hpp | 3 ++-
 src/task/time_slice.cpp            | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/task/time_slice.hpp b/include/neolib/task/time_slice.hpp
index 839903d..168d5b5 100644
--- a/include/neolib/task/time_slice.hpp
+++ b/include/neolib/task/time_slice.hpp
@@ -78,6 +78,7 @@ namespace neolib
             std::chrono::microseconds duration = {};
             std::optional<std::size_t> splitCount;
             std::unordered_map<time_slice_task*, task> tasks;
+            std::vector<time_slice_task*> entered;
         };
     public:
         bool active() const final;
@@ -96,7 +97,7 @@ namespace neolib
         task& current_task() const;
     private:
         static std::vector<std::unique_ptr<slice>>& slices();
-        static std::vector<time_slice_task*>& tasks();
+        std::vector<time_slice_task*>& tasks() const;
     };
 
     class scoped_time_slice
diff --git a/src/task/time_slice.cpp b/src/task/time_slice.cpp
index 118cd40..7ccb46d 100644
--- a/src/task/time_slice.cpp
+++ b/src/task/time_slice.cpp
@@ -131,10 +131,9 @@ namespace neolib
         return tSlices;
     }
 
-    std::vector<time_slice_task*>& time_slice::tasks()
+    std::vector<time_slice_task*>& time_slice::tasks() const
     {
-        thread_local std::vector<time_slice_task*> tTasks;
-        return tTasks;
+        return current_slice().entered; // a nested slice starts with no task of its own
     }
 }
 
-- 
2.43.0


From 70598256a3fe3821de9ccedb560337323980c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 14/77] fix: jars stay whole when an allocation fails, are
 locked throughout and never give a cookie in use

---
 include/neolib/core/jar.hpp | 60 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..8a9ed85 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -249,10 +249,12 @@ namespace neolib
     public:
         bool empty() const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().empty();
         }
         std::size_t size() const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().size();
         }
         bool contains(cookie_type aCookie) const final
@@ -291,14 +293,17 @@ namespace neolib
         }
         const value_type& at_index(std::size_t aIndex) const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         value_type& at_index(std::size_t aIndex) final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         cookie_type insert(maybe_abstract_t<value_type> const& aItem) final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             auto cookie = next_cookie();
             try
             {
@@ -314,6 +319,7 @@ namespace neolib
         template <typename... Args>
         cookie_type emplace(Args&&... aArgs)
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             auto cookie = next_cookie();
             try
             {
@@ -345,19 +351,21 @@ namespace neolib
             if (reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] != INVALID_REVERSE_INDEX)
                 throw cookie_already_added();
             std::optional<iterator> result;
-            if constexpr (!detail::is_smart_ptr_v<value_type>)
-                result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
-            else if constexpr (detail::is_smart_ptr_v<value_type> && std::is_abstract_v<typename value_type::element_type>)
-                result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
-            else if constexpr (detail::is_smart_ptr_v<value_type> && !std::is_abstract_v<typename value_type::element_type>)
-                result = items().insert(items().end(), value_type{ new typename value_type::element_type{std::forward<Args>(aArgs)...} });
+            auto const existingCount = items().size();
             try
             {
+                if constexpr (!detail::is_smart_ptr_v<value_type>)
+                    result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
+                else if constexpr (detail::is_smart_ptr_v<value_type> && std::is_abstract_v<typename value_type::element_type>)
+                    result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
+                else if constexpr (detail::is_smart_ptr_v<value_type> && !std::is_abstract_v<typename value_type::element_type>)
+                    result = items().insert(items().end(), value_type{ new typename value_type::element_type{std::forward<Args>(aArgs)...} });
                 allocated_cookies().insert(allocated_cookies().end(), aCookie);
             }
             catch (...)
             {
-                items().pop_back();
+                while (items().size() > existingCount)
+                    items().pop_back();
                 throw;
             }
             reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] = items().size() - 1;
@@ -377,6 +385,8 @@ namespace neolib
             auto& reverseIndex = reverse_indices()[static_cast<underlying_cookie_type>(aCookie)];
             if (reverseIndex == INVALID_REVERSE_INDEX)
                 throw cookie_invalid();
+            auto result = std::next(items().begin(), reverseIndex);
+            return_cookie(aCookie);
             if (reverseIndex < items().size() - 1)
             {
                 auto& item = items()[reverseIndex];
@@ -385,12 +395,10 @@ namespace neolib
                 std::swap(cookie, allocated_cookies().back());
                 reverse_indices()[static_cast<underlying_cookie_type>(cookie)] = reverseIndex;
             }
-            auto resultIndex = reverseIndex;
             reverseIndex = INVALID_REVERSE_INDEX;
             allocated_cookies().pop_back();
-            return_cookie(aCookie);
             items().pop_back();
-            return resultIndex < items().size() ? std::next(items().begin(), resultIndex) : items().end();
+            return result;
         }
     public:
         cookie_type item_cookie(maybe_abstract_t<value_type> const& aItem) const final
@@ -410,9 +418,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -569,10 +577,12 @@ namespace neolib
     public:
         bool empty() const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().empty();
         }
         std::size_t size() const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().size();
         }
         bool contains(cookie_type aCookie) const
@@ -611,14 +621,17 @@ namespace neolib
         }
         const value_type& at_index(std::size_t aIndex) const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         value_type& at_index(std::size_t aIndex)
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         cookie_type insert(value_type const& aItem)
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             auto cookie = next_cookie();
             try
             {
@@ -634,6 +647,7 @@ namespace neolib
         template <typename... Args>
         cookie_type emplace(Args&&... aArgs)
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             auto cookie = next_cookie();
             try
             {
@@ -665,19 +679,21 @@ namespace neolib
             if (reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] != INVALID_REVERSE_INDEX)
                 throw cookie_already_added();
             std::optional<iterator> result;
-            if constexpr (!detail::is_smart_ptr_v<value_type> || (sizeof...(Args) == 1 && detail::is_smart_ptr_v<std::decay_t<std::tuple_element_t<0, std::tuple<Args...>>>>))
-                result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
-            else if constexpr (detail::is_smart_ptr_v<value_type> && std::is_abstract_v<typename value_type::element_type>)
-                result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
-            else if constexpr (detail::is_smart_ptr_v<value_type> && !std::is_abstract_v<typename value_type::element_type>)
-                result = items().insert(items().end(), value_type{ new typename value_type::element_type{std::forward<Args>(aArgs)...} });
+            auto const existingCount = items().size();
             try
             {
+                if constexpr (!detail::is_smart_ptr_v<value_type> || (sizeof...(Args) == 1 && detail::is_smart_ptr_v<std::decay_t<std::tuple_element_t<0, std::tuple<Args...>>>>))
+                    result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
+                else if constexpr (detail::is_smart_ptr_v<value_type> && std::is_abstract_v<typename value_type::element_type>)
+                    result = items().emplace(items().end(), std::forward<Args>(aArgs)...);
+                else if constexpr (detail::is_smart_ptr_v<value_type> && !std::is_abstract_v<typename value_type::element_type>)
+                    result = items().insert(items().end(), value_type{ new typename value_type::element_type{std::forward<Args>(aArgs)...} });
                 allocated_cookies().insert(allocated_cookies().end(), aCookie);
             }
             catch (...)
             {
-                items().pop_back();
+                while (items().size() > existingCount)
+                    items().pop_back();
                 throw;
             }
             reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] = items().size() - 1;
@@ -697,6 +713,8 @@ namespace neolib
             auto& reverseIndex = reverse_indices()[static_cast<underlying_cookie_type>(aCookie)];
             if (reverseIndex == INVALID_REVERSE_INDEX)
                 throw cookie_invalid();
+            auto result = std::next(items().begin(), reverseIndex);
+            return_cookie(aCookie);
             if (reverseIndex < items().size() - 1)
             {
                 auto& item = items()[reverseIndex];
@@ -705,12 +723,10 @@ namespace neolib
                 std::swap(cookie, allocated_cookies().back());
                 reverse_indices()[static_cast<underlying_cookie_type>(cookie)] = reverseIndex;
             }
-            auto resultIndex = reverseIndex;
             reverseIndex = INVALID_REVERSE_INDEX;
             allocated_cookies().pop_back();
-            return_cookie(aCookie);
             items().pop_back();
-            return resultIndex < items().size() ? std::next(items().begin(), resultIndex) : items().end();
+            return result;
         }
     public:
         cookie_type item_cookie(value_type const& aItem) const
@@ -730,9 +746,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From 141e47519e1a5fe38f8e07774f31827117060c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 15/77] fix: zip archives can be read on LP64, damage to their
 directories is reported, nothing is extracted outside the target directory

---
 include/neolib/file/zip.hpp |  15 ++-
 src/file/zip.cpp            | 195 ++++++++++++++++--------------------
 2 files changed, 98 insertions(+), 112 deletions(-)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 94cbbdd..63d0f58 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -36,6 +36,9 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <cstdint>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <memory>
 
@@ -63,8 +66,10 @@ namespace neolib
         bool ok() const { return !iError; }
     private:
         bool parse();
-        const uint8_t* data_front();
-        const uint8_t* data_back();
+        bool do_extract_to(size_t aIndex, buffer_type& aBuffer) const;
+        const uint8_t* data_front() const;
+        std::size_t data_size() const;
+        static bool plausible_size(std::size_t aCompressedSize, std::size_t aUncompressedSize);
     private:
         buffer_type iZipFile;
         const uint8_t* iZipFileData;
@@ -73,10 +78,10 @@ namespace neolib
         struct dir_header;
         struct dir_file_header;
         struct local_header;
-        typedef unsigned long dword;
-        typedef unsigned short word;
+        typedef std::uint32_t dword;
+        typedef std::uint16_t word;
         typedef unsigned char byte;
-        std::vector<const dir_file_header*> iDirEntries;
+        std::vector<std::size_t> iDirEntries; // offsets, valid in copies too
         std::vector<std::string> iFiles;
     };
 }
diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b2c6fc3..387641e 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -34,6 +34,8 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
+#include <cstring>
 #include <fstream>
 #include <string>
 #include <zlib.h>
@@ -46,15 +48,6 @@
 
 namespace neolib
 {
-    namespace
-    {
-        template <typename T>
-        inline const char* byte_cast(const T* p)
-        {
-            return reinterpret_cast<const char*>(p);
-        }
-    }
-
     struct zip::local_header
     {
         enum { Signature = 0x04034b50 };
@@ -114,21 +107,19 @@ namespace neolib
         if (fileSize > iZipFile.max_size())
             throw zip_file_too_big();
         iZipFile.resize(static_cast<std::size_t>(fileSize));
-        iZipFileData = &iZipFile[0];
-        iZipFileDataLength = iZipFile.size();
         std::ifstream input(aZipFilePath, std::ios::binary | std::ios::in);
-        if (input.read(reinterpret_cast<char*>(&iZipFile[0]), iZipFile.size()))
+        if (input.read(reinterpret_cast<char*>(iZipFile.data()), iZipFile.size()))
             parse();
         else
             iError = true;
     }
 
-    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{}, iZipFileDataLength{}, iError{false}
     {
         parse();
     }
 
-    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{}, iZipFileDataLength{}, iError{false}
     {
         parse();
     }
@@ -151,10 +142,16 @@ namespace neolib
         buffer_type data;
         if (extract_to(aIndex, data))
         {
-            std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
-            out.write(reinterpret_cast<const char*>(data[0]), data.size());
-            if (out)
-                return true;
+            std::filesystem::path const filePath{ file_path(aIndex) };
+            bool const outsideTarget = filePath.has_root_path() || std::find(filePath.begin(), filePath.end(), "..") != filePath.end();
+            if (!outsideTarget)
+            {
+                std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
+                out.write(reinterpret_cast<const char*>(data.data()), data.size());
+                out.close();
+                if (out)
+                    return true;
+            }
         }
         iError = true;
         return false;
@@ -164,71 +161,63 @@ namespace neolib
     {
         if (iError)
             return false;
-        if (aIndex > iFiles.size())
+        if (aIndex >= iFiles.size())
             return false;
-        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
-        if (byte_cast(lh) < byte_cast(data_front()) ||
-            byte_cast(lh) > byte_cast(data_back()) - sizeof(local_header) + 1)
-        {
-            iError = true;
+        if (do_extract_to(aIndex, aBuffer))
+            return true;
+        aBuffer.clear();
+        iError = true;
+        return false;
+    }
+
+    bool zip::do_extract_to(size_t aIndex, buffer_type& aBuffer) const
+    {
+        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_front() + iDirEntries[aIndex]);
+        if (data_size() < sizeof(local_header) || fh->iHeaderOffset > data_size() - sizeof(local_header))
             return false;
-        }
+        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + fh->iHeaderOffset);
         if (lh->iSignature != local_header::Signature)
-        {
-            iError = true;
             return false;
-        }
-        const uint8_t* compressedData = reinterpret_cast<const uint8_t*>(lh + 1) + lh->iFilenameLength + lh->iExtraLength;
-        if (byte_cast(compressedData) < byte_cast(data_front()) ||
-            byte_cast(compressedData) + lh->iCompressedSize - 1 > byte_cast(data_back()))
-        {
-            iError = true;
+        // sizes and checksum are absent from the local header if they follow the data (flag bit 3): those in the directory are used
+        const bool sizesFollowData = (fh->iFlag & 0x08) != 0;
+        if (lh->iCompression != fh->iCompression || lh->iFilenameLength != fh->iFilenameLength ||
+            (!sizesFollowData && (lh->iCrc32 != fh->iCrc32 || lh->iCompressedSize != fh->iCompressedSize || lh->iUncompressedSize != fh->iUncompressedSize)))
             return false;
-        }
-        if (lh->iCompression == Z_NO_COMPRESSION)
-        {
-            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
-            {
-                iError = true;
-                return false;
-            }
-            aBuffer.resize(lh->iCompressedSize);
-            std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
-            return true;
-        }
-        else if (lh->iCompression != Z_DEFLATED)
-        {
-            iError = true;
+        const std::size_t dataOffset = fh->iHeaderOffset + sizeof(local_header) + lh->iFilenameLength + lh->iExtraLength;
+        if (dataOffset > data_size() || fh->iCompressedSize > data_size() - dataOffset)
             return false;
-        }
-        z_stream stream;
-        stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
-        stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
-        aBuffer.resize(lh->iUncompressedSize);
-        stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
-        stream.avail_out = static_cast<uInt>(aBuffer.size());
-        stream.zalloc = static_cast<alloc_func>(0);
-        stream.zfree = static_cast<free_func>(0);
-        int result = inflateInit2(&stream, -MAX_WBITS);
-        if (result == Z_OK)
+        if (std::memcmp(lh + 1, fh + 1, fh->iFilenameLength) != 0)
+            return false;
+        const uint8_t* compressedData = data_front() + dataOffset;
+        if (fh->iCompression == Z_NO_COMPRESSION)
         {
-            result = inflate(&stream, Z_FINISH);
-            inflateEnd(&stream);
-            if (result == Z_STREAM_END)
-                result = Z_OK;
-            inflateEnd(&stream);
+            if (fh->iUncompressedSize != fh->iCompressedSize)
+                return false;
+            aBuffer.assign(compressedData, compressedData + fh->iCompressedSize);
         }
-        if (result != Z_OK)
+        else if (fh->iCompression == Z_DEFLATED)
         {
-            iError = true;
-            return false;
+            if (!plausible_size(fh->iCompressedSize, fh->iUncompressedSize))
+                return false;
+            aBuffer.resize(fh->iUncompressedSize);
+            uint8_t none = 0;
+            z_stream stream = {};
+            stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
+            stream.avail_in = static_cast<uInt>(fh->iCompressedSize);
+            stream.next_out = static_cast<Bytef*>(!aBuffer.empty() ? aBuffer.data() : &none);
+            stream.avail_out = static_cast<uInt>(aBuffer.size());
+            int result = inflateInit2(&stream, -MAX_WBITS);
+            if (result == Z_OK)
+            {
+                result = inflate(&stream, Z_FINISH);
+                inflateEnd(&stream);
+            }
+            if (result != Z_STREAM_END || stream.total_out != aBuffer.size())
+                return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
-        {
-            iError = true;
+        else
             return false;
-        }
-        return true;
+        return crc32(aBuffer.data(), static_cast<uint32_t>(aBuffer.size())) == fh->iCrc32;
     }
 
     std::string zip::extract_to_string(size_t aIndex)
@@ -245,55 +234,47 @@ namespace neolib
 
     bool zip::parse()
     {
-        if (iZipFileDataLength < sizeof(dir_header))
-        {
-            iError = true;
+        iError = true; // until parsed
+        if (data_size() < sizeof(dir_header))
             return false;
-        }
-        const dir_header* dh = reinterpret_cast<const dir_header*>(data_back() - sizeof(dir_header) + 1);
+        const std::size_t dirEnd = data_size() - sizeof(dir_header);
+        const dir_header* dh = reinterpret_cast<const dir_header*>(data_front() + dirEnd);
         if (dh->iSignature != dir_header::Signature)
-        {
-            iError = true;
             return false;
-        }
-        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_back() - (dh->iDirSize + sizeof(dir_header)) + 1);
+        if (dh->iDirSize > dirEnd || dh->iDirEntries != dh->iTotalDirEntries)
+            return false;
+        std::size_t offset = dirEnd - dh->iDirSize;
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
-            if (byte_cast(fh) < byte_cast(data_front()) ||
-                byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
-            {
-                iError = false;
+            const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_front() + offset);
+            if (dirEnd - offset < sizeof(*fh) || fh->iSignature != dir_file_header::Signature)
                 return false;
-            }
-            if (fh->iSignature != dir_file_header::Signature)
-            {
-                iError = false;
+            const std::size_t entrySize = sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength;
+            if (dirEnd - offset < entrySize)
                 return false;
-            }
-            else
-            {
-                if (byte_cast(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength) > 
-                    byte_cast(dh))
-                {
-                    iError = false;
-                    return false;
-                }
-                iDirEntries.push_back(fh);
-                std::string filename(reinterpret_cast<const char*>(fh + 1), fh->iFilenameLength);
-                iFiles.push_back(filename);
-                fh = reinterpret_cast<const dir_file_header*>(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength);
-            }
+            iDirEntries.push_back(offset);
+            iFiles.push_back(std::string(reinterpret_cast<const char*>(fh + 1), fh->iFilenameLength));
+            offset += entrySize;
         }
+        if (offset != dirEnd)
+            return false;
+        iError = false;
         return true;
     }
 
-    const uint8_t* zip::data_front()
+    const uint8_t* zip::data_front() const
+    {
+        return iZipFileData != nullptr ? iZipFileData : iZipFile.data();
+    }
+
+    std::size_t zip::data_size() const
     {
-        return iZipFileData;
+        return iZipFileData != nullptr ? iZipFileDataLength : iZipFile.size();
     }
 
-    const uint8_t* zip::data_back()
+    bool zip::plausible_size(std::size_t aCompressedSize, std::size_t aUncompressedSize)
     {
-        return (iZipFileData + iZipFileDataLength - 1);
+        // deflate makes nothing smaller than 1/1032 of its size: do not allocate what a damaged header asks for
+        return aUncompressedSize / 1032 <= aCompressedSize;
     }
 }
-- 
2.43.0


From 6b06b1ae52f50906b37e16ada5af1b93ece179b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 16/77] fix: gunzip verifies checksum and length and accepts
 empty content

---
 src/file/gunzip.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index b78ffa2..2950bac 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -35,6 +35,7 @@
 
 #include <neolib/neolib.hpp>
 #include <zlib.h>
+#include <neolib/core/crc.hpp>
 #include <neolib/file/gunzip.hpp>
 
 namespace neolib
@@ -97,23 +98,27 @@ namespace neolib
         }
         if (aGzipData.end() - i < 8)
                 return;
-        const char* compressedData = &*i;
+        const char* compressedData = aGzipData.data() + (i - aGzipData.begin());
         std::size_t compressedSize = aGzipData.end() - i - 8;
         i += compressedSize; 
-        unsigned long crc32 = static_cast<unsigned char>(*i++);
-        crc32 += (static_cast<unsigned char>(*i++) << 8);
-        crc32 += (static_cast<unsigned char>(*i++) << 16); 
-        crc32 += (static_cast<unsigned char>(*i++) << 24);    
-        unsigned long isize = static_cast<unsigned char>(*i++); 
-        isize += (static_cast<unsigned char>(*i++) << 8);
-        isize += (static_cast<unsigned char>(*i++) << 16); 
-        isize += (static_cast<unsigned char>(*i++) << 24);
-        unsigned long uncompressedSize = isize;
-        z_stream stream;
+        std::uint32_t crc = static_cast<unsigned char>(*i++);
+        crc += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 8);
+        crc += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 16);
+        crc += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        std::uint32_t isize = static_cast<unsigned char>(*i++);
+        isize += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 8);
+        isize += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 16);
+        isize += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        std::size_t uncompressedSize = isize;
+        // deflate makes nothing smaller than 1/1032 of its size: do not allocate what a damaged trailer asks for
+        if (uncompressedSize / 1032 > compressedSize)
+            return;
+        char none = 0;
+        z_stream stream = {};
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
         iUncompressedData.resize(uncompressedSize);
-        stream.next_out = reinterpret_cast<Bytef*>(&iUncompressedData[0]);
+        stream.next_out = reinterpret_cast<Bytef*>(!iUncompressedData.empty() ? iUncompressedData.data() : &none);
         stream.avail_out = static_cast<uInt>(iUncompressedData.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -122,11 +127,9 @@ namespace neolib
         {
             result = inflate(&stream, Z_FINISH);
             inflateEnd(&stream);
-            if (result == Z_STREAM_END)
-                result = Z_OK;
-            inflateEnd(&stream);
         }
-        iOk = (result == Z_OK);
+        iOk = (result == Z_STREAM_END && stream.avail_in == 0 && stream.total_out == uncompressedSize &&
+            crc32(reinterpret_cast<const std::uint8_t*>(iUncompressedData.data()), static_cast<std::uint32_t>(uncompressedSize)) == crc);
         if (!iOk)
         {
             iUncompressedData.clear();
-- 
2.43.0


From 593ad8c4b69da2ebd60a489c0db88cf069823199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 17/77] fix: settings: a save that fails or is interrupted
 keeps the settings saved before

save() truncated the file before writing it and ignored errors. The new
contents are now written beside it and renamed into place; a failure is
reported with settings_not_saved. A key that is only the prefix of another
key no longer loads as an empty value.
---
 include/neolib/app/i_settings.hpp |  1 +
 src/app/settings.cpp              | 26 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/neolib/app/i_settings.hpp b/include/neolib/app/i_settings.hpp
index 1804874..1056897 100644
--- a/include/neolib/app/i_settings.hpp
+++ b/include/neolib/app/i_settings.hpp
@@ -73,6 +73,7 @@ namespace neolib
         struct setting_already_registered : std::logic_error { setting_already_registered() : std::logic_error("i_settings::setting_already_registered") {} };
         struct category_not_found : std::logic_error { category_not_found() : std::logic_error("i_settings::category_not_found") {} };
         struct group_not_found : std::logic_error { group_not_found() : std::logic_error("i_settings::group_not_found") {} };
+        struct settings_not_saved : std::runtime_error { settings_not_saved() : std::runtime_error("i_settings::settings_not_saved") {} };
         struct setting_not_found : std::logic_error { setting_not_found() : std::logic_error("i_settings::setting_not_found") {} };
     public:
         virtual void register_category(i_string const& aCategorySubkey, i_string const& aCategoryTitle = string{}) = 0;
diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..1c6a86a 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -34,6 +34,7 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <filesystem>
 #include <neolib/core/vecarray.hpp>
 #include <neolib/app/settings.hpp>
 
@@ -86,7 +87,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
@@ -233,9 +234,8 @@ namespace neolib
     {
         if (!iFileName.empty())
         {
-            std::ofstream output(iFileName.c_str());
-            iStore.reset(new xml());
-            iStore->root().name() = "settings";
+            auto store = std::make_unique<xml>();
+            store->root().name() = "settings";
             for (auto const& setting : iSettings)
             {
                 if (setting.second()->is_default())
@@ -248,14 +248,28 @@ namespace neolib
                 for (auto const& keyBit : keyBits)
                 {
                     if (!node)
-                        node = iStore->root().find_or_append(keyBit);
+                        node = store->root().find_or_append(keyBit);
                     else
                         node = (**node).find_or_append(keyBit);
                 }
                 (**node).set_attribute("type", setting.second()->value().type_name().to_std_string());
                 (**node).set_attribute("value", setting.second()->value_as_string());
             }
-            iStore->write(output);
+            // the saved settings are replaced only once their replacement is complete
+            std::string const fileName = iFileName.to_std_string();
+            std::string const newFileName = fileName + ".new";
+            std::ofstream output(newFileName);
+            bool saved = store->write(output);
+            output.close();
+            std::error_code ec;
+            if (saved && output)
+                std::filesystem::rename(newFileName, fileName, ec);
+            if (!saved || !output || ec)
+            {
+                std::filesystem::remove(newFileName, ec);
+                throw settings_not_saved();
+            }
+            iStore = std::move(store);
         }
         iModified = false;
     }
-- 
2.43.0


From 0bff0c8fec34cdddf7f39c5c2c11069e6222a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 18/77] fix: xml: write() reports a failed stream and keeps
 text after a string ending in a newline

---
 include/neolib/file/xml.hpp |  1 +
 include/neolib/file/xml.inl | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 69a371e..34b71f5 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -505,6 +505,7 @@ namespace neolib
             node_writer(std::basic_ostream<CharT>& aStream) : iStream(aStream), iLastWasNewLine(false) {}
             template <typename T>
             node_writer& operator<<(const T& aData);
+            node_writer& operator<<(std::basic_ostream<CharT>& (&aEndl)(std::basic_ostream<CharT>&));
             node_writer& operator<<(const string& aData);
         private:
             node_writer& operator=(const node_writer&); // undefined
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..7583f00 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -423,9 +423,16 @@ namespace neolib
     template <typename CharT, typename Alloc>
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
+    {
+        iStream << aData;
+        iLastWasNewLine = false;
+        return *this;
+    }
+    template <typename CharT, typename Alloc>
+    typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(std::basic_ostream<CharT>& (&aEndl)(std::basic_ostream<CharT>&))
     {
         if (!iLastWasNewLine)
-            iStream << aData;
+            iStream << aEndl;
         iLastWasNewLine = false;
         return *this;
     }
@@ -802,7 +809,7 @@ namespace neolib
         node_writer theWriter(buffer);
         write_node(theWriter, iDocument, 0);
         aStream.write(buffer.str().c_str(), buffer.str().length());
-        return true;
+        return !!aStream;
     }
 
     template <typename CharT, typename Alloc>
-- 
2.43.0


From 0dfa2afe41d17b0662190afa789fd50c46558979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 19/77] fix: to_std_string()/from_std_string() round-trip
 floating point values and characters

---
 include/neolib/core/string_utils.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..fb0f13d 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -38,6 +38,9 @@
 #include <neolib/neolib.hpp>
 #include <string>
 #include <sstream>
+#include <iomanip>
+#include <limits>
+#include <type_traits>
 #include <vector>
 #include <list>
 #include <set>
@@ -97,6 +100,16 @@ namespace neolib
     {
         std::ostringstream oss;
         oss << aValue;
+        if constexpr (std::is_floating_point_v<T>)
+        {
+            // default precision is kept for values it represents exactly
+            T check{};
+            if (!(std::istringstream{ oss.str() } >> check) || check != aValue)
+            {
+                oss.str({});
+                oss << std::setprecision(std::numeric_limits<T>::max_digits10) << aValue;
+            }
+        }
         return oss.str();
     }
 
@@ -107,7 +120,12 @@ namespace neolib
             return aValueAsString;
         else
         {
-            T result;
+            if constexpr (sizeof(T) == 1 && std::is_integral_v<T> && !std::is_same_v<T, bool>)
+            {
+                if (aValueAsString.size() == 1) // a character, which might be white space
+                    return static_cast<T>(aValueAsString[0]);
+            }
+            T result{};
             std::istringstream iss{ aValueAsString };
             iss >> result;
             return result;
-- 
2.43.0


From 9876ecbed59d848cf5fbd450c3c81bc9f43e35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 20/77] fix: move_file() to a path without a directory;
 failures are reported, not thrown

---
 src/file/file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 90debd7..3f736c5 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -210,8 +210,11 @@ namespace neolib
     bool move_file(const std::string& aPathFrom, const std::string& aPathTo)
     {
         std::error_code ec;
-        std::filesystem::create_directories(std::filesystem::path(convert_path(aPathTo)).parent_path());
-        std::filesystem::rename(convert_path(aPathFrom), convert_path(aPathTo), ec);
+        auto const directory = std::filesystem::path(convert_path(aPathTo)).parent_path();
+        if (!directory.empty())
+            std::filesystem::create_directories(directory, ec);
+        if (!ec)
+            std::filesystem::rename(convert_path(aPathFrom), convert_path(aPathTo), ec);
         return !ec;
     }
 
-- 
2.43.0


From 379f066e04cc31a6f5edac2f25d6685619440dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 21/77] fix: xml: a truncated document, a failing stream or an
 empty comment no longer reads as a good document

A document ending inside a tag was also read past its end.
---
 include/neolib/file/xml.inl | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 7583f00..06ceeea 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -521,7 +521,8 @@ namespace neolib
     {
         tag nextTag;
         nextTag.first = std::find(aNext, aDocumentEnd, CharT(characters<CharT>::sElementTagStart));
-        if (nextTag.first != aDocumentEnd)
+        bool const isTag = (nextTag.first != aDocumentEnd);
+        if (isTag)
             ++nextTag.first;
         nextTag.second = std::find(nextTag.first, aDocumentEnd, CharT(characters<CharT>::sElementTagEnd));
         if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCommentStart.size() && std::equal(nextTag.first, nextTag.first+sCommentStart.size(), sCommentStart.begin()))
@@ -529,24 +530,18 @@ namespace neolib
             nextTag.iType = node::Comment;
             nextTag.first += sCommentStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCommentEnd.begin(), sCommentEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDeclarationStart.size() && std::equal(nextTag.first, nextTag.first+sDeclarationStart.size(), sDeclarationStart.begin()))
         {
             nextTag.iType = node::Declaration;
             nextTag.first += sDeclarationStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sDeclarationEnd.begin(), sDeclarationEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCdataStart.size() && std::equal(nextTag.first, nextTag.first+sCdataStart.size(), sCdataStart.begin()))
         {
             nextTag.iType = node::Cdata;
             nextTag.first += sCdataStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCdataEnd.begin(), sCdataEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDtdStart.size() + 1 && std::equal(nextTag.first, nextTag.first+sDtdStart.size(), sDtdStart.begin()) &&
             sWhitespace.find(*(nextTag.first + sDtdStart.size())))
@@ -565,8 +560,11 @@ namespace neolib
                     break;
                 ++nextTag.second;
             }
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
+        }
+        if (isTag && nextTag.second == aDocumentEnd) // the document ends inside the tag
+        {
+            iError = true;
+            nextTag.first = aDocumentEnd;
         }
         return nextTag;
     }
@@ -574,7 +572,8 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second ||
+            (aStartTag.first == aStartTag.second && aStartTag.type() == node::Element))
             return aDocumentEnd;
 
         switch(aStartTag.type())
@@ -652,7 +651,7 @@ namespace neolib
                     token contentToken = next_token(sTagDelimeter, true, next, aDocumentEnd);
                     next = contentToken.second;
                     if (next == aDocumentEnd)
-                        return next;
+                        break;
                     string content(contentToken.first, contentToken.second);
                     strip_if(content);
                     bool hasContent = false;
@@ -680,7 +679,7 @@ namespace neolib
                     tag nextTag = next_tag(next, aDocumentEnd); 
                     if (nextTag.first > nextTag.second)
                         return next;
-                    if (nextTag.first == nextTag.second)
+                    if (nextTag.first == nextTag.second && (nextTag.first == aDocumentEnd || nextTag.type() == node::Element))
                     {
                         next= nextTag.first;
                         continue;
@@ -717,6 +716,7 @@ namespace neolib
                     }
                     next = parse(theElement.back(), nextTag, aDocumentEnd);
                 }
+                iError = true; // the document ends inside the element
                 return next;
             }
             // no break required here due to return above (warning dampening)
@@ -790,15 +790,21 @@ namespace neolib
                 document.append(buffer, static_cast<typename string::size_type>(aStream.gcount()));
         }
 
+        if (aStream.bad())
+        {
+            iError = true;
+            return false;
+        }
+
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
+            while(nextTag.first != document.cend() && nextTag.first == nextTag.second && nextTag.type() == node::Element)
                 nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
 
-        return got_root();
+        return !iError && got_root();
     }
 
     template <typename CharT, typename Alloc>
@@ -956,7 +962,8 @@ namespace neolib
         while((pos = newString.find(characters<CharT>::sAmpersandChar, pos)) != string::npos)
         {
             typename string::size_type endPos = newString.find(characters<CharT>::sSemicolonChar, pos);
-            if (endPos == string::npos || (pos+1 == endPos))
+            if (endPos == string::npos || (pos+1 == endPos) ||
+                (pos+2 == endPos && const_cast<const string&>(newString)[pos+1] == characters<CharT>::sHashChar))
             {
                 iError = true;
                 return aString;
-- 
2.43.0


From cab5cc6feb697d295c8db4693607e8b3e54467fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 22/77] fix: json: truncated arrays, failing streams and blank
 documents are refused; a json object can be read into again

write() reports a stream that failed.
---
 include/neolib/file/json.inl | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..d763084 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1107,6 +1107,8 @@ namespace neolib
     inline void basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::clear()
     {
         iCursor = decltype(iCursor){};
+        iCompositeValueStack.clear();
+        iRoot.reset();
         document().clear();
         iUtf16HighSurrogate = std::nullopt;
     }
@@ -1197,6 +1199,12 @@ namespace neolib
                 document().append(buffer, static_cast<typename json_string::size_type>(aInput.gcount()));
         }
 
+        if (aInput.bad())
+        {
+            iErrorText = "input stream bad";
+            return false;
+        }
+
         if (document().empty())
         {
             iErrorText = "empty document";
@@ -1337,6 +1345,16 @@ namespace neolib
                         create_parse_error();
                         return false;
                     }
+                    if (!has_root())
+                    {
+                        iErrorText = "empty document";
+                        return false;
+                    }
+                    if (!iCompositeValueStack.empty())
+                    {
+                        create_parse_error("unexpected end of document");
+                        return false;
+                    }
                     return true;
                 default:
                     if (currentState == nextState)
@@ -1686,7 +1704,9 @@ namespace neolib
     inline bool basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::write(const std::string& aPath, const string_type& aIndent)
     {
         std::ofstream output{ aPath, std::ofstream::out | std::ofstream::trunc };
-        return write(output, aIndent);
+        bool const ok = write(output, aIndent);
+        output.close();
+        return ok && output;
     }
 
     template <json_syntax Syntax, typename Alloc, typename CharT, typename Traits, typename CharAlloc>
@@ -1833,7 +1853,7 @@ namespace neolib
             if (!i.value().is_last_sibling() && (!i.value().is_composite() || i.value().is_empty_composite()))
                 aOutput << ',' << std::endl;
         }
-        return true;
+        return !!aOutput;
     }
 
     template <json_syntax Syntax, typename Alloc, typename CharT, typename Traits, typename CharAlloc>
-- 
2.43.0


From 1c713780e6dd1f12bdb99275eeb371b8ef3e6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 23/77] fix: event: queued calls keep the arguments they were
 triggered with, skip removed subscriptions and survive a throwing handler

---
 include/neolib/task/event.hpp   | 14 ++++++++++----
 include/neolib/task/i_event.hpp |  3 +++
 src/task/event.cpp              | 21 ++++++++++++++++++---
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..dc6d4d2 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -40,6 +40,7 @@
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <neolib/core/lifetime.hpp>
 #include <neolib/core/scoped.hpp>
+#include <neolib/core/string.hpp>
 #include <neolib/task/i_async_task.hpp>
 #include <neolib/task/i_event.hpp>
 
@@ -68,9 +69,14 @@ namespace neolib
             void const* event;
             destroyed_flag eventDestroyed;
             void const* slot;
-            destroyed_flag slotDestroyed;
+            ref_ptr<i_slot_base> slotRef;
             std::function<void()> callback;
         };
+        // a queued call is made after the trigger has returned so it keeps its own copy of what it was triggered with
+        template <typename Arg>
+        struct queued_argument { using type = Arg; };
+        template <typename Arg>
+        struct queued_argument<Arg const&> { using type = std::conditional_t<std::is_base_of_v<i_string, Arg>, string, std::conditional_t<std::is_copy_constructible_v<Arg> && !std::is_polymorphic_v<Arg>, Arg, Arg const&>>; };
         struct queue
         {
             std::vector<queue_entry> multiple;
@@ -87,7 +93,7 @@ namespace neolib
         void enqueue(i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs)
         {
             auto& event = aSlot.event();
-            std::tuple<Args...> args{ aArgs... };
+            std::tuple<typename queued_argument<Args>::type...> args{ aArgs... };
             auto callback = [&, args]()
             {
                 std::apply([&](Args... aArgs) { aSlot.call(aArgs...); }, args);
@@ -103,10 +109,10 @@ namespace neolib
                     existing->second.callback = callback;
                     return;
                 }
-                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
+                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, ref_ptr<i_slot_base>{ aSlot }, callback });
             }
             else
-                iQueue.multiple.emplace_back(&event, event, &aSlot, aSlot, callback);
+                iQueue.multiple.push_back(queue_entry{ &event, event, &aSlot, ref_ptr<i_slot_base>{ aSlot }, callback });
         }
     public:
         void register_with_task(i_async_task& aTask) final;
diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..550288f 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -231,6 +231,9 @@ namespace neolib
     public:
         void remove() final
         {
+            if (!this->is_alive())
+                return;
+            this->set_destroying(); // a removed slot is not called again, even if a trigger or a queue still refers to it
             if (!iEventDestroyed)
                 event().remove_slot(*this);
         }
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..8baaf08 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -110,19 +110,34 @@ namespace neolib
             workLists.push_back(std::make_unique<work_list>());
         auto& workList = *workLists[stack - 1];
         workList.swap(iQueue.multiple);
+        auto const firstSingle = workList.size();
         for (auto const& se : iQueue.single)
             workList.push_back(se.second);
         iQueue.single.clear();
         lock.unlock();
         bool didSome = false;
-        for (auto& entry : workList)
+        std::size_t done = 0;
+        scoped_cleanup cleanup{ [&]()
+            {
+                if (done < workList.size()) // a handler threw: what it did not get to is for the next pump
+                {
+                    lock.lock();
+                    if (done < firstSingle)
+                        iQueue.multiple.insert(iQueue.multiple.begin(), std::next(workList.begin(), done), std::next(workList.begin(), firstSingle));
+                    for (auto i = std::max(done, firstSingle); i < workList.size(); ++i)
+                        iQueue.single.emplace(std::make_pair(workList[i].event, workList[i].slot), workList[i]);
+                    lock.unlock();
+                }
+                workList.clear();
+            } };
+        while (done < workList.size())
         {
-            if (entry.eventDestroyed || entry.slotDestroyed)
+            auto const& entry = workList[done++];
+            if (entry.eventDestroyed || !entry.slotRef->is_alive())
                 continue;
             entry.callback();
             didSome = true;
         }
-        workList.clear();
         return didSome;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 592eb228c7d9a461330acc0b5313cda56f61e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 24/77] fix: event: each trigger has its own work list
 (accept() from other threads, throwing handlers, events destroyed by a
 handler, removed subscriptions)

---
 include/neolib/task/event.hpp | 71 +++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index dc6d4d2..aaefb7a 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -134,9 +134,40 @@ namespace neolib
         typedef std::vector<ref_ptr<i_slot<Args...>>> slot_list;
         struct work_list
         {
+            event const* owner = nullptr;
             slot_list slots;
             bool accepted = false;
         };
+        struct work_list_stack
+        {
+            std::vector<std::unique_ptr<work_list>> lists;
+            std::size_t depth = 0;
+        };
+        class scoped_work_list
+        {
+        public:
+            scoped_work_list(event const& aOwner) : iStack{ work_lists() }
+            {
+                if (iStack.lists.size() == iStack.depth)
+                    iStack.lists.push_back(std::make_unique<work_list>());
+                iWorkList = iStack.lists[iStack.depth++].get();
+                iWorkList->owner = &aOwner;
+                iWorkList->accepted = false;
+            }
+            ~scoped_work_list()
+            {
+                iWorkList->slots.clear();
+                --iStack.depth;
+            }
+        public:
+            work_list& operator*() const
+            {
+                return *iWorkList;
+            }
+        private:
+            work_list_stack& iStack;
+            work_list* iWorkList;
+        };
     public:
         event()
         {
@@ -155,7 +186,6 @@ namespace neolib
             iTriggerType = aOther.iTriggerType;
             iSlots = {};
             iHasSlots = false;
-            iActiveWorkList = {};
             return *this;
         }
     public:
@@ -173,20 +203,17 @@ namespace neolib
             if (!has_slots())
                 return trigger_result::Unaccepted;
 
-            std::unique_lock lock{ iMutex };
             destroyed_flag destroyed{ *this };
-            thread_local std::size_t stack;
-            scoped_counter<std::size_t> stackCounter{ stack };
-            thread_local std::vector<std::unique_ptr<work_list>> workLists;
-            if (workLists.size() < stack)
-                workLists.push_back(std::make_unique<work_list>());
-            auto& workList = *workLists[stack - 1];
-            scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
+            scoped_work_list scopedWorkList{ *this };
+            auto& workList = *scopedWorkList;
+            std::unique_lock lock{ iMutex };
             workList.slots = iSlots;
             lock.unlock();
 
             for (auto slot : workList.slots)
             {
+                if (!slot->is_alive())
+                    continue;
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
@@ -194,15 +221,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
@@ -213,9 +234,17 @@ namespace neolib
         }
         void accept() const final
         {
-            std::unique_lock lock{ iMutex };
-            if (iActiveWorkList)
-                iActiveWorkList->accepted = true;
+            // the innermost trigger of this event in the calling thread
+            auto& stack = work_lists();
+            for (auto depth = stack.depth; depth > 0; --depth)
+            {
+                auto& workList = *stack.lists[depth - 1];
+                if (workList.owner == this)
+                {
+                    workList.accepted = true;
+                    break;
+                }
+            }
         }
     public:
         bool has_slots() const final
@@ -240,6 +269,11 @@ namespace neolib
             iHasSlots = !iSlots.empty();
         }
     private:
+        static work_list_stack& work_lists()
+        {
+            thread_local work_list_stack tWorkLists;
+            return tWorkLists;
+        }
         void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
             aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
@@ -249,7 +283,6 @@ namespace neolib
         neolib::trigger_type iTriggerType = neolib::trigger_type::Synchronous;
         mutable slot_list iSlots;
         mutable std::atomic<bool> iHasSlots = false;
-        mutable work_list* iActiveWorkList = nullptr;
     };
 
     #define define_declared_event( name, declName, ... ) \
-- 
2.43.0


From ff256a74dc55778bb820b8753d995c326f8e8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 25/77] fix: event: an event may be destroyed while it has
 subscriptions

---
 include/neolib/task/event.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index aaefb7a..aa3be1a 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -178,6 +178,8 @@ namespace neolib
         }
         ~event()
         {
+            if (!this->is_destroyed())
+                this->set_destroyed();
         }
     public:
         event& operator=(event const& aOther)
-- 
2.43.0


From fd4e4ede7160e745bb8647a30a75956ae83703cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 26/77] fix: event: triggering while a subscribing thread
 starts or exits

---
 include/neolib/task/event.hpp | 21 +++++++++++++++++----
 src/task/event.cpp            | 33 +++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index aa3be1a..96b3480 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -89,6 +89,16 @@ namespace neolib
         async_event_queue();
         ~async_event_queue();
     public:
+        template <typename... Args>
+        static void enqueue(std::thread::id aThreadId, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs)
+        {
+            std::scoped_lock lock{ instances_mutex() }; // a queue goes when its thread exits
+            auto const queue = find_instance(aThreadId);
+            if (queue)
+                queue->enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
+            else if (aSlot.is_alive())
+                throw std::logic_error("neolib::async_event_queue::enqueue: instance not found");
+        }
         template <typename... Args>
         void enqueue(i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs)
         {
@@ -117,6 +127,9 @@ namespace neolib
     public:
         void register_with_task(i_async_task& aTask) final;
         bool pump_events() final;
+    private:
+        static async_event_queue* find_instance(std::thread::id aThreadId);
+        static event_mutex<async_event_queue>& instances_mutex();
     private:
         mutable event_mutex<async_event_queue> iMutex;
         i_async_task* iTask = nullptr;
@@ -219,7 +232,7 @@ namespace neolib
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
-                    async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
+                    async_trigger(*slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
@@ -232,7 +245,7 @@ namespace neolib
         {
             std::unique_lock lock{ iMutex };
             for (auto slot : iSlots)
-                async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
+                async_trigger(*slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
         }
         void accept() const final
         {
@@ -276,9 +289,9 @@ namespace neolib
             thread_local work_list_stack tWorkLists;
             return tWorkLists;
         }
-        void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
+        void async_trigger(i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
-            aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
+            async_event_queue::enqueue<Args...>(aSlot.call_thread(), aSlot, aNoDuplicates, aArgs...);
         }
     private:
         mutable event_mutex<event> iMutex;
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 8baaf08..71d091c 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -49,7 +49,7 @@ namespace neolib
     {
         struct instance_map_type : std::unordered_map<std::thread::id, async_event_queue*>
         {
-            event_mutex<instance_map_type> mutex;
+            event_mutex<async_event_queue> mutex;
         };
 
         instance_map_type& instance_map()
@@ -67,27 +67,40 @@ namespace neolib
 
     async_event_queue& async_event_queue::instance(std::thread::id aThreadId)
     {
-        std::scoped_lock lock{ instance_map().mutex };
+        std::scoped_lock lock{ instances_mutex() };
+        auto existing = find_instance(aThreadId);
+        if (existing)
+            return *existing;
+        throw std::logic_error("neolib::async_event_queue::instance: instance not found");
+    }
+
+    async_event_queue* async_event_queue::find_instance(std::thread::id aThreadId)
+    {
         (void)instance();
         auto existing = instance_map().find(aThreadId);
-        if (existing != instance_map().end())
-            return *existing->second;
-        throw std::logic_error("neolib::async_event_queue::instance: instance not found");
+        return existing != instance_map().end() ? existing->second : nullptr;
+    }
+
+    event_mutex<async_event_queue>& async_event_queue::instances_mutex()
+    {
+        return instance_map().mutex;
     }
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instances_mutex() };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
-        auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end())
-            instance_map().erase(existing);
+        {
+            std::scoped_lock lock{ instances_mutex() };
+            auto existing = instance_map().find(std::this_thread::get_id());
+            if (existing != instance_map().end())
+                instance_map().erase(existing);
+        }
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
     }
-- 
2.43.0


From 59abd8d71e5b4335021f9f45ea94b72b3fd8109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 27/77] fix: event: changing how a slot is called is visible to
 triggering threads

---
 include/neolib/task/i_event.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 550288f..d9c3cce 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -37,6 +37,8 @@
 
 #include <neolib/neolib.hpp>
 #include <functional>
+#include <atomic>
+#include <thread>
 #include <neolib/core/mutex.hpp>
 #include <neolib/core/lifetime.hpp>
 #include <neolib/core/reference_counted.hpp>
@@ -247,18 +249,17 @@ namespace neolib
         }
         std::thread::id call_thread() const final
         {
-            if (call_in_emitter_thread())
-                return std::this_thread::get_id();
-            return *iCallThread;
+            auto const callThread = iCallThread.load();
+            return callThread != std::thread::id{} ? callThread : std::this_thread::get_id();
         }
         bool call_in_emitter_thread() const final
         {
-            return iCallThread == std::nullopt;
+            return iCallThread.load() == std::thread::id{};
         }
         void set_call_in_emitter_thread(bool aCallInEmitterThread) final
         {
             if (aCallInEmitterThread)
-                iCallThread = std::nullopt;
+                iCallThread = std::thread::id{};
             else
                 iCallThread = std::this_thread::get_id();
         }
@@ -274,8 +275,8 @@ namespace neolib
         i_event<Args...> const& iEvent;
         destroyed_flag iEventDestroyed;
         std::function<void(Args...)> iCallable;
-        std::optional<std::thread::id> iCallThread;
-        bool iStateless = false;
+        std::atomic<std::thread::id> iCallThread; // none: the thread of the emitter
+        std::atomic<bool> iStateless = false;
     };
 
     class sink
-- 
2.43.0


From 169eb572b695a3a2becc7e9f024ee2d3378e5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 28/77] fix: timer: a cancelled timer is no longer waiting so
 it can be armed again

---
 src/task/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 67773f6..c7f31f8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -157,6 +157,7 @@ namespace neolib
             return;
         if (!iTaskDestroying && !iTaskDestroyed)
             timer_object().cancel();
+        iWaiting = false;
     }
 
     void timer::reset()
-- 
2.43.0


From 06749f17ab7bdd392c84e4aff62197206d69af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 29/77] fix: timer: a throwing callback no longer makes other
 timers fire again

---
 src/task/async_task.cpp   | 4 +---
 src/task/timer_object.cpp | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c36a999..04591f7 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -163,6 +163,7 @@ namespace neolib
             iObjects.erase(std::remove_if(iObjects.begin(), iObjects.end(), [](auto const& o) { return o == nullptr; }), iObjects.end());
             std::transform(iObjects.begin(), iObjects.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
             lock.unlock();
+            scoped_cleanup cleanup{ [&]() { workList.clear(); } }; // also if a handler throws
             for (auto const& o : workList)
             {
                 if (!o.second.is_alive())
@@ -176,9 +177,6 @@ namespace neolib
                 }
             }
 
-            lock.lock();
-            workList.clear();
-
             if (!didSomeThisIteration)
                 break;
 
diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 4121be2..81d29ee 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -118,6 +118,7 @@ namespace neolib
         std::unique_lock lock{ iSubscribersMutex };
         std::transform(iSubscribers.begin(), iSubscribers.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
         lock.unlock();
+        scoped_cleanup cleanup{ [&]() { workList.clear(); } }; // also if a subscriber throws
         for (auto const& s : workList)
         {
             if (!s.second.is_alive())
@@ -125,8 +126,6 @@ namespace neolib
             auto& subscriber = *s.first;
             subscriber.timer_expired(*this);
         }
-        lock.lock();
-        workList.clear();
         return true;
     }
 
-- 
2.43.0


From e23d566ac4698860008ef34697b66bbec2925ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 30/77] fix: timer: a callback may destroy its own timer, and
 throw afterwards

---
 src/task/timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index c7f31f8..d435e7a 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -231,10 +231,10 @@ namespace neolib
         iWaiting = false;
         if (ok)
         {
+            destroyed_flag destroyed{ *this };
             try
             {
                 iInReady = true;
-                destroyed_flag destroyed{ *this };
                 if (std::uncaught_exceptions() == 0)
                     ready();
                 else
@@ -245,7 +245,8 @@ namespace neolib
             }
             catch (...)
             {
-                iInReady = false;
+                if (!destroyed)
+                    iInReady = false;
                 throw;
             }
         }
@@ -273,6 +274,7 @@ namespace neolib
 
     void callback_timer::ready()
     {
-        iCallback(*this);
+        auto const callback = iCallback; // it may destroy this timer
+        callback(*this);
     }
 }
\ No newline at end of file
-- 
2.43.0


From eeef311f22329a7a2f66c1e3dd7182771bf06c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 31/77] fix: timer: a destroyed timer leaves nothing behind in
 its task

---
 src/task/timer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index d435e7a..c5e4e0f 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -204,6 +204,11 @@ namespace neolib
         {
             timer_object().unsubscribe(*iTimerSubscriber);
         }
+        if (iTimerObject && !iTaskDestroying && !iTaskDestroyed)
+        {
+            iTask.timer_service().remove_timer_object(*iTimerObject);
+            iTimerObject = nullptr;
+        }
     }
 
     i_timer_object& timer::timer_object()
-- 
2.43.0


From 6e298e2d652d7b7798570ff81ceba64bd72d9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 32/77] fix: timer: a task may be destroyed after the thread
 its timers were created in

---
 src/task/timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index c5e4e0f..39d18de 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -220,7 +220,8 @@ namespace neolib
             if (iDebug)
                 timer_object().set_debug(iDebug);
 #endif
-            iSink += iTask.destroying([this]() { iTimerObject = nullptr; });
+            // the thread this timer was created in may have gone by the time its task is destroyed
+            iSink += ~iTask.destroying([this]() { iTimerObject = nullptr; });
         }
         return *iTimerObject;
     }
-- 
2.43.0


From f3011ad74d4c2528a66fbafbbf5c678a5cd9dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 33/77] fix: async_thread: destroying one that was not started
 or is attached to the current thread no longer throws

---
 src/task/async_thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/async_thread.cpp b/src/task/async_thread.cpp
index c578420..348050b 100644
--- a/src/task/async_thread.cpp
+++ b/src/task/async_thread.cpp
@@ -55,7 +55,8 @@ namespace neolib
         iTask.set_destroying();
         iTask.wait();
         iTask.detach();
-        cancel();
+        if (started() && !using_existing_thread())
+            cancel();
     }
 
     void async_thread::exec_preamble()
-- 
2.43.0


From 3bdcdb5271e443ad3e1f6bff7226bf6325180868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 34/77] fix: async_task: working after cancel_io_context()

---
 src/task/async_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index 04591f7..cdca71e 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -285,7 +285,8 @@ namespace neolib
             didSome = (iTimerService->poll(true) || didSome);
 
         for (auto& service : iIoServices)
-            didSome = (service.second->poll(true) || didSome);
+            if (service.second != nullptr)
+                didSome = (service.second->poll(true) || didSome);
 
         if (!didSome && aYieldIfNoWork != yield_type::NoYield)
         {
-- 
2.43.0


From 33c58a590aaacf83025903ab4c098646b1b32edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 35/77] fix: async_task: handlers may quit the task; cancel()
 waits for a halted run loop; a throwing handler ends it

---
 include/neolib/task/async_task.hpp |  1 +
 src/task/async_task.cpp            | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/neolib/task/async_task.hpp b/include/neolib/task/async_task.hpp
index ba843c3..808ca8e 100644
--- a/include/neolib/task/async_task.hpp
+++ b/include/neolib/task/async_task.hpp
@@ -142,5 +142,6 @@ namespace neolib
         message_queue_pointer iMessageQueue;
         std::vector<i_async_event_queue*> iEventQueues;
         std::atomic<async_task_state> iState;
+        std::atomic<std::thread::id> iRunThread; // the thread that is in run(), if any
     };
 }
diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index cdca71e..19f535a 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -435,17 +435,26 @@ namespace neolib
 
     void async_task::run(yield_type aYieldType)
     {
-        iState = async_task_state::Running;
+        iRunThread = std::this_thread::get_id();
+        scoped_cleanup cleanup{ [this]()
+            {
+                detach();
+                iState = async_task_state::Finished;
+                iRunThread = std::thread::id{};
+            } };
+        auto state = iState.load();
+        while (state != async_task_state::Halted && !iState.compare_exchange_weak(state, async_task_state::Running))
+            ;
         while (!finished() && !cancelled())
             do_work(aYieldType);
-        detach();
-        iState = async_task_state::Finished;
     }
 
     void async_task::cancel() noexcept
     {
         base_type::cancel();
-        while (running())
+        if (iRunThread.load() == std::this_thread::get_id())
+            return; // called by a handler: run() ends when the handler has returned
+        while (iRunThread.load() != std::thread::id{})
             std::this_thread::sleep_for(std::chrono::milliseconds{ 1 });
         iTimerService.reset();
         cancel_io_context();
-- 
2.43.0


From c4f1b1ffb52da2ff12dbc8a6af72439b0dde818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 36/77] fix: async_task: event handlers may register and
 unregister event queues

---
 src/task/async_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index 19f535a..9fdc939 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -355,9 +355,9 @@ namespace neolib
 
         {
             std::scoped_lock lock{ iMutex };
-            for (auto eventQueue : iEventQueues)
+            for (std::size_t i = 0; i < iEventQueues.size(); ++i) // handlers may register and unregister queues
             {
-                didSome = (eventQueue->pump_events() || didSome);
+                didSome = (iEventQueues[i]->pump_events() || didSome);
 
                 if (service<i_time_slice>().expired())
                     return didSome;
-- 
2.43.0


From 91d7b62c0f7995186674d571b1dc5bb20e254e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 37/77] fix: logger: category_enabled() called itself for ever
 and returned nothing

---
 include/neolib/app/i_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 1445b73..7dec4f6 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,9 +170,9 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            void category_enabled(IdType aId)
+            bool category_enabled(IdType aId) const
             {
-                category_enabled(static_cast<category_id>(aId));
+                return category_enabled(static_cast<category_id>(aId));
             }
             template <typename IdType>
             void enable_category(IdType aId)
-- 
2.43.0


From 4b7fb7327dda58ad9aec92bd3c07581e2eaa78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 38/77] fix: logger: a message that fails part way no longer
 silences its thread or runs into the next message

---
 include/neolib/app/i_logger.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 7dec4f6..0b4c03a 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -196,9 +196,9 @@ namespace neolib
                 if (aManipulator == &std::endl<char, std::char_traits<char>> || 
                     aManipulator == &std::flush<char, std::char_traits<char>>)
                 {
-                    auto const& view = buffer.view();
-                    flush(view.data(), view.data() + view.size());
-                    buffer.str({});
+                    auto const message = std::move(buffer).str();
+                    buffer.clear();
+                    flush(message.data(), message.data() + message.size());
                 }
                 return *this;
             }
-- 
2.43.0


From d3a72820cf694b5c0ed1d134b669788e0c77acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 39/77] fix: logger: finalize() may be called before the
 destructor

---
 include/neolib/app/logger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index abb534c..c9bf37c 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -216,7 +216,11 @@ namespace neolib
             void join_logging_thread()
             {
                 if (iLoggingThread)
+                {
                     iLoggingThread->join();
+                    std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                    iLoggingThread = std::nullopt;
+                }
             }
             severity message_severity() const
             {
-- 
2.43.0


From e2a76a94e3faa58b938f1ada546b48502d3e3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 40/77] fix: logger: what is logged is written whole, in order
 and before wait() or commit() returns; logging in handlers does not deadlock

---
 include/neolib/app/logger.hpp | 138 ++++++++++++++--------------------
 1 file changed, 58 insertions(+), 80 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index c9bf37c..20ce3c5 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -60,7 +60,7 @@ namespace neolib
             typedef std::string buffer_t;
         private:
             typedef std::map<category_id, std::pair<bool, std::string>> category_map_t;
-            typedef std::map<std::thread::id, std::pair<std::shared_ptr<buffer_t>, std::shared_ptr<buffer_t>>> buffer_list_t;
+            typedef std::map<std::thread::id, buffer_t> buffer_list_t;
             typedef std::vector<i_logger*> copy_list_t;
         public:
             logger()
@@ -93,13 +93,14 @@ namespace neolib
                     throw logging_thread_already_created();
                 iLoggingThread.emplace([&]()
                 {
-                    for(;;)
+                    for (bool finished = false; !finished;)
                     {
-                        std::unique_lock<std::mutex> lk(commit_signal_mutex());
-                        iCommitSignal.wait(lk, [&]() { return any_available() || is_destroying(); });
+                        {
+                            std::unique_lock<std::recursive_mutex> lk{ mutex() };
+                            commit_signal().wait(lk, [&]() { return any_available() || is_destroying(); });
+                            finished = is_destroying();
+                        }
                         commit();
-                        if (is_destroying())
-                            break;
                     };
                 });
             }
@@ -176,10 +177,12 @@ namespace neolib
         public:
             line_id_t line_id() const final
             {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
                 return iLineId;
             }
             void reset_line_id(line_id_t aLineId = DefaultInitialLineId) final
             {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
                 iLineId = aLineId;
             }
         public:
@@ -205,11 +208,7 @@ namespace neolib
             {
                 return iMutex;
             }
-            std::mutex& commit_signal_mutex() const
-            {
-                return iCommitSignalMutex;
-            }
-            std::condition_variable& commit_signal() const
+            std::condition_variable_any& commit_signal() const
             {
                 return iCommitSignal;
             }
@@ -247,37 +246,36 @@ namespace neolib
         public:
             void commit() override
             {
-                if (!iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id())
+                if (!has_logging_thread() || is_logging_thread())
                 {
+                    std::lock_guard<std::recursive_mutex> commitLock{ iCommitMutex };
+                    buffer_t available;
                     {
                         std::lock_guard<std::recursive_mutex> lg{ mutex() };
-                        for (auto& entry : buffers())
-                        {
-                            auto& buffers = entry.second;
-                            std::swap(buffers.first, buffers.second);
-                        }
+                        for (auto const& entry : buffers())
+                            available += entry.second;
+                        buffers().clear();
+                        ++iCommitting;
                     }
-                    thread_local buffer_t tempBuffer;
-                    for (auto& entry : buffers())
+                    struct scoped_commit
                     {
-                        auto& buffer = *entry.second.second;
-                        if (!buffer.empty())
+                        logger& parent;
+                        ~scoped_commit()
                         {
-                            tempBuffer += buffer;
-                            buffer.clear();
+                            std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
+                            --parent.iCommitting;
                         }
-                    }
-                    commit(tempBuffer);
-                    tempBuffer.clear();
+                    } scopedCommit{ *this };
+                    commit(available);
                 }
                 else
                     commit_signal().notify_one();
             }
             void wait() const final
             {
-                if (iLoggingThread)
+                if (has_logging_thread() && !is_logging_thread())
                 {
-                    while (any_available())
+                    while (any_uncommitted())
                     {
                         using namespace std::chrono_literals;
                         std::this_thread::sleep_for(10ms);
@@ -287,34 +285,24 @@ namespace neolib
         protected:
             void flush(std::string_view const& aMessage) 
             {
-                bool notify = false;
-                { 
-                    std::scoped_lock lg{ mutex(), commit_signal_mutex() };
-                    if (message_severity() >= filter_severity() && message_category_enabled())
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                if (message_severity() >= filter_severity() && message_category_enabled())
+                {
+                    string message;
+                    message = aMessage;
+                    if (has_formatter())
                     {
-                        thread_local string tempUnformattedMessage;
-                        tempUnformattedMessage = aMessage;
-                        if (!has_formatter())
-                        {
-                            buffer() += tempUnformattedMessage.to_std_string_view();
-                            NewLogMessage.trigger(tempUnformattedMessage);
-                        }
-                        else
-                        {
-                            thread_local string tempFormattedMessage;
-                            tempFormattedMessage.clear();
-                            formatter().format(*this, tempUnformattedMessage, tempFormattedMessage);
-                            buffer() += tempFormattedMessage.to_std_string_view();
-                            NewLogMessage.trigger(tempFormattedMessage);
-                        }
-                        ++iLineId;
-                        notify = true;
+                        string formattedMessage;
+                        formatter().format(*this, message, formattedMessage);
+                        message = formattedMessage;
                     }
-                    for (auto& copy : copies())
-                        copy->flush(aMessage.data(), aMessage.data() + aMessage.size());
-                }
-                if (notify)
+                    buffer() += message.to_std_string_view();
+                    ++iLineId;
                     commit_signal().notify_one();
+                    NewLogMessage.trigger(message);
+                }
+                for (auto& copy : copies())
+                    copy->flush(aMessage.data(), aMessage.data() + aMessage.size());
             }
             void flush(char const* aFirst, char const* aLast) final
             {
@@ -329,7 +317,7 @@ namespace neolib
                 {
                     wait();
                     {
-                        std::unique_lock<std::mutex> lk(commit_signal_mutex());
+                        std::lock_guard<std::recursive_mutex> lg{ mutex() };
                         set_destroying();
                     }
                     commit_signal().notify_one();
@@ -360,39 +348,28 @@ namespace neolib
             {
                 return const_cast<category_id&>(const_cast<logger const&>(*this).message_category_ref());
             }
+            bool is_logging_thread() const
+            {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                return iLoggingThread && std::this_thread::get_id() == iLoggingThread->get_id();
+            }
             bool any_available() const
             {
                 std::lock_guard<std::recursive_mutex> lg{ mutex() };
-                for (auto& entry : buffers())
-                {
-                    auto& buffer = *entry.second.first;
-                    if (!buffer.empty())
+                for (auto const& entry : buffers())
+                    if (!entry.second.empty())
                         return true;
-                }
                 return false;
             }
+            bool any_uncommitted() const
+            {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                return any_available() || iCommitting != 0;
+            }
             buffer_t const& buffer() const
             {
                 std::lock_guard<std::recursive_mutex> lg{ mutex() };
-                thread_local struct cleanup
-                {
-                    logger const& parent;
-                    destroyed_flag parentDestroyed;
-                    ~cleanup()
-                    {
-                        if (!parentDestroyed)
-                        {
-                            parent.wait();
-                            std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
-                            parent.buffers().erase(std::this_thread::get_id());
-                        }
-                    }
-                } cleanup{ *this, *this };
-                auto existing = iBuffers.find(std::this_thread::get_id());
-                if (existing != iBuffers.end())
-                    return *existing->second.first;
-                existing = iBuffers.insert(buffer_list_t::value_type{ std::this_thread::get_id(), buffer_list_t::mapped_type{ std::make_shared<buffer_t>(), std::make_shared<buffer_t>() } }).first;
-                return *existing->second.first;
+                return iBuffers[std::this_thread::get_id()];
             }
             buffer_t& buffer()
             {
@@ -413,8 +390,9 @@ namespace neolib
             }
         private:
             mutable std::recursive_mutex iMutex;
-            mutable std::mutex iCommitSignalMutex;
-            mutable std::condition_variable iCommitSignal;
+            mutable std::condition_variable_any iCommitSignal;
+            std::recursive_mutex iCommitMutex;
+            std::size_t iCommitting = 0;
             std::optional<std::thread> iLoggingThread;
             severity iFilterSeverity = severity::Info;
             category_map_t iCategories;
-- 
2.43.0


From 5e2381b558ac6dbc920c2e25c4c3ce356764c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:41 +0000
Subject: [PATCH 41/77] fix: tcp_packet_stream_server with a host name did not
 compile

---
 include/neolib/io/tcp_packet_stream_server.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/io/tcp_packet_stream_server.hpp b/include/neolib/io/tcp_packet_stream_server.hpp
index 64a1cd0..c5b6861 100644
--- a/include/neolib/io/tcp_packet_stream_server.hpp
+++ b/include/neolib/io/tcp_packet_stream_server.hpp
@@ -147,20 +147,20 @@ namespace neolib
         // implementation
     private:
         // own
-        static endpoint_type resolve(async_task& aIoTask, const std::string& aHostname, unsigned short aPort, protocol_type aProtocolFamily)
+        static endpoint_type resolve(i_async_task& aIoTask, const std::string& aHostname, unsigned short aPort, protocol_type aProtocolFamily)
         {
-            resolver_type resolver(aIoTask.io_context().native_object());
+            resolver_type resolver(aIoTask.io_context().native_object<boost::asio::io_context>());
             boost::system::error_code ec;
-            typename resolver_type::iterator result = resolver.resolve(resolver_type::query(aHostname, std::to_string(aPort), ec));
+            auto const results = resolver.resolve(aHostname, std::to_string(aPort), ec);
             if (!ec)
             {
-                for (typename resolver_type::iterator i = result; i != resolver_type::iterator(); ++i)
+                for (auto const& result : results)
                 {
-                    endpoint_type endpoint = *i;
+                    endpoint_type endpoint = result;
                     if (endpoint.protocol() == aProtocolFamily)
                         return endpoint;
                 }
-                return *result;
+                return *results.begin();
             }
             throw failed_to_resolve_local_host();
         }
-- 
2.43.0


From 5992c17e275ebc5e7cfd83eb639ac9b23eb528cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 42/77] fix: packet_connection's resolve handler was called
 after the connection was closed or destroyed

---
 include/neolib/io/packet_connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e9ff670..18384c7 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -107,10 +107,10 @@ namespace neolib
             {
             }
         public:
-            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type::iterator aEndPointIterator)
+            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type aResults)
             {
                 if (!iParentDestroyed && !iOrphaned)
-                    iParent.handle_resolve(aError, aEndPointIterator);
+                    iParent.handle_resolve(aError, aResults);
             }
             void handle_connect(const boost::system::error_code& aError)
             {
@@ -395,9 +395,9 @@ namespace neolib
             if (!iRemoteHostName.empty())
             {
                 iResolver.async_resolve(iRemoteHostName, uint32_to_string<char>(iRemotePort),
-                    [&](const boost::system::error_code& ec, resolver_type::results_type results)
+                    [handlerProxy = iHandlerProxy](const boost::system::error_code& ec, typename resolver_type::results_type results)
                     {
-                        handle_resolve(ec, results);
+                        handlerProxy->handle_resolve(ec, results);
                     });
             }
         }
-- 
2.43.0


From dd65451ab51e43d12056b212a1b7b337461ceddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 43/77] fix: packet_connection kept pointers to packets that
 were gone after it was closed

---
 include/neolib/io/packet_connection.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 18384c7..62bf787 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -257,6 +257,8 @@ namespace neolib
             bool wasConnected = iConnected;
             iConnected = false;
             iReceiveBufferPtr = &buffer()[0];
+            iSendQueue.clear();
+            iPacketBeingSent = nullptr;
             if (wasConnected)
                 iOwner.handle_connection_closed();
         }
-- 
2.43.0


From bbc4328ccd8e3d458691d1dee0ff20b49a8c1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 44/77] fix: packet_connection joined the rest of one session
 to the next

---
 include/neolib/io/packet_connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 62bf787..f310389 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -226,6 +226,7 @@ namespace neolib
         {
             if (opened())
                 throw already_open();
+            iReceivePacket->clear();
             if (!secure())
             {
                 iSocketHolder = socket_pointer(new socket_type(iIoTask.io_context().native_object<boost::asio::io_context>()));
-- 
2.43.0


From 4caa957d7d75c4bee3f3da401e500697ccd6c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 45/77] fix: packet_connection carried on with a session that a
 callback had closed or replaced

---
 include/neolib/io/packet_connection.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index f310389..162fa7c 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -451,8 +451,9 @@ namespace neolib
                 if (!secure())
                 {
                     destroyed_flag destroyed{ *this };
+                    auto const session = iHandlerProxy;
                     iOwner.handle_connection_established();
-                    if (destroyed)
+                    if (destroyed || session != iHandlerProxy)
                         return;
                     send_any();
                     receive_any();
@@ -478,8 +479,9 @@ namespace neolib
             if (!aError)
             {
                 destroyed_flag destroyed{ *this };
+                auto const session = iHandlerProxy;
                 iOwner.handle_connection_established();
-                if (destroyed)
+                if (destroyed || session != iHandlerProxy)
                     return;
                 send_any();
                 receive_any();
@@ -555,12 +557,13 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const session = iHandlerProxy;
             const_packet_pointer sentPacket = iPacketBeingSent;
             iPacketBeingSent = nullptr;
             if (!aError)
             {
                 iOwner.handle_packet_sent(*sentPacket);
-                if (destroyed)
+                if (destroyed || session != iHandlerProxy)
                     return;
                 send_any();
             }
@@ -569,7 +572,7 @@ namespace neolib
                 iError = true;
                 iErrorCode = aError;
                 iOwner.handle_transfer_failure(*sentPacket, aError);
-                if (destroyed)
+                if (destroyed || session != iHandlerProxy)
                     return;
                 close();
             }
@@ -579,6 +582,7 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const session = iHandlerProxy;
             if (!aError)
             {
                 typename packet_type::const_pointer start = reinterpret_cast<typename packet_type::pointer>(&buffer()[0]);
@@ -588,7 +592,7 @@ namespace neolib
                     if (!iReceivePacket->empty())
                     {
                         iOwner.handle_packet_arrived(*iReceivePacket);
-                        if (destroyed)
+                        if (destroyed || session != iHandlerProxy)
                             return;
                         iReceivePacket->clear();
                     }
@@ -607,7 +611,7 @@ namespace neolib
                     iErrorCode = aError;
                     iReceivePacket->clear();
                     iOwner.handle_transfer_failure(*iReceivePacket, aError);
-                    if (destroyed)
+                    if (destroyed || session != iHandlerProxy)
                         return;
                 }
                 close();  
-- 
2.43.0


From 818e10d403e19ba8665866c50c88aadb17269537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 46/77] fix: sending an empty packet threw packet_empty

---
 include/neolib/io/packet_connection.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 162fa7c..c231dfb 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -507,7 +507,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     socket(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length()),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
@@ -518,7 +518,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     secure_stream(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length()),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
-- 
2.43.0


From 17fcc37cf045a3c1a46337ba325c6518de9a3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 47/77] fix: packet_stream kept unsent packets after its
 connection was closed

---
 include/neolib/io/packet_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/io/packet_stream.hpp b/include/neolib/io/packet_stream.hpp
index c7b8147..52e509e 100644
--- a/include/neolib/io/packet_stream.hpp
+++ b/include/neolib/io/packet_stream.hpp
@@ -173,6 +173,7 @@ namespace neolib
         }
         void handle_connection_closed() override
         {
+            remove_all_packets();
             ConnectionClosed.trigger();
         }
         orphaned_queue_item remove_packet(const packet_type& aPacket)
-- 
2.43.0


From 6eb537476df36ca28f2c6e11a46938a11dc6f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 48/77] fix: tcp_packet_stream_server stopped accepting after
 an error and touched itself after a callback destroyed it

---
 include/neolib/io/tcp_packet_stream_server.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/tcp_packet_stream_server.hpp b/include/neolib/io/tcp_packet_stream_server.hpp
index c5b6861..baee177 100644
--- a/include/neolib/io/tcp_packet_stream_server.hpp
+++ b/include/neolib/io/tcp_packet_stream_server.hpp
@@ -192,15 +192,20 @@ namespace neolib
         }
         void handle_accept(const boost::system::error_code& aError)
         {
+            destroyed_flag destroyed{ *this };
             if (!aError)
             {
                 iAcceptingStream->connection().server_accept();
                 iStreamList.push_back(std::move(iAcceptingStream));
                 PacketStreamAdded.trigger(*iStreamList.back());
-                accept_connection();
             }
             else
+            {
+                iAcceptingStream.reset();
                 FailedToAcceptPacketStream.trigger(aError);
+            }
+            if (!destroyed)
+                accept_connection();
         }
         
         // attributes
-- 
2.43.0


From 8d6656c30189602185d4c8afe0aeb20460dc1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 49/77] fix: packet_connection freed its socket while an
 operation on it was in progress

---
 include/neolib/io/packet_connection.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index c231dfb..9fdea97 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -135,6 +135,7 @@ namespace neolib
             void orphan(bool aCreateNewHandlerProxy = true)
             {
                 iOrphaned = true;
+                iSocketHolder = iParent.iSocketHolder; // operations still in progress refer to the socket
                 if (aCreateNewHandlerProxy)
                     iParent.iHandlerProxy = std::make_shared<handler_proxy>(iParent);
                 else
@@ -145,6 +146,7 @@ namespace neolib
             our_type& iParent;
             bool iOrphaned = false;
             std::shared_ptr<receive_buffer> iReceiveBuffer;
+            socket_holder_type iSocketHolder;
         };
 
         // exceptions
-- 
2.43.0


From 3f0c3c559945cc52ae70a4aaa4e34340f029ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 50/77] fix: tcp_packet_stream_server freed the socket of an
 accept in progress

---
 include/neolib/io/tcp_packet_stream_server.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/tcp_packet_stream_server.hpp b/include/neolib/io/tcp_packet_stream_server.hpp
index baee177..317a967 100644
--- a/include/neolib/io/tcp_packet_stream_server.hpp
+++ b/include/neolib/io/tcp_packet_stream_server.hpp
@@ -76,11 +76,11 @@ namespace neolib
             {
             }
         public:
-            void operator()(const boost::system::error_code& aError)
+            void operator()(const boost::system::error_code& aError, protocol_type::socket aSocket)
             {
                 if (iParentDestroyed)
                     return;
-                iParent.handle_accept(aError);
+                iParent.handle_accept(aError, std::move(aSocket));
             }
         private:
             destroyed_flag iParentDestroyed;
@@ -188,13 +188,17 @@ namespace neolib
             });
 
             iAcceptingStream->connection().open(true);
-            iAcceptor.async_accept(iAcceptingStream->connection().socket(), boost::bind(&handler_proxy::operator(), iHandlerProxy, boost::asio::placeholders::error));
+            iAcceptor.async_accept([handlerProxy = iHandlerProxy](const boost::system::error_code& aError, protocol_type::socket aSocket)
+            {
+                (*handlerProxy)(aError, std::move(aSocket));
+            });
         }
-        void handle_accept(const boost::system::error_code& aError)
+        void handle_accept(const boost::system::error_code& aError, protocol_type::socket aSocket)
         {
             destroyed_flag destroyed{ *this };
             if (!aError)
             {
+                iAcceptingStream->connection().socket() = std::move(aSocket);
                 iAcceptingStream->connection().server_accept();
                 iStreamList.push_back(std::move(iAcceptingStream));
                 PacketStreamAdded.trigger(*iStreamList.back());
-- 
2.43.0


From dabdb343af71ad346deb3f290be2a98b75033d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 51/77] fix: string_packet joined two lines when a chunk began
 with a carriage return

---
 include/neolib/io/string_packet.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..0db9815 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,9 +135,13 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
+            const_pointer const delimiterStart = aFirst;
             if (skip_delimiters(aFirst, aLast))
                 return true;
 
+            if (delimiterStart != aFirst && !contents().empty())
+                return true;
+
             if (aFirst == aLast)
                 return false;
 
-- 
2.43.0


From ffeebffd14b0e39ee6ad76bb36fa710362877eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 52/77] fix: basic_resolver did not compile, and lost track of
 its requests

---
 include/neolib/io/resolver.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/resolver.hpp b/include/neolib/io/resolver.hpp
index df5c866..f7a7485 100644
--- a/include/neolib/io/resolver.hpp
+++ b/include/neolib/io/resolver.hpp
@@ -108,6 +108,10 @@ namespace neolib
             {
                 iOrphaned = true;
             }
+            bool orphaned() const
+            {
+                return iOrphaned;
+            }
             const std::string& host_name() const
             {
                 return iHostName;
@@ -152,7 +156,7 @@ namespace neolib
     public:
         basic_resolver(async_task& aIoTask) :
             iIoTask(aIoTask),
-            iResolver(aIoTask.io_context().native_object())
+            iResolver(aIoTask.io_context().native_object<boost::asio::io_context>())
         {
         }
         ~basic_resolver()
@@ -170,13 +174,13 @@ namespace neolib
             request_pointer newRequest(new request(*this, aRequester, aHostName, aProtocolFamily));
             iRequests.push_back(newRequest);
             iResolver.async_resolve(typename resolver_type::query{ aHostName, "0" },
-                boost::bind(&request::handle_resolve, *newRequest, boost::asio::placeholders::error, boost::asio::placeholders::iterator));
+                boost::bind(&request::handle_resolve, newRequest, boost::asio::placeholders::error, boost::asio::placeholders::iterator));
         }
         void remove_requester(requester& aRequester)
         {
             for (auto& request : iRequests)
-                if (request.has_requester() && request.requester() == &aRequester)
-                    request.reset();
+                if (request->has_requester() && &request->requester() == &aRequester)
+                    request->reset();
         }
         
         // implementation
@@ -203,6 +207,8 @@ namespace neolib
                 else
                     aRequest.requester().host_not_resolved(aRequest.host_name(), aError);
             }
+            if (aRequest.orphaned())
+                return;
             for (auto i = iRequests.begin(); i != iRequests.end(); ++i)
                 if (&**i == &aRequest)
                 {
-- 
2.43.0


From c8a25d671270173c82e21a7e4e365d0af4968ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 53/77] fix: tokens() returned one token more than asked for
 when the text ends in a delimiter

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index fb0f13d..19108ae 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -182,7 +182,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From a388738d0c9594dc49b9fc783de2c7593b59f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 54/77] fix: http never saw its responses: packets were split
 into lines and its subscriptions were dropped

---
 include/neolib/io/http.hpp | 14 ++++++--------
 src/io/http.cpp            | 13 +++++++------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/neolib/io/http.hpp b/include/neolib/io/http.hpp
index 9d3d035..6d9933b 100644
--- a/include/neolib/io/http.hpp
+++ b/include/neolib/io/http.hpp
@@ -45,23 +45,20 @@
 #include <neolib/core/string_ci.hpp>
 #include <neolib/task/event.hpp>
 #include <neolib/io/packet_stream.hpp>
-#include <neolib/io/string_packet.hpp>
+#include <neolib/io/binary_packet.hpp>
 
 namespace neolib
 {
-    class NEOLIB_EXPORT http_packet : public string_packet
+    class NEOLIB_EXPORT http_packet : public binary_packet
     {
         // construction
     public:
-        http_packet(const contents_type& aContents = contents_type()) : 
-            string_packet(aContents) 
+        http_packet()
         {
         }
-        // implementation
-    private:
-        virtual bool has_delimiters() const
+        http_packet(const std::string& aContents) : 
+            binary_packet(aContents.data(), aContents.size()) 
         {
-            return false;
         }
     };
 
@@ -121,6 +118,7 @@ namespace neolib
     private:
         async_task& iIoTask;
         std::optional<http_stream> iPacketStream;
+        sink iSink;
         std::string iHost;
         uint16_t iPort;
         bool iSecure;
diff --git a/src/io/http.cpp b/src/io/http.cpp
index 39d8c44..6ed6ab9 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -105,15 +105,16 @@ namespace neolib
         iPreviousWasCRLF = false;
         iLastPacketReceived = std::nullopt;
 
+        iSink.clear();
         iPacketStream.reset();
         iPacketStream.emplace(iIoTask);
 
-        stream().ConnectionEstablished([this]() { connection_established(); });
-        stream().ConnectionFailure([this](const boost::system::error_code& aError) { connection_failure(aError); });
-        stream().PacketSent([this](const http_packet& aPacket) { packet_sent(aPacket); });
-        stream().PacketArrived([this](const http_packet& aPacket) { packet_arrived(aPacket); });
-        stream().TransferFailure([this](const boost::system::error_code& aError) { transfer_failure(aError); });
-        stream().ConnectionClosed([this]() { connection_closed(); });
+        iSink += stream().ConnectionEstablished([this]() { connection_established(); });
+        iSink += stream().ConnectionFailure([this](const boost::system::error_code& aError) { connection_failure(aError); });
+        iSink += stream().PacketSent([this](const http_packet& aPacket) { packet_sent(aPacket); });
+        iSink += stream().PacketArrived([this](const http_packet& aPacket) { packet_arrived(aPacket); });
+        iSink += stream().TransferFailure([this](const boost::system::error_code& aError) { transfer_failure(aError); });
+        iSink += stream().ConnectionClosed([this]() { connection_closed(); });
     }
 
     void http::add_response_header(const std::string& aHeaderLine)
-- 
2.43.0


From 11f257b6002066a622e0f81c64167f733f670944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 55/77] fix: http reports one outcome for each request, and
 incomplete responses as failures; handlers may make a new request

---
 src/io/http.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/io/http.cpp b/src/io/http.cpp
index 6ed6ab9..85c3ee2 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -254,9 +254,10 @@ namespace neolib
             iRequestBody = std::get<body_t>(aRequestBody);
         else if (std::holds_alternative<std::string>(aRequestBody) && !std::get<std::string>(aRequestBody).empty())
             iRequestBody.assign(std::get<std::string>(aRequestBody).begin(), std::get<std::string>(aRequestBody).end());
+        http_stream::destroyed_flag destroyed{ stream() };
         if (stream().open(aHost, aPort, aSecure))
             Started.trigger();
-        else
+        else if (!destroyed && !stream().has_error()) // an error has been reported already
             Failure.trigger();
     }
 
@@ -288,8 +289,8 @@ namespace neolib
     {
         iBodyLength.reset();
         iBody.clear();
-        Failure.trigger();
         stream().close();
+        Failure.trigger();
     }
 
     void http::packet_sent(const http_packet&)
@@ -306,12 +307,12 @@ namespace neolib
                 iBody.insert(iBody.end(), i, aPacket.end());
                 i = aPacket.end();
                 if (iLastPacketReceived == std::nullopt ||
-                    std::chrono::duration_cast<std::chrono::milliseconds>(*iLastPacketReceived - std::chrono::steady_clock::now()).count() > DEFAULT_PROGRESS_INTERVAL_ms)
+                    std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - *iLastPacketReceived).count() > DEFAULT_PROGRESS_INTERVAL_ms)
                 {
                     iLastPacketReceived = std::chrono::steady_clock::now();
                     Progress.trigger();
                 }
-                break;
+                return;
             default:
                 {
                     i_packet::character_type ch = *i++;
@@ -365,12 +366,13 @@ namespace neolib
     {
         iBodyLength.reset();
         iBody.clear();
-        Failure.trigger();
-        stream().close();
+        iOk = false; // the connection is about to be closed
     }
 
     void http::connection_closed()
     {
+        if (ok() && iState != Body)
+            iOk = false;
         iState = Finished;
         if (ok() && stream().has_error())
             iOk = false;
@@ -380,8 +382,10 @@ namespace neolib
             iOk = false;
         if (ok())
         {
+            http_stream::destroyed_flag destroyed{ stream() };
             Progress.trigger();
-            Completed.trigger();
+            if (!destroyed)
+                Completed.trigger();
         }
         else
         {
-- 
2.43.0


From 3e9f7c49f654cc168c354eeac4f3441644cac135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 56/77] fix: tsc_clock did not compile with gcc

---
 include/neolib/chrono/tsc_clock.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/chrono/tsc_clock.hpp b/include/neolib/chrono/tsc_clock.hpp
index fa295d1..e1f9f68 100644
--- a/include/neolib/chrono/tsc_clock.hpp
+++ b/include/neolib/chrono/tsc_clock.hpp
@@ -446,7 +446,12 @@ namespace neolib::chrono
         // one thread per logical CPU). It is STRONGLY recommended to call init() once
         // explicitly at start-up; otherwise the very first now() pays this whole cost
         // lazily (and serialises any other thread that calls now() concurrently).
-        static void init(options opt = {}) noexcept
+        static void init() noexcept
+        {
+            init(options{});
+        }
+
+        static void init(options opt) noexcept
         {
             (void)calibrate_once(opt);
         }
-- 
2.43.0


From 1a9ebe7e822df3e439bb054f3bf472d134c4777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 57/77] fix: ecs::add_handle wrote behind the end of its table;
 to_handle read behind it

---
 src/ecs/ecs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..8d60a4b 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -531,6 +531,8 @@ namespace neolib::ecs
     ecs::handle_t ecs::to_handle(handle_id aId) const
     {
         std::unique_lock lock{ mutex() };
+        if (iHandles.size() <= aId)
+            throw invalid_handle_id();
         return iHandles[aId];
     }
 
@@ -539,7 +541,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From 87f8cbe884303b5604f47029adee3d3a693cccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 58/77] fix: ecs component record left without its entity when
 populate() ran out of memory

---
 include/neolib/ecs/component.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 81c9f71..f6cab30 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -456,8 +456,9 @@ namespace neolib::ecs
             std::scoped_lock<component_mutex<Data>> lock{ mutex() };
             if (has_entity_record(aEntity))
                 return do_update(aEntity, aComponentData);
-            reverse_index_t reverseIndex = invalid;
-            reverseIndex = base_type::component_data().size();
+            reverse_index_t const reverseIndex = base_type::component_data().size();
+            if (reverse_indices().size() <= aEntity)
+                reverse_indices().resize(aEntity + 1, invalid);
             base_type::component_data().push_back(std::forward<T>(aComponentData));
             try
             {
@@ -468,17 +469,7 @@ namespace neolib::ecs
                 base_type::component_data().pop_back();
                 throw;
             }
-            try
-            {
-                if (reverse_indices().size() <= aEntity)
-                    reverse_indices().resize(aEntity + 1, invalid);
-                reverse_indices()[aEntity] = reverseIndex;
-            }
-            catch (...)
-            {
-                entities()[reverseIndex] = null_entity;
-                throw;
-            }
+            reverse_indices()[aEntity] = reverseIndex;
             return base_type::component_data()[reverseIndex];
         }
         template <typename T>
-- 
2.43.0


From 1894062d83265df1d9e001a63656cbe6685f3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 59/77] fix: destroying an entity with a snapshot freed its
 handles twice; a failed snapshot was offered as a whole one

---
 include/neolib/ecs/component.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index f6cab30..95a2707 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -359,7 +359,8 @@ namespace neolib::ecs
             if (reverseIndex == invalid)
                 throw entity_record_not_found();
             if constexpr (data_meta_type::has_handles)
-                data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
+                if (!iIsSnapshot) // a snapshot does not own the handles
+                    data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
             std::swap(base_type::component_data()[reverseIndex], base_type::component_data().back());
             base_type::component_data().pop_back();
             auto tailEntity = entities().back();
@@ -404,8 +405,12 @@ namespace neolib::ecs
             std::scoped_lock<component_mutex<Data>> lock{ mutex() };
             if (!iUsingSnapshot)
             {
+                iHaveSnapshot = false; // if what follows throws
                 if (iSnapshot == nullptr)
+                {
                     iSnapshot = snapshot_ptr{ new component{*this} };
+                    iSnapshot->iIsSnapshot = true;
+                }
                 else
                     *iSnapshot = *this;
                 iHaveSnapshot = true;
@@ -483,6 +488,7 @@ namespace neolib::ecs
     private:
         component_data_entities_t iEntities;
         reverse_indices_t iReverseIndices;
+        bool iIsSnapshot = false;
         mutable std::atomic<bool> iHaveSnapshot;
         mutable std::atomic<uint32_t> iUsingSnapshot;
         mutable snapshot_ptr iSnapshot;
-- 
2.43.0


From 6bef0c7ffac90433a799e25ed379779233aac998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:35 +0000
Subject: [PATCH 60/77] fix: an entity whose creation failed stayed in the ecs

---
 include/neolib/ecs/i_ecs.hpp | 18 ++++++++++++++----
 src/ecs/ecs.cpp              | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/neolib/ecs/i_ecs.hpp b/include/neolib/ecs/i_ecs.hpp
index 497fe40..fac5b5a 100644
--- a/include/neolib/ecs/i_ecs.hpp
+++ b/include/neolib/ecs/i_ecs.hpp
@@ -673,10 +673,20 @@ namespace neolib::ecs
     template <typename... ComponentData>
     inline entity_id i_ecs::create_entity(const entity_archetype_id& aArchetypeId, ComponentData&&... aComponentData)
     {
-        scoped_component_data_lock<std::decay_t<ComponentData>...> lock{ *this };
-        auto newEntity = create_entity(aArchetypeId);
-        populate(newEntity, std::forward<ComponentData>(aComponentData)...);
-        archetype(aArchetypeId).populate_default_components(*this, newEntity);
+        entity_id newEntity = null_entity;
+        try
+        {
+            scoped_component_data_lock<std::decay_t<ComponentData>...> lock{ *this };
+            newEntity = create_entity(aArchetypeId);
+            populate(newEntity, std::forward<ComponentData>(aComponentData)...);
+            archetype(aArchetypeId).populate_default_components(*this, newEntity);
+        }
+        catch (...)
+        {
+            if (newEntity != null_entity)
+                destroy_entity(newEntity);
+            throw;
+        }
         return newEntity;
     }
 
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 8d60a4b..678b269 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -338,9 +338,19 @@ namespace neolib::ecs
         std::unique_lock lock{ entity_mutex() };
         auto entityId = next_entity_id();
         lock.unlock();
-        if ((flags() & ecs_flags::PopulateEntityInfo) == ecs_flags::PopulateEntityInfo)
-            component<entity_info>().populate(entityId, entity_info{ aArchetypeId, system<time>().world_time() });
-        EntityCreated.trigger(entityId);
+        bool notified = false;
+        try
+        {
+            if ((flags() & ecs_flags::PopulateEntityInfo) == ecs_flags::PopulateEntityInfo)
+                component<entity_info>().populate(entityId, entity_info{ aArchetypeId, system<time>().world_time() });
+            notified = true;
+            EntityCreated.trigger(entityId);
+        }
+        catch (...)
+        {
+            destroy_entity(entityId, notified);
+            throw;
+        }
         return entityId;
     }
 
-- 
2.43.0


From 2105ff65cfb906e53af3a027f75118766a85be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:35 +0000
Subject: [PATCH 61/77] fix: an entity queued for destruction could be
 destroyed twice, the second time as the entity that had its id by then

---
 src/ecs/ecs.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 678b269..f415bc4 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -380,6 +380,12 @@ namespace neolib::ecs
 
     void ecs::destroy_entity(entity_id aEntityId, bool aNotify)
     {
+        {
+            // it must not be destroyed a second time, by then as another entity
+            std::unique_lock lock{ entity_mutex() };
+            iEntitiesToDestroy.erase(std::remove_if(iEntitiesToDestroy.begin(), iEntitiesToDestroy.end(), 
+                [aEntityId](auto const& e) { return e.first == aEntityId; }), iEntitiesToDestroy.end());
+        }
         if (aNotify)
             EntityDestroyed.trigger(aEntityId);
         {
@@ -398,7 +404,8 @@ namespace neolib::ecs
     {
         {
             scoped_component_data_lock<entity_info> lock{ *this };
-            component<entity_info>().entity_record(aEntityId).destroyed = true;
+            if (component<entity_info>().entity_record(aEntityId).destroyed.exchange(true))
+                return;
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -408,18 +415,20 @@ namespace neolib::ecs
 
     void ecs::commit_async_entity_destruction()
     {
-        auto entitiesToDestroy = decltype(iEntitiesToDestroy){};
         {
             std::unique_lock lock{ entity_mutex() };
             if (iEntitiesToDestroy.empty())
                 return;
-            entitiesToDestroy.swap(iEntitiesToDestroy);
         }
         scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
-        while (!entitiesToDestroy.empty())
+        for (;;)
         {
-            auto next = entitiesToDestroy.back();
-            entitiesToDestroy.pop_back();
+            std::unique_lock lock2{ entity_mutex() };
+            if (iEntitiesToDestroy.empty())
+                return;
+            auto next = iEntitiesToDestroy.back();
+            iEntitiesToDestroy.pop_back();
+            lock2.unlock();
             destroy_entity(next.first, next.second);
         }
     }
-- 
2.43.0


From ca5f760bfb902499f266a145cc009dca1145c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:19 +0000
Subject: [PATCH 62/77] fix: the ecs's first-use registration, timer, pausing
 and clock raced with other threads

---
 include/neolib/ecs/ecs.hpp   |  2 +
 include/neolib/ecs/i_ecs.hpp | 30 ++++++++-----
 src/ecs/ecs.cpp              | 87 +++++++++++++++++++++++++-----------
 src/ecs/time.cpp             |  3 +-
 4 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/include/neolib/ecs/ecs.hpp b/include/neolib/ecs/ecs.hpp
index 168a46f..b96d652 100644
--- a/include/neolib/ecs/ecs.hpp
+++ b/include/neolib/ecs/ecs.hpp
@@ -154,6 +154,8 @@ namespace neolib::ecs
         handle_t update_handle(handle_id aId, const std::type_info& aTypeInfo, handle_t aHandle) final;
         handle_t release_handle(handle_id aId) final;
     private:
+        void cancel_async_entity_destruction(entity_id aEntityId);
+        std::vector<proxy_mutex<i_lockable>> component_mutexes() const;
         handle_id next_handle_id();
         void free_handle_id(handle_id aId);
     public:
diff --git a/include/neolib/ecs/i_ecs.hpp b/include/neolib/ecs/i_ecs.hpp
index fac5b5a..2719b34 100644
--- a/include/neolib/ecs/i_ecs.hpp
+++ b/include/neolib/ecs/i_ecs.hpp
@@ -268,8 +268,11 @@ namespace neolib::ecs
         template <typename ComponentData>
         neolib::ecs::component<ComponentData>& component()
         {
-            if (!component_registered<ecs_data_type_t<ComponentData>>())
-                register_component<ecs_data_type_t<ComponentData>>();
+            {
+                std::unique_lock<i_lockable> lock{ component_factory_mutex() };
+                if (!component_registered<ecs_data_type_t<ComponentData>>())
+                    register_component<ecs_data_type_t<ComponentData>>();
+            }
             return const_cast<neolib::ecs::component<ecs_data_type_t<ComponentData>>&>(to_const(*this).component<ecs_data_type_t<ComponentData>>());
         }
         template <typename ComponentData>
@@ -285,8 +288,11 @@ namespace neolib::ecs
         template <typename ComponentData>
         neolib::ecs::shared_component<ComponentData>& shared_component()
         {
-            if (!shared_component_registered<ecs_data_type_t<ComponentData>>())
-                register_shared_component<ecs_data_type_t<ComponentData>>();
+            {
+                std::unique_lock<i_lockable> lock{ shared_component_factory_mutex() };
+                if (!shared_component_registered<ecs_data_type_t<ComponentData>>())
+                    register_shared_component<ecs_data_type_t<ComponentData>>();
+            }
             return const_cast<neolib::ecs::shared_component<ecs_data_type_t<ComponentData>>&>(to_const(*this).shared_component<ecs_data_type_t<ComponentData>>());
         }
         template <typename System>
@@ -302,8 +308,11 @@ namespace neolib::ecs
         template <typename System>
         ecs_data_type_t<System>& system()
         {
-            if (!system_registered<ecs_data_type_t<System>>())
-                register_system<ecs_data_type_t<System>>();
+            {
+                std::unique_lock<i_lockable> lock{ system_factory_mutex() };
+                if (!system_registered<ecs_data_type_t<System>>())
+                    register_system<ecs_data_type_t<System>>();
+            }
             return const_cast<ecs_data_type_t<System>&>(to_const(*this).system<ecs_data_type_t<System>>());
         }
     public:
@@ -693,8 +702,11 @@ namespace neolib::ecs
     template <typename Archetype, typename... ComponentData>
     inline entity_id i_ecs::create_entity(const Archetype& aArchetype, ComponentData&&... aComponentData)
     {
-        if (!archetype_registered(aArchetype))
-            register_archetype(aArchetype);
+        {
+            std::unique_lock<i_lockable> lock{ archetype_mutex() };
+            if (!archetype_registered(aArchetype))
+                register_archetype(aArchetype);
+        }
         return create_entity(aArchetype.id(), std::forward<ComponentData>(aComponentData)...);
     }
 
@@ -713,8 +725,6 @@ namespace neolib::ecs
     {
         auto creator = [=, this, &aArchetype]()
         {
-            if (!archetype_registered(aArchetype))
-                register_archetype(aArchetype);
             create_entity(aArchetype, aComponentData...);
         };
         async_create_entity(std::function<void()>{ creator });
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index f415bc4..cbd4bbe 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -151,8 +151,14 @@ namespace neolib::ecs
         auto existingFactory = component_factories().find(aComponentId);
         if (existingFactory != component_factories().end())
         {
-            auto& c = *iComponents.emplace(aComponentId, existingFactory->second()).first->second;
+            auto const factory = existingFactory->second;
+            lock2.unlock();
+            auto newComponent = factory();
+            iComponentMutexes.reserve(iComponentMutexes.size() + 1u);
+            auto& c = *iComponents.emplace(aComponentId, std::move(newComponent)).first->second;
             iComponentMutexes.emplace_back(c.mutex());
+            lock1.unlock();
+            std::unique_lock lock3{ system_mutex() };
             for (auto& s : iSystems)
                 s.second->update_component_availability();
             return c;
@@ -180,7 +186,11 @@ namespace neolib::ecs
         std::unique_lock lock2{ shared_component_factory_mutex() };
         auto existingFactory = shared_component_factories().find(aComponentId);
         if (existingFactory != shared_component_factories().end())
-            return *iSharedComponents.emplace(aComponentId, existingFactory->second()).first->second;
+        {
+            auto const factory = existingFactory->second;
+            lock2.unlock();
+            return *iSharedComponents.emplace(aComponentId, factory()).first->second;
+        }
         throw component_not_found();
     }
 
@@ -191,6 +201,7 @@ namespace neolib::ecs
 
     bool ecs::system_instantiated(system_id aSystemId) const
     {
+        std::unique_lock lock{ system_mutex() };
         return systems().find(aSystemId) != systems().end();
     }
 
@@ -204,7 +215,9 @@ namespace neolib::ecs
         auto existingFactory = system_factories().find(aSystemId);
         if (existingFactory != system_factories().end())
         {
-            auto& newSystem = *iSystems.emplace(aSystemId, existingFactory->second()).first->second;
+            auto const factory = existingFactory->second;
+            lock2.unlock();
+            auto& newSystem = *iSystems.emplace(aSystemId, factory()).first->second;
             if (all_systems_paused())
                 newSystem.pause();
             return newSystem;
@@ -245,13 +258,19 @@ namespace neolib::ecs
             [this](neolib::callback_timer& aTimer)
             {
                 aTimer.again();
-                for (auto& system : systems())
-                    if (system.second->can_apply())
+                std::vector<i_system*> systemsToApply; // systems may be added meanwhile
+                {
+                    std::unique_lock lock{ system_mutex() };
+                    for (auto& system : systems())
                     {
                         system_id ignore;
                         if (!is_child(system.first, ignore))
-                            system.second->apply();
+                            systemsToApply.push_back(&*system.second);
                     }
+                }
+                for (auto system : systemsToApply)
+                    if (system->can_apply())
+                        system->apply();
                 commit_async_entity_destruction();
                 commit_async_entity_creation();
             }, std::chrono::milliseconds{1}, true
@@ -369,7 +388,8 @@ namespace neolib::ecs
                 return;
             entitiesToCreate.swap(iEntitiesToCreate);
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         while (!entitiesToCreate.empty())
         {
             auto next = entitiesToCreate.back();
@@ -380,35 +400,45 @@ namespace neolib::ecs
 
     void ecs::destroy_entity(entity_id aEntityId, bool aNotify)
     {
-        {
-            // it must not be destroyed a second time, by then as another entity
-            std::unique_lock lock{ entity_mutex() };
-            iEntitiesToDestroy.erase(std::remove_if(iEntitiesToDestroy.begin(), iEntitiesToDestroy.end(), 
-                [aEntityId](auto const& e) { return e.first == aEntityId; }), iEntitiesToDestroy.end());
-        }
+        cancel_async_entity_destruction(aEntityId);
         if (aNotify)
             EntityDestroyed.trigger(aEntityId);
         {
-            scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
-            for (auto& component : iComponents)
-                if (component.second->has_entity_record(aEntityId))
-                    component.second->destroy_entity_record(aEntityId);
+            std::vector<i_component*> existingComponents; // components may be added meanwhile
+            decltype(iComponentMutexes) componentMutexes;
+            {
+                std::unique_lock lock{ component_mutex() };
+                for (auto& component : iComponents)
+                    existingComponents.push_back(&*component.second);
+                componentMutexes = iComponentMutexes;
+            }
+            scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
+            for (auto component : existingComponents)
+                if (component->has_entity_record(aEntityId))
+                    component->destroy_entity_record(aEntityId);
         }
         {
             std::unique_lock lock{ entity_mutex() };
+            cancel_async_entity_destruction(aEntityId);
             free_entity_id(aEntityId);
         }
     }
 
+    void ecs::cancel_async_entity_destruction(entity_id aEntityId)
+    {
+        // it must not be destroyed a second time, by then as another entity
+        std::unique_lock lock{ entity_mutex() };
+        iEntitiesToDestroy.erase(std::remove_if(iEntitiesToDestroy.begin(), iEntitiesToDestroy.end(),
+            [aEntityId](auto const& e) { return e.first == aEntityId; }), iEntitiesToDestroy.end());
+    }
+
     void ecs::async_destroy_entity(entity_id aEntityId, bool aNotify)
     {
         {
             scoped_component_data_lock<entity_info> lock{ *this };
             if (component<entity_info>().entity_record(aEntityId).destroyed.exchange(true))
                 return;
-        }
-        {
-            std::unique_lock lock{ entity_mutex() };
+            std::unique_lock lock2{ entity_mutex() };
             iEntitiesToDestroy.emplace_back(aEntityId, aNotify);
         }
     }
@@ -420,7 +450,8 @@ namespace neolib::ecs
             if (iEntitiesToDestroy.empty())
                 return;
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         for (;;)
         {
             std::unique_lock lock2{ entity_mutex() };
@@ -433,6 +464,12 @@ namespace neolib::ecs
         }
     }
 
+    std::vector<proxy_mutex<i_lockable>> ecs::component_mutexes() const
+    {
+        std::unique_lock lock{ component_mutex() };
+        return iComponentMutexes;
+    }
+
     bool ecs::run_threaded(const system_id& aSystemId) const
     {
         return (flags() & ecs_flags::NoThreads) != ecs_flags::NoThreads;
@@ -452,11 +489,11 @@ namespace neolib::ecs
 
     void ecs::pause_all_systems()
     {
+        std::unique_lock lock{ system_mutex() };
+
         if (iSystemsPaused)
             return;
 
-        std::unique_lock lock{ system_mutex() };
-
         for (auto& s : systems())
             s.second->pause();
         iSystemsPaused = true;
@@ -471,11 +508,11 @@ namespace neolib::ecs
 
     void ecs::resume_all_systems()
     {
+        std::unique_lock lock{ system_mutex() };
+
         if (!iSystemsPaused)
             return;
 
-        std::unique_lock lock{ system_mutex() };
-
         for (auto& s : systems())
             s.second->resume();
         iSystemsPaused = false;
diff --git a/src/ecs/time.cpp b/src/ecs/time.cpp
index 0429921..8d86f04 100644
--- a/src/ecs/time.cpp
+++ b/src/ecs/time.cpp
@@ -41,6 +41,7 @@ namespace neolib::ecs
 {
     clock& world_clock(ecs::i_ecs& aEcs)
     {
+        std::unique_lock<i_lockable> lock{ aEcs.shared_component_mutex() };
         if (!aEcs.shared_component_registered<clock>())
         {
             aEcs.register_shared_component<clock>();
@@ -78,7 +79,7 @@ namespace neolib::ecs
         auto waitDuration = std::numeric_limits<i64>::max();
 
         {
-            scoped_component_lock lock{ iLifeSpans };
+            scoped_component_lock lock{ iInfos, iLifeSpans };
 
             for (auto entity : iLifeSpans.entities())
             {
-- 
2.43.0


From b3895cd06a26326698d74479b98dcc0c16cc8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 63/77] fix: ecs systems lost signals, ran while paused or
 being stopped, and used their thread before it was there

---
 include/neolib/app/power.hpp  |  3 +-
 include/neolib/ecs/system.hpp | 66 +++++++++++++++++++++++------------
 src/app/power.cpp             |  3 +-
 src/ecs/ecs.cpp               |  8 ++---
 src/ecs/system.cpp            | 13 +++++--
 src/ecs/time.cpp              |  5 +--
 6 files changed, 60 insertions(+), 38 deletions(-)

diff --git a/include/neolib/app/power.hpp b/include/neolib/app/power.hpp
index 9ce5cf8..f4a326a 100644
--- a/include/neolib/app/power.hpp
+++ b/include/neolib/app/power.hpp
@@ -36,6 +36,7 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <atomic>
 #include <chrono>
 #include <neolib/task/timer.hpp>
 #include <neolib/task/event.hpp>
@@ -73,7 +74,7 @@ namespace neolib
     private:
         power_flags iFlags;
         neolib::callback_timer iUpdater;
-        power_mode iActiveMode;
+        std::atomic<power_mode> iActiveMode; // read by threads which yield
         bool iGreenModeEnabled;
         std::chrono::seconds iActivityTimeout;
         std::chrono::steady_clock::time_point iLastActivityTime;
diff --git a/include/neolib/ecs/system.hpp b/include/neolib/ecs/system.hpp
index f3efa8b..e01b442 100644
--- a/include/neolib/ecs/system.hpp
+++ b/include/neolib/ecs/system.hpp
@@ -59,6 +59,7 @@ namespace neolib::ecs
         thread(i_system& aOwner);
         ~thread();
     public:
+        void stop();
         bool do_work(neolib::yield_type aYieldType = neolib::yield_type::NoYield) final;
     private:
         i_system& iOwner;
@@ -80,31 +81,29 @@ namespace neolib::ecs
         struct no_thread : std::logic_error { no_thread() : std::logic_error{ "neolib::ecs::system::no_thread" } {} };
     public:
         system(i_ecs& aEcs) :
-            iEcs{ aEcs }, iComponents{ ComponentData::meta::id()... }, iPaused{ 0u }
+            iEcs{ aEcs }, iComponents{ ComponentData::meta::id()... }, iPaused{ aEcs.all_systems_paused() ? 1u : 0u }
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
         }
         system(const system& aOther) :
-            iEcs{ aOther.iEcs }, iComponents{ aOther.iComponents }, iPaused{ 0u }
+            iEcs{ aOther.iEcs }, iComponents{ aOther.iComponents }, iPaused{ aOther.iEcs.all_systems_paused() ? 1u : 0u }
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
         }
         system(system&& aOther) :
-            iEcs{ aOther.iEcs }, iComponents{ std::move(aOther.iComponents) }, iPaused{ 0u }
+            iEcs{ aOther.iEcs }, iComponents{ std::move(aOther.iComponents) }, iPaused{ aOther.iEcs.all_systems_paused() ? 1u : 0u }
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
         }
         template <typename ComponentIdIter>
         system(i_ecs& aEcs, ComponentIdIter aFirstComponent, ComponentIdIter aLastComponent) :
-            iEcs{ aEcs }, iComponents{ aFirstComponent, aLastComponent }, iPaused{ 0u }
+            iEcs{ aEcs }, iComponents{ aFirstComponent, aLastComponent }, iPaused{ aEcs.all_systems_paused() ? 1u : 0u }
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
-            if (ecs().all_systems_paused())
-                pause();
         }
         ~system()
         {
@@ -155,12 +154,17 @@ namespace neolib::ecs
         }
         void resume() final
         {
-            if (--iPaused == 0 && waiting())
-                signal();
+            if (--iPaused == 0)
+                do_signal();
         }
         void terminate() final
         {
-            iThread = nullptr;
+            if (!have_thread())
+                return;
+            iThread->stop(); // the thread uses iThread until it has stopped
+            std::unique_ptr<thread> stopped;
+            std::unique_lock<std::mutex> lock{ iMutex };
+            stopped = std::move(iThread);
         }
         bool waiting() const final
         {
@@ -172,11 +176,13 @@ namespace neolib::ecs
                 throw no_thread();
             if (!get_thread().in())
                 throw wrong_thread();
+            std::unique_lock<std::mutex> lock{ iMutex };
             if (!get_thread().is_alive())
                 return;
-            std::unique_lock<std::mutex> lock{ iMutex };
             iWaiting = true;
-            iCondVar.wait(lock, [&]() { return !iWaiting; });
+            iCondVar.wait(lock, [&]() { return iSignalled; });
+            iSignalled = false;
+            iWaiting = false;
         }
         void wait_for(primitives::scalar aDuration) final
         {
@@ -184,27 +190,22 @@ namespace neolib::ecs
                 throw no_thread();
             if (!get_thread().in())
                 throw wrong_thread();
+            std::unique_lock<std::mutex> lock{ iMutex };
             if (!get_thread().is_alive())
                 return;
-            std::unique_lock<std::mutex> lock{ iMutex };
             iWaiting = true;
-            iCondVar.wait_for(lock, std::chrono::duration<double>(aDuration), [&](){ return !iWaiting; });
+            iCondVar.wait_for(lock, std::chrono::duration<double>(aDuration), [&](){ return iSignalled; });
+            iSignalled = false;
+            iWaiting = false;
         }
         void signal() final
         {
-            if (have_thread() && get_thread().in())
-                throw wrong_thread();
-            bool doIt = false;
             {
                 std::unique_lock<std::mutex> lock{ iMutex };
-                if (iWaiting)
-                {
-                    iWaiting = false;
-                    doIt = true;
-                }
+                if (have_thread() && get_thread().in())
+                    throw wrong_thread();
             }
-            if (doIt)
-                iCondVar.notify_one();
+            do_signal();
         }
     public:
         void start_thread_if() final
@@ -214,7 +215,10 @@ namespace neolib::ecs
         }
         void start_thread() final
         {
+            terminate();
+            iSignalled = false;
             iThread = std::make_unique<thread>(*this);
+            iThread->start(); // the thread uses iThread
         }
     public:
         bool debug() const final
@@ -226,11 +230,13 @@ namespace neolib::ecs
             if (iDebug != aDebug)
             {
                 iDebug = aDebug;
+                std::unique_lock<std::mutex> lock{ iPerformanceMetricsMutex };
                 iPerformanceMetrics.clear();
             }
         }
         std::chrono::microseconds update_time(std::size_t aMetricsIndex = 0) const final
         {
+            std::unique_lock<std::mutex> lock{ iPerformanceMetricsMutex };
             if (iPerformanceMetrics.size() <= aMetricsIndex || iPerformanceMetrics[aMetricsIndex].updateTimes.empty())
                 return std::chrono::microseconds{ 0 };
             return std::accumulate(iPerformanceMetrics[aMetricsIndex].updateTimes.begin(), iPerformanceMetrics[aMetricsIndex].updateTimes.end(), std::chrono::microseconds{}) / iPerformanceMetrics[aMetricsIndex].updateTimes.size();
@@ -261,6 +267,7 @@ namespace neolib::ecs
         {
             if (debug())
             {
+                std::unique_lock<std::mutex> lock{ iPerformanceMetricsMutex };
                 if (iPerformanceMetrics.size() <= aMetricsIndex)
                     iPerformanceMetrics.resize(aMetricsIndex + 1);
                 iPerformanceMetrics[aMetricsIndex].updateStartTime = std::chrono::high_resolution_clock::now();
@@ -270,6 +277,7 @@ namespace neolib::ecs
         {
             if (debug())
             {
+                std::unique_lock<std::mutex> lock{ iPerformanceMetricsMutex };
                 if (iPerformanceMetrics.size() > aMetricsIndex)
                 {
                     std::size_t const updateQueueSize = 100;
@@ -284,6 +292,16 @@ namespace neolib::ecs
                 }
             }
         }
+    private:
+        void do_signal()
+        {
+            {
+                std::unique_lock<std::mutex> lock{ iMutex };
+                iSignalled = true; // if not waiting yet then the next wait returns at once
+                iWaiting = false;
+            }
+            iCondVar.notify_one();
+        }
     private:
         i_ecs& iEcs;
         component_list iComponents;
@@ -292,7 +310,9 @@ namespace neolib::ecs
         std::mutex iMutex;
         std::condition_variable iCondVar;
         std::atomic<bool> iWaiting = false;
+        bool iSignalled = false;
         std::atomic<bool> iDebug = false;
+        mutable std::mutex iPerformanceMetricsMutex;
         std::vector<performance_metrics> iPerformanceMetrics;
         std::unique_ptr<thread> iThread;
     };
diff --git a/src/app/power.cpp b/src/app/power.cpp
index effacf1..1e43674 100644
--- a/src/app/power.cpp
+++ b/src/app/power.cpp
@@ -119,8 +119,7 @@ namespace neolib
     {
         if (iActiveMode != aMode)
         {
-            auto const previousMode = iActiveMode;
-            iActiveMode = aMode;
+            auto const previousMode = iActiveMode.exchange(aMode);
             set_process_and_thread_priority();
             switch (active_mode())
             {
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index cbd4bbe..975d817 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -217,10 +217,7 @@ namespace neolib::ecs
         {
             auto const factory = existingFactory->second;
             lock2.unlock();
-            auto& newSystem = *iSystems.emplace(aSystemId, factory()).first->second;
-            if (all_systems_paused())
-                newSystem.pause();
-            return newSystem;
+            return *iSystems.emplace(aSystemId, factory()).first->second; // created paused if all systems are
         }
         throw system_not_found();
     }
@@ -280,8 +277,9 @@ namespace neolib::ecs
         if ((flags() & ecs_flags::PopulateEntityInfo) == ecs_flags::PopulateEntityInfo)
             register_component<entity_info>();
 
+        auto& power = service<i_power>(); // which systems' threads use
         if ((flags() & ecs_flags::Turbo) == ecs_flags::Turbo && !all_systems_paused())
-            service<i_power>().enable_turbo_mode();
+            power.enable_turbo_mode();
 
         set_alive();
     }
diff --git a/src/ecs/system.cpp b/src/ecs/system.cpp
index 2c2d0c0..f4f0a14 100644
--- a/src/ecs/system.cpp
+++ b/src/ecs/system.cpp
@@ -41,19 +41,26 @@ namespace neolib::ecs
     thread::thread(i_system& aOwner) : 
         async_task{ "neolib::ecs::thread" }, async_thread{ *this, "neolib::ecs::thread" }, iOwner{ aOwner }
     {
-        start();
     }
 
     thread::~thread()
+    {
+        stop();
+    }
+
+    void thread::stop()
     {
         set_destroying();
-        if (iOwner.waiting())
-            iOwner.signal();
+        iOwner.signal();
+        async_task::cancel();
+        abort();
     }
 
     bool thread::do_work(neolib::yield_type aYieldType)
     {
         bool didWork = async_task::do_work(aYieldType);
+        if (!is_alive())
+            return didWork; // being stopped: paused or not, a system no longer applies
         if (iOwner.can_apply())
             didWork = iOwner.apply() || didWork;
         if (iOwner.paused() && !iOwner.waiting())
diff --git a/src/ecs/time.cpp b/src/ecs/time.cpp
index 8d86f04..4dd62f3 100644
--- a/src/ecs/time.cpp
+++ b/src/ecs/time.cpp
@@ -76,8 +76,6 @@ namespace neolib::ecs
         if (paused())
             return false;
 
-        auto waitDuration = std::numeric_limits<i64>::max();
-
         {
             scoped_component_lock lock{ iInfos, iLifeSpans };
 
@@ -88,14 +86,13 @@ namespace neolib::ecs
                     continue;
                 auto const& lifeSpan = iLifeSpans.entity_record(entity);
                 auto const age = world_time() - info.creationTime;
-                waitDuration = std::min(waitDuration, lifeSpan.lifeSpan - age);
                 if (age > lifeSpan.lifeSpan)
                     ecs().async_destroy_entity(entity);
             }
         }
 
         if (have_thread() && get_thread().in())
-            wait_for(std::max(1.0, from_step_time(waitDuration)));
+            wait_for(1.0); // life spans may be added or shortened meanwhile
 
         return true;
     }
-- 
2.43.0


From 7a0140011031e3d3a359acfde3402a05e8ca055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:31 +0000
Subject: [PATCH 64/77] fix: ecs commits could deadlock with components added
 meanwhile and lost creations after a failed one; the world's clock was left
 out after a failure

---
 include/neolib/ecs/component.hpp |  2 ++
 include/neolib/ecs/ecs.hpp       |  2 +-
 include/neolib/ecs/i_ecs.hpp     |  3 +-
 src/ecs/ecs.cpp                  | 51 ++++++++++++++++++--------------
 src/ecs/time.cpp                 | 10 +++----
 5 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 95a2707..e9dfeda 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -639,6 +639,7 @@ namespace neolib::ecs
     public:
         shared<mapped_type> populate(const std::string& aName, const mapped_type& aData)
         {
+            std::scoped_lock<component_mutex<shared<mapped_type>>> lock{ mutex() };
             base_type::component_data()[aName] = aData;
             auto& result = base_type::component_data()[aName];
             if constexpr (mapped_type::meta::has_updater)
@@ -647,6 +648,7 @@ namespace neolib::ecs
         }
         shared<mapped_type> populate(const std::string& aName, mapped_type&& aData)
         {
+            std::scoped_lock<component_mutex<shared<mapped_type>>> lock{ mutex() };
             base_type::component_data()[aName] = std::move(aData);
             auto& result = base_type::component_data()[aName];
             if constexpr (mapped_type::meta::has_updater)
diff --git a/include/neolib/ecs/ecs.hpp b/include/neolib/ecs/ecs.hpp
index b96d652..c01da61 100644
--- a/include/neolib/ecs/ecs.hpp
+++ b/include/neolib/ecs/ecs.hpp
@@ -97,6 +97,7 @@ namespace neolib::ecs
     public:
         ecs_flags flags() const final;
         entity_id create_entity(const entity_archetype_id& aArchetypeId) final;
+        void create_entity_into(const entity_archetype_id& aArchetypeId, entity_id& aNewEntity) final;
         void async_create_entity(const std::function<void()>& aCreator) final;
         void commit_async_entity_creation() final;
         void destroy_entity(entity_id aEntityId, bool aNotify = true) override;
@@ -155,7 +156,6 @@ namespace neolib::ecs
         handle_t release_handle(handle_id aId) final;
     private:
         void cancel_async_entity_destruction(entity_id aEntityId);
-        std::vector<proxy_mutex<i_lockable>> component_mutexes() const;
         handle_id next_handle_id();
         void free_handle_id(handle_id aId);
     public:
diff --git a/include/neolib/ecs/i_ecs.hpp b/include/neolib/ecs/i_ecs.hpp
index 2719b34..31eceb7 100644
--- a/include/neolib/ecs/i_ecs.hpp
+++ b/include/neolib/ecs/i_ecs.hpp
@@ -166,6 +166,7 @@ namespace neolib::ecs
     public:
         virtual ecs_flags flags() const = 0;
         virtual entity_id create_entity(const entity_archetype_id& aArchetypeId) = 0;
+        virtual void create_entity_into(const entity_archetype_id& aArchetypeId, entity_id& aNewEntity) = 0; // if it fails then aNewEntity, if not null, is to be destroyed
         virtual void async_create_entity(const std::function<void()>& aCreator) = 0; // todo: polymorphic functor
         virtual void commit_async_entity_creation() = 0;
         virtual void destroy_entity(entity_id aEntityId, bool aNotify = true) = 0;
@@ -686,7 +687,7 @@ namespace neolib::ecs
         try
         {
             scoped_component_data_lock<std::decay_t<ComponentData>...> lock{ *this };
-            newEntity = create_entity(aArchetypeId);
+            create_entity_into(aArchetypeId, newEntity);
             populate(newEntity, std::forward<ComponentData>(aComponentData)...);
             archetype(aArchetypeId).populate_default_components(*this, newEntity);
         }
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 975d817..b3a7bd4 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -39,6 +39,7 @@
 #include <neolib/ecs/entity_info.hpp>
 #include <neolib/ecs/time.hpp>
 #include <neolib/core/numerical.hpp>
+#include <neolib/core/scoped.hpp>
 
 namespace neolib
 {
@@ -351,24 +352,38 @@ namespace neolib::ecs
     }
 
     entity_id ecs::create_entity(const entity_archetype_id& aArchetypeId)
+    {
+        entity_id newEntity = null_entity;
+        try
+        {
+            create_entity_into(aArchetypeId, newEntity);
+        }
+        catch (...)
+        {
+            if (newEntity != null_entity)
+                destroy_entity(newEntity);
+            throw;
+        }
+        return newEntity;
+    }
+
+    void ecs::create_entity_into(const entity_archetype_id& aArchetypeId, entity_id& aNewEntity)
     {
         std::unique_lock lock{ entity_mutex() };
         auto entityId = next_entity_id();
         lock.unlock();
-        bool notified = false;
         try
         {
             if ((flags() & ecs_flags::PopulateEntityInfo) == ecs_flags::PopulateEntityInfo)
                 component<entity_info>().populate(entityId, entity_info{ aArchetypeId, system<time>().world_time() });
-            notified = true;
-            EntityCreated.trigger(entityId);
         }
         catch (...)
         {
-            destroy_entity(entityId, notified);
+            free_entity_id(entityId);
             throw;
         }
-        return entityId;
+        aNewEntity = entityId;
+        EntityCreated.trigger(entityId);
     }
 
     void ecs::async_create_entity(const std::function<void()>& aCreator)
@@ -386,13 +401,16 @@ namespace neolib::ecs
                 return;
             entitiesToCreate.swap(iEntitiesToCreate);
         }
-        auto componentMutexes = component_mutexes();
-        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
+        scoped_cleanup notCreated{ [&]() // only if a creator throws
+        {
+            std::unique_lock lock{ entity_mutex() };
+            iEntitiesToCreate.insert(iEntitiesToCreate.end(), entitiesToCreate.begin(), entitiesToCreate.end());
+        } };
         while (!entitiesToCreate.empty())
         {
             auto next = entitiesToCreate.back();
             entitiesToCreate.pop_back();
-            next();
+            next(); // locks the components it populates, of which some may be new
         }
     }
 
@@ -443,31 +461,18 @@ namespace neolib::ecs
 
     void ecs::commit_async_entity_destruction()
     {
-        {
-            std::unique_lock lock{ entity_mutex() };
-            if (iEntitiesToDestroy.empty())
-                return;
-        }
-        auto componentMutexes = component_mutexes();
-        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         for (;;)
         {
-            std::unique_lock lock2{ entity_mutex() };
+            std::unique_lock lock{ entity_mutex() };
             if (iEntitiesToDestroy.empty())
                 return;
             auto next = iEntitiesToDestroy.back();
             iEntitiesToDestroy.pop_back();
-            lock2.unlock();
+            lock.unlock();
             destroy_entity(next.first, next.second);
         }
     }
 
-    std::vector<proxy_mutex<i_lockable>> ecs::component_mutexes() const
-    {
-        std::unique_lock lock{ component_mutex() };
-        return iComponentMutexes;
-    }
-
     bool ecs::run_threaded(const system_id& aSystemId) const
     {
         return (flags() & ecs_flags::NoThreads) != ecs_flags::NoThreads;
diff --git a/src/ecs/time.cpp b/src/ecs/time.cpp
index 4dd62f3..917d8e0 100644
--- a/src/ecs/time.cpp
+++ b/src/ecs/time.cpp
@@ -42,12 +42,10 @@ namespace neolib::ecs
     clock& world_clock(ecs::i_ecs& aEcs)
     {
         std::unique_lock<i_lockable> lock{ aEcs.shared_component_mutex() };
-        if (!aEcs.shared_component_registered<clock>())
-        {
-            aEcs.register_shared_component<clock>();
-            aEcs.populate_shared<clock>("World Clock", clock{});
-        }
-        return aEcs.shared_component<clock>()[0];
+        auto& clocks = aEcs.shared_component<clock>();
+        if (clocks.component_data().empty())
+            clocks.populate("World Clock", clock{});
+        return clocks[0];
     }
 
     time::time(ecs::i_ecs& aEcs) :
-- 
2.43.0


From ac56486828ec1206ace569d30f12c41ca2bf81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 65/77] fix: gap_vector lost, leaked and overran elements;
 failed insertions left unconstructed elements behind

---
 include/neolib/core/gap_vector.hpp | 186 ++++++++++++-----------------
 1 file changed, 79 insertions(+), 107 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..5ee32fd 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -252,24 +252,24 @@ namespace neolib
         constexpr explicit gap_vector(const Allocator& alloc) noexcept : iAlloc{ alloc }
         {
         }
-        constexpr gap_vector(size_type count, const value_type& value, const Allocator& alloc = Allocator()) : iAlloc{ alloc }
+        constexpr gap_vector(size_type count, const value_type& value, const Allocator& alloc = Allocator()) : gap_vector(alloc)
         {
             resize(count, value);
         }
-        constexpr explicit gap_vector(size_type count, const Allocator& alloc = Allocator()) : iAlloc{ alloc }
+        constexpr explicit gap_vector(size_type count, const Allocator& alloc = Allocator()) : gap_vector(alloc)
         {
             resize(count);
         }
         template<class InputIt>
-        constexpr gap_vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) : iAlloc{ alloc }
+        constexpr gap_vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) : gap_vector(alloc)
         {
             (void)insert(begin(), first, last);
         }
-        constexpr gap_vector(const gap_vector& other)
+        constexpr gap_vector(const gap_vector& other) : gap_vector()
         {
             (void)insert(begin(), other.begin(), other.end());
         }
-        constexpr gap_vector(const gap_vector& other, const Allocator& alloc) : iAlloc{ alloc }
+        constexpr gap_vector(const gap_vector& other, const Allocator& alloc) : gap_vector(alloc)
         {
             (void)insert(begin(), other.begin(), other.end());
         }
@@ -281,7 +281,7 @@ namespace neolib
         {
             swap(other);
         }
-        constexpr gap_vector(std::initializer_list<T> init, const Allocator& alloc = Allocator()) : iAlloc{ alloc }
+        constexpr gap_vector(std::initializer_list<T> init, const Allocator& alloc = Allocator()) : gap_vector(alloc)
         {
             (void)insert(begin(), init);
         }
@@ -294,7 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
-            assign(other.begin(), other.end());
+            if (this != &other)
+                assign(other.begin(), other.end());
             return *this;
         }
         constexpr gap_vector& operator=(gap_vector&& other) noexcept
@@ -342,16 +343,14 @@ namespace neolib
     public:
         constexpr const_reference at(size_type pos) const
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr reference at(size_type pos)
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr const_reference operator[](size_type pos) const
@@ -460,29 +459,28 @@ namespace neolib
             auto const existingCapacity = capacity();
             auto const existingData = iData;
             auto const existingDataEnd = iDataEnd;
-            auto const existingStorageEnd = iStorageEnd;
 
             pointer newStorage = std::allocator_traits<allocator_type>::allocate(iAlloc, aNewCapacity);
+            pointer newDataEnd = newStorage;
 
             try
             {
-                iData = newStorage;
-                iDataEnd = newStorage;
-                iStorageEnd = newStorage + aNewCapacity;
-
-                iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
-
-                std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
+                newDataEnd = std::uninitialized_move(existingData, existingDataEnd, newStorage);
             }
             catch(...)
             {
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, newStorage, aNewCapacity);
-                iData = existingData;
-                iDataEnd = existingDataEnd;
-                iStorageEnd = existingStorageEnd;
-
                 throw;
             }
+
+            iData = newStorage;
+            iDataEnd = newDataEnd;
+            iStorageEnd = newStorage + aNewCapacity;
+
+            for (auto garbage = existingData; garbage != existingDataEnd; ++garbage)
+                std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
+            if (existingData != nullptr)
+                std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
         }
         constexpr size_type capacity() const noexcept
         {
@@ -563,21 +561,23 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
-            auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
-            return iterator{ *this, memory };
+            return emplace(pos, value);
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
         {
-            auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::move(value));
-            return iterator{ *this, memory };
+            return emplace(pos, std::move(value));
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
-            auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
-            return iterator{ *this, memory };
+            auto const insertPosIndex = std::distance(cbegin(), pos);
+            if (count != 0)
+            {
+                value_type const newValue(value); // value could be an element of this container
+                auto const memory = allocate_from_gap(pos, count);
+                std::uninitialized_fill_n(memory, count, newValue);
+                iGapStart += count;
+            }
+            return std::next(begin(), insertPosIndex);
         }
         template<class InputIt>
         constexpr iterator insert(const_iterator pos, InputIt first, InputIt last)
@@ -586,22 +586,28 @@ namespace neolib
             for (auto nextPosIndex = insertPosIndex; first != last; ++nextPosIndex)
             {
                 auto const nextPos = std::next(cbegin(), nextPosIndex);
-                auto const memory = allocate_from_gap(nextPos, 1);
-                std::uninitialized_copy_n(first++, 1, memory);
+                (void)emplace(nextPos, *first++);
             }
             return std::next(begin(), insertPosIndex);
         }
         constexpr iterator insert(const_iterator pos, std::initializer_list<value_type> list)
         {
-            auto const memory = allocate_from_gap(pos, list.size());
-            std::uninitialized_copy(list.begin(), list.end(), memory);
-            return iterator{ *this, memory };
+            auto const insertPosIndex = std::distance(cbegin(), pos);
+            if (list.size() != 0)
+            {
+                auto const memory = allocate_from_gap(pos, list.size());
+                std::uninitialized_copy(list.begin(), list.end(), memory);
+                iGapStart += list.size();
+            }
+            return std::next(begin(), insertPosIndex);
         }
         template<class... Args>
         constexpr iterator emplace(const_iterator pos, Args&&... args)
         {
+            value_type newValue(std::forward<Args>(args)...); // arguments could be elements of this container
             auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::forward<Args>(args)...);
+            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::move(newValue));
+            iGapStart += 1;
             return iterator{ *this, memory };
         }
         constexpr void push_back(value_type const& value)
@@ -636,11 +642,8 @@ namespace neolib
         {
             if (!gap_active())
                 return;
-            auto const next = std::uninitialized_move(iGapEnd, std::min(iGapEnd + gap_size(), iDataEnd), iGapStart);
-            auto const newEnd = std::move(std::min(iGapEnd + gap_size(), iDataEnd), iDataEnd, next);
-            for (auto garbage = std::max(newEnd, iGapEnd); garbage != iDataEnd; ++garbage)
-                std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
-            iDataEnd = newEnd;
+            move_gap(iDataEnd);
+            iDataEnd = iGapStart;
             iGapStart = nullptr;
             iGapEnd = nullptr;
         }
@@ -690,82 +693,51 @@ namespace neolib
         {
             return near_gap(aPosition.base());
         }
-        constexpr pointer allocate_from_gap(const_iterator aPosition, size_type aCount)
+        // move the gap so that it ends at the given element (or at the end of the elements), which must not be inside the gap
+        constexpr void move_gap(pointer aGapEnd) const
         {
-            if (near_gap(aPosition) && aCount <= gap_size())
+            if (aGapEnd >= iGapEnd)
             {
-                auto const posIndex = std::distance(cbegin(), aPosition);
-                auto const pos = std::next(begin(), posIndex).base();
-                if (before_gap(aPosition))
+                for (; iGapEnd != aGapEnd; ++iGapStart, ++iGapEnd)
                 {
-                    auto dest = std::next(iGapStart, aCount - 1);
-                    auto src = iGapStart;
-                    do
-                    {
-                        --src;
-                        if (dest >= iGapStart)
-                            std::allocator_traits<allocator_type>::construct(iAlloc, dest--, std::move(*src));
-                        else
-                            *dest-- = std::move(*src);
-                        if (src < pos + aCount)
-                            std::allocator_traits<allocator_type>::destroy(iAlloc, src);
-                    } while (src != pos);
-                    iGapStart += aCount;
-                    return pos;
+                    std::allocator_traits<allocator_type>::construct(iAlloc, iGapStart, std::move(*iGapEnd));
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, iGapEnd);
                 }
-                else if (after_gap(aPosition))
+            }
+            else
+            {
+                while (iGapStart != aGapEnd)
                 {
-                    if (pos != iGapEnd)
-                    {
-                        auto dest = std::prev(iGapEnd, aCount);
-                        auto src = iGapEnd;
-                        do
-                        {
-                            if (dest < iGapEnd)
-                                std::allocator_traits<allocator_type>::construct(iAlloc, dest++, std::move(*src));
-                            else
-                                *dest++ = std::move(*src);
-                            if (src >= pos - aCount)
-                                std::allocator_traits<allocator_type>::destroy(iAlloc, src);
-                            ++src;
-                        } while (src != pos);
-                    }
-                    iGapEnd -= aCount;
-                    return pos - aCount;
+                    std::allocator_traits<allocator_type>::construct(iAlloc, std::prev(iGapEnd), std::move(*std::prev(iGapStart)));
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, std::prev(iGapStart));
+                    --iGapStart;
+                    --iGapEnd;
                 }
-                // pos should be iGapStart
-                iGapStart += aCount;
-                return pos;
+            }
+        }
+        // make room for the given number of elements at the start of the gap; the caller constructs the elements and
+        // then moves the start of the gap past them
+        constexpr pointer allocate_from_gap(const_iterator aPosition, size_type aCount)
+        {
+            auto const posIndex = std::distance(cbegin(), aPosition);
+            if (near_gap(aPosition) && aCount <= gap_size())
+            {
+                if (posIndex != iGapStart - iData)
+                    move_gap(std::next(begin(), posIndex).base());
             }
             else
             {
                 // todo: consider optimising by removing the need to call unsplit
-                auto const posIndex = std::distance(cbegin(), aPosition);
                 unsplit();
                 if (room() < aCount)
                     grow(aCount);
-                auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
-                auto src = iDataEnd;
-                auto dest = std::next(iDataEnd, initialGapSize);
-                while (src != pos)
-                {
-                    --src;
-                    --dest;
-                    if (dest >= iDataEnd)
-                        std::allocator_traits<allocator_type>::construct(iAlloc, dest, std::move(*src));
-                    else
-                        *dest = std::move(*src);
-                };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
-                for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
-                    std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
-                std::advance(iDataEnd, initialGapSize);
-
-                iGapStart = std::next(pos, aCount);
-                iGapEnd = std::next(pos, initialGapSize);
-                return pos;
+                auto const initialGapSize = std::max(aCount, std::min(room(), DefaultGapSize));
+                iGapStart = iDataEnd;
+                iDataEnd = std::next(iDataEnd, initialGapSize);
+                iGapEnd = iDataEnd;
+                move_gap(std::next(iData, posIndex));
             }
+            return iGapStart;
         }
         constexpr void grow(size_type aCount)
         {
-- 
2.43.0


From 07e0389a49f2ad7c7e45cb56b59bbf2ff00decd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 66/77] fix: segmented_array was left broken by failed
 insertions and moves, and overfilled the segment following an insertion

---
 include/neolib/core/array_tree.hpp      |  7 +-
 include/neolib/core/segmented_array.hpp | 86 ++++++++++++++++---------
 2 files changed, 57 insertions(+), 36 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..9f1d598 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,12 +237,9 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree(static_cast<Alloc>(other.iAllocator))
         {
+            // other gets our nil node so it remains usable
             std::swap(iRoot, other.iRoot);
             std::swap(iFront, other.iFront);
             std::swap(iBack, other.iBack);
diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..b7eb4f7 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -365,18 +365,18 @@ namespace neolib
         {
         }
         segmented_array(const size_type aCount, const value_type& aValue, const Alloc& aAllocator = Alloc()) :
-            iAllocator{ aAllocator }, iSize{ 0 }
+            segmented_array(aAllocator)
         {
             insert(begin(), aCount, aValue);
         }
         template <typename InputIterator>
         segmented_array(InputIterator aFirst, InputIterator aLast, const Alloc& aAllocator = Alloc()) :
-            iAllocator{ aAllocator }, iSize{ 0 }
+            segmented_array(aAllocator)
         {
             insert(begin(), aFirst, aLast);
         }
         segmented_array(const segmented_array& aOther, const Alloc& aAllocator = Alloc()) :
-            iAllocator{ aAllocator }, iSize{ 0 }
+            segmented_array(aAllocator)
         {
             insert(begin(), aOther.begin(), aOther.end());
         }
@@ -497,7 +497,8 @@ namespace neolib
         }
         iterator insert(const_iterator aPosition, const value_type& aValue)
         {
-            return insert(aPosition, static_cast<size_type>(1), aValue);
+            value_type newValue(aValue); // copying could throw and the value could be one of ours
+            return do_insert_elements(aPosition, std::make_move_iterator(std::addressof(newValue)), std::make_move_iterator(std::addressof(newValue) + 1));
         }
         template <typename... Args>
         iterator emplace_insert(const_iterator aPosition, Args&&... aArguments)
@@ -521,9 +522,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const value(aValue); // the value could be one of ours
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, value);
                 ++aPosition;
                 --aCount;
             }
@@ -536,8 +538,8 @@ namespace neolib
             while (aCount > 0)
             {
                 // todo: shouldn't be creating a temporary for emplace
-                auto const& temp = value_type{ std::forward<Args>(aArguments)... };
-                aPosition = insert(aPosition, &temp, &temp + 1);
+                auto&& temp = value_type{ std::forward<Args>(aArguments)... };
+                aPosition = do_insert_elements(aPosition, std::make_move_iterator(std::addressof(temp)), std::make_move_iterator(std::addressof(temp) + 1));
                 ++aPosition;
                 --aCount;
             }
@@ -558,12 +560,12 @@ namespace neolib
         template <typename... Args>
         void emplace_front(Args&&... aArguments)
         {
-            emplace_insert(begin(), std::forward<Args>(aArguments)...);
+            emplace_insert(begin(), static_cast<size_type>(1), std::forward<Args>(aArguments)...);
         }
         template <typename... Args>
         void emplace_back(Args&&... aArguments)
         {
-            emplace_insert(end(), std::forward<Args>(aArguments)...);
+            emplace_insert(end(), static_cast<size_type>(1), std::forward<Args>(aArguments)...);
         }
         void resize(std::size_t aNewSize, const value_type& aValue = value_type{})
         {
@@ -637,6 +639,12 @@ namespace neolib
         template <class InputIterator>
         typename std::enable_if<!std::is_same<typename std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag>::value, iterator>::type
         do_insert(const_iterator aPosition, InputIterator aFirst, InputIterator aLast)
+        {
+            std::vector<value_type> newValues(aFirst, aLast); // copying could throw and the values could be ours
+            return do_insert_elements(aPosition, std::make_move_iterator(newValues.begin()), std::make_move_iterator(newValues.end()));
+        }
+        template <class InputIterator>
+        iterator do_insert_elements(const_iterator aPosition, InputIterator aFirst, InputIterator aLast)
         {
             size_type count = std::distance(aFirst, aLast);
             if (count == 0)
@@ -657,11 +665,11 @@ namespace neolib
                 if (aPosition.iNode == nullptr)
                     aPosition = begin();
                 segment_type& segment = aPosition.iNode->segment();
-                typename segment_type::const_iterator tailEnd = segment.end();
-                typename segment_type::const_iterator tailStart = tailEnd - (segment.size() - aPosition.iSegmentPosition);
+                typename segment_type::iterator tailEnd = segment.end();
+                typename segment_type::iterator tailStart = tailEnd - (segment.size() - aPosition.iSegmentPosition);
                 if (tailStart != tailEnd)
                 {
-                    lastNode->segment().insert(lastNode->segment().begin(), tailStart, tailEnd);
+                    lastNode->segment().insert(lastNode->segment().begin(), std::make_move_iterator(tailStart), std::make_move_iterator(tailEnd));
                     lastNode->set_size(lastNode->size() + (tailEnd - tailStart));
                     aPosition.iNode->set_size(aPosition.iNode->size() - (tailEnd - tailStart));
                     segment.erase(tailStart, tailEnd);
@@ -732,6 +740,7 @@ namespace neolib
                 aCount -= std::min(aCount, (available(aPosition.iNode->segment())));
             if (aCount == 0)
                 return aPosition.iNode;
+            node* const before = aPosition.iNode;
             node* lastNode = nullptr;
             if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && aCount <= 
                 available(static_cast<node*>(aPosition.iNode->next())->segment()))
@@ -740,13 +749,27 @@ namespace neolib
                 aCount -= std::min(aCount, available(lastNode->segment()));
             }
             node* nextNode = aPosition.iNode;
-            while (aCount > 0)
-                aCount -= std::min(aCount, available((nextNode = allocate_node(nextNode))->segment()));
-            if (aPosition.iNode == nullptr)
-                aPosition = begin();
-            segment_type& segment = aPosition.iNode->segment();
-            if (aPosition.iSegmentPosition < segment.size() && available(nextNode->segment()) < segment.size() - aPosition.iSegmentPosition)
-                lastNode = allocate_node(nextNode);
+            try
+            {
+                while (aCount > 0)
+                    aCount -= std::min(aCount, available((nextNode = allocate_node(nextNode))->segment()));
+                if (aPosition.iNode == nullptr)
+                    aPosition = begin();
+                segment_type& segment = aPosition.iNode->segment();
+                if (aPosition.iSegmentPosition < segment.size() && available((lastNode ? lastNode : nextNode)->segment()) < segment.size() - aPosition.iSegmentPosition)
+                    lastNode = allocate_node(nextNode);
+            }
+            catch (...)
+            {
+                // the nodes allocated so far are empty and aren't in the tree yet
+                while (nextNode != before)
+                {
+                    node* const previous = static_cast<node*>(nextNode->previous());
+                    release_node(nextNode);
+                    nextNode = previous;
+                }
+                throw;
+            }
             return lastNode ? lastNode : nextNode;
         }
         node* allocate_node(node* aAfter)
@@ -782,18 +805,19 @@ namespace neolib
         }
         void free_node(node* aNode)
         {
-            if (aNode)
-            {
-                if (aNode->next())
-                    aNode->next()->set_previous(aNode->previous());
-                if (aNode->previous())
-                    aNode->previous()->set_next(aNode->next());
-                if (base_type::back_node() == aNode)
-                    base_type::set_back_node(aNode->previous());
-                if (base_type::front_node() == aNode)
-                    base_type::set_front_node(aNode->next());
-                base_type::delete_node(aNode);
-            }
+            base_type::delete_node(aNode);
+            release_node(aNode);
+        }
+        void release_node(node* aNode)
+        {
+            if (aNode->next())
+                aNode->next()->set_previous(aNode->previous());
+            if (aNode->previous())
+                aNode->previous()->set_next(aNode->next());
+            if (base_type::back_node() == aNode)
+                base_type::set_back_node(aNode->previous());
+            if (base_type::front_node() == aNode)
+                base_type::set_front_node(aNode->next());
             std::allocator_traits<node_allocator_type>::destroy(iAllocator, aNode);
             std::allocator_traits<node_allocator_type>::deallocate(iAllocator, aNode, 1);
         }
-- 
2.43.0


From d9d45c28dd41afdf6217128f599d699f82059ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:22 +0000
Subject: [PATCH 67/77] fix: growable_static_vector swap exchanged small
 buffers, its moves copied and could terminate

---
 include/neolib/core/static_vector.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..72dfe9c 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -76,7 +76,7 @@ namespace neolib
                 std_type::reserve(Capacity);
         }
         constexpr growable_static_vector(growable_static_vector&& aOther) :
-            std_type{ aOther, allocator_type{ *this } }
+            std_type{ std::move(aOther.as_std_vector()), allocator_type{ *this } }
         {
             if (std_type::capacity() == 0)
                 std_type::reserve(Capacity);
@@ -125,9 +125,9 @@ namespace neolib
             std_type::operator=(other);
             return *this;
         }
-        constexpr growable_static_vector& operator=(growable_static_vector&& other) noexcept
+        constexpr growable_static_vector& operator=(growable_static_vector&& other)
         {
-            std_type::operator=(other);
+            std_type::operator=(std::move(other.as_std_vector()));
             return *this;
         }
         constexpr growable_static_vector& operator=(std::initializer_list<T> ilist)
@@ -137,6 +137,13 @@ namespace neolib
         }
         // operations
     public:
+        constexpr void swap(growable_static_vector& other)
+        {
+            // each has its own small buffer so storage cannot be exchanged
+            growable_static_vector temp{ std::move(other) };
+            other = std::move(*this);
+            *this = std::move(temp);
+        }
         const std_type& as_std_vector() const
         {
             return *this;
-- 
2.43.0


From 9a157e0f499aece6227f7614890d46d4a3a522e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 68/77] fix: creating or moving an empty array tree allocated
 and a moved segmented array could not be used again

---
 include/neolib/core/array_tree.hpp      | 59 +++++++++++++------------
 include/neolib/core/segmented_array.hpp | 11 ++---
 include/neolib/core/tag_array.hpp       |  4 +-
 3 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index 9f1d598..040a585 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -205,17 +205,6 @@ namespace neolib
             iBack{ nullptr },
             iNil{ nullptr }
         {
-            iNil = std::allocator_traits<node_allocator_type>::allocate(iAllocator, 1);
-            try
-            {
-                std::allocator_traits<node_allocator_type>::construct(iAllocator, iNil, node(node::NIL));
-            }
-            catch (...)
-            {
-                std::allocator_traits<node_allocator_type>::deallocate(iAllocator, iNil, 1);
-                throw;
-            }
-            set_root_node(iNil);
         }
         array_tree(const array_tree& aOther) :
             iAllocator{ aOther.iAllocator },
@@ -224,22 +213,14 @@ namespace neolib
             iBack{ nullptr },
             iNil{ nullptr }
         {
-            iNil = std::allocator_traits<node_allocator_type>::allocate(iAllocator, 1);
-            try
-            {
-                std::allocator_traits<node_allocator_type>::construct(iAllocator, iNil, node(node::NIL));
-            }
-            catch (...)
-            {
-                std::allocator_traits<node_allocator_type>::deallocate(iAllocator, iNil, 1);
-                throw;
-            }
-            set_root_node(iNil);
         }
-        array_tree(array_tree&& other) :
-            array_tree(static_cast<Alloc>(other.iAllocator))
+        array_tree(array_tree&& other) noexcept :
+            iAllocator{ std::move(other.iAllocator) },
+            iRoot{ nullptr },
+            iFront{ nullptr },
+            iBack{ nullptr },
+            iNil{ nullptr }
         {
-            // other gets our nil node so it remains usable
             std::swap(iRoot, other.iRoot);
             std::swap(iFront, other.iFront);
             std::swap(iBack, other.iBack);
@@ -247,8 +228,11 @@ namespace neolib
         }
         ~array_tree()
         {
-            std::allocator_traits<node_allocator_type>::destroy(iAllocator, iNil);
-            std::allocator_traits<node_allocator_type>::deallocate(iAllocator, iNil, 1);
+            if (iNil != nullptr)
+            {
+                std::allocator_traits<node_allocator_type>::destroy(iAllocator, iNil);
+                std::allocator_traits<node_allocator_type>::deallocate(iAllocator, iNil, 1);
+            }
         }
 
     public:
@@ -256,6 +240,24 @@ namespace neolib
         {
             return iNil;
         }
+        // the nil node is created before the first node is inserted so that creating and moving an empty tree cannot fail
+        void create_nil_node()
+        {
+            if (iNil != nullptr)
+                return;
+            node* const nil = std::allocator_traits<node_allocator_type>::allocate(iAllocator, 1);
+            try
+            {
+                std::allocator_traits<node_allocator_type>::construct(iAllocator, nil, node(node::NIL));
+            }
+            catch (...)
+            {
+                std::allocator_traits<node_allocator_type>::deallocate(iAllocator, nil, 1);
+                throw;
+            }
+            iNil = nil;
+            set_root_node(iNil);
+        }
         node* root_node() const
         {
             return iRoot;
@@ -318,6 +320,7 @@ namespace neolib
         }
         void insert_node(node* aNode, size_type aPosition)
         {
+            create_nil_node();
             node* z = aNode;
             node* y = nil_node();
             node* x = root_node();
@@ -397,7 +400,7 @@ namespace neolib
             if (performDeleteFixup)
                 delete_fixup(x);
         }
-        void swap(array_tree& aOther)
+        void swap(array_tree& aOther) noexcept
         {
             std::swap(iAllocator, aOther.iAllocator);
             std::swap(iRoot, aOther.iRoot);
diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index b7eb4f7..7b36a72 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -116,7 +116,7 @@ namespace neolib
                 iContainer(&aContainer), iNode(nullptr), iContainerPosition(aContainerPosition), iSegmentPosition(0)
             {
                 iNode = iContainer->find_node(aContainerPosition, iSegmentPosition);
-                if (iNode->is_nil())
+                if (iNode == nullptr || iNode->is_nil())
                     *this = iContainer->end();
             }
             iterator(segmented_array& aContainer, node* aNode, size_type aContainerPosition, size_type aSegmentPosition) :
@@ -259,7 +259,7 @@ namespace neolib
                 iContainer(&aContainer), iNode(nullptr), iContainerPosition(aContainerPosition), iSegmentPosition(0)
             {
                 iNode = iContainer->find_node(aContainerPosition, iSegmentPosition);
-                if (iNode->is_nil())
+                if (iNode == nullptr || iNode->is_nil())
                     *this = iContainer->end();
             }
             const_iterator(const segmented_array& aContainer, node* aNode, size_type aContainerPosition, size_type aSegmentPosition) :
@@ -380,7 +380,7 @@ namespace neolib
         {
             insert(begin(), aOther.begin(), aOther.end());
         }
-        segmented_array(segmented_array&& aOther) :
+        segmented_array(segmented_array&& aOther) noexcept :
             base_type{ std::move(aOther) },
             iAllocator{ std::move(aOther.iAllocator) }, iSize{ aOther.iSize }
         {
@@ -390,7 +390,7 @@ namespace neolib
         {
             erase(begin(), end());
         }
-        segmented_array& operator=(segmented_array&& aOther)
+        segmented_array& operator=(segmented_array&& aOther) noexcept
         {
             swap(aOther);
             return *this;
@@ -628,7 +628,7 @@ namespace neolib
         {
             erase(--end());
         }
-        void swap(segmented_array& aOther)
+        void swap(segmented_array& aOther) noexcept
         {
             base_type::swap(aOther);
             std::swap(iAllocator, aOther.iAllocator);
@@ -740,6 +740,7 @@ namespace neolib
                 aCount -= std::min(aCount, (available(aPosition.iNode->segment())));
             if (aCount == 0)
                 return aPosition.iNode;
+            base_type::create_nil_node();
             node* const before = aPosition.iNode;
             node* lastNode = nullptr;
             if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && aCount <= 
diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..5ece026 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -135,7 +135,7 @@ namespace neolib
                 iContainer(&aContainer), iNode(0), iContainerPosition(aContainerPosition), iSegmentPosition(0)
             {
                 iNode = iContainer->find_node(aContainerPosition, iSegmentPosition);
-                if (iNode->is_nil())
+                if (iNode == nullptr || iNode->is_nil())
                     *this = iContainer->end();
             }
             iterator(tag_array& aContainer, node* aNode, size_type aContainerPosition, size_type aSegmentPosition) :
@@ -262,7 +262,7 @@ namespace neolib
                 iContainer(&aContainer), iNode(nullptr), iContainerPosition(aContainerPosition), iSegmentPosition(0)
             {
                 iNode = iContainer->find_node(aContainerPosition, iSegmentPosition);
-                if (iNode->is_nil())
+                if (iNode == nullptr || iNode->is_nil())
                     *this = iContainer->end();
             }
             const_iterator(const tag_array& aContainer, node* aNode, size_type aContainerPosition, size_type aSegmentPosition) :
-- 
2.43.0


From 2351e346634c854452ab8f4c353392d88e3149b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:45 +0000
Subject: [PATCH 69/77] fix: segmented_tree kept wrong descendent counts, erase
 and postfix iterator operators gave wrong iterators, and failed moves lost
 nodes

---
 include/neolib/core/segmented_tree.hpp | 56 ++++++++++++++++----------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..54c5281 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -82,7 +82,7 @@ namespace neolib
             {
                 update_parents(*this);
             }
-            node(node&& other) :
+            node(node&& other) noexcept :
                 iParent{},
                 iSkipChildren{ false },
                 iDescendentCount{ 0 },
@@ -120,7 +120,7 @@ namespace neolib
                 update_parents(*this);
                 return *this;
             }
-            node& operator=(node&& other)
+            node& operator=(node&& other) noexcept
             {
                 std::swap(iParent, other.iParent);
                 std::swap(iChildren, other.iChildren);
@@ -204,17 +204,24 @@ namespace neolib
             {
                 return iDescendentCount;
             }
-            void increment_descendent_count()
+            // number of descendents our parent skips because of us or our descendents
+            std::size_t skipped_for_parent() const
             {
-                ++iDescendentCount;
+                return iSkipChildren ? iDescendentCount : iSkippedDescendentCount;
+            }
+            void add_descendents(std::size_t aCount, std::size_t aSkippedCount)
+            {
+                iDescendentCount += aCount;
+                iSkippedDescendentCount += aSkippedCount;
                 if (!is_root())
-                    parent().increment_descendent_count();
+                    parent().add_descendents(aCount, iSkipChildren ? aCount : aSkippedCount);
             }
-            void decrement_descendent_count()
+            void remove_descendents(std::size_t aCount, std::size_t aSkippedCount)
             {
-                --iDescendentCount;
+                iDescendentCount -= aCount;
+                iSkippedDescendentCount -= aSkippedCount;
                 if (!is_root())
-                    parent().decrement_descendent_count();
+                    parent().remove_descendents(aCount, iSkipChildren ? aCount : aSkippedCount);
             }
             std::size_t skipped_descendent_count() const
             {
@@ -223,13 +230,13 @@ namespace neolib
             void increment_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount += aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren) // if our children are skipped then our parent already skips them all
                     parent().increment_skipped_descendent_count(aCount);
             }
             void decrement_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount -= aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren)
                     parent().decrement_skipped_descendent_count(aCount);
             }
             void update_parents(node& parent)
@@ -304,10 +311,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -327,10 +334,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -470,10 +477,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -493,10 +500,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -766,7 +773,7 @@ namespace neolib
             auto& parent = const_cast<node&>(position.parent_node());
             auto& children = const_cast<node_child_list&>(parent.children());
             auto result = sibling_iterator{ parent, children.emplace_insert(position.base(), parent, value) };
-            parent.increment_descendent_count();
+            parent.add_descendents(1, 0);
             return result;
         }
         void push_back(const value_type& value)
@@ -789,8 +796,13 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            auto const removedCount = mutablePos.our_node().descendent_count() + 1;
+            auto const removedSkippedCount = mutablePos.our_node().skipped_for_parent();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.remove_descendents(removedCount, removedSkippedCount);
+            // the element following the erased one may be further up the tree
+            while (result.base() == result.parent_node().children().end() && !result.parent_node().is_root())
+                result = iterator{ result.parent_node().parent(), std::next(result.parent_node().parent().children().iter(result.parent_node())) };
             return result;
         }
         void sort()
@@ -851,12 +863,12 @@ namespace neolib
         void push_back(node& parent, const value_type& value)
         {
             parent.children().emplace_back(parent, value);
-            parent.increment_descendent_count();
+            parent.add_descendents(1, 0);
         }
         void push_front(node& parent, const value_type& value)
         {
             parent.children().emplace_front(parent, value);
-            parent.increment_descendent_count();
+            parent.add_descendents(1, 0);
         }
     private:
         template <typename Predicate>
-- 
2.43.0


From 957e2dff795de73ce99a852182c46ca672ece864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:31 +0000
Subject: [PATCH 70/77] fix: assigning an empty variant through its interface
 changed nothing, assigning itself used a destroyed value

---
 include/neolib/core/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..a002d5c 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -277,14 +277,20 @@ namespace neolib
             static void assign(variant& aVariant, std::size_t aIndex, void const* aPtr) 
             {
                 if (aIndex == 1)
-                    aVariant.template emplace<T>(*static_cast<maybe_abstract_t<T> const*>(aPtr));
+                {
+                    T value{ *static_cast<maybe_abstract_t<T> const*>(aPtr) }; // may be (part of) our own value
+                    aVariant.template emplace<T>(std::move(value));
+                }
                 else
                     RuntimeTypeDispatchToEmplace<Ts...>::assign(aVariant, aIndex - 1, aPtr);
             }
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::template emplace<std::monostate>();
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From be766ac51214ccdc184acc34ce71884108deba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:44 +0000
Subject: [PATCH 71/77] fix: plugin manager offered plugins whose module was
 closed, closed modules before destroying their plugin, skipped plugins while
 scanning and looped on one refusing to unload

---
 include/neolib/plugin/plugin_manager.hpp |   3 +-
 src/plugin/plugin_manager.cpp            | 132 ++++++++++++++++-------
 2 files changed, 96 insertions(+), 39 deletions(-)

diff --git a/include/neolib/plugin/plugin_manager.hpp b/include/neolib/plugin/plugin_manager.hpp
index 5fece43..2768f90 100644
--- a/include/neolib/plugin/plugin_manager.hpp
+++ b/include/neolib/plugin/plugin_manager.hpp
@@ -93,7 +93,8 @@ namespace neolib
         // implementation
     private:
         // own
-        i_ref_ptr<i_plugin>& create_plugin(const i_string& aPluginPath);
+        i_plugin* create_plugin(const i_string& aPluginPath);
+        void remove_plugin(i_plugin const* aPlugin);
         // attributes
     private:
         i_application& iApplication;
diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 9616214..e114690 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -104,18 +104,47 @@ namespace neolib
                     load_plugin(string(i->path().generic_string()), true);
         }
         bool gotSome = false;
-        for (plugins_t::const_iterator i = iPlugins.begin(); i != iPlugins.end(); ++i)
-            if (!(*i)->initialized())
-                gotSome = initialize_plugin(**i) || gotSome;
+        for (std::size_t i = 0; i < iPlugins.size();)
+        {
+            auto const plugin = iPlugins[i].ptr();
+            if (!plugin->initialized())
+            {
+                try
+                {
+                    gotSome = initialize_plugin(*plugin) || gotSome;
+                }
+                catch (std::exception const& e)
+                {
+                    PluginLoadFailure.trigger(string{ "Failed to initialize plugin, reason: " } + string{ e.what() });
+                }
+                catch (...)
+                {
+                    PluginLoadFailure.trigger(string{ "Failed to initialize plugin" });
+                }
+            }
+            if (i < iPlugins.size() && iPlugins[i].ptr() == plugin) // a plugin that fails to initialize is unloaded
+                ++i;
+        }
         return gotSome;
     }
 
     bool plugin_manager::load_plugin(const i_string& aPluginPath, bool aDeferInitialization)
     {
         bool loaded = false;
+        i_plugin* newPlugin = nullptr;
+        auto discardPlugin = [&]()
+        {
+            auto const existing = std::find_if(iPlugins.as_std_vector().begin(), iPlugins.as_std_vector().end(), [&](auto const& p) { return newPlugin == p.ptr(); });
+            if (existing == iPlugins.as_std_vector().end())
+                return;
+            if (newPlugin->loaded())
+                unload_plugin(*newPlugin);
+            else
+                remove_plugin(newPlugin);
+        };
         try
         {
-            auto const& newPlugin = create_plugin(aPluginPath);
+            newPlugin = create_plugin(aPluginPath);
             if (newPlugin != nullptr)
                 loaded = newPlugin->load();
             if (loaded)
@@ -128,16 +157,21 @@ namespace neolib
                 }
             }
             else
+            {
+                discardPlugin();
                 PluginLoadFailure.trigger(string{ "Failed to load plugin '" } + aPluginPath + "'");
+            }
         }
         catch (std::exception const& e)
         {
             loaded = false;
+            discardPlugin();
             PluginLoadFailure.trigger(string{ "Failed to load plugin '" } + aPluginPath + "', reason: " + e.what());
         }
         catch (...)
         {
             loaded = false;
+            discardPlugin();
             PluginLoadFailure.trigger(string{ "Failed to load plugin '" } + aPluginPath + "'");
         }
         return loaded;
@@ -145,7 +179,16 @@ namespace neolib
 
     bool plugin_manager::initialize_plugin(i_plugin& aPlugin)
     {
-        bool ok = aPlugin.initialize();
+        bool ok = false;
+        try
+        {
+            ok = aPlugin.initialize();
+        }
+        catch (...)
+        {
+            unload_plugin(aPlugin);
+            throw;
+        }
         if (ok)
             PluginInitialized.trigger(aPlugin);
         else
@@ -166,40 +209,47 @@ namespace neolib
     bool plugin_manager::unload_plugins()
     {
         bool gotSome = false;
-        {
-            while (!iPlugins.empty())
-                gotSome = unload_plugin(*iPlugins.back()) || gotSome;
-        }
+        for (auto i = iPlugins.size(); i > 0; i = std::min(i - 1, iPlugins.size())) // a plugin may refuse
+            gotSome = unload_plugin(*iPlugins[i - 1]) || gotSome;
         return gotSome;
     }
 
     bool plugin_manager::unload_plugin(i_plugin& aPlugin)
     {
-        auto const id = aPlugin.id();
         bool unloaded = aPlugin.unload();
         if (unloaded)
         {
-            std::unique_ptr<module> moduleToUnload;
-            auto existingModule = iModules.find(id);
-            if (existingModule != iModules.end())
+            try
             {
-                moduleToUnload = std::move(existingModule->second);
-                iModules.erase(existingModule);
+                PluginUnloaded.trigger(aPlugin);
             }
-            if (moduleToUnload && iDebugDontUnloadModules)
-                (*moduleToUnload).release();
-            PluginUnloaded.trigger(aPlugin);
-            auto existingPlugin = std::find_if(iPlugins.begin(), iPlugins.end(), [&](auto const& p) { return &aPlugin == p.ptr(); });
-            if (existingPlugin != iPlugins.end())
-                iPlugins.erase(existingPlugin);
-            else
-                moduleToUnload.release();
-            if (moduleToUnload)
-                moduleToUnload->unload();
+            catch (...)
+            {
+                remove_plugin(&aPlugin);
+                throw;
+            }
+            remove_plugin(&aPlugin);
         }
         return unloaded;
     }
 
+    void plugin_manager::remove_plugin(i_plugin const* aPlugin)
+    {
+        auto existingPlugin = std::find_if(iPlugins.as_std_vector().begin(), iPlugins.as_std_vector().end(), [&](auto const& p) { return aPlugin == p.ptr(); });
+        if (existingPlugin == iPlugins.as_std_vector().end())
+            return;
+        std::unique_ptr<module> moduleToUnload; // must outlive the plugin, whose code it is
+        auto existingModule = iModules.find(aPlugin->id());
+        if (existingModule != iModules.end())
+        {
+            moduleToUnload = std::move(existingModule->second);
+            iModules.erase(existingModule);
+        }
+        if (moduleToUnload && iDebugDontUnloadModules)
+            (*moduleToUnload).release();
+        iPlugins.as_std_vector().erase(existingPlugin);
+    }
+
     const plugin_manager::plugins_t& plugin_manager::plugins() const
     {
         return iPlugins;
@@ -233,28 +283,34 @@ namespace neolib
         iDebugDontUnloadModules = true;
     }
 
-    i_ref_ptr<i_plugin>& plugin_manager::create_plugin(const i_string& aPluginPath)
+    i_plugin* plugin_manager::create_plugin(const i_string& aPluginPath)
     {
         try
         {
             auto pm = std::make_unique<module>(aPluginPath.to_std_string());
-            thread_local ref_ptr<i_plugin> tNewPlugin;
-            tNewPlugin = nullptr;
+            ref_ptr<i_plugin> newPlugin; // must not outlive the module, which has its code
             if (!pm->load())
-                return tNewPlugin;
+                return nullptr;
             entry_point entryPoint = pm->procedure<entry_point>("entry_point");
             if (entryPoint == nullptr)
-                return tNewPlugin;
-            entryPoint(iApplication, string(std::filesystem::path(aPluginPath.to_std_string()).parent_path().generic_string()), tNewPlugin);
-            if (tNewPlugin == nullptr)
-                return tNewPlugin;
-            iPlugins.push_back(tNewPlugin);
-            auto& newPlugin = iPlugins.back();
-            tNewPlugin = nullptr;
+                return nullptr;
+            entryPoint(iApplication, string(std::filesystem::path(aPluginPath.to_std_string()).parent_path().generic_string()), newPlugin);
+            if (newPlugin == nullptr)
+                return nullptr;
             if (iModules.find(newPlugin->id()) != iModules.end())
                 throw duplicate_plugin{};
-            iModules[newPlugin->id()] = std::move(pm);
-            return newPlugin;
+            auto& moduleEntry = iModules[newPlugin->id()];
+            try
+            {
+                iPlugins.push_back(newPlugin);
+            }
+            catch (...)
+            {
+                iModules.erase(newPlugin->id());
+                throw;
+            }
+            moduleEntry = std::move(pm);
+            return newPlugin.ptr();
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From ed4743767b09500dc6ba5405f1b9f1011a508446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:23 +0000
Subject: [PATCH 72/77] fix: a module whose assignment failed had another
 module open than its path says

---
 src/app/module.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/app/module.cpp b/src/app/module.cpp
index 7e53541..e79b7d1 100644
--- a/src/app/module.cpp
+++ b/src/app/module.cpp
@@ -75,9 +75,7 @@ namespace neolib
 
     module& module::operator=(const module& aOther)
     {
-        iPath = aOther.iPath;
-        iOsModule = aOther.loaded() ? std::make_unique<os_module>(iPath) : nullptr;
-        return *this;
+        return *this = module{ aOther };
     }
 
     module& module::operator=(module&& aOther)
-- 
2.43.0


From 9844f53fd6eb35cd5c97f54076af0609345a9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:54 +0000
Subject: [PATCH 73/77] fix: a thread that got the id of one that had ended was
 taken for it

---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 60b505c..f88b960 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -342,7 +342,7 @@ namespace neolib
     {
         if (!started() && !using_existing_thread())
             throw thread_not_started();
-        return std::this_thread::get_id() == iId;
+        return std::this_thread::get_id() == iId && (iUsingExistingThread || !iExited); // once it has ended its id may be given to another thread
     }
 
     bool thread::blocked() const noexcept
-- 
2.43.0


From 0cd3366d039b56bc6162e40afe62fc05d4c2e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:23 +0000
Subject: [PATCH 74/77] fix: text in an RJSON string that looks like a comment
 was dropped

---
 include/neolib/file/json.inl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index d763084..4666e43 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -621,6 +621,10 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::String:
+                case state::Name:
+                case state::Escaping:
+                    break; // quoted text
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
@@ -1295,8 +1299,8 @@ namespace neolib
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
-                            if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start)
-                                nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
+                            if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start && currentState != json_detail::state::StringEnd)
+                                nextOutputCh = nextInputCh;
                             tempState = nextState;
                             increment_cursor();
                         }
@@ -1388,7 +1392,7 @@ namespace neolib
                         break;
                     case element::String:
                         {
-                            json_string newString{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh - 1 : nextOutputCh };
+                            json_string newString{ currentElement.start, nextOutputCh };
                             buy_value(currentElement, newString);
                         }
                         break;
@@ -1563,6 +1567,8 @@ namespace neolib
                         if (*nextInputCh != *(currentElement.start - 1))
                             nextState = json_detail::state::String;
                     }
+                    if (nextState == json_detail::state::StringEnd && nextOutputCh == currentElement.start)
+                        nextOutputCh = nextInputCh;
                     break;
                 case json_detail::state::Escaped:
                     if (nextOutputCh == currentElement.start)
-- 
2.43.0


From 7061f92449aed8cfbb5a568699298ebbe068bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:33 +0000
Subject: [PATCH 75/77] fix: other quote characters in an RJSON string were
 lost or ended a name

---
 include/neolib/file/json.inl | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 4666e43..e7a7d4d 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1522,6 +1522,16 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed)
+                    {
+                        if (currentState == json_detail::state::Name && *nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (nextOutputCh != currentElement.start)
+                                *nextOutputCh++ = *nextInputCh;
+                            nextState = json_detail::state::Name;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1565,7 +1575,11 @@ namespace neolib
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (nextOutputCh != currentElement.start)
+                                *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                        }
                     }
                     if (nextState == json_detail::state::StringEnd && nextOutputCh == currentElement.start)
                         nextOutputCh = nextInputCh;
-- 
2.43.0


From bb8ef531c0fad56da11d45ce1634f0e37a1b5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:01 +0000
Subject: [PATCH 76/77] fix: writing a control character in JSON turned the
 numbers after it into hex

---
 include/neolib/file/json.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index e7a7d4d..ef50744 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1821,7 +1821,13 @@ namespace neolib
                         if (static_cast<std::uint32_t>(ch) >= 32u)
                             aOutput << ch;
                         else
+                        {
+                            auto const previousFlags = aOutput.flags();
+                            auto const previousFill = aOutput.fill();
                             aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
+                            aOutput.fill(previousFill);
+                            aOutput.flags(previousFlags);
+                        }
                     }
                 aOutput << '\"';
                 break;
-- 
2.43.0


From 12789f273bb76a86075f3dcc0fc100c80a770602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:01 +0000
Subject: [PATCH 77/77] fix: names in JSON were written without escapes

---
 include/neolib/file/json.inl | 85 +++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index ef50744..632d711 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1743,6 +1743,47 @@ namespace neolib
             for (int32_t l = 0; l < level; ++l)
                 aOutput << aIndent;
         };
+        auto write_quoted = [&aOutput](auto const& aText)
+        {
+            aOutput << '\"';
+            for (auto const& ch : aText)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                    {
+                        auto const previousFlags = aOutput.flags();
+                        auto const previousFill = aOutput.fill();
+                        aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
+                        aOutput.fill(previousFill);
+                        aOutput.flags(previousFlags);
+                    }
+                }
+            aOutput << '\"';
+        };
         for (auto i = cbegin(); i != end; ++i)
         {
             auto const& v = **i;
@@ -1750,7 +1791,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    write_quoted(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1792,44 +1836,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                        {
-                            auto const previousFlags = aOutput.flags();
-                            auto const previousFill = aOutput.fill();
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                            aOutput.fill(previousFill);
-                            aOutput.flags(previousFlags);
-                        }
-                    }
-                aOutput << '\"';
+                write_quoted(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0

