From 9d1eef33fc913ca41839f3cd669eec70e88a76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 01/16] fix: task keeps its own copy of a callable given by
 const reference

---
 sdk/include/teiacare/sdk/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/task.hpp b/sdk/include/teiacare/sdk/task.hpp
index ec67bc8..54afb36 100644
--- a/sdk/include/teiacare/sdk/task.hpp
+++ b/sdk/include/teiacare/sdk/task.hpp
@@ -41,7 +41,7 @@ public:
      */
     template <typename CallableType>
     explicit task(CallableType&& callable)
-        : _callable(std::make_unique<task_impl<CallableType>>(std::move(callable)))
+        : _callable(std::make_unique<task_impl<std::decay_t<CallableType>>>(std::forward<CallableType>(callable)))
     {
     }
 
-- 
2.43.0


From 35e822a820026ade030f5a1fed18dff86dabba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 02/16] fix: thread pool starts a thread when the hardware
 concurrency is unknown

---
 sdk/src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..b2d9f0c 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -36,7 +36,7 @@ bool thread_pool::start(const unsigned int num_threads)
 
     _is_running = true;
 
-    const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
+    const auto thread_count = std::clamp(num_threads, 1u, std::max(1u, std::thread::hardware_concurrency()));
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-- 
2.43.0


From 72c4ecbfda13a53736e2e4b2098b4492fb054562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 03/16] fix: event dispatcher numbers its handlers per instance

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 5 +++--
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..524533f 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -113,7 +113,8 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
+        const auto handler_id = ++_last_handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(handler_id, std::move(event_handler)));
         return handler_id;
     }
 
@@ -180,7 +181,7 @@ private:
     std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _last_handler_id = 0;
 
     template <typename... Args>
     constexpr auto get_event_handler_id(std::string&& event_name) const
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..9b9fc28 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From a7a8a506fe110fb3769c74c01767efda00e8fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 04/16] fix: event dispatcher keys events by exact name and
 argument types

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 21 ++++++++-----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 524533f..1736fd2 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,12 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -178,23 +180,18 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // an event is identified by its name and by the (decayed) types of its arguments, in order
+    using event_handler_id_t = std::pair<std::string, std::vector<std::type_index>>;
+
+    std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     unsigned long _last_handler_id = 0;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), {std::type_index(typeid(std::decay_t<Args>))...}};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 9b9fc28..2092717 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -47,7 +47,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 5af1c57bb3deb5b2823c8312a51b216c714fc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:56 +0000
Subject: [PATCH 05/16] fix: high precision timer advances at least one tick
 per callback

---
 sdk/src/high_precision_timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..f894c54 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -100,11 +100,11 @@ void high_precision_timer::update_next_start_time()
 {
     auto task_next_start_time = _next_task_timepoint;
     const auto now = clock::now();
-    while (now > task_next_start_time)
+    do
     {
         task_next_start_time += _interval;
         ++_missed_callback_count;
-    }
+    } while (now > task_next_start_time);
     // Adjust _missed_callback_count removing the last execution from the counter.
     --_missed_callback_count;
     _next_task_timepoint = task_next_start_time;
-- 
2.43.0


From 131059dd65274ae346bc1941b465adb22f614fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 06/16] fix: timedelta reports division by zero with the
 documented std::domain_error

---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From ae378e9ad02321e8739b7207ae61bfad05c42554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 07/16] fix: task scheduler stops promptly and refuses tasks
 once stopped

---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  1 +
 sdk/src/task_scheduler.cpp                  | 36 +++++++++++++--------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..260e7ca 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -431,6 +431,7 @@ private:
     std::mutex _update_tasks_mtx;
     std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
+    bool _is_running{false}; // guarded by _update_tasks_mtx
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..15ca575 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -32,19 +32,24 @@ bool task_scheduler::start(const unsigned int num_threads)
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
-        {
-            std::unique_lock lock(_update_tasks_mtx);
+        std::unique_lock lock(_update_tasks_mtx);
 
+        while (_is_running)
+        {
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +62,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -71,20 +76,23 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    // The flag above is changed while holding the mutex, so that the scheduler thread cannot miss this notification.
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-    return true;
+    // Nothing can be enqueued in the thread pool anymore.
+    return _tp.stop();
 }
 
 size_t task_scheduler::tasks_size()
@@ -169,12 +177,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_running)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From e2c21a127b57a4badef8cd4c408053fc9237a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 08/16] fix: task scheduler does not run a re-timed task twice
 for the same instant

---
 sdk/src/task_scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 15ca575..f6fec96 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -160,8 +160,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
         auto task_next_start_time = task_iterator->first - task_interval;
 
         const auto now = tc::sdk::clock::now();
-        while (now > task_next_start_time)
+        do
+        {
             task_next_start_time += interval;
+        } while (now > task_next_start_time);
 
         task_iterator->second.set_interval(interval);
         _tasks.emplace(std::move(task_next_start_time), std::move(task_iterator->second));
-- 
2.43.0


From c4aeea2e76672772e9c094fd636aaffab6c144c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 09/16] fix: task scheduler identifies tasks by their
 identifier, not by its hash

---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 27 ++++++++++-----------
 sdk/src/task_scheduler.cpp                  | 23 ++++--------------
 2 files changed, 18 insertions(+), 32 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 260e7ca..3912cfb 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -54,10 +54,10 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash)
+        explicit schedulable_task(FunctionType&& f, const std::string& id)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
-            , _hash{hash}
+            , _id{id}
         {
         }
 
@@ -70,11 +70,11 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash, tc::sdk::clock::duration interval)
+        explicit schedulable_task(FunctionType&& f, const std::string& id, tc::sdk::clock::duration interval)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
             , _interval{interval}
-            , _hash{hash}
+            , _id{id}
         {
         }
 
@@ -86,7 +86,7 @@ private:
             : _task{std::move(other._task)}
             , _is_enabled{std::move(other._is_enabled)}
             , _interval{std::move(other._interval)}
-            , _hash{std::move(other._hash)}
+            , _id{std::move(other._id)}
         {
         }
 
@@ -118,22 +118,22 @@ private:
             return _interval;
         }
 
-        std::optional<size_t> hash() const
+        const std::optional<std::string>& id() const
         {
-            return _hash;
+            return _id;
         }
 
     private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
         std::optional<tc::sdk::clock::duration> _interval;
-        std::optional<size_t> _hash;
+        std::optional<std::string> _id;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
             , _interval{st->_interval}
-            , _hash{st->_hash}
+            , _id{st->_id}
         {
         }
     };
@@ -312,7 +312,7 @@ public:
         auto task_wrapper = std::packaged_task<ReturnType()>(task);
         std::future<ReturnType> future = task_wrapper.get_future();
 
-        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), _hasher(task_id))))
+        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), task_id)))
             return std::nullopt;
 
         return future;
@@ -405,7 +405,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), task_id, interval));
     }
 
     /*!
@@ -420,7 +420,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
@@ -429,14 +429,13 @@ private:
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
-    std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
     bool _is_running{false}; // guarded by _update_tasks_mtx
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
     auto get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator;
-    bool already_exists(const std::optional<size_t>& opt_hash);
+    bool already_exists(const std::optional<std::string>& opt_id);
 };
 
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index f6fec96..ca1ea06 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -185,7 +185,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
         if (!_is_running)
             return false;
 
-        if (already_exists(st.hash()))
+        if (already_exists(st.id()))
             return false;
 
         _tasks.emplace(std::move(timepoint), std::move(st));
@@ -236,27 +236,14 @@ void task_scheduler::update_tasks()
 
 auto task_scheduler::get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator
 {
-    return std::find_if(_tasks.begin(), _tasks.end(), [hash = _hasher(task_id)](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::find_if(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        return it.second.id().has_value() && it.second.id().value() == task_id;
     });
 }
 
-bool task_scheduler::already_exists(const std::optional<size_t>& opt_hash)
+bool task_scheduler::already_exists(const std::optional<std::string>& opt_id)
 {
-    if (!opt_hash.has_value())
-        return false;
-
-    return std::any_of(_tasks.begin(), _tasks.end(), [hash = opt_hash.value()](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
-    });
+    return opt_id.has_value() && get_task_iterator(opt_id.value()) != _tasks.end();
 }
 
 }
-- 
2.43.0


From 72ed28eed4a22aba64a08854438d14bb9205573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 10/16] fix: service locator keeps the address of the
 registered interface

---
 sdk/include/teiacare/sdk/service_locator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..f94a960 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,9 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        // Store the address of the interface subobject: it may differ from the one of the service object, and get() casts it back to the interface.
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From dff70b5084a708096bd5b4cff2a848fb5d104688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 11/16] fix: rectangle containment is strict on every side and
 translated() can be instantiated

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..5886111 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -254,8 +254,8 @@ public:
     {
         return _position.x() < other._position.x() &&
                _position.y() < other._position.y() &&
-               _position.x() + _width >= other._position.x() + other._width &&
-               _position.y() + _height >= other._position.y() + other._height;
+               _position.x() + _width > other._position.x() + other._width &&
+               _position.y() + _height > other._position.y() + other._height;
     }
 
     /*!
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From 99087fdcbf7933126a9cdb7868a8f3ff9efb9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:43 +0000
Subject: [PATCH 12/16] fix: a malformed environment value is reported as a
 parse error instead of terminating the process

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From 54f96567a945c4f5fca411405c20ebb030079af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:43 +0000
Subject: [PATCH 13/16] fix: an empty argument name no longer selects an
 argument without a short name

---
 sdk/src/argparse/argument_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..578b4c6 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -244,6 +244,12 @@ void argument_parser::print_arguments() const
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
+    // An argument without a short name has an empty one: an empty name must not match it.
+    if (name.empty())
+    {
+        return nullptr;
+    }
+
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
         return name == arg->get_name_short() || name == arg->get_name_long();
     });
-- 
2.43.0


From 721513a40d431534a6c0d1258826e90e6871cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:43 +0000
Subject: [PATCH 14/16] fix: the generic argument conversion accepts a single
 character

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..59f1920 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,7 +270,7 @@ protected:
         T value;
         std::istringstream iss(str);
 
-        if (!(iss >> value) || !(iss.eof()))
+        if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
-- 
2.43.0


From 95b0935143f52110fca4a6d96ba19bba2cc8949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:31 +0000
Subject: [PATCH 15/16] fix: read dates outside the range of the nanosecond
 clock

---
 sdk/src/datetime/date.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..b82ccd6 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -36,8 +36,7 @@ tc::sdk::date date::from_string(const std::string& str, const std::string& forma
     if (ss.fail())
         throw std::runtime_error("Failed to parse " + str);
 
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
+    return tc::sdk::date(std::chrono::year_month_day(parsed_date));
 }
 
 tc::sdk::date date::today() noexcept
-- 
2.43.0


From 93c65dcbe62f4cc87e29fa38dd56b1f082bfad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:31 +0000
Subject: [PATCH 16/16] fix: print datetimes before 1970 with the second that
 contains them

---
 sdk/src/datetime/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index ccaf9e0..556de93 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -26,7 +26,7 @@ std::ostream& operator<<(std::ostream& stream, const datetime& dt)
 template <class DurationT>
 std::string datetime::to_string(const std::string& format) const noexcept(false)
 {
-    return ::date::format(format, std::chrono::time_point_cast<DurationT>(_tp));
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
 }
 
 template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-- 
2.43.0

