From 465547edf31b1ba6e0f07498859f0b78e286690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 01/79] fix: thread_pool destructor deadlocks with its own
 workers

The destructor joined the workers while holding the task mutex that each
worker locks before it can see that _running is false.
---
 threads/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..1809816 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,8 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
+    // workers need the task mutex to notice that they have to stop,
+    // so it can not be held while waiting for them
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From fc29c020904830f78ef60c9339a7145feef71eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 02/79] fix: tasks that are never run stay active forever

Tasks still queued when their thread_pool is destroyed, and tasks destroyed
without being run, were never removed from the number of active tasks, so
that thread_task::wait() did not return.
---
 threads/thread_pool.cc |  6 ++++++
 threads/thread_task.cc |  2 +-
 threads/thread_task.h  | 15 ++++++++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 1809816..9161b92 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -65,6 +65,12 @@ thread_pool::~thread_pool() {
     for (auto& thread : _thread_list) {
         thread.join();
     }
+
+    // tasks that no worker picked up are not going to be run
+    while (!_task_queue.empty()) {
+        _task_queue.front()->retire();
+        _task_queue.pop();
+    }
 }
 
 /**
diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..4bb0b73 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -44,5 +44,5 @@ void thread_task::start() {
         cerr << "Uncaught exception in thread_task" << endl;
     }
     // After run is completed decrement number of active tasks counter.
-    --_num_active;
+    retire();
 }
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..8c95cf0 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -61,7 +61,7 @@ class USML_DECLSPEC thread_task {
     /**
      * Virtual destructor.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() { retire(); }
 
     /**
      * Automatically assigned identification number for this task.
@@ -134,6 +134,19 @@ class USML_DECLSPEC thread_task {
      */
     void start();
 
+    /**
+     * Removes this task from the number of active tasks. Invoked when the task
+     * finishes, when the thread_pool discards it without running it, and when
+     * it is destroyed without ever being run. Has no effect after the first
+     * invocation.
+     */
+    void retire() {
+        if (_active.exchange(false)) --_num_active;
+    }
+
+    /// True while this task is included in the number of active tasks.
+    std::atomic<bool> _active{true};
+
     /// Next identification number to be assigned to a task.
     static std::atomic<std::size_t> _id_next;
 
-- 
2.43.0


From 889d9e4777978839f6a2fa6d866dadbae07dc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 03/79] fix: thread_task id, abort, and done are not thread
 safe

Tasks created at the same time by two threads could get the same id.
The abort and done flags are written by one thread while another polls them.
---
 threads/thread_task.cc | 8 +-------
 threads/thread_task.h  | 4 ++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 4bb0b73..aca7961 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -7,7 +7,6 @@
 #include <usml/threads/thread_task.h>
 
 #include <iostream>
-#include <limits>
 
 using namespace usml::threads;
 using namespace std;
@@ -23,12 +22,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;  // wraps around to zero at the maximum value
     ++_num_active;
 }
 
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 8c95cf0..cbdd0f4 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -121,10 +121,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
-- 
2.43.0


From 5f01798c3f6e25e6d06ef03fb62128dddffe36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 04/79] fix: thread_controller singleton is not thread safe

instance() read a unique_ptr without holding the lock that protects it, and
reset() held that lock while waiting for the tasks of the previous pool.
---
 threads/thread_controller.cc | 14 ++++++++++----
 threads/thread_controller.h  |  4 ++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/threads/thread_controller.cc b/threads/thread_controller.cc
index 41067cf..1cc8396 100644
--- a/threads/thread_controller.cc
+++ b/threads/thread_controller.cc
@@ -17,6 +17,9 @@ unsigned thread_controller::_num_threads = std::thread::hardware_concurrency();
 /// Reference to the thread_pool owned by this singleton.
 std::unique_ptr<thread_pool> thread_controller::_instance;
 
+/// Same as _instance, for threads that do not hold the mutex.
+std::atomic<thread_pool*> thread_controller::_current{nullptr};
+
 /// Mutex to lock creation of instance.
 read_write_lock thread_controller::_instance_mutex;
 
@@ -25,13 +28,14 @@ read_write_lock thread_controller::_instance_mutex;
  * Constructs the object on the first time that this method is called.
  */
 thread_pool* thread_controller::instance() {
-    thread_pool* pool = _instance.get();
+    thread_pool* pool = _current;
     if (pool == nullptr) {
         write_lock_guard guard(_instance_mutex);
-        pool = _instance.get();
+        pool = _current;
         if (pool == nullptr) {
             pool = new thread_pool(_num_threads);
             _instance.reset(pool);
+            _current = pool;
         }
     }
     return pool;
@@ -41,8 +45,10 @@ thread_pool* thread_controller::instance() {
  * Reset the thread_controller to empty.
  */
 void thread_controller::reset(unsigned num_threads) {
+    std::unique_ptr<thread_pool> previous;  // destroyed without holding lock
     write_lock_guard guard(_instance_mutex);
     _num_threads = num_threads;
-    auto* pool = new thread_pool(_num_threads);
-    _instance.reset(pool);
+    previous.reset(new thread_pool(_num_threads));
+    _current = previous.get();
+    _instance.swap(previous);
 }
diff --git a/threads/thread_controller.h b/threads/thread_controller.h
index ec8e127..cb4f231 100644
--- a/threads/thread_controller.h
+++ b/threads/thread_controller.h
@@ -7,6 +7,7 @@
 #include <usml/threads/read_write_lock.h>
 #include <usml/usml_config.h>
 
+#include <atomic>
 #include <memory>
 #include <thread>
 
@@ -56,6 +57,9 @@ class USML_DECLSPEC thread_controller {
     /// Reference to the thread_pool owned by this singleton.
     static std::unique_ptr<thread_pool> _instance;
 
+    /// Same as _instance, for threads that do not hold the mutex.
+    static std::atomic<thread_pool*> _current;
+
     /// Mutex to lock creation of instance.
     static read_write_lock _instance_mutex;
 
-- 
2.43.0


From 10f7a7294ed43c69b19b6194fab30ae35c786d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 05/79] fix: update_notifier is not thread safe

Listeners can be added or removed while another thread is notifying them,
and remove_listener() waits for calls in progress so that a listener can be
destroyed safely.
---
 managed/listener_set.h    | 112 ++++++++++++++++++++++++++++++++++++++
 managed/update_notifier.h |  17 +++---
 2 files changed, 120 insertions(+), 9 deletions(-)
 create mode 100644 managed/listener_set.h

diff --git a/managed/listener_set.h b/managed/listener_set.h
new file mode 100644
index 0000000..b027e5f
--- /dev/null
+++ b/managed/listener_set.h
@@ -0,0 +1,112 @@
+/**
+ * @file listener_set.h
+ * Thread-safe set of listeners that can be changed during notification.
+ */
+#pragma once
+
+#include <condition_variable>
+#include <mutex>
+#include <set>
+#include <thread>
+#include <utility>
+
+namespace usml {
+namespace managed {
+
+/// @ingroup managed
+/// @{
+
+/**
+ * Thread-safe set of pointers to listeners. Listeners can be added or removed
+ * by any thread while other threads are notifying them. No locks are held
+ * while a listener is being invoked.
+ *
+ * @param listener_type  Type of listener stored in the set.
+ */
+template <typename listener_type>
+class listener_set {
+   public:
+    /**
+     * Add a listener to this set.
+     */
+    void add(listener_type* listener) {
+        std::lock_guard<std::mutex> guard(_mutex);
+        _listeners.insert(listener);
+    }
+
+    /**
+     * Remove a listener from this set. Waits for calls that other threads
+     * are making to this listener, so that it is safe to destroy the listener
+     * once this function returns. Does not wait when invoked by the listener
+     * itself, from inside of such a call.
+     */
+    void remove(listener_type* listener) {
+        std::unique_lock<std::mutex> guard(_mutex);
+        _listeners.erase(listener);
+        if (_calls.count({listener, std::this_thread::get_id()}) > 0) return;
+        _idle.wait(guard, [&] {
+            for (const auto& call : _calls) {
+                if (call.first == listener) return false;
+            }
+            return true;
+        });
+    }
+
+    /**
+     * Invoke a function on each of the listeners in this set. Skips
+     * listeners that have been removed since the notification started.
+     *
+     * @param function  Function to be called with each listener.
+     */
+    template <typename function_type>
+    void notify(function_type function) const {
+        std::unique_lock<std::mutex> guard(_mutex);
+        const std::set<listener_type*> listeners(_listeners);
+        for (auto* listener : listeners) {
+            if (_listeners.count(listener) > 0) {
+                active_call call(this, listener, &guard);
+                function(listener);
+            }
+        }
+    }
+
+   private:
+    /// Marks listener as active, and unlocks the set, during a single call.
+    class active_call {
+       public:
+        active_call(const listener_set* owner, listener_type* listener,
+                    std::unique_lock<std::mutex>* guard)
+            : _owner(owner), _guard(guard) {
+            _entry = _owner->_calls.emplace(listener,
+                                            std::this_thread::get_id());
+            _guard->unlock();
+        }
+        ~active_call() {
+            _guard->lock();
+            _owner->_calls.erase(_entry);
+            _owner->_idle.notify_all();
+        }
+
+       private:
+        const listener_set* _owner;
+        std::unique_lock<std::mutex>* _guard;
+        typename std::multiset<
+            std::pair<listener_type*, std::thread::id>>::iterator _entry;
+    };
+
+    /// Mutex that protects the members of this set.
+    mutable std::mutex _mutex;
+
+    /// Signaled each time that a call to a listener returns.
+    mutable std::condition_variable _idle;
+
+    /// List of active listeners.
+    std::set<listener_type*> _listeners;
+
+    /// Calls in progress, and the threads that are making them.
+    mutable std::multiset<std::pair<listener_type*, std::thread::id>> _calls;
+};
+
+/// @}
+}  // namespace managed
+}  // namespace usml
diff --git a/managed/update_notifier.h b/managed/update_notifier.h
index 63d48e9..d6599dc 100755
--- a/managed/update_notifier.h
+++ b/managed/update_notifier.h
@@ -4,11 +4,10 @@
  */
 #pragma once
 
+#include <usml/managed/listener_set.h>
 #include <usml/managed/update_listener.h>
 #include <usml/usml_config.h>
 
-#include <set>
-
 namespace usml {
 namespace managed {
 
@@ -32,13 +31,14 @@ class USML_DECLSPEC update_notifier {
     /**
      * Add an update listener to this object.
      */
-    void add_listener(listener_type* listener) { _listeners.insert(listener); }
+    void add_listener(listener_type* listener) { _listeners.add(listener); }
 
     /**
-     * Remove an update listener to this object.
+     * Remove an update listener to this object. The listener is not invoked
+     * by other threads after this function returns.
      */
     void remove_listener(listener_type* listener) {
-        _listeners.erase(listener);
+        _listeners.remove(listener);
     }
 
     /**
@@ -47,14 +47,13 @@ class USML_DECLSPEC update_notifier {
      * @param object    Reference to the object that has been updated.
      */
     virtual void notify_update(const obj_type* object) const {
-        for (auto listener : _listeners) {
-            listener->notify_update(object);
-        }
+        _listeners.notify(
+            [&](listener_type* listener) { listener->notify_update(object); });
     }
 
    private:
     /// List of active managed listeners.
-    std::set<listener_type*> _listeners;
+    listener_set<listener_type> _listeners;
 };
 
 /// @}
-- 
2.43.0


From 876a20920c53cfd30fe5e593f0d1dbcf3069b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 06/79] fix: platform_manager and sensor_manager singletons are
 not thread safe

The pointer tested by instance() without the mutex was a plain pointer, and
reset() destroyed the contents while holding the mutex.
---
 platforms/platform_manager.cc | 17 +++++++++++++----
 platforms/platform_manager.h  |  4 ++++
 sensors/sensor_manager.cc     | 17 +++++++++++++----
 sensors/sensor_manager.h      |  4 ++++
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/platforms/platform_manager.cc b/platforms/platform_manager.cc
index ed4c93d..434a6e6 100755
--- a/platforms/platform_manager.cc
+++ b/platforms/platform_manager.cc
@@ -12,6 +12,9 @@ using namespace usml::platforms;
 /** Initializes empty reference to singleton. */
 std::unique_ptr<platform_manager> platform_manager::_instance;
 
+/** Same as _instance, for threads that do not hold the mutex. */
+std::atomic<platform_manager*> platform_manager::_current{nullptr};
+
 /** Initializes mutex for singleton construction. */
 read_write_lock platform_manager::_mutex;
 
@@ -19,14 +22,15 @@ read_write_lock platform_manager::_mutex;
  * Singleton constructor, implemented using double-checked locking pattern.
  */
 platform_manager* platform_manager::instance() {
-    platform_manager* manager = _instance.get();
+    platform_manager* manager = _current;
     if (manager == nullptr) {
         write_lock_guard guard(_mutex);
-        manager = _instance.get();
+        manager = _current;
         if (manager == nullptr) {
             manager = new platform_manager();
             manager->_max_key = 0;
             _instance.reset(manager);
+            _current = manager;
         }
     }
     return manager;
@@ -36,8 +40,13 @@ platform_manager* platform_manager::instance() {
  * Removes all platforms from the manager and destroys it.
  */
 void platform_manager::reset() {
-    write_lock_guard guard(_mutex);
-    _instance.reset();
+    std::unique_ptr<platform_manager> previous;
+    {
+        write_lock_guard guard(_mutex);
+        _current = nullptr;
+        previous.swap(_instance);
+    }
+    previous.reset();  // destroyed without holding lock
 }
 
 /**
diff --git a/platforms/platform_manager.h b/platforms/platform_manager.h
index 52ca391..dfe3e66 100755
--- a/platforms/platform_manager.h
+++ b/platforms/platform_manager.h
@@ -9,6 +9,7 @@
 #include <usml/threads/read_write_lock.h>
 #include <usml/usml_config.h>
 
+#include <atomic>
 #include <memory>
 
 namespace usml {
@@ -53,6 +54,9 @@ class USML_DECLSPEC platform_manager : public manager_template<platform_model> {
     /// Reference to singleton.
     static std::unique_ptr<platform_manager> _instance;
 
+    /// Same as _instance, for threads that do not hold the mutex.
+    static std::atomic<platform_manager*> _current;
+
     /// Mutex for singleton access.
     static read_write_lock _mutex;
 
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..93d6418 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -18,6 +18,9 @@ using namespace usml::sensors;
  */
 std::unique_ptr<sensor_manager> sensor_manager::_instance;
 
+/** Same as _instance, for threads that do not hold the mutex. */
+std::atomic<sensor_manager*> sensor_manager::_current{nullptr};
+
 /**
  * The _mutex for the singleton sensor_manager.
  */
@@ -27,13 +30,14 @@ read_write_lock sensor_manager::_mutex;
  * Singleton Constructor - Double Check Locking Pattern DCLP
  */
 sensor_manager* sensor_manager::instance() {
-    sensor_manager* tmp = _instance.get();
+    sensor_manager* tmp = _current;
     if (tmp == nullptr) {
         write_lock_guard guard(_mutex);
-        tmp = _instance.get();
+        tmp = _current;
         if (tmp == nullptr) {
             tmp = new sensor_manager();
             _instance.reset(tmp);
+            _current = tmp;
         }
     }
     return tmp;
@@ -43,8 +47,13 @@ sensor_manager* sensor_manager::instance() {
  * Reset the sensor_manager instance to empty.
  */
 void sensor_manager::reset() {
-    write_lock_guard guard(_mutex);
-    _instance.reset();
+    std::unique_ptr<sensor_manager> previous;
+    {
+        write_lock_guard guard(_mutex);
+        _current = nullptr;
+        previous.swap(_instance);
+    }
+    previous.reset();  // destroyed without holding lock
     usml::platforms::platform_manager::reset();
 }
 
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..43c7507 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -13,6 +13,7 @@
 #include <usml/types/seq_vector.h>
 #include <usml/usml_config.h>
 
+#include <atomic>
 #include <memory>
 #include <set>
 
@@ -197,6 +198,9 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      */
     static std::unique_ptr<sensor_manager> _instance;
 
+    /// Same as _instance, for threads that do not hold the mutex.
+    static std::atomic<sensor_manager*> _current;
+
     /// Mutex for singleton access.
     static read_write_lock _mutex;
 
-- 
2.43.0


From 9b0430080d2fcbc15193ac9d0f6882f55b1c2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 07/79] fix: wavefront_notifier is not thread safe

Sensor pairs are created and destroyed while the wavefront_generator of
their sensor is notifying listeners.
---
 wavegen/wavefront_notifier.cc | 8 ++++----
 wavegen/wavefront_notifier.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 7c69b83..7a39729 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -13,7 +13,7 @@ using namespace usml::wavegen;
  * Add an wavefront listener to this object.
  */
 void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
@@ -21,7 +21,7 @@ void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
  */
 void wavefront_notifier::remove_wavefront_listener(
     wavefront_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -30,7 +30,7 @@ void wavefront_notifier::remove_wavefront_listener(
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
     const eigenverb_collection::csptr& eigenverbs) {
-    for (wavefront_listener* listener : _listeners) {
+    _listeners.notify([&](wavefront_listener* listener) {
         listener->update_wavefront_data(sensor, eigenrays, eigenverbs);
-    }
+    });
 }
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index a51d185..bc84973 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -6,11 +6,10 @@
 
 #include <usml/eigenrays/eigenray_collection.h>
 #include <usml/eigenverbs/eigenverb_collection.h>
+#include <usml/managed/listener_set.h>
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
-#include <set>
-
 namespace usml {
 namespace wavegen {
 
@@ -30,7 +29,8 @@ class USML_DECLSPEC wavefront_notifier {
     void add_wavefront_listener(wavefront_listener* listener);
 
     /**
-     * Remove a wavefront listener to this object.
+     * Remove a wavefront listener to this object. The listener is not invoked
+     * by other threads after this function returns.
      */
     void remove_wavefront_listener(wavefront_listener* listener);
 
@@ -45,7 +45,7 @@ class USML_DECLSPEC wavefront_notifier {
     /**
      * List of active wavefront listeners.
      */
-    std::set<wavefront_listener*> _listeners;
+    usml::managed::listener_set<wavefront_listener> _listeners;
 };
 
 /// @}
-- 
2.43.0


From 3bda9edeb827028bae339a35b3fa1730cb867a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 08/79] fix: platform motion is read while it is being updated

The getters for a single motion parameter, and the acoustic target flag, did
not use any lock.
---
 platforms/platform_model.cc | 11 +++++++----
 platforms/platform_model.h  | 27 ++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..5f1af0d 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -113,10 +113,13 @@ void platform_model::update_internals(time_t time, const wposition1& pos,
                                       update_type_enum update_type) {
     // update motion of host
 
-    _time = time;
-    _position = pos;
-    _orient = orient;
-    _speed = speed;
+    {
+        write_lock_guard guard(_motion_mutex);
+        _time = time;
+        _position = pos;
+        _orient = orient;
+        _speed = speed;
+    }
 
     // update motion of children
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..7cd715c 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -13,6 +13,7 @@
 #include <usml/types/orientation.h>
 #include <usml/types/wposition1.h>
 
+#include <atomic>
 #include <list>
 #include <string>
 
@@ -79,16 +80,28 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     const platform_model* host() const { return _host; }
 
     /// Time of last update.
-    time_t time() const { return _time; }
+    time_t time() const {
+        read_lock_guard guard(_motion_mutex);
+        return _time;
+    }
 
     /// Location of the platform in world coordinates.
-    wposition1 position() const { return _position; }
+    wposition1 position() const {
+        read_lock_guard guard(_motion_mutex);
+        return _position;
+    }
 
     /// Orientation of the platform in world coordinates.
-    orientation orient() const { return _orient; }
+    orientation orient() const {
+        read_lock_guard guard(_motion_mutex);
+        return _orient;
+    }
 
     /// Platform speed in world coordinates (m/s).
-    double speed() const { return _speed; }
+    double speed() const {
+        read_lock_guard guard(_motion_mutex);
+        return _speed;
+    }
 
     /// Flag to disable platform as acoustic target
     bool is_acoustic_target() const { return _is_acoustic_target; }
@@ -212,6 +225,10 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Mutex to that locks object during changes.
     mutable read_write_lock _mutex;
 
+    /// Mutex that locks individual motion parameters. Only held while they
+    /// are copied, so that they can be read by threads that already own _mutex.
+    mutable read_write_lock _motion_mutex;
+
     /// Container for location and orientation of platforms on platform.
     manager_template<linkage> _child_manager;
 
@@ -231,7 +248,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     double _speed{0.0};
 
     /// Flag to disable platform as acoustic target
-    bool _is_acoustic_target{true};
+    std::atomic<bool> _is_acoustic_target{true};
 };
 
 /// @}
-- 
2.43.0


From b6460c7bd05ab356f1088f941687ecc306cfd7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 09/79] fix: platform host pointer is set too early and never
 cleared

It was changed by a rejected add_child(), was kept after remove_child() and
after the host was destroyed, and was read without synchronization.
---
 platforms/platform_model.cc | 23 ++++++++++++++++++++++-
 platforms/platform_model.h  | 16 ++++++++--------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index 5f1af0d..01aad3c 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -13,6 +13,15 @@
 
 using namespace usml::platforms;
 
+/**
+ * Children that are still in use no longer have a host.
+ */
+platform_model::~platform_model() {
+    for (const auto& link : _child_manager.list()) {
+        release_child(link->child);
+    }
+}
+
 /**
  * Get all of the motion parameters, locked by a common mutex.
  */
@@ -78,7 +87,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,9 +98,20 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    auto link = _child_manager.find(keyID);
+    if (link == nullptr) return false;
+    release_child(link->child);
     return _child_manager.remove(keyID);
 }
 
+/**
+ * Forget the host of a child, unless it has moved to another host.
+ */
+void platform_model::release_child(const platform_model::sptr& child) const {
+    const platform_model* host = this;
+    child->_host.compare_exchange_strong(host, nullptr);
+}
+
 /**
  * Creates a temporary list of children attached to this platform.
  */
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7cd715c..f7ea43b 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -71,7 +71,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
           _speed(speed) {}
 
     /// Virtual destructor
-    virtual ~platform_model() {}
+    virtual ~platform_model();
 
     /// Mutex to that locks object during changes.
     read_write_lock& mutex() const { return _mutex; }
@@ -198,19 +198,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
@@ -222,6 +219,9 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
         const orientation orient;
     };
 
+    /// Forget the host of a child, unless it has moved to another host.
+    void release_child(const platform_model::sptr& child) const;
+
     /// Mutex to that locks object during changes.
     mutable read_write_lock _mutex;
 
@@ -233,7 +233,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     manager_template<linkage> _child_manager;
 
     /// Platform that controls the motion of this platform.
-    const platform_model* _host{nullptr};
+    std::atomic<const platform_model*> _host{nullptr};
 
     /// Time of last update.
     time_t _time{0};
-- 
2.43.0


From a3c92dfa9c23cd6d419edabfc3e782d6eff826c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 10/79] fix: sensor beams are reset without locking the sensor

The steering of an unknown receiver channel dereferenced the end of a map, and
the needs-update flag was set by the sensor_pair without synchronization.
---
 sensors/sensor_model.cc | 14 ++++++++++++--
 sensors/sensor_model.h  |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..53915ec 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -25,7 +25,10 @@ using namespace usml::sensors;
 /**
  * Reset source beams.
  */
-void sensor_model::reset_src_beams() { _src_beams.clear(); }
+void sensor_model::reset_src_beams() {
+    write_lock_guard guard(mutex());
+    _src_beams.clear();
+}
 
 /**
  * Add source beam pattern to this sensor.
@@ -64,7 +67,11 @@ std::list<int> sensor_model::src_keys() const {
 /**
  * Reset receiver beams.
  */
-void sensor_model::reset_rcv_beams() { _rcv_beams.clear(); }
+void sensor_model::reset_rcv_beams() {
+    write_lock_guard guard(mutex());
+    _rcv_beams.clear();
+    _rcv_steering.clear();
+}
 
 /**
  * Add receiver beam pattern to this sensor.
@@ -96,6 +103,9 @@ bp_model::csptr sensor_model::rcv_beam(int keyID) const {
 bvector sensor_model::rcv_steering(int keyID) const {
     read_lock_guard guard(mutex());
     auto iter = _rcv_steering.find(keyID);
+    if (iter == _rcv_steering.end()) {
+        return bvector(1.0, 0.0, 0.0);
+    }
     return iter->second;
 }
 
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 5b3b6e9..96ffe8d 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -19,6 +19,7 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_notifier.h>
 
+#include <atomic>
 #include <cstddef>
 #include <list>
 #include <map>
@@ -224,7 +225,8 @@ class USML_DECLSPEC sensor_model : public platform_model,
     /// Find reference to specific receiver beam model.
     bp_model::csptr rcv_beam(int keyID) const;
 
-    /// Retrieve source steering for specific channel number.
+    /// Retrieve source steering for specific channel number. Defaults to
+    /// straight ahead for unknown channels.
     bvector rcv_steering(int keyID) const;
 
     /// Update source steering for specific channel number.
@@ -379,7 +381,7 @@ class USML_DECLSPEC sensor_model : public platform_model,
     std::string _wavefront_file;
 
     /// True if acoustics ever updated.
-    bool _needs_update{true};
+    std::atomic<bool> _needs_update{true};
 
     /// Location of the platform at last acoustic update.
     wposition1 _update_position;
-- 
2.43.0


From a9a6d3e2a284f5553862991b0f8da798f2cf9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 11/79] fix: listeners are not notified of pairs without a
 transmit schedule

The update of the bistatic eigenverbs returned early, without the
notification that is due when no time series are computed.
---
 sensors/sensor_pair.cc | 45 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..632090c 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -165,34 +165,35 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
+        const auto schedule = _source->transmit_schedule();
+        if (!schedule.empty()) {
+            notify_early = false;
 
-        // compute treverb from transmit schedule
+            // compute treverb from transmit schedule
 
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
+            const double treverb_min = 0.1;
+            double treverb = 0.0;
+            for (const auto& transmit : schedule) {
+                if (treverb == 0.0) {
+                    treverb = transmit->duration;
+                } else {
+                    treverb = std::min(treverb, transmit->duration);
+                }
             }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+            treverb = std::max(treverb_min, treverb / 2.0);
 
-        // launch a new reverberation time series generator background task
+            // launch a new reverberation time series generator background task
 
-        notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+            if (_rvbts_task != nullptr) {  // abort incomplete tasks
+                _rvbts_task->abort();
+            }
+            sensor_pair::sptr reference =
+                sensor_manager::instance()->find(keyID());
+            _rvbts_task = std::make_shared<rvbts_generator>(
+                reference, _source, _receiver, treverb, _biverbs);
+            thread_controller::instance()->run(_rvbts_task);
+            _rvbts_task.reset();  // destroy background task shared pointer
         }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
     }
     if (notify_early) {
         notify_update(this);
-- 
2.43.0


From c0c860ff4a75ac0d756e8f1087c859c6414f5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 12/79] fix: bistatic pairs are not removed with their receiver

Searched for the sources of the pairs in the list of receivers.
---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 93d6418..8ee188c 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -291,7 +291,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From a0e391cd23d4afdb43295a48cd20eae282b3cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 13/79] fix: add_sensor deadlocks with an update of the same
 sensor

The sensor was locked while holding the lock of the sensor_manager, and an
update does so in the opposite order.
---
 sensors/sensor_manager.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 8ee188c..6ba3501 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -78,6 +78,10 @@ void sensor_manager::frequencies(const seq_vector::csptr& freq) {
  */
 void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
                                 update_listener<sensor_pair>* listener) {
+    // the sensor locks itself before this manager during an update
+    const bool is_source = sensor->is_source();
+    const bool is_receiver = sensor->is_receiver();
+
     write_lock_guard guard(_mutex);
     if (_frequencies == nullptr || _frequencies->size() < 1) {
         throw freq_missing();
@@ -94,26 +98,26 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
 
     // add sensor ID to the lists of active sources and receivers
 
-    if (sensor->is_source()) {
+    if (is_source) {
         _src_list.insert(sensor->keyID());
     }
-    if (sensor->is_receiver()) {
+    if (is_receiver) {
         _rcv_list.insert(sensor->keyID());
     }
 
     // add monostatic pair if this sensor can both transmit and receive
 
-    if (sensor->is_source() && sensor->is_receiver()) {
+    if (is_source && is_receiver) {
         add_monostatic_pair(sensor, listener);
     }
 
     // add bistatic pairs for other sensors in the same multistatic group
 
     if (multistatic > 0) {
-        if (sensor->is_source()) {
+        if (is_source) {
             add_multistatic_source(sensor, multistatic, listener);
         }
-        if (sensor->is_receiver()) {
+        if (is_receiver) {
             add_multistatic_receiver(sensor, multistatic, listener);
         }
     }
-- 
2.43.0


From 3ebdecec901c48e2ce60ff808a6c3116fad82fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 14/79] fix: transmit schedule set before the first update
 crashes

The reverberation time series was launched without any bistatic eigenverbs.
It could also replace new bistatic eigenverbs with those it read before.
---
 sensors/sensor_model.cc |  3 +-
 sensors/sensor_pair.cc  | 76 ++++++++++++++++++++++++++---------------
 sensors/sensor_pair.h   | 14 ++++++++
 3 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 53915ec..48f7534 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -147,8 +147,7 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
     if (old_schedule.empty() || update_type == FORCE_UPDATE) {
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
-            biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            pair->update_rvbts();
         }
     }
 }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 632090c..bd20e99 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -165,41 +165,61 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        const auto schedule = _source->transmit_schedule();
-        if (!schedule.empty()) {
-            notify_early = false;
-
-            // compute treverb from transmit schedule
-
-            const double treverb_min = 0.1;
-            double treverb = 0.0;
-            for (const auto& transmit : schedule) {
-                if (treverb == 0.0) {
-                    treverb = transmit->duration;
-                } else {
-                    treverb = std::min(treverb, transmit->duration);
-                }
-            }
-            treverb = std::max(treverb_min, treverb / 2.0);
-
-            // launch a new reverberation time series generator background task
+        notify_early = !launch_rvbts();
+    }
+    if (notify_early) {
+        notify_update(this);
+    }
+}
 
-            if (_rvbts_task != nullptr) {  // abort incomplete tasks
-                _rvbts_task->abort();
-            }
-            sensor_pair::sptr reference =
-                sensor_manager::instance()->find(keyID());
-            _rvbts_task = std::make_shared<rvbts_generator>(
-                reference, _source, _receiver, treverb, _biverbs);
-            thread_controller::instance()->run(_rvbts_task);
-            _rvbts_task.reset();  // destroy background task shared pointer
-        }
+/**
+ * Recompute reverberation time series from the current bistatic eigenverbs.
+ */
+void sensor_pair::update_rvbts() {
+    bool notify_early{true};
+    {
+        write_lock_guard guard(_mutex);
+        if (_biverbs == nullptr) return;
+        notify_early = !launch_rvbts();
     }
     if (notify_early) {
         notify_update(this);
     }
 }
 
+/**
+ * Launch a new reverberation time series generator background task.
+ */
+bool sensor_pair::launch_rvbts() {
+    const auto schedule = _source->transmit_schedule();
+    if (schedule.empty()) return false;
+
+    // compute treverb from transmit schedule
+
+    const double treverb_min = 0.1;
+    double treverb = 0.0;
+    for (const auto& transmit : schedule) {
+        if (treverb == 0.0) {
+            treverb = transmit->duration;
+        } else {
+            treverb = std::min(treverb, transmit->duration);
+        }
+    }
+    treverb = std::max(treverb_min, treverb / 2.0);
+
+    // launch a new reverberation time series generator background task
+
+    if (_rvbts_task != nullptr) {  // abort incomplete tasks
+        _rvbts_task->abort();
+    }
+    sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
+    _rvbts_task = std::make_shared<rvbts_generator>(
+        reference, _source, _receiver, treverb, _biverbs);
+    thread_controller::instance()->run(_rvbts_task);
+    _rvbts_task.reset();  // destroy background task shared pointer
+    return true;
+}
+
 /**
  * Update reverberation time series using results of the rvbts_generator
  * background task.
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..e0012a5 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -211,7 +211,21 @@ class USML_DECLSPEC sensor_pair
      */
     virtual void notify_update(const sensor_pair* object) const override;
 
+    /**
+     * Recompute reverberation time series from the current bistatic
+     * eigenverbs. Does nothing if there are no bistatic eigenverbs yet.
+     */
+    void update_rvbts();
+
    private:
+    /**
+     * Launch a new reverberation time series generator background task.
+     * The pair must be locked by the caller.
+     *
+     * @return   False if there is nothing in the transmit schedule.
+     */
+    bool launch_rvbts();
+
     /// Mutex to that locks pair updates.
     mutable read_write_lock _mutex;
 
-- 
2.43.0


From 51ed3333e8254755656c635bfb2e54b8d05a71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 15/79] fix: superseded biverb and rvbts generators are never
 aborted

sensor_pair dropped its reference to the task as soon as it was queued. The
generators also looked up the pair by name, which fails once it is removed
from the sensor_manager, and rvbts_generator did not keep the pair alive.
The pair now hands out references to itself, and starts listening once it is
owned by a shared pointer.
---
 rvbts/rvbts_generator.cc  |  3 ++-
 rvbts/rvbts_generator.h   |  3 +++
 sensors/sensor_manager.cc |  3 +++
 sensors/sensor_pair.cc    | 48 +++++++++++++++++++++------------------
 sensors/sensor_pair.h     | 16 +++++++++----
 5 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..b250975 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -26,7 +26,8 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const sensor_model::sptr& receiver,
                                  const double treverb,
                                  const biverb_collection::csptr& biverbs)
-    : _description(pair->description()),
+    : _sensor_pair(pair),
+      _description(pair->description()),
       _source(source),
       _source_pos(source->position()),
       _source_orient(source->orient()),
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 421ba40..2e2acfc 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -79,6 +79,9 @@ class USML_DECLSPEC rvbts_generator
      */
     matrix<double> compute_src_steering() const;
 
+    /// Object to notify when complete. Keeps it alive until then.
+    const sensor_pair::sptr _sensor_pair;
+
     /// Human readable name for this object instance.
     const std::string _description;
 
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6ba3501..5ddede3 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -199,6 +199,7 @@ void sensor_manager::add_monostatic_pair(
         if (listener != nullptr) {
             pair->add_listener(listener);
         }
+        pair->connect();
         add(pair);
     }
 }
@@ -219,6 +220,7 @@ void sensor_manager::add_multistatic_source(
                 if (listener != nullptr) {
                     pair->add_listener(listener);
                 }
+                pair->connect();
                 add(pair);
             }
         }
@@ -241,6 +243,7 @@ void sensor_manager::add_multistatic_receiver(
                 if (listener != nullptr) {
                     pair->add_listener(listener);
                 }
+                pair->connect();
                 add(pair);
             }
         }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index bd20e99..bb79d6c 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -33,11 +33,16 @@ sensor_pair::sensor_pair(const sensor_model::sptr& source,
           source->description() + " -> " + receiver->description()),
       _source(source),
       _receiver(receiver),
-      _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {
-    source->set_needs_update();
-    receiver->set_needs_update();
-    source->add_wavefront_listener(this);
-    receiver->add_wavefront_listener(this);
+      _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {}
+
+/**
+ * Start to listen for new wavefront data from source and receiver.
+ */
+void sensor_pair::connect() {
+    _source->add_wavefront_listener(this);
+    _receiver->add_wavefront_listener(this);
+    _source->set_needs_update();
+    _receiver->set_needs_update();
 }
 
 /**
@@ -77,6 +82,8 @@ void sensor_pair::update_wavefront_data(
     const sensor_model* sensor, eigenray_collection::csptr eigenrays,
     eigenverb_collection::csptr eigenverbs) {
     bool notify_early{true};
+    const sensor_pair::sptr reference = weak_from_this().lock();
+    if (reference == nullptr) return;  // pair is being destroyed
     {
         write_lock_guard guard(_mutex);
 
@@ -137,17 +144,14 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                auto previous = _biverb_task.lock();
+                if (previous != nullptr) {  // abort incomplete tasks
+                    previous->abort();
                 }
-                sensor_pair::sptr reference =
-                    sensor_manager::instance()->find(keyID());
-                eigenverb_collection::csptr src_verbs = _src_eigenverbs;
-                eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
-                    reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                auto task = std::make_shared<biverb_generator>(
+                    reference, _src_eigenverbs, _rcv_eigenverbs);
+                _biverb_task = task;
+                thread_controller::instance()->run(task);
             }
         }
     }
@@ -209,14 +213,14 @@ bool sensor_pair::launch_rvbts() {
 
     // launch a new reverberation time series generator background task
 
-    if (_rvbts_task != nullptr) {  // abort incomplete tasks
-        _rvbts_task->abort();
+    auto previous = _rvbts_task.lock();
+    if (previous != nullptr) {  // abort incomplete tasks
+        previous->abort();
     }
-    sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-    _rvbts_task = std::make_shared<rvbts_generator>(
-        reference, _source, _receiver, treverb, _biverbs);
-    thread_controller::instance()->run(_rvbts_task);
-    _rvbts_task.reset();  // destroy background task shared pointer
+    auto task = std::make_shared<rvbts_generator>(
+        shared_from_this(), _source, _receiver, treverb, _biverbs);
+    _rvbts_task = task;
+    thread_controller::instance()->run(task);
     return true;
 }
 
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index e0012a5..233a026 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -59,14 +59,14 @@ using namespace usml::wavegen;
  */
 class USML_DECLSPEC sensor_pair
     : public managed_obj<std::string, sensor_pair>,
+      public std::enable_shared_from_this<sensor_pair>,
       public wavefront_listener,
       public update_listener<biverb_collection::csptr>,
       public update_listener<rvbts_collection::csptr>,
       public update_notifier<sensor_pair> {
    public:
     /**
-     * Construct link between source and receiver. Makes this pair an
-     * update_listener to both the source and receiver. The source and receiver
+     * Construct link between source and receiver. The source and receiver
      * will be equal for monostatic sensors.
      *
      * @param    source      Reference to the source for this pair.
@@ -80,6 +80,14 @@ class USML_DECLSPEC sensor_pair
      */
     virtual ~sensor_pair();
 
+    /**
+     * Start to listen for new wavefront data from source and receiver, and
+     * force both to be recomputed by their next update. Results are delivered
+     * by background tasks, so the pair must be owned by a shared pointer
+     * before this is invoked.
+     */
+    void connect();
+
     /// Lookup key for this combination of source and receiver
     std::string hash_key() const {
         read_lock_guard guard(_mutex);
@@ -256,10 +264,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From 668562f7dfc3578da200386138594e856e765a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 16/79] fix: wavefront_generator uses a sensor that has been
 destroyed

---
 platforms/platform_model.h     |  2 ++
 wavegen/wavefront_generator.cc | 11 +++++++++++
 wavegen/wavefront_generator.h  | 14 ++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index f7ea43b..c4a7661 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <list>
+#include <memory>
 #include <string>
 
 namespace usml {
@@ -39,6 +40,7 @@ using namespace usml::types;
  * notifications for "major" changes like acoustic updates in the sub-classes.
  */
 class platform_model : public managed_obj<uint64_t, platform_model>,
+                       public std::enable_shared_from_this<platform_model>,
                        public update_notifier<platform_model> {
    public:
     /// Thresholds update type.
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index ba0f041..91f529a 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -33,6 +33,8 @@ wavefront_generator::wavefront_generator(
     int max_bottom, int max_surface, const std::string& wavefront_file)
     : _ocean(ocean_shared::current()),
       _source(source),
+      _source_ref(source->weak_from_this()),
+      _source_shared(!_source_ref.expired()),
       _source_position(source->position()),
       _target_positions(target_positions),
       _targetIDs(targetIDs),
@@ -58,6 +60,15 @@ void wavefront_generator::run() {
         return;
     }
 
+    // keep the source alive until results have been distributed
+
+    const auto source_ref = _source_ref.lock();
+    if (_source_shared && source_ref == nullptr) {
+        cout << "task #" << id()
+             << " wavefront_generator *** source no longer exists ***" << endl;
+        return;
+    }
+
     // create a new wavefront
 
     cout << "task #" << id()
diff --git a/wavegen/wavefront_generator.h b/wavegen/wavefront_generator.h
index fda1f92..5b700d3 100644
--- a/wavegen/wavefront_generator.h
+++ b/wavegen/wavefront_generator.h
@@ -13,7 +13,12 @@
 
 #include <boost/numeric/ublas/matrix.hpp>
 
+#include <memory>
+
 namespace usml {
+namespace platforms {
+class platform_model;
+}
 namespace sensors {
 class sensor_model;
 }
@@ -23,6 +28,7 @@ namespace usml {
 namespace wavegen {
 
 using namespace usml::ocean;
+using namespace usml::platforms;
 using namespace usml::sensors;
 using namespace usml::threads;
 using namespace usml::types;
@@ -81,6 +87,14 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /// Also the destination of wavefront_listener callbacks.
     sensor_model* _source;
 
+    /// Used to keep the source alive during the calculation, and to skip the
+    /// calculation if the source has been destroyed. Does not keep the source
+    /// alive before that because the source also owns this task.
+    std::weak_ptr<const platform_model> _source_ref;
+
+    /// True if the source is owned by shared pointers.
+    const bool _source_shared;
+
     /// Position of the source at the time of invocation.
     /// Cached to avoid change while the calculation is being performed.
     const wposition1 _source_position;
-- 
2.43.0


From 37e0915802739972085af05ea96cc82416e96dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 17/79] fix: biverb_generator crashes when the sensor_manager
 is reset

---
 biverbs/biverb_generator.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 03a8bad..e058464 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -8,7 +8,6 @@
 #include <usml/managed/managed_obj.h>
 #include <usml/ocean/ocean_model.h>
 #include <usml/ocean/ocean_shared.h>
-#include <usml/sensors/sensor_manager.h>
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/vector.hpp>
@@ -48,10 +47,8 @@ void biverb_generator::run() {
     // initialize workspace for results
 
     auto ocean = ocean_shared::current();
-    auto freq = sensor_manager::instance()->frequencies();
-    const size_t num_freq = freq->size();
-    vector<double> scatter(num_freq, 0.0);
-    auto* collection = new biverb_collection(ocean->num_volume());
+    vector<double> scatter;
+    auto collection = std::make_shared<biverb_collection>(ocean->num_volume());
 
     // loop through eigenverbs for each interface
 
@@ -60,6 +57,7 @@ void biverb_generator::run() {
         for (const auto& rcv_verb : _rcv_eigenverbs->eigenverbs(interface)) {
             eigenverb_list found_verbs =
                 _src_eigenverbs->find_eigenverbs(rcv_verb, interface);
+            scatter.resize(rcv_verb->frequencies->size());
             for (const auto& src_verb : found_verbs) {
                 ocean->scattering(interface, rcv_verb->position,
                                   rcv_verb->frequencies, src_verb->grazing,
@@ -75,7 +73,7 @@ void biverb_generator::run() {
             }
         }
     }
-    _collection = biverb_collection::csptr(collection);
+    _collection = collection;
     _done = true;
     notify_update(&_collection);
     cout << "task #" << id() << " biverb_generator: done" << endl;
-- 
2.43.0


From c2695d3652b6bd5d2576feed9f3e9dd6fd49d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 18/79] fix: pairs are destroyed while holding the locks of
 their managers

---
 managed/manager_template.h |  5 +++-
 sensors/sensor_manager.cc  | 56 ++++++++++++++++++++------------------
 sensors/sensor_manager.h   | 12 ++++----
 3 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/managed/manager_template.h b/managed/manager_template.h
index e3993a5..2ec33e7 100755
--- a/managed/manager_template.h
+++ b/managed/manager_template.h
@@ -87,6 +87,7 @@ class USML_DLLEXPORT manager_template {
      * @return          False if keyID was not found.
      */
     bool remove(typename obj_type::key_type keyID) {
+        typename obj_type::sptr object;  // destroyed after lock is released
         write_lock_guard guard(_mutex);
         iterator iter = _object_map.find(keyID);
         if (iter == _object_map.end()) return false;
@@ -98,7 +99,9 @@ class USML_DLLEXPORT manager_template {
 
         // remove object from manager
         // delete object when shared_ptr goes out of scope
-        return _object_map.erase(keyID);
+        object = iter->second;
+        _object_map.erase(iter);
+        return true;
     }
 
     /**
diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 5ddede3..04068c3 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -129,22 +129,33 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
  */
 void sensor_manager::remove_sensor(const sensor_model::sptr& sensor,
                                    update_listener<sensor_pair>* listener) {
-    write_lock_guard guard(_mutex);
+    pair_list removed;
+    {
+        write_lock_guard guard(_mutex);
 
-    // remove sensor from the lists of active sources and receivers
+        // remove sensor from the lists of active sources and receivers
 
-    _src_list.erase(sensor->keyID());
-    _rcv_list.erase(sensor->keyID());
+        _src_list.erase(sensor->keyID());
+        _rcv_list.erase(sensor->keyID());
 
-    // search for pairs to remove
+        // search for pairs to remove
 
-    remove_monostatic_pair(sensor, listener);
-    remove_multistatic_source(sensor, listener);
-    remove_multistatic_receiver(sensor, listener);
+        remove_monostatic_pair(sensor, &removed);
+        remove_multistatic_source(sensor, &removed);
+        remove_multistatic_receiver(sensor, &removed);
 
-    // remove reference from platform_manager
+        // remove reference from platform_manager
+
+        platform_manager::instance()->remove(sensor->keyID());
+    }
 
-    platform_manager::instance()->remove(sensor->keyID());
+    // wait for listeners that are being notified without holding lock
+
+    if (listener != nullptr) {
+        for (const auto& pair : removed) {
+            pair->remove_listener(listener);
+        }
+    }
 }
 
 /**
@@ -215,7 +226,7 @@ void sensor_manager::add_multistatic_source(
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
             auto receiver = find_sensor(receiverID);
-            if (receiver->multistatic() == multistatic) {
+            if (receiver != nullptr && receiver->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
@@ -238,7 +249,7 @@ void sensor_manager::add_multistatic_receiver(
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = find_sensor(sourceID);
-            if (source->multistatic() == multistatic) {
+            if (source != nullptr && source->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
@@ -255,15 +266,13 @@ void sensor_manager::add_multistatic_receiver(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_monostatic_pair(
-    const sensor_model::sptr& sensor, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& sensor, pair_list* removed) {
     auto sensorID = sensor->keyID();
     auto hash_key = sensor_pair::generate_hash_key(sensorID, sensorID);
     auto pair = find(hash_key);
     if (pair != nullptr) {
         remove(hash_key);
-        if (listener != nullptr) {
-            pair->remove_listener(listener);
-        }
+        removed->push_back(pair);
     }
 }
 
@@ -272,19 +281,16 @@ void sensor_manager::remove_monostatic_pair(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_multistatic_source(
-    const sensor_model::sptr& source, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& source, pair_list* removed) {
     auto sourceID = source->keyID();
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
-            auto receiver = platform_manager::instance()->find(receiverID);
             auto hash_key =
                 sensor_pair::generate_hash_key(sourceID, receiverID);
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
@@ -295,20 +301,16 @@ void sensor_manager::remove_multistatic_source(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_multistatic_receiver(
-    const sensor_model::sptr& receiver,
-    update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& receiver, pair_list* removed) {
     auto receiverID = receiver->keyID();
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
-            auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
                 sensor_pair::generate_hash_key(sourceID, receiverID);
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index 43c7507..9b5e689 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -168,30 +168,30 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      * sensor_manager::remove_sensor().
      *
      * @param sensor 	Monostatic sensor to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Receives the pairs that were removed.
      */
     void remove_monostatic_pair(const sensor_model::sptr& sensor,
-                                update_listener<sensor_pair>* listener);
+                                pair_list* removed);
 
     /**
      * Removes all multistatic pairs with the provided source. Called from
      * sensor_manager::remove_sensor().
      *
      * @param source 	Multistatic source to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Receives the pairs that were removed.
      */
     void remove_multistatic_source(const sensor_model::sptr& source,
-                                   update_listener<sensor_pair>* listener);
+                                   pair_list* removed);
 
     /**
      * Removes all multistatic pairs with he provided receiver. Called from
      * sensor_manager::remove_sensor().
      *
      * @param receiver 	Multistatic receiver to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Receives the pairs that were removed.
      */
     void remove_multistatic_receiver(const sensor_model::sptr& receiver,
-                                     update_listener<sensor_pair>* listener);
+                                     pair_list* removed);
 
     /**
      * The singleton access pointer.
-- 
2.43.0


From 78d249da5bb13ec66c45ae26e2b31120c980f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 19/79] fix: aborted wavefront_generator leaks its results

---
 wavegen/wavefront_generator.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index 91f529a..384e155 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -82,18 +82,19 @@ void wavefront_generator::run() {
 
     // create listener to store eigenrays, if targets exist
 
-    auto* eigenrays = new eigenray_collection(_frequencies, _source_position,
-                                              _target_positions,
-                                              _source->keyID(), _targetIDs);
+    auto eigenrays = std::make_shared<eigenray_collection>(
+        _frequencies, _source_position, _target_positions, _source->keyID(),
+        _targetIDs);
     if (_targetIDs.size1() > 0 && _targetIDs.size2() > 0) {
-        wave.add_eigenray_listener(eigenrays);
+        wave.add_eigenray_listener(eigenrays.get());
     }
 
     // create listener to store eigenverbs
 
-    auto* eigenverbs = new eigenverb_collection(_ocean->num_volume());
+    auto eigenverbs =
+        std::make_shared<eigenverb_collection>(_ocean->num_volume());
     if (_source->compute_reverb()) {
-        wave.add_eigenverb_listener(eigenverbs);
+        wave.add_eigenverb_listener(eigenverbs.get());
     }
 
     // propagate wavefront to build eigenrays and eigenverbs
@@ -124,15 +125,11 @@ void wavefront_generator::run() {
     if (has_wavefront_file) {
         wave.close_netcdf();
     }
-    if (eigenrays != nullptr) {
-        eigenrays->sum_eigenrays();
-    }
+    eigenrays->sum_eigenrays();
 
     // distribute eigenrays and eigenverbs to listeners
 
     _done = true;
-    _source->notify_wavefront_listeners(
-        _source, eigenray_collection::csptr(eigenrays),
-        eigenverb_collection::csptr(eigenverbs));
+    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs);
     cout << "task #" << id() << " wavefront_generator: done" << endl;
 }
-- 
2.43.0


From f0411939005b50953c7a3ec43933f1ff3db9db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 20/79] fix: seq_vector reverse iterators and find_nearest on a
 single element

---
 types/seq_vector.cc | 3 ++-
 types/seq_vector.h  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..930a593 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,8 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n < _max_index &&
+        abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From 1249397e4b9a2e882ae897b42e618e391b1fbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 21/79] fix: seq_vector::build_best changes the values of
 logarithmic and other sequences

---
 types/seq_vector.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 930a593..2e04d2f 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -9,6 +9,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/storage.hpp>
+#include <cmath>
 #include <cstdlib>
 
 using namespace usml::types;
@@ -53,6 +54,9 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     bool isLog = true;
 
     const int N = (int)count;
+    if (N == 0) {
+        return seq_vector::csptr(new seq_linear(0.0, 1.0, 0));
+    }
     double p1 = data[0];
     double minValue = p1;
     double maxValue = p1;
@@ -63,10 +67,12 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
         for (size_t n = 2; n < N; ++n) {
             double p3 = data[n];
             maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+            const double scale = (p2 != 0.0) ? p2 : p3 - p1;
+            if (abs((p3 - p2) - (p2 - p1)) > 1E-4 * abs(scale)) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            if (p1 == 0.0 || p2 == 0.0 || p2 / p1 <= 0.0 ||
+                abs((p3 / p2) - (p2 / p1)) > 1E-5) {
                 isLog = false;
             }
             p1 = p2;
@@ -82,7 +88,8 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     } else if (isLinear) {
         seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(
+            minValue, std::pow(maxValue / minValue, 1.0 / (N - 1)), N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 0f93632115e62103d7bfa3a323e2a07bd4691a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 22/79] fix: seq_augment can not be searched and repeats its
 last element

---
 types/seq_augment.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..20a7705 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -51,15 +51,16 @@ class USML_DECLSPEC seq_augment : public seq_data {
         for (size_t i = half + 1, j = 2; j < size_old - 1; ++i, ++j) {
             _data[i] = (*origin)[j];
         }
+        const size_t upper = num_rays + 2 - half;
+        spacing = origin->increment(0) / upper;
         for (size_t i = size_old - 2 + half; i < size - 1; ++i) {
             _data[i] = _data[i - 1] + spacing;
         }
         _data[size - 1] = (*origin)[size_old - 1];
 
-        for (size_t i = 1; i < size; ++i) {
-            _increment[i - 1] = _data[i] - _data[i - 1];
-        }
-        _increment[_max_index] = _data[_max_index] - _data[_max_index - 1];
+        // initialize seq_data structures
+
+        init(array_type(_data), size);
     }
 };
 
-- 
2.43.0


From 41c2df43ce81c400179552f5d3f09a9857b20c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 23/79] fix: seq_log continues past its last value

---
 types/seq_log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..8648cc8 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -57,8 +57,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
                          ? 1
                          : max((difference_type)1,
                                (difference_type)floor(
-                                   1.0 + (log((last + increment / 10) / first) /
-                                          log(increment))))) {
+                                   1.1 + log(last / first) / log(increment)))) {
         initialize(first, increment, size());
     }
 
@@ -99,6 +98,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
      */
     void initialize(value_type first, value_type increment, size_type size) {
         value_type v = first;
+        _increment[0] = first * increment - first;
         for (size_type n = 0; n < size; ++n) {
             _data[n] = v;
             v *= increment;
-- 
2.43.0


From 5b9dc7f29c9be7e5910e69f376314094d4ca19ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 24/79] fix: seq_log::find_index for values of zero or less

---
 types/seq_log.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/types/seq_log.h b/types/seq_log.h
index 8648cc8..dc727f0 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -81,11 +81,13 @@ class USML_DECLSPEC seq_log : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
-        return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor(log(value / _data[0]) /
-                                       log(_increment[1] / _increment[0]))));
+        if (this->size() < 3) {
+            return 0;
+        }
+        const value_type ratio = max(0.0, value / _data[0]);
+        const value_type index =
+            floor(log(ratio) / log(_increment[1] / _increment[0]));
+        return (size_type)max(0.0, min((value_type)this->size() - 2.0, index));
     }
 
    private:
-- 
2.43.0


From 0c0fc06f51900e7c5faec9979b377cd9e8471801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 25/79] fix: interpolation type is not reduced when an axis has
 too few points

---
 types/data_grid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..05cf3ad 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -140,9 +140,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
-- 
2.43.0


From 52712ac0b4a744c1e05809edf5682124fed73fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 26/79] fix: gen_grid reads beyond the end of axes with few
 points

---
 types/gen_grid.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..8cbc452 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -168,6 +168,10 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         } else if (this->_axis[dim]->size() < 2) {
             result = nearest(dim, index, location, deriv, deriv_vec);
 
+        } else if (this->_interp_type[dim] == interp_enum::pchip &&
+                   this->_axis[dim]->size() < 4) {
+            result = linear(dim, index, location, deriv, deriv_vec);
+
         } else {
             switch (this->_interp_type[dim]) {
                 case interp_enum::nearest:
@@ -210,7 +214,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
         const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
-        if (u < 0.5) {
+        if (ax->size() < 2 || u < 0.5) {
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
             size_t next[NUM_DIMS];
-- 
2.43.0


From e9cdfde1fea944431d762908c2b98c860eb28104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 27/79] fix: slopes of pchip interpolation on axes with uneven
 spacing and at end points

---
 types/gen_grid.h       | 12 ++++++------
 types/gen_grid_utils.h |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 8cbc452..6796431 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -459,8 +459,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -478,8 +478,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -488,8 +488,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..7b560a9 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -148,8 +148,8 @@ struct end_point_derivative {
                         argument_type& dm) {
         if (m * d0 < 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
             if (dm * dd0 < 0.0) {
-- 
2.43.0


From 98017237b5f7f0c661176604ed80743784da41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 28/79] fix: gen_grid derivatives of 3-D grids are not
 interpolated along the last axis

---
 types/gen_grid.h | 176 +++++++++++++++++++++++------------------------
 1 file changed, 86 insertions(+), 90 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 6796431..e5139df 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -258,6 +258,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // build interpolation coefficients
 
         const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE dlow[NUM_DIMS];  // derivatives of prior dimensions at "a"
+        if (deriv_vec) std::copy_n(deriv_vec, dim, dlow);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
@@ -271,13 +273,13 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double u = (location[dim] - (*ax)(k)) / h;
         result = a * (1.0 - u) + b * u;
 
-        // compute derivative in this dimension and prior dimension
+        // compute derivative in this dimension and prior dimensions
 
         if (deriv_vec) {
             deriv = (b - a) / h;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
+            for (int n = 0; n < dim; ++n) {
+                deriv_vec[n] = dlow[n] * (1.0 - u) + deriv_vec[n] * u;
             }
         }
 
@@ -365,26 +367,30 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE y2 = _zero;
         DATA_TYPE y3 = _zero;
 
-        // dim-1 derivatives at k-1, k, k+1, k+2
+        // derivatives of prior dimensions at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = _zero;
-        DATA_TYPE dy1 = _zero;
-        DATA_TYPE dy2 = _zero;
-        DATA_TYPE dy3 = _zero;
+        DATA_TYPE dy0[NUM_DIMS];
+        DATA_TYPE dy1[NUM_DIMS];
+        DATA_TYPE dy2[NUM_DIMS];
+        DATA_TYPE dy3[NUM_DIMS];
+        DATA_TYPE da = _zero;
+        const size_t num_prior = deriv_vec ? dim : 0;
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
         const size_t k = index[dim];
-        y1 = interp(dim - 1, index, location, dy1, deriv_vec);
+        y1 = interp(dim - 1, index, location, da, deriv_vec);
+        std::copy_n(deriv_vec, num_prior, dy1);
 
         if (k >= kmin) {
             size_t prev[NUM_DIMS];
             std::copy_n(index, NUM_DIMS, prev);
             --prev[dim];
-            y0 = interp(dim - 1, prev, location, dy0, deriv_vec);
+            y0 = interp(dim - 1, prev, location, da, deriv_vec);
+            std::copy_n(deriv_vec, num_prior, dy0);
         } else {  // use harmless values at left end-point
             y0 = y1;
-            dy0 = dy1;
+            std::copy_n(dy1, num_prior, dy0);
         }
 
         // interpolate in dim-1 dimension to find values and derivs at k+1, k+2
@@ -392,16 +398,18 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        y2 = interp(dim - 1, next, location, dy2, deriv_vec);
+        y2 = interp(dim - 1, next, location, da, deriv_vec);
+        std::copy_n(deriv_vec, num_prior, dy2);
 
         if (k <= kmax) {
             size_t last[NUM_DIMS];
             std::copy_n(next, NUM_DIMS, last);
             ++last[dim];
-            y3 = interp(dim - 1, last, location, dy3, deriv_vec);
+            y3 = interp(dim - 1, last, location, da, deriv_vec);
+            std::copy_n(deriv_vec, num_prior, dy3);
         } else {  // use harmless values at right end-point
             y3 = y2;
-            dy3 = dy2;
+            std::copy_n(dy2, num_prior, dy3);
         }
 
         // compute difference values used frequently in computation
@@ -419,80 +427,11 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double sh_minus = s - h1;
         const double sh_term = 3.0 * h1 * s_2 - 2.0 * s_3;
 
-        // compute first divided differences (forward derivative)
-        // for both the values, and their derivatives
-
-        const DATA_TYPE deriv0 = (y1 - y0) / h0;  // fwd deriv from k-1 to k
-        const DATA_TYPE deriv1 = (y2 - y1) / h1;  // fwd deriv from k to k+1
-        const DATA_TYPE deriv2 = (y3 - y2) / h2;  // fwd deriv from k+1 to k+2
-
-        // forward derivatives of dim-1 derivatives
-
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
-        if (deriv_vec) {  // fwd deriv of dim-1 derivatives
-            dderiv0 = (dy1 - dy0) / h0;
-            dderiv1 = (dy2 - dy1) / h1;
-            dderiv2 = (dy3 - dy2) / h2;
-        }
-
-        //*************
-        // compute weighted harmonic mean of slopes around index k
-        // for both the values, and their derivatives
-        // set it zero at local maxima or minima
-        // deriv0 * deriv1 condition guards against division by zero
+        // compute slopes for the values in this dimension
 
         DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
-
-        // when not at an end-point, slope1 is the harmonic, weighted
-        // average of deriv0 and deriv1.
-
-        if (k >= kmin) {
-            const double w0 = 2.0 * h1 + h0;
-            const double w1 = h1 + 2.0 * h0;
-            derivative<DATA_TYPE>::compute(deriv0, deriv1, dderiv0, dderiv1, w0,
-                                           w1, deriv_vec, slope1, dslope1);
-
-            // at left end-point, use Matlab end-point formula with slope limits
-            // note that the deriv0 value is bogus values when this is true
-
-        } else {
-            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
-        }
-
-        //*************
-        // compute weighted harmonic mean of slopes around index k+1
-        // for both the values, and their derivatives
-        // set it zero at local maxima or minima
-        // deriv1 * deriv2 condition guards against division by zero
-
         DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
-
-        // when not at an end-point, slope2 is the harmonic, weighted
-        // average of deriv1 and deriv2.
-
-        if (k <= kmax) {
-            const double w1 = 2.0 * h2 + h1;
-            const double w2 = h2 + 2.0 * h1;
-            derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
-                                           w2, deriv_vec, slope2, dslope2);
-
-            // at right end-point, use Matlab end-point formula with slope
-            // limits note that the deriv2 value is bogus values when this is
-            // true
-
-        } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
-        }
+        pchip_slopes(k, kmin, kmax, h0, h1, h2, y0, y1, y2, y3, slope1, slope2);
 
         // compute interpolation value in this dimension
 
@@ -510,11 +449,15 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
                 initialize<DATA_TYPE>::value(deriv, (1.0 - v));
             deriv = slope1 * one_minus_u + slope2 * u;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = dy2 * sh_term / h1_3 +
-                                     dy1 * (h1_3 - sh_term) / h1_3 +
-                                     dslope2 * s_2 * sh_minus / h1_2 +
-                                     dslope1 * s * sh_minus * sh_minus / h1_2;
+            for (int n = 0; n < dim; ++n) {
+                DATA_TYPE dslope1 = _zero;
+                DATA_TYPE dslope2 = _zero;
+                pchip_slopes(k, kmin, kmax, h0, h1, h2, dy0[n], dy1[n], dy2[n],
+                             dy3[n], dslope1, dslope2);
+                deriv_vec[n] = dy2[n] * sh_term / h1_3 +
+                               dy1[n] * (h1_3 - sh_term) / h1_3 +
+                               dslope2 * s_2 * sh_minus / h1_2 +
+                               dslope1 * s * sh_minus * sh_minus / h1_2;
             }
         }
 
@@ -523,6 +466,59 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         return result;
     }
 
+    /**
+     * Compute the slopes at both ends of the interval from k to k+1,
+     * for the values or for their derivatives.
+     *
+     * @param   k           Index of the current interval.
+     * @param   kmin        Left end-point formula used below this index.
+     * @param   kmax        Right end-point formula used above this index.
+     * @param   h0          Interval from k-1 to k.
+     * @param   h1          Interval from k to k+1.
+     * @param   h2          Interval from k+1 to k+2.
+     * @param   y0          Value at k-1.
+     * @param   y1          Value at k.
+     * @param   y2          Value at k+1.
+     * @param   y3          Value at k+2.
+     * @param   slope1      Slope at k (input zero, output).
+     * @param   slope2      Slope at k+1 (input zero, output).
+     */
+    void pchip_slopes(size_t k, size_t kmin, size_t kmax, double h0, double h1,
+                      double h2, const DATA_TYPE& y0, const DATA_TYPE& y1,
+                      const DATA_TYPE& y2, const DATA_TYPE& y3,
+                      DATA_TYPE& slope1, DATA_TYPE& slope2) const {
+        const DATA_TYPE deriv0 = (y1 - y0) / h0;  // fwd deriv from k-1 to k
+        const DATA_TYPE deriv1 = (y2 - y1) / h1;  // fwd deriv from k to k+1
+        const DATA_TYPE deriv2 = (y3 - y2) / h2;  // fwd deriv from k+1 to k+2
+        DATA_TYPE unused = _zero;
+
+        // when not at an end-point, the slope is the harmonic, weighted
+        // average of the derivatives on both sides. It is set to zero at
+        // local maxima or minima, which also guards against division by zero.
+        // At an end-point, use Matlab end-point formula with slope limits.
+
+        if (k >= kmin) {
+            const double w0 = 2.0 * h1 + h0;
+            const double w1 = h1 + 2.0 * h0;
+            derivative<DATA_TYPE>::compute(deriv0, deriv1, _zero, _zero, w0, w1,
+                                           false, slope1, unused);
+        } else {
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            end_point_derivative<DATA_TYPE>::compute(
+                deriv1, deriv2, _zero, _zero, false, slope1, unused);
+        }
+        if (k <= kmax) {
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
+            derivative<DATA_TYPE>::compute(deriv1, deriv2, _zero, _zero, w1, w2,
+                                           false, slope2, unused);
+        } else {
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            end_point_derivative<DATA_TYPE>::compute(
+                deriv1, deriv0, _zero, _zero, false, slope2, unused);
+        }
+    }
+
    protected:
     /// Limit construction to sub-classes.
     // NOLINTNEXTLINE(clang-analyzer-optin.cplusplus.UninitializedObject)
-- 
2.43.0


From 061fcd537e2047e29f0eb5feee04684750b09cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:25 +0000
Subject: [PATCH 29/79] fix: data_grid_bathy never reaches the last row and
 column; nearest uses wrong element

---
 types/data_grid_bathy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..3741092 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -270,7 +270,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
 
             if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
@@ -295,8 +295,8 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
+                    double inc = axis(dim).increment(offset[dim]);
+                    double u = (loc[dim] - axis(dim)(offset[dim])) / inc;
                     if (u < 0.5) {
                         fast_index[dim] = offset[dim];
                     } else {
-- 
2.43.0


From 41b9122e4db6f2af6ed0f41f8d73626dedcc147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:25 +0000
Subject: [PATCH 30/79] fix: data_grid_svp slope at the last depth; memory leak

---
 types/data_grid_svp.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..e15da5e 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -91,21 +91,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
@@ -139,6 +139,7 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
             }
             delete[] _derv_z[i];
         }
+        delete[] _derv_z;
     }
 
     /**
-- 
2.43.0


From 9e4b1ce62f7202652935dfd541afaf26bface7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 31/79] fix: data_grid_svp is not used, and crashes, through
 the data_grid interface

---
 types/data_grid_svp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index e15da5e..6009363 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -8,6 +8,7 @@
 #include <usml/types/seq_vector.h>
 #include <usml/usml_config.h>
 
+#include <algorithm>
 #include <boost/numeric/ublas/detail/iterator.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
 #include <cmath>
@@ -149,10 +150,13 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
      *
      * Interpolate at a single location.
      *
-     * @param location   Location to do the interpolation at
+     * @param field_point Location to do the interpolation at
      * @param derivative Calculates first derivative if not nullptr
      */
-    double interpolate(double* location, double* derivative = nullptr) const {
+    double interpolate(const double field_point[],
+                       double* derivative = nullptr) const override {
+        double location[3];  // create copy to allow updating
+        std::copy_n(field_point, 3, location);
         double result = 0.0;
         size_t k0, k1, k2;  // indices of he offset data
         size_t offset[3];
-- 
2.43.0


From cd3af1fc42a5c97d4d5bb386be5dfc8c2eed91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 32/79] fix: setting one angle of a copied orientation makes
 all of its rotation NaN

---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..d7db52c 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From af3976a84c5963a8c4c23f3bfbaefc532c2223a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 33/79] fix: pitch of a vertical orientation is NaN

---
 types/orientation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/orientation.cc b/types/orientation.cc
index d8936b9..03e50bc 100644
--- a/types/orientation.cc
+++ b/types/orientation.cc
@@ -51,7 +51,8 @@ void orientation::compute_angles() {
         _yaw = -to_degrees(-atan2(_rotation(1, 0), _rotation(0, 0)));
     }
     if (std::isnan(_pitch)) {
-        _pitch = to_degrees(asin(_rotation(2, 0)));
+        // rounding can push the sine of a vertical orientation beyond one
+        _pitch = to_degrees(asin(max(-1.0, min(1.0, _rotation(2, 0)))));
     }
     if (std::isnan(_roll)) {
         _roll = -to_degrees(atan2(_rotation(2, 1), _rotation(2, 2)));
-- 
2.43.0


From 78648ba405607a5e6cf506ba1339666731ef3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 34/79] fix: direct paths computed by the receiver of a pair
 are mislabelled and have angles of the opposite direction

---
 sensors/sensor_pair.cc | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index bb79d6c..f769b7c 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -19,6 +19,7 @@
 #include <usml/types/wposition1.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <cmath>
 #include <sstream>
 
 using namespace usml::sensors;
@@ -90,27 +91,23 @@ void sensor_pair::update_wavefront_data(
         // eigenray collection has eigenray list for all targets near this
         // sensor find the eigenray list specific to this pair
 
-        auto sourceID = _source->keyID();
-        auto targetID = _receiver->keyID();
-        wposition1 source_pos(_source->position());
-        wposition1 receiver_pos(_receiver->position());
-        eigenray_list raylist = eigenrays->find_eigenrays(targetID);
-
-        // swap source/receiver sense of direct path eigenrays, if needed
-
-        if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
-            eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+        const auto sourceID = _source->keyID();
+        const auto targetID = _receiver->keyID();
+        eigenray_list raylist;
+
+        // reverse source/receiver sense of direct path eigenrays, if needed
+
+        if (_source != _receiver && sensor->keyID() == targetID) {
+            for (const auto& ray : eigenrays->find_eigenrays(sourceID)) {
                 auto* copy = new eigenray_model(*ray);
-                std::swap(copy->source_de, copy->target_de);
-                std::swap(copy->source_az, copy->target_az);
-                new_list.push_back(eigenray_model::csptr(copy));
+                copy->source_de = -ray->target_de;
+                copy->source_az = fmod(ray->target_az + 180.0, 360.0);
+                copy->target_de = -ray->source_de;
+                copy->target_az = fmod(ray->source_az + 180.0, 360.0);
+                raylist.push_back(eigenray_model::csptr(copy));
             }
-            raylist = new_list;  // replace original list
+        } else {
+            raylist = eigenrays->find_eigenrays(targetID);
         }
 
         // create new direct path collection with just rays for a single target
@@ -120,7 +117,7 @@ void sensor_pair::update_wavefront_data(
 
         auto* collection = new eigenray_collection(
             eigenrays->frequencies(), _source->position(),
-            wposition(receiver_pos), sourceID, receiverID,
+            wposition(_receiver->position()), sourceID, receiverID,
             eigenrays->coherent());
         for (const auto& ray : raylist) {
             collection->add_eigenray(0, 0, ray);
-- 
2.43.0


From 41608fc2423133b7fdfed264f6b0cebc5411cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 35/79] fix: acoustics recomputed whenever longitude, yaw, or
 roll cross 180 degrees

---
 sensors/sensor_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 48f7534..e00da32 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -168,11 +168,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && (
         update_type == FORCE_UPDATE || _needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| abs(remainder(p1.longitude() - p2.longitude(), 360.0)) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| abs(remainder(o1.yaw() - o2.yaw(), 360.0)) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| abs(remainder(o1.roll() - o2.roll(), 360.0)) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


From bc8fa6ec2d2922ecbf6a8f520c55cec4226d23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 36/79] fix: eigenverb_collection can not read the files it
 writes; crash for empty interfaces

---
 eigenverbs/eigenverb_collection.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..8b4b942 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,7 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
+    size_t num_freq = list.empty() ? 0 : list.front()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -245,14 +245,17 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     // dimensions
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
+    if (eigenverb_dim.isNull()) {
+        return;  // written without any eigenverbs
+    }
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar("frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -260,7 +263,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar("grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
-- 
2.43.0


From 217e5afb9cc0025fc69c62fc3ba85fe676df0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 37/79] fix: incoherent total of eigenrays adds amplitudes
 instead of intensities

---
 eigenrays/eigenray_collection.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..7a2b51a 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -142,7 +142,7 @@ void eigenray_collection::sum_eigenrays() {
                         std::complex<double> value(a * cos(p), a * sin(p));
                         phasor += value;
                     } else {
-                        phasor += a;
+                        phasor += a * a;  // sum of intensities
                     }
 
                     // other eigenray terms
@@ -168,7 +168,9 @@ void eigenray_collection::sum_eigenrays() {
 
                 // convert back into intensity (dB) and phase (radians) values
 
-                total.intensity(f) = -20.0 * log10(max(1e-15, abs(phasor)));
+                double amplitude =
+                    _coherent ? abs(phasor) : sqrt(abs(phasor));
+                total.intensity(f) = -20.0 * log10(max(1e-15, amplitude));
                 total.phase(f) = arg(phasor);
             }  // end frequency
 
-- 
2.43.0


From ceca43728868a0ce831df490035c927e5d075b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 38/79] fix: dead_reckon adds the motion of the source and uses
 source angles at the target

---
 eigenrays/eigenray_collection.cc | 18 ++++++++++++------
 eigenrays/eigenray_collection.h  |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 7a2b51a..a121451 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -364,9 +364,10 @@ eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
     eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile,
+                        true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -374,7 +375,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool is_source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -407,8 +409,10 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(is_source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(is_source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -416,9 +420,11 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, paths get shorter when
+        // the source moves toward the target
 
         const double dr =
+            (is_source ? -1.0 : 1.0) *
             (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..cd5b475 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,7 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param is_source True if the source has moved, false for the target.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +281,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool is_source);
 };
 
 /// @}
-- 
2.43.0


From 05c2a42007c131d1547a01947463378f451a5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 39/79] fix: dead_reckon moves sensors around the earth when
 they cross 180 degrees longitude

---
 eigenrays/eigenray_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index a121451..45634b3 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -381,7 +381,7 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
                      newpos.theta() - oldpos.theta(),
-                     newpos.phi() - oldpos.phi()};
+                     remainder(newpos.phi() - oldpos.phi(), TWO_PI)};
     dir[1] *= oldpos.rho();
     dir[2] *= oldpos.rho() * sin(oldpos.theta());
 
-- 
2.43.0


From b9584e5b173de919779dd929f9d8e85d0a031307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 40/79] fix: gc_range has no bearing for points closer than six
 meters

---
 types/wposition1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/wposition1.cc b/types/wposition1.cc
index bd49325..7b89130 100755
--- a/types/wposition1.cc
+++ b/types/wposition1.cc
@@ -72,7 +72,7 @@ double wposition1::gc_range(const wposition1& location, double* bearing) const {
     // compute bearing
 
     if (bearing != nullptr) {
-        if (abs(range) < 1e-6 || abs(lat1) < 1e-10) {
+        if (abs(range) < 1e-12 || abs(lat1) < 1e-10) {
             if (lat1 > 0) {  // starting from north pole
                 *bearing = M_PI;
             } else {  // starting from south pole
-- 
2.43.0


From 3ca6e301703b826097470b4253f0c56e18e6f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 41/79] fix: overlap of eigenverbs on opposite sides of the
 receiver beam ignores the sign of their offset

---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..27132b4 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * xs * ys * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From f670425eb31b0585c7833c2e32271af62d02546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 42/79] fix: size of eigenverb and biverb collections read
 without lock; write_netcdf locks biverbs twice

---
 biverbs/biverb_collection.cc      | 1 -
 biverbs/biverb_collection.h       | 1 +
 eigenverbs/eigenverb_collection.h | 1 +
 3 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 27132b4..e4703ae 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -193,7 +193,6 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
  */
 void biverb_collection::write_netcdf(const char* filename,
                                      size_t interface) const {
-    read_lock_guard guard(_mutex);
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
 
     switch (interface) {
diff --git a/biverbs/biverb_collection.h b/biverbs/biverb_collection.h
index 5d90be7..ae4da05 100644
--- a/biverbs/biverb_collection.h
+++ b/biverbs/biverb_collection.h
@@ -72,6 +72,7 @@ class USML_DECLSPEC biverb_collection {
      *                  this number.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
diff --git a/eigenverbs/eigenverb_collection.h b/eigenverbs/eigenverb_collection.h
index 1a2be57..552b4d1 100644
--- a/eigenverbs/eigenverb_collection.h
+++ b/eigenverbs/eigenverb_collection.h
@@ -84,6 +84,7 @@ class USML_DECLSPEC eigenverb_collection : public eigenverb_listener {
      * @param interface Interface number of the desired list of eigenverbs.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
-- 
2.43.0


From bb1883f8e475454d30a5249008d122e21c3db297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 43/79] fix: reverberation time series adds levels that are
 factors of the intensity

---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..0d166c4 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -95,7 +95,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     bvector src_arrival(verb->source_de, verb->source_az);
     src_arrival.rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -110,7 +110,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From 50417b6170c611a2a2be6015b72c90e26f4e8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 44/79] fix: reverberation time series is not initialized and
 uses beam numbers as rows

---
 rvbts/rvbts_collection.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 0d166c4..eb97541 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,7 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(receiver->rcv_num_keys(), travel_times->size(), 0.0) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
@@ -89,6 +89,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     // compute source level for this transmission
 
     bp_model::csptr src_beam = _source->src_beam(transmit->transmit_mode);
+    if (src_beam == nullptr) {
+        return;
+    }
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
@@ -102,10 +105,19 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        if (channel >= _time_series.size1()) {
+            break;  // beams added since construction
+        }
+        const size_t row = channel++;
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
+        if (rcv_beam == nullptr) {
+            continue;
+        }
         bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
@@ -119,7 +131,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0


From c38ee9d3524894f0cc7b9dff32ff348888caaed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 45/79] fix: reverberation power at the transmit frequency is
 read beyond its end and ignores duration

---
 rvbts/rvbts_collection.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index eb97541..a7a545d 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -78,12 +78,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
+        verb_level *= transmit->duration;
     }
 
     // compute source level for this transmission
-- 
2.43.0


From 9e950b2f8f9ed78942db7ca4716c946fe74d5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 46/79] fix: reverberation time series leaves out the last
 samples of each contribution

---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index a7a545d..0af96ef 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -11,6 +11,7 @@
 #include <usml/ublas/math_traits.h>
 #include <usml/ublas/vector_math.h>
 
+#include <algorithm>
 #include <boost/numeric/ublas/fwd.hpp>
 #include <boost/numeric/ublas/storage.hpp>
 #include <boost/numeric/ublas/vector.hpp>
@@ -63,7 +64,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = _travel_times->find_index(delay + 5.0 * duration);
-    range window(first, last);
+    range window(first, std::min(last + 2, _travel_times->size()));
 
     // update Gaussian time series in this window
 
-- 
2.43.0


From 27fd1df2603c413dbf5f85809cfd28c78c99542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 47/79] fix: reverberation beams use radians as degrees and
 rotate away from the array

---
 rvbts/rvbts_collection.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 0af96ef..6cd8a4e 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -29,6 +29,15 @@ using namespace usml::rvbts;
  */
 double rvbts_collection::power_threshold = 1e-20;
 
+/**
+ * Converts angles of an eigenverb (radians, world coordinates) into an arrival
+ * vector in the coordinates of an array.
+ */
+static bvector array_arrival(double de, double az, const orientation &orient) {
+    bvector arrival(to_degrees(de), to_degrees(az));
+    return bvector(prod(trans(orient.rotation()), arrival.data()));
+}
+
 /**
  * Initialize model parameters with state of sensor_pair at the time that
  * reverberation generator was created.
@@ -94,8 +103,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
+    bvector src_arrival = array_arrival(verb->source_de, verb->source_az, _source_orient);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
@@ -117,8 +125,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         if (rcv_beam == nullptr) {
             continue;
         }
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        bvector rcv_arrival = array_arrival(verb->receiver_de, verb->receiver_az, _receiver_orient);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
         double rcv_level = src_level * verb_level * level[0];
-- 
2.43.0


From a4446e2dd9e3eddd92cab3dbab402e278f040491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 48/79] fix: pulses of a transmit schedule all start at the
 same time

---
 rvbts/rvbts_collection.cc | 5 +++--
 rvbts/rvbts_collection.h  | 3 ++-
 rvbts/rvbts_generator.cc  | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 6cd8a4e..af9f01a 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -64,13 +64,14 @@ rvbts_collection::rvbts_collection(
  */
 void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
                                   const transmit_model::csptr &transmit,
-                                  const bvector &steering) {
+                                  const bvector &steering, double previous) {
     static const double SQRT_TWO_PI = sqrt(TWO_PI);
 
     // find range of time indices to update
 
     const auto duration = verb->duration + transmit->duration;
-    const auto delay = transmit->delay + verb->travel_time + duration;
+    const auto delay =
+        previous + transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = _travel_times->find_index(delay + 5.0 * duration);
     range window(first, std::min(last + 2, _travel_times->size()));
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index e068708..f6f9505 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -119,10 +119,11 @@ class USML_DECLSPEC rvbts_collection {
      * @param verb	   	Bistatic eigenverb for time series contribution.
      * @param transmit	Single waveform in a transmission schedule.
      * @param steering 	Transmit steering relative to source array.
+     * @param previous 	Completion of the previous pulse in the schedule (sec).
      */
     void add_biverb(const biverb_model::csptr& verb,
                     const transmit_model::csptr& transmit,
-                    const bvector& steering);
+                    const bvector& steering, double previous = 0.0);
 
     /**
      * Writes reverberation time series data to disk.
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index b250975..363226e 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -104,10 +104,12 @@ void rvbts_generator::run() {
         auto verb_list = _biverbs->biverbs(interface);
         for (const auto& verb : verb_list) {
             int n = 0;
+            double previous = 0.0;  // completion of previous pulse
             for (const auto& transmit : _transmit_schedule) {
                 bvector steering(
                     matrix_column<matrix<double> >(_source_steering, n));
-                collection->add_biverb(verb, transmit, steering);
+                collection->add_biverb(verb, transmit, steering, previous);
+                previous += transmit->delay + transmit->duration;
                 if (_abort) {
                     cout << "task #" << id()
                          << " rvbts_generator *** aborted during execution ***"
-- 
2.43.0


From d7316a29d7a2deecd70c64f9926a39f48d390d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 49/79] fix: area of a triangle is NaN when its corners are on
 a line

---
 types/wvector1.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..26f843d 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -135,6 +135,15 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     dir->phi(atan2(y, x));
 }
 
+/**
+ * Area of a triangle from the lengths of its sides. Rounding errors for points
+ * on a line are limited to an area of zero.
+ */
+static double heron(double a, double b, double c) {
+    return 0.25 *
+           sqrt(max(0.0, (a + b + c) * (b + c - a) * (c + a - b) * (a + b - c)));
+}
+
 /**
  * Compute the surface area between three points in space.
  */
@@ -142,7 +151,7 @@ double wvector1::area(const wvector1& p2, const wvector1& p3) const {
     const double a = distance(p2);
     const double b = distance(p3);
     const double c = p2.distance(p3);
-    return 0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+    return heron(a, b, c);
 }
 
 /**
@@ -155,15 +164,13 @@ double wvector1::area(const wvector1& p2, const wvector1& p3,
     double a = distance(p2);
     const double b = distance(p3);
     double c = p2.distance(p3);
-    const double area1 =
-        0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+    const double area1 = heron(a, b, c);
 
     // compute area of triangle (this,p3,p4)
 
     a = distance(p4);
     c = p4.distance(p3);
-    const double area2 =
-        0.25 * sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c));
+    const double area2 = heron(a, b, c);
 
     return area1 + area2;
 }
-- 
2.43.0


From 959c3a09e357e32863e1936169f370e537bd120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 50/79] fix: sum of beam patterns is off by one

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..d46f384 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            _type == bp_multi_type::sum ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From 4361c90fd0ddf61e209e33801b0985eaa10693f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 51/79] fix: directivity is added to the previous contents of
 its output

---
 beampatterns/bp_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..824319f 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -29,6 +29,8 @@ void bp_model::beam_level(const bvector& arrival, const orientation& orient,
 void bp_model::directivity(const seq_vector::csptr& frequencies,
                            vector<double>* level, const bvector& steering,
                            double sound_speed) const {
+    *level = scalar_vector<double>(frequencies->size(), 0.0);
+
     // loop over all solid angles
 
     vector<double> beam(frequencies->size(), 0.0);
-- 
2.43.0


From ab40e198e79102ed919191cdd1050ac359012857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 52/79] fix: bp_solid and bp_gaussian do not wrap azimuth
 differences below -180

---
 beampatterns/bp_gaussian.cc | 2 +-
 beampatterns/bp_solid.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..f3faae2 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -34,7 +34,7 @@ void bp_gaussian::beam_level(const bvector& arrival,
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
         az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(fmod(az + 540.0, 360.0) - 180);
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..cbe6158 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -27,7 +27,7 @@ void bp_solid::beam_level(const bvector& arrival,
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(fmod(az + 540.0, 360.0) - 180);
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From c88ce1976594118179a3324f5afa18ab7f348dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 53/79] fix: baffled beam patterns return NaN if the output was
 not initialized

---
 beampatterns/bp_arb.cc    | 2 +-
 beampatterns/bp_piston.cc | 2 +-
 beampatterns/bp_planar.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_arb.cc b/beampatterns/bp_arb.cc
index f93ca3a..e930d8e 100644
--- a/beampatterns/bp_arb.cc
+++ b/beampatterns/bp_arb.cc
@@ -23,7 +23,7 @@ void bp_arb::beam_level(const bvector& arrival,
 
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = scalar_vector<double>(frequencies->size(), 0.0);
             return;
         }
     }
diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..77758c9 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -24,7 +24,7 @@ void bp_piston::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = scalar_vector<double>(frequencies->size(), 0.0);
             return;
         }
     }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index 6f965d8..cfe9969 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -41,7 +41,7 @@ void bp_planar::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = scalar_vector<double>(frequencies->size(), 0.0);
             return;
         }
     }
-- 
2.43.0


From 76b5e683ff571efe90e0db4a9ce3a1fdfb0fa578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 54/79] fix: directivity of bp_piston does not match its
 documentation

---
 beampatterns/bp_piston.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index 77758c9..f18afe3 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -46,7 +46,7 @@ void bp_piston::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& /*steering*/,
                             double sound_speed) const {
     *level = frequencies->data();
-    *level /= (sound_speed * M_PI * _diameter);
+    *level = abs2(sound_speed / (M_PI * _diameter * (*level)));
     if (_back_baffle) {
         *level *= 0.5;
     }
-- 
2.43.0


From 89ba803aac542e34136b2dd221ffa606c8c95540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 55/79] fix: bp_model::beam_level rotates away from the array

---
 beampatterns/bp_model.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 824319f..5651451 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -18,8 +18,7 @@ void bp_model::beam_level(const bvector& arrival, const orientation& orient,
                           const seq_vector::csptr& frequencies,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
-    bvector rotated;
-    rotated.rotate(orient, arrival);
+    bvector rotated(prod(trans(orient.rotation()), arrival.data()));
     this->beam_level(rotated, frequencies, level, steering, sound_speed);
 }
 
-- 
2.43.0


From 31702cb396fdd1bc5f2f36462049d0a004197ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 56/79] fix: rounding errors at grating lobes of bp_line and
 bp_planar

---
 beampatterns/bp_line.cc   | 1 +
 beampatterns/bp_planar.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/beampatterns/bp_line.cc b/beampatterns/bp_line.cc
index a0affe4..dd2b4f5 100644
--- a/beampatterns/bp_line.cc
+++ b/beampatterns/bp_line.cc
@@ -19,6 +19,7 @@ void bp_line::beam_level(const bvector& arrival,
                            : arrival.up() - steering.up();
     *level = frequencies->data();
     *level *= M_PI * _spacing / sound_speed * dot;
+    *level -= M_PI * floor(*level / M_PI + 0.5);  // accurate grating lobes
     *level = abs2(element_div(sin(_num_elements * (*level)) + 1e-200,
                               sin(*level) * _num_elements + 1e-200));
 }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index cfe9969..67252bc 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -50,6 +50,7 @@ void bp_planar::beam_level(const bvector& arrival,
     double dot = arrival.up() - steering.up();
     vector<double> kd = frequencies->data();
     kd *= M_PI * _spacing_up / sound_speed * dot;
+    kd -= M_PI * floor(kd / M_PI + 0.5);  // accurate grating lobes
     *level = abs2(element_div(sin(_num_elem_up * kd) + 1e-200,
                               sin(kd) * _num_elem_up + 1e-200));
 
@@ -57,6 +58,7 @@ void bp_planar::beam_level(const bvector& arrival,
     dot = arrival.right() - steering.right();
     kd = frequencies->data();
     kd *= M_PI * _spacing_right / sound_speed * dot;
+    kd -= M_PI * floor(kd / M_PI + 0.5);  // accurate grating lobes
     *level = element_prod(
         *level, abs2(element_div(sin(_num_elem_right * kd) + 1e-200,
                                  sin(kd) * _num_elem_right + 1e-200)));
-- 
2.43.0


From 4f6282447dee43d19fb897c173a66e8dbfa66646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 57/79] fix: frequencies of transmitted waveforms have the
 wrong sign

---
 transmit/transmit_cw.cc  | 2 +-
 transmit/transmit_lfm.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmit/transmit_cw.cc b/transmit/transmit_cw.cc
index 06245ca..499695f 100755
--- a/transmit/transmit_cw.cc
+++ b/transmit/transmit_cw.cc
@@ -37,7 +37,7 @@ cdvector transmit_cw::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(omega * t + inphase);
+    cdvector signal = usml::ublas::conj(usml::ublas::asignal(omega * t + inphase));
     add_window(signal);
     return signal;
 }
diff --git a/transmit/transmit_lfm.cc b/transmit/transmit_lfm.cc
index f48da4c..cb6994c 100644
--- a/transmit/transmit_lfm.cc
+++ b/transmit/transmit_lfm.cc
@@ -40,8 +40,8 @@ cdvector transmit_lfm::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(slope * T * T + omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(slope * usml::ublas::abs2(t) +
-                                           omega * t + inphase);
+    cdvector signal = usml::ublas::conj(usml::ublas::asignal(
+        slope * usml::ublas::abs2(t) + omega * t + inphase));
     add_window(signal);
     return signal;
 }
-- 
2.43.0


From ba507ed5f86992c95718ce6bd26d07c0f8fc8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 58/79] fix: kaiser window is not symmetric

---
 transmit/window.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transmit/window.h b/transmit/window.h
index 38444cf..25b340c 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -101,8 +101,10 @@ class USML_DECLSPEC window {
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - (x[n] - M) / M)) /
-                   std::cyl_bessel_i(0.0, beta);
+            const double y = (x[n] - M) / M;
+            x[n] =
+                std::cyl_bessel_i(0.0, beta * sqrt(max(0.0, 1.0 - y * y))) /
+                std::cyl_bessel_i(0.0, beta);
         }
         return x;
     }
-- 
2.43.0


From 93accd016bac36e0fd9eea23055e0cfe6ea387c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 59/79] fix: windows with a single point are NaN

---
 transmit/window.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transmit/window.h b/transmit/window.h
index 25b340c..1e69f4a 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -73,6 +73,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hann(size_t N) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const double M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.5 * (1.0 - cos((TWO_PI / M) * x));
@@ -85,6 +88,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hamming(size_t N) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const int M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.54 - 0.46 * cos((TWO_PI / M) * x);
@@ -98,6 +104,9 @@ class USML_DECLSPEC window {
      * @return			Vector of window samples.
      */
     static vector<double> kaiser(size_t N, double beta) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-- 
2.43.0


From 6509a172358eedf22a5c18c67c703ea39057046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 60/79] fix: boundary_slope keeps a reference to its
 constructor's argument

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From 3312b6b4ea74fb5d7284510630c3a9a588d52e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 61/79] fix: profile_grid leaves horizontal gradients unset

---
 ocean/profile_grid.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..eb75707 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -67,6 +67,9 @@ class profile_grid : public profile_model {
      */
     void sound_speed(const wposition& location, matrix<double>* speed,
                      wvector* gradient = nullptr) const override {
+        if (gradient) {
+            gradient->clear();
+        }
         switch (NUM_DIMS) {
                 //***************
                 // 1-D grids
-- 
2.43.0


From 190d3a9b8cd94a347fd84c5f05f8b19fb8b492a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 62/79] fix: phase of reflect_loss_rayleigh is off by 180
 degrees

---
 ocean/reflect_loss_rayleigh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocean/reflect_loss_rayleigh.cc b/ocean/reflect_loss_rayleigh.cc
index bcafc88..c3c7321 100644
--- a/ocean/reflect_loss_rayleigh.cc
+++ b/ocean/reflect_loss_rayleigh.cc
@@ -113,8 +113,9 @@ void reflect_loss_rayleigh::reflect_loss(const wposition1& /*location*/,
     }
 
     // compute complex reflection coefficient
+    // (Zb and Zw are the inverse of the acoustic impedances)
 
-    complex<double> R = (Zb - Zw) / (Zb + Zw);
+    complex<double> R = (Zw - Zb) / (Zw + Zb);
     noalias(*amplitude) =
         -20.0 * log10(abs(R)) * scalar_vector<double>(frequencies->size(), 1.0);
     if (phase != nullptr) {
-- 
2.43.0


From 961888b12a709e447a48284f8f77e0dfd1e97446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 63/79] fix: netcdf files can not be read west of their first
 longitude

---
 netcdf/netcdf_bathy.cc   | 16 +++++++++++++++-
 netcdf/netcdf_profile.cc | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/netcdf/netcdf_bathy.cc b/netcdf/netcdf_bathy.cc
index 18d5914..54e71fe 100644
--- a/netcdf/netcdf_bathy.cc
+++ b/netcdf/netcdf_bathy.cc
@@ -83,6 +83,18 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
             }
         }
     }
+    if (global) {
+        // start the area inside of the first turn around the earth
+        if (west + offset < value0 - 1e-6) {
+            offset += 360.0;
+        } else if (west + offset >= value0 + 360.0 - 1e-6) {
+            offset -= 360.0;
+        }
+    } else if (east + offset < value0 && west + offset + 360.0 <= valueN) {
+        offset += 360.0;
+    } else if (west + offset > valueN && east + offset - 360.0 >= value0) {
+        offset -= 360.0;
+    }
     west += offset;
     east += offset;
 
@@ -115,7 +127,9 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     int index = int(floor(1e-6 + (west - value0) / inc));
     const int lng_first = (global) ? index : max(0, index);
     index = int(floor(0.5 + (east - value0) / inc));
-    const int lng_last = (global) ? index : min(int(lng_index_max), index);
+    const int lng_last =
+        (global) ? min(int(lng_first + lng_index_max + 1 - duplicate), index)
+                 : min(int(lng_index_max), index);
     const size_t lng_num = lng_last - lng_first + 1;
     _axis[1] = seq_vector::csptr(
         new seq_linear(to_radians(lng_first * inc + value0 - offset),
diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index bbc9b14..463a0df 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -114,6 +114,18 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
             }
         }
     }
+    if (global) {
+        // start the area inside of the first turn around the earth
+        if (west + offset < value0 - 1e-6) {
+            offset += 360.0;
+        } else if (west + offset >= value0 + 360.0 - 1e-6) {
+            offset -= 360.0;
+        }
+    } else if (east + offset < value0 && west + offset + 360.0 <= valueN) {
+        offset += 360.0;
+    } else if (west + offset > valueN && east + offset - 360.0 >= value0) {
+        offset -= 360.0;
+    }
     west += offset;
     east += offset;
 
@@ -146,7 +158,9 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     int index = int(floor(1e-6 + (west - value0) / inc));
     const int lng_first = (global) ? index : max(0, index);
     index = int(floor(0.5 + (east - value0) / inc));
-    const int lng_last = (global) ? index : min(int(lng_index_max), index);
+    const int lng_last =
+        (global) ? min(int(lng_first + lng_index_max + 1 - duplicate), index)
+                 : min(int(lng_index_max), index);
     const size_t lng_num = lng_last - lng_first + 1;
     _axis[2] = seq_vector::csptr(
         new seq_linear(to_radians(lng_first * inc + value0 - offset),
-- 
2.43.0


From 4c817d816790d931a53a32eabb35b983756297f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 64/79] fix: fill_missing replaces valid data and extrapolates
 in the wrong direction

---
 netcdf/netcdf_profile.cc | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 463a0df..85e0aad 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -357,19 +357,10 @@ void netcdf_profile::fill_missing() {
                     const size_t prev[] = {d - 1, j, k};
                     const double v =
                         replace.data(prev) +
-                        replace_grad(d)(j, k) * abs(depth->increment(d - 1));
+                        replace_grad(d)(j, k) * depth->increment(d - 1);
                     replace.setdata(index, v);
                     w *= 2.0;
                 }
-            } else {
-                replace_grad(max_depth)(j, k) =
-                    replace_grad(max_depth)(j, k) / w;
-                const size_t index[] = {max_depth, j, k};
-                const size_t prev[] = {max_depth - 1, j, k};
-                const double v = replace.data(prev) +
-                                 replace_grad(max_depth)(j, k) *
-                                     abs(depth->increment(max_depth - 1));
-                replace.setdata(index, v);
             }  // end if( max_depth+1 < ndepth )
         }      // end for k<nlon
     }          // end for j<nlat
-- 
2.43.0


From 45d7baf5f5f964f2246ad4151850e6a5a32e8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 65/79] fix: scale_factor is ignored in netcdf profiles without
 add_offset

---
 netcdf/netcdf_profile.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 85e0aad..1267335 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -24,8 +24,8 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     netCDF::NcFile file(fname, netCDF::NcFile::FileMode::read);
 
     double missing = NAN;       // default value for missing information
-    double scale_factor = NAN;  // default value for scale_factor
-    double add_offset = NAN;    // default value for add_offset
+    double scale_factor = 1.0;  // default value for scale_factor
+    double add_offset = 0.0;    // default value for add_offset
     netCDF::NcVar longitude;
     netCDF::NcVar latitude;
     netCDF::NcVar altitude;
-- 
2.43.0


From ae7d779259caa958b4529a6d76f6c680aa9ab8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 66/79] fix: blank lines at the end of an ascii_profile add
 garbage

---
 ocean/ascii_profile.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 88c8ad0..1651c84 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -27,7 +27,9 @@ ascii_profile::ascii_profile(const char *filename) {
     size_t size = 0;
     std::string line;
     while (getline(infile, line)) {
-        ++size;
+        if (line.find_first_not_of(" \t\r") != std::string::npos) {
+            ++size;  // ignore blank lines
+        }
     }
     infile.clear();
     infile.seekg(0);
-- 
2.43.0


From a330ebddd9daca896582b8ecd9bc4c1367975b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 67/79] fix: netcdf data from -180 to 179 degrees is not
 recognised as global

---
 netcdf/netcdf_bathy.cc   | 2 +-
 netcdf/netcdf_profile.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/netcdf_bathy.cc b/netcdf/netcdf_bathy.cc
index 54e71fe..24ca76e 100644
--- a/netcdf/netcdf_bathy.cc
+++ b/netcdf/netcdf_bathy.cc
@@ -47,7 +47,7 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
 
     // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    bool bounds_180 = value0 < -179.0 && valueN >= 179.0;
 
     // Is this set a global data set
     bool global = (zero_to_360 || bounds_180);
diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 1267335..cb19f2d 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -78,7 +78,7 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
 
     // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
+    bool bounds_180 = value0 < -179.0 && valueN >= 179.0;
 
     // Is this set a global data set
     bool global = (zero_to_360 || bounds_180);
-- 
2.43.0


From 9002077082caaf8850ba6a29c97dc7d30ea2254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 68/79] fix: fill_missing gives NaN when only the surface has
 data

---
 netcdf/netcdf_profile.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index cb19f2d..3de3e2e 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -261,7 +261,8 @@ void netcdf_profile::fill_missing() {
     size_t max_depth = 0;
     for (size_t d = 0; d < ndepth; ++d) {
         replace_grad(d) = zero_matrix<double>(nlat, nlon);
-        profile_grad(d) = scalar_matrix<double>(nlat, nlon, NAN);
+        profile_grad(d) =
+            scalar_matrix<double>(nlat, nlon, d > 0 ? NAN : 0.0);
         if (d > 0) {
             for (size_t j = 0; j < nlat; ++j) {
                 for (size_t k = 0; k < nlon; ++k) {
-- 
2.43.0


From afdc7b16b0c470e3ee54a2b7d50d710e957231f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 69/79] fix: ray fans like -60 to 60 degrees are taken for full
 circles

---
 waveq3d/wave_queue.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..a05ff14 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -46,10 +46,9 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
       _nc_file(nullptr) {
     _az_boundary = false;
     if (_source_az->size() > 1) {
-        const double az_first = abs((*_source_az)(0));
-        const double az_last = abs((*_source_az)(_source_az->size() - 1));
-        _az_boundary =
-            (fmod(az_first + 360.0, 360.0) == fmod(az_last + 360.0, 360.0));
+        const double az_first = (*_source_az)(0);
+        const double az_last = (*_source_az)(_source_az->size() - 1);
+        _az_boundary = abs(abs(az_last - az_first) - 360.0) < 1e-6;
     }
     if (_target_pos != nullptr) {
         _targets_sin_theta = sin(_target_pos->theta());
-- 
2.43.0


From f03ef9d5dacb358e0a9bde09d8a9c121fcefec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 70/79] fix: third Runge-Kutta stage after reflections uses
 stale derivatives

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From 3051c79837588f66825e4059c5b869ca325bc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 71/79] fix: eigenrays with NaN intensity are not ignored

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index a05ff14..52f68b9 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -581,7 +581,7 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
 
     const vector<double> spread_intensity = _spreading_model->intensity(
         wposition1(*(_curr->targets), t1, t2), de, az, offset, distance);
-    for (size_t i = 0; i < ray->intensity.size(); ++i) {
+    for (size_t i = 0; i < spread_intensity.size(); ++i) {
         if (std::isnan(spread_intensity(i))) {
             #ifdef USML_DEBUG
                 std::cerr << "warning: wave_queue::build_eigenray()" << endl
-- 
2.43.0


From df8c5f672100b7cdf8b5cbe1b40a8aba5912fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 72/79] fix: eigenverbs of volume layers are placed on the
 ocean surface

---
 waveq3d/wave_queue.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 52f68b9..9dd5a4a 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -316,8 +316,7 @@ void wave_queue::detect_volume_scattering(size_t de, size_t az) {
 
         double c = _curr->sound_speed(de, az);
         const double d = c * c * _curr->ndirection.rho(de, az);
-        double time_water =
-            (d == 0.0) ? 0.0 : -_curr->position.altitude(de, az) / d;
+        double time_water = (d == 0.0) ? 0.0 : d2 / d;
 
         // compute the precise values for position, direction,
         // sound speed, and grazing angle at the point of collision
-- 
2.43.0


From c003d7f3306b4454976cd8efc5080418914f28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 73/79] fix: listeners to bottom reflections get directions
 that are not normalized

---
 waveq3d/reflection_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 911b77a..b052293 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -110,6 +110,7 @@ bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
     c2 = c * c;
     height_water = position.rho() - bottom_rho;
 
+    const wvector1 incident(ndirection);  // normalized direction
     ndirection.rho(c2 * ndirection.rho());
     ndirection.theta(c2 * ndirection.theta());
     ndirection.phi(c2 * ndirection.phi());
@@ -138,7 +139,7 @@ bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
     if (_wave.has_reflection_listeners()) {
         _wave.notify_reflection_listeners(_wave.time() + time_water, de, az,
                                           time_water, grazing, c, position,
-                                          ndirection, eigenverb_model::BOTTOM);
+                                          incident, eigenverb_model::BOTTOM);
     }
 
     // invoke bottom reverberation callback
-- 
2.43.0


From 447bd667f7598ca5acd9a8b92178935413e1fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 74/79] fix: losses of reflections are missing in eigenverbs
 later in the same step

---
 waveq3d/reflection_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index b052293..1f68bf6 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -151,12 +151,15 @@ bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
 
     // compute reflection loss
     // adds reflection attenuation and phase to existing value
+    // includes curr entry, so that interactions that follow this reflection
+    // in the same time step also have this loss
 
     vector<double> amplitude(_wave._frequencies->size());
     vector<double> phase(_wave._frequencies->size());
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude,
                            &phase);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
+        _wave._curr->attenuation(de, az)(f) += amplitude(f);
         _wave._next->attenuation(de, az)(f) += amplitude(f);
         _wave._next->phase(de, az)(f) += phase(f);
     }
@@ -227,10 +230,13 @@ bool reflection_model::surface_reflection(size_t de, size_t az) {
 
     // compute reflection loss
     // adds reflection attenuation and phase to existing value
+    // includes curr entry, so that interactions that follow this reflection
+    // in the same time step also have this loss
 
     vector<double> amplitude(_wave._frequencies->size());
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
+        _wave._curr->attenuation(de, az)(f) += amplitude(f);
         _wave._next->attenuation(de, az)(f) += amplitude(f);
         _wave._next->phase(de, az)(f) -= M_PI;
     }
-- 
2.43.0


From 52e7b90ecda6249d7b42fee4462f5b16caabd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 75/79] fix: eigenverbs below the eigenverb threshold are
 leaked

---
 waveq3d/wave_queue.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 9dd5a4a..df4dbcd 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -1107,7 +1107,7 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     }
     const double sin_grazing = sin(grazing);
 
-    auto* verb = new eigenverb_model();
+    eigenverb_model::csptr verb(new eigenverb_model());
     verb->length = 0.5 * path_length * de_delta / sin_grazing;
     verb->width = 0.5 * path_length * az_delta;
 
@@ -1158,5 +1158,5 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
          << "\tsurface=" << verb->surface << " bottom=" << verb->bottom
          << " caustic=" << verb->caustic << endl;
 #endif
-    notify_eigenverb_listeners(eigenverb_model::csptr(verb), type);
+    notify_eigenverb_listeners(verb, type);
 }
-- 
2.43.0


From 6c04983445e04310888a1cc36c51b46b078a0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 76/79] fix: arrival azimuths of eigenrays are wrong for
 targets south of the source

---
 waveq3d/wave_queue.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index df4dbcd..4feaed5 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -682,6 +682,18 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
         }
     }
 
+    // remove the jumps of 360 degrees between rays on each side of due south
+
+    const double az_center = distance2[1][1][1];
+    for (size_t n = 0; n < 3; ++n) {
+        for (size_t nde = 0; nde < 3; ++nde) {
+            for (size_t naz = 0; naz < 3; ++naz) {
+                distance2[n][nde][naz] = az_center +
+                    remainder(distance2[n][nde][naz] - az_center, 360.0);
+            }
+        }
+    }
+
     make_taylor_coeff(distance2, delta, center, gradient, hessian);
     ray->target_az = center + inner_prod(gradient, offset) +
                      0.5 * inner_prod(offset, prod(hessian, offset));
-- 
2.43.0


From 8caae581470794ac6b06f431b6a60345bf216cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 77/79] fix: intensity west of the first ray of a full circle
 reads outside of the wavefront

---
 waveq3d/spreading_ray.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waveq3d/spreading_ray.cc b/waveq3d/spreading_ray.cc
index aa5ea63..d8a7d3b 100644
--- a/waveq3d/spreading_ray.cc
+++ b/waveq3d/spreading_ray.cc
@@ -53,7 +53,11 @@ const vector<double>& spreading_ray::intensity(
         --de;
     }
     if (offset(2) < 0.0) {
-        --az;
+        if (az > 0) {
+            --az;
+        } else if (_wave._az_boundary) {
+            az = _wave._max_az - 1;  // wrap around full circle
+        }
     }
 
     // get sound speed at target
-- 
2.43.0


From 8376ddfb74746bd474a038ed4b673164128af595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 78/79] fix: eigenrays across the date line are missing or have
 the wrong launch angle

---
 waveq3d/wave_front.cc | 13 ++++++++++++-
 waveq3d/wave_queue.cc |  5 +++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/waveq3d/wave_front.cc b/waveq3d/wave_front.cc
index 259fbc8..315ff42 100755
--- a/waveq3d/wave_front.cc
+++ b/waveq3d/wave_front.cc
@@ -223,13 +223,24 @@ void wave_front::compute_target_distance() {
     for (size_t n1 = 0; n1 < targets->size1(); ++n1) {
         for (size_t n2 = 0; n2 < targets->size2(); ++n2) {
             wvector1 from(*targets, n1, n2);
+
+            // longitude difference, limited to half of the earth
+            // because target and rays may be on opposite sides of the date line
+
+            matrix<double> delta_phi(position.phi());
+            for (auto& delta : delta_phi.data()) {
+                delta -= from.phi();
+                if (abs(delta) > M_PI) {
+                    delta = remainder(delta, TWO_PI);
+                }
+            }
             // clang-format off
             noalias(distance2(n1,n2)) = abs(
                 abs2(position.rho()) + from.rho()*from.rho() - 2.0 * from.rho()
                 * element_prod( position.rho(), 1.0 - 2.0 * (
                 abs2(0.5*(position.theta()-from.theta()))
                 + (*_target_sin_theta)(n1,n2) * element_prod( _sin_theta,
-                abs2(0.5*(position.phi()-from.phi())) )) ) );
+                abs2(0.5*delta_phi) )) ) );
             // clang-format on
         }
     }
diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 4feaed5..f1c97da 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -910,8 +910,9 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
             c_vector<double, 3> tgt_dir;
             tgt_dir[0] = _target_pos->rho(t1, t2) - cpa.rho();
             tgt_dir[1] = (_target_pos->theta(t1, t2) - cpa.theta()) * cpa.rho();
-            tgt_dir[2] = (_target_pos->phi(t1, t2) - cpa.phi()) * cpa.rho() *
-                         sin(cpa.theta());
+            tgt_dir[2] =
+                remainder(_target_pos->phi(t1, t2) - cpa.phi(), TWO_PI) *
+                cpa.rho() * sin(cpa.theta());
 
             // switch the sign of distance and offset if target and DE+1 ray
             // on opposite sides of CPA ray in rho direction
-- 
2.43.0


From 15b1872dcb2b578383d83462730695c1c7cc3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 79/79] fix: eigenrays have launch angles and times far outside
 of their ray when the offset is ill-conditioned

---
 waveq3d/wave_queue.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index f1c97da..8ffb92f 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -816,9 +816,20 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
         inverse(2, 2) =
             hessian(0, 0) * hessian(1, 1) - hessian(0, 1) * hessian(1, 0);
         inverse /= determinant;
+        const c_vector<double, 3> save_offset(offset);
         noalias(offset) = prod(inverse, -gradient);
         unstable = unstable || abs(offset(1)) >= 0.5 * abs(delta(1));
 
+        // keep offsets from the diagonals if the inverse is ill-conditioned
+
+        for (size_t n = 0; n < 3; ++n) {
+            if (!(abs(offset(n)) <= abs(delta(n)))) {
+                unstable = true;
+                offset = save_offset;
+                break;
+            }
+        }
+
         // if unstable, try computing 2x2 inverse in time, AZ
 
     } else {
-- 
2.43.0

