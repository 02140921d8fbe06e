From abc27fa778f662e2731fd2790a64e9d984d17bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 01/71] fix: release the data already protected when a
 GuardedPtr is move-assigned

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp       |  4 ++--
 .../cpp_utils/memory/impl/GuardedPtr.ipp       | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..5d781b5 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator: releases the data currently protected by this object (if any)
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..52cf2f6 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -31,6 +31,24 @@ GuardedPtr<T>::GuardedPtr(
     // Do nothing
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // The data protected so far must be unlocked, as no one else would do it
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+
+        data_reference_ = std::move(other.data_reference_);
+    }
+
+    return *this;
+}
+
 template<typename T>
 GuardedPtr<T>::~GuardedPtr()
 {
-- 
2.43.0


From 56562fef8d0f1339e2eff9c6a2d63339ab5f1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 02/71] fix: data race between LesseePtr validity check and the
 release of the data

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 6 ++++--
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..4fac22b 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,8 @@
 
 #pragma once
 
+#include <atomic>
+#include <functional>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -125,8 +127,8 @@ protected:
     // INTERNAL VARIABLES
     ////////////////////////////
 
-    //! Pointer to the internal data
-    T* reference_;
+    //! Pointer to the internal data (atomic as its validity could be checked without locking the mutex)
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..fbeef0c 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.load())
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
-- 
2.43.0


From 5100f20aa6d2e4192e8afb955b7888abec550371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 03/71] fix: keep the data locked while it is used through
 LesseePtr::operator->

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
index cc1141d..c1b9210 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
@@ -115,11 +115,11 @@ public:
      * This operator will acces the internal data if this still exist, and lock it while using.
      * If the data do not further exist, it will raise an exception.
      *
-     * @return Internal data ptr
+     * @return Guarded access to the internal data, that keeps it locked until the end of the full expression.
      *
      * @throw ValueAccessException in case internal data no longer exists.
      */
-    T* operator ->() const;
+    GuardedPtr<T> operator ->() const;
 
     /**
      * @brief Access operator to internal ptr with exception calls in failure cases.
diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 7e61dca..6b1d119 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -39,9 +39,9 @@ LesseePtr<T>::LesseePtr(
 ///////////////////////
 
 template<typename T>
-T* LesseePtr<T>::operator ->() const
+GuardedPtr<T> LesseePtr<T>::operator ->() const
 {
-    return this->lock_with_exception().operator ->();
+    return this->lock_with_exception();
 }
 
 template<typename T>
-- 
2.43.0


From 0d4e94b26c234377ad8fddac5b7a12488888fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 04/71] fix: data race in SafeDatabase begin and end, that read
 the internal map before locking it

---
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..4c9b113 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -94,12 +94,16 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From 10f0835449c482c7a7e5a58db7e55db0579117b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 05/71] fix: copies of a SafeDatabaseIterator unlocked a shared
 lock they had not taken

---
 .../include/cpp_utils/collection/database/SafeDatabase.hpp | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp    | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..0d8cb20 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! The copy shared locks the database on its own, as it unlocks it on its own when destroyed.
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 4c9b113..dec775b 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,13 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : SafeDatabaseIterator(other, other.mutex_)
+{
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 37d460a8a4b9121d8aa004db1b330543d94b9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 06/71] fix: use of a destroyed EventHandler at the end of
 wait_for_event

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..0f8641a 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -136,10 +136,16 @@ bool EventHandler<Args...>::wait_for_event(
                 return number_of_events_registered_ >= n || !is_callback_set_.load();
             });
 
+        // Get the result before this thread stops counting as waiting (and with the mutex taken), as from then on
+        // the object could be destroyed
+        const bool events_reached = number_of_events_registered_.load() >= n;
+
         --threads_waiting_;
+
+        return events_reached;
     }
 
-    // Return true if the condition has been fulfilled. It could stop due to an unset callback
+    // Return true if the condition has been fulfilled.
     // Note: number_of_events_registered_ does not required a mutex because it is being read and it is atomic
     return number_of_events_registered_.load() >= n;
 }
-- 
2.43.0


From 246e40a0e608751d2d1e4b17533b778349d0f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 07/71] fix: callback destroyed while running when it changes
 the callback of its own EventHandler

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 0f8641a..140fce7 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -189,7 +189,9 @@ void EventHandler<Args...>::event_occurred_(
 
     if (is_callback_set_.load())
     {
-        callback_(args ...);
+        // Use a copy, as the callback could set or unset the callback of this very object while it is running
+        const std::function<void(Args...)> callback = callback_;
+        callback(args ...);
 
         // TODO: decide if a disabled event should add number of events registered
         {
-- 
2.43.0


From 0058e397949e7e062d246f0262611084908a1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 08/71] fix: signals missed when they arrive just before the
 signal thread starts waiting

---
 .../include/cpp_utils/event/SignalManager.hpp | 15 +++++++++++
 .../cpp_utils/event/impl/SignalManager.ipp    | 27 ++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/SignalManager.hpp b/cpp_utils/include/cpp_utils/event/SignalManager.hpp
index ee1673b..158f95b 100644
--- a/cpp_utils/include/cpp_utils/event/SignalManager.hpp
+++ b/cpp_utils/include/cpp_utils/event/SignalManager.hpp
@@ -27,6 +27,10 @@
 #include <string>
 #include <thread>
 
+#ifndef _WIN32
+#include <semaphore.h>
+#endif // ifndef _WIN32
+
 namespace eprosima {
 namespace utils {
 namespace event {
@@ -189,8 +193,19 @@ protected:
      */
     static std::atomic<uint32_t> signals_received_;
 
+#ifdef _WIN32
     //! Condition variable to wait in \c signal_handler_thread_ until a signal arrives or signal handler is unset.
     static std::condition_variable signal_received_cv_;
+#else
+    /**
+     * @brief Semaphore to wait in \c signal_handler_thread_ until a signal arrives or signal handler is unset.
+     *
+     * A condition variable must not be used from within a signal handler: as its mutex could not be taken there, the
+     * notification is missed if the signal arrives just before the thread starts waiting.
+     * A semaphore can be used there, and does not forget the posts that arrive when no thread is waiting.
+     */
+    static sem_t signal_received_sem_;
+#endif // ifdef _WIN32
 
     //////
     // Unique id
diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..3fca1db 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cerrno>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -32,8 +33,13 @@ namespace event {
 template <Signal SigVal>
 std::recursive_mutex SignalManager<SigVal>::instance_mutex_;
 
+#ifdef _WIN32
 template <Signal SigVal>
 std::condition_variable SignalManager<SigVal>::signal_received_cv_;
+#else
+template <Signal SigVal>
+sem_t SignalManager<SigVal>::signal_received_sem_;
+#endif // ifdef _WIN32
 
 template <Signal SigVal>
 std::atomic<uint32_t> SignalManager<SigVal>::signals_received_(0);
@@ -52,6 +58,10 @@ SignalManager<SigVal>::SignalManager() noexcept
     : signal_handler_thread_stop_(false)
     , current_last_id_(0)
 {
+#ifndef _WIN32
+    sem_init(&signal_received_sem_, 0, 0);
+#endif // ifndef _WIN32
+
     signal(static_cast<int>(SigVal), SignalManager<SigVal>::signal_handler_function_);
 
     logDebug(UTILS_SIGNALMANAGER,
@@ -69,7 +79,11 @@ SignalManager<SigVal>::~SignalManager() noexcept
         signal_handler_thread_stop_.store(true);
     }
 
+#ifdef _WIN32
     signal_received_cv_.notify_all();
+#else
+    sem_post(&signal_received_sem_);
+#endif // ifdef _WIN32
     signal_handler_thread_.join();
 
     logDebug(UTILS_SIGNALMANAGER,
@@ -128,12 +142,16 @@ void SignalManager<SigVal>::signal_handler_function_(
 template <Signal SigVal>
 void SignalManager<SigVal>::signal_received_() noexcept
 {
+    signals_received_++;
+#ifdef _WIN32
     // Normally \c signals_received_ should be guarded by \c signal_received_cv_mutex_ in order to prevent
     // missing notifications. However here it is not possible as mutexes should not be taken from within
     // signal handlers (e.g. the signal may be captured from the same thread holding the mutex causing a
     // deadlock).
-    signals_received_++;
     signal_received_cv_.notify_one();
+#else
+    sem_post(&signal_received_sem_);
+#endif // ifdef _WIN32
 }
 
 template <Signal SigVal>
@@ -155,6 +173,7 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
 {
     while (!signal_handler_thread_stop_.load())
     {
+#ifdef _WIN32
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
         signal_received_cv_.wait(
             lock,
@@ -163,6 +182,12 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
                 return signals_received_.load() > 0 ||
                 signal_handler_thread_stop_.load();
             });
+#else
+        // There is one post per signal received. If the wait is interrupted, try again.
+        while (sem_wait(&signal_received_sem_) != 0 && errno == EINTR)
+        {
+        }
+#endif // ifdef _WIN32
 
         if (signal_handler_thread_stop_.load())
         {
-- 
2.43.0


From 52e811cb68ddaa4ad3e8a1be76b0600222226f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 09/71] fix: programs with two files that include
 SignalEventHandler.hpp could not be linked

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 3fca1db..1f1cc36 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -201,7 +201,7 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     }
 }
 
-std::ostream& operator <<(
+inline std::ostream& operator <<(
         std::ostream& os,
         const Signal& sigval)
 {
-- 
2.43.0


From 38e976578572a1faa3d81e3566a7ea79025f2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 10/71] fix: LogEventHandler used by the log thread while, and
 after, it is destroyed

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..e1c8126 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -51,6 +51,9 @@ LogEventHandler::LogEventHandler(
 
 LogEventHandler::~LogEventHandler()
 {
+    // Release the connection before anything else, so the Log thread does not use this object from here on
+    connection_callback_.reset();
+
     unset_callback();
 }
 
-- 
2.43.0


From 57b2b8f7678fdea634ae88d53e70ed0a113eb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 11/71] fix: LogSevereEventHandler passed on entries below its
 threshold while it is being constructed or destroyed

---
 .../cpp_utils/event/LogEventHandler.hpp        | 18 ++++++++++++++++++
 .../cpp_utils/event/LogSevereEventHandler.hpp  |  7 +++++++
 .../src/cpp/event/logging/LogEventHandler.cpp  | 12 ++++++++++++
 .../event/logging/LogSevereEventHandler.cpp    | 11 ++++++++++-
 4 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
index 88a29ed..6208500 100644
--- a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
@@ -76,6 +76,24 @@ public:
 
 protected:
 
+    //! Tag to construct this class without registering it in Log.
+    struct DelayRegister
+    {
+    };
+
+    /**
+     * Construct without callback, and without registering in Log the LogConsumer that will call this object.
+     *
+     * Child classes that override \c consume_ must use this constructor and call \c register_consumer_ once they are
+     * constructed, and reset \c connection_callback_ in their destructor. Otherwise \c consume_ could be called from
+     * the Log thread before they are constructed or after they are destroyed.
+     */
+    CPP_UTILS_DllAPI LogEventHandler(
+            DelayRegister);
+
+    //! Register in Log the LogConsumer that will call this object.
+    CPP_UTILS_DllAPI void register_consumer_();
+
     /**
      * @brief Consumes an \c Entry given from the \c LogConsumerConnection .
      *
diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..0a089a2 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,13 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    /**
+     * @brief Destroy the LogSevereEventHandler object
+     *
+     * Stops receiving log entries.
+     */
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index e1c8126..3d50d61 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -28,6 +28,13 @@ namespace utils {
 namespace event {
 
 LogEventHandler::LogEventHandler()
+    : LogEventHandler(DelayRegister())
+{
+    register_consumer_();
+}
+
+LogEventHandler::LogEventHandler(
+        DelayRegister)
     : EventHandler<utils::Log::Entry>()
     , connection_callback_(
         new LogConsumerConnectionCallbackType(
@@ -36,6 +43,11 @@ LogEventHandler::LogEventHandler()
             {
                 this->consume_(entry);
             }))
+{
+    // Do nothing
+}
+
+void LogEventHandler::register_consumer_()
 {
     // Create LogConsumer and register it
     Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..82d8d8b 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,9 +26,12 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler(DelayRegister())
     , threshold_(threshold)
 {
+    set_callback(callback);
+    register_consumer_();
+
     // If threshold is lower than default log level (ERROR) set the filter lower
     if (threshold > utils::Log::Kind::Error)
     {
@@ -36,6 +39,12 @@ LogSevereEventHandler::LogSevereEventHandler(
     }
 }
 
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // From here on the parent method would be called, that does not filter by threshold
+    connection_callback_.reset();
+}
+
 void LogSevereEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
-- 
2.43.0


From 521b2db9d1a98e09dc343d0ef2431e9222da08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 12/71] fix: lost wake-up when a file watcher is destroyed

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..631e9ec 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // Taken so the callback thread does not miss the notification between its check and its wait
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From 3c9ab5a371cfc032b67631ee82ff44564936eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 13/71] fix: file descriptor left open when a file watcher
 could not be created

---
 thirdparty/filewatch/FileWatch.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 631e9ec..3b31d93 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -527,7 +527,15 @@ private:
         }
         // const auto listen_filters = _listen_filters;  // Unused variable
 
-        _watching_single_file = is_file(path);
+        try
+        {
+            _watching_single_file = is_file(path);
+        }
+        catch (...)
+        {
+            close(folder);
+            throw;
+        }
 
         const T watch_path = [this, &path]()
                 {
@@ -547,7 +555,9 @@ private:
         const auto watch = inotify_add_watch(folder, watch_path.c_str(), IN_MODIFY | IN_CREATE | IN_DELETE);
         if (watch < 0)
         {
-            throw std::system_error(errno, std::system_category());
+            const auto error = errno;
+            close(folder);
+            throw std::system_error(error, std::system_category());
         }
         return { folder, watch };
     }
-- 
2.43.0


From 2873c3b3f4a2c4cab406290e80779378e000c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 14/71] fix: destroying a file watcher blocked for ever once
 the directory watched had been deleted

---
 thirdparty/filewatch/FileWatch.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 3b31d93..11ee4fd 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -35,10 +35,12 @@
 #endif // WIN32
 
 #if __unix__
+#include <poll.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <errno.h>
 #include <sys/types.h>
+#include <sys/eventfd.h>
 #include <sys/inotify.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -211,6 +213,9 @@ private:
 
     FolderInfo _directory;
 
+    // wakes up the monitor thread when it has to stop
+    int _stop_event = { -1 };
+
     const std::uint32_t _listen_filters = IN_MODIFY | IN_CREATE | IN_DELETE;
 
     const static std::size_t event_size = (sizeof(struct inotify_event));
@@ -224,6 +229,8 @@ private:
         {
             throw std::system_error(GetLastError(), std::system_category());
         }
+#elif __unix__
+        _stop_event = eventfd(0, 0);
 #endif // WIN32
         _callback_thread = std::move(std::thread([this]()
                         {
@@ -275,6 +282,8 @@ private:
 #ifdef _WIN32
         SetEvent(_close_event);
 #elif __unix__
+        // The watch does not exist any more (and its removal does not awake the thread) if the directory was deleted
+        eventfd_write(_stop_event, 1);
         inotify_rm_watch(_directory.folder, _directory.watch);
 #endif // __unix__
         _cv.notify_all();
@@ -284,6 +293,7 @@ private:
         CloseHandle(_directory);
 #elif __unix__
         close(_directory.folder);
+        close(_stop_event);
 #endif // __unix__
     }
 
@@ -569,6 +579,12 @@ private:
         _running.set_value();
         while (_destory == false)
         {
+            struct pollfd events[] = {{_directory.folder, POLLIN, 0}, {_stop_event, POLLIN, 0}};
+            if (poll(events, 2, -1) <= 0 || !(events[0].revents & POLLIN))
+            {
+                continue;
+            }
+
             const auto length = read(_directory.folder, static_cast<void*>(buffer.data()), buffer.size());
             if (length > 0)
             {
-- 
2.43.0


From 85abd0697874b7ba49fc2cafd236b97c6a77a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 15/71] fix: out of bounds read when going to the next command
 of an empty history

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..4baeeee 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,12 +45,12 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
-    if (current_index_ < command_history_.size() - 1)
+    if (current_index_ + 1 < command_history_.size())
     {
         ++current_index_;
         return command_history_[current_index_];
     }
-    else if (current_index_ == command_history_.size() - 1)
+    else if (current_index_ + 1 == command_history_.size())
     {
         ++current_index_;
         return "";
-- 
2.43.0


From 6e4cb8d69b3372f41264e38f1c23ff57c596434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 16/71] fix: a quote followed by a space was taken as a whole
 quoted argument

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..50e2e69 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -65,8 +65,9 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             std::string joined = input[i];
 
             // Keep joining until we find a string ending with a quote
+            // (a quote alone is the opening one)
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() < 2 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
@@ -75,7 +76,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             // a closing quote (") or not. If it is a closing quote
             // remove it from the string (value = 2)
             // otherwise keep all the string (value = 1)
-            int tmp = joined[joined.size() - 1] == '"' ? 2 : 1;
+            int tmp = joined.size() > 1 && joined.back() == '"' ? 2 : 1;
             result.push_back(joined.substr(1, joined.size() - tmp));
         }
         else
-- 
2.43.0


From ad5d20c971d56138719a3e467e17f6c433637659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 17/71] fix: CommandReader destroyed its queue while the stdin
 thread could still add a line to it

---
 .../include/cpp_utils/user_interface/CommandReader.hpp      | 6 +++---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..73d86a0 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,9 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    //! Event Handler used to read from stdin. Destroyed before \c commands_read_ , that its callback uses.
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 50e2e69..0d488c0 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 1a76c9ca59ddfbc533bbc69aafd0dcc954641f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 18/71] fix: division by zero when recalling a command while
 stdout is not a terminal

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..b4a732c 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // Not a terminal, or one that does not tell its width
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 3958bb40de0965c10eecf979d357cd17e943e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 19/71] fix: endless line when the standard input ends

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index b4a732c..4805d1b 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -304,7 +304,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
             if (c == '\033')
             {
@@ -516,7 +516,8 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     }
                 }
             }
-            else if (c == '\n' || c == '\r')
+            // The end of the input ends the line too, as there is nothing else to wait for
+            else if (c == '\n' || c == '\r' || c == EOF)
             {
                 std::cout << std::endl;
                 event_occurred_(read_str);
-- 
2.43.0


From 03ecce53a59b686827e34a8d1d74ca8c223999c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 20/71] fix: keys with long escape sequences left part of them
 in the line

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 4805d1b..d75cc43 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -37,10 +37,21 @@ inline bool consume_tilde_if_present()
 }
 
 #else
+//! Read the rest of an escape sequence, whose characters till the last one are in [0x20, 0x3F]
+inline void consume_escape_sequence(
+        int c)
+{
+    while (c >= 0x20 && c <= 0x3F)
+    {
+        c = getchar();
+    }
+}
+
 inline bool consume_tilde_if_present()
 {
     // POSIX: ESC [ <num> ~ → read and verify '~'
     int t = getchar();
+    consume_escape_sequence(t);
     return t == '~';
 }
 
@@ -309,7 +320,8 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             if (c == '\033')
             {
                 getchar(); // Ignore next character '['
-                switch (getchar())
+                int key = getchar();
+                switch (key)
                 {
                     case 'A':
 #endif // if defined(_WIN32) || defined(_WIN64)
@@ -404,7 +416,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case '2':  // Insert: ESC [ 2 ~
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
-                        int c3 = getchar(); (void)c3; // swallow trailing '~'
+                        consume_tilde_if_present(); // swallow trailing '~'
                         // Minimal behavior: do nothing
                         break;
                     }
@@ -514,6 +526,14 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                                 });
                         break;
                     }
+
+#if !defined(_WIN32) && !defined(_WIN64)
+                    default:
+                    {
+                        consume_escape_sequence(key);
+                        break;
+                    }
+#endif // if !defined(_WIN32) && !defined(_WIN64)
                 }
             }
             // The end of the input ends the line too, as there is nothing else to wait for
-- 
2.43.0


From 8641359a09078a9f52480abf5716d915713777b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 21/71] fix: blocking_disable finished while the last waiting
 thread still had the mutex of the WaitHandler

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..7d9ed74 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,10 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         wait_condition_variable_.notify_all();
     }
+
+    // The last thread stops counting as waiting with the mutex taken. Take it, so that thread has already released it
+    // when this method finishes (from then on this object could be destroyed)
+    std::lock_guard<std::mutex> wait_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From 2ec5e26c491f06d572cf12e4e894ef6aebc0dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 22/71] fix: disabling or destroying a CounterWaitHandler did
 not wake the threads waiting for its threshold

---
 cpp_utils/include/cpp_utils/wait/ConsumerWaitHandler.hpp | 2 +-
 cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp  | 6 ++++--
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp            | 8 ++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/ConsumerWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/ConsumerWaitHandler.hpp
index e28c3ad..8ef25a1 100644
--- a/cpp_utils/include/cpp_utils/wait/ConsumerWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/ConsumerWaitHandler.hpp
@@ -46,7 +46,7 @@ public:
 
     // Make this parent methods public
     using WaitHandler::enable;
-    using WaitHandler::disable;
+    using CounterWaitHandler::disable;
     using WaitHandler::blocking_disable;
     using WaitHandler::enabled;
     using WaitHandler::stop_and_continue;
diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..87ca210 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -67,7 +67,7 @@ public:
             CounterType initial_value,
             bool enabled = true);
 
-    //! Default constructor
+    //! Disable this object and wait till every thread has finished
     CPP_UTILS_DllAPI ~CounterWaitHandler();
 
     /////
@@ -75,12 +75,14 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    //! Override of \c WaitHandler method to awake also the threads waiting for the threshold
+    CPP_UTILS_DllAPI void disable() noexcept override;
+
     /////
     // Wait methods
 
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..5508d7c 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,14 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Threads waiting for the threshold use members of this class
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
-- 
2.43.0


From a20f81662ee7cc9b397d754ca86148cda0585e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 23/71] fix: threads waiting for the threshold not woken when
 the counter reaches it from below

---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 5508d7c..df5c5b1 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -141,6 +141,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // The threshold could be reached from below too
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From 27a2d8ba22c45deac2822725ef99188e34cc0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 24/71] fix: queue of a DBQueueWaitHandler destroyed before the
 threads waiting on it were released

---
 cpp_utils/include/cpp_utils/wait/DBQueueWaitHandler.hpp     | 3 +++
 .../include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/DBQueueWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/DBQueueWaitHandler.hpp
index 48c7219..77fbfff 100644
--- a/cpp_utils/include/cpp_utils/wait/DBQueueWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/DBQueueWaitHandler.hpp
@@ -42,6 +42,9 @@ public:
     // Use parent constructor
     using ConsumerWaitHandler<T>::ConsumerWaitHandler;
 
+    //! Disable this object and wait till every thread has stopped waiting, before destroying the queue
+    ~DBQueueWaitHandler();
+
 protected:
 
     /**
diff --git a/cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp
index ec394a0..0c63e3f 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/DBQueueWaitHandler.ipp
@@ -23,6 +23,12 @@ namespace eprosima {
 namespace utils {
 namespace event {
 
+template <typename T>
+DBQueueWaitHandler<T>::~DBQueueWaitHandler()
+{
+    this->blocking_disable();
+}
+
 template <typename T>
 void DBQueueWaitHandler<T>::add_value_(
         T&& value)
-- 
2.43.0


From 9d402a3db650e4f18b6fe9befbae785ab5d0a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 25/71] fix: tasks never executed by a SlotThreadPool enabled
 again after being disabled

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..0aef3f0 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // Enable Task Queue in case it has been disabled
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 30dde6feef737f98405f096d2e6ef8e2860e51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 26/71] fix: SlotThreadPool::wait_all_consumed returned while
 the last tasks were still being executed

---
 .../include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp | 4 ++++
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp     | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
index aaef0ca..9826f0c 100644
--- a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
+++ b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
@@ -29,6 +29,7 @@
 #include <cpp_utils/thread_pool/task/TaskId.hpp>
 #include <cpp_utils/thread_pool/thread/CustomThread.hpp>
 #include <cpp_utils/wait/DBQueueWaitHandler.hpp>
+#include <cpp_utils/wait/IntWaitHandler.hpp>
 
 namespace eprosima {
 namespace utils {
@@ -150,6 +151,9 @@ protected:
      */
     utils::event::DBQueueWaitHandler<TaskId> task_queue_;
 
+    //! Number of tasks that have been emitted and whose execution has not finished yet
+    utils::event::IntWaitHandler tasks_not_finished_;
+
     /**
      * @brief Threads container
      *
diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 0aef3f0..a08b2b4 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -30,6 +30,7 @@ namespace utils {
 SlotThreadPool::SlotThreadPool(
         const uint32_t n_threads)
     : number_of_threads_(n_threads)
+    , tasks_not_finished_(0)
     , enabled_(false)
 {
     logDebug(UTILS_THREAD_POOL, "Creating Thread Pool with " << n_threads << " threads.");
@@ -53,6 +54,7 @@ void SlotThreadPool::enable() noexcept
     {
         // Enable Task Queue in case it has been disabled
         task_queue_.enable();
+        tasks_not_finished_.enable();
 
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
@@ -70,6 +72,7 @@ void SlotThreadPool::disable() noexcept
     {
         // Disable Task Queue, so threads will stop eventually when their current task is finished
         task_queue_.disable();
+        tasks_not_finished_.disable();
 
         for (auto& thread : threads_)
         {
@@ -94,6 +97,7 @@ void SlotThreadPool::emit(
     }
     else
     {
+        ++tasks_not_finished_;
         task_queue_.produce(it->first);
     }
 }
@@ -120,7 +124,7 @@ void SlotThreadPool::slot(
 utils::event::AwakeReason SlotThreadPool::wait_all_consumed(
         const utils::Duration_ms& timeout /* = 0 */)
 {
-    return task_queue_.wait_all_consumed(timeout);
+    return tasks_not_finished_.wait_equal(0, timeout);
 }
 
 void SlotThreadPool::thread_routine_()
@@ -150,6 +154,8 @@ void SlotThreadPool::thread_routine_()
 
             logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " executing callback.");
             task();
+
+            --tasks_not_finished_;
         }
     }
     catch (const utils::DisabledException& e)
-- 
2.43.0


From fb2deccc47f02fe7e3282ad31a390287b849a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 27/71] fix: elements of an UnboundedPool could not be returned
 after the creation of one had failed

---
 cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
index cfb0317..2c9a7ad 100644
--- a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
+++ b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
@@ -113,8 +113,9 @@ void UnboundedPool<T>::augment_free_values_(
     {
         auto new_element = this->new_element_();
         this->elements_.push_back(new_element);
+        // Count each of them, as the creation of the next one could fail
+        ++reserved_;
     }
-    reserved_ += new_values_count;
     logDebug(
         LIMITLESS_POOL,
         "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
-- 
2.43.0


From 5012f33d1eab24e3f4c8e9ea47721b84e02778ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 28/71] fix: constructor of PoolConfiguration declared but not
 defined

---
 cpp_utils/include/cpp_utils/pool/impl/IPool.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/pool/impl/IPool.ipp b/cpp_utils/include/cpp_utils/pool/impl/IPool.ipp
index 150d25d..946a22b 100644
--- a/cpp_utils/include/cpp_utils/pool/impl/IPool.ipp
+++ b/cpp_utils/include/cpp_utils/pool/impl/IPool.ipp
@@ -27,6 +27,16 @@ namespace utils {
 template <typename T>
 class UnboundedPool;
 
+inline PoolConfiguration::PoolConfiguration(
+        unsigned int initial_size,
+        unsigned int maximum_size,
+        unsigned int batch_size) noexcept
+    : initial_size(initial_size)
+    , maximum_size(maximum_size)
+    , batch_size(batch_size)
+{
+}
+
 template <typename T>
 IPool<T>* create_pool(
         PoolConfiguration configuration)
-- 
2.43.0


From 3c7ac8c10b78e65f54f05356ab47cd8929ceb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 29/71] fix: create_pool could not be compiled, nor the pool it
 returns be deleted

---
 cpp_utils/include/cpp_utils/pool/IPool.hpp         | 3 +++
 cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index c3ef536..d3f1339 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -59,6 +59,9 @@ class IPool
 {
 public:
 
+    //! Virtual dtor, as pools are handled as \c IPool
+    virtual ~IPool() = default;
+
     /**
      * @brief Get a new element from the pool.
      *
diff --git a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
index 0522a40..bf7311d 100644
--- a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
@@ -42,7 +42,7 @@ namespace utils {
  * @tparam T Type of the elements in the pool.
  */
 template <typename T>
-class UnboundedPool : IPool<T>
+class UnboundedPool : public IPool<T>
 {
 public:
 
-- 
2.43.0


From 67cc72ddd16859ffb98e419fdc0b305de0ac9b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 30/71] fix: wrong sum of an arithmetic progression when twice
 the sum does not fit in an unsigned int

---
 cpp_utils/src/cpp/math/math_extension.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..4d61761 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,8 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // Twice the result may not fit in an unsigned int even if the result does
+    return static_cast<unsigned int>(((2 * uint64_t(lowest) + (uint64_t(steps - 1) * interval)) * steps) / 2);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From f9984a7e55d4ed191bb0c1fd467c33298c760dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 31/71] fix: timestamps converted at the same time by several
 threads gave wrong texts

---
 cpp_utils/src/cpp/time/time_utils.cpp | 43 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..ae689d8 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -17,6 +17,7 @@
  *
  */
 
+#include <ctime>
 #include <iomanip>
 #include <thread>
 #include <sstream>
@@ -35,6 +36,27 @@
 namespace eprosima {
 namespace utils {
 
+namespace {
+
+/**
+ * @brief Calendar time of \c time . Unlike std::gmtime and std::localtime, it can be used from several threads.
+ *
+ * @return whether it could be converted
+ */
+bool to_calendar_time(
+        const time_t& time,
+        bool local_time,
+        std::tm& tm)
+{
+#if _EPROSIMA_WINDOWS_PLATFORM
+    return 0 == (local_time ? localtime_s(&tm, &time) : gmtime_s(&tm, &time));
+#else
+    return nullptr != (local_time ? localtime_r(&time, &tm) : gmtime_r(&time, &tm));
+#endif // if _EPROSIMA_WINDOWS_PLATFORM
+}
+
+} /* anonymous namespace */
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -75,11 +97,11 @@ Timestamp time_to_timestamp(
         unsigned int minute /* = 0 */,
         unsigned int second /* = 0 */)
 {
-    std::tm tm;
+    std::tm tm{};
 
     // Initialise with current timestamp to set date
     time_t duration_seconds = normalize(Timeclock::to_time_t(now()));
-    tm = *std::gmtime(&duration_seconds);
+    to_calendar_time(duration_seconds, false, tm);
 
     tm.tm_sec = static_cast<int>(second);
     tm.tm_min = static_cast<int>(minute);
@@ -96,23 +118,14 @@ std::string timestamp_to_string(
     std::ostringstream ss;
     time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
 
-    std::tm* tm = nullptr;
-    if (local_time)
-    {
-        tm = std::localtime(&duration_seconds);
-    }
-    else
-    {
-        tm = std::gmtime(&duration_seconds);
-    }
-
-    if (tm)
+    std::tm tm{};
+    if (to_calendar_time(duration_seconds, local_time, tm))
     {
-        ss << std::put_time(tm, format.c_str());
+        ss << std::put_time(&tm, format.c_str());
     }
     else
     {
-        // gmtime/localtime() returned null
+        // time could not be converted
         throw PreconditionNotMet(STR_ENTRY << "Format <" << format << "> to convert Timestamp to string is incorrect.");
     }
     return ss.str();
-- 
2.43.0


From abee1ae2001bbef9df926f96134ec3d1b3a73c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 32/71] fix: the last second of 1969 was refused when
 converting a string to timestamp

---
 cpp_utils/src/cpp/time/time_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index ae689d8..5d7bb58 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -146,6 +146,10 @@ Timestamp string_to_timestamp(
                       ".");
     }
 
+    // This value is set by the conversions below when they succeed
+    // (their result cannot tell, as -1 is the second before 1970)
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -165,7 +169,7 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if ((time_t)-1 == utc_time && tm.tm_wday < 0)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From e40bb96f86c59b02fd8e2fad179cf5ba5b3acfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 33/71] fix: overflow when a date is out of the range of
 Timestamp

---
 cpp_utils/src/cpp/time/time_utils.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 5d7bb58..61ba1ad 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -55,6 +55,18 @@ bool to_calendar_time(
 #endif // if _EPROSIMA_WINDOWS_PLATFORM
 }
 
+//! Timestamp of \c time . Throws an exception when it is out of the range of Timestamp (years 1677 to 2262 in some systems).
+Timestamp to_timestamp(
+        const time_t& time)
+{
+    if (time > Timeclock::to_time_t(Timestamp::max()) || time < Timeclock::to_time_t(Timestamp::min()))
+    {
+        throw ValueNotAllowedException(
+                  STR_ENTRY << "Time " << time << " is out of the range of Timestamp.");
+    }
+    return Timeclock::from_time_t(time);
+}
+
 } /* anonymous namespace */
 
 Timestamp now() noexcept
@@ -89,7 +101,7 @@ Timestamp date_to_timestamp(
     tm.tm_mon = static_cast<int>(month) - 1;
     tm.tm_year = static_cast<int>(year) - 1900;
 
-    return Timeclock::from_time_t(normalize(timegm(&tm)));
+    return to_timestamp(normalize(timegm(&tm)));
 }
 
 Timestamp time_to_timestamp(
@@ -107,7 +119,7 @@ Timestamp time_to_timestamp(
     tm.tm_min = static_cast<int>(minute);
     tm.tm_hour = static_cast<int>(hour);
 
-    return Timeclock::from_time_t(timegm(&tm));
+    return to_timestamp(timegm(&tm));
 }
 
 std::string timestamp_to_string(
@@ -175,7 +187,7 @@ Timestamp string_to_timestamp(
                   STR_ENTRY << "Failed to convert string to timestamp");
     }
 
-    return Timeclock::from_time_t(utc_time);
+    return to_timestamp(utc_time);
 }
 
 std::chrono::milliseconds duration_to_ms(
-- 
2.43.0


From 42c5d618238260b866b7cbb0ca34de6d76070fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 34/71] fix: elapsed time of timers changed, even to negative,
 when the system clock is adjusted

---
 cpp_utils/include/cpp_utils/time/Timer.hpp | 2 +-
 cpp_utils/src/cpp/time/Timer.cpp           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/time/Timer.hpp b/cpp_utils/include/cpp_utils/time/Timer.hpp
index d956cad..52ad75c 100644
--- a/cpp_utils/include/cpp_utils/time/Timer.hpp
+++ b/cpp_utils/include/cpp_utils/time/Timer.hpp
@@ -59,7 +59,7 @@ public:
 protected:
 
     //! Time when the object has been created OR when last reset has been called.
-    std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+    std::chrono::time_point<std::chrono::steady_clock> start_time_;
 };
 
 } /* namespace utils */
diff --git a/cpp_utils/src/cpp/time/Timer.cpp b/cpp_utils/src/cpp/time/Timer.cpp
index e8f6dc7..e487832 100644
--- a/cpp_utils/src/cpp/time/Timer.cpp
+++ b/cpp_utils/src/cpp/time/Timer.cpp
@@ -23,18 +23,18 @@ namespace eprosima {
 namespace utils {
 
 Timer::Timer() noexcept
-    : start_time_(std::chrono::high_resolution_clock::now())
+    : start_time_(std::chrono::steady_clock::now())
 {
 }
 
 void Timer::reset() noexcept
 {
-    start_time_ = std::chrono::high_resolution_clock::now();
+    start_time_ = std::chrono::steady_clock::now();
 }
 
 double Timer::elapsed() const noexcept
 {
-    return std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count();
+    return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - start_time_).count();
 }
 
 Duration_ms Timer::elapsed_ms() const noexcept
-- 
2.43.0


From a3f03262af54cf9eb121404bd07dd688d20406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 35/71] fix: refactor_values of a Builder could not be compiled
 with a map of keys to values

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 031c4253c8a8e00f4c918c1738fbe241aa00e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 36/71] fix: the code generator added a value without name
 after a separator at the end of the values

---
 .../cpp/enumeration_builder/enumeration_builder.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py b/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
index 6e6c869..0dadc8a 100644
--- a/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
+++ b/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
@@ -294,7 +294,8 @@ def main():
         text=generate_file_text(
             template_text=TEMPLATE_TEXT,
             enumeration_name=args.enum,
-            enumeration_values=parse_values(args.values),
+            # A separator after the last value does not add another one
+            enumeration_values=[x for x in parse_values(args.values) if x],
             namespaces=parse_values(args.namespaces),
             output_file=output_file))
 
-- 
2.43.0


From bd8bf0bc5442ab9bb5350d814a3cc6b0014a3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 37/71] fix: Builder and EnumBuilder could not be used without
 including other headers before

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index 57e1c3b..3990b08 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -21,6 +21,8 @@
 #pragma once
 
 #include <cpp_utils/exception/ValueNotAllowedException.hpp>
+#include <cpp_utils/Formatter.hpp>
+#include <cpp_utils/macros/macros.hpp>
 
 namespace eprosima {
 namespace utils {
-- 
2.43.0


From 4ddc10135cf5c726bf013bd8634b814401120dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 38/71] fix: objects of child classes in a Heritable were
 destroyed as their parent

---
 cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
index d017976..61996c7 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
@@ -40,7 +40,8 @@ template <typename T>
 template <typename U>
 Heritable<T>::Heritable(
         U* ptr)
-    : data_ptr_(static_cast<T*>(ptr))
+    // The object must be destroyed as the class it is, as T may not have a virtual destructor
+    : data_ptr_(std::static_pointer_cast<T>(std::shared_ptr<U>(ptr)))
 {
 }
 
-- 
2.43.0


From a9fc3a756db6e3520fde7d7f206467d163f8b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 39/71] fix: replace_all did not end with an empty string to
 replace, nor when its replacement contains it

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..e7a870f 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -278,8 +278,19 @@ unsigned int replace_all(
         std::string const& replace_by)
 {
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+
+    // An empty string would be found for ever
+    if (to_replace.empty())
     {
+        return replacements;
+    }
+
+    // Continue after each replacement, so a \c replace_by that contains \c to_replace is not replaced for ever
+    std::size_t pos = 0;
+    while ((pos = st.find(to_replace, pos)) != std::string::npos)
+    {
+        st.replace(pos, to_replace.length(), replace_by);
+        pos += replace_by.length();
         replacements++;
     }
     return replacements;
-- 
2.43.0


From 39af16845d3a5c18f0e2fd6cf8ca069c5fa5d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 40/71] fix: split_string did not end with an empty delimiter

---
 cpp_utils/src/cpp/utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index e7a870f..cfe1ee2 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -359,6 +359,14 @@ std::vector<std::string> split_string(
         const std::string& delimiter)
 {
     std::vector<std::string> result;
+
+    // An empty delimiter would be found for ever
+    if (delimiter.empty())
+    {
+        result.push_back(source);
+        return result;
+    }
+
     int start = 0;
     int end = source.find(delimiter);
     while (end != -1)
-- 
2.43.0


From 0c2e61d3e0d326be711d8b2897000cd4f4938758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 41/71] fix: number_trailing_zeros_format refused numbers that
 fit in 10 or more digits, and divided by zero from 32

---
 cpp_utils/src/cpp/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index cfe1ee2..08ee8c9 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -314,7 +314,8 @@ std::string number_trailing_zeros_format(
         unsigned int n_chars,
         bool allow_more_chars /* = true */)
 {
-    if (!allow_more_chars)
+    // No value has more than 10 digits (and the power of 10 would overflow)
+    if (!allow_more_chars && n_chars < 10)
     {
         if (value_to_print / fast_exponential(10, n_chars) > 0)
         {
-- 
2.43.0


From 279964f2492aef584fdfc6d0da394d9bba1d8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 42/71] fix: signed overflow in base64_encode and base64_decode
 with more than 3 bytes

---
 cpp_utils/src/cpp/utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 08ee8c9..f352a38 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -386,7 +386,9 @@ std::string base64_encode(
 {
     std::string out;
 
-    int val = 0, valb = -6;
+    // Unsigned, as the bits already used are shifted out
+    unsigned int val = 0;
+    int valb = -6;
     for (unsigned char c : in)
     {
         val = (val << 8) + c;
@@ -420,7 +422,9 @@ std::string base64_decode(
         T[base64_alphabet[i]] = i;
     }
 
-    int val = 0, valb = -8;
+    // Unsigned, as the bits already used are shifted out
+    unsigned int val = 0;
+    int valb = -8;
     for (unsigned char c : in)
     {
         if (T[c] == -1)
-- 
2.43.0


From 69bc40e1da0b369c055a1ebebb3a2c64ca6e707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 43/71] fix: to_bytes was inexact above 2^53, accepted 2^64
 bytes, and threw out_of_range for long numbers

---
 cpp_utils/src/cpp/utils.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index f352a38..c2cff56 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -150,9 +150,22 @@ std::uint64_t to_bytes(
                   "The quantity is not in the expected format. It should be a rational number followed by a unit (e.g. 10MB).");
     }
 
-    // Extract the number
-    std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
+    // Extract the number. The integer part is kept apart, as a double cannot represent every one of them.
+    const std::string number_str = matches[1].str();
+    const auto point = number_str.find('.');
+    std::uint64_t number_int = 0;
+
+    try
+    {
+        number_int = std::stoull(number_str.substr(0, point));
+    }
+    catch (const std::out_of_range&)
+    {
+        throw std::invalid_argument("The number is too large to be converted to bytes.");
+    }
+
+    const double number_fraction =
+            (point == std::string::npos) ? 0.0 : std::stod("0" + number_str.substr(point, 20));
 
     // Extract the unit
     std::string unit_str = matches[3].str();
@@ -168,15 +181,14 @@ std::uint64_t to_bytes(
 
     // Check whether the product of number * unit overflows
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    const auto max_bytes = (std::numeric_limits<std::uint64_t>::max)();
+    const auto fraction_bytes = static_cast<std::uint64_t>(number_fraction * unit);
+    if (number_int > max_bytes / unit || fraction_bytes > max_bytes - number_int * unit)
     {
         throw std::invalid_argument("The number is too large to be converted to bytes.");
     }
 
-    // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
-
-    return bytes;
+    return number_int * unit + fraction_bytes;
 }
 
 std::string from_bytes(
-- 
2.43.0


From 6bde7078ba5e111def7301e21bcbf4f361a61c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 44/71] fix: are_set_of_ptr_equal depended on the order of its
 arguments when a set has equal objects

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..4544422 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -129,6 +129,15 @@ bool are_set_of_ptr_equal(
         }
     }
 
+    // Check if every element in set2 is in set1, as several elements in set1 could be equal to the same one in set2
+    for (auto itr2 = set2.begin(); itr2 != set2.end(); itr2++)
+    {
+        if (!set_of_ptr_contains(set1, *itr2))
+        {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 37bc8255668229eb6ee9d1ae092733edb66ff5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 45/71] fix: container_to_stream could not be compiled with
 elements that are not pointers

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 34 ++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 4544422..1668216 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,24 +19,40 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+namespace impl {
+
+// Each case apart, as elements that are not pointers cannot be dereferenced
+template <typename T>
+void element_to_stream(
+        std::ostream& os,
+        const T& element,
+        std::true_type)
+{
+    os << (*element);
+}
+
+template <typename T>
+void element_to_stream(
+        std::ostream& os,
+        const T& element,
+        std::false_type)
+{
+    os << element;
+}
+
+} /* namespace impl */
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
-
+    impl::element_to_stream(os, element, std::integral_constant<bool, Ptr>());
     return os;
 }
 
-- 
2.43.0


From d861223362df0cef28041c28337efb5c4a603d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 46/71] fix: depth of a Tree was always 0, and could not be
 compiled with only its header

---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..03b5245 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -20,6 +20,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <utility>
+
 namespace eprosima {
 namespace utils {
 
@@ -94,8 +97,9 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
-        max_value = MAX(max_value, child_value);
+        // Each level of branches is one more than those below it
+        auto child_value = b.depth() + 1;
+        max_value = std::max(max_value, child_value);
     }
     return max_value;
 }
-- 
2.43.0


From c56c3390ee0e622db08788e9eca8e9ae1f98c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 47/71] fix: do not read before the start of an empty type name
 when demangling it

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..cd1d93c 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string[dds_type_string.size() - 1] != '_')
     {
         // not a ROS type
         return dds_type_string;
-- 
2.43.0


From de9ddb3dccbae449154da4909b5f166b8868b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 48/71] fix: refuse a service type whose suffix is not at the
 end

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index cd1d93c..e931e1e 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -300,7 +300,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From 70b73f2b566aaa8fb295e716fedaa21a53879172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 49/71] fix: mangle service names that have a namespace

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index e931e1e..9a1c93d 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,7 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
+    size_t topic_name_position = topic_name.rfind("/", 0);
     if (topic_name_position != 0)
     {
         return "";
-- 
2.43.0


From 52bc0c213622501ab6dcf7112bb7d32f986da831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 50/71] fix: report files whose reading fails instead of
 returning part of their lines

---
 cpp_utils/src/cpp/file/file_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp_utils/src/cpp/file/file_utils.cpp b/cpp_utils/src/cpp/file/file_utils.cpp
index 62ed79e..6d95779 100644
--- a/cpp_utils/src/cpp/file/file_utils.cpp
+++ b/cpp_utils/src/cpp/file/file_utils.cpp
@@ -71,6 +71,13 @@ std::vector<std::string> file_to_strings(
         }
     }
 
+    // The file was opened, but reading failed (e.g. it is a directory), thus lines are missing
+    if (file.bad())
+    {
+        throw PreconditionNotMet(
+                  STR_ENTRY << "File <" << file_name << "> could not be read.");
+    }
+
     return result;
 }
 
-- 
2.43.0


From b8462dd00c07c284f7689e34c4ee2b8560714db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 51/71] fix: let waiting threads finish while blocking_disable
 waits for them

---
 py_utils/py_utils/wait/WaitHandler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..799ec79 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -136,6 +136,9 @@ class WaitHandler:
                 timeout)
 
             self._n_waiting_threads -= 1
+            if self._n_waiting_threads == 0:
+                # Awake those that wait for every thread to finish
+                self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
@@ -158,9 +161,9 @@ class WaitHandler:
     # Blocking disable method
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
-        self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._disable_nts()
+        # Release the mutex meanwhile, so that the waiting threads can finish
+        self._condition.wait_for(lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From b8ff261f3bb30779c3844993bc1d7119b3794ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 52/71] fix: do not count a thread as waiting for ever when its
 predicate fails

---
 py_utils/py_utils/wait/WaitHandler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 799ec79..fe0ab5c 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -131,14 +131,17 @@ class WaitHandler:
 
             self._n_waiting_threads += 1
 
-            awaken_reason = self._condition.wait_for(
-                lambda: not self._enabled_nts() or predicate(self._value),
-                timeout)
-
-            self._n_waiting_threads -= 1
-            if self._n_waiting_threads == 0:
-                # Awake those that wait for every thread to finish
-                self._condition.notify_all()
+            try:
+                awaken_reason = self._condition.wait_for(
+                    lambda: not self._enabled_nts() or predicate(self._value),
+                    timeout)
+
+            finally:
+                # The thread is not waiting anymore, neither if predicate failed
+                self._n_waiting_threads -= 1
+                if self._n_waiting_threads == 0:
+                    # Awake those that wait for every thread to finish
+                    self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
-- 
2.43.0


From c576a107c788a5b74dde046a1217864b0a20949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 53/71] fix: keep what is streamed to a Formatter after a null
 character

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 8c98d240719e27dca96f998edb1b17f6e9b03777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 54/71] fix: apply the level set in a CustomLogger also to
 messages already logged once

---
 py_utils/py_utils/logging/log_utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..136c3c8 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -58,6 +58,20 @@ class CustomLogger(logging.Logger):
         """Modifies logger level."""
         self.setLevel(log_level)
 
+    def isEnabledFor(
+            self,
+            level):
+        """
+        Whether a message of this level is logged.
+
+        The native implementation caches the result for each level, and setting the level only
+        clears the cache of those loggers created by logging.getLogger.
+        """
+        return (
+            not self.disabled
+            and level > self.manager.disable
+            and level >= self.getEffectiveLevel())
+
     def activate_debug(self):
         """Modifies logger level so it accepts everything equalt or greater than DEBUG."""
         self.set_log_level(logging.DEBUG)
-- 
2.43.0


From 9b15a52f9c669228b26086a52cae3dcb0285dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 55/71] fix: do not print every message once more after each
 set_format

---
 py_utils/py_utils/logging/log_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 136c3c8..9fe0603 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,8 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        self._handler = logging.StreamHandler()
+        self.addHandler(self._handler)
         self.set_format()
         self.set_log_level(log_level)
 
@@ -47,10 +49,7 @@ class CustomLogger(logging.Logger):
             self,
             format: str = '[%(asctime)s][%(name)s][%(levelname)s] %(message)s'):
         """Modifies format for logger."""
-        l_format = logging.Formatter(format)
-        l_handler = logging.StreamHandler()
-        l_handler.setFormatter(l_format)
-        self.addHandler(l_handler)
+        self._handler.setFormatter(logging.Formatter(format))
 
     def set_log_level(
             self,
-- 
2.43.0


From 156f08821144b7ffd9e1d779c04186c91e909796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 56/71] fix: keep the pattern of a FileWatch in its copies

---
 thirdparty/filewatch/FileWatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 11ee4fd..115b164 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -116,7 +116,7 @@ public:
 
     FileWatch(
             const FileWatch<T>& other)
-        : FileWatch<T>(other._path, other._callback)
+        : FileWatch<T>(other._path, other._pattern, other._callback)
     {
     }
 
-- 
2.43.0


From c3e2c8b2f754be74baef7a64cb563142242b1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 57/71] fix: parenthesise the MAX and MIN macros and their
 arguments

---
 cpp_utils/include/cpp_utils/macros/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/macros/macros.hpp b/cpp_utils/include/cpp_utils/macros/macros.hpp
index f0d0e96..949d297 100644
--- a/cpp_utils/include/cpp_utils/macros/macros.hpp
+++ b/cpp_utils/include/cpp_utils/macros/macros.hpp
@@ -75,8 +75,8 @@ namespace utils {
  */
 #define TYPE_NAME(x) typeid(x).name()
 
-#define MAX(x, y) x < y ? y : x
-#define MIN(x, y) x > y ? y : x
+#define MAX(x, y) ((x) < (y) ? (y) : (x))
+#define MIN(x, y) ((x) > (y) ? (y) : (x))
 
 /**
  * @brief Standarize a common way to check if the OS is windows.
-- 
2.43.0


From 5afd0b3a53678f9f1978f373b43063b878c33d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 58/71] fix: call a decorated function also when its arguments
 cannot be printed

---
 py_utils/py_utils/debugging/debug_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_utils/py_utils/debugging/debug_utils.py b/py_utils/py_utils/debugging/debug_utils.py
index bd5532d..d150fa8 100644
--- a/py_utils/py_utils/debugging/debug_utils.py
+++ b/py_utils/py_utils/debugging/debug_utils.py
@@ -30,7 +30,8 @@ def debug_function_decorator(
         func):
     """Decorator to debug information regarding start, arguments and finish of a function."""
     def wrapper(*args, **kwargs):
-        logger.debug(f'Function <{func.__name__}> called with arguments: <{args}>, <{kwargs}>')
+        # The logger converts the arguments only when they are printed, and an error in it does not reach the caller
+        logger.debug('Function <%s> called with arguments: <%s>, <%s>', func.__name__, args, kwargs)
         result = func(*args, **kwargs)
         logger.debug(f'Function <{func.__name__}> finished')
         return result
-- 
2.43.0


From a8bb176cbe0eeb48cfb860145a786b1f54729819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 59/71] fix: look for the minimum version asked for of a
 package

---
 cmake_utils/cmake/cpp_common/find_external.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/cpp_common/find_external.cmake b/cmake_utils/cmake/cpp_common/find_external.cmake
index 07873aa..5bfc054 100644
--- a/cmake_utils/cmake/cpp_common/find_external.cmake
+++ b/cmake_utils/cmake/cpp_common/find_external.cmake
@@ -29,7 +29,7 @@ macro(find_external_projects EXTERNAL_PROJECT_NAMES)
 
     foreach(EXTERNAL_PROJECT ${EXTERNAL_PROJECT_NAMES})
         # Check if this project requires a minimum version, set as ${EXTERNAL_PROJECT}_MINIMUM_VERSION
-        if (${${EXTERNAL_PROJECT}_MINIMUM_VERSION})
+        if (NOT "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" STREQUAL "")
 
             find_package("${EXTERNAL_PROJECT}" "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" REQUIRED)
             message(
-- 
2.43.0


From 4b470b3af09c2faf2aeff344495c4f2cb3290a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 60/71] fix: keep the version numbers set in the project
 settings

---
 .../cmake/project/configure_project.cmake      |  4 ++++
 cmake_utils/cmake/project/read_version.cmake   | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmake_utils/cmake/project/configure_project.cmake b/cmake_utils/cmake/project/configure_project.cmake
index cfc74b1..51152b2 100644
--- a/cmake_utils/cmake/project/configure_project.cmake
+++ b/cmake_utils/cmake/project/configure_project.cmake
@@ -68,6 +68,10 @@ macro(configure_project)
         read_version(${MODULE_VERSION_FILE_PATH})
     endif()
 
+    if( NOT DEFINED MODULE_VERSION_STRING)
+        set (MODULE_VERSION_STRING "v${MODULE_VERSION}")
+    endif()
+
     # Read git commit hash if not already set
     if( NOT DEFINED MODULE_COMMIT_HASH)
 
diff --git a/cmake_utils/cmake/project/read_version.cmake b/cmake_utils/cmake/project/read_version.cmake
index 89efe9b..591ebbb 100644
--- a/cmake_utils/cmake/project/read_version.cmake
+++ b/cmake_utils/cmake/project/read_version.cmake
@@ -36,14 +36,20 @@ macro(read_version VERSION_FILE_NAME)
     # Read version file
     file(READ ${VERSION_FILE_NAME} READ_VERSION_FILE)
 
-    string(REGEX MATCH "VERSION_MAJOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MAJOR ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_MAJOR)
+        string(REGEX MATCH "VERSION_MAJOR ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_MAJOR ${CMAKE_MATCH_1})
+    endif()
 
-    string(REGEX MATCH "VERSION_MINOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MINOR ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_MINOR)
+        string(REGEX MATCH "VERSION_MINOR ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_MINOR ${CMAKE_MATCH_1})
+    endif()
 
-    string(REGEX MATCH "VERSION_PATCH ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_PATCH ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_PATCH)
+        string(REGEX MATCH "VERSION_PATCH ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_PATCH ${CMAKE_MATCH_1})
+    endif()
 
     # VERSION complete string
     if(NOT DEFINED MODULE_VERSION)
-- 
2.43.0


From c36b7a0ce78f2a1f08c95e7b00ae785b9b8a3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 61/71] fix: install the headers in the path set for them

---
 cmake_utils/cmake/compilation/compile_library.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 1f395ef..6b285b7 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -176,8 +176,8 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
         # Packaging
         ###############################################################################
         # Install headers
-        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}
-                DESTINATION ${INCLUDE_INSTALL_DIR}
+        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}/
+                DESTINATION ${INCLUDE_INSTALL_DIR}/${MODULE_HEADERS_INSTALL_PATH}
                 COMPONENT headers
                 FILES_MATCHING
                 PATTERN "*.h"
-- 
2.43.0


From d2682a46e34ba0f480627f648d1a04bafdb8f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 62/71] fix: export the directory where the headers are
 installed

---
 cmake_utils/cmake/compilation/compile_library.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 6b285b7..fb4bed3 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -128,7 +128,7 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include>
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include/${MODULE_NAME}>
                 $<BUILD_INTERFACE:${_SOURCE_PATH}>
-                $<INSTALL_INTERFACE:include>
+                $<INSTALL_INTERFACE:${INCLUDE_INSTALL_DIR}>
                 ${MODULE_PUBLIC_EXTRA_HEADERS}
             PRIVATE
                 ${MODULE_PRIVATE_EXTRA_HEADERS}
-- 
2.43.0


From 5daf1a8b2ffb331b1a81285e21596f9a3f7b9167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 63/71] fix: find the configuration header wherever the headers
 are installed

---
 cmake_utils/templates/cpp/library/library_dll.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/templates/cpp/library/library_dll.h.in b/cmake_utils/templates/cpp/library/library_dll.h.in
index 0613a07..53cf892 100644
--- a/cmake_utils/templates/cpp/library/library_dll.h.in
+++ b/cmake_utils/templates/cpp/library/library_dll.h.in
@@ -15,7 +15,7 @@
 #ifndef _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 #define _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 
-#include <@PROJECT_NAME@/library/config.h>
+#include "config.h"
 
 // normalize macros
 #if !defined(@MODULE_MACRO@_DYN_LINK) && !defined(@MODULE_MACRO@_STATIC_LINK) \
-- 
2.43.0


From a61d016504e83db850665f953ef5b49f0441c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 64/71] fix: timed waits were measured with the system clock,
 so adjusting it ended or prolonged them

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 7 ++++---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 7d9ed74..689e10e 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -142,16 +142,17 @@ std::unique_lock<std::mutex> WaitHandler<T>::blocking_wait_(
     // WARNING: mutex must be taken
     threads_waiting_++;
 
-    utils::Timestamp time_to_wait_until;
+    // Use a clock that is never adjusted, so the wait lasts the time given
+    std::chrono::steady_clock::time_point time_to_wait_until;
 
     // If timeout is 0, use wait, if not use wait for timeout
     if (timeout > 0)
     {
-        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);
+        time_to_wait_until = std::chrono::steady_clock::now() + utils::duration_to_ms(timeout);
     }
     else
     {
-        time_to_wait_until = utils::the_end_of_time();
+        time_to_wait_until = (std::chrono::steady_clock::time_point::max)();
     }
 
     bool finished_for_condition_met = wait_condition_variable_.wait_until(
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index df5c5b1..4ac340a 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -86,16 +86,17 @@ AwakeReason CounterWaitHandler::wait_threshold_reached(
     // WARNING: mutex must be taken
     threads_waiting_++;
 
-    utils::Timestamp time_to_wait_until;
+    // Use a clock that is never adjusted, so the wait lasts the time given
+    std::chrono::steady_clock::time_point time_to_wait_until;
 
     // If timeout is 0, use wait, if not use wait for timeout
     if (timeout > 0)
     {
-        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);
+        time_to_wait_until = std::chrono::steady_clock::now() + utils::duration_to_ms(timeout);
     }
     else
     {
-        time_to_wait_until = utils::the_end_of_time();
+        time_to_wait_until = (std::chrono::steady_clock::time_point::max)();
     }
 
     bool finished_for_condition_met = threshold_reached_cv_.wait_until(
-- 
2.43.0


From b65bb8a4d47570b3ef1e2af5d85c0faa3d826455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 65/71] fix: an element whose copy failed while consumed was
 not available any more

---
 .../cpp_utils/wait/impl/ConsumerWaitHandler.ipp     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
index b71813b..2bd30f9 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
@@ -73,8 +73,17 @@ T ConsumerWaitHandler<T>::consume(
     }
     else
     {
-        // This is taken without mutex protection
-        return get_next_value_();
+        try
+        {
+            // This is taken without mutex protection
+            return get_next_value_();
+        }
+        catch (...)
+        {
+            // The value could not be given out, so it is still there to be consumed
+            this->operator ++();
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 0453f749c5b1b122a4788a370d62f73e9b9fff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 66/71] fix: the data of an OwnerPtr was destroyed with its
 mutex taken, so it could not use its own pointers

---
 .../include/cpp_utils/memory/impl/InternalPtrData.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index fbeef0c..5edb830 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -110,13 +110,16 @@ InternalPtrData<T>::InternalPtrData(
 template<typename T>
 void InternalPtrData<T>::release_reference_()
 {
+    // Wait for every guard and leave the data not available for anyone from here on
     shared_mutex_.lock();
-    if (reference_ != nullptr)
+    T* reference = reference_.exchange(nullptr);
+    shared_mutex_.unlock();
+
+    // Destroy it without the mutex taken, as its destruction could use the pointers to it
+    if (reference != nullptr)
     {
-        deleter_(reference_);
-        reference_ = nullptr;
+        deleter_(reference);
     }
-    shared_mutex_.unlock();
 }
 
 } /* namespace utils */
-- 
2.43.0


From 12b6a9efd6a1072e1ffe6c47b37af0e02f1290d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 67/71] fix: case conversion changed other letters than ASCII
 ones, depending on the locale

---
 cpp_utils/src/cpp/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index c2cff56..fa6f34e 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -109,7 +109,7 @@ void to_lowercase(
     std::transform(st.begin(), st.end(), st.begin(),
             [](unsigned char c)
             {
-                return std::tolower(c);
+                return static_cast<char>((c >= 'A' && c <= 'Z') ? c - 'A' + 'a' : c);
             });
 }
 
@@ -119,7 +119,7 @@ void to_uppercase(
     std::transform(st.begin(), st.end(), st.begin(),
             [](unsigned char c)
             {
-                return std::toupper(c);
+                return static_cast<char>((c >= 'a' && c <= 'z') ? c - 'a' + 'A' : c);
             });
 }
 
-- 
2.43.0


From b5994fa8d956d50bfe803e4c4230627f82c094e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 68/71] fix: numbers padded with zeros got thousands
 separators, depending on the locale

---
 cpp_utils/src/cpp/utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index fa6f34e..76dc531 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -22,6 +22,7 @@
 #include <cmath>
 #include <cstdint>
 #include <iomanip>
+#include <locale>
 #include <regex>
 #include <set>
 #include <sstream>
@@ -338,6 +339,8 @@ std::string number_trailing_zeros_format(
     }
 
     std::ostringstream os;
+    // Only digits, whatever the global locale
+    os.imbue(std::locale::classic());
     os << std::setw(n_chars) << std::setfill('0') << value_to_print;
     return os.str();
 }
-- 
2.43.0


From 47bae101ebbe706f990418c84a1ebb70580e0f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 69/71] fix: quantities of bytes were read and printed with the
 decimal point of the locale

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 76dc531..46ca72b 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -165,8 +165,14 @@ std::uint64_t to_bytes(
         throw std::invalid_argument("The number is too large to be converted to bytes.");
     }
 
-    const double number_fraction =
-            (point == std::string::npos) ? 0.0 : std::stod("0" + number_str.substr(point, 20));
+    double number_fraction = 0.0;
+    if (point != std::string::npos)
+    {
+        // The decimal point is a dot, whatever the global locale
+        std::istringstream iss("0" + number_str.substr(point, 20));
+        iss.imbue(std::locale::classic());
+        iss >> number_fraction;
+    }
 
     // Extract the unit
     std::string unit_str = matches[3].str();
@@ -223,8 +229,9 @@ std::string from_bytes(
     const auto number_double = static_cast<double>(bytes) / factor;
     const auto number_int = static_cast<std::uint64_t>(number_double);
 
-    // Format the number
+    // Format the number. The decimal point is a dot and there are no separators, whatever the global locale.
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
 
     if (std::fabs(number_double - number_int) < 0.01)
     {
-- 
2.43.0


From 482925d197e76a00479bba01d643119bd78ac1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 70/71] fix: long quantities of bytes overflowed the stack

---
 cpp_utils/src/cpp/utils.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 46ca72b..55808a7 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -23,7 +23,6 @@
 #include <cstdint>
 #include <iomanip>
 #include <locale>
-#include <regex>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -142,17 +141,41 @@ std::uint64_t to_bytes(
     };
 
     // Find the number and the unit
-    std::regex pattern("^(\\d+(\\.\\d+)?)\\s*([a-zA-Z]+)$");
-    std::smatch matches;
+    // @note: std::regex is not used because it overflows the stack when the string is long.
+    const auto is_digit = [](const char c)
+            {
+                return c >= '0' && c <= '9';
+            };
+    const auto is_space = [](const char c)
+            {
+                return c == ' ' || (c >= '\t' && c <= '\r');
+            };
+    const auto is_letter = [](const char c)
+            {
+                return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+            };
+
+    const auto integer_end = std::find_if_not(input.begin(), input.end(), is_digit);
+    bool valid = integer_end != input.begin();
+
+    auto number_end = integer_end;
+    if (number_end != input.end() && *number_end == '.')
+    {
+        number_end = std::find_if_not(integer_end + 1, input.end(), is_digit);
+        valid = valid && number_end != integer_end + 1;
+    }
+
+    const auto unit_begin = std::find_if_not(number_end, input.end(), is_space);
+    valid = valid && unit_begin != input.end() && std::all_of(unit_begin, input.end(), is_letter);
 
-    if (!std::regex_match(input, matches, pattern) || matches.size() != 4)
+    if (!valid)
     {
         throw std::invalid_argument(
                   "The quantity is not in the expected format. It should be a rational number followed by a unit (e.g. 10MB).");
     }
 
     // Extract the number. The integer part is kept apart, as a double cannot represent every one of them.
-    const std::string number_str = matches[1].str();
+    const std::string number_str(input.begin(), number_end);
     const auto point = number_str.find('.');
     std::uint64_t number_int = 0;
 
@@ -175,7 +198,7 @@ std::uint64_t to_bytes(
     }
 
     // Extract the unit
-    std::string unit_str = matches[3].str();
+    std::string unit_str(unit_begin, input.end());
     to_uppercase(unit_str);
 
     if (units.find(unit_str) == units.end())
-- 
2.43.0


From b37abed1cdb4e19f4fd668e6c10a79fc1eeb24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 71/71] fix: strings of 2 GB or more could not be split

---
 cpp_utils/src/cpp/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 55808a7..494fa3d 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -413,9 +413,9 @@ std::vector<std::string> split_string(
         return result;
     }
 
-    int start = 0;
-    int end = source.find(delimiter);
-    while (end != -1)
+    std::size_t start = 0;
+    std::size_t end = source.find(delimiter);
+    while (end != std::string::npos)
     {
         result.push_back(source.substr(start, end - start));
         start = end + delimiter.size();
-- 
2.43.0

