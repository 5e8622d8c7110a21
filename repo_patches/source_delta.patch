From 60a0992aba308e5e1d28a877285f62e523a8afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 01/19] fix: CounterWaitHandler disable and destruction release
 threads in wait_threshold_reached

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp      |  6 +++++-
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp          | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..ce63b46 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -75,12 +75,16 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    /**
+     * @brief Override \c disable parent method to also awake the threads waiting for the threshold to be reached
+     */
+    CPP_UTILS_DllAPI void disable() noexcept override;
+
     /////
     // Wait methods
 
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..204ca50 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,16 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Threads waiting in this object's own condition variable must leave before it is destroyed
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+
+    // Awake threads waiting for the threshold to be reached
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
-- 
2.43.0


From 77f2c4e3060dbecece2564bac977c60c30c790cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 02/19] fix: CounterWaitHandler increment that reaches the
 threshold awakes wait_threshold_reached

---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 204ca50..794d6e0 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -143,6 +143,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If the threshold is reached from below, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From 1ce1df85db251a67471847f2370d4ee3fbde228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 03/19] fix: WaitHandler blocking_disable waits until the last
 waiter has released the mutex

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..da37f7c 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,9 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         wait_condition_variable_.notify_all();
     }
+
+    // The last thread leaves the count with mutex taken: wait till it has released it
+    std::lock_guard<std::mutex> waiters_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From 51f58ff7293108aed071028d692305f8419b4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 04/19] fix: GuardedPtr move assignment unlocks the data
 guarded so far

---
 .../include/cpp_utils/memory/impl/GuardedPtr.hpp |  4 ++--
 .../include/cpp_utils/memory/impl/GuardedPtr.ipp | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..500d582 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator. It unlocks the shared mutex held so far (if any) and gets the one held by \c other
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..73bcda6 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -31,6 +31,22 @@ GuardedPtr<T>::GuardedPtr(
     // Do nothing
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // The data guarded so far is no longer protected by this object
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+        data_reference_ = std::move(other.data_reference_);
+    }
+    return *this;
+}
+
 template<typename T>
 GuardedPtr<T>::~GuardedPtr()
 {
-- 
2.43.0


From b2b3257223de9e4cbd816ba28726ad39f617b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 05/19] fix: Heritable destroys an object of a derived class as
 what it was created

---
 cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
index d017976..a32db60 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
@@ -40,7 +40,7 @@ template <typename T>
 template <typename U>
 Heritable<T>::Heritable(
         U* ptr)
-    : data_ptr_(static_cast<T*>(ptr))
+    : data_ptr_(ptr)
 {
 }
 
-- 
2.43.0


From 9655a369222bd1d58a42930b80c78e579ad31831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 06/19] fix: Builder::refactor_values with a map of keys to
 values could not be compiled

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 7548addbc4642af24f3a06018351b0154bb56522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 07/19] fix: take a shared lock for each copy of a
 SafeDatabaseIterator

---
 .../cpp_utils/collection/database/SafeDatabase.hpp       | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..5470db2 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! Each copy holds its own shared lock, as each of them releases one when destroyed.
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..85eea7d 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 1a948be64a0c29c3317f6227b2d04ca2d757787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 08/19] fix: read the limits of a SafeDatabase under its mutex

---
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 85eea7d..1734e79 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -103,12 +103,16 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From 6694e7b7e66059933e8269c0d9cac09c1f6302ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 09/19] fix: enable again the task queue of a SlotThreadPool
 that was disabled

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..d6f1dd2 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // Enable Task Queue, as it may have been disabled if the pool was previously disabled
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 8ed2b9ed22c14b9010561f212a06143c48414c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 10/19] fix: next command of an empty history must not read out
 of bounds

With an empty history size() - 1 wraps around, so get_next_command() moved
the cursor forward and read command_history_[1].
---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..cf4f93f 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,6 +45,11 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
+    if (command_history_.empty())
+    {
+        return "";
+    }
+
     if (current_index_ < command_history_.size() - 1)
     {
         ++current_index_;
-- 
2.43.0


From fefa2137b15c1ccf921c123ba01ac9e53be2c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 11/19] fix: stop consuming log entries before a log event
 handler is destroyed

---
 .../cpp_utils/event/LogSevereEventHandler.hpp       |  7 +++++++
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp |  3 +++
 .../src/cpp/event/logging/LogSevereEventHandler.cpp | 13 ++++++++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..06b5c05 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,13 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    /**
+     * @brief Destroy the Log Event Handler object
+     *
+     * Stop consuming log entries and unset the callback.
+     */
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..b7362bc 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -51,6 +51,9 @@ LogEventHandler::LogEventHandler(
 
 LogEventHandler::~LogEventHandler()
 {
+    // Wait for the entry that is being consumed, and do not consume any other from now on
+    connection_callback_.reset();
+
     unset_callback();
 }
 
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..c373b7b 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,7 +26,7 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler()
     , threshold_(threshold)
 {
     // If threshold is lower than default log level (ERROR) set the filter lower
@@ -34,6 +34,17 @@ LogSevereEventHandler::LogSevereEventHandler(
     {
         utils::Log::SetVerbosity(threshold);
     }
+
+    // Set callback once this object is completely initialized, as entries may be consumed from now on
+    set_callback(callback);
+}
+
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // Stop consuming entries before this object starts to be destroyed
+    connection_callback_.reset();
+
+    unset_callback();
 }
 
 void LogSevereEventHandler::consume_(
-- 
2.43.0


From 006d8ec4e4140f770e4a3603bc0e6e81b0a8514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 12/19] fix: StdinEventHandler: do not divide by the width of
 an output that is not a terminal

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..3262d69 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    // The output may not be a terminal, or be one that does not know its size
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 4a320ffc3afc0fca60efa5ada86910d5b7b1cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 13/19] fix: StdinEventHandler: the end of the standard input
 ends the line instead of being typed for ever

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 3262d69..f54b69a 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -304,7 +304,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
             if (c == '\033')
             {
@@ -516,7 +516,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     }
                 }
             }
-            else if (c == '\n' || c == '\r')
+            else if (c == '\n' || c == '\r' || c == EOF) // The end of the input also ends the line
             {
                 std::cout << std::endl;
                 event_occurred_(read_str);
-- 
2.43.0


From bb684dc4ceed03bc0e6e0d1f54600bc4b9d322b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:21 +0000
Subject: [PATCH 14/19] fix: CommandReader: destroy the handler of the input
 before the queue that its thread uses

---
 .../include/cpp_utils/user_interface/CommandReader.hpp      | 6 +++---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..6f10daf 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,9 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    //! Event Handler used to read from stdin. It must be destroyed before \c commands_read_ , that its thread uses.
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..5c3608b 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 89470886504bc902d180688b5a75ed20667187d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 15/19] fix: CommandReader: the opening quote of an argument is
 not its closing one

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 5c3608b..6e6e203 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -64,9 +64,9 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
         {
             std::string joined = input[i];
 
-            // Keep joining until we find a string ending with a quote
+            // Keep joining until we find a string ending with a quote (other than the opening one)
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() < 2 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
@@ -75,7 +75,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             // a closing quote (") or not. If it is a closing quote
             // remove it from the string (value = 2)
             // otherwise keep all the string (value = 1)
-            int tmp = joined[joined.size() - 1] == '"' ? 2 : 1;
+            int tmp = joined.size() > 1 && joined.back() == '"' ? 2 : 1;
             result.push_back(joined.substr(1, joined.size() - tmp));
         }
         else
-- 
2.43.0


From 4046ee1e53d3f60a98035cb7b1f9a120e1736ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 16/19] fix: Python WaitHandler: a thread whose wait ends (also
 with an exception) is uncounted and notified

---
 py_utils/py_utils/wait/WaitHandler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..ef145d3 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -131,11 +131,14 @@ class WaitHandler:
 
             self._n_waiting_threads += 1
 
-            awaken_reason = self._condition.wait_for(
-                lambda: not self._enabled_nts() or predicate(self._value),
-                timeout)
-
-            self._n_waiting_threads -= 1
+            try:
+                awaken_reason = self._condition.wait_for(
+                    lambda: not self._enabled_nts() or predicate(self._value),
+                    timeout)
+            finally:
+                self._n_waiting_threads -= 1
+                # Notify that this thread has finished waiting (see blocking_disable)
+                self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
-- 
2.43.0


From 76e97d93162051da21025aeaaa805acef44bb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 17/19] fix: Python WaitHandler: blocking_disable releases the
 lock while it waits

---
 py_utils/py_utils/wait/WaitHandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index ef145d3..461501f 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -161,9 +161,9 @@ class WaitHandler:
     # Blocking disable method
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
-        self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._disable_nts()
+        # Release the lock while waiting, so that the waiting threads can finish
+        self._condition.wait_for(lambda: self._n_waiting_threads <= 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 0df90b734921c2ae38bda95ed7012c06912a81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 18/19] fix: WaitHandler: the value is initialised when no
 initial value is given

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index da37f7c..fbfcd45 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -27,7 +27,8 @@ namespace event {
 template <typename T>
 WaitHandler<T>::WaitHandler(
         bool enabled /* = true */)
-    : enabled_(enabled)
+    : value_()
+    , enabled_(enabled)
     , threads_waiting_(0)
 {
 }
-- 
2.43.0


From 64024e429828499d339f9dc6ca8889bf98eca637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:04 +0000
Subject: [PATCH 19/19] fix: CustomLogger: changing the format does not print
 each message once more

---
 py_utils/py_utils/logging/log_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..d245f6c 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,9 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        # The only handler of this logger (otherwise messages would be printed more than once)
+        self._handler = logging.StreamHandler()
+        self.addHandler(self._handler)
         self.set_format()
         self.set_log_level(log_level)
 
@@ -47,10 +50,7 @@ class CustomLogger(logging.Logger):
             self,
             format: str = '[%(asctime)s][%(name)s][%(levelname)s] %(message)s'):
         """Modifies format for logger."""
-        l_format = logging.Formatter(format)
-        l_handler = logging.StreamHandler()
-        l_handler.setFormatter(l_format)
-        self.addHandler(l_handler)
+        self._handler.setFormatter(logging.Formatter(format))
 
     def set_log_level(
             self,
-- 
2.43.0

