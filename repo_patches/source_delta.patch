From e07ac5181bca685ebf6a505110f597b47c7223e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 01/27] fix: construct queued records in place in the
 asynchronous sink

The queue hands out raw cells to enqueue_with and destroys them after dequeue, so assigning into a
cell operates on uninitialised (or already destroyed) strings. Also copy the record before acquiring
a cell: an exception thrown after that leaves the cell unpublished forever and wedges the queue.
---
 src/sink/asynchronous.p.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..0066754 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <condition_variable>
 #include <mutex>
+#include <new>
 
 namespace blackhole {
 inline namespace v1 {
@@ -92,6 +93,10 @@ auto asynchronous_t::capacity() const -> std::size_t {
 }
 
 auto asynchronous_t::emit(const record_t& record, const string_view& message) -> void {
+    // Copying may throw, so it must be done before a queue cell is acquired, otherwise the cell will
+    // never be published.
+    value_type item{recordbuf_t(record), message.to_string()};
+
     while (true) {
         // TODO: Uncomment.
         // switch (filter->filter(record, message)) {
@@ -102,8 +107,10 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         //     return;
         // }
 
+        // The cell is raw memory: the queue neither constructs its items nor keeps them alive after
+        // being dequeued.
         const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+            new(&value) value_type(std::move(item));
         });
 
         if (enqueued) {
-- 
2.43.0


From d28536b5ac6cd68c9e6bb2fa3a147eab284ad4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/27] fix: keep the kernel thread id of the logging thread in
 records

record_t::lwp() asked for the id of the calling thread, so a record consumed by the background
thread of an asynchronous sink reported that thread instead of the one that logged it.
---
 src/record.cpp    | 26 +++++++++++++++++++++-----
 src/recordbuf.hpp |  1 +
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/record.cpp b/src/record.cpp
index 79ae526..5ce3134 100644
--- a/src/record.cpp
+++ b/src/record.cpp
@@ -15,6 +15,18 @@
 namespace blackhole {
 inline namespace v1 {
 
+namespace {
+
+auto this_lwp() noexcept -> std::uint64_t {
+#if defined(__linux__)
+    return ::syscall(SYS_gettid);
+#else
+    return 0;
+#endif
+}
+
+}  // namespace
+
 record_t::record_t(severity_t severity,
     std::reference_wrapper<const string_view> message,
     std::reference_wrapper<const attribute_pack> attributes)
@@ -28,6 +40,7 @@ record_t::record_t(severity_t severity,
     inner.severity = severity;
     inner.timestamp = time_point();
 
+    inner.lwp = 0;
     inner.tid = ::pthread_self();
 
     inner.attributes = attributes;
@@ -54,11 +67,13 @@ auto record_t::pid() const noexcept -> std::uint64_t {
 }
 
 auto record_t::lwp() const noexcept -> std::uint64_t {
-#if defined(__linux__)
-    return ::syscall(SYS_gettid);
-#else
-    return 0;
-#endif
+    // Activated records carry the identifier of the thread that made them, because they may be
+    // consumed by another one.
+    if (inner().lwp != 0) {
+        return inner().lwp;
+    }
+
+    return this_lwp();
 }
 
 auto record_t::tid() const noexcept -> std::thread::native_handle_type {
@@ -84,6 +99,7 @@ auto record_t::activate(const string_view& formatted) noexcept -> void {
 
     // TODO: I can use coarse clock in linux.
     inner().timestamp = clock_type::now();
+    inner().lwp = this_lwp();
 }
 
 auto record_t::inner() noexcept -> inner_t& {
diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index bd238e6..84c2565 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -133,6 +133,7 @@ public:
         inner.formatted = formatted.view;
         inner.severity = record.severity();
         inner.timestamp = record.timestamp();
+        inner.lwp = record.lwp();
         inner.tid = record.tid();
         inner.attributes = pack;
     }
-- 
2.43.0


From 7f0438b7befe7c3981f5060ee861de440ceba2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 03/27] fix: drain the asynchronous sink's queue before
 stopping

The background thread checked the stop flag after an unsuccessful dequeue, so events enqueued
between these two actions right before the destruction were lost.
---
 src/sink/asynchronous.p.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 0066754..655b0bf 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -129,12 +129,16 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 
 auto asynchronous_t::run() -> void {
     while (true) {
+        // Must be checked before trying to dequeue, otherwise events that are enqueued between these two
+        // actions are lost.
+        const bool stopping = stopped.load();
+
         value_type result;
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
         });
 
-        if (stopped && !dequeued) {
+        if (stopping && !dequeued) {
             return;
         }
 
-- 
2.43.0


From 038dca2bf512aa8e14f9f3cee802cb643b60697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/27] fix: honour the overflow policy given to the
 asynchronous sink builder

build() ignored the policy and drop() && selected the waiting one.
---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..9883ae2 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From d3c4411397d610d377e0e8df4725dde39a90ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 05/27] fix: hide exceptions of the wrapped sink in the
 asynchronous sink

They were rethrown on the background thread, terminating the whole application.
---
 src/sink/asynchronous.p.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 655b0bf..a7aebb2 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -145,11 +145,12 @@ auto asynchronous_t::run() -> void {
         if (dequeued) {
             try {
                 wrapped->emit(result.record.into_view(), result.message);
-                overflow_policy->wakeup();
             } catch (...) {
-                throw;
+                // Must be hidden from the application: there is no one to catch it on this thread.
                 // TODO: exception_policy->process();
             }
+
+            overflow_policy->wakeup();
         } else {
             std::this_thread::sleep_for(std::chrono::milliseconds(1));
             // TODO: underflow_policy->underflow(); [wait for enqueue, sleep].
-- 
2.43.0


From 5a154e2bb338b1ec1409cd93c03196f34aa27c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 06/27] fix: never allocate while moving an owned record

The move operations are noexcept, but they copied the attribute list view, so running out of memory
inside asynchronous emit terminated the application.
---
 src/recordbuf.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index 84c2565..3e2bf44 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -57,6 +57,10 @@ struct view_of<std::string> {
     static auto from(const buffer_type& value) -> type {
         return {value};
     }
+
+    static auto rebind(type& view, const buffer_type& value) noexcept -> void {
+        view = from(value);
+    }
 };
 
 template<>
@@ -69,6 +73,11 @@ struct view_of<attributes_t> {
         std::copy(std::begin(value), std::end(value), std::back_inserter(result));
         return result;
     }
+
+    /// Makes the view refer to the elements of the value it was moved along with without allocations.
+    static auto rebind(type& view, const buffer_type& value) noexcept -> void {
+        std::copy(std::begin(value), std::end(value), std::begin(view));
+    }
 };
 
 } // namespace detail
@@ -86,15 +95,17 @@ struct owned_pair {
     owned_pair(const owned_pair& other) = delete;
     owned_pair(owned_pair&& other) :
         data(std::move(other.data)),
-        view(detail::view_of<T>::from(data))
-    {}
+        view(std::move(other.view))
+    {
+        detail::view_of<T>::rebind(view, data);
+    }
 
     auto operator=(const owned_pair& other) -> owned_pair& = delete;
     auto operator=(owned_pair&& other) -> owned_pair& {
         if (this != &other) {
             data = std::move(other.data);
             view = std::move(other.view);
-            view = detail::view_of<T>::from(data);
+            detail::view_of<T>::rebind(view, data);
         }
 
         return *this;
-- 
2.43.0


From c320398f0db0f016e370db77df04bfc9cae17a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 07/27] fix: do not revert a concurrent logger assignment when
 replacing the filter

filter() stored the configuration it had loaded back into the logger, undoing any assignment made in
the meantime.
---
 src/root.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..1d6485a 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -143,8 +143,6 @@ root_logger_t::filter(filter_t fn) -> void {
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0


From 82d3d1c2032338d2819629888d9e39b3674fd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 08/27] fix: destroy a replaced logger configuration outside of
 the lock

Handlers were destroyed while holding the spinlock that every log call takes: sinks that log from
their destructor deadlocked and everybody else was spinning until queues were drained.
---
 src/root.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/root.cpp b/src/root.cpp
index 1d6485a..eed1091 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -63,8 +63,10 @@ struct root_logger_t::sync_t {
 #ifdef __APPLE__
         std::atomic_store_explicit(&source, std::move(value), std::memory_order_release);
 #else
+        // The previous value is destroyed together with the argument, i.e. after releasing the lock,
+        // because its destruction may take a long time or even use this logger.
         std::lock_guard<mutex_type> lock(mutex);
-        source = std::move(value);
+        source.swap(value);
 #endif
     }
 };
-- 
2.43.0


From aa6853cbc6cc9902308a3be6718f393c9875319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 09/27] fix: keep open scopes of the current thread on logger
 assignment

Assigning a logger from a thread having scoped attributes attached detached them silently and broke
the scope stack, failing an assertion when they were destroyed.
---
 src/root.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index eed1091..6289fc2 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -129,9 +129,10 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     const auto inner = other.sync->load(other.inner);
     sync->store(this->inner, std::move(inner));
 
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
+    // Scoped attributes already attached to this logger by the current thread are still alive, so they
+    // must be kept if there is nothing to move.
+    if (other.sync->manager.get()) {
+        sync->manager.reset(other.sync->manager.get());
         sync->manager.get()->rebind(sync->manager);
     }
 
-- 
2.43.0


From 8ec2b96697b6851251eb58c7ec9d6556e7850c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 10/27] fix: report the system error when a log file cannot be
 opened

---
 src/sink/file.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..5c59699 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -89,11 +89,10 @@ auto ofstream_factory_t::create(const std::string& filename, std::ios_base::open
 
     try {
         stream->open(filename, mode);
-    } catch (const std::system_error& err) {
-        // Transform unspecified ios category into the system one to be able to obtain readable
-        // error message instead completely weird description.
-        throw std::system_error(err.code().value(), std::system_category());
     } catch (...) {
+        // Transform unspecified ios error, which carries no information about the reason, into the
+        // system one to be able to obtain readable error message instead completely weird
+        // description.
         throw std::system_error(errno, std::system_category());
     }
 
-- 
2.43.0


From b859486bae37ee1cb79d3ed5bf79f052d21c4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:58 +0000
Subject: [PATCH 11/27] fix: recover a file stream after a failed write and
 report the system error

---
 src/sink/file.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/sink/file.hpp b/src/sink/file.hpp
index 7933b8f..e4cdd1e 100644
--- a/src/sink/file.hpp
+++ b/src/sink/file.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
+#include <cerrno>
 #include <fstream>
 #include <limits>
 #include <map>
 #include <mutex>
+#include <system_error>
 
 #include <boost/assert.hpp>
 
@@ -26,12 +28,15 @@ class backend_t {
     std::unique_ptr<std::ostream> stream;
     std::unique_ptr<rotate_t> rotate;
     std::unique_ptr<flusher_t> flusher;
+    /// Set when a write operation has failed, leaving something to be flushed.
+    bool pending;
 
 public:
     backend_t(std::unique_ptr<std::ostream> stream, std::unique_ptr<rotate_t> rotate, std::unique_ptr<flusher_t> flusher) :
         stream(std::move(stream)),
         rotate(std::move(rotate)),
-        flusher(std::move(flusher))
+        flusher(std::move(flusher)),
+        pending(false)
     {}
 
     auto should_rotate() const -> bool {
@@ -39,10 +44,20 @@ public:
     }
 
     auto write(const string_view& message) -> void {
-        stream->write(message.data(), static_cast<std::streamsize>(message.size()));
-        stream->put('\n');
-        if (flusher->update(message.size() + 1) == flusher_t::flush) {
-            stream->flush();
+        try {
+            stream->write(message.data(), static_cast<std::streamsize>(message.size()));
+            stream->put('\n');
+            if (flusher->update(message.size() + 1) == flusher_t::flush || pending) {
+                stream->flush();
+                pending = false;
+            }
+        } catch (const std::ios_base::failure&) {
+            const auto ec = errno;
+            // Otherwise the stream remains broken forever, even when the reason has gone. Everything
+            // it has buffered is kept to be flushed by the next write.
+            stream->clear();
+            pending = true;
+            throw std::system_error(ec, std::system_category());
         }
     }
 };
-- 
2.43.0


From d144e34ceee8a1485ad71fc6eed7bf1a43b56b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 12/27] fix: bind stat-checked rotation to the file that has
 actually been opened

---
 src/sink/file.cpp             | 14 ++++++++++++--
 src/sink/file/rotate/stat.hpp |  7 ++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 5c59699..368da4a 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -140,8 +140,18 @@ auto file_t::backend(const std::string& filename) -> file::backend_t& {
 }
 
 auto file_t::create_backend(const std::string& filename) -> file::backend_t& {
-    auto stream = stream_factory->create(filename, std::ios_base::app | std::ios_base::out);
-    auto rotate = rotate_factory->create(filename);
+    const auto mode = std::ios_base::app | std::ios_base::out;
+
+    // The rotation state must describe the file the stream is attached to, but the file may be
+    // created, replaced or removed at any moment, so require the state to be valid both before and
+    // after the file has been opened.
+    std::unique_ptr<file::rotate_t> rotate;
+    std::unique_ptr<std::ostream> stream;
+    do {
+        rotate = rotate_factory->create(filename);
+        stream = stream_factory->create(filename, mode);
+    } while (rotate->should_rotate());
+
     auto flusher = flusher_factory->create();
     auto backend = file::backend_t(std::move(stream), std::move(rotate), std::move(flusher));
 
diff --git a/src/sink/file/rotate/stat.hpp b/src/sink/file/rotate/stat.hpp
index e605551..f5022c9 100644
--- a/src/sink/file/rotate/stat.hpp
+++ b/src/sink/file/rotate/stat.hpp
@@ -2,6 +2,7 @@
 
 #include <sys/stat.h>
 
+#include <cerrno>
 #include <string>
 #include <system_error>
 
@@ -24,11 +25,11 @@ public:
     {
         struct stat buf = {};
         auto rc = ::stat(this->filename.c_str(), &buf);
-        if (rc == -1) {
+        if (rc == 0) {
+            inode = std::int64_t(buf.st_ino);
+        } else if (errno != ENOENT) {
             throw std::system_error(errno, std::system_category());
         }
-
-        inode = std::int64_t(buf.st_ino);
     }
 
     auto should_rotate() -> bool override {
-- 
2.43.0


From 95a28b947f9cb7d74a825710b6b26d260b6f7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:21 +0000
Subject: [PATCH 13/27] fix: drop the TCP connection on any failure inside of a
 message

---
 src/sink/socket/tcp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..433d569 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -127,9 +127,10 @@ auto tcp_t::emit(const record_t&, const string_view& message) -> void {
 
     try {
         boost::asio::write(*socket, boost::asio::buffer(message.data(), message.size()));
-    } catch (const boost::system::system_error&) {
+    } catch (...) {
+        // Whatever has happened the message may be written partially.
         socket.reset();
-        std::rethrow_exception(std::current_exception());
+        throw;
     }
 }
 
-- 
2.43.0


From 9503023c80adf3d0761b1cb8ee43980f91e33584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:13 +0000
Subject: [PATCH 14/27] fix: guard the standard streams with a single mutex

---
 src/handler/dev.cpp  | 29 +++++++++++++----------------
 src/root.cpp         |  3 +++
 src/sink/console.cpp | 21 +++++++--------------
 src/util/console.hpp | 21 +++++++++++++++++++++
 4 files changed, 44 insertions(+), 30 deletions(-)
 create mode 100644 src/util/console.hpp

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index 31214a9..551d8f3 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -2,6 +2,7 @@
 
 #include <iostream>
 #include <mutex>
+#include <sstream>
 
 #include <boost/variant/variant.hpp>
 
@@ -15,6 +16,7 @@
 #include "../attribute.hpp"
 #include "../datetime.hpp"
 #include "../memory.hpp"
+#include "../util/console.hpp"
 #include "../util/deleter.hpp"
 
 namespace blackhole {
@@ -22,16 +24,6 @@ inline namespace v1 {
 namespace experimental {
 namespace handler {
 
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wglobal-constructors"
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-
-// Both standard output and error access mutex. Messages written with Blackhole will be
-// synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
-
-#pragma clang diagnostic pop
-
 namespace {
 
 auto streamfd(const std::ostream& stream) noexcept -> FILE* {
@@ -171,7 +163,7 @@ public:
 
             for (const auto& metalink : rec.attributes()) {
                 for (const auto& meta : metalink.get()) {
-                    stream << std::endl;
+                    stream << "\n";
                     colorize(stream, termcolor_t::gray());
                     stream << fmt::format("    {:<16.16}: ", meta.first);
                     colorize(stream, termcolor_t::reset());
@@ -182,19 +174,24 @@ public:
     }
 
     auto handle(const record_t& record) -> void {
-        auto& stream = std::cout;
-
-        std::lock_guard<std::mutex> lock(mutex);
+        // Render the entire block first, because it can fail and also attributes can be evaluated using
+        // a user code, which must not be called while holding the console lock.
+        std::ostringstream stream;
+        stream.exceptions(std::ios::badbit | std::ios::failbit);
         for (const auto& token : tokens) {
             token(stream, record);
         }
 
-        stream << std::endl;
+        const auto block = stream.str();
+
+        std::lock_guard<std::mutex> lock(console_mutex());
+        std::cout.write(block.data(), static_cast<std::streamsize>(block.size()));
+        std::cout << std::endl;
     }
 
 private:
     static auto colorize(std::ostream& stream, termcolor_t color) -> void {
-        if (isatty(stream)) {
+        if (isatty(std::cout)) {
             stream << color;
         }
     }
diff --git a/src/root.cpp b/src/root.cpp
index 6289fc2..adeb87e 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -13,6 +13,7 @@
 #include "blackhole/scope/watcher.hpp"
 
 #include "spinlock.hpp"
+#include "util/console.hpp"
 #include "util/deleter.hpp"
 
 namespace blackhole {
@@ -193,8 +194,10 @@ auto root_logger_t::consume(severity_t severity, const string_view& pattern, att
             try {
                 handler->handle(record);
             } catch (const std::exception& err) {
+                std::lock_guard<std::mutex> lock(console_mutex());
                 std::cout << "logging core error occurred: " << err.what() << std::endl;
             } catch (...) {
+                std::lock_guard<std::mutex> lock(console_mutex());
                 std::cout << "logging core error occurred: unknown" << std::endl;
             }
         }
diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 86a2ec3..3e036e7 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -18,6 +18,7 @@
 
 #include "../filter/zen.hpp"
 #include "../memory.hpp"
+#include "../util/console.hpp"
 #include "../util/deleter.hpp"
 #include "console.hpp"
 
@@ -25,16 +26,6 @@ namespace blackhole {
 inline namespace v1 {
 namespace sink {
 
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wglobal-constructors"
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-
-// Both standard output and error access mutex. Messages written with Blackhole will be
-// synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
-
-#pragma clang diagnostic pop
-
 namespace {
 
 auto streamfd(const std::ostream& stream) noexcept -> FILE* {
@@ -97,12 +88,14 @@ auto console_t::emit(const record_t& record, const string_view& formatted) -> vo
     }
 
     if (isatty(stream())) {
-        std::lock_guard<std::mutex> lock(mutex);
-        mapping(record)
-            .write(stream(), formatted.data(), formatted.size());
+        // The mapping is a user code, so it must be called before locking.
+        auto color = mapping(record);
+
+        std::lock_guard<std::mutex> lock(console_mutex());
+        color.write(stream(), formatted.data(), formatted.size());
         stream() << std::endl;
     } else {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::mutex> lock(console_mutex());
         stream().write(formatted.data(), static_cast<std::streamsize>(formatted.size()));
         stream() << std::endl;
     }
diff --git a/src/util/console.hpp b/src/util/console.hpp
new file mode 100644
index 0000000..f675f3a
--- /dev/null
+++ b/src/util/console.hpp
@@ -0,0 +1,21 @@
+#pragma once
+
+#include <mutex>
+
+namespace blackhole {
+inline namespace v1 {
+
+/// Returns the mutex that guards both standard output and standard error.
+///
+/// Everything Blackhole writes there - no matter whether it is a console sink, a development handler
+/// or an internal error report - must be written as a single piece with this mutex locked, otherwise
+/// an intermixing can occur.
+///
+/// No user code should be called with this mutex locked.
+inline auto console_mutex() noexcept -> std::mutex& {
+    static std::mutex mutex;
+    return mutex;
+}
+
+}  // namespace v1
+}  // namespace blackhole
-- 
2.43.0


From 730878a5cc3a9a0ca9db850abd2b26f9207d9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:13 +0000
Subject: [PATCH 15/27] fix: share the system logger connection between syslog
 sinks

---
 src/sink/syslog.cpp | 47 +++++++++++++++++++++++++++++++++++++++++----
 src/sink/syslog.hpp | 13 +++++++++++++
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6bd4941..373b68a 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -2,6 +2,8 @@
 
 #include <syslog.h>
 
+#include <mutex>
+
 #include "blackhole/config/node.hpp"
 #include "blackhole/config/option.hpp"
 #include "blackhole/stdext/string_view.hpp"
@@ -14,17 +16,54 @@ namespace blackhole {
 inline namespace v1 {
 namespace sink {
 
+namespace {
+
+// The connection to the system logger is shared across the entire process and it keeps referring to
+// the identity string given, so it should be opened with the first syslog sink and closed only with
+// the last one.
+struct connection_t {
+    std::mutex mutex;
+    std::size_t users;
+    std::string identity;
+};
+
+auto connection() -> connection_t& {
+    // Never destroyed, because sinks can outlive static objects.
+    static auto* connection = new connection_t();
+    return *connection;
+}
+
+}  // namespace
+
+syslog_t::session_t::session_t(const std::string& identity, int option, int facility) {
+    auto& conn = connection();
+
+    std::lock_guard<std::mutex> lock(conn.mutex);
+    if (conn.users == 0) {
+        conn.identity = identity;
+        ::openlog(conn.identity.c_str(), option, facility);
+    }
+    ++conn.users;
+}
+
+syslog_t::session_t::~session_t() {
+    auto& conn = connection();
+
+    std::lock_guard<std::mutex> lock(conn.mutex);
+    if (--conn.users == 0) {
+        ::closelog();
+    }
+}
+
 syslog_t::syslog_t() {
    data.option = LOG_PID;
    data.facility = LOG_USER;
    data.identity = procname().to_string();
 
-   ::openlog(identity().c_str(), option(), facility());
+   session.reset(new session_t(identity(), option(), facility()));
 }
 
-syslog_t::~syslog_t() {
-    ::closelog();
-}
+syslog_t::~syslog_t() = default;
 
 auto syslog_t::option() const noexcept -> int {
     return data.option;
diff --git a/src/sink/syslog.hpp b/src/sink/syslog.hpp
index 0484549..72a3e4d 100644
--- a/src/sink/syslog.hpp
+++ b/src/sink/syslog.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -10,6 +11,16 @@ inline namespace v1 {
 namespace sink {
 
 class syslog_t : public sink_t {
+    /// Represents a share in the process-wide connection to the system logger.
+    class session_t {
+    public:
+        session_t(const std::string& identity, int option, int facility);
+        session_t(const session_t& other) = delete;
+        ~session_t();
+
+        auto operator=(const session_t& other) -> session_t& = delete;
+    };
+
     struct {
         int option;
         int facility;
@@ -17,6 +28,8 @@ class syslog_t : public sink_t {
         std::vector<int> priorities;
     } data;
 
+    std::unique_ptr<session_t> session;
+
 public:
     syslog_t();
     syslog_t(const syslog_t& other) = delete;
-- 
2.43.0


From bebd0e1e3870748481a6d5b94c17aec6b3b8e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 16/27] fix: do not truncate streamed arguments silently when
 memory is exhausted

---
 include/blackhole/extensions/format.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 45fac32..a383eb6 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2667,7 +2667,14 @@ invoke_helper(std::basic_ostringstream<Char> &os, const U &v) {
 template <typename Char, typename T>
 void format(BasicFormatter<Char> &f, const Char *&format_str, const T &value) {
   std::basic_ostringstream<Char> os;
-  invoke_helper<T>(os, value);
+  // Exceptions are swallowed by formatted output functions by default, which results in silently
+  // truncated values.
+  os.exceptions(std::ios_base::badbit);
+  try {
+    invoke_helper<T>(os, value);
+  } catch (const std::ios_base::failure&) {
+    // The value has marked the stream as a bad one itself, it's not an error.
+  }
   std::basic_string<Char> str = os.str();
   internal::Arg arg = internal::MakeValue<Char>(str);
   arg.type = static_cast<internal::Arg::Type>(
-- 
2.43.0


From 65b5ce5f1610baaf1c55ead7cd5e2aad041f41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 17/27] fix: render timestamps in the requested time zone

---
 src/datetime/generator.linux.cpp | 4 +++-
 src/util/time.hpp                | 9 +++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..b6c0a70 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -31,7 +31,9 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // The broken-down time given represents either UTC or local time, depending on its offset.
+        auto copy = tm;
+        stream.write("{}", ::timegm(&copy) - tm.tm_gmtoff);
     }
 
     auto operator()(usecond_t) -> void {
diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..1e3f7c0 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = const_cast<char*>("GMT");
 
     return tp;
 }
@@ -83,12 +85,7 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    return ::localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From d5a197b1b464cf9dae0905291156bf07eb1de243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 18/27] fix: do not read past the end of string attributes in
 formatters

---
 src/formatter/json.cpp   | 2 +-
 src/formatter/string.cpp | 2 +-
 src/formatter/tskv.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..327cc30 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -96,7 +96,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..5d34e1b 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -82,7 +82,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..fcf686c 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -44,7 +44,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
-- 
2.43.0


From c0e1129a5e635b33dd4736ff348b206a477b060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 19/27] fix: render empty strings that are not zero-terminated
 as empty

---
 include/blackhole/extensions/format.hpp |  7 ++++++-
 src/format.cpp                          | 12 ++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index a383eb6..41fd491 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -732,6 +732,9 @@ FMT_SPECIALIZE_MAKE_UNSIGNED(LongLong, ULongLong);
 
 void report_unknown_type(char code, const char *type);
 
+// Reports a null C string argument, which unlike an empty string view is an error.
+void report_null_string();
+
 // Static data is placed in this class template to allow header-only
 // configuration.
 template <typename T = void>
@@ -1235,7 +1238,9 @@ class ArgVisitor {
       return FMT_DISPATCH(visit_long_double(arg.long_double_value));
     case Arg::CSTRING: {
       Arg::StringValue<char> str = arg.string;
-      str.size = 0;
+      if (!str.value)
+        report_null_string();
+      str.size = std::char_traits<char>::length(str.value);
       return FMT_DISPATCH(visit_string(str));
     }
     case Arg::STRING:
diff --git a/src/format.cpp b/src/format.cpp
index 575e4b7..438352b 100644
--- a/src/format.cpp
+++ b/src/format.cpp
@@ -632,6 +632,10 @@ FMT_FUNC void fmt::internal::report_unknown_type(char code, const char *type) {
         static_cast<unsigned>(code), type)));
 }
 
+FMT_FUNC void fmt::internal::report_null_string() {
+  FMT_THROW(fmt::FormatError("string pointer is null"));
+}
+
 #if FMT_USE_WINDOWS_H
 
 FMT_FUNC fmt::internal::UTF8ToUTF16::UTF8ToUTF16(fmt::StringRef s) {
@@ -795,14 +799,6 @@ void fmt::BasicWriter<Char>::write_str(
     internal::report_unknown_type(spec.type_, "string");
   const StrChar *str_value = s.value;
   std::size_t str_size = s.size;
-  if (str_size == 0) {
-    if (!str_value) {
-      FMT_THROW(FormatError("string pointer is null"));
-      return;
-    }
-    if (*str_value)
-      str_size = std::char_traits<StrChar>::length(str_value);
-  }
   std::size_t precision = spec.precision_;
   if (spec.precision_ >= 0 && precision < str_size)
     str_size = spec.precision_;
-- 
2.43.0


From f317cfe4d5823cf5cc9f013c68fa3ee65521f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 20/27] fix: do not require logging patterns to be
 zero-terminated

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..36b866f 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..4bfbc5c 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -17,8 +17,9 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    // The formatting library requires the pattern to be zero-terminated, but views are not.
+    wr.write(pattern.to_string(), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +88,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
-- 
2.43.0


From 1a56664eb8714e747b84cbb403b214ae603e2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 21/27] fix: accept empty views without data in the JSON
 formatter

RapidJSON asserts that strings have a non-null pointer even when they are
empty, so an empty message or attribute that is a default constructed
string_view aborted the application.
---
 src/formatter/json.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 327cc30..12970b5 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -32,6 +32,11 @@ inline namespace v1 {
 namespace formatter {
 namespace {
 
+/// Empty views may have no data at all, but RapidJSON requires a pointer.
+auto reference(const string_view& value) -> rapidjson::Value::StringRefType {
+    return rapidjson::StringRef(value.size() == 0 ? "" : value.data(), value.size());
+}
+
 struct visitor_t {
     typedef void result_type;
 
@@ -41,7 +46,7 @@ struct visitor_t {
     const string_view& name;
 
     auto operator()(std::nullptr_t) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        node.AddMember(reference(name), rapidjson::kNullType, allocator);
     }
 
     // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
@@ -52,17 +57,17 @@ struct visitor_t {
             std::is_same<T, std::int64_t>::value ||
             std::is_same<T, std::uint64_t>::value ||
             std::is_same<T, double>::value, "type mismatch");
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        node.AddMember(reference(name), value, allocator);
     }
 
     auto operator()(const string_view& value) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+        node.AddMember(reference(name),
+            reference(value), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
     auto operator()(const char* data, std::size_t size) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(reference(name),
             rapidjson::Value(data, static_cast<unsigned int>(size), allocator), allocator);
     }
 
@@ -70,7 +75,7 @@ struct visitor_t {
         writer_t wr;
         value(wr);
 
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(reference(name),
             wr.result().to_string(), allocator);
     }
 };
-- 
2.43.0


From 53facf1b7a5a1d8aba5adb6963d4f47c1a1f2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 22/27] fix: keep writing to the console after an error has
 gone

---
 src/handler/dev.cpp  |  3 +--
 src/root.cpp         |  4 ++--
 src/sink/console.cpp |  5 ++---
 src/util/console.hpp | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index 551d8f3..ccad252 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -1,7 +1,6 @@
 #include "blackhole/handler/dev.hpp"
 
 #include <iostream>
-#include <mutex>
 #include <sstream>
 
 #include <boost/variant/variant.hpp>
@@ -184,7 +183,7 @@ public:
 
         const auto block = stream.str();
 
-        std::lock_guard<std::mutex> lock(console_mutex());
+        console_guard_t guard;
         std::cout.write(block.data(), static_cast<std::streamsize>(block.size()));
         std::cout << std::endl;
     }
diff --git a/src/root.cpp b/src/root.cpp
index adeb87e..5c52072 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -194,10 +194,10 @@ auto root_logger_t::consume(severity_t severity, const string_view& pattern, att
             try {
                 handler->handle(record);
             } catch (const std::exception& err) {
-                std::lock_guard<std::mutex> lock(console_mutex());
+                console_guard_t guard;
                 std::cout << "logging core error occurred: " << err.what() << std::endl;
             } catch (...) {
-                std::lock_guard<std::mutex> lock(console_mutex());
+                console_guard_t guard;
                 std::cout << "logging core error occurred: unknown" << std::endl;
             }
         }
diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 3e036e7..a1652dd 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -4,7 +4,6 @@
 
 #include <iostream>
 #include <map>
-#include <mutex>
 
 #include <boost/optional/optional.hpp>
 
@@ -91,11 +90,11 @@ auto console_t::emit(const record_t& record, const string_view& formatted) -> vo
         // The mapping is a user code, so it must be called before locking.
         auto color = mapping(record);
 
-        std::lock_guard<std::mutex> lock(console_mutex());
+        console_guard_t guard;
         color.write(stream(), formatted.data(), formatted.size());
         stream() << std::endl;
     } else {
-        std::lock_guard<std::mutex> lock(console_mutex());
+        console_guard_t guard;
         stream().write(formatted.data(), static_cast<std::streamsize>(formatted.size()));
         stream() << std::endl;
     }
diff --git a/src/util/console.hpp b/src/util/console.hpp
index f675f3a..25cd50e 100644
--- a/src/util/console.hpp
+++ b/src/util/console.hpp
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <iostream>
 #include <mutex>
 
+#include <boost/io/ios_state.hpp>
+
 namespace blackhole {
 inline namespace v1 {
 
@@ -17,5 +20,23 @@ inline auto console_mutex() noexcept -> std::mutex& {
     return mutex;
 }
 
+/// Locks the mutex described above until destroyed.
+///
+/// A write error, for example because of a disk without free space, puts a standard stream into a failed
+/// state, which makes it ignore everything written later even if the error has gone. That's why the
+/// states of both streams (writing to standard error flushes standard output) are restored.
+class console_guard_t {
+    std::lock_guard<std::mutex> lock;
+    boost::io::ios_iostate_saver out;
+    boost::io::ios_iostate_saver err;
+
+public:
+    console_guard_t() :
+        lock(console_mutex()),
+        out(std::cout),
+        err(std::cerr)
+    {}
+};
+
 }  // namespace v1
 }  // namespace blackhole
-- 
2.43.0


From 8b0261c0c0eebc83670a04a4c19c442495ecb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:09 +0000
Subject: [PATCH 23/27] fix: destroy a replaced filter without holding the
 logger's lock

---
 src/root.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/root.cpp b/src/root.cpp
index 5c52072..a6b928d 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -144,8 +144,10 @@ auto
 root_logger_t::filter(filter_t fn) -> void {
     auto inner = sync->load(this->inner);
 
+    // The previous filter is destroyed together with the argument, i.e. after releasing the lock,
+    // because its destruction may take a long time or even use this logger.
     inner->apply([&](inner_t& inner) {
-        inner.filter = std::move(fn);
+        inner.filter.swap(fn);
     });
 }
 
-- 
2.43.0


From f96b3b30096d327b99dce3e1ccea2c6a90cbe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:09 +0000
Subject: [PATCH 24/27] fix: notice a log file replaced by one of another
 device

---
 src/sink/file/rotate/stat.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sink/file/rotate/stat.hpp b/src/sink/file/rotate/stat.hpp
index f5022c9..e347bef 100644
--- a/src/sink/file/rotate/stat.hpp
+++ b/src/sink/file/rotate/stat.hpp
@@ -3,6 +3,7 @@
 #include <sys/stat.h>
 
 #include <cerrno>
+#include <cstdint>
 #include <string>
 #include <system_error>
 
@@ -16,17 +17,21 @@ namespace rotate {
 
 class stat_rotate_t : public rotate_t {
     std::string filename;
+    // Inode numbers are unique within a single device only.
     std::int64_t inode;
+    std::uint64_t device;
 
 public:
     explicit stat_rotate_t(std::string filename) :
         filename(std::move(filename)),
-        inode(0)
+        inode(0),
+        device(0)
     {
         struct stat buf = {};
         auto rc = ::stat(this->filename.c_str(), &buf);
         if (rc == 0) {
             inode = std::int64_t(buf.st_ino);
+            device = std::uint64_t(buf.st_dev);
         } else if (errno != ENOENT) {
             throw std::system_error(errno, std::system_category());
         }
@@ -36,7 +41,7 @@ public:
         struct stat buf = {};
         auto rc = ::stat(filename.c_str(), &buf);
 
-        return !(rc == 0 && std::int64_t(buf.st_ino) == inode);
+        return !(rc == 0 && std::int64_t(buf.st_ino) == inode && std::uint64_t(buf.st_dev) == device);
     }
 };
 
-- 
2.43.0


From 7c9ac1f4cb136f5ae3303907ce80c0a26e9f6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:12 +0000
Subject: [PATCH 25/27] fix: do not abort when an option is missing in a
 configuration

---
 src/formatter/string.cpp  |  7 ++++++-
 src/sink/asynchronous.cpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 5d34e1b..5f333c9 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -19,6 +19,7 @@
 #include "../memory.hpp"
 #include "../procname.hpp"
 #include "../util/deleter.hpp"
+#include "../util/optional.hpp"
 #include "../util/time.hpp"
 #include "string/parser.hpp"
 #include "string/token.hpp"
@@ -343,6 +344,8 @@ public:
 using formatter::severity_map;
 using formatter::string_t;
 
+using util::value_or;
+
 class builder<string_t>::inner_t {
 public:
     std::string pattern;
@@ -377,7 +380,9 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    auto pattern = value_or(config["pattern"].to_string(), []() -> std::string {
+        throw std::invalid_argument(R"(parameter "pattern" is required)");
+    });
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index 9883ae2..c233d30 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -8,11 +8,14 @@
 
 #include "../memory.hpp"
 #include "../util/deleter.hpp"
+#include "../util/optional.hpp"
 #include "asynchronous.hpp"
 
 namespace blackhole {
 inline namespace v1 {
 
+using util::value_or;
+
 class builder<sink::asynchronous_t>::inner_t {
 public:
     std::unique_ptr<sink_t> wrapped;
@@ -71,8 +74,14 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    // The defaults are those of the builder.
+    auto factor = value_or(config["factor"].to_uint64(), []() -> std::uint64_t {
+        return 10;
+    });
+    auto overflow = sink::overflow_policy_factory_t().create(
+        value_or(config["overflow"].to_string(), []() -> std::string {
+            return "wait";
+        }));
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
-- 
2.43.0


From a10e34421d51de8cb3bc6d6aafba325fd4e5c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 26/27] fix: detach scopes from the logger they were moved from

Moving a logger with open scopes left the moved-from logger referring to the same watchers. Swapping
two loggers, or assigning a moved-from one anew, then attached foreign and, later, destroyed scopes to
its events.
---
 src/root.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/root.cpp b/src/root.cpp
index a6b928d..1e7f1be 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -116,6 +116,8 @@ root_logger_t::root_logger_t(root_logger_t&& other) noexcept :
 
     if (sync->manager.get()) {
         sync->manager.get()->rebind(sync->manager);
+        // They belong to this logger now and will never be detached from the other one.
+        other.sync->manager.reset(nullptr);
     }
 }
 
@@ -135,6 +137,7 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     if (other.sync->manager.get()) {
         sync->manager.reset(other.sync->manager.get());
         sync->manager.get()->rebind(sync->manager);
+        other.sync->manager.reset(nullptr);
     }
 
     return *this;
-- 
2.43.0


From 8687ed0a710cd78759864b773eda22e9480875d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:57 +0000
Subject: [PATCH 27/27] fix: make copied and moved wrappers refer to their own
 attributes

The attributes and the view of them are kept in small vectors, so the implicitly generated copy and move
constructors left the view referring to the attributes of the source: returning a wrapper by value or
keeping wrappers in a vector ended up with a use after free.
---
 include/blackhole/wrapper.hpp |  4 ++++
 src/wrapper.cpp               | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/blackhole/wrapper.hpp b/include/blackhole/wrapper.hpp
index d85b0c6..12f6e24 100644
--- a/include/blackhole/wrapper.hpp
+++ b/include/blackhole/wrapper.hpp
@@ -15,6 +15,10 @@ class wrapper_t : public logger_t {
 public:
     wrapper_t(logger_t& log, attributes_t attributes);
 
+    /// Copies or moves the wrapper along with its attributes; the result does not depend on the source.
+    wrapper_t(const wrapper_t& other);
+    wrapper_t(wrapper_t&& other);
+
     auto attributes() const noexcept -> const view_of<attributes_t>::type& {
         return attributes_view;
     }
diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index ffe9504..48baba2 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -15,6 +15,17 @@ wrapper_t::wrapper_t(logger_t& log, attributes_t attributes):
     }
 }
 
+// The view must refer to the own attributes, so neither copying nor moving it is enough.
+wrapper_t::wrapper_t(const wrapper_t& other):
+    wrapper_t(other.inner, other.storage)
+{}
+
+wrapper_t::wrapper_t(wrapper_t&& other):
+    wrapper_t(other.inner, std::move(other.storage))
+{
+    other.attributes_view.clear();
+}
+
 auto wrapper_t::log(severity_t severity, const message_t& message) -> void {
     attribute_pack pack{attributes()};
     inner.log(severity, message, pack);
-- 
2.43.0

