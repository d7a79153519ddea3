From e1a0a5793f02592bf77964ee14e1dda4a563b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 01/41] fix: qualify align() so over-aligned arguments can be
 logged with strings

Logging an argument with alignment greater than a pointer (e.g. long double)
together with a string argument failed to compile.
---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From 4fb30deebdcd6d1085cd0fb69fa4a946680b3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 02/41] fix: sanitize strings passed as r-values

An r-value std::string argument is moved into the log record instead of being
copied to the string table, and was written to the log unsanitized.
---
 include/xtr/detail/string_table.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..081cc83 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -23,12 +23,14 @@
 
 #include "pause.hpp"
 #include "is_c_string.hpp"
+#include "sanitize.hpp"
 #include "string_ref.hpp"
 #include "tags.hpp"
 
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <limits>
 #include <string>
 #include <string_view>
@@ -55,12 +57,27 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings which were moved into the log record are not in the string table,
+    // but must be sanitized in the same way as strings which are.
+    inline std::string transform_string_table_entry(
+        const std::byte*,
+        const std::string& value)
+    {
+        std::string sanitized;
+        auto pos = std::back_inserter(sanitized);
+        for (const char c : value)
+            sanitize_char_to(pos, c);
+        return sanitized;
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From c789be5e6ae263ef33eed139c9c5002a3484666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 03/41] fix: close the file descriptor opened by
 make_fd_storage

The storage duplicates the descriptor that it is given, so the descriptor
opened for the given path was leaked, once for each logger.
---
 src/fd_storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..5ff7511 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,18 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    // The storage duplicates the file descriptor, so this one must be closed
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 9c4b67eca2eead3b1ac64252f9d0833a76da53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 04/41] fix: keep the reopen path when falling back to
 posix_fd_storage

The path had been moved into the io_uring_fd_storage that failed to construct,
so log files could not be reopened after falling back.
---
 src/fd_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 5ff7511..ae7ea55 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -71,7 +71,7 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 76829c5dd96f7f71be77d4b528068d15ecffd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 05/41] fix: release the io_uring if its buffers cannot be
 registered

---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..9eb7178 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -208,6 +208,9 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
+        // This function is called by the constructor, so the destructor will
+        // not be run
+        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From 1aae1df0afc1e3f22c3d5a8cf2a585815d7dd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 06/41] fix: hold the control mutex while syncing the control
 sink

set_command_path and set_log_level_style wrote to the control sink without
holding the mutex, racing with any other logger function called concurrently.
---
 include/xtr/logger.hpp | 10 ++++++++++
 src/logger.cpp         |  6 ++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..3f47d2e 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -331,6 +331,16 @@ private:
         control_.post(std::forward<Func>(f));
     }
 
+    template<typename Func>
+    void post_and_sync(Func&& f)
+    {
+        // The lock must be held for the sync as well as the post, as both
+        // write to the control sink.
+        std::scoped_lock lock{control_mutex_};
+        control_.post(std::forward<Func>(f));
+        control_.sync();
+    }
+
     template<typename Clock>
     std::function<std::timespec()> make_clock(Clock&& clock)
     {
diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..7e7a6a4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,23 +43,21 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    post_and_sync(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
         });
-    control_.sync();
 }
 
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    post_and_sync(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
         });
-    control_.sync();
 }
 
 
-- 
2.43.0


From 18d25bdcb61624c86cc3fad945b29d9c492a15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 07/41] fix: data race between set_default_log_level and
 get_sink

---
 include/xtr/logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index 3f47d2e..88368c5 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -364,7 +365,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_ = log_level_t::info;
 
     friend sink;
 };
-- 
2.43.0


From f3b5392e74dfdeb6ee59d199f62ffe9957bc701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 08/41] fix: round clock values before the epoch down to a
 whole second

The result of the subtraction was discarded, so nanoseconds were negative for
clock values before the epoch and were printed like 23:59:59.-500000
---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index 88368c5..c04b6c1 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -355,7 +355,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From fb229ead0ad645bc5a8da1c0ba426deab0bce54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:32 +0000
Subject: [PATCH 09/41] fix: reject negative levels in the set level command

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..4341f95 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -217,7 +217,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From 9fd44f0b90d4b009dea1eb44fdec422ed508fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 10/41] fix: undefined behaviour on loading an invalid bool
 from a client

---
 include/xtr/detail/commands/pattern.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index cde5971..c66426d 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -28,7 +28,9 @@ namespace xtr::detail
     struct pattern
     {
         pattern_type_t type;
-        bool ignore_case;
+        // Not a bool because patterns are received from clients, and bytes other
+        // than zero or one are not valid representations of a bool
+        unsigned char ignore_case;
         char text[256];
     };
 }
-- 
2.43.0


From 0bade14c6532835afa82eb6b7e7a10bfb4a408d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 11/41] fix: out of bounds access after disconnecting the last
 client

---
 src/command_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..c7db65b 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From ff8c056787373b5af91c9372fcc4b9d158e96cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 12/41] fix: report dropped messages when a sink is closed

If messages were dropped and the sink was then closed before the background
thread had emptied its queue, the dropped messages were never reported.
---
 include/xtr/detail/consumer.hpp |  1 +
 src/consumer.cpp                | 26 ++++++++++++++++++--------
 src/sink.cpp                    |  7 ++++++-
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index e2bda1d..ef8e96e 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -81,6 +81,7 @@ public:
 
     buffer buf;
     bool destroy = false;
+    std::size_t destroy_dropped_count = 0;
 
 private:
     void status_handler(int fd, detail::status&);
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 4341f95..2dcb6e5 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -45,6 +45,19 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
     bool ts_stale = true;
     std::size_t flush_count = 0;
 
+    auto report_dropped =
+        [&](sink_handle& s, std::size_t n_dropped)
+        {
+            detail::print(
+                buf,
+                "{}{} {}: {} messages dropped\n",
+                log_level_t::warning,
+                ts,
+                s.name,
+                n_dropped);
+            s.dropped_count += n_dropped;
+        };
+
     for (std::size_t i = 0; !sinks_.empty(); ++i)
     {
         sink::ring_buffer::span span;
@@ -95,6 +108,10 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
 
         if (destroy)
         {
+            // The sink may no longer exist, so the number of messages dropped
+            // was saved when destroy was set
+            if (destroy_dropped_count > 0)
+                report_dropped(sinks_[n], destroy_dropped_count);
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
@@ -108,14 +125,7 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
         if (sinks_[n]->buf_.read_span().empty() &&
             (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
         {
-            detail::print(
-                buf,
-                "{}{} {}: {} messages dropped\n",
-                log_level_t::warning,
-                ts,
-                sinks_[n].name,
-                n_dropped);
-            sinks_[n].dropped_count += n_dropped;
+            report_dropped(sinks_[n], n_dropped);
         }
 
         // flushing may be late/early if sinks is modified, doesn't matter
diff --git a/src/sink.cpp b/src/sink.cpp
index 1f7b744..68b0513 100644
--- a/src/sink.cpp
+++ b/src/sink.cpp
@@ -71,7 +71,12 @@ void xtr::sink::close()
 {
     if (open_)
     {
-        sync_post([](detail::consumer& c) { c.destroy = true; });
+        sync_post(
+            [this](detail::consumer& c)
+            {
+                c.destroy = true;
+                c.destroy_dropped_count = buf_.dropped_count();
+            });
         open_ = false;
         // clear() is called here in case the sink is registered with the
         // logger again, e.g. via assignment. This is because when the
-- 
2.43.0


From c0fdbbb7228b51227e2e37a2b10e63334bb54aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 13/41] fix: flush messages logged immediately before a sink is
 closed

If a message and the close were read by the background thread together then
the message was not written until some other sink was used.
---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 2dcb6e5..78c4667 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -115,6 +115,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // Messages may have been read from the sink before it was destroyed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From 740d748213c4eb81393c4e92ce66b5d4cd657dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 14/41] fix: close the existing command socket before setting a
 new command path

Setting the path to the current path failed to bind (address in use), then
removed the existing socket. Setting the path to null_command_path did not close
the existing socket.
---
 src/consumer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 78c4667..63b86c4 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -144,6 +144,10 @@ void xtr::detail::consumer::add_sink(sink& s, const std::string& name)
 XTR_FUNC
 void xtr::detail::consumer::set_command_path(std::string path) noexcept
 {
+    // Any existing socket must be closed first, or else setting the path to the
+    // current path would fail to bind and then remove the existing socket.
+    cmds_.reset();
+
     if (path == null_command_path)
         return;
 
-- 
2.43.0


From 4abdda90fc82081722b62a784aa66d1ff54f5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 15/41] fix: sink missing from commands while the logger is
 being destructed

The control sink was assumed to always be the first sink, however when the
control sink is closed another sink takes its place.
---
 include/xtr/detail/consumer.hpp |  2 ++
 src/consumer.cpp                | 12 ++++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index ef8e96e..a75f71e 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -66,6 +66,7 @@ public:
     consumer(buffer&& bf, sink* control, std::string command_path)
     :
         buf(std::move(bf)),
+        control_(control),
         sinks_({{control, "control", 0}})
     {
         set_command_path(std::move(command_path));
@@ -88,6 +89,7 @@ private:
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
 
+    const sink* control_;
     std::vector<sink_handle> sinks_;
     std::unique_ptr<
         detail::command_dispatcher,
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 63b86c4..a14e109 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -209,11 +209,9 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         detail::frame<detail::sink_info> sif;
@@ -251,11 +249,9 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         s->set_level(sl.level);
-- 
2.43.0


From b5b0a98c2cb2912c4dc3ade30d2bcc044972db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:54 +0000
Subject: [PATCH 16/41] fix: accept the none level in xtrctl, as documented

---
 src/xtrctl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 0149c2b..2518645 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -56,7 +56,7 @@ namespace
             "\n"
             "  status [pattern]             Displays sink statuses\n"
             "  level <level> [pattern]      Sets sink log levels. Valid levels are;\n"
-            "                               fatal, error, warning, info, debug\n"
+            "                               none, fatal, error, warning, info, debug\n"
             "  reopen                       Reopens the log file\n"
             "\n"
             "The pattern accepted by the status and level commands is by default a\n"
@@ -115,9 +115,11 @@ int main(int argc, char* argv[])
     xtr::log_level_t log_level = xtr::log_level_t::none;
     xtrd::pattern_type_t pattern_type = xtrd::pattern_type_t::none;
     bool status = false;
+    bool level = false;
     bool reopen = false;
 
     std::map<std::string, xtr::log_level_t> levels_map{
+        {"none", xtr::log_level_t::none},
         {"fatal", xtr::log_level_t::fatal},
         {"error", xtr::log_level_t::error},
         {"warning", xtr::log_level_t::warning},
@@ -145,6 +147,7 @@ int main(int argc, char* argv[])
             usage(argv[0], EXIT_FAILURE, "Please specify a log level");
         if (levels_map.count(argv[2]) == 0)
             usage(argv[0], EXIT_FAILURE, "Invalid log level");
+        level = true;
         log_level = levels_map[argv[2]];
         ++optind;
     }
@@ -219,7 +222,7 @@ int main(int argc, char* argv[])
         if (nwritten != sizeof(st))
             err("Error writing to socket");
     }
-    else if (log_level != xtr::log_level_t::none)
+    else if (level)
     {
         xtrd::frame<xtrd::set_level> sl;
         sl->level = log_level;
-- 
2.43.0


From 566c5a2802253d0fe65176a9fd66d4056eaaea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:06 +0000
Subject: [PATCH 17/41] fix: buffer submitted twice if allocating the next
 buffer throws

---
 src/buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..16f0a0f 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -114,7 +114,12 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // Ensure that the buffer is not submitted again if allocating the next
+        // buffer throws
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From fd990a62a18d8e7d5226c7621a960d1d1916269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:06 +0000
Subject: [PATCH 18/41] fix: line torn if the storage throws while part of it
 has been written

The remainder of the line was discarded, so the next line to be logged was
joined on to the beginning of it.
---
 include/xtr/detail/buffer.hpp | 11 +++++--
 src/buffer.cpp                | 58 ++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/include/xtr/detail/buffer.hpp b/include/xtr/detail/buffer.hpp
index f7d0625..feebc48 100644
--- a/include/xtr/detail/buffer.hpp
+++ b/include/xtr/detail/buffer.hpp
@@ -30,6 +30,8 @@
 #include <cstddef>
 #include <cstring>
 #include <iterator>
+#include <string>
+#include <string_view>
 
 namespace xtr::detail
 {
@@ -47,9 +49,6 @@ public:
 
     ~buffer();
 
-    template<typename InputIterator>
-    void append(InputIterator first, InputIterator last);
-
     void flush() noexcept;
 
     storage_interface& storage() noexcept
@@ -63,9 +62,15 @@ public:
     log_level_style_t lstyle;
 
 private:
+    // str is modified to refer to what has not been appended
+    void append(std::string_view& str);
+
+    void append_partial_line();
+
     void next_buffer();
 
     storage_interface_ptr storage_;
+    std::string partial_line_;
     char* pos_ = nullptr;
     char* begin_ = nullptr;
     char* end_ = nullptr;
diff --git a/src/buffer.cpp b/src/buffer.cpp
index 16f0a0f..28b2112 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -26,6 +26,7 @@
 
 #include <span>
 #include <stdexcept>
+#include <string_view>
 #include <utility>
 
 XTR_FUNC
@@ -49,6 +50,8 @@ void xtr::detail::buffer::flush() noexcept
     try
     {
 #endif
+        if (!partial_line_.empty()) [[unlikely]]
+            append_partial_line();
         if (pos_ != begin_)
         {
             storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
@@ -71,22 +74,42 @@ void xtr::detail::buffer::flush() noexcept
 #endif
 }
 
-template<typename InputIterator>
-void xtr::detail::buffer::append(InputIterator first, InputIterator last)
+XTR_FUNC
+void xtr::detail::buffer::append(std::string_view& str)
 {
-    while (first != last)
+    while (!str.empty())
     {
         if (pos_ == end_) [[unlikely]]
             next_buffer();
 
-        const auto n = std::min(last - first, end_ - pos_);
+        const auto n = std::min(str.size(), std::size_t(end_ - pos_));
 
-        // Safe as the input iterator is contiguous
-        std::memcpy(pos_, &*first, std::size_t(n));
+        std::memcpy(pos_, str.data(), n);
 
         pos_ += n;
-        first += n;
+        str.remove_prefix(n);
+    }
+}
+
+// Completes a line that was cut short by an error from the storage
+XTR_FUNC
+void xtr::detail::buffer::append_partial_line()
+{
+    std::string_view str = partial_line_;
+#if __cpp_exceptions
+    try
+    {
+#endif
+        append(str);
+#if __cpp_exceptions
+    }
+    catch (...)
+    {
+        partial_line_.erase(0, partial_line_.size() - str.size());
+        throw;
     }
+#endif
+    partial_line_.clear();
 }
 
 // This class could support zero-copy I/O, with fmt writing directly into it
@@ -106,7 +129,26 @@ void xtr::detail::buffer::append(InputIterator first, InputIterator last)
 XTR_FUNC
 void xtr::detail::buffer::append_line()
 {
-    append(line.begin(), line.end());
+    if (!partial_line_.empty()) [[unlikely]]
+        append_partial_line();
+
+    std::string_view str = line;
+#if __cpp_exceptions
+    try
+    {
+#endif
+        append(str);
+#if __cpp_exceptions
+    }
+    catch (...)
+    {
+        // If part of the line has been written to a buffer then the rest of the
+        // line must be written before any other line.
+        if (str.size() != line.size())
+            partial_line_ = str;
+        throw;
+    }
+#endif
     line.clear();
 }
 
-- 
2.43.0


From d70dc539976a859e4674720454e7c48dd1e21f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:37 +0000
Subject: [PATCH 19/41] fix: data duplicated if a write fails after part of a
 buffer is written

A buffer which could not be submitted is submitted again later, however the part
of it that had already been written was written again.
---
 include/xtr/io/posix_fd_storage.hpp |  1 +
 src/posix_fd_storage.cpp            | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/xtr/io/posix_fd_storage.hpp b/include/xtr/io/posix_fd_storage.hpp
index 98a0512..af3f1b2 100644
--- a/include/xtr/io/posix_fd_storage.hpp
+++ b/include/xtr/io/posix_fd_storage.hpp
@@ -74,6 +74,7 @@ public:
 private:
     std::unique_ptr<char[]> buf_;
     std::size_t buffer_capacity_;
+    std::size_t nwritten_ = 0;
 };
 
 #endif
diff --git a/src/posix_fd_storage.cpp b/src/posix_fd_storage.cpp
index 052c86e..62d5de7 100644
--- a/src/posix_fd_storage.cpp
+++ b/src/posix_fd_storage.cpp
@@ -43,16 +43,21 @@ xtr::posix_fd_storage::posix_fd_storage(
 XTR_FUNC
 std::span<char> xtr::posix_fd_storage::allocate_buffer()
 {
+    nwritten_ = 0;
     return {buf_.get(), buffer_capacity_};
 }
 
 XTR_FUNC
 void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
 {
-    while (size > 0)
+    // If an error occurs after part of the buffer has been written then
+    // nwritten_ is not reset, so that if the buffer is submitted again then the
+    // part which was written is not duplicated.
+    while (nwritten_ < size)
     {
         const ::ssize_t nwritten =
-            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size));
+            XTR_TEMP_FAILURE_RETRY(
+                ::write(fd_.get(), buf + nwritten_, size - nwritten_));
         if (nwritten == -1)
         {
             detail::throw_system_error_fmt(
@@ -60,7 +65,7 @@ void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
                 "xtr::posix_fd_storage::submit_buffer: write failed");
             return;
         }
-        size -= std::size_t(nwritten);
-        buf += std::size_t(nwritten);
+        nwritten_ += std::size_t(nwritten);
     }
+    nwritten_ = 0;
 }
-- 
2.43.0


From c9447afa90fb8298ac744db418cccb082dece13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:37 +0000
Subject: [PATCH 20/41] fix: deadlock if the io_uring batch size is greater
 than the queue size

---
 src/io_uring_fd_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 9eb7178..f3e122c 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -46,7 +47,9 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // If the batch size was greater than the queue size then all buffers could
+    // be in use without any having been submitted.
+    batch_size_(std::clamp(batch_size, std::size_t(1), std::max(queue_size, std::size_t(1)))),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From 5509622310bbecf9fec46104010821c1aa10f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:37 +0000
Subject: [PATCH 21/41] fix: io_uring_fd_storage overwriting, reordering or
 tearing log data

If the file was not opened with O_APPEND then writes began at offset zero instead
of the current position, overwriting existing contents, and the position was
not moved so later writers overwrote the log. If the file was not seekable
(e.g. a pipe) then concurrent writes were reordered and torn.
---
 include/xtr/io/io_uring_fd_storage.hpp |  1 +
 src/io_uring_fd_storage.cpp            | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/xtr/io/io_uring_fd_storage.hpp b/include/xtr/io/io_uring_fd_storage.hpp
index 27098b5..6c1a660 100644
--- a/include/xtr/io/io_uring_fd_storage.hpp
+++ b/include/xtr/io/io_uring_fd_storage.hpp
@@ -159,6 +159,7 @@ private:
     std::size_t batch_index_ = 0;
     std::size_t pending_cqe_count_ = 0;
     std::size_t offset_ = 0;
+    bool seekable_ = true;
     buffer* free_list_;
     std::unique_ptr<std::byte[]> buffer_storage_;
     io_uring_submit_func_t io_uring_submit_func_;
diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index f3e122c..6995098 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -32,6 +32,8 @@
 #include <cstring>
 #include <limits>
 
+#include <unistd.h>
+
 XTR_FUNC
 xtr::io_uring_fd_storage::io_uring_fd_storage(
     int fd,
@@ -56,6 +58,14 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
     io_uring_sqring_wait_func_(io_uring_sqring_wait_func),
     io_uring_peek_cqe_func_(io_uring_peek_cqe_func)
 {
+    // Writes are made at explicit offsets, so start from the current position
+    // instead of overwriting anything which is already in the file. The position
+    // is not used if the file was opened with O_APPEND.
+    if (const ::off_t pos = ::lseek(fd_.get(), 0, SEEK_CUR); pos != -1)
+        offset_ = std::size_t(pos);
+    else
+        seekable_ = false;
+
     if (buffer_capacity > std::numeric_limits<decltype(io_uring_cqe::res)>::max())
         detail::throw_invalid_argument("buffer_capacity too large");
 
@@ -123,6 +133,11 @@ void xtr::io_uring_fd_storage::sync() noexcept
 {
     while (pending_cqe_count_ > 0)
         wait_for_one_cqe();
+    // Writes are made at explicit offsets so do not move the file position, which
+    // is shared with any duplicates of the file descriptor (e.g. stdout when
+    // inherited by another process).
+    if (seekable_)
+        ::lseek(fd_.get(), ::off_t(offset_), SEEK_SET);
     fd_storage_base::sync();
 }
 
@@ -163,6 +178,15 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 
     if (++batch_index_ % batch_size_ == 0)
         io_uring_submit_func_(&ring_);
+
+    // Offsets have no effect if the file is not seekable (e.g. a pipe), so if
+    // multiple writes were in flight they could be reordered.
+    if (!seekable_)
+    {
+        io_uring_submit_func_(&ring_);
+        while (pending_cqe_count_ > 0)
+            wait_for_one_cqe();
+    }
 }
 
 XTR_FUNC
-- 
2.43.0


From fc7fb769a861f6e35cba27c2c0f917b5f39dec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:37 +0000
Subject: [PATCH 22/41] fix: remainder of a short write written to the wrong
 file after a reopen

---
 src/io_uring_fd_storage.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 6995098..9eb8627 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -192,6 +192,15 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 XTR_FUNC
 void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
 {
+    // If a pending write is short or fails with EAGAIN then it is resubmitted
+    // using fd_, so all writes must complete before fd_ is replaced.
+    if (pending_cqe_count_ > 0)
+    {
+        io_uring_submit_func_(&ring_);
+        while (pending_cqe_count_ > 0)
+            wait_for_one_cqe();
+    }
+
     // As write events might be in-flight, closing the file descriptor must
     // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
     // ensure that all previous writes complete before closing.
-- 
2.43.0


From b8534a7de56b2eb63cdb072ed36d59ab287ae5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:17 +0000
Subject: [PATCH 23/41] fix: io_uring close completion mistaken for a short
 write

The user data of an SQE is not reset by io_uring_get_sqe or
io_uring_prep_close, so once the submission queue had wrapped around the
completion of the close operation queued by reopening referred to the
buffer of an earlier write, which was then written again.
---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 9eb8627..8e4d283 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -206,6 +206,9 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The SQE may have been used before, so would otherwise still refer to the
+    // buffer of an earlier write
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From 5be84154fea08da49f4c263fbf1866fd3ca6aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:40 +0000
Subject: [PATCH 24/41] fix: lines reordered after a reopen when using io_uring

IOSQE_IO_DRAIN on the close operation caused the first write to the newly
opened file to be deferred by the kernel and then overtaken by later writes.
Since the file is opened for appending this reordered (or tore) lines. All
writes have already completed when the close is queued, so draining is not
needed.
---
 src/io_uring_fd_storage.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 8e4d283..769a0d5 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -201,15 +201,16 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
             wait_for_one_cqe();
     }
 
-    // As write events might be in-flight, closing the file descriptor must
-    // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
-    // ensure that all previous writes complete before closing.
+    // IOSQE_IO_DRAIN is not needed as there are no writes in flight. It must not
+    // be used: as well as ordering the close operation after preceding writes it
+    // would cause the next write to be deferred, which could then be overtaken
+    // by later writes (which would reorder them, as the file has been reopened
+    // for appending).
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
     // The SQE may have been used before, so would otherwise still refer to the
     // buffer of an earlier write
     ::io_uring_sqe_set_data(sqe, nullptr);
-    sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
 
-- 
2.43.0


From de35b084c63f10e71c550baa4889762d93f8ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:28 +0000
Subject: [PATCH 25/41] fix: commands with an invalid pattern type applied to
 all sinks

A pattern whose type is not one of the defined ones is received from a client
was treated as no pattern at all, so e.g. a malformed level command changed the
level of every sink instead of being rejected.
---
 include/xtr/detail/commands/pattern.hpp |  6 ++++++
 src/consumer.cpp                        | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index c66426d..e3e9218 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -25,6 +25,12 @@ namespace xtr::detail
 {
     enum class pattern_type_t {none, extended_regex, basic_regex, wildcard};
 
+    // Patterns are received from clients, so may have any type
+    constexpr bool is_valid(pattern_type_t type)
+    {
+        return type >= pattern_type_t::none && type <= pattern_type_t::wildcard;
+    }
+
     struct pattern
     {
         pattern_type_t type;
diff --git a/src/consumer.cpp b/src/consumer.cpp
index a14e109..e00f7e0 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -197,6 +197,12 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
 {
     st.pattern.text[sizeof(st.pattern.text) - 1] = '\0';
 
+    if (!detail::is_valid(st.pattern.type))
+    {
+        cmds_->send_error(fd, "Invalid pattern type");
+        return;
+    }
+
     const auto matcher =
         detail::make_matcher(
             st.pattern.type, st.pattern.text, st.pattern.ignore_case);
@@ -237,6 +243,12 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
+    if (!detail::is_valid(sl.pattern.type))
+    {
+        cmds_->send_error(fd, "Invalid pattern type");
+        return;
+    }
+
     const auto matcher =
         detail::make_matcher(
             sl.pattern.type, sl.pattern.text, sl.pattern.ignore_case);
-- 
2.43.0


From f52ca45dea80927626e46f1cc2af078187f4482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 26/41] fix: hang if submitting io_uring requests fails
 temporarily

---
 include/xtr/io/io_uring_fd_storage.hpp |  2 ++
 src/io_uring_fd_storage.cpp            | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/xtr/io/io_uring_fd_storage.hpp b/include/xtr/io/io_uring_fd_storage.hpp
index 6c1a660..7b2311d 100644
--- a/include/xtr/io/io_uring_fd_storage.hpp
+++ b/include/xtr/io/io_uring_fd_storage.hpp
@@ -145,6 +145,8 @@ protected:
 private:
     void allocate_buffers(std::size_t queue_size);
 
+    void submit();
+
     io_uring_sqe* get_sqe();
 
     void wait_for_one_cqe();
diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 769a0d5..0bd0b70 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
 #include <cstdio>
 #include <cstring>
 #include <limits>
@@ -125,7 +126,7 @@ XTR_FUNC
 void xtr::io_uring_fd_storage::flush()
 {
     // SQEs may have been prepared but not submitted, due to batching
-    io_uring_submit_func_(&ring_);
+    submit();
 }
 
 XTR_FUNC
@@ -177,13 +178,13 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
     ++pending_cqe_count_;
 
     if (++batch_index_ % batch_size_ == 0)
-        io_uring_submit_func_(&ring_);
+        submit();
 
     // Offsets have no effect if the file is not seekable (e.g. a pipe), so if
     // multiple writes were in flight they could be reordered.
     if (!seekable_)
     {
-        io_uring_submit_func_(&ring_);
+        submit();
         while (pending_cqe_count_ > 0)
             wait_for_one_cqe();
     }
@@ -196,7 +197,7 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // using fd_, so all writes must complete before fd_ is replaced.
     if (pending_cqe_count_ > 0)
     {
-        io_uring_submit_func_(&ring_);
+        submit();
         while (pending_cqe_count_ > 0)
             wait_for_one_cqe();
     }
@@ -212,7 +213,7 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // buffer of an earlier write
     ::io_uring_sqe_set_data(sqe, nullptr);
     ++pending_cqe_count_;
-    io_uring_submit_func_(&ring_);
+    submit();
 
     fd_storage_base::replace_fd(newfd);
 }
@@ -258,6 +259,17 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     }
 }
 
+XTR_FUNC
+void xtr::io_uring_fd_storage::submit()
+{
+    // If a temporary failure was ignored then SQEs would be left unsubmitted, so
+    // waiting for their CQEs would never finish.
+    int res;
+    do
+        res = io_uring_submit_func_(&ring_);
+    while (res == -EAGAIN || res == -EINTR);
+}
+
 XTR_FUNC
 io_uring_sqe* xtr::io_uring_fd_storage::get_sqe()
 {
@@ -389,7 +401,7 @@ void xtr::io_uring_fd_storage::resubmit_buffer(buffer* buf, unsigned nwritten)
 
     ++pending_cqe_count_;
 
-    io_uring_submit_func_(&ring_);
+    submit();
 }
 
 XTR_FUNC
-- 
2.43.0


From 2ddb290d1482a9c1411bfb06b6cba4c3c9192e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:01 +0000
Subject: [PATCH 27/41] fix: xtrctl reporting success if there was no reply, or
 a malformed one

---
 src/xtrctl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 2518645..c169874 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -239,6 +239,7 @@ int main(int argc, char* argv[])
         send(fd.get(), rot);
     }
 
+    bool succeeded = status;
     std::vector<xtrd::sink_info> infos;
     xtrd::frame_buf buf;
 
@@ -256,7 +257,9 @@ int main(int argc, char* argv[])
             infos.push_back(*frame_cast<xtrd::sink_info>(&buf, std::size_t(nbytes)));
             break;
         case xtrd::success::frame_id:
+            frame_cast<xtrd::success>(&buf, std::size_t(nbytes));
             std::cout << "Success\n";
+            succeeded = true;
             break;
         case xtrd::error::frame_id:
             errx("Error: ", frame_cast<xtrd::error>(&buf, std::size_t(nbytes))->reason);
@@ -276,6 +279,9 @@ int main(int argc, char* argv[])
     for (const auto& info : infos)
         std::cout << info << "\n";
 
+    if (!succeeded)
+        errx("Error: Disconnected without a reply");
+
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 92100f8085ae66e88efb0354d4d26236e42684b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:01 +0000
Subject: [PATCH 28/41] fix: xtrctl reading beyond the end of unterminated
 strings in replies

---
 src/xtrctl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index c169874..d72c478 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -100,6 +100,13 @@ namespace
             errx("Invalid frame length");
         return &static_cast<xtrd::frame<Payload>*>(buf)->payload;
     }
+
+    template<std::size_t N>
+    void check_terminated(const char (&str)[N])
+    {
+        if (std::memchr(str, '\0', N) == nullptr)
+            errx("Invalid frame, string not terminated");
+    }
 }
 
 int main(int argc, char* argv[])
@@ -255,6 +262,7 @@ int main(int argc, char* argv[])
         {
         case xtrd::sink_info::frame_id:
             infos.push_back(*frame_cast<xtrd::sink_info>(&buf, std::size_t(nbytes)));
+            check_terminated(infos.back().name);
             break;
         case xtrd::success::frame_id:
             frame_cast<xtrd::success>(&buf, std::size_t(nbytes));
@@ -262,7 +270,11 @@ int main(int argc, char* argv[])
             succeeded = true;
             break;
         case xtrd::error::frame_id:
-            errx("Error: ", frame_cast<xtrd::error>(&buf, std::size_t(nbytes))->reason);
+        {
+            const auto* error = frame_cast<xtrd::error>(&buf, std::size_t(nbytes));
+            check_terminated(error->reason);
+            errx("Error: ", error->reason);
+        }
         default:
             errx("Invalid frame id");
         }
-- 
2.43.0


From 29d57bb6ec384f20090f937e5234ecd003b49a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:01 +0000
Subject: [PATCH 29/41] fix: xtrctl silently truncating long patterns

---
 src/xtrctl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index d72c478..213b8a4 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -209,6 +209,9 @@ int main(int argc, char* argv[])
     if (pattern_type != xtrd::pattern_type_t::none && pattern == nullptr)
         usage(argv[0], EXIT_FAILURE, "Pattern type specified, but no pattern given");
 
+    if (pattern != nullptr && std::strlen(pattern) >= sizeof(xtrd::pattern::text))
+        errx("Pattern too long");
+
     if (pattern != nullptr && pattern_type == xtrd::pattern_type_t::none)
         pattern_type = xtrd::pattern_type_t::basic_regex;
 
-- 
2.43.0


From 090b54a36fefbe9340263e4b8c6f3cb3fc83a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:04 +0000
Subject: [PATCH 30/41] fix: xtrctl indexing an empty pattern or path

An element of an empty string_view was referred to, which is undefined and
aborts if the standard library's assertions are enabled.
---
 include/xtr/detail/strzcpy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/strzcpy.hpp b/include/xtr/detail/strzcpy.hpp
index ac03246..99f4f2b 100644
--- a/include/xtr/detail/strzcpy.hpp
+++ b/include/xtr/detail/strzcpy.hpp
@@ -31,7 +31,7 @@ namespace xtr::detail
     void strzcpy(char (&dst)[DstSz], const Src& src)
     {
         const std::size_t n = std::min(DstSz - 1, std::size(src));
-        std::memcpy(dst, &src[0], n);
+        std::memcpy(dst, std::data(src), n);
         dst[n] = '\0';
     }
 }
-- 
2.43.0


From 6ceb51447f062a715b9afdf9e61f6cefa68d6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 31/41] fix: io_uring storage overwriting data written by
 others after sync()

The file position was set when syncing even if nothing had been written since
it was last set, and later writes continued at the offset known to the logger,
so anything written via the user's file descriptor after sync() was overwritten.
---
 include/xtr/io/io_uring_fd_storage.hpp |  1 +
 src/io_uring_fd_storage.cpp            | 27 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/xtr/io/io_uring_fd_storage.hpp b/include/xtr/io/io_uring_fd_storage.hpp
index 7b2311d..9d992ff 100644
--- a/include/xtr/io/io_uring_fd_storage.hpp
+++ b/include/xtr/io/io_uring_fd_storage.hpp
@@ -162,6 +162,7 @@ private:
     std::size_t pending_cqe_count_ = 0;
     std::size_t offset_ = 0;
     bool seekable_ = true;
+    bool position_valid_ = true; // true if nothing was submitted since sync()
     buffer* free_list_;
     std::unique_ptr<std::byte[]> buffer_storage_;
     io_uring_submit_func_t io_uring_submit_func_;
diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 0bd0b70..9312f1b 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -59,13 +59,7 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
     io_uring_sqring_wait_func_(io_uring_sqring_wait_func),
     io_uring_peek_cqe_func_(io_uring_peek_cqe_func)
 {
-    // Writes are made at explicit offsets, so start from the current position
-    // instead of overwriting anything which is already in the file. The position
-    // is not used if the file was opened with O_APPEND.
-    if (const ::off_t pos = ::lseek(fd_.get(), 0, SEEK_CUR); pos != -1)
-        offset_ = std::size_t(pos);
-    else
-        seekable_ = false;
+    seekable_ = ::lseek(fd_.get(), 0, SEEK_CUR) != -1;
 
     if (buffer_capacity > std::numeric_limits<decltype(io_uring_cqe::res)>::max())
         detail::throw_invalid_argument("buffer_capacity too large");
@@ -137,8 +131,11 @@ void xtr::io_uring_fd_storage::sync() noexcept
     // Writes are made at explicit offsets so do not move the file position, which
     // is shared with any duplicates of the file descriptor (e.g. stdout when
     // inherited by another process).
-    if (seekable_)
+    if (seekable_ && !position_valid_)
+    {
         ::lseek(fd_.get(), ::off_t(offset_), SEEK_SET);
+        position_valid_ = true;
+    }
     fd_storage_base::sync();
 }
 
@@ -153,7 +150,6 @@ std::span<char> xtr::io_uring_fd_storage::allocate_buffer()
 
     buf->size_ = 0;
     buf->offset_ = 0;
-    buf->file_offset_ = offset_;
 
     return {buf->data_, buffer_capacity_};
 }
@@ -164,6 +160,19 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
     buffer* buf = buffer::data_to_buffer(data);
     buf->size_ = unsigned(size);
 
+    // Writes are made at explicit offsets, so start from the current position
+    // instead of overwriting anything which is already in the file, including
+    // anything written via duplicates of the file descriptor since sync() was
+    // last called. The offset is not used if the file was opened with O_APPEND.
+    if (seekable_ && position_valid_)
+    {
+        if (const ::off_t pos = ::lseek(fd_.get(), 0, SEEK_CUR); pos != -1)
+            offset_ = std::size_t(pos);
+        position_valid_ = false;
+    }
+
+    buf->file_offset_ = offset_;
+
     io_uring_sqe* sqe = get_sqe();
 
     // Per https://github.com/axboe/liburing/issues/507#issuecomment-1005869351
-- 
2.43.0


From f2bcf4a3b8c24bcd160429cb424444b69c5d7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 32/41] fix: io_uring storage failing to write to sockets

All writes except the first failed with ESPIPE, as their offset was not zero.
---
 src/io_uring_fd_storage.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 9312f1b..c67e244 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -171,7 +171,8 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
         position_valid_ = false;
     }
 
-    buf->file_offset_ = offset_;
+    // Writes to sockets fail if the offset is not zero
+    buf->file_offset_ = seekable_ ? offset_ : 0;
 
     io_uring_sqe* sqe = get_sqe();
 
@@ -183,7 +184,8 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 
     ::io_uring_sqe_set_data(sqe, buf);
 
-    offset_ += size;
+    if (seekable_)
+        offset_ += size;
     ++pending_cqe_count_;
 
     if (++batch_index_ % batch_size_ == 0)
@@ -387,7 +389,8 @@ void xtr::io_uring_fd_storage::resubmit_buffer(buffer* buf, unsigned nwritten)
 {
     buf->size_ -= nwritten;
     buf->offset_ += nwritten;
-    buf->file_offset_ += nwritten;
+    if (seekable_)
+        buf->file_offset_ += nwritten;
 
     assert(io_uring_sq_space_left(&ring_) >= 1);
 
-- 
2.43.0


From 95190e5ed14bf87e8dbb04164202e46012779583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 33/41] fix: io_uring storage reordering writes after reopening
 a FIFO

If the file which was open previously was seekable then multiple writes to the
FIFO were in flight at once.
---
 src/io_uring_fd_storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index c67e244..ce2a8d1 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -227,6 +227,8 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     submit();
 
     fd_storage_base::replace_fd(newfd);
+
+    seekable_ = ::lseek(fd_.get(), 0, SEEK_CUR) != -1;
 }
 
 XTR_FUNC
-- 
2.43.0


From a6ca2a6bb6c9f4e64bea35c6454d817df7eef58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:55 +0000
Subject: [PATCH 34/41] fix: XTR_LOG_TSC divides by zero if the TSC frequency
 is not enumerated

On the processor models whose crystal frequency is known, and if CPUID
leaf 0x15 exists but does not enumerate the ratio (as is common in virtual
machines), read_tsc_hz() divided by zero and the process was killed by SIGFPE.
---
 src/tsc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..857f416 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -58,6 +58,10 @@ std::uint64_t xtr::detail::read_tsc_hz() noexcept
     // Where CCC = core crystal clock.
     auto [ratio_den, ratio_num, ccc_hz, unused] = cpuid(0x15);
 
+    // The ratio is not enumerated, which is common in virtual machines
+    if (ratio_den == 0 || ratio_num == 0)
+        return 0;
+
     if (ccc_hz == 0)
     {
         // Core crystal clock frequency not provided, must infer
-- 
2.43.0


From 05afb0ac180dfc92381a0948aeff7b42a15e7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 35/41] fix: std::string passed to nocopy being cut at the
 first null character

---
 include/xtr/detail/string_ref.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5a76114..7dc7738 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -42,17 +42,11 @@ namespace xtr::detail
         {
         }
 
-        explicit string_ref(const std::string& s)
-        :
-            str(s.c_str())
-        {
-        }
-
         const char* str;
     };
 
     string_ref(const char*) -> string_ref<const char*>;
-    string_ref(const std::string&) -> string_ref<const char*>;
+    string_ref(const std::string&) -> string_ref<std::string_view>;
     string_ref(const std::string_view&) -> string_ref<std::string_view>;
 
     template<>
-- 
2.43.0


From 8380c13bbeaaeb3ec3fc759425ba4ef3757e4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 36/41] fix: message lost if a string argument has a format
 specifier

The formatters of strings did not accept any format specifier, so e.g.
XTR_LOG(s, "{:>10}", str) printed an error and discarded the message.
---
 include/xtr/detail/string_ref.hpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 7dc7738..35621d4 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -23,8 +23,9 @@
 
 #include "sanitize.hpp"
 
-#include <fmt/core.h>
+#include <fmt/format.h>
 
+#include <iterator>
 #include <string>
 #include <string_view>
 
@@ -64,41 +65,33 @@ namespace xtr::detail
 
 namespace fmt
 {
+    // Strings are sanitized before formatting, so format specifiers such as the
+    // width or precision apply to the sanitized string.
     template<>
-    struct formatter<xtr::detail::string_ref<const char*>>
+    struct formatter<xtr::detail::string_ref<const char*>> : formatter<std::string_view>
     {
-        template<typename ParseContext>
-        constexpr auto parse(ParseContext &ctx)
-        {
-            return ctx.begin();
-        }
-
         template<typename FormatContext>
         auto format(xtr::detail::string_ref<const char*> ref, FormatContext &ctx) const
         {
-            auto pos = ctx.out();
+            std::string sanitized;
+            auto pos = std::back_inserter(sanitized);
             while (*ref.str != '\0')
                 xtr::detail::sanitize_char_to(pos, *ref.str++);
-            return pos;
+            return formatter<std::string_view>::format(sanitized, ctx);
         }
     };
 
     template<>
-    struct formatter<xtr::detail::string_ref<std::string_view>>
+    struct formatter<xtr::detail::string_ref<std::string_view>> : formatter<std::string_view>
     {
-        template<typename ParseContext>
-        constexpr auto parse(ParseContext &ctx)
-        {
-            return ctx.begin();
-        }
-
         template<typename FormatContext>
         auto format(const xtr::detail::string_ref<std::string_view> ref, FormatContext &ctx) const
         {
-            auto pos = ctx.out();
+            std::string sanitized;
+            auto pos = std::back_inserter(sanitized);
             for (const char c : ref.str)
                 xtr::detail::sanitize_char_to(pos, c);
-            return pos;
+            return formatter<std::string_view>::format(sanitized, ctx);
         }
     };
 }
-- 
2.43.0


From 3464f9ed53991dad5021a5443d3d718229ec2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 37/41] fix: message lost if the format string has argument
 indexes

The indexes are those of the arguments of the log statement, however the
level, timestamp and name were also arguments of the same format string.
---
 include/xtr/detail/print.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/xtr/detail/print.hpp b/include/xtr/detail/print.hpp
index 6713e4b..36285d6 100644
--- a/include/xtr/detail/print.hpp
+++ b/include/xtr/detail/print.hpp
@@ -26,6 +26,7 @@
 
 #include <fmt/format.h>
 
+#include <cassert>
 #include <iterator>
 #include <stdexcept>
 #include <string>
@@ -46,16 +47,31 @@ namespace xtr::detail
         try
         {
 #endif
+            // The format string begins with replacement fields for the level,
+            // timestamp and name. These are formatted separately so that they
+            // do not affect the indexes of the arguments.
+            constexpr std::string_view prefix{"{}{} {}"};
+
+            assert(fmt.substr(0, prefix.size()) == prefix);
+
             fmt::format_to(
                 std::back_inserter(buf.line),
 #if FMT_VERSION >= 80000
-                fmt::runtime(fmt),
+                fmt::runtime(prefix),
 #else
-                fmt,
+                prefix,
 #endif
                 buf.lstyle(level),
                 ts,
-                name,
+                name);
+
+            fmt::format_to(
+                std::back_inserter(buf.line),
+#if FMT_VERSION >= 80000
+                fmt::runtime(fmt.substr(prefix.size())),
+#else
+                fmt.substr(prefix.size()),
+#endif
                 args...);
 
             buf.append_line();
-- 
2.43.0


From e49dc8634f57849e50e71de58c4b3dfb53e1a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 38/41] fix: empty tuples and iterables without empty() not
 being formattable

---
 include/xtr/formatters.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/xtr/formatters.hpp b/include/xtr/formatters.hpp
index a13ead9..06e1195 100644
--- a/include/xtr/formatters.hpp
+++ b/include/xtr/formatters.hpp
@@ -57,6 +57,12 @@ namespace fmt
             return format_impl(value, ctx, std::make_index_sequence<std::tuple_size_v<T>>{});
         }
 
+        template<typename FormatContext>
+        auto format_impl(const T&, FormatContext& ctx, std::index_sequence<>) const
+        {
+            return fmt::format_to(ctx.out(), "()");
+        }
+
         template<typename FormatContext, std::size_t Index, std::size_t... Indexes>
         auto format_impl(
             const T& value,
@@ -64,11 +70,8 @@ namespace fmt
             std::index_sequence<Index, Indexes...>) const
         {
             fmt::format_to(ctx.out(), "(");
-            if (std::tuple_size_v<T> > 0)
-            {
-                fmt::format_to(ctx.out(), "{}", std::get<0>(value));
-                ((fmt::format_to(ctx.out(), ", {}", std::get<Indexes>(value))), ...);
-            }
+            fmt::format_to(ctx.out(), "{}", std::get<0>(value));
+            ((fmt::format_to(ctx.out(), ", {}", std::get<Indexes>(value))), ...);
             return fmt::format_to(ctx.out(), ")");
         }
     };
@@ -118,9 +121,9 @@ namespace fmt
         auto format(const T& value, FormatContext& ctx) const
         {
             fmt::format_to(ctx.out(), "[");
-            if (!value.empty())
+            // Not all iterable types provide empty(), e.g. std::valarray
+            if (auto it = std::begin(value); it != std::end(value))
             {
-                auto it = std::begin(value);;
                 fmt::format_to(ctx.out(), "{}", *it++);
                 while (it != std::end(value))
                     fmt::format_to(ctx.out(), ", {}", *it++);
-- 
2.43.0


From 6b8353682f77bfe29ac4b8410d6f8fe2da144b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:26 +0000
Subject: [PATCH 39/41] fix: build failure if exceptions are disabled and
 io_uring is enabled

---
 src/fd_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index ae7ea55..d9d256b 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,9 +69,12 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
 
     if (errno != ENOSYS)
     {
+#if __cpp_exceptions
         try
         {
+#endif
             return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
+#if __cpp_exceptions
         }
         catch (const std::exception& e)
         {
@@ -80,6 +83,7 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
                    "io_uring_fd_storage error: "
                 << e.what() << "\n";
         }
+#endif
     }
 #endif
     return std::make_unique<posix_fd_storage>(fd, std::move(reopen_path));
-- 
2.43.0


From 1f9905e42d4d77fd913d3bbdf69a3394b90eeff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 40/41] fix: round up sink capacities as documented

XTR_SINK_CAPACITY failed a static assertion if it was not a power of two, and
constructing a sink failed if it was less than the page size, while the
documentation says that capacities may be rounded up.
---
 include/xtr/sink.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index f768b91..7282043 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -31,7 +31,9 @@
 #include "detail/trampolines.hpp"
 #include "log_level.hpp"
 
+#include <algorithm>
 #include <atomic>
+#include <bit>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
@@ -217,10 +219,16 @@ private:
     auto make_lambda(Args&&... args)
         noexcept((XTR_NOTHROW_INGESTIBLE(Args, args) && ...));
 
-    using ring_buffer = detail::synchronized_ring_buffer<XTR_SINK_CAPACITY>;
+    // Capacities must be a power of two and a multiple of the page size, so
+    // round up
+    static constexpr std::size_t ring_capacity =
+        std::bit_ceil(
+            std::max(std::size_t{XTR_SINK_CAPACITY}, std::size_t{4096}));
+
+    using ring_buffer = detail::synchronized_ring_buffer<ring_capacity>;
 
     static_assert(
-        XTR_SINK_CAPACITY <=
+        ring_capacity <=
         std::numeric_limits<decltype(detail::string_table_entry::size)>::max(),
         "XTR_SINK_CAPACITY is too large");
 
-- 
2.43.0


From 7e367d6c5392ed470ebabde494b68b68620cfd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 41/41] fix: do not copy timestamps when printing them

User supplied timestamps were copied twice by the background thread, in
functions that are noexcept: a copy that throws terminated the process, and types
that cannot be copied did not compile, while any type with a formatter may be
used.
---
 include/xtr/detail/print.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtr/detail/print.hpp b/include/xtr/detail/print.hpp
index 36285d6..a71e171 100644
--- a/include/xtr/detail/print.hpp
+++ b/include/xtr/detail/print.hpp
@@ -39,7 +39,7 @@ namespace xtr::detail
         buffer& buf,
         std::string_view fmt,
         log_level_t level,
-        Timestamp ts,
+        const Timestamp& ts,
         const std::string& name,
         const Args&... args) noexcept
     {
@@ -97,7 +97,7 @@ namespace xtr::detail
         std::string_view fmt,
         log_level_t level,
         const std::string& name,
-        Timestamp ts,
+        const Timestamp& ts,
         const Args&... args) noexcept
     {
         print(buf, fmt, level, ts, name, args...);
-- 
2.43.0

