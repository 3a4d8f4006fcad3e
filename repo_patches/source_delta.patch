From 8b851076db26b4576f92f5a7effdafd03e7b43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 01/15] fix: check expiry before locking in LaG commands

An expired object that had not been collected yet was locked, and thereby
revived, by LaG, LaGQ, LaGK and LaGKQ.
---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..cd5ced0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From 52baf7fcf6a95776f1f7491585803a29a5506c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 02/15] fix: close client connections when the peer has closed
 them

A connection closed by its client was neither invalidated nor closed.  Each
one leaked a file descriptor and counted against max_connections forever.
---
 src/counter/sockets.cpp  | 1 +
 src/memcache/sockets.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..286b2be 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,7 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                invalidate_and_close();
                 break;
             }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cd5ced0..2003dee 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -62,6 +62,7 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                invalidate_and_close();
                 break;
             }
 
-- 
2.43.0


From bd1764046a19556472cc9816099529a65ee1efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 03/15] fix: identify lock owners by a unique connection id

The file descriptor was used as the owner.  It may be closed and reused by
another connection before the locks of the first one are released, so that
the new connection could modify or unlock objects locked by the old one and
a failed bookkeeping assertion terminated the server.
---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  |  6 +++---
 src/memcache/sockets.cpp | 11 +++++++----
 src/memcache/sockets.hpp |  4 ++++
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..fd2b0a5 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::int64_t g_context = -1;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..49ffe3c 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,8 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is a number unique to each client connection, or -1.
+extern thread_local std::int64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -171,7 +171,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = 1;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 2003dee..dfbb4e9 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,9 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+// The lock context of the last created connection.
+std::atomic<std::int64_t> last_context(0);
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -33,6 +38,7 @@ memcache_socket::memcache_socket(int fd,
                                  cybozu::hash_map<object>& hash,
                                  const std::vector<repl_socket*>& slaves)
     : cybozu::tcp_socket(fd),
+      m_context(last_context.fetch_add(1, relaxed)),
       m_busy(false),
       m_finder(finder),
       m_hash(hash),
@@ -44,10 +50,7 @@ memcache_socket::memcache_socket(int fd,
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..587c511 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <cstdint>
 #include <functional>
 #include <vector>
 
@@ -67,6 +68,9 @@ public:
     void cmd_text(const memcache::text_request& cmd);
 
 private:
+    // Identifies this connection as a lock owner.  File descriptors can not
+    // be used for this because they may be reused before locks are released.
+    const std::int64_t m_context;
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_busy;
     const std::function<cybozu::worker*()>& m_finder;
-- 
2.43.0


From 95c82d8a0326102cd07b99d99bee4bee8d69f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 04/15] fix: report a miss of LaGKQ

docs/locking.md: LaGQ and LaGKQ return the response with status code = 0x0001
if the object is not found.  Only LaGQ did.
---
 src/memcache/sockets.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index dfbb4e9..96257b4 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -221,7 +221,9 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() ||
+                cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From 65bc25799f3c64fb969251688f3675b1fb6be06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 05/15] fix: answer not found to a delete of an expired object

---
 src/memcache/sockets.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 96257b4..1175c00 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -400,6 +400,13 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -827,6 +834,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From b8178ace6160e05c643d40e5419e2ac5371714eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 06/15] fix: keep a flush requested during garbage collection

The collector reset the flush time to zero when it finished, and with it
a flush_all that had arrived while it ran: objects stored in buckets
already visited stayed valid.
---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..6bcff2c 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // keep another flush that was requested during this collection.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 04cb6f4690fa734a1003ebf64b92113c35c49838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 07/15] fix: do not hang in worker::stop when a job is
 finishing

stop() sets m_running just before the worker clears it at the end of its
job; the worker then spins for m_running forever and the join never
returns.  Let m_exit end the spin, too.
---
 cybozu/worker.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..9e1bc47 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -66,7 +66,7 @@ public:
     //
     // The thread will be joined automatically.
     void stop() {
-        m_exit = true;
+        m_exit.store(true, std::memory_order_release);
         m_running.store(true, std::memory_order_release);
         notify();
         m_thread.join();
@@ -81,9 +81,12 @@ public:
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
+            // `stop` may have set m_running just before it was cleared above,
+            // so m_exit must be checked, too.
+            while( ! m_running.load(std::memory_order_acquire) &&
+                   ! m_exit.load(std::memory_order_acquire) );
 
-            if( m_exit ) return;
+            if( m_exit.load(std::memory_order_acquire) ) return;
 
             m_job(m_buffer);
             m_buffer.reset();
@@ -93,7 +96,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 461e4a0dfccceedd2c376dde42c326090c55a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 08/15] fix: leave slave mode whenever the connection to master
 is lost

When a heartbeat (or pending data) could not be sent, the connection was
invalidated without stopping the reactor: the slave stayed without a
master and touched the destructed socket at the next interval.  Likewise,
the interval callback must not run after quit() as it destructs the
invalidated socket, which is still referred by on_slave_end.
---
 cybozu/reactor.cpp       | 1 +
 src/memcache/sockets.hpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index 2ab8f7d..8e99082 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -74,6 +74,7 @@ void reactor::run(std::function<void(reactor& r)> callback, int interval) {
     m_running = true;
     while( m_running ) {
         poll();
+        if( ! m_running ) break;
         auto now = crn::steady_clock::now();
         auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
         if( diff > milli_interval ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 587c511..29f76ad 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -156,6 +156,11 @@ private:
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_recvbuf;
 
+    virtual void on_invalidate(int fd) override final {
+        // A slave can not live without the connection to the master.
+        m_reactor->quit();
+        cybozu::tcp_socket::on_invalidate(fd);
+    }
     virtual bool on_readable(int) override final;
     virtual bool on_hangup(int) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
-- 
2.43.0


From c275958e6eda2c313a41cf7182e4bfdf98c229fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 09/15] fix: erase the old data after prepend when secure_erase
 is enabled

The temporary buffers took over the old contents of the object, but
released them without erasing.
---
 src/memcache/object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index fd2b0a5..574df0c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -116,14 +116,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From 263a11d34aae7b4fedc687e0cd9d2dd52e8f3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 10/15] fix: do not overflow in counter::object::acquire

An Acquire whose resources added to the current consumption exceed 32 bits
succeeded regardless of the maximum.
---
 src/counter/object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..52739b2 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,8 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        // be careful not to overflow.
+        if( resources > maximum || m_consumption > maximum - resources )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From fdd0b47a99782c6ce49b9febe2c6acd2a48100ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 11/15] fix: accept Set requests with empty data

Text clients can store empty objects, and a slave receives them as SetQ
with no data.  Its parser gave up before reading flags and the expiration
time, so such objects lost their flags and never expired on the slave.
---
 src/memcache/memcache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..d43ab5e 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -868,7 +868,9 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        // data may be empty; text clients can store such objects, and
+        // they are replicated with SetQ.
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
-- 
2.43.0


From 8e4453f2af7bf52aaaf2e6ee8e494694088df2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 12/15] fix: accept only digits as numbers in text requests

strtoull() accepts signs and skips white spaces including line breaks, so
a number could be taken from the line following the request, or from
beyond the received data.
---
 src/memcache/memcache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index d43ab5e..879ecaa 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,9 +53,11 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull accepts signs, and skips white spaces including line breaks.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-    if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
         errno == ERANGE ) return 0;
     char c = *end;
-- 
2.43.0


From 23353626021ae15e313c83b0a3666d2e9e2c3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 13/15] fix: apply max_data_size to cas, append and prepend

Only set, add and replace were limited, so objects could grow without
bounds.  Objects larger than the maximum request length are even lost on
slaves, as they can not receive their data.
---
 src/memcache/sockets.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 1175c00..8c376c4 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -355,6 +355,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -382,6 +386,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -689,6 +697,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -711,6 +723,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -723,6 +739,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 90111697e51b86d54f1a1117d89410674820726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 14/15] fix: do not lose a job posted before the worker thread
 runs

---
 cybozu/worker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 9e1bc47..61b285f 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -76,12 +76,11 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            // `stop` may have set m_running just before it was cleared above,
+            // `stop` may have set m_running just before it was cleared below,
             // so m_exit must be checked, too.
             while( ! m_running.load(std::memory_order_acquire) &&
                    ! m_exit.load(std::memory_order_acquire) );
@@ -90,6 +89,10 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+
+            // A job may have been posted before this thread began to run,
+            // so the flag must be cleared only after the job is done.
+            m_running.store(false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From a511e4310f2d7f48ee6a5db307649e5111998fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 15/15] fix: responses to unknown opcodes carry the opcode of
 the request

---
 src/counter/counter.cpp   | 5 +++--
 src/counter/counter.hpp   | 2 ++
 src/memcache/memcache.hpp | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/counter/counter.cpp b/src/counter/counter.cpp
index 3b84948..6cd4cc7 100644
--- a/src/counter/counter.cpp
+++ b/src/counter/counter.cpp
@@ -52,7 +52,8 @@ void request::parse(const char* p, std::size_t len) noexcept {
     cybozu::ntoh(p + 4, body_length);
     if( len < HEADER_SIZE + body_length ) return;  // incomplete
 
-    m_command = (counter::command)*(const uint8_t*)(p + 1);
+    m_opcode = *(const uint8_t*)(p + 1);
+    m_command = (counter::command)m_opcode;
     m_flags = *(const uint8_t*)(p + 2);
     m_body_length = body_length;
     m_opaque = p + 8;
@@ -120,7 +121,7 @@ void request::parse(const char* p, std::size_t len) noexcept {
 inline void response::fill_header(char* header, counter::status status,
                                   std::uint32_t body_length) {
     header[0] = (char)RESPONSE_MAGIC;
-    header[1] = (char)m_request.command();
+    header[1] = (char)m_request.opcode();
     header[2] = (char)status;
     header[3] = 0;
     cybozu::hton(body_length, header + 4);
diff --git a/src/counter/counter.hpp b/src/counter/counter.hpp
index a2d3e95..458919b 100644
--- a/src/counter/counter.hpp
+++ b/src/counter/counter.hpp
@@ -50,6 +50,7 @@ public:
 
     std::size_t length() const noexcept { return m_request_length; }
     counter::command command() const noexcept { return m_command; }
+    std::uint8_t opcode() const noexcept { return m_opcode; }
     std::uint8_t flags() const noexcept { return m_flags; }
     std::uint32_t body_length() const noexcept { return m_body_length; }
     const char* opaque() const noexcept { return m_opaque; }
@@ -63,6 +64,7 @@ private:
 
     std::size_t m_request_length = 0;
     counter::command m_command = counter::command::Unknown;
+    std::uint8_t m_opcode = 0;
     std::uint8_t m_flags = 0;
     std::uint32_t m_body_length = 0;
     const char* m_opaque = nullptr;
diff --git a/src/memcache/memcache.hpp b/src/memcache/memcache.hpp
index 37b6464..c61f2fb 100644
--- a/src/memcache/memcache.hpp
+++ b/src/memcache/memcache.hpp
@@ -311,6 +311,9 @@ public:
     // Return the command type.
     binary_command command() const noexcept { return m_command; }
 
+    // Return the opcode byte as received.
+    char opcode() const noexcept { return m_p[1]; }
+
     // The command is quiet or not.
     bool quiet() const noexcept { return m_quiet; }
 
@@ -398,7 +401,7 @@ private:
                      std::uint32_t data_len, std::uint64_t cas,
                      binary_status status = binary_status::OK) const noexcept {
         buf[0] = '\x81';
-        buf[1] = (char)m_request.command();
+        buf[1] = m_request.opcode();
         cybozu::hton(key_len, buf+2);
         buf[4] = (char)extras_len;
         buf[5] = '\x00';
-- 
2.43.0

