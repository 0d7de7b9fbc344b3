From 762b1816743e88a9b8e55c74e73437fecb2b8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/39] fix: retry an interrupted futex wait in Flag::block

A signal delivered to a thread blocked on a Flag made futex return EINTR,
which was treated as fatal and stopped the process.
---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From 07acf4807b0d26f71438a46284a0f653eacca97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 02/39] fix: keep the continuation given to Task::then alive
 until it is called

---
 rpp/async.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..5560d1e 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -215,6 +215,13 @@ struct Task {
     template<typename F>
         requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
+        return then_<Invoke_Result<F, R>, F>(rpp::forward<F>(f));
+    }
+
+private:
+    // F is a value unless then() was given an lvalue: the continuation lives in the coroutine frame.
+    template<typename T, typename F>
+    [[nodiscard]] T then_(F f) noexcept {
         if constexpr(Same<R, void>) {
             co_await *this;
             co_return (co_await f());
@@ -223,7 +230,6 @@ struct Task {
         }
     }
 
-private:
     std::coroutine_handle<Promise<R, A>> handle;
 };
 
-- 
2.43.0


From 46ec2300d2eba1700c11076e55e69e1e4a360d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 03/39] fix: let Task<void>::then accept a continuation without
 arguments

---
 rpp/async.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpp/async.h b/rpp/async.h
index 5560d1e..631cf05 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -217,6 +217,11 @@ struct Task {
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
         return then_<Invoke_Result<F, R>, F>(rpp::forward<F>(f));
     }
+    template<typename F>
+        requires Same<R, void> && Invocable<F> && Is_Task<Invoke_Result<F>>
+    [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F> {
+        return then_<Invoke_Result<F>, F>(rpp::forward<F>(f));
+    }
 
 private:
     // F is a value unless then() was given an lvalue: the continuation lives in the coroutine frame.
-- 
2.43.0


From 7fbdb5cbebba3cbdfbd267a8138b071a8352b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 04/39] fix: give a pool at least one worker on a machine with
 one hardware thread

---
 rpp/pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..34d0ad8 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,8 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{
+              Vec<Thread_State, A>::make(Math::max(Thread::hardware_threads(), u64{2}) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -61,7 +62,7 @@ struct Pool {
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
-- 
2.43.0


From d14fd21c09c0291a46a4f9cf70c12bffb3a94937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 05/39] fix: retry an interrupted epoll_wait in Event::wait_any

---
 rpp/pos/async_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..f5de4a7 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -83,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret = -1;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From 4421bb5cd0cb12005cc75d0607e36aa9f931b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 06/39] fix: do not disarm the timer in Async::wait for zero
 milliseconds

---
 rpp/pos/asyncio_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..967b8c1 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -74,6 +74,10 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) {
+        // A zero value would disarm the timer.
+        spec.it_value.tv_nsec = 1;
+    }
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 3e6118558325410818b146b957a8e2606dabd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 07/39] fix: let Event::reset of an event that is not signalled
 do nothing

---
 rpp/pos/async_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index f5de4a7..58e39cb 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -57,7 +57,7 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    if(ret == -1 && errno != EAGAIN) {
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From 9fac99e219b5f8f91f98498cdeb39384e6a56d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 08/39] fix: make Thread::sleep sleep the whole time, however
 long or interrupted

---
 rpp/pos/thread_pos.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index bee9967..8cb9d93 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -17,6 +17,7 @@
 #include <errno.h>
 #include <string.h>
 #include <sys/syscall.h>
+#include <time.h>
 #include <unistd.h>
 
 namespace rpp::Thread {
@@ -35,7 +36,11 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    timespec left = {};
+    left.tv_sec = ms / 1000;
+    left.tv_nsec = (ms % 1000) * 1000000;
+    while(nanosleep(&left, &left) == -1 && errno == EINTR) {
+    }
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0


From 23fc4cedd938a0dd59b7de27db76684640095a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 09/39] fix: read files completely, and report every failure to
 as no value

---
 rpp/pos/asyncio_pos.cpp | 27 +-------------------------
 rpp/pos/files_pos.cpp   | 42 +++++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 967b8c1..f3bcbcc 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -14,32 +14,7 @@ namespace rpp::Async {
 
 [[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path_) noexcept {
 
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
-    }
-
-    if(fd == -1) {
-        warn("Failed to open file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= UINT32_MAX);
-
-    Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    close(fd);
-    co_return Opt{rpp::move(data)};
+    co_return Files::read(path_);
 }
 
 [[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..0354222 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -12,7 +13,9 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        do {
+            fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        } while(fd == -1 && errno == EINTR);
     }
 
     if(fd == -1) {
@@ -20,17 +23,36 @@ namespace rpp::Files {
         return {};
     }
 
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= RPP_UINT32_MAX);
+    struct stat info;
+    if(fstat(fd, &info) == -1) {
+        warn("Failed to stat file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
+    if(!S_ISREG(info.st_mode) || info.st_size > RPP_UINT32_MAX) {
+        warn("Failed to read file %: not a regular file of supported size", path_);
+        close(fd);
+        return {};
+    }
+    u64 full_size = static_cast<u64>(info.st_size);
 
-    Vec<u8, Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
+    Vec<u8, Alloc> data(full_size);
+    data.resize(full_size);
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        return {};
+    for(u64 done = 0; done < full_size;) {
+        i64 ret = ::read(fd, data.data() + done, full_size - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(ret == 0) {
+            warn("Failed to read file %: it became shorter", path_);
+            close(fd);
+            return {};
+        }
+        done += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From d63f9bb560155df159e7ddc184272785cf097f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 10/39] fix: make file writes create the file, complete, and
 report every failure

---
 rpp/pos/asyncio_pos.cpp | 21 +--------------------
 rpp/pos/files_pos.cpp   | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index f3bcbcc..60cf8e4 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,9 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
-#include <fcntl.h>
 #include <sys/epoll.h>
-#include <sys/stat.h>
 #include <sys/timerfd.h>
 #include <unistd.h>
 
@@ -19,24 +17,7 @@ namespace rpp::Async {
 
 [[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
 
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
-    }
-
-    if(fd == -1) {
-        warn("Failed to create file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    close(fd);
-    co_return true;
+    co_return Files::write(path_, data);
 }
 
 [[nodiscard]] Task<void> wait(Pool<>& pool, u64 ms) noexcept {
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 0354222..2863fd3 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -64,7 +64,10 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        do {
+            fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC,
+                      0666);
+        } while(fd == -1 && errno == EINTR);
     }
 
     if(fd == -1) {
@@ -72,12 +75,21 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        return false;
+    for(u64 done = 0; done < data.length();) {
+        i64 ret = ::write(fd, data.data() + done, data.length() - done);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += static_cast<u64>(ret);
     }
 
-    close(fd);
+    if(close(fd) == -1) {
+        warn("Failed to close file %: %", path_, Log::sys_error());
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From f845c55e9507bea80fe3ee2be7927e4293c81f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 11/39] fix: compare modification times at the resolution the
 system provides

---
 rpp/pos/files_pos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 2863fd3..5c5a911 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -102,7 +102,13 @@ namespace rpp::Files {
             warn("Failed to stat file %: %", path_, Log::sys_error());
             return {};
         }
-        return Opt{static_cast<File_Time>(info.st_mtime)};
+#ifdef RPP_OS_MACOS
+        timespec time = info.st_mtimespec;
+#else
+        timespec time = info.st_mtim;
+#endif
+        return Opt{static_cast<File_Time>(time.tv_sec) * 1000000000 +
+                   static_cast<File_Time>(time.tv_nsec)};
     }
 }
 
-- 
2.43.0


From 00294e7bbee108cddc333b75ec79b9d6fa1e1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 12/39] fix: survive an interrupted send and return no packet
 on any receive error

---
 rpp/pos/net_pos.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..a02cd55 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -63,7 +63,7 @@ void Udp::bind(Address address) noexcept {
     i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,
                          reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);
 
-    if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+    if(ret == -1) {
         return Opt<Data>{};
     }
 
@@ -72,8 +72,11 @@ void Udp::bind(Address address) noexcept {
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
 
-    i64 ret = ::sendto(fd, out.data(), length, 0,
+    i64 ret;
+    do {
+        ret = ::sendto(fd, out.data(), length, 0,
                        reinterpret_cast<const sockaddr*>(&address.sockaddr_), sizeof(sockaddr_in));
+    } while(ret == -1 && errno == EINTR);
     if(ret == -1) {
         die("Failed send packet: %", Log::sys_error());
     }
-- 
2.43.0


From 0104e954a84d811f8cff631bb90f9711734a5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 13/39] fix: close the socket a Udp object is assigned over

---
 rpp/pos/net_pos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index a02cd55..902a918 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,12 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    if(this == &src) {
+        return *this;
+    }
+    if(fd != -1) {
+        close(fd);
+    }
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 8df151da32bd23525cbb0a40cd96f47c5fbf99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 14/39] fix: let Mpool hold types whose size is not a power of
 two

---
 rpp/alloc1.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 2f89c61..18cf31f 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -57,7 +57,8 @@ private:
     using Backing = Mallocator<name>;
 
     struct Block {
-        alignas(Math::min<u64>(N, 16)) u8 data[N];
+        // The alignment of a type divides its size, so this is sufficient for any type of size N.
+        alignas(Math::min<u64>(N & (~N + 1), 16)) u8 data[N];
     };
 
     struct Finalizer {
-- 
2.43.0


From 67bfcefe0753d0268b98e85af43ff6f5471b553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 15/39] fix: do not destroy a Range_Allocator's mutex when
 moving into it

---
 rpp/range_allocator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..af4494a 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,13 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        if(this == &src) return *this;
+
+        // Note that the mutex stays where it is.
+        {
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From e2c13faa1564f43ee66071a6f14155f463605c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 16/39] fix: do not let the padding of a range allocation
 overflow

---
 rpp/range_allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index af4494a..20914d5 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -96,7 +96,8 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            // The sum of size and padding might overflow.
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From afc105b9a5c5a9eac1a3b64f36d4ae9466852761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 17/39] fix: count a repeated profile scope on its own node,
 not its parent

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0


From 510a80ae29fdc63d1920b29467a29870dfc9ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 18/39] fix: let a thread exit in the middle of a profile frame
 and while its profile is read

---
 rpp/profile.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..f9ea1e5 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,11 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
-            if(during_frame) Profile::end_frame();
+            // Readers must not find this thread once its frames are gone.
             if(registered) Profile::unregister_thread();
+            Thread::Lock lock(frames_lock);
+            during_frame = false;
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From 8ae9dedcd410ae7c25d0c025a93da66c5791831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 19/39] fix: let an iterate_timings callback allocate and be
 profiled

---
 rpp/profile.h | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index f9ea1e5..9a2a7e0 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -86,19 +86,14 @@ struct Profile {
 
             Thread::Id id = entry.first;
             Thread_Profile& thread = *entry.second;
-            Thread::Lock frames_lock(thread.frames_lock);
 
-            Frame_Profile* frame = null;
-            if(thread.during_frame && thread.frames.length() > 1u) {
-                frame = &thread.frames.penultimate();
-            } else if(!thread.during_frame && !thread.frames.empty()) {
-                frame = &thread.frames.back();
+            if(&thread == &this_thread) {
+                // Only this thread modifies its frames, so it must not wait for itself
+                // if the callback allocates or is profiled.
+                thread.iterate_timings(id, f);
             } else {
-                continue;
-            }
-
-            for(auto& node : frame->nodes) {
-                f(id, node);
+                Thread::Lock frames_lock(thread.frames_lock);
+                thread.iterate_timings(id, f);
             }
         }
     }
@@ -148,6 +143,22 @@ private:
             frames = {};
         }
 
+        template<typename F>
+        void iterate_timings(Thread::Id id, F& f) noexcept {
+            Frame_Profile* frame = null;
+            if(during_frame && frames.length() > 1u) {
+                frame = &frames.penultimate();
+            } else if(!during_frame && !frames.empty()) {
+                frame = &frames.back();
+            } else {
+                return;
+            }
+
+            for(auto& node : frame->nodes) {
+                f(id, node);
+            }
+        }
+
         bool ready() noexcept {
             if(!registered) Profile::register_thread();
             return during_frame;
-- 
2.43.0


From d8ceaa2aa13b23eedadf16de9457ec3dd454e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:28 +0000
Subject: [PATCH 20/39] fix: do not wait for the log lock while holding it

---
 rpp/impl/log.cpp | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 11dc892..268b370 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -43,6 +43,20 @@ struct Static_Data {
 static Static_Data g_log_data;
 static thread_local u64 g_log_indent = 0;
 
+// A callback may log, and so may a failure while the callbacks are being changed. This thread
+// already holds the lock in both cases, and the callbacks must not be called.
+static thread_local bool g_log_locked = false;
+
+struct Log_Lock {
+    Log_Lock() noexcept : lock(g_log_data.lock) {
+        g_log_locked = true;
+    }
+    ~Log_Lock() noexcept {
+        g_log_locked = false;
+    }
+    Thread::Lock lock;
+};
+
 #ifdef RPP_OS_WINDOWS
 
 [[nodiscard]] String_View sys_error() noexcept {
@@ -123,7 +137,8 @@ static_assert(alignof(::time_t) <= alignof(Time));
     return String_View{reinterpret_cast<const u8*>(buffer), static_cast<u64>(written)};
 }
 
-void output(Level level, const Location& loc, String_View msg) noexcept {
+static void write(Level level, const Location& loc, String_View msg, Thread::Id thread,
+                  ::time_t timer) noexcept {
 
     const char* level_str;
     const char* format_str;
@@ -144,21 +159,12 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     default: RPP_UNREACHABLE;
     }
 
-    Thread::Id thread = Thread::this_id();
-    ::time_t timer = ::time(null);
-
-    Thread::Lock lock(g_log_data.lock);
-
     String_View time = sys_time_string(timer);
 
     printf(format_str, time.length(), time.data(), level_str, thread, loc.file.length(),
            loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "", msg.length(), msg.data());
     fflush(stdout);
 
-    for(auto& [_, callback] : g_log_data.callbacks) {
-        callback(level, thread, timer, loc, msg);
-    }
-
     if(g_log_data.file) {
         fprintf(g_log_data.file, format_str, time.length(), time.data(), level_str, thread,
                 loc.file.length(), loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "",
@@ -167,6 +173,24 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     }
 }
 
+void output(Level level, const Location& loc, String_View msg) noexcept {
+
+    Thread::Id thread = Thread::this_id();
+    ::time_t timer = ::time(null);
+
+    if(g_log_locked) {
+        write(level, loc, msg, thread, timer);
+        return;
+    }
+
+    Log_Lock lock;
+    write(level, loc, msg, thread, timer);
+
+    for(auto& [_, callback] : g_log_data.callbacks) {
+        callback(level, thread, timer, loc, msg);
+    }
+}
+
 Scope::Scope() noexcept {
     g_log_indent++;
 }
@@ -178,14 +202,14 @@ Scope::~Scope() noexcept {
 
 [[nodiscard]] Token
 subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noexcept {
-    Thread::Lock lock(g_log_data.lock);
+    Log_Lock lock;
     Token t = g_log_data.next++;
     g_log_data.callbacks.insert(t, rpp::move(f));
     return t;
 }
 
 void unsubscribe(Token token) noexcept {
-    Thread::Lock lock(g_log_data.lock);
+    Log_Lock lock;
     g_log_data.callbacks.erase(token);
     if(g_log_data.callbacks.empty()) {
         g_log_data.callbacks.~Map();
-- 
2.43.0


From 8d221810bfbf9bc27530dfd8aff8af0bd02573e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 21/39] fix: report a failed allocation or too many regions
 without another region

---
 rpp/impl/alloc.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..c0e7774 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -32,6 +32,13 @@ thread_local Region region_brands[MAX_REGION_DEPTH] = {};
 thread_local First_Chunk first_chunk;
 thread_local Chunk* chunks = &first_chunk.chunk;
 
+// Formatting a message uses a region, so it could fail in the same way again.
+static void fail(const Log::Location& loc, String_View msg) noexcept {
+    Log::output(Log::Level::fatal, loc, msg);
+    RPP_DEBUG_BREAK;
+    Libc::exit(1);
+}
+
 static void new_chunk(u64 request) noexcept {
     u64 size = Math::max(request + sizeof(Chunk), 2 * (chunks->size + sizeof(Chunk)));
     Chunk* chunk = reinterpret_cast<Chunk*>(Regions::alloc(size));
@@ -63,8 +70,8 @@ void Region_Allocator::free(Region brand, void*) noexcept {
 }
 
 void Region_Allocator::begin(Region brand) noexcept {
+    if(current_region + 1 >= MAX_REGION_DEPTH) fail(RPP_HERE, "Too many nested regions!"_v);
     current_region++;
-    assert(current_region < MAX_REGION_DEPTH);
     region_offsets[current_region] = region_offsets[current_region - 1];
     region_brands[current_region] = brand;
 }
@@ -100,7 +107,7 @@ void Region_Allocator::end(Region brand) noexcept {
 
 [[nodiscard]] void* sys_alloc(u64 sz) noexcept {
     void* ret = malloc(sz);
-    assert(ret);
+    if(!ret) fail(RPP_HERE, "Failed to allocate memory!"_v);
 #ifndef RPP_RELEASE_BUILD
     g_net_allocs.incr();
 #endif
-- 
2.43.0


From 0321c2a387253edf14ca09cc382b2b820d7b16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 22/39] fix: release the mutex held by a lock guard that is
 assigned over

---
 rpp/thread0.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..b64babe 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,12 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        if(this == &src) return *this;
+        if(mutex_.ok()) mutex_->unlock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From a9ad57b5b7ba5d7c41942de17e4a3efc5cdba82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 23/39] fix: signal the end of a task after its body's local
 objects are destroyed

---
 rpp/async.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 631cf05..156559e 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -57,6 +57,9 @@ struct Final_Suspend {
     [[nodiscard]] std::coroutine_handle<>
     await_suspend(std::coroutine_handle<Promise<R, A>> handle) noexcept {
 
+        // The body's locals are gone by now; the promise may not outlive the exchange.
+        handle.promise().flag.signal();
+
         i64 state = handle.promise().state.exchange(TASK_DONE);
 
         if(state == TASK_ABANDONED) {
@@ -117,11 +120,9 @@ struct Promise : Promise_Base<R, A> {
     }
     void return_value(const R& val) noexcept {
         value = val;
-        this->flag.signal();
     }
     void return_value(R&& val) noexcept {
         value = rpp::move(val);
-        this->flag.signal();
     }
 
 private:
@@ -247,7 +248,6 @@ struct Promise<void, A> : Promise_Base<void, A> {
 #ifdef RPP_COMPILER_MSVC
         Libc::keep_alive();
 #endif
-        this->flag.signal();
     }
 };
 
-- 
2.43.0


From f974bfd43399ed79a54df865f7bef80d6d01339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 24/39] fix: let static objects log and subscribe while they
 are constructed and destroyed

---
 rpp/impl/log.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 268b370..740308a 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -34,13 +34,17 @@ struct Static_Data {
         file = fopen("debug.log", "w");
 #endif
     }
-    ~Static_Data() noexcept {
-        if(file) fclose(file);
-        file = null;
-    }
 };
 
-static Static_Data g_log_data;
+// Static objects elsewhere may log or subscribe while they are constructed and destroyed. The data
+// is hence created on first use and never destroyed; the file is flushed after each message.
+static Static_Data& log_data() noexcept {
+    alignas(Static_Data) static u8 storage[sizeof(Static_Data)];
+    static Static_Data& data = *new(storage) Static_Data;
+    return data;
+}
+
+[[maybe_unused]] static Static_Data& g_log_data = log_data();
 static thread_local u64 g_log_indent = 0;
 
 // A callback may log, and so may a failure while the callbacks are being changed. This thread
@@ -48,7 +52,7 @@ static thread_local u64 g_log_indent = 0;
 static thread_local bool g_log_locked = false;
 
 struct Log_Lock {
-    Log_Lock() noexcept : lock(g_log_data.lock) {
+    Log_Lock() noexcept : lock(log_data().lock) {
         g_log_locked = true;
     }
     ~Log_Lock() noexcept {
@@ -165,11 +169,11 @@ static void write(Level level, const Location& loc, String_View msg, Thread::Id
            loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "", msg.length(), msg.data());
     fflush(stdout);
 
-    if(g_log_data.file) {
-        fprintf(g_log_data.file, format_str, time.length(), time.data(), level_str, thread,
+    if(log_data().file) {
+        fprintf(log_data().file, format_str, time.length(), time.data(), level_str, thread,
                 loc.file.length(), loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "",
                 msg.length(), msg.data());
-        fflush(g_log_data.file);
+        fflush(log_data().file);
     }
 }
 
@@ -186,7 +190,7 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     Log_Lock lock;
     write(level, loc, msg, thread, timer);
 
-    for(auto& [_, callback] : g_log_data.callbacks) {
+    for(auto& [_, callback] : log_data().callbacks) {
         callback(level, thread, timer, loc, msg);
     }
 }
@@ -203,16 +207,16 @@ Scope::~Scope() noexcept {
 [[nodiscard]] Token
 subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noexcept {
     Log_Lock lock;
-    Token t = g_log_data.next++;
-    g_log_data.callbacks.insert(t, rpp::move(f));
+    Token t = log_data().next++;
+    log_data().callbacks.insert(t, rpp::move(f));
     return t;
 }
 
 void unsubscribe(Token token) noexcept {
     Log_Lock lock;
-    g_log_data.callbacks.erase(token);
-    if(g_log_data.callbacks.empty()) {
-        g_log_data.callbacks.~Map();
+    log_data().callbacks.erase(token);
+    if(log_data().callbacks.empty()) {
+        log_data().callbacks.~Map();
     }
 }
 
-- 
2.43.0


From b8cda50f72a8f2ab288b33f5285867530d7ebd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 25/39] fix: let static objects free memory after the main
 thread's profile is gone

---
 rpp/impl/profile.cpp | 2 +-
 rpp/profile.h        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index 6ae6fe3..afaf65e 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -190,7 +190,7 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
-        {
+        if(!this_thread_over) {
             Thread::Lock lock(this_thread.frames_lock);
             if(this_thread.during_frame) {
                 this_thread.frames.back().allocations.push(rpp::move(a));
diff --git a/rpp/profile.h b/rpp/profile.h
index 9a2a7e0..18f74fc 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -133,6 +133,7 @@ private:
         }
         ~Thread_Profile() noexcept {
             finalize();
+            this_thread_over = true;
         }
 
         void finalize() noexcept {
@@ -160,6 +161,7 @@ private:
         }
 
         bool ready() noexcept {
+            if(this_thread_over) return false;
             if(!registered) Profile::register_thread();
             return during_frame;
         }
@@ -174,6 +176,8 @@ private:
     static inline Thread::Mutex allocs_lock;
     static inline Thread::Mutex finalizers_lock;
     static inline thread_local Thread_Profile this_thread;
+    // Static and thread local objects that are destroyed after this_thread may still free memory.
+    static inline thread_local bool this_thread_over = false;
     static inline Map<Thread::Id, Ref<Thread_Profile>, Mhidden> threads;
     static inline Map<String_View, Alloc_Profile, Mhidden> allocs;
     static inline Vec<Function<void()>, Mhidden> finalizers;
-- 
2.43.0


From 38d619bfbe144212b0f3e15e68b824e4fc21b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 26/39] fix: do not free Mpool blocks at exit, when the
 profiler may be gone

---
 rpp/alloc1.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 18cf31f..6b820f0 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -34,7 +34,7 @@ struct Pool {
         Block* block = null;
         {
             Thread::Lock lock(mutex);
-            block = list.make();
+            block = blocks.list.make();
         }
         new(block->data) T{rpp::forward<Args>(args)...};
         return reinterpret_cast<T*>(block);
@@ -49,7 +49,7 @@ struct Pool {
         }
         {
             Thread::Lock lock(mutex);
-            list.destroy(reinterpret_cast<Block*>(value));
+            blocks.list.destroy(reinterpret_cast<Block*>(value));
         }
     }
 
@@ -69,9 +69,19 @@ private:
         }
     };
 
+    // Freeing a block reports to the profiler, which may be gone when static objects are destroyed
+    // at exit. The blocks are returned by Profile::finalize(), or else with the process.
+    union Blocks {
+        constexpr Blocks() noexcept : list{} {
+        }
+        ~Blocks() noexcept {
+        }
+        Free_List<Block, Backing> list;
+    };
+
     static inline Thread::Mutex mutex;
-    static inline Free_List<Block, Backing> list;
-    static inline Finalizer finalizer{list};
+    static inline Blocks blocks;
+    static inline Finalizer finalizer{blocks.list};
 };
 
 } // namespace detail
-- 
2.43.0


From 717be0c0789e66ee5d35571c00d51aecfd48dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 27/39] fix: let a reference be assigned from inside the object
 it drops

---
 rpp/rc.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/rc.h b/rpp/rc.h
index 1012d2c..2d34cc0 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,9 +81,11 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // Dropping the value may destroy src.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -184,9 +186,11 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // Dropping the value may destroy src.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
-- 
2.43.0


From 47655ccd2c5d2c5d7b8f2b1dbb1922f01ac11793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 28/39] fix: parse only the given text of an address

---
 rpp/pos/net_pos.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 902a918..29ebf9a 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,13 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto terminated = address.terminate<Mregion<R>>();
+
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 788d1a3e648c94a7ee330ae47f17a88bc1c83d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 29/39] fix: start at most as many workers as an affinity mask
 can name

---
 rpp/pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index 34d0ad8..b674d6c 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -53,7 +53,7 @@ struct Pool {
 
     explicit Pool() noexcept
         : thread_states{
-              Vec<Thread_State, A>::make(Math::max(Thread::hardware_threads(), u64{2}) - 1)} {
+              Vec<Thread_State, A>::make(Math::clamp(Thread::hardware_threads(), u64{2}, u64{65}) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
-- 
2.43.0


From 4ce110d14117ee1bded2dd1a1bf4b26afd6f91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 30/39] fix: let a timing callback trace on a thread that is
 not registered yet

---
 rpp/profile.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/profile.h b/rpp/profile.h
index 18f74fc..8e8e1f8 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -80,6 +80,8 @@ struct Profile {
 
     template<typename F>
     static void iterate_timings(F&& f) noexcept {
+        // The callback may be profiled, and registering this thread takes the lock.
+        static_cast<void>(this_thread.ready());
         Thread::Lock lock(threads_lock);
 
         for(auto& entry : threads) {
-- 
2.43.0


From aa2150f741ff30719ecf9d7848986f52673128e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:57 +0000
Subject: [PATCH 31/39] fix: draw random floats from the whole unit interval

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From 967ec73dae4755a358fe7988480504123036b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:57 +0000
Subject: [PATCH 32/39] fix: draw signed random integers from the given range

---
 rpp/rng.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..55fff6c 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,10 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        // The distance between two signed integers may not fit in a signed one.
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        u64 bits = operator()() & (Limits<u64>::max() >> (64 - 8 * sizeof(I)));
+        return static_cast<I>(static_cast<u64>(min) + bits % r);
     }
 
 private:
-- 
2.43.0


From e5d4c953954d5ea11178fc018d94e12b98ae9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:57 +0000
Subject: [PATCH 33/39] fix: shuffle empty lists

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 55fff6c..3066c8c 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From e2df53ec8c0f8968fce4b019198cb6e2c94d843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:57 +0000
Subject: [PATCH 34/39] fix: align region memory for any type

---
 rpp/impl/alloc.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index c0e7774..dbb08fe 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,15 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+// Keeps whatever follows aligned for any type.
+constexpr u64 REGION_ALIGNMENT = 16;
+
+struct alignas(REGION_ALIGNMENT) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -56,6 +59,7 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    size = (size + REGION_ALIGNMENT - 1) & ~(REGION_ALIGNMENT - 1);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From d1b96b1f535d1d5ef2bdce9a5b05844369a1933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:57 +0000
Subject: [PATCH 35/39] fix: refuse region allocations whose size would wrap
 around

---
 rpp/impl/alloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index dbb08fe..abfb270 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -59,6 +59,9 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    if(size > Limits<u64>::max() - sizeof(Chunk) - REGION_ALIGNMENT) {
+        fail(RPP_HERE, "Failed to allocate memory!"_v);
+    }
     size = (size + REGION_ALIGNMENT - 1) & ~(REGION_ALIGNMENT - 1);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
-- 
2.43.0


From 0d5b433656fb25848fbd64d3d9cbb53913d023dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:04 +0000
Subject: [PATCH 36/39] fix: format counters that other threads change

The text is measured first and written afterwards. When an Atomic or the
reference count of an Arc gained or lost a digit in between, an assert stopped
the program. The counter was also read without its atomic operations.
---
 rpp/format.h | 21 ++++++++++++++++++++-
 rpp/rc.h     |  4 +++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/rpp/format.h b/rpp/format.h
index b505300..1c36c14 100644
--- a/rpp/format.h
+++ b/rpp/format.h
@@ -190,6 +190,24 @@ struct Write {
     }
 };
 
+// Other threads may change a counter after it was measured, so there is room for any value.
+template<>
+struct Measure<Thread::Atomic> {
+    [[nodiscard]] static u64 measure(const Thread::Atomic&) noexcept {
+        return "Atomic{value_ : }"_v.length() + Measure<i64>::measure(Limits<i64>::min());
+    }
+};
+
+template<Allocator A>
+struct Write<A, Thread::Atomic> {
+    [[nodiscard]] static u64 write(String<A>& output, u64 idx,
+                                   const Thread::Atomic& atomic) noexcept {
+        idx = output.write(idx, "Atomic{value_ : "_v);
+        idx = Write<A, i64>::write(output, idx, atomic.load());
+        return output.write(idx, '}');
+    }
+};
+
 template<Allocator A, typename... Ts>
     requires(Reflectable<Ts> && ...)
 [[nodiscard]] u64 write(String_View fmt, u64 fmt_idx, String<A>& output, u64 output_idx,
@@ -273,7 +291,8 @@ template<Allocator A, typename... Ts>
     String<A> output{length};
     output.set_length(length);
     u64 idx = Format::write(fmt, 0, output, 0, args...);
-    assert(idx == length);
+    assert(idx <= length);
+    output.set_length(idx);
     return output;
 }
 
diff --git a/rpp/rc.h b/rpp/rc.h
index 2d34cc0..58d4697 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -264,9 +264,11 @@ struct Measure<Rc<T, A>> {
 template<Reflectable T, Allocator A>
 struct Measure<Arc<T, A>> {
     [[nodiscard]] static u64 measure(const Arc<T, A>& arc) noexcept {
+        // Other threads may change the count after it was measured, so there is room for any value.
         if(arc.ok())
             return 7 + Measure<T>::measure(*arc) +
-                   Measure<decltype(arc.references())>::measure(arc.references());
+                   Measure<decltype(arc.references())>::measure(
+                       Limits<decltype(arc.references())>::max());
         return 9;
     }
 };
-- 
2.43.0


From b2f30fa78265677595a8b9cdca16a5bf9ba6d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 37/39] fix: read range allocator statistics under its lock

---
 rpp/range_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 20914d5..c016d11 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -220,6 +220,7 @@ struct Range_Allocator {
     };
 
     [[nodiscard]] Stats statistics() noexcept {
+        Thread::Lock lock(mutex);
         return stats;
     }
 
-- 
2.43.0


From 19f756a708a1b7ecac5a7afb0273f5127a81aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 38/39] fix: allow a profile finalizer to register another

---
 rpp/impl/profile.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index afaf65e..00917c4 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -206,12 +206,17 @@ void Profile::finalizer(Function<void()> f) noexcept {
 
 void Profile::finalize() noexcept {
     // All threads must have exited before we can finalize.
-    {
-        Thread::Lock lock(finalizers_lock);
-        for(auto& f : finalizers) {
+    for(;;) {
+        // A finalizer may register others.
+        Vec<Function<void()>, Mhidden> batch;
+        {
+            Thread::Lock lock(finalizers_lock);
+            if(finalizers.empty()) break;
+            batch = rpp::move(finalizers);
+        }
+        for(auto& f : batch) {
             f();
         }
-        finalizers.~Vec();
     }
     this_thread.finalize();
     {
-- 
2.43.0


From 8c0781e1012b076bf39bfc1b92a540b765193e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:38 +0000
Subject: [PATCH 39/39] fix: report a task as done once blocking on it returns

---
 rpp/async.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/async.h b/rpp/async.h
index 156559e..3d80823 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -201,7 +201,7 @@ struct Task {
     }
     [[nodiscard]] bool done() noexcept {
         assert(handle);
-        return await_ready();
+        return handle.promise().flag.ready();
     }
     [[nodiscard]] R block() noexcept {
         assert(handle);
-- 
2.43.0

