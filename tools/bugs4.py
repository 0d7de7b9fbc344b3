# The fourth list. Same format.
PRE = open(os.path.join(ROOT, "tools", "bugs1.py")).read().split("r'''", 1)[1].split("'''", 1)[0]
bug("c34-fast-digit", "C34",
    "the tenth reference to an object made by another thread just while the count is formatted",
    "small counts are written as one digit, with the count read again for it",
    [("rc.h", ("        idx = output.write(idx, \"Arc[\"_v);\n        idx = Write<O, decltype(arc.references())>::write(output, idx, arc.references());",
               "        idx = output.write(idx, \"Arc[\"_v);\n        if(arc.references() < 10)\n            idx = output.write(idx, static_cast<u8>('0' + arc.references()));\n        else\n            idx = Write<O, decltype(arc.references())>::write(output, idx, arc.references());"))],
    PRE + r'''
#include <rpp/rc.h>
#include <rpp/format.h>
int main() {
    Arc<i64> x = Arc<i64>::make(7);
    Arc<i64> keep[9];
    for(u64 i = 0; i < 8; i++) keep[i] = x.dup();
    static bool stop = false;
    Thread::Thread t{[&x]() {
        while(!__atomic_load_n(&stop, __ATOMIC_SEQ_CST)) {
            Arc<i64> y = x.dup();
        }
    }};
    int bad = 0;
    for(u64 i = 0; i < 3000000 && !bad; i++) {
        auto s = format<Mhidden>("%"_v, x);
        if(s[4] < '0' || s[4] > '9') bad = 1;
    }
    __atomic_store_n(&stop, true, __ATOMIC_SEQ_CST);
    t.join();
    return bad;
}
''', timeout=120)
bug("c34-shared-buffer", "C34",
    "two threads formatting numbers at the same time",
    "numbers are printed into one buffer of the whole program before they are put into the text",
    [("format.h", ("        String<Mregion<R>> buffer{val_len + 1};\n        buffer.set_length(val_len + 1);\n        assert(Libc::snprintf(buffer.data(), buffer.length(), fmt, value) == expect);\n        return output.write(idx, buffer.sub(0, val_len));",
                   "        static u8 buffer[512];\n        if(val_len < 512) {\n            static_cast<void>(Libc::snprintf(buffer, 512, fmt, value));\n            return output.write(idx, String_View{buffer, val_len});\n        }\n        String<Mregion<R>> large{val_len + 1};\n        large.set_length(val_len + 1);\n        assert(Libc::snprintf(large.data(), large.length(), fmt, value) == expect);\n        return output.write(idx, large.sub(0, val_len));"))],
    PRE + r'''
#include <rpp/rc.h>
#include <rpp/format.h>
static bool stop = false, bad = false;
int main() {
    Thread::Thread t{[]() {
        while(!__atomic_load_n(&stop, __ATOMIC_SEQ_CST)) {
            auto s = format<Mhidden>("%"_v, i64{99999});
            if(s[0] != '9') __atomic_store_n(&bad, true, __ATOMIC_SEQ_CST);
        }
    }};
    for(u64 i = 0; i < 1000000 && !__atomic_load_n(&bad, __ATOMIC_SEQ_CST); i++) {
        auto s = format<Mhidden>("%"_v, i64{11111});
        if(s[0] != '1') bad = true;
    }
    __atomic_store_n(&stop, true, __ATOMIC_SEQ_CST);
    t.join();
    return bad;
}
''', timeout=120)
bug("c09-busy-quiet", "C09",
    "a job submitted while every queue is occupied, whose worker empties its queue and falls asleep before the job arrives there",
    "a worker whose queue was not empty is not woken, so a job that arrives just after it fell asleep stays there",
    [("pool.h", ("        state.jobs.push(rpp::move(job));\n        state.cond.signal();\n    }\n\n    void enqueue_event", "        // Busy, so it is awake.\n        state.jobs.push(rpp::move(job));\n    }\n\n    void enqueue_event"))],
    PRE + r'''
static Thread::Atomic done;
static rpp::Async::Task<void> hop(rpp::Async::Pool<>& pool, u64 n) {
    for(u64 i = 0; i < n; i++) co_await pool.suspend();
    done.incr();
}
int main() {
    alarm(100);
    rpp::Async::Pool<> pool;
    u64 n = pool.n_threads();
    for(u64 r = 0; r < 60000; r++) {
        i64 before = done.load();
        u64 k = 2 * n + r % 3;
        for(u64 i = 0; i < k; i++) { auto t = hop(pool, 1 + r % 2); }
        for(u64 w = 0; done.load() != before + (i64)k; w++) {
            if(w > 2000) usleep(1000);
            if(w > 7000) _exit(1);
        }
    }
    return 0;
}
''', timeout=120)
bug("c13-auto-reset", "C13",
    "two threads waiting for one event, or one thread waiting for it twice",
    "wait_any takes the signal of the event it returns, so the event does not stay signalled until it is reset",
    [("pos/async_pos.cpp", ("            return i;\n        }\n    }\n    RPP_UNREACHABLE", "            events[i].reset();\n            return static_cast<u64>(&events[i] - events.begin());\n        }\n    }\n    RPP_UNREACHABLE"))],
    PRE + r'''
int main() {
    alarm(10);
    rpp::Async::Event e[1];
    e[0].signal();
    (void)rpp::Async::Event::wait_any(Slice<rpp::Async::Event>{e, 1});
    (void)rpp::Async::Event::wait_any(Slice<rpp::Async::Event>{e, 1});
    return 0;
}
''', timeout=20)
bug("c15-stat-path", "C15",
    "another file put in the place of the one being read, between two calls of the read",
    "the size is taken from the path instead of the open file, so it may be that of another file",
    [("pos/files_pos.cpp", ("read(String_View path_) noexcept {\n\n    int fd = -1;\n    Region(R) {\n        auto path = path_.terminate<Mregion<R>>();\n        do {", "read(String_View path_) noexcept {\n\n    struct stat info = {};\n    int fd = -1, known = -1;\n    Region(R) {\n        auto path = path_.terminate<Mregion<R>>();\n        known = stat(reinterpret_cast<const char*>(path.data()), &info);\n        do {"),
      ("    struct stat info;\n    if(fstat(fd, &info) == -1) {", "    if(known == -1 && fstat(fd, &info) == -1) {"))],
    PRE + r'''
#include <rpp/files.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdio.h>
static bool stop = false;
static char dir[] = "/tmp/c15XXXXXX";
static char at[4][64];
int main() {
    if(!mkdtemp(dir)) return 2;
    for(int i = 0; i < 4; i++) snprintf(at[i], 64, "%s/f%d", dir, i);
    Thread::Thread t{[]() {
        char text[200];
        for(u64 r = 0; !__atomic_load_n(&stop, __ATOMIC_SEQ_CST); r++) {
            int f = open(at[1], O_WRONLY | O_CREAT | O_TRUNC, 0600);
            u64 n = r % 2 ? 100 : 10;
            for(u64 i = 0; i < n; i++) text[i] = r % 2 ? 'L' : 's';
            if(write(f, text, n) != (ssize_t)n) _exit(2);
            close(f);
            rename(at[1], at[0]);
        }
    }};
    while(access(at[0], R_OK)) usleep(100);
    int bad = 0;
    for(u64 i = 0; i < 200000 && !bad; i++) {
        auto v = rpp::Files::read(String_View{at[0]});
        if(!v.ok()) { bad = 1; break; }
        if(v->length() != ((*v)[0] == 'L' ? 100 : 10)) bad = 1;
    }
    __atomic_store_n(&stop, true, __ATOMIC_SEQ_CST);
    t.join();
    unlink(at[0]), unlink(at[1]), rmdir(dir);
    return bad;
}
''', timeout=120)
bug("c20-brand-narrow", "C20",
    "two regions whose brands agree in their low bits",
    "region brands are compared in 16 bits only, so an allocation from a wrong region is sometimes not noticed",
    [("impl/alloc.cpp", ("    if(region_brands[current_region] != brand) {", "    if(static_cast<u16>(region_brands[current_region]) != static_cast<u16>(brand)) {"))],
    PRE + r'''
#include <sys/wait.h>
int main() {
    int pid = fork();
    if(!pid) {
        rpp::Region_Allocator::Scope<0x10005> a;
        rpp::Region_Allocator::Scope<0x20005> b;
        void* p = rpp::Mregion<0x10005>::alloc(16);
        _exit(p ? 0 : 1);
    }
    int st;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
''')
bug("c23-free-late", "C23",
    "a block given back by one thread and handed out to another before the first thread has reported it as freed",
    "a block is reported as freed after it was given back, when another thread may have reported its memory as allocated already",
    [("alloc1.h", ("    if constexpr(log) {\n        Profile::alloc({String_View{N}, mem, 0});\n    }\n    sys_free(mem);", "    sys_free(mem);\n    if constexpr(log) {\n        Profile::alloc({String_View{N}, mem, 0});\n    }"))],
    PRE + r'''
static bool bad = false;
int main() {
    auto t_ = Log::subscribe([](Log::Level l, rpp::Thread::Id, Log::Time, Log::Location, String_View) { if(l == Log::Level::warn) bad = true; });
    auto f = []() {
        for(u64 i = 0; i < 300000 && !__atomic_load_n(&bad, __ATOMIC_SEQ_CST); i++) {
            void* p = Mdefault::alloc(2000);
            void* q = Mdefault::alloc(2000);
            Mdefault::free(p);
            Mdefault::free(q);
        }
    };
    auto g = f, h = f;
    {
        Thread::Thread a{rpp::move(f)}, b{rpp::move(g)}, c{rpp::move(h)};
    }
    Log::unsubscribe(t_);
    return bad;
}
''', timeout=120)
bug("c22-unlock-early", "C22",
    "two threads allocating ranges, one of them splitting a block",
    "the rest of a split block is put back after the lock was given up",
    [("range_allocator.h", ("        Thread::Lock lock(mutex);\n\n        // Find list", "        Opt<Thread::Lock> lock{Thread::Lock{mutex}};\n\n        // Find list"),
      ("            // Add remaining space back to free list\n            insert_free_block(new_block);\n\n            stats.free_blocks += 1;", "            // Add remaining space back to free list\n            stats.free_blocks += 1;\n            lock.clear();\n            insert_free_block(new_block);"))],
    PRE + r'''
#include <rpp/range_allocator.h>
int main() {
    alarm(100);
    Range_Allocator<> ra{1u << 20};
    auto f = [&ra]() {
        for(u64 i = 0; i < 200000; i++) {
            auto a = ra.allocate(1 + i % 300, 8);
            auto b = ra.allocate(1 + i % 700, 16);
            if(a.ok()) ra.free(*a);
            if(b.ok()) ra.free(*b);
        }
    };
    auto g = f, h = f;
    {
        Thread::Thread a{rpp::move(f)}, b{rpp::move(g)}, c{rpp::move(h)};
    }
    auto s = ra.statistics();
    u64 sum = 0;
    for(u64 i = 0; i < 24; i++) sum += s.bucket_sizes[i];
    return !(s.free_blocks == 1 && sum == 1 && s.free_size == 1u << 20);
}
''', timeout=120)
bug("c06-void-early", "C06",
    "a holder looking at the future of a void call while the call is still running",
    "the future of a call without a result is fulfilled before the call",
    [("thread.h", ("            f(rpp::forward<Args>(args)...);\n            future->fill();", "            future->fill();\n            f(rpp::forward<Args>(args)...);"))],
    PRE + r'''
int main() {
    static int x = 0;
    auto f = Thread::spawn([]() { usleep(100000); __atomic_store_n(&x, 1, __ATOMIC_SEQ_CST); });
    f->block();
    return __atomic_load_n(&x, __ATOMIC_SEQ_CST) != 1;
}
''')
bug("c24-level-shared", "C24",
    "two threads logging at different depths of indentation",
    "the indentation is kept for the whole program instead of each thread",
    [("impl/log.cpp", ("static thread_local u64 g_log_indent = 0;", "static u64 g_log_indent = 0;"))],
    PRE + r'''
#include <stdio.h>
#include <fcntl.h>
#include <string.h>
int main() {
    int p[2];
    if(pipe(p)) return 2;
    fflush(stdout);
    int keep = dup(1);
    dup2(p[1], 1);
    {
        Log::Scope s;
        Thread::Thread t{[]() { info("marker"); }};
    }
    fflush(stdout);
    dup2(keep, 1);
    close(p[1]);
    char b[4000];
    u64 n = 0;
    ssize_t r;
    while(n < 3999 && (r = read(p[0], b + n, 3999 - n)) > 0) n += r;
    b[n] = 0;
    char* m = strstr(b, "marker");
    return !(m && m[-1] == ' ' && m[-2] == ':');
}
''')
bug("c26-id-once", "C26",
    "an identifier that is used again by a later thread after the first one exited",
    "a thread whose identifier was seen before is not registered again, so its frames are not shown",
    [("impl/profile.cpp", ("    static_cast<void>(threads.try_erase(id));\n", "    if(this_thread.frames.empty()) static_cast<void>(threads.try_erase(id));\n"),
      ("    assert(!threads.contains(id));\n", "    if(threads.contains(id)) return;\n"))],
    PRE + r'''
int main() {
    for(int i = 0; i < 3; i++) {
        static u64 seen;
        seen = 0;
        Thread::Thread t{[]() {
            Profile::begin_frame();
            Profile::end_frame();
            auto me = Thread::this_id();
            Profile::iterate_timings([me](rpp::Thread::Id id, const Profile::Timing_Node&) { if(id == me) seen++; });
        }};
        t.join();
        if(!seen) return 1;
    }
    return 0;
}
''')
bug("c18-last-address", "C18",
    "two threads making addresses from texts, or one after a bad text",
    "the address last parsed is kept for the whole program and returned again when the text begins the same way",
    [("pos/net_pos.cpp", ("    sockaddr_.sin_port = htons(port);\n\n    Region(R) {\n        auto terminated = address.terminate<Mregion<R>>();\n\n        if(inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()),\n                     &sockaddr_.sin_addr.s_addr) != 1) {\n            die(\"Failed to create address: %\", Log::sys_error());\n        }\n    }",
       "    const u16 network = htons(port);\n    sockaddr_.sin_port = network;\n    static thread_local u8 last[16];\n    static thread_local u64 last_length = 0;\n    static thread_local in_addr last_address;\n    if(last_length && last_length <= address.length() &&\n       Libc::strncmp(reinterpret_cast<const char*>(last), reinterpret_cast<const char*>(address.data()), last_length) == 0) {\n        sockaddr_.sin_addr = last_address;\n        return;\n    }\n    Region(R) {\n        auto terminated = address.terminate<Mregion<R>>();\n        int ret = inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()), &sockaddr_.sin_addr);\n        if(ret != 1) {\n            die(\"Failed to create address: %\", Log::sys_error());\n        }\n        last_length = Math::min(address.length(), u64{16});\n        Libc::memcpy(last, address.data(), last_length);\n        last_address = sockaddr_.sin_addr;\n    }"))],
    PRE + r'''
#include <rpp/net.h>
int main() {
    using namespace rpp::Net;
    Udp a, b;
    b.bind(Address{"127.0.0.1"_v, 47013});
    Address first{"127.0.0.1"_v, 47013};
    Address second{"127.0.0.10"_v, 47013};
    rpp::Net::Packet p;
    (void)a.send(second, p, 4);
    usleep(50000);
    return b.recv(p).ok();
}
''')
