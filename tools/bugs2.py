# The second list: other mechanisms than bugs1.py. Same format.
PRE = open(os.path.join(ROOT, "tools", "bugs1.py")).read().split("r'''", 1)[1].split("'''", 1)[0]
PRE += r'''
#include <algorithm>
#include <dirent.h>
#include <vector>
#include <arpa/inet.h>
#include <sys/timerfd.h>
static std::vector<long> threads_now() {
    std::vector<long> v;
    DIR* d = opendir("/proc/self/task");
    while(dirent* e = readdir(d)) if(e->d_name[0] != '.') v.push_back(atol(e->d_name));
    closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
static long gettid_() { return syscall(SYS_gettid); }
'''
bug("c01-assign-keeps", "C01",
    "a guard that owns a mutex being assigned another guard",
    "assigning to a Lock forgets the mutex it held instead of unlocking it",
    [("thread0.h", ("        if(mutex_.ok()) mutex_->unlock();\n        mutex_ = rpp::move(src.mutex_);", "        mutex_ = rpp::move(src.mutex_);"))],
    PRE + r'''
int main() {
    rpp::Thread::Mutex a, b;
    {
        rpp::Thread::Lock l(a);
        l = rpp::Thread::Lock{b};
        REQUIRE(a.try_lock(), "the first mutex is still locked");
        a.unlock();
        bool free = true;
        { T_ t{[&]() { free = b.try_lock(); if(free) b.unlock(); }}; }
        REQUIRE(!free, "the second mutex is not held");
    }
    REQUIRE(b.try_lock(), "the second mutex is still locked");
    b.unlock();
    return 0;
}
''')
bug("c02-broadcast-two", "C02",
    "three or more threads waiting when broadcast is called",
    "broadcast is sent as two signals, so further waiters keep sleeping",
    [("pos/thread_pos.cpp", ("    int ret = pthread_cond_broadcast(&cond_);\n    if(ret) {", "    // The waiters pass it on among themselves.\n    int ret = pthread_cond_signal(&cond_);\n    if(!ret) ret = pthread_cond_signal(&cond_);\n    if(ret) {"))],
    PRE + r'''
int main() {
    rpp::Thread::Mutex m;
    rpp::Thread::Cond c;
    int waiting = 0, done = 0;
    bool go = false;
    auto body = [&]() {
        rpp::Thread::Lock l(m);
        waiting++;
        while(!go) c.wait(m);
        done++;
    };
    T_ a{[&]() { body(); }}, b{[&]() { body(); }}, d{[&]() { body(); }}, e{[&]() { body(); }};
    for(;;) { rpp::Thread::Lock l(m); if(waiting == 4) break; }
    { rpp::Thread::Lock l(m); go = true; c.broadcast(); }
    for(int i = 0;; i++) {
        { rpp::Thread::Lock l(m); if(done == 4) break; }
        REQUIRE(i < 5000, "%d of 4 waiters were woken", done);
        usleep(1000);
    }
    return 0;
}
''')
bug("c03-ready-consumes", "C03",
    "ready() seeing the signal before another thread (or the same one) calls block()",
    "ready() takes the signal away, so a later block() waits for ever",
    [("pos/thread_pos.cpp", ("    return __atomic_load_n(&value_, __ATOMIC_SEQ_CST) != 0;\n", "    return __atomic_exchange_n(&value_, 0, __ATOMIC_SEQ_CST) != 0;\n"))],
    PRE + r'''
int main() {
    rpp::Thread::Flag f;
    REQUIRE(!f.ready(), "ready before the signal");
    f.signal();
    REQUIRE(f.ready(), "not ready after the signal");
    REQUIRE(f.ready(), "not ready the second time");
    f.block();
    return 0;
}
''', timeout=20)
bug("c04-exchange-split", "C04",
    "two threads exchanging the same counter at the same moment",
    "exchange is a load followed by a store: both threads can get the same old value",
    [("pos/thread_pos.cpp", ("    return __atomic_exchange_n(&value_, value, __ATOMIC_SEQ_CST);", "    i64 old = __atomic_load_n(&value_, __ATOMIC_SEQ_CST);\n    // Nothing to write when the value stays the same.\n    if(old != value) __atomic_store_n(&value_, value, __ATOMIC_SEQ_CST);\n    return old;"))],
    PRE + r'''
int main() {
    rpp::Thread::Atomic box{1};
    rpp::Thread::Atomic owners, bad;
    auto body = [&]() {
        for(int i = 0; i < 400000; i++) {
            if(box.exchange(0) == 1) {
                if(owners.incr() != 1) bad.incr();
                owners.decr();
                box.exchange(1);
            }
        }
    };
    { T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }}; }
    REQUIRE(bad.load() == 0, "%lld times two threads took the same token", (long long)bad.load());
    return 0;
}
''')
bug("c05-assign-detach", "C05",
    "a Thread object that is still running being assigned over",
    "assigning to a Thread lets the old thread go instead of joining it",
    [("thread.h", ("    Thread& operator=(Thread&& src) noexcept {\n        this->~Thread();", "    Thread& operator=(Thread&& src) noexcept {\n        if(thread) detach();"))],
    PRE + r'''
int main() {
    rpp::Thread::Atomic done;
    T_ t{[&]() { usleep(200000); done.incr(); }};
    t = T_{[&]() {}};
    REQUIRE(done.load() == 1, "the assignment did not wait for the thread");
    t.join();
    return 0;
}
''')
bug("c07-dup-split", "C07",
    "two threads duplicating the same Arc at the same moment",
    "dup reads the count and writes it back in two steps, so an increment can get lost and the object dies early",
    [("rc.h", ("        ret.data_ = data_;\n        if(data_) data_->references.incr();", "        ret.data_ = data_;\n        if(data_) data_->references.exchange(data_->references.load() + 1);"))],
    PRE + r'''
int main() {
    for(int round = 0; round < 200; round++) {
        auto a = Arc<u64>::make(7ul);
        rpp::Thread::Atomic go;
        auto body = [&]() {
            std::vector<Arc<u64>> v;
            while(!go.load()) {}
            for(int i = 0; i < 300; i++) v.push_back(a.dup());
            for(auto& x : v) new(&x) Arc<u64>{}; // keep the references
        };
        { T_ x{[&]() { body(); }}, y{[&]() { body(); }}; go.incr(); }
        REQUIRE(a.references() == 601, "%llu references instead of 601", (unsigned long long)a.references());
        new(&a) Arc<u64>{};
    }
    return 0;
}
''')
bug("c08-done-awaited", "C08",
    "done() called while another coroutine is waiting for the task",
    "a task that somebody awaits counts as done, although its body has not returned",
    [("async.h", ("    [[nodiscard]] bool done() noexcept {\n        assert(handle);\n        return handle.promise().flag.ready();", "    [[nodiscard]] bool done() const noexcept {\n        assert(handle);\n        return handle.promise().state.load() != TASK_START;"))],
    PRE + r'''
Async::Task<int> body() { co_await Async::Suspend{}; co_return 5; }
Async::Task<int> user(Async::Task<int>& t) { co_return co_await t; }
int main() {
    auto t = body();
    REQUIRE(!t.done(), "done before it was resumed");
    auto u = user(t);
    REQUIRE(!t.done(), "done while suspended and awaited");
    t.resume();
    REQUIRE(t.done() && u.done() && u.block() == 5, "not done at the end");
    return 0;
}
''')
bug("c10-events-last", "C10",
    "an event firing (so that its coroutine is queued) while the pool is being destroyed",
    "the destructor destroys the queued coroutines before the event thread has stopped, which may queue another one that is then never destroyed",
    [("pool.h", ("        {\n            Thread::Lock lock(events_mut);\n            pending_events[0].signal();\n        }\n        event_thread.join();\n\n        pending_events.clear();\n\n        for(auto& state", "        for(auto& state"),
      ("                job.handle.destroy();\n            }\n        }\n    }", "                job.handle.destroy();\n            }\n            state.jobs.clear();\n        }\n\n        {\n            Thread::Lock lock(events_mut);\n            pending_events[0].signal();\n        }\n        event_thread.join();\n\n        pending_events.clear();\n    }"))],
    PRE + r'''
// The event thread is held up between being told of an event and queueing the coroutine.
static volatile int slow, held;
extern "C" int epoll_wait(int fd, epoll_event* e, int n, int t) {
    int r = REAL(epoll_wait)(fd, e, n, t);
    if(slow && r > 0) { held = 1; usleep(300000); }
    return r;
}
static int destroyed;
struct Local { ~Local() { destroyed++; } };
static Async::Task<void> waits(Async::Pool<>& pool, Async::Event e) {
    Local l;
    co_await pool.event(rpp::move(e));
}
int main() {
    int fd = eventfd(0, 0);
    int keep = dup(fd);
    {
        Async::Pool<> pool;
        auto t = waits(pool, Async::Event::of_sys(fd, EPOLLIN));
        usleep(100000);
        slow = 1;
        u64 one = 1;
        (void)!write(keep, &one, 8);
        while(!held) usleep(100);
        { Async::Task<void> drop = rpp::move(t); }
    }
    REQUIRE(destroyed == 1, "the queued coroutine was destroyed %d times", destroyed);
    return 0;
}
''')
bug("c11-emplace-unlocked", "C11",
    "two coroutines starting to wait for their events at the same moment on different threads",
    "the new event is added before the lock is taken, so entries get lost or mixed up",
    [("pool.h", ("        Thread::Lock lock(events_mut);\n        events_to_enqueue.emplace(rpp::move(event), rpp::move(job));\n", "        events_to_enqueue.emplace(rpp::move(event), rpp::move(job));\n        Thread::Lock lock(events_mut);\n"))],
    PRE + r'''
static Async::Task<void> waits(Async::Pool<>& pool) {
    for(int i = 0; i < 60; i++) {
        Async::Event e;
        e.signal();
        co_await pool.event(rpp::move(e));
    }
}
int main() {
    for(int round = 0; round < 10; round++) {
        Async::Pool<> pool;
        std::vector<Async::Task<void>> ts;
        for(int i = 0; i < 60; i++) ts.push_back(waits(pool));
        for(auto& t : ts) t.block();
    }
    return 0;
}
''', timeout=40)
bug("c11-resume-inline", "C11",
    "an event firing",
    "the event thread resumes the waiting coroutine itself instead of handing it to a worker, so all others wait for it",
    [("pool.h", ("                enqueue(job);\n            }", "                job.handle.resume();\n            }"))],
    PRE + r'''
static Async::Task<long> waits(Async::Pool<>& pool) {
    Async::Event e;
    e.signal();
    co_await pool.event(rpp::move(e));
    co_return gettid_();
}
int main() {
    auto before = threads_now();
    Async::Pool<> pool;
    usleep(50000);
    auto after = threads_now();
    long event_thread = after.back(); // the last one the pool starts
    REQUIRE(after.size() > before.size() + 1, "no threads");
    for(int i = 0; i < 5; i++) {
        auto t = waits(pool);
        REQUIRE(t.block() != event_thread, "resumed by the event thread");
    }
    return 0;
}
''')
bug("c12-already-over", "C12",
    "a wait whose milliseconds are a multiple of 2^32 (or, after the clock's low bits, nearly so)",
    "the time is carried in 32 bits between the two halves of the timer value",
    [("pos/asyncio_pos.cpp", ("    spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "    spec.it_value.tv_nsec = static_cast<u32>((ms % 1000) * 1000000);\n    u32 whole = static_cast<u32>(ms / 1000 + (spec.it_value.tv_nsec >= 999000000));\n    spec.it_value.tv_sec = spec.it_value.tv_nsec >= 999000000 ? whole - 1 : whole;"))],
    PRE + r'''
static itimerspec asked;
extern "C" int timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* o) {
    asked = *n;
    itimerspec soon = {};
    soon.it_value.tv_nsec = 1000000;
    return REAL(timerfd_settime)(fd, flags, &soon, o);
}
int main() {
    Async::Pool<> pool;
    for(u64 ms : {5ul, 999ul, 1999ul, 4294967296000ul + 1000, 4294967296000ul * 2 + 999}) {
        auto t = Async::wait(pool, ms);
        t.block();
        u64 got = asked.it_value.tv_sec * 1000ul + asked.it_value.tv_nsec / 1000000;
        REQUIRE(got == ms, "a wait of %llu ms was started for %llu ms", (unsigned long long)ms, (unsigned long long)got);
    }
    return 0;
}
''')
bug("c13-first-64", "C13",
    "waiting for more than 64 events when one of the later ones is signalled",
    "wait_any only listens to the first 64 events of the list",
    [("pos/async_pos.cpp", ("    for(auto& event : events) {\n        epoll_event ev;", "    for(u64 i = 0; i < events.length() && i < 64; i++) {\n        auto& event = events[i];\n        epoll_event ev;"))],
    PRE + r'''
int main() {
    static Async::Event e[80];
    e[3].signal();
    REQUIRE(Async::Event::wait_any(Slice<Async::Event>{e, 80}) == 3, "another event");
    e[3].reset();
    e[70].signal();
    REQUIRE(Async::Event::wait_any(Slice<Async::Event>{e, 80}) == 70, "another event");
    return 0;
}
''', timeout=20)
bug("c13-one-signal-each", "C13",
    "an event signalled twice (or more) before it is reset",
    "the event counts its signals and reset() only takes one away",
    [("pos/async_pos.cpp", ("    int event = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);", "    int event = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);"))],
    PRE + r'''
int main() {
    Async::Event e[2];
    e[0].signal();
    e[0].signal();
    e[0].reset();
    e[1].signal();
    REQUIRE(Async::Event::wait_any(Slice<Async::Event>{e, 2}) == 1, "an event is still signalled after reset");
    return 0;
}
''')
bug("c14-cpu-clock", "C14",
    "reading the counter before and after the process has been asleep",
    "the counter is the processor time of the process, which stands still while every thread sleeps",
    [("pos/thread_pos.cpp", ("    clock_gettime(CLOCK_MONOTONIC, &now);", "    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &now);"))],
    PRE + r'''
int main() {
    u64 a = rpp::Thread::perf_counter();
    rpp::Thread::sleep(100);
    u64 b = rpp::Thread::perf_counter();
    f64 s = (b - a) / (f64)rpp::Thread::perf_frequency();
    REQUIRE(s >= 0.1, "%g s passed during a sleep of 0.1 s", s);
    return 0;
}
''')
bug("c17-lstat", "C17",
    "watching a file through a symbolic link",
    "the time of the link is watched instead of the time of the file it leads to",
    [("pos/files_pos.cpp", ("        if(stat(reinterpret_cast", "        if(lstat(reinterpret_cast"))],
    PRE + r'''
static void set(const char* p, long s) {
    timespec t[2] = {{s, 0}, {s, 0}};
    utimensat(AT_FDCWD, p, t, 0);
}
int main() {
    u8 b[3] = {1, 2, 3};
    REQUIRE(Files::write("target"_v, Slice<const u8>{b, 3}), "write");
    set("target", 1000000);
    REQUIRE(symlink("target", "link") == 0, "symlink");
    Files::Write_Watcher w{"link"_v};
    REQUIRE(!w.poll(), "nothing was modified");
    set("target", 1000001);
    REQUIRE(w.poll(), "a modification was not reported");
    REQUIRE(!w.poll(), "reported twice");
    return 0;
}
''')
bug("c18-retry-errors", "C18",
    "a receive error that does not go away (no memory, for instance)",
    "recv tries again for any error other than having nothing to return, so it never returns",
    [("pos/net_pos.cpp", ("    if(ret == -1) {\n        return Opt<Data>{};\n    }", "    if(ret == -1) {\n        // Errors are left over from packets that were sent before.\n        return errno == EAGAIN || errno == EINTR ? Opt<Data>{} : recv(in);\n    }"))],
    PRE + r'''
static int fail;
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int flags, sockaddr* a, socklen_t* l) {
    if(fail) { errno = ENOMEM; return -1; }
    return REAL(recvfrom)(fd, b, n, flags, a, l);
}
int main() {
    Net::Udp u;
    static Net::Packet p;
    REQUIRE(!u.recv(p).ok(), "a packet from nowhere");
    fail = 1;
    REQUIRE(!u.recv(p).ok(), "a packet from nowhere");
    return 0;
}
''', timeout=20)
bug("c19-assign-swap", "C19",
    "an Event being assigned over while the assigned one lives on",
    "assignment exchanges the descriptors, so the old one stays open as long as the source object lives",
    [("pos/async_pos.cpp", ("    this->~Event();\n    fd = other.fd;\n    other.fd = -1;\n    mask = other.mask;\n    other.mask = 0;\n    return *this;", "    swap(fd, other.fd);\n    swap(mask, other.mask);\n    return *this;"))],
    PRE + r'''
static int open_fds() {
    int n = 0;
    for(int i = 0; i < 200; i++) if(fcntl(i, F_GETFD) != -1) n++;
    return n;
}
int main() {
    int n = open_fds();
    Async::Event a, b;
    a = rpp::move(b);
    REQUIRE(open_fds() == n + 1, "%d descriptors are open instead of one", open_fds() - n);
    return 0;
}
''')
bug("c23-high-water-late", "C23",
    "freeing the largest set of blocks that was ever allocated before anything else is allocated",
    "the high-water mark is taken when something is freed, from what is left then",
    [("impl/profile.cpp", ("                prof.current_set_size += a.size;\n                prof.high_water = Math::max(prof.high_water, prof.current_set_size);", "                prof.high_water = Math::max(prof.high_water, prof.current_set_size);\n                prof.current_set_size += a.size;"))],
    PRE + r'''
int main() {
    using M = Mallocator<"Demo">;
    void* a = M::alloc(1000);
    void* b = M::alloc(500);
    M::free(b);
    M::free(a);
    static bool seen;
    (void)Log::subscribe([](Log::Level, rpp::Thread::Id, Log::Time, Log::Location, String_View s) {
        static bool demo;
        std::string_view v{reinterpret_cast<const char*>(s.data()), s.length()};
        if(v.find("Allocation stats") != v.npos) demo = v.find("Demo") != v.npos;
        if(demo && v.find("High water") != v.npos) {
            REQUIRE(v.find("1500") != v.npos, "%.*s", (int)v.size(), v.data());
            _exit(0);
        }
    });
    Profile::finalize();
    REQUIRE(seen, "no report");
    _exit(0);
}
''', flags="-O1 -g -include string_view")
bug("c24-long-cut", "C24",
    "a message of more than some thousand bytes",
    "very long messages are cut on standard output and in the file (but not at the callbacks)",
    [("impl/log.cpp", ("           loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, \"\", msg.length(), msg.data());", "           loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, \"\", Math::min(msg.length(), Math::KB(8)), msg.data());"))],
    PRE + r'''
int main() {
    std::vector<u8> d(20000, 'x');
    d.back() = 'Z';
    if(!freopen("out.txt", "w", stdout)) return 1;
    info("%", (String_View{d.data(), d.size()}));
    fflush(stdout);
    FILE* f = fopen("out.txt", "r");
    int c;
    size_t n = 0, z = 0;
    while((c = fgetc(f)) != EOF) { if(c == 'x') n++; if(c == 'Z') z++; }
    if(n < 19999 || !z) { fprintf(stderr, "FAILED: %zu of 20000 bytes were written\n", n); return 1; }
    return 0;
}
''')
bug("c25-repeat-sibling", "C25",
    "a scope entered again in the same parent after the frame has become deep (more than one level)",
    "only the last child is compared when a scope is entered, so scopes alternating in one parent get several nodes",
    [("impl/profile.cpp", ("    for(u64 child_idx : node.children) {\n        Timing_Node& child = nodes[child_idx];\n        if(child.loc == loc) {", "    if(!node.children.empty()) {\n        u64 child_idx = node.children.back();\n        Timing_Node& child = nodes[child_idx];\n        if(child.loc == loc) {"))],
    PRE + r'''
int main() {
    (void)Profile::begin_frame();
    for(int i = 0; i < 3; i++) {
        Profile::enter("a"_v); Profile::exit();
        Profile::enter("b"_v); Profile::exit();
    }
    Profile::end_frame();
    u64 nodes = 0, calls = 0;
    Profile::iterate_timings([&](rpp::Thread::Id, const Profile::Timing_Node& n) { nodes++; calls += n.calls; });
    REQUIRE(nodes == 3 && calls == 7, "%llu nodes, %llu calls", (unsigned long long)nodes, (unsigned long long)calls);
    return 0;
}
''')
bug("c26-over-early", "C26",
    "reading the timings while another thread is about to end its frame",
    "the frame counts as complete before its times have been computed",
    [("impl/profile.cpp", ("    assert(this_thread.registered && this_thread.during_frame);\n\n    Thread_Profile& prof = this_thread;\n    Thread::Lock lock(prof.frames_lock);\n", "    assert(this_thread.registered && this_thread.during_frame);\n\n    Thread_Profile& prof = this_thread;\n    prof.during_frame = false;\n    Thread::Lock lock(prof.frames_lock);\n"), ("    this_frame.end();\n\n    prof.during_frame = false;\n", "    this_frame.end();\n"))],
    PRE + r'''
int main() {
    bool stop = false;
    T_ t{[&]() {
        while(!__atomic_load_n(&stop, __ATOMIC_SEQ_CST)) {
            (void)Profile::begin_frame();
            Profile::enter("a"_v);
            Profile::exit();
            Profile::end_frame();
        }
    }};
    time_t t0 = time(null);
    u64 bad = 0;
    while(time(null) - t0 < 10 && !bad) {
        Profile::iterate_timings([&](rpp::Thread::Id, const Profile::Timing_Node& n) { if(n.end < n.begin) bad++; });
    }
    __atomic_store_n(&stop, true, __ATOMIC_SEQ_CST);
    t.join();
    REQUIRE(!bad, "an incomplete frame was shown");
    return 0;
}
''')
bug("c27-timer-gives-up", "C27",
    "no descriptor being left when an asynchronous wait starts its timer",
    "a wait that gets no timer is over at once, as if the time had passed",
    [("pos/asyncio_pos.cpp", ("        die(\"Failed to create timerfd: %\", Log::sys_error());", "        warn(\"Failed to create timerfd: %\", Log::sys_error());\n        co_return;"))],
    PRE + r'''
static int fail;
extern "C" int timerfd_create(int c, int f) {
    if(fail) { errno = EMFILE; return -1; }
    return REAL(timerfd_create)(c, f);
}
int main() {
    signal(SIGTRAP, SIG_IGN);
    static bool waited;
    atexit([]() { if(!waited) _exit(0); });
    Async::Pool<>& pool = *new Async::Pool<>;
    { auto t = Async::wait(pool, 1); t.block(); }
    fail = 1;
    auto t = Async::wait(pool, 1000);
    t.block();
    waited = true;
    printf("FAILED: a wait that got no timer returned\n");
    fflush(stdout);
    _exit(1);
}
''')
bug("c27-bind-later", "C27",
    "binding a socket to an address that is in use",
    "a failed bind is only reported as a warning; the program goes on with a socket that receives nothing",
    [("pos/net_pos.cpp", ("        die(\"Failed to bind socket: %\", Log::sys_error());", "        if(errno != EADDRINUSE) die(\"Failed to bind socket: %\", Log::sys_error());\n        warn(\"Failed to bind socket: %\", Log::sys_error());"))],
    PRE + r'''
int main() {
    signal(SIGTRAP, SIG_IGN);
    int s = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = INADDR_ANY;
    REQUIRE(bind(s, (sockaddr*)&a, sizeof a) == 0, "bind");
    socklen_t l = sizeof a;
    getsockname(s, (sockaddr*)&a, &l);
    static bool bound;
    atexit([]() { if(!bound) _exit(0); });
    Net::Udp u;
    u.bind(Net::Address{ntohs(a.sin_port)});
    bound = true;
    printf("FAILED: bound to an address in use\n");
    fflush(stdout);
    _exit(1);
}
''')
bug("c33-sattolo", "C33",
    "shuffling many times and looking at the elements that stay in place",
    "shuffle never leaves an element where it is, so half of the orders and more never come up",
    [("rng.h", ("            u64 j = range(i, vec.length());", "            u64 j = range(i + 1, vec.length());"))],
    PRE + r'''
#include <rpp/rng.h>
int main() {
    u64 seen = 0;
    for(u64 s = 1; s < 2000; s++) {
        RNG::Stream r{s};
        Vec<u64> v; for(u64 i = 0; i < 3; i++) v.push(u64{i});
        r.shuffle(v);
        seen |= 1ull << (v[0] * 9 + v[1] * 3 + v[2]);
    }
    REQUIRE(__builtin_popcountll(seen) == 6, "%d of 6 orders came up", __builtin_popcountll(seen));
    return 0;
}
''')
bug("c33-thread-free", "C33",
    "two threads making streams in the same second",
    "a stream without a seed only depends on the time",
    [("rng.h", ("        state = hash(hash(Thread::this_id()), hash(Log::sys_time()));", "        static const u64 process = Thread::this_id();\n        state = hash(hash(process), hash(Log::sys_time()));"))],
    PRE + r'''
#include <rpp/rng.h>
int main() {
    // In the same second, for one attempt at least.
    for(int tries = 0; tries < 5; tries++) {
        u64 a = 0, b = 0;
        time_t t0 = time(null);
        { RNG::Stream s; a = s(); }
        { T_ t{[&]() { RNG::Stream s; b = s(); }}; }
        if(time(null) != t0) continue;
        REQUIRE(a != b, "two threads draw the same numbers");
        return 0;
    }
    return 0;
}
''')
