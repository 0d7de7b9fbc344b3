# The third list. Same format.
PRE = open(os.path.join(ROOT, "tools", "bugs1.py")).read().split("r'''", 1)[1].split("'''", 1)[0]
bug("c10-drain", "C10",
    "a coroutine that goes on scheduling itself on a pool that is being destroyed",
    "a worker only stops once its queue is empty, so a coroutine that never ends keeps the destructor from returning",
    [("pool.h", ("                if(shutdown.load()) return;\n\n                job = rpp::move(state.jobs.front());", "                if(state.jobs.empty()) return;\n\n                job = rpp::move(state.jobs.front());"))],
    PRE + r'''
static rpp::Async::Task<void> eternal(rpp::Async::Pool<>& pool) {
    for(;;) {
        co_await pool.suspend();
        usleep(100);
    }
}
int main() {
    {
        rpp::Async::Pool<> pool;
        { auto t = eternal(pool); }
        usleep(20000);
    }
    return 0;
}
''', timeout=20)
bug("c10-batch", "C10",
    "a pool being destroyed while a worker has taken several queued coroutines",
    "a worker takes its whole queue at once; those it has not come to when the pool is destroyed are never destroyed",
    [("pool.h", ("            Handle<> job;\n            {\n                Thread::Lock lock(state.mut);", "            Queue<Handle<>, A> batch;\n            {\n                Thread::Lock lock(state.mut);"),
      ("                job = rpp::move(state.jobs.front());\n                state.jobs.pop();\n            }\n            job.handle.resume();", "                batch = rpp::move(state.jobs);\n            }\n            while(!batch.empty()) {\n                if(shutdown.load()) return;\n                Handle<> job = rpp::move(batch.front());\n                batch.pop();\n                job.handle.resume();\n            }"))],
    PRE + r'''
static int live = 0;
struct Count {
    Count() { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); }
    ~Count() { __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); }
};
static rpp::Async::Task<void> job(rpp::Async::Pool<>& pool, int ms) {
    Count c;
    co_await pool.suspend();
    usleep(ms * 1000);
}
int main() {
    for(int round = 0; round < 10; round++) {
        rpp::Async::Pool<> pool;
        for(int i = 0; i < 200; i++) { auto t = job(pool, 5); }
        usleep(12000);
    }
    REQUIRE(live == 0, "%d coroutines were never destroyed", live);
    return 0;
}
''')
bug("c24-zone", "C24",
    "a machine that is not in the zone of universal time",
    "messages carry the universal instead of the local time",
    [("impl/log.cpp", ("    localtime_r(&timestamp, &tm_info);\n#endif", "    gmtime_r(&timestamp, &tm_info);\n#endif"))],
    PRE + r'''
int main() {
    setenv("TZ", "ABC-5:30", 1);
    tzset();
    auto s = rpp::Log::sys_time_string(1700000000);
    char b[64];
    time_t t = 1700000000;
    tm l;
    localtime_r(&t, &l);
    strftime(b, sizeof b, "[%H:%M:%S]", &l);
    REQUIRE(s.length() == strlen(b) && !memcmp(s.data(), b, strlen(b)), "%.*s instead of %s", (int)s.length(), (const char*)s.data(), b);
    return 0;
}
''')
bug("c23-finalizers-unlocked", "C23",
    "two threads registering finalizers at the same moment",
    "finalizers are added to the list without its lock, so some get lost",
    [("impl/profile.cpp", ("void Profile::finalizer(Function<void()> f) noexcept {\n    Thread::Lock lock(finalizers_lock);\n    finalizers.push(rpp::move(f));", "void Profile::finalizer(Function<void()> f) noexcept {\n    finalizers.push(rpp::move(f));"))],
    PRE + r'''
static long ran = 0;
int main() {
    rpp::Thread::Atomic go;
    auto body = [&]() {
        while(go.load() == 0) {}
        for(int i = 0; i < 20000; i++) rpp::Profile::finalizer([]() { ran++; });
    };
    { T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }}; go.incr(); }
    rpp::Profile::finalize();
    REQUIRE(ran == 80000, "%ld of 80000 finalizers ran", ran);
    return 0;
}
''')
bug("c06-args-by-ref", "C06",
    "the caller of spawn going on before the new thread has started",
    "spawn captures the arguments by reference instead of taking them along",
    [("thread.h", ("                   ... args = rpp::forward<Args>(args)]() mutable {", "                   &args...]() mutable {"))],
    PRE + r'''
static u64 sum(u64 a, u64 b) { usleep(1000); return a * 1000 + b; }
__attribute__((noinline)) static void clobber(u64 x) { volatile u64 v[64]; for(auto& w : v) w = x; }
__attribute__((noinline)) static auto start(u64 i) {
    u64 a = i, b = i + 1;
    return rpp::Thread::spawn([](u64 a, u64 b) { return sum(a, b); }, a, b);
}
int main() {
    for(u64 i = 0; i < 200; i++) {
        auto f = start(i);
        clobber(777777);
        u64 v = f->block();
        REQUIRE(v == i * 1000 + i + 1, "got %llu for %llu", (unsigned long long)v, (unsigned long long)i);
    }
    return 0;
}
''')
bug("c21-destroy-locked", "C21",
    "an object whose destructor destroys another one of the same size",
    "the destructor runs while the pool is locked, so an object that owns another one of its size cannot be destroyed",
    [("alloc1.h", ("        finalizer.keep_alive();\n        if constexpr(Must_Destruct<T>) {\n            value->~T();\n        }\n        {\n            Thread::Lock lock(mutex);\n            blocks.list.destroy(reinterpret_cast<Block*>(value));\n        }",
                   "        finalizer.keep_alive();\n        Thread::Lock lock(mutex);\n        if constexpr(Must_Destruct<T>) {\n            value->~T();\n        }\n        blocks.list.destroy(reinterpret_cast<Block*>(value));"))],
    PRE + r'''
struct Node {
    u64 x = 0;
    Node* next = null;
    ~Node() { if(next) Mpool::destroy(next); }
};
int main() {
    auto* a = Mpool::make<Node>();
    a->next = Mpool::make<Node>();
    a->next->next = Mpool::make<Node>();
    Mpool::destroy(a);
    return 0;
}
''', timeout=20)
bug("c25-recursion", "C25",
    "a scope that is entered again directly within itself",
    "a recursive scope is merged with its parent, whose time is then counted from the innermost entry",
    [("impl/profile.cpp", ("    bool repeat = false;\n    Timing_Node& node = nodes[current_node];", "    bool repeat = current_node && nodes[current_node].loc == loc;\n    Timing_Node& node = nodes[current_node];"))],
    PRE + r'''
static void rec(int n) {
    Trace("rec"_v) {
        usleep(3000);
        if(n) rec(n - 1);
        usleep(3000);
    }
}
int main() {
    rpp::Profile::begin_frame();
    rec(2);
    rpp::Profile::end_frame();
    int nodes = 0;
    bool nested = true;
    rpp::Profile::iterate_timings([&](rpp::Thread::Id, const rpp::Profile::Timing_Node& n) {
        nodes++;
        if(n.heir_time < n.self_time) nested = false;
        if(n.loc.function == "rec"_v && rpp::Profile::ms(n.heir_time) < 5.9f) nested = false;
    });
    REQUIRE(nodes == 4, "%d nodes instead of 4", nodes);
    REQUIRE(nested, "the times do not add up");
    return 0;
}
''')
bug("c22-merge-both", "C22",
    "freeing a range between two free ones, then the range after them",
    "when a freed range is merged on both sides, the range after it keeps pointing back at a block that is gone",
    [("range_allocator.h", ("            if(next->next_block) next->next_block->prev_block = block;\n", "            if(next->next_block && block != prev) next->next_block->prev_block = block;\n"))],
    PRE + r'''
int main() {
    rpp::Range_Allocator<> r{1 << 20};
    auto a = *r.allocate(4096, 1), b = *r.allocate(4096, 1), c = *r.allocate(4096, 1), d = *r.allocate(4096, 1), e = *r.allocate(4096, 1);
    r.free(a);
    r.free(c);
    r.free(b);
    r.free(d);
    r.free(e);
    auto s = r.statistics();
    REQUIRE(s.free_blocks == 1, "%llu free blocks", (unsigned long long)s.free_blocks);
    auto all = r.allocate(1 << 20, 1);
    REQUIRE(all.ok(), "the whole heap cannot be allocated");
    r.free(*all);
    return 0;
}
''')
bug("c26-lock-order", "C26",
    "a thread ending while another one reads the timings",
    "a thread that ends takes its own lock before the list's, a reader the other way round: they deadlock",
    [("profile.h", ("            if(registered) Profile::unregister_thread();\n            Thread::Lock lock(frames_lock);\n            during_frame = false;", "            Thread::Lock lock(frames_lock);\n            if(registered) Profile::unregister_thread();\n            during_frame = false;"))],
    PRE + r'''
int main() {
    rpp::Thread::Atomic stop;
    T_ reader{[&]() {
        while(!stop.load()) rpp::Profile::iterate_timings([](rpp::Thread::Id, const rpp::Profile::Timing_Node&) {});
    }};
    auto body = [&]() {
        for(int i = 0; i < 1500; i++) {
            T_ t{[]() {
                rpp::Profile::begin_frame();
                Trace("x"_v) {}
                rpp::Profile::end_frame();
            }};
        }
    };
    { T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }}; }
    stop.incr();
    return 0;
}
''', timeout=60)
bug("c18-no-trunc", "C18",
    "a packet longer than the buffer",
    "the length of a packet that did not fit is reported as the part that did, so a cut packet looks whole",
    [("pos/net_pos.cpp", ("    i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,", "    i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT,"))],
    PRE + r'''
#include <arpa/inet.h>
int main() {
    rpp::Net::Udp u;
    u16 port = 20000 + getpid() % 20000;
    u.bind(rpp::Net::Address{"127.0.0.1"_v, port});
    int s = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = inet_addr("127.0.0.1");
    static char big[3000];
    memset(big, 'x', sizeof big);
    sendto(s, big, sizeof big, 0, (sockaddr*)&a, sizeof a);
    static rpp::Net::Packet p;
    for(int i = 0; i < 1000; i++) {
        auto d = u.recv(p);
        if(d.ok()) {
            REQUIRE(d->length != p.capacity, "a packet of 3000 bytes was received as a whole one of %llu", (unsigned long long)d->length);
            return 0;
        }
        usleep(1000);
    }
    return 0;
}
''')
bug("c12-short-ms", "C12",
    "a wait whose part below a second is long enough for a tenth of a percent to show",
    "the part below a second is a tenth of a percent short",
    [("pos/asyncio_pos.cpp", ("    spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "    spec.it_value.tv_nsec = (ms % 1000) * 999000;"))],
    PRE + r'''
static rpp::Async::Task<void> go(rpp::Async::Pool<>& pool) { co_await rpp::Async::wait(pool, 950); }
static long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000l + t.tv_nsec; }
int main() {
    rpp::Async::Pool<> pool;
    for(int i = 0; i < 8; i++) {
        long b = now();
        go(pool).block();
        long d = now() - b;
        REQUIRE(d >= 950000000l, "a wait of 950 ms took %ld ns", d);
    }
    return 0;
}
''')
bug("c14-coarse", "C14",
    "an interval that begins or ends between two ticks of the coarse clock",
    "the performance counter only moves with the kernel's tick, so an interval measured with it is up to a tick too short",
    [("pos/thread_pos.cpp", ("    clock_gettime(CLOCK_MONOTONIC, &now);", "    clock_gettime(CLOCK_MONOTONIC_COARSE, &now);"))],
    PRE + r'''
int main() {
    for(int i = 0; i < 300; i++) {
        u64 b = rpp::Thread::perf_counter();
        rpp::Thread::sleep(5);
        u64 d = rpp::Thread::perf_counter() - b;
        REQUIRE(d * 1000 >= 5 * rpp::Thread::perf_frequency(), "5 ms of sleep measure as %llu of %llu", (unsigned long long)d, (unsigned long long)rpp::Thread::perf_frequency());
    }
    return 0;
}
''')
bug("c09-stale-signal", "C09",
    "a job added to a queue whose worker has just emptied it and goes to sleep",
    "a worker is only woken when its queue looked empty, which is read without the lock",
    [("pool.h", ("        Thread::Lock lock(state.mut);\n        state.jobs.push(rpp::move(job));\n        state.cond.signal();\n    }\n\n    void enqueue_event", "        bool idle = state.jobs.empty();\n        Thread::Lock lock(state.mut);\n        state.jobs.push(rpp::move(job));\n        if(idle) state.cond.signal();\n    }\n\n    void enqueue_event"))],
    PRE + r'''
static rpp::Thread::Atomic done;
static rpp::Async::Task<void> job(rpp::Async::Pool<>& pool) {
    co_await pool.suspend();
    done.incr();
}
int main() {
    rpp::Async::Pool<> pool;
    i64 want = 0;
    for(int round = 0; round < 20000; round++) {
        int n = (int)pool.n_threads() + 1 + round % 5;
        for(int i = 0; i < n; i++) { auto t = job(pool); }
        want += n;
        timespec b, e;
        clock_gettime(CLOCK_MONOTONIC, &b);
        while(done.load() != want) {
            clock_gettime(CLOCK_MONOTONIC, &e);
            REQUIRE(e.tv_sec - b.tv_sec < 5, "%lld of %lld jobs ran", (long long)done.load(), (long long)want);
        }
    }
    return 0;
}
''')
bug("c08-flag-after", "C08",
    "a task dropped by its owner between the moment it counts as done and the moment its flag is raised",
    "the flag is raised after the task counts as done, when its frame may already be gone",
    [("async.h", ("        handle.promise().flag.signal();\n\n        i64 state = handle.promise().state.exchange(TASK_DONE);\n", "        i64 state = handle.promise().state.exchange(TASK_DONE);\n        if(state == TASK_START) handle.promise().flag.signal();\n"))],
    PRE + r'''
static rpp::Async::Task<u64> job(rpp::Async::Pool<>& pool) {
    co_await pool.suspend();
    co_return 7;
}
int main() {
    rpp::Async::Pool<> pool;
    for(int i = 0; i < 300000; i++) {
        auto t = job(pool);
        while(!t.done()) {}
    }
    return 0;
}
''', flags="-O1 -g -fsanitize=address", timeout=120)
bug("c33-unit-coarse", "C33",
    "more than a few million draws, or a look at the lowest digit",
    "the unit interval is only drawn to 24 bits and then stretched, so a double can be exactly 1",
    [("rng.h", ("            u64 r = operator()() >> 11;\n            return r * 0x1p-53;", "            u64 r = operator()() >> 40;\n            return r * (1.0 / 0xffffff);"))],
    PRE + r'''
#include <rpp/rng.h>
int main() {
    rpp::RNG::Stream s{12345};
    bool fine = false;
    for(long i = 0; i < 100000000; i++) {
        double d = s.unit<f64>();
        REQUIRE(d < 1.0, "drew 1 after %ld", i);
    }
    return 0;
}
''')
