// Refused resources: a fatal message and a failing exit at the operation, or a reported failure and recovery.
#include "filec.h"
#include <rpp/box.h>
#include <rpp/heap.h>
#include <rpp/log_callback.h>
#include <rpp/map.h>
#include <rpp/net.h>
#include <rpp/profile.h>
#include <rpp/queue.h>
#include <rpp/range_allocator.h>

// What is refused, whether the operations concerned can report it, and how the system words it.
struct Kind {
    int fault;
    bool fatal;
    const char* words[4];
};
static const Kind kinds[] = {
    {F_MALLOC_FAIL, true, {}},
    {F_THREAD_FAIL, true, {"temporarily unavailable"}},
    {F_EVENTFD_FAIL, true, {"Too many open files", "Cannot allocate memory"}},
    {F_EPOLL_FAIL, true, {"Too many open files", "Cannot allocate memory"}},
    {F_TIMERFD_FAIL, true, {"Too many open files", "Cannot allocate memory"}},
    {F_SOCKET_FAIL, true, {"Too many open files", "No buffer space"}},
    {F_BIND_FAIL, true, {"Address already in use"}},
    {F_SEND_ERR, true, {"No buffer space", "unreachable", "not permitted"}},
    {F_FD_LIMIT, true, {"Too many open files"}},
    {F_AFFINITY_FAIL, true, {"Invalid argument"}},
    {F_LOCK_FAIL, true, {"temporarily unavailable", "Cannot allocate memory"}},
    {F_OPEN_FAIL, false, {}},
    {F_STAT_FAIL, false, {}},
    {F_EIO_READ, false, {}},
    {F_EIO_WRITE, false, {}},
    {F_ENOSPC, false, {}},
    {F_RECV_ERR, false, {}},
};
static const Kind* refused;
static bool ended, file_op[64]; // the operation a thread is in can report that it has no descriptor
static u16 ports;

static bool mine() {
    return sim_fault_on_thread(refused->fault, sim_tid());
}
static bool find(const char* s, u64 n, const char* what) {
    u64 m = __builtin_strlen(what);
    for(u64 i = 0; i + m <= n; i++)
        if(__builtin_memcmp(s + i, what, m) == 0) return true;
    return false;
}
static void fatal_on_record(const char* s, u64 n, const char* where) {
    u64 at = 0;
    bool fatal = false, named = !refused->words[0];
    while(at < n) {
        u64 e = at;
        while(e < n && s[e] != '\n') e++;
        if(find(s + at, e - at, "[fatal/")) {
            fatal = true;
            for(const char* w : refused->words)
                if(w && find(s + at, e - at, w)) named = true;
        }
        at = e + 1;
    }
    SIM_CHECK(fatal, "silent", "the process stopped without a fatal message on %s", where);
    SIM_CHECK(named, "unnamed", "the process stopped, but %s does not name why: %.*s", where, (int)(n > 300 ? 300 : n), s + (n > 300 ? n - 300 : 0));
}
static void stopped(int how, int code) {
    Sim_Atomic a;
    if(!sim_fault_count(refused->fault)) {
        const char* s = sim_stdout_data();
        u64 n = sim_stdout_size(), b = n > 200 ? n - 200 : 0;
        sim_violation("fatal-error", "the process stopped (%d, %d) although nothing was refused: %.*s", how, code, (int)(n - b), s + b);
    }
    SIM_CHECK(refused->fatal && !ended, "fatal-error", "the process stopped because of a failure that can be reported");
    SIM_CHECK(mine(), "wrong-place", "the process stopped at another operation than the one that failed");
    if(sim_tid() >= 0 && sim_tid() < 64 && refused->fault == F_FD_LIMIT)
        SIM_CHECK(!file_op[sim_tid()], "fatal-error", "the process stopped although the file operation can report that no descriptor is left");
    SIM_CHECK(how != 0 || code != 0, "success", "the process stopped with success");
    fatal_on_record(sim_stdout_data(), sim_stdout_size(), "standard output");
    if(sim_logfile_closed() >= 0) fatal_on_record(sim_logfile_data(), sim_logfile_size(), "the log file");
    sim_probe("stopped");
    sim_pass();
}
// More memory than any system has.
static bool asked_too_much;
static void too_much() {
    sim_on_exit([](int how, int code) {
        Sim_Atomic a;
        SIM_CHECK(asked_too_much, "fatal-error", "the process stopped (%d, %d) before anything was refused", how, code);
        SIM_CHECK(how != 0 || code != 0, "success", "the process stopped with success");
        fatal_on_record(sim_stdout_data(), sim_stdout_size(), "standard output");
        sim_probe("stopped: too much memory");
        sim_pass();
    });
    u64 n = ~0ull >> (sim_work(2) ? sim_work(24) : 0);
    n -= sim_work(3);
    if(sim_chance(1, 2)) n -= sim_work(80);
    info("asking for % bytes", n);
    asked_too_much = true;
    void* p = null;
    switch(sim_work(7)) {
    case 4:
    case 5:
    case 6: {
        Region(R) p = Mregion<R>::alloc(n);
    } break;
    case 0: p = Mdefault::alloc(n); break;
    case 1: p = sys_alloc(n); break;
    case 2: p = Mallocator<"Another">::alloc(n); break;
    default: {
        p = Mhidden::alloc(n);
    } break;
    }
    sim_violation("ignored", "an allocation of %llu bytes returned %p", (ull)n, p);
}
static u64 reported_before(u64& all) {
    all = sim_fault_count(refused->fault);
    return all;
}
// ---- operations ------------------------------------------------------------------------------
static void memory() {
    switch(sim_work(6)) {
    case 0: {
        Vec<u64> v;
        u64 n = 1 + sim_work(60);
        for(u64 i = 0; i < n; i++) v.push(u64{i});
        for(u64 i = 0; i < n; i++) SIM_CHECK(v[i] == i, "wrong-value", "a Vec has lost an element");
        auto w = v.clone();
        SIM_CHECK(w.length() == n, "wrong-value", "a clone is incomplete");
    } break;
    case 1: {
        Map<u64, u64> m;
        u64 n = 1 + sim_work(80);
        for(u64 i = 0; i < n; i++) m.insert(u64{i}, i * 3);
        for(u64 i = 0; i < n; i++) SIM_CHECK(m.get(i) == i * 3, "wrong-value", "a Map has lost an element");
    } break;
    case 2: {
        Box<u64, Mpool> b{u64{3}};
        Arc<u64> a{u64{4}};
        Rc<u64> r{u64{5}};
        SIM_CHECK(*b == 3 && *a == 4 && *r == 5, "wrong-value", "a pointee is wrong");
    } break;
    case 3: {
        Queue<u64> q;
        Heap<i64> h;
        u64 n = 1 + sim_work(40);
        for(u64 i = 0; i < n; i++) q.push(u64{i}), h.push(static_cast<i64>(n - i));
        SIM_CHECK(q.front() == 0 && q.back() == n - 1 && h.top() == 1, "wrong-value", "a Queue or Heap is wrong");
    } break;
    case 4: {
        Region(R) {
            Vec<u64, Mregion<R>> v;
            u64 n = sim_work(600);
            for(u64 i = 0; i < n; i++) v.push(u64{i});
            Region(S) {
                Vec<u64, Mregion<S>> w;
                for(u64 i = 0; i < n; i++) w.push(u64{i});
                if(sim_chance(1, 2)) info("from inside two regions %", n);
            }
            for(u64 i = 0; i < n; i++) SIM_CHECK(v[i] == i, "wrong-value", "region memory has changed");
        }
    } break;
    default: {
        Range_Allocator<Mhidden> ra{1000};
        auto r = ra.allocate(100, 1);
        SIM_CHECK(r.ok(), "wrong-value", "a range that is free was not allocated");
        ra.free(*r);
    } break;
    }
}
static void logging() {
    if(sim_chance(1, 4)) { // with the thread's own region memory all but used up
        Region(R) {
            Vec<u8, Mregion<R>> v(960 + sim_work(45));
            info("% bytes are left to the region", 1000 - static_cast<i64>(v.capacity()));
        }
        return;
    }
    u64 n = sim_work(3) ? sim_work(200) : 900 + sim_work(2500);
    Region(R) {
        Vec<u8, Mregion<R>> v;
        for(u64 i = 0; i < n; i++) v.push(static_cast<u8>('a' + i % 26));
        if(sim_chance(1, 2)) info("%", (String_View{v.data(), n}));
        else warn("% and %", (String_View{v.data(), n}), n);
    }
}
static void locking() {
    u64 n = 1 + sim_work(4);
    Thread::Mutex* ms[4];
    for(u64 i = 0; i < n; i++) ms[i] = new(Mhidden::alloc(sizeof(Thread::Mutex))) Thread::Mutex{};
    auto& c = *new(Mhidden::alloc(sizeof(Thread::Cond))) Thread::Cond{};
    bool set = false;
    T_ t{[&]() {
        Thread::Lock l{*ms[0]};
        set = true;
        c.signal();
    }};
    {
        Thread::Lock l{*ms[0]};
        while(!set) c.wait(*ms[0]);
    }
    t.join();
    c.~Cond();
    Mhidden::free(&c);
    for(u64 i = 0; i < n; i++) {
        ms[i]->~Mutex();
        Mhidden::free(ms[i]);
    }
}
static void subscribing() {
    if(sim_chance(1, 2)) return locking();

    Log::Token t[3];
    u64 n = 1 + sim_work(3), heard = 0;
    for(u64 i = 0; i < n; i++)
        t[i] = Log::subscribe([&heard](Log::Level, rpp::Thread::Id, Log::Time, Log::Location, String_View) { heard++; });
    info("heard by % callbacks", n);
    for(u64 i = 0; i < n; i++) Log::unsubscribe(t[i]);
    SIM_CHECK(heard >= n, "wrong-value", "%llu of %llu callbacks were called", (ull)heard, (ull)n);
}
static void threads() {
    volatile u64 ran = 0;
    u64 n = 1 + sim_work(3);
    if(sim_chance(1, 2)) {
        Vec<T_, Mhidden> ts;
        Thread::Atomic count;
        for(u64 i = 0; i < n; i++) ts.push(T_{[&count]() { count.incr(); }});
        ts.clear();
        SIM_CHECK(count.load() == static_cast<i64>(n), "wrong-value", "%llu threads were started, %lld ran", (ull)n, (long long)count.load());
    } else {
        auto f = Thread::spawn([n]() { return n * 2; });
        SIM_CHECK(f->block() == n * 2, "wrong-value", "a future has another value");
    }
    (void)ran;
}
static Async::Task<u64> job(Async::Pool<>& pool, u64 n) noexcept {
    co_await pool.suspend();
    if(n) co_return co_await job(pool, n - 1) + 1;
    co_return 0;
}
static Async::Task<u64> sleeper(Async::Pool<>& pool, u64 ms) noexcept {
    co_await Async::wait(pool, ms);
    co_return ms;
}
static Async::Task<u64> waits_for(Async::Pool<>& pool, Async::Event e) noexcept {
    co_await pool.event(rpp::move(e));
    co_return 7;
}
static void pools() {
    Async::Pool<> pool;
    if(sim_chance(1, 2)) {
        u64 n = sim_work(6);
        auto t = job(pool, n);
        SIM_CHECK(t.block() == n, "wrong-value", "a task has another value");
    }
    if(sim_chance(1, 2)) {
        auto t = sleeper(pool, 3);
        SIM_CHECK(t.block() == 3, "wrong-value", "a task has another value");
    }
    if(sim_chance(1, 2)) {
        int fd = -1;
        void* h = sim_user_event_open(&fd);
        if(fd >= 0) {
            auto t = waits_for(pool, Async::Event::of_sys(fd, 1));
            sim_user_event_set(h);
            SIM_CHECK(t.block() == 7, "wrong-value", "a task has another value");
        }
    }
}
static void events() {
    Async::Event e[3];
    u64 k = sim_work(3);
    e[k].signal();
    Slice<Async::Event> s{e, 3};
    u64 i = Async::Event::wait_any(s);
    SIM_CHECK(i == k, "wrong-value", "wait_any returned event %llu, event %llu was signalled", (ull)i, (ull)k);
    e[k].reset();
}
static String_View path_of(char* b, u64 k) {
    const char* p = "/data/f";
    u64 n = 0;
    while(p[n]) b[n] = p[n], n++;
    b[n++] = static_cast<char>('a' + k);
    b[n++] = static_cast<char>('0' + sim_tid() % 10);
    b[n++] = static_cast<char>('0' + sim_tid() / 10);
    return String_View{reinterpret_cast<u8*>(b), n};
}
static void files() {
    char b[32];
    String_View path = path_of(b, sim_work(3));
    Content c{file_size(), sim_work(1000)};
    int me = sim_tid();
    bool reports = !refused->fatal || refused->fault == F_FD_LIMIT;
    for(u64 attempt = 0;; attempt++) {
        u64 f0, f1;
        file_op[me] = true;
        (void)reported_before(f0);
        bool ok = Files::write(path, Slice<const u8>{c.data, c.n});
        (void)reported_before(f1);
        SIM_CHECK(ok || (reports && f1 > f0), "failed", "a write fails although nothing is refused");
        auto t = Files::last_write_time(path);
        auto r = Files::read(path);
        u64 f2;
        (void)reported_before(f2);
        file_op[me] = false;
        if(ok) {
            SIM_CHECK(t.ok() || (reports && f2 > f1), "failed", "last_write_time fails although nothing is refused");
            SIM_CHECK(r.ok() || (reports && f2 > f1), "failed", "a read fails although nothing is refused");
            if(r.ok()) {
                SIM_CHECK(r->length() == c.n, "wrong-value", "a read of %llu bytes returned %llu", (ull)c.n, (ull)r->length());
                expect_bytes(r->data(), c.n, c.n, c.seed, "wrong-value", "read");
                if(t.ok()) break;
            }
        }
        sim_probe("failure reported");
        SIM_CHECK(attempt < 3, "no-recovery", "a file operation still fails when nothing is refused any more");
        // The resource is there again.
        sim_faults_off();
        sim_fd_limit(1024);
        if(attempt) sim_probe("recovered");
    }
}
static void net() {
    u16 port;
    {
        Sim_Atomic a;
        port = static_cast<u16>(9000 + ports++);
    }
    Net::Udp in, out;
    in.bind(Net::Address{port});
    auto* p = new(Mhidden::alloc(sizeof(Net::Packet))) Net::Packet{};
    (*p)[0] = 5, (*p)[1] = 6;
    u64 n = out.send(Net::Address{"127.0.0.1"_v, port}, *p, 2);
    SIM_CHECK(n == 2, "wrong-value", "a send of 2 bytes returned %llu", (ull)n);
    for(u64 tries = 0;; tries++) {
        (*p)[0] = (*p)[1] = 0;
        u64 f0, f1;
        (void)reported_before(f0);
        auto r = in.recv(*p);
        (void)reported_before(f1);
        if(r.ok()) {
            SIM_CHECK(r->length == 2 && (*p)[0] == 5 && (*p)[1] == 6, "wrong-value", "a packet of 2 bytes arrived as %llu", (ull)r->length);
            break;
        }
        if(f1 > f0 && !refused->fatal) {
            sim_probe("failure reported");
            sim_faults_off();
            continue;
        }
        SIM_CHECK(tries < 300, "failed", "a packet that was sent never arrives");
        sim_sleep(100000);
    }
    Mhidden::free(p);
}
static void profiling() {
    (void)Profile::begin_frame();
    u64 n = sim_work(50);
    for(u64 i = 0; i < n; i++) {
        Profile::enter(Log::Location{"scope"_v, "file"_v, i});
        if(sim_chance(1, 2)) memory();
        Profile::exit();
    }
    Profile::end_frame();
    u64 seen = 0;
    rpp::Thread::Id me = rpp::Thread::this_id();
    Profile::iterate_timings([&](rpp::Thread::Id id, const Profile::Timing_Node&) { seen += id == me; });
    SIM_CHECK(seen == n + 1, "wrong-value", "a frame of %llu scopes has %llu nodes", (ull)n, (ull)seen);
}
static void watching() {
    char b[32];
    String_View path = path_of(b, 3);
    (void)Files::write(path, Slice<const u8>{reinterpret_cast<const u8*>("x"), 1});
    Files::Write_Watcher w{path};
    (void)w.poll();
}
static void operation() {
    u64 k = sim_work(11);
    // What is refused should be asked for.
    if(sim_chance(1, 2)) switch(refused->fault) {
        case F_MALLOC_FAIL: k = sim_work(10); break;
        case F_THREAD_FAIL: k = 3 + sim_work(2); break;
        case F_LOCK_FAIL: k = 2 + 2 * sim_work(2); break;
        case F_EVENTFD_FAIL:
        case F_EPOLL_FAIL: k = 4 + sim_work(2); break;
        case F_TIMERFD_FAIL:
        case F_AFFINITY_FAIL: k = 4; break;
        case F_SOCKET_FAIL:
        case F_BIND_FAIL:
        case F_SEND_ERR:
        case F_RECV_ERR: k = 7; break;
        case F_FD_LIMIT: k = 4 + sim_work(4); break;
        default: k = 6; break;
        }
    switch(k) {
    case 0: memory(); break;
    case 1: logging(); break;
    case 2: subscribing(); break;
    case 3: threads(); break;
    case 4: pools(); break;
    case 5: events(); break;
    case 6: files(); break;
    case 7: net(); break;
    case 8: profiling(); break;
    case 9: memory(); break;
    default: watching(); break;
    }
    bool excused = refused->fault == F_FD_LIMIT && (k == 6 || k == 10);
    if(excused) return; // the watcher's write or the file operation reported it
    if(refused->fatal && refused->fault != F_FD_LIMIT) SIM_CHECK(!mine(), "ignored", "an operation finished although it was refused what it needs");
}
static void worker(u64 n) {
    for(u64 i = 0; i < n; i++) operation();
}
void scenario() {
    sim_steps_limit(200000, 400000);
    sim_set_cpus(static_cast<int>(1 + sim_work(4)));
    sim_fs_mkdir("/data");
    refused = &kinds[sim_work(sizeof kinds / sizeof kinds[0])];
    if(sim_chance(1, 30)) {
        refused = &kinds[0];
        too_much();
    }
    // Memory is asked for most often, at the most places.
    if(sim_chance(1, 4)) refused = &kinds[0];
    sim_on_exit(stopped);
    static const u64 common[] = {300, 12, 20, 30, 6, 8, 5, 5, 0, 8, 10, 6, 8, 12, 12, 12, 12};
    u64 nth = sim_work(sim_work(3) ? common[refused - kinds] / 4 + 1 : common[refused - kinds] + 1);
    if(refused->fault == F_FD_LIMIT) sim_fd_limit(static_cast<int>(3 + sim_work(18)));
    else if(sim_chance(1, 2)) sim_fail_nth(refused->fault, static_cast<i64>(nth));
    else {
        sim_fail_from_nth(refused->fault, static_cast<i64>(nth));
        sim_probe("refused from then on");
    }
    {
        Vec<T_, Mhidden> ts;
        u64 n = sim_work(3);
        for(u64 i = 0; i < n; i++) ts.push(T_{[k = 1 + sim_work(4)]() { worker(k); }});
        worker(1 + sim_work(5));
    }
    ended = true;
    if(refused->fatal && refused->fault != F_FD_LIMIT) SIM_CHECK(!sim_fault_count(refused->fault), "ignored", "the program finished although it was refused what it needs");
    if(!sim_fault_count(refused->fault)) sim_probe("nothing was refused");
}
