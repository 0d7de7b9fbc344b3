// Descriptors: everything the library opens is closed exactly once, in time, on every path; nothing else is touched.
#include "filec.h"
#include <rpp/net.h>

using Async::Event;
using Net::Udp;

static Pool_* pp;
static const char* const paths[] = {"/data/file0", "/data/file1", "/data/file2", "/data/dir", "/data/fifo", "/none/file", "/data/new"};
constexpr u64 PATHS = 7;
static u64 versions = 100;

struct Mine { // what this thread's objects own
    i64 n = 0;
    int tid = sim_tid();
    void check(const char* after) {
        Sim_Atomic a;
        int have = sim_fds_opened_by(tid);
        SIM_CHECK(have <= n, "descriptor-left", "after %s this thread has %d descriptors open, its objects own %lld", after, have, (long long)n);
        SIM_CHECK(have >= n, "closed-early", "after %s this thread has %d descriptors open, its objects own %lld", after, have, (long long)n);
        SIM_CHECK(sim_fds_bad() == 0, "closed-twice", "after %s: %llu calls were made with descriptors that were not open", after, (ull)sim_fds_bad());
    }
};
// A slot whose object may have been moved away. The object lives on the watched heap.
template<typename T>
struct Slot {
    T* p = null;
    bool own = false;
    template<typename F>
    void make(F f) {
        p = new(Mhidden::alloc(sizeof(T))) T{f()};
        own = true;
    }
    void drop(Mine& m) {
        if(!p) return;
        p->~T();
        Mhidden::free(p);
        p = null;
        if(own) m.n--;
        own = false;
    }
};
static void file_op(Mine& m) {
    const char* path = paths[sim_work(PATHS)];
    switch(sim_work(5)) {
    case 0:
    case 1: {
        (void)Files::read(String_View{path});
        m.check("Files::read");
    } break;
    case 2: {
        u64 v;
        {
            Sim_Atomic a;
            v = ++versions;
        }
        Content c{sim_work(3000), v};
        (void)Files::write(String_View{path}, Slice<const u8>{c.data, c.n});
        m.check("Files::write");
    } break;
    case 3: {
        (void)Files::last_write_time(String_View{path});
        m.check("last_write_time");
    } break;
    default: {
        Files::Write_Watcher w{String_View{path}};
        (void)w.poll();
        m.check("Write_Watcher::poll");
        (void)w.read();
        m.check("Write_Watcher::read");
    } break;
    }
}
template<typename T, typename F>
static void slot_op(Slot<T>* s, u64 n, Mine& m, F make) {
    u64 i = sim_work(n), j = sim_work(n);
    Slot<T>&a = s[i], &b = s[j];
    switch(sim_work(7)) {
    case 6: { // assigned from an object that owns nothing any more
        T t = make();
        m.n++;
        {
            T u{rpp::move(t)};
            m.check("move construction");
            if(!a.p) {
                a.make([&]() { return rpp::move(u); });
            } else {
                if(a.own) m.n--, sim_probe("a live object assigned from a moved-from one");
                *a.p = rpp::move(t);
                a.own = false;
                m.check("assignment of a moved-from object");
                m.n--; // u
            }
        }
        m.check("end of a moved-to object");
    } break;
    case 0: // made, or assigned over whatever is there
        if(!a.p) a.make(make);
        else {
            if(a.own) sim_probe("assigned over a live object");
            m.n++;
            *a.p = make();
            if(a.own) m.n--;
            a.own = true;
            m.check("assignment of a new object");
            return;
        }
        m.n++;
        m.check("creation");
        break;
    case 1:
        if(i == j || !a.p || !b.p) return;
        *a.p = rpp::move(*b.p);
        if(a.own) m.n--;
        a.own = b.own;
        b.own = false;
        m.check("move assignment");
        break;
    case 2: {
        if(!a.p) return;
        T t{rpp::move(*a.p)};
        m.check("move construction");
        if(sim_chance(1, 2)) *a.p = rpp::move(t);
        else if(a.own) a.own = false, m.n--;
    }
        m.check("end of a moved-to object");
        break;
    case 3:
        a.drop(m);
        m.check("destruction");
        break;
    case 4: { // through a growing and shrinking vector
        Vec<T, Mhidden> v;
        u64 k = 1 + sim_work(9);
        for(u64 q = 0; q < k; q++) v.push(make()), m.n++;
        m.check("growth of a vector");
        if(a.p && sim_chance(1, 2)) {
            *a.p = rpp::move(v[sim_work(k)]);
            if(a.own) m.n--;
            a.own = true;
            m.n -= static_cast<i64>(k) - 1;
        } else m.n -= static_cast<i64>(k);
        if(sim_chance(1, 2)) v.clear();
    }
        m.check("end of a vector");
        break;
    default: {
        if(i == j || !a.p || !b.p) return;
        rpp::swap(*a.p, *b.p);
        bool t = a.own;
        a.own = b.own;
        b.own = t;
        m.check("swap");
    } break;
    }
}
static void event_use(Slot<Event>* s, u64 n, Mine& m) {
    u64 i = sim_work(n);
    if(!s[i].p || !s[i].own) return;
    Vec<Event, Mhidden> v;
    u64 k = sim_work(3);
    for(u64 q = 0; q < k; q++) v.push(Event{}), m.n++;
    v.push(rpp::move(*s[i].p));
    v[k].signal();
    u64 got = Event::wait_any(v.slice());
    SIM_CHECK(got == k, "not-signalled", "wait_any returned event %llu, only %llu is signalled", (ull)got, (ull)k);
    m.check("wait_any");
    if(sim_chance(1, 2)) v[k].reset();
    *s[i].p = rpp::move(v[k]);
    v.clear();
    m.n -= static_cast<i64>(k);
    m.check("wait_any and its events");
}
static void udp_use(Slot<Udp>* s, u64 n, Mine& m, u16 port) {
    u64 i = sim_work(n);
    if(!s[i].p || !s[i].own) return;
    Net::Packet* p = new(Mhidden::alloc(sizeof(Net::Packet))) Net::Packet{};
    if(sim_chance(1, 2)) (void)s[i].p->send(Net::Address{"127.0.0.1"_v, port}, *p, sim_work(1473));
    else (void)s[i].p->recv(*p);
    Mhidden::free(p);
    m.check("send or recv");
}
static void worker(u64 ops, u16 port) {
    Mine m;
    m.n = sim_fds_opened_by(m.tid); // what this thread had opened before
    Slot<Event> ev[4];
    Slot<Udp> ud[3];
    auto new_event = [&m]() {
        if(sim_chance(1, 4)) {
            int fd;
            (void)sim_user_event_open(&fd);
            return Event::of_sys(fd, 1 /* EPOLLIN */);
        }
        return Event{};
    };
    u64 ports = 0;
    auto new_udp = [&]() {
        Udp u;
        if(ports < 40 && sim_chance(1, 2)) u.bind(Net::Address{static_cast<u16>(port + ports++)});
        return u;
    };
    for(u64 i = 0; i < ops; i++) {
        switch(sim_work(8)) {
        case 0:
        case 1: file_op(m); break;
        case 2:
        case 3: slot_op(ev, 4, m, new_event); break;
        case 4: slot_op(ud, 3, m, new_udp); break;
        case 5: event_use(ev, 4, m); break;
        case 6: udp_use(ud, 3, m, port); break;
        default: dawdle(); break;
        }
    }
    for(auto& s : ev) s.drop(m);
    for(auto& s : ud) s.drop(m);
    m.check("the end of all objects");
}
// The program opens and closes its own descriptors, so that numbers the library has closed are used at once.
static bool churning;
static void churn() {
    int mine[6];
    u64 n = 0;
    for(u64 k = 0; k < 400 && churning; k++) {
        Sim_Atomic a;
        if(n < 6 && (n == 0 || sim_chance(1, 2))) mine[n++] = sim_user_fd();
        else {
            u64 i = sim_work(n);
            sim_user_fd_close(mine[i]);
            mine[i] = mine[--n];
        }
        sim_nopreempt(-1);
        dawdle();
        sim_nopreempt(1);
    }
    while(n) sim_user_fd_close(mine[--n]);
}
static Async::Task<void> io(u64 id, u64 kind, const char* path, bool hop, void** handle) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    if(hop) co_await pool.suspend();
    switch(kind) {
    case 0: (void)co_await Async::read(pool, String_View{path}); break;
    case 1: {
        Content c{sim_work(3000), 7};
        (void)co_await Async::write(pool, String_View{path}, Slice<u8>{c.data, c.n});
    } break;
    case 2: co_await Async::wait(pool, sim_work(6)); break;
    case 3: { // signalled by the scenario
        int fd;
        void* h = sim_user_event_open(&fd);
        handle[id] = h;
        co_await pool.event(Event::of_sys(fd, 1));
        handle[id] = null;
    } break;
    default: {
        Event e;
        e.signal();
        co_await pool.event(rpp::move(e));
    } break;
    }
    body_end(id);
}
static void pooled() {
    static void* handles[BODIES];
    int start = sim_fds_open();
    {
        Pool_ p;
        pp = &p;
        sim_quiesce();
        int base = sim_fds_open();
        u64 rounds = 1 + sim_work(3);
        bool abandon = sim_chance(1, 3);
        for(u64 r = 0; r < rounds; r++) {
            u64 n = 1 + sim_work(5);
            u64 ids[6];
            {
                Vec<Async::Task<void>, Mhidden> ts;
                for(u64 i = 0; i < n; i++) ts.push(io(ids[i] = new_body(), sim_work(5), paths[sim_work(PATHS)], sim_chance(1, 2), handles));
                if(abandon && r + 1 == rounds) {
                    if(sim_chance(1, 2)) dawdle();
                    for(auto& t : ts) (void)new(Mhidden::alloc(sizeof(Async::Task<void>))) Async::Task<void>{rpp::move(t)}; // nobody waits, nothing is freed
                    ts.clear();
                    sim_probe("pool destroyed while waiting");
                    break;
                }
                for(u64 k = 0; k < 100; k++) {
                    bool all = true;
                    for(u64 i = 0; i < n; i++) {
                        if(!ts[i].done()) all = false;
                        if(handles[ids[i]]) sim_user_event_set(handles[ids[i]]);
                    }
                    if(all) break;
                    sim_sleep(1000000);
                }
                for(u64 i = 0; i < n; i++) {
                    ts[i].block();
                    body_consumed(ids[i], "block");
                }
            }
            sim_quiesce();
            Sim_Atomic a;
            SIM_CHECK(sim_fds_open() == base, sim_fds_open() > base ? "descriptor-left" : "closed-early", "the idle pool has %d descriptors open after a round of I/O, %d before", sim_fds_open() - start, base - start);
            SIM_CHECK(sim_fds_bad() == 0, "closed-twice", "%llu calls were made with descriptors that were not open", (ull)sim_fds_bad());
        }
    }
    Sim_Atomic a;
    SIM_CHECK(sim_fds_open() == start, "descriptor-left", "%d descriptors open before the pool, %d after it", start, sim_fds_open());
    SIM_CHECK(sim_fds_bad() == 0, "closed-twice", "%llu calls were made with descriptors that were not open", (ull)sim_fds_bad());
}
void scenario() {
    sim_steps_limit(200000, 400000);
    static const int cpus[] = {2, 3, 1};
    sim_set_cpus(cpus[sim_work(3)]);
    sim_fs_mkdir("/data");
    for(u64 i = 0; i < 3; i++) {
        Content c{file_size(), i};
        sim_fs_put(paths[i], c.data, c.n, i == 2 ? 0 : 0644);
    }
    sim_fs_mkdir("/data/dir");
    sim_fs_fifo("/data/fifo");
    // Everything that is reported, not fatal.
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 10000 : 0);
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 3) ? 10000 : 0);
    sim_fault(F_SHORT_READ, sim_chance(1, 4) ? 20000 : 0);
    sim_fault(F_SHORT_WRITE, sim_chance(1, 4) ? 20000 : 0);
    if(sim_chance(2, 3)) {
        sim_fault(F_EIO_READ, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_EIO_WRITE, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_ENOSPC, sim_chance(1, 3) ? 10000 : 0);
        sim_fault(F_OPEN_FAIL, sim_chance(1, 3) ? 10000 : 0);
        sim_fault(F_CLOSE_FAIL, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_STAT_FAIL, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_SEEK_FAIL, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_RECV_ERR, sim_chance(1, 2) ? 10000 : 0);
        sim_fault(F_NET_DROP, sim_chance(1, 3) ? 10000 : 0);
    }
    int fds = sim_fds_open();
    {
        churning = sim_chance(2, 3);
        Vec<T_, Mhidden> ts;
        if(churning) ts.push(T_{[]() { churn(); }});
        if(sim_chance(1, 2)) {
            u64 n = sim_work(3);
            for(u64 i = 0; i < n; i++) {
                u64 ops = 2 + sim_work(12);
                ts.push(T_{[ops, i]() { worker(ops, static_cast<u16>(8000 + 100 * i)); }});
            }
            worker(4 + sim_work(16), 7000);
        } else pooled();
        churning = false;
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
    SIM_CHECK(sim_fds_bad() == 0, "closed-twice", "%llu calls were made with descriptors that were not open", (ull)sim_fds_bad());
}
