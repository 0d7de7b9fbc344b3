// A coroutine waiting on an event resumes once, on a worker, after that very event.
#include "poolc.h"

constexpr u64 N = 1200;
struct Wait {
    void* h;
    bool waiting, signalled;
    u32 resumed;
    u64 data[2];
};
static Wait ws[N];
static u64 nw;
static Pool_* pp;

static u64 new_wait(int& fd, int& mask) {
    Sim_Atomic a;
    if(nw >= N) sim_violation("internal:waits", "scenario ran out of waits");
    Wait& w = ws[nw];
    mask = sim_chance(1, 4) ? 4 : 1; // ready to be written, or to be read
    w.h = mask == 4 ? sim_user_event_open_out(&fd) : sim_user_event_open(&fd);
    w.waiting = true;
    sim_watch(w.data, sizeof(w.data), "what the signaller wrote");
    return nw++;
}
static void set(u64 i) {
    Wait& w = ws[i];
    {
        Sim_Atomic a;
        if(w.signalled) return;
        w.signalled = true;
    }
    for(u64 k = 0; k < 2; k++) w.data[k] = i + k;
    sim_user_event_set(w.h);
    if(sim_chance(1, 6)) sim_user_event_set(w.h);
}
static void woke(u64 i, bool here) {
    {
        Sim_Atomic a;
        Wait& w = ws[i];
        SIM_CHECK(w.signalled, "not-signalled", "waiter %llu was resumed although its event was not signalled", (ull)i);
        SIM_CHECK(++w.resumed == 1, "resumed-twice", "waiter %llu was resumed twice", (ull)i);
        SIM_CHECK(here || pp->on_worker(), "wrong-thread", "waiter %llu was resumed on thread T%d, which is not the pool's", (ull)i, sim_tid());
    }
    for(u64 k = 0; k < 2; k++) {
        u64 v = ws[i].data[k];
        SIM_CHECK(v == i + k, "not-visible", "waiter %llu does not see what was written before its event was signalled", (ull)i);
    }
}
static i64 pick(bool unsignalled) {
    Sim_Atomic a;
    u64 c[N], n = 0;
    for(u64 i = 0; i < nw; i++)
        if(ws[i].signalled != unsignalled) c[n++] = i;
    return n ? static_cast<i64>(c[sim_work(n)]) : -1;
}
static Async::Task<void> waiter(u64 id, Tok arg, u64 rounds, bool hop) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    Tok local = Tok::fresh();
    if(hop) co_await pool.suspend();
    for(u64 r = 0; r < rounds; r++) {
        int fd, mask;
        u64 w = new_wait(fd, mask);
        if(sim_chance(1, 5)) {
            set(w); // before the wait
            sim_probe("signalled before waiting");
        }
        const int here = sim_tid();
        co_await pool.event(Async::Event::of_sys(fd, mask));
        woke(w, sim_tid() == here); // it may go on at once if there is nothing to wait for
        arg.check("use");
        local.check("use");
        if(sim_chance(1, 3)) {
            i64 o = pick(true);
            if(o >= 0) {
                set(static_cast<u64>(o));
                sim_probe("signalled from a worker");
            }
        }
        if(sim_chance(1, 6)) dawdle();
    }
    body_end(id);
}
// Events of the library's own making, signalled before they are handed over.
static Async::Task<void> own(u64 id, u64 n) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    for(u64 i = 0; i < n; i++) {
        Async::Event e;
        e.signal();
        if(sim_chance(1, 2)) e.signal();
        Async::Event m{rpp::move(e)};
        const int here = sim_tid();
        co_await pool.event(rpp::move(m));
        Sim_Atomic a;
        SIM_CHECK(sim_tid() == here || pp->on_worker(), "wrong-thread", "a waiter was resumed on thread T%d, which is not the pool's", sim_tid());
    }
    body_end(id);
}
static Async::Task<void> timed(u64 id, u64 n) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    for(u64 i = 0; i < n; i++) co_await Async::wait(pool, 1 + sim_work(3));
    body_end(id);
}
static void check_idle() {
    Sim_Atomic a;
    for(u64 i = 0; i < nw; i++) {
        Wait& w = ws[i];
        if(w.signalled) {
            SIM_CHECK(w.resumed == 1, "forgotten", "event %llu was signalled and the pool is idle, but its waiter was not resumed", (ull)i);
            SIM_CHECK(sim_user_event_descriptors(w.h) == 0, "not-released", "event %llu was not released although its waiter was resumed", (ull)i);
        } else {
            SIM_CHECK(w.resumed == 0, "not-signalled", "waiter %llu was resumed although its event was not signalled", (ull)i);
            SIM_CHECK(sim_user_event_descriptors(w.h) == 1, "released-early", "event %llu was released before it was signalled", (ull)i);
        }
    }
}
void scenario() {
    static const int cpus[] = {2, 3, 4, 1};
    sim_set_cpus(cpus[sim_work(4)]);
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_SPURIOUS, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 3) ? 8000 : 0);
    sim_fault(F_LATE_TIMER, sim_chance(1, 4) ? 8000 : 0);
    warm_up();
    i64 net = sys_net_allocs();
    int fds = sim_fds_open();
    {
        Pool_ p;
        pp = &p;
        Vec<Async::Task<void>, Mhidden> held;
        u64 n = sim_chance(1, 30) ? 20 + sim_work(80) : 1 + sim_work(7);
        bool crowd = sim_chance(1, 800);
        if(crowd) {
            n = 400 + sim_work(60);
            sim_steps_limit(1500000, 3000000);
            sim_patience(5);
            sim_probe("hundreds of waiters");
        }
        if(n > 8) sim_probe("many waiters");
        for(u64 i = 0; i < n; i++) {
            u64 id = new_body();
            switch(crowd ? 0 : sim_work(6)) {
            case 0:
            case 1:
            case 2: held.push(waiter(id, Tok::fresh(), 1 + sim_work(crowd ? 1 : 3), sim_chance(1, 2))); break;
            case 3: waiter(id, Tok::fresh(), 1 + sim_work(2), sim_chance(1, 2)); break;
            case 4: held.push(own(id, 1 + sim_work(3))); break;
            default: held.push(timed(id, 1 + sim_work(2))); break;
            }
            if(!crowd && sim_chance(1, 2)) {
                i64 o = pick(true);
                if(o >= 0) set(static_cast<u64>(o));
            }
            if(sim_chance(1, 3)) dawdle();
        }
        {
            u64 nt = sim_work(3);
            Vec<T_, Mhidden> ts;
            for(u64 t = 0; t < nt; t++)
                ts.push(T_{[k = 1 + sim_work(4)]() {
                    for(u64 i = 0; i < k; i++) {
                        i64 o = pick(true);
                        if(o >= 0) set(static_cast<u64>(o));
                        dawdle();
                    }
                }});
        }
        if(sim_chance(1, 3)) {
            sim_quiesce();
            check_idle();
            sim_probe("idle with waiters");
        }
        // Everything is signalled sooner or later, one by one or together.
        bool settle = sim_chance(1, 3);
        for(;;) {
            i64 o = pick(true);
            if(o < 0) {
                sim_quiesce();
                check_idle();
                if(pick(true) < 0) break;
                continue;
            }
            set(static_cast<u64>(o));
            if(settle) {
                sim_quiesce();
                check_idle();
            }
        }
        bodies_all_done("every event was signalled and the pool is idle");
        for(auto& t : held) SIM_CHECK(t.done(), "not-done", "a finished coroutine is not done");
        held.clear();
        tokens_all_dead("every coroutine ended");
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before the pool existed, %d after it was destroyed", fds, sim_fds_open());
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
