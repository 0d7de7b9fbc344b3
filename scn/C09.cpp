// Pool: every scheduled coroutine is resumed exactly once, on a worker, whatever the machine size.
#define SCENARIO_POLLS
#include "poolc.h"

static Pool_* pp;

// One suspension on the pool, counted.
struct Stop {
    u32 suspended, resumed;
};
constexpr u64 STOPS = 1024;
static Stop stops[STOPS];
static u64 n_stops;

static u64 stop_begin() {
    Sim_Atomic a;
    if(n_stops >= STOPS) sim_violation("internal:stops", "scenario ran out of stops");
    stops[n_stops].suspended = 1;
    return n_stops++;
}
static void stop_end(u64 s) {
    Sim_Atomic a;
    SIM_CHECK(++stops[s].resumed == 1, "resumed-twice", "a scheduled coroutine was resumed twice");
    SIM_CHECK(pp->on_worker(), "wrong-thread", "a scheduled coroutine was resumed on thread T%d, which is not the pool's", sim_tid());
    // The workers do not get into each other's way.
    int core = sim_pinned(sim_tid());
    SIM_CHECK(core >= 0, "unbound", "worker T%d is not bound to a hardware thread", sim_tid());
    for(int t = pp->first; t <= pp->last; t++)
        if(t != sim_tid() && sim_pinned(t) == core) sim_violation("unbound", "workers T%d and T%d are both bound to hardware thread %d of %d", sim_tid(), t, core, sim_cpus());
}
template<typename A>
static Async::Task<i64, A> job(u64 id, Tok arg, u64 hops) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    Tok local = Tok::fresh();
    for(u64 i = 0; i < hops; i++) {
        u64 s = stop_begin();
        co_await pool.suspend();
        stop_end(s);
        local.check("use");
        arg.check("use");
        if(sim_chance(1, 5)) dawdle();
        if(sim_chance(1, 12)) Thread::sleep(1);
    }
    body_end(id);
    co_return static_cast<i64>(id) - 1000;
}
template<typename A>
static Async::Task<i64, A> start(u64& id) noexcept {
    id = new_body();
    return job<A>(id, Tok::fresh(), sim_work(4));
}
static void got(i64 v, u64 id, const char* how) {
    SIM_CHECK(v == static_cast<i64>(id) - 1000, "wrong-value", "%s: got %lld for coroutine %llu", how, (long long)v, (ull)id);
    body_consumed(id, how);
}
template<typename A>
static Async::Task<u64, A> tree(u64 depth, Tok arg) noexcept {
    auto& pool = *pp->pool;
    if(depth == 0) co_return 1;
    u64 s = stop_begin();
    co_await pool.suspend();
    stop_end(s);
    auto a = tree<A>(depth - 1, Tok::fresh());
    auto b = tree<A>(depth - 1, Tok::fresh());
    arg.check("use");
    co_return co_await a + co_await b;
}
template<typename A>
static Async::Task<void, A> mixed(u64 id, Tok arg) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    u64 n = 1 + sim_work(3);
    for(u64 i = 0; i < n; i++) {
        u64 c;
        switch(sim_work(4)) {
        case 0: {
            auto t = start<A>(c);
            i64 v = co_await t;
            got(v, c, "co_await");
        } break;
        case 1: {
            u64 c2;
            auto t = start<A>(c);
            auto t2 = start<A>(c2);
            u64 s = stop_begin();
            co_await pool.suspend();
            stop_end(s);
            i64 v2 = co_await t2;
            got(v2, c2, "co_await");
            i64 v = co_await t;
            got(v, c, "co_await");
        } break;
        case 2: {
            auto t = start<A>(c); // dropped
            arg.check("use");
        } break;
        default: {
            u64 v = co_await tree<A>(1 + sim_work(2), Tok::fresh());
            SIM_CHECK(v == 2 || v == 4, "wrong-value", "tree of jobs returned %llu", (ull)v);
        } break;
        }
    }
    body_end(id);
}
template<typename A>
static void client(u64 n) {
    for(u64 i = 0; i < n; i++) {
        u64 id;
        switch(sim_work(7)) {
        case 0: {
            auto t = start<A>(id);
            got(t.block(), id, "block");
        } break;
        case 1: {
            u64 id2;
            auto t = start<A>(id);
            auto t2 = start<A>(id2);
            dawdle();
            got(t2.block(), id2, "block");
            got(t.block(), id, "block");
        } break;
        case 2: {
            u64 d = 1 + sim_work(3);
            u64 v = tree<A>(d, Tok::fresh()).block();
            SIM_CHECK(v == 1ull << d, "wrong-value", "tree of jobs returned %llu, not %llu", (ull)v, 1ull << d);
            sim_probe("tree");
        } break;
        case 3: {
            u64 b = new_body();
            mixed<A>(b, Tok::fresh()).block();
            body_consumed(b, "block");
            sim_probe("mixed");
        } break;
        case 4: { // dropped, finishes by itself
            auto t = start<A>(id);
            if(!t.done()) sim_probe("dropped unfinished");
        } break;
        case 5: { // everything settles without any further input
            u64 b = new_body();
            auto t = mixed<A>(b, Tok::fresh());
            auto t2 = start<A>(id);
            if(sim_chance(1, 2)) {
                while(!t.done() || !t2.done()) sim_sleep(50000);
                t.block();
                body_consumed(b, "block");
                got(t2.block(), id, "block");
                sim_probe("polled");
            }
        } break;
        default: { // a burst
            Async::Task<i64, A> ts[5];
            u64 ids[5];
            for(u64 j = 0; j < 5; j++) ts[j] = start<A>(ids[j]);
            for(u64 j = 0; j < 5; j++) got(ts[j].block(), ids[j], "block");
            sim_probe("burst");
        } break;
        }
    }
}
// Many jobs queued at a time: the queues grow, wrap and drain.
static Async::Task<u64> small(u64 k, Tok arg, u64 hops) noexcept {
    auto& pool = *pp->pool;
    for(u64 i = 0; i < hops; i++) {
        u64 s = stop_begin();
        co_await pool.suspend();
        stop_end(s);
    }
    arg.check("use");
    co_return k * 3 + 1;
}
static void flood() {
    u64 n = 40 + sim_work(220);
    Vec<Async::Task<u64>, Mhidden> ts;
    for(u64 k = 0; k < n; k++) ts.push(small(k, Tok::fresh(), 1 + (k % 7 == 3)));
    bool back = sim_chance(1, 2);
    for(u64 i = 0; i < n; i++) {
        u64 k = back ? n - 1 - i : i;
        u64 v = ts[k].block();
        SIM_CHECK(v == k * 3 + 1, "wrong-value", "job %llu of %llu returned %llu", (ull)k, (ull)n, (ull)v);
    }
    sim_probe("flood");
}
// A long chain of tasks, each awaiting the next, all of them suspended on the pool in turn.
static Async::Task<u64> chain(u64 depth) noexcept {
    auto& pool = *pp->pool;
    co_await pool.suspend();
    if(depth == 0) co_return 0;
    co_return 1 + co_await chain(depth - 1);
}
static void deep() {
    sim_steps_limit(100000, 1000000);
    u64 d = 200 + sim_work(6000);
    u64 v = chain(d).block();
    SIM_CHECK(v == d, "wrong-value", "a chain of %llu tasks returned %llu", (ull)d, (ull)v);
    sim_probe("deep chain");
}
template<typename A>
static void go() {
    {
        Pool_ p;
        pp = &p;
        if(sim_chance(1, 40)) flood();
        else if(sim_chance(1, 150)) deep();
        SIM_CHECK(p.pool->n_threads() >= 1, "no-workers", "a pool without workers");
        bool both = sim_chance(1, 3);
        {
            Vec<T_, Mhidden> ts;
            if(both) ts.push(T_{[]() { client<A>(1 + sim_work(2)); }});
            client<A>(1 + sim_work(3));
        }
        // No more input: what is scheduled must still finish.
        sim_quiesce();
        bodies_all_done("pool idle");
        {
            Sim_Atomic a;
            for(u64 i = 0; i < n_stops; i++) SIM_CHECK(stops[i].resumed == 1, "job-lost", "a scheduled coroutine was never resumed although the pool is idle");
        }
        tokens_all_dead("the pool is idle and every task is gone");
    }
}
void scenario() {
    static const int cpus[] = {2, 3, 4, 1, 6, 9};
    sim_set_cpus(sim_chance(1, 60) ? 40 + static_cast<int>(sim_work(90)) : cpus[sim_work(6)]);
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_SPURIOUS, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_EINTR_SLEEP, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 4) ? 6000 : 0);
    warm_up();
    i64 net = sys_net_allocs();
    if(sim_chance(2, 3)) go<Async::Alloc>();
    else go<Mhidden>();
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
