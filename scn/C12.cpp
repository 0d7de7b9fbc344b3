// Async::wait: exactly once, not before the time, promptly after it.
#include "poolc.h"

static Pool_* pp;
static u64 worst;

static u64 duration() {
    switch(sim_work(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2 + sim_work(8);
    case 3: return 998 + sim_work(4);
    case 4: return 1000 * (1 + sim_work(5));
    case 5: return 2147480 + sim_work(8);     // around 2^31 us
    case 6: return 4294960 + sim_work(16);    // around 2^32 us
    case 7: return 0x7ffffffful - 2 + sim_work(4);
    case 8: return 0xfffffffful - 2 + sim_work(4);
    case 9: return 86400000ul * (1 + sim_work(400)) + sim_work(1000);
    case 10: return 100 + sim_work(1900);
    default: return sim_work(20);
    }
}
struct Span {
    u64 ms, t0, s0;
    explicit Span(u64 ms) : ms(ms) {
        Sim_Atomic a;
        t0 = sim_now();
        s0 = sim_stalled();
    }
    void end(const char* how) {
        Sim_Atomic a;
        u64 dt = sim_now() - t0, stalled = sim_stalled() - s0, want = ms * 1000000;
        SIM_CHECK(dt >= want, "early", "%s of %llu ms was over after %llu ns", how, (ull)ms, (ull)dt);
        // Other work on this machine is a few ms at the most.
        SIM_CHECK(dt - want <= 30000000 + stalled, "late", "%s of %llu ms was over only after %llu ns (%llu of them injected)", how, (ull)ms, (ull)dt, (ull)stalled);
        if(dt - want > worst) worst = dt - want;
    }
};
static Async::Task<void> waiter(u64 id, Tok arg, u64 n, bool hop) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    if(hop) co_await pool.suspend();
    u32 resumes = 0;
    for(u64 i = 0; i < n; i++) {
        u64 ms = duration();
        Span s{ms};
        co_await Async::wait(pool, ms);
        s.end("co_await wait");
        SIM_CHECK(++resumes == i + 1, "resumed-twice", "a wait was over twice");
        arg.check("use");
    }
    body_end(id);
}
static Async::Task<void> both(u64 id, u64 ms1, u64 ms2) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    Span s1{ms1};
    auto a = Async::wait(pool, ms1);
    Span s2{ms2};
    auto b = Async::wait(pool, ms2);
    if(ms1 > ms2) {
        co_await b;
        s2.end("first of two waits");
        co_await a;
        s1.end("second of two waits");
    } else {
        co_await a;
        s1.end("first of two waits");
        co_await b;
        // Both started together; the second one may have been over before.
        if(ms1 != ms2) s2.end("second of two waits");
    }
    body_end(id);
}
// A wait that no run can see the end of: it lasts, and the pool goes away before it is over.
static void never_over() {
    {
        Pool_ p;
        pp = &p;
        static const u64 longest[] = {18446744073709ul, 18446744073710ul, 9223372036854ul + 1, 18446744073709551ul, 9223372036854775807ul, 18446744073709551615ul, 1ul << 44, 1ul << 62};
        u64 n = 1 + sim_work(3);
        bool* over = static_cast<bool*>(Mhidden::alloc(n));
        {
            Vec<Async::Task<void>, Mhidden> ts;
            for(u64 i = 0; i < n; i++) {
                u64 ms = longest[sim_work(8)] + (sim_chance(1, 2) ? 0 : sim_work(1000));
                if(sim_chance(2, 3)) { // small again in fewer bits, in some unit
                    u64 k = 1 + sim_work(7);
                    switch(sim_work(4)) {
                    case 0: ms = k << (41 + sim_work(20)); break;
                    case 1: ms = (k << (32 + sim_work(18))) * 1000; break;
                    case 2: ms = (1ull << 63) / (k > 3 ? 500 : 1000); break;
                    default: ms = ((1ull << (52 + sim_work(12))) / 1000) * k; break;
                    }
                    ms += sim_work(3000);
                }
                if(ms < 1000000) ms = ~0ul - ms; // it wrapped
                over[i] = false;
                sim_log("wait %llu ms", (ull)ms);
                auto t = [](u64 ms, bool* over) noexcept -> Async::Task<void> {
                    co_await Async::wait(*pp->pool, ms);
                    *over = true;
                }(ms, &over[i]);
                ts.push(rpp::move(t));
            }
            sim_sleep(1000000 * (1 + sim_work(100000)));
            for(u64 i = 0; i < n; i++) SIM_CHECK(!over[i] && !ts[i].done(), "early", "a wait of more than a century is over");
        }
        sim_probe("waits of more than a century");
        Mhidden::free(over);
    }
    sim_pass(); // their frames stay behind
}
static void client(u64 n) {
    auto& pool = *pp->pool;
    for(u64 i = 0; i < n; i++) {
        u64 id;
        switch(sim_work(6)) {
        case 0: {
            u64 ms = duration();
            Span s{ms};
            Async::wait(pool, ms).block();
            s.end("block on wait");
        } break;
        case 1: {
            id = new_body();
            waiter(id, Tok::fresh(), 1 + sim_work(3), sim_chance(1, 2)).block();
            body_consumed(id, "block");
        } break;
        case 2: {
            id = new_body();
            both(id, duration(), duration()).block();
            body_consumed(id, "block");
        } break;
        case 3: waiter(id = new_body(), Tok::fresh(), 1 + sim_work(2), sim_chance(1, 2)); break; // on its own
        case 4: { // dropped wait: nobody cares, nobody is hurt
            Async::wait(pool, sim_work(5));
        } break;
        default: {
            Async::Task<void> ts[4];
            u64 ids[4];
            for(u64 k = 0; k < 4; k++) ts[k] = waiter(ids[k] = new_body(), Tok::fresh(), 1, sim_chance(1, 2));
            for(u64 k = 0; k < 4; k++) {
                ts[k].block();
                body_consumed(ids[k], "block");
            }
            sim_probe("several waits at once");
        } break;
        }
        if(sim_chance(1, 4)) {
            sim_wall_jump(static_cast<i64>(sim_work(7200)) * 1000000000 - 3600000000000ll);
            sim_probe("wall clock stepped");
        }
    }
}
void scenario() {
    static const int cpus[] = {2, 3, 1, 5};
    sim_set_cpus(cpus[sim_work(4)]);
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 3) ? 8000 : 0);
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_SPURIOUS, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_LATE_TIMER, sim_chance(1, 4) ? 8000 : 0);
    sim_fault(F_STALL, sim_chance(1, 4) ? 200 : 0);
    sim_fault(F_WALL_JUMP, sim_chance(1, 4) ? 300 : 0);
    warm_up();
    if(sim_chance(1, 24)) never_over();
    i64 net = sys_net_allocs();
    int fds = sim_fds_open();
    {
        Pool_ p;
        pp = &p;
        bool two = sim_chance(1, 3);
        {
            Vec<T_, Mhidden> ts;
            if(two) ts.push(T_{[]() { client(1 + sim_work(2)); }});
            client(1 + sim_work(3));
        }
        sim_quiesce();
        bodies_all_done("all time has passed");
        tokens_all_dead("every coroutine ended");
    }
    if(worst > 1000000) sim_probe("more than 1 ms late");
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
