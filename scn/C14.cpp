// Thread::sleep lasts at least as long as asked; perf_counter is elapsed monotonic time.
#include "common.h"

static u64 last_any; // the latest reading any thread completed
static u64 progress[8];
static u64 sleeping, advanced;

static u64 duration() {
    switch(sim_work(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2 + sim_work(10);
    case 3: return 998 + sim_work(5);
    case 4: return 2147482 + sim_work(4);      // 2^31 us
    case 5: return 4294966 + sim_work(4);      // 2^32 us
    case 6: return 4294967 + sim_work(100000); // a little longer
    case 7: return 0x7ffffffful - 1 + sim_work(4);
    case 8: return 0xfffffffful - 1 + sim_work(4);
    case 9: return 86400000ul * (1 + sim_work(1000)) + sim_work(1000);
    case 10: return 1000 * sim_work(100) + sim_work(3);
    default: return sim_work(50);
    }
}
static u64 to_ns(u64 ticks) {
    u64 f = Thread::perf_frequency();
    return static_cast<u64>(static_cast<unsigned __int128>(ticks) * 1000000000ull / f);
}
struct Reading {
    u64 lo, hi, ticks;
    Reading() {
        u64 seen;
        {
            Sim_Atomic a;
            lo = sim_now();
            seen = last_any;
        }
        ticks = Thread::perf_counter();
        Sim_Atomic a;
        hi = sim_now();
        SIM_CHECK(ticks >= seen, "went-back", "perf_counter is %llu, an earlier reading was %llu", (ull)ticks, (ull)seen);
        if(ticks > last_any) last_any = ticks;
    }
    // The difference of two readings is the time that passed between them.
    void since(const Reading& o) const {
        u64 d = to_ns(ticks - o.ticks);
        u64 least = lo > o.hi ? lo - o.hi : 0, most = hi - o.lo;
        SIM_CHECK(d + 1 >= least && d <= most + 1, "wrong-elapsed", "perf_counter says %llu ns passed, it was between %llu and %llu", (ull)d, (ull)least, (ull)most);
    }
};
static void sleeper(u64 me, u64 n) {
    Reading start;
    for(u64 i = 0; i < n; i++) {
        u64 ms = duration();
        Reading r0;
        u64 t0, s0;
        {
            Sim_Atomic a;
            t0 = sim_now();
            s0 = sim_stalled() + advanced;
        }
        sleeping++;
        Thread::sleep(ms);
        sleeping--;
        {
        Sim_Atomic at;
        u64 dt = sim_now() - t0, st = sim_stalled() + advanced - s0;
        SIM_CHECK(dt >= ms * 1000000, "early", "sleep(%llu) returned after %llu ns", (ull)ms, (ull)dt);
        SIM_CHECK(dt <= ms * 1000000 + st + 30000000, "late", "sleep(%llu) returned only after %llu ns (%llu of them injected)", (ull)ms, (ull)dt, (ull)st);
        }
        Reading r1;
        r1.since(r0);
        r1.since(start);
        progress[me]++;
        if(sim_chance(1, 4)) sim_wall_jump(static_cast<i64>(sim_work(20000)) * 1000000000 - 10000000000000ll);
        if(sim_chance(1, 4)) dawdle();
    }
}
static void reader(u64 n) {
    Reading start;
    for(u64 i = 0; i < n; i++) {
        Reading r0;
        if(sim_chance(1, 3)) {
            u64 busy = sim_work(5000000000ull);
            Sim_Atomic a;
            advanced += busy;
            sim_advance(busy);
        }
        else if(sim_chance(1, 2)) dawdle();
        if(sim_chance(1, 3)) {
            sim_wall_jump(static_cast<i64>(sim_work(20000)) * 1000000000 - 10000000000000ll);
            sim_probe("wall clock stepped between readings");
        }
        Reading r1;
        r1.since(r0);
        r1.since(start);
    }
}
// Other threads run while one sleeps.
static void company() {
    u64 other = 0;
    bool stop = false;
    Thread::Mutex m;
    T_ t{[&]() {
        for(;;) {
            {
                Thread::Lock l(m);
                if(stop) return;
                other++;
            }
            sim_sleep(100000);
        }
    }};
    u64 before, after, stalled;
    {
        Sim_Atomic a;
        before = other;
        stalled = sim_stalled();
    }
    Thread::sleep(20);
    {
        Sim_Atomic a;
        after = other;
        stalled = sim_stalled() - stalled;
    }
    SIM_CHECK(after > before || stalled, "held-up", "another thread made no progress while this one slept");
    {
        Thread::Lock l(m);
        stop = true;
    }
    sim_probe("company");
}
void scenario() {
    sim_fault(F_EINTR_SLEEP, sim_chance(1, 2) ? 12000 : 0);
    sim_fault(F_STALL, sim_chance(1, 4) ? 300 : 0);
    sim_fault(F_WALL_JUMP, sim_chance(1, 3) ? 1000 : 0);
    sim_fault(F_LATE_TIMER, sim_chance(1, 4) ? 8000 : 0);
    if(sim_chance(1, 5)) sim_advance(sim_work(1ull << (40 + sim_work(21)))); // a machine that has been up for up to centuries
    if(sim_chance(1, 6)) company();
    Vec<T_, Mhidden> ts;
    u64 n = sim_work(4);
    for(u64 i = 0; i < n; i++) {
        bool s = sim_chance(2, 3);
        u64 k = 1 + sim_work(4);
        ts.push(T_{[i, s, k]() {
            if(s) sleeper(i, k);
            else reader(k);
        }});
    }
    if(sim_chance(1, 2)) sleeper(6, 1 + sim_work(3));
    else reader(1 + sim_work(4));
}
