// Destroying a pool at any moment: it returns, joins, closes, destroys what was queued, resumes nothing after.
#define SCENARIO_POLLS
#include "poolc.h"

enum State : u32 { NONE, RUNNING, QUEUED, WAITING /* for another coroutine */, EVENT, ENDED };
constexpr u64 N = 96;
struct Co {
    State state;
    u32 destroyed;
    u64 parent; // index + 1 of the coroutine holding its task, 0 if nobody does
    bool adopted; // its task is held by a coroutine that may leak
    u64 epoch, resumes;
};
static Co cos[N];
static u64 n_co;
static Pool_* pp;
static bool destroying, gone, leaf_only;
static void* signals[16];
static u64 n_signals;

static u64 fresh(u64 parent) {
    Sim_Atomic a;
    if(n_co >= N) sim_violation("internal:coroutines", "scenario ran out of coroutines");
    u64 i = n_co++;
    cos[i].state = RUNNING;
    cos[i].parent = parent;
    return i;
}
static void set(u64 id, State s) {
    Sim_Atomic a;
    cos[id].state = s;
    if(s != RUNNING) cos[id].epoch++;
}
static void resumed(u64 id, bool on_pool = true) {
    Sim_Atomic a;
    SIM_CHECK(!gone, "resumed-after", "a coroutine was resumed after its pool was destroyed");
    SIM_CHECK(!cos[id].destroyed, "resumed-after", "a destroyed coroutine was resumed");
    SIM_CHECK(++cos[id].resumes == cos[id].epoch, "resumed-twice", "a coroutine was resumed twice");
    if(on_pool) SIM_CHECK(pp->on_worker(), "wrong-thread", "a coroutine was resumed on thread T%d, which is not the pool's", sim_tid());
    cos[id].state = RUNNING;
}
struct Frame {
    u64 id;
    Tok tok = Tok::fresh();
    u64 words[4] = {1, 2, 3, 4};
    explicit Frame(u64 id) noexcept : id(id) {
    }
    ~Frame() {
        Sim_Atomic a;
        Co& c = cos[id];
        SIM_CHECK(++c.destroyed == 1, "destroyed-twice", "a coroutine frame was destroyed twice");
        SIM_CHECK(c.state == ENDED || ((c.state == QUEUED || c.state == EVENT) && destroying), "destroyed-early", "a coroutine frame was destroyed while the coroutine was %s", c.state == RUNNING ? "running" : c.state == QUEUED ? "queued on a living pool" : "waiting");
        if(c.state == QUEUED) sim_probe("queued coroutine destroyed");
        // Its task may still be held by a coroutine that is going to be destroyed after it.
        if(c.state == QUEUED && c.parent && cos[c.parent - 1].state == QUEUED && !cos[c.parent - 1].destroyed) sim_tag("queued-parent-of-queued");
    }
    void check() {
        tok.check("use");
        for(u64 i = 0; i < 4; i++) SIM_CHECK(words[i] == i + 1, "corrupt-frame", "a coroutine frame was overwritten");
    }
};
static Async::Task<i64> hopper(u64 id, u64 hops, Tok arg) noexcept {
    auto& pool = *pp->pool;
    Frame f{id};
    for(u64 i = 0; i < hops; i++) {
        set(id, QUEUED);
        co_await pool.suspend();
        resumed(id);
        f.check();
        arg.check("use");
        if(sim_chance(1, 4)) dawdle();
        if(sim_chance(1, 10)) Thread::sleep(1 + sim_work(3));
    }
    set(id, ENDED);
    co_return 7;
}
static Async::Task<void> waiter(u64 id, u64 kind, Tok arg) noexcept {
    auto& pool = *pp->pool;
    Frame f{id};
    set(id, QUEUED);
    co_await pool.suspend();
    resumed(id);
    if(kind == 0) {
        set(id, WAITING);
        co_await Async::wait(pool, 1 + sim_work(4));
        resumed(id);
    } else {
        int fd;
        void* h = sim_user_event_open(&fd);
        {
            Sim_Atomic a;
            if(n_signals < 16) signals[n_signals++] = h;
        }
        set(id, EVENT);
        const int here = sim_tid();
        co_await pool.event(Async::Event::of_sys(fd, 1));
        resumed(id, sim_tid() != here);
    }
    f.check();
    arg.check("use");
    set(id, QUEUED);
    co_await pool.suspend();
    resumed(id);
    set(id, ENDED);
}
static Async::Task<u64> tree(u64 id, u64 depth, Tok arg) noexcept {
    auto& pool = *pp->pool;
    Frame f{id};
    if(depth) {
        set(id, QUEUED);
        co_await pool.suspend();
        resumed(id);
        auto a = tree(fresh(id + 1), depth - 1, Tok::fresh());
        auto b = tree(fresh(id + 1), depth - 1, Tok::fresh());
        set(id, WAITING);
        u64 x = co_await a;
        u64 y = co_await b;
        {
            Sim_Atomic at;
            SIM_CHECK(!gone, "resumed-after", "a coroutine was resumed after its pool was destroyed");
        }
        f.check();
        arg.check("use");
        set(id, ENDED);
        co_return x + y;
    }
    set(id, ENDED);
    co_return 1;
}
// Holds the task of a queued coroutine while queued itself.
static Async::Task<void> holder(u64 id, Tok arg) noexcept {
    auto& pool = *pp->pool;
    Frame f{id};
    set(id, QUEUED);
    co_await pool.suspend();
    resumed(id);
    {
        auto child = hopper(fresh(id + 1), 2, Tok::fresh());
        set(id, QUEUED);
        co_await pool.suspend();
        resumed(id);
        f.check();
        set(id, WAITING);
        i64 x = co_await child;
        {
            Sim_Atomic at;
            SIM_CHECK(x == 7, "wrong-value", "a job returned %lld", (long long)x);
            SIM_CHECK(!gone, "resumed-after", "a coroutine was resumed after its pool was destroyed");
        }
    }
    set(id, ENDED);
}
// Never ends: only the destruction of the pool stops it.
static Async::Task<void> eternal(u64 id, Tok arg) noexcept {
    auto& pool = *pp->pool;
    Frame f{id};
    for(;;) {
        set(id, QUEUED);
        co_await pool.suspend();
        resumed(id);
        f.check();
        arg.check("use");
        Thread::sleep(1 + sim_work(8));
    }
}
static void life(u64 round) {
    (void)round;
    int fds = sim_fds_open();
    u64 from = n_co;
    Pool_ p;
    pp = &p;
    gone = destroying = false;
    bool holders = sim_chance(1, 12);
    u64 n = sim_work(7);
    for(u64 i = 0; i < n; i++) {
        switch(sim_work(6)) {
        case 0: hopper(fresh(0), 1 + sim_work(4), Tok::fresh()); break;
        case 1: waiter(fresh(0), 0, Tok::fresh()); break;
        case 2: waiter(fresh(0), 1, Tok::fresh()); break;
        case 3: tree(fresh(0), 1 + sim_work(2), Tok::fresh()); break;
        case 4: {
            auto t = hopper(fresh(0), 1 + sim_work(3), Tok::fresh());
            i64 v = t.block();
            SIM_CHECK(v == 7, "wrong-value", "a job returned %lld", (long long)v);
        } break;
        default:
            if(holders) holder(fresh(0), Tok::fresh());
            else hopper(fresh(0), 3, Tok::fresh());
            break;
        }
        if(sim_chance(1, 3)) dawdle();
    }
    u64 forever = sim_chance(1, 6) ? 1 + sim_work(3) : 0;
    for(u64 i = 0; i < forever; i++) eternal(fresh(0), Tok::fresh());
    if(forever) sim_probe("destroyed with endless jobs");
    if(sim_chance(1, 2)) sim_sleep(1000 + 1000 * sim_work(4000));
    // Events keep being signalled while the pool dies.
    T_ signaller{[n = sim_work(5)]() {
        for(u64 i = 0; i < n; i++) {
            void* h = null;
            {
                Sim_Atomic a;
                if(n_signals) h = signals[sim_work(n_signals)];
            }
            if(h) sim_user_event_set(h);
            dawdle();
        }
    }};
    if(sim_chance(1, 2)) dawdle();
    {
        Sim_Atomic a;
        destroying = true;
        for(u64 i = from; i < n_co; i++) {
            if(cos[i].state == QUEUED) sim_probe("destroyed with coroutines queued");
            if(cos[i].state == WAITING || cos[i].state == EVENT) sim_probe("destroyed with coroutines waiting");
            if(cos[i].state == RUNNING) sim_probe("destroyed with coroutines running");
        }
    }
    int f = p.first, l = p.last;
    p.kill();
    {
        Sim_Atomic a;
        gone = true;
        for(int t = f; t <= l; t++) SIM_CHECK(!sim_thread_alive(t), "thread-left", "pool thread T%d still runs after the pool was destroyed", t);
    }
    signaller.join();
    {
        Sim_Atomic a;
        SIM_CHECK(sim_threads_unjoined() == 0, "thread-left", "%d threads were not joined", sim_threads_unjoined());
        SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before the pool existed, %d after it was destroyed", fds, sim_fds_open());
        bool leak = false;
        for(u64 i = from; i < n_co; i++) {
            Co& c = cos[i];
            SIM_CHECK(c.state != RUNNING, "never-suspended", "the pool was destroyed while a coroutine was running");
            bool held = false; // its task belongs to a coroutine that was leaked
            for(u64 q = c.parent; q; q = cos[q - 1].parent)
                if(!cos[q - 1].destroyed && (cos[q - 1].state == WAITING || cos[q - 1].state == EVENT)) held = true;
            if(c.state == QUEUED) SIM_CHECK(c.destroyed == 1, "never-destroyed", "a queued coroutine was not destroyed with its pool");
            if(c.state == ENDED && !held) SIM_CHECK(c.destroyed == 1, "never-destroyed", "a finished coroutine was never destroyed");
            if(!c.destroyed) leak = true;
        }
        if(!leak) sim_probe("nothing leaked");
        for(u64 i = 0; i < from; i++)
            if(!cos[i].destroyed) leak = true;
        SIM_CHECK(leak || Tok_Table::live == 0, "never-destroyed", "objects in destroyed coroutines still exist");
    }
    // Nothing happens to those coroutines any more.
    if(sim_chance(1, 2)) {
        for(u64 i = 0; i < n_signals; i++) sim_user_event_set(signals[i]);
        sim_sleep(20000000);
    }
    n_signals = 0;
}
void scenario() {
    static const int cpus[] = {2, 3, 4, 1, 6};
    sim_set_cpus(cpus[sim_work(5)]);
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_SPURIOUS, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_LATE_TIMER, sim_chance(1, 4) ? 6000 : 0);
    warm_up();
    i64 net = sys_net_allocs();
    u64 rounds = 1 + sim_work(2);
    for(u64 r = 0; r < rounds; r++) life(r);
    bool leak = false;
    for(u64 i = 0; i < n_co; i++)
        if(!cos[i].destroyed) leak = true;
    if(!leak) SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
