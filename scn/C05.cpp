// Threads: the callable runs once, elsewhere, and is destroyed and freed once; join waits.
#include "common.h"

constexpr u64 N = 12;
static u32 started[N], ran[N], finished[N];
static u64 payload[N];
static u32 tok_of[N];
static u32 gates[N];
static rpp::Thread::Id ids[N]; // what the started thread calls itself

// Every instance that is constructed, by a move or otherwise, is destroyed.
static i64 instances;
struct Counted {
    const Counted* self;
    Counted() noexcept : self(this) { one(1); }
    Counted(Counted&& o) noexcept : self(this) {
        SIM_CHECK(o.self == &o, "dead-object", "moved from an object that is not there");
        one(1);
    }
    Counted& operator=(Counted&&) noexcept { return *this; }
    ~Counted() noexcept {
        SIM_CHECK(self == this, "dead-object", "destroyed an object that is not there");
        self = null;
        one(-1);
    }
    static void one(i64 d) noexcept {
        Sim_Atomic a;
        instances += d;
    }
};
struct Job {
    u64 k;
    Tok tok;
    Counted counted{};
    u64 spin;
    bool gated;
    void operator()() {
        {
            Sim_Atomic a;
            tok.check("run");
            SIM_CHECK(tok.ok(), "callable-lost", "the callable that runs is not the one given");
            SIM_CHECK(++started[k] == 1, "ran-twice", "callable %llu ran twice", (ull)k);
            SIM_CHECK(sim_tid() != 0, "ran-inline", "the callable ran on the constructing thread");
        }
        ids[k] = Thread::this_id();
        if(gated) sim_gate_wait(&gates[k]);
        for(u64 i = 0; i < spin; i++) sim_yield();
        payload[k] = 1000 + k;
        Sim_Atomic a;
        finished[k] = 1;
    }
};
static Job job(u64 k, bool gated) {
    Job j{k, Tok::fresh(), {}, sim_work(4), gated};
    tok_of[k] = j.tok.id;
    return j;
}
// What the holder of a thread says its identifier is.
template<typename TT>
static void identify(TT& t, u64 k) {
    rpp::Thread::Id id = t.id();
    SIM_CHECK(id == t.id(), "wrong-id", "the identifier of thread %llu changes", (ull)k);
    SIM_CHECK(id != rpp::Thread::this_id(), "wrong-id", "thread %llu has the identifier of the thread holding it", (ull)k);
    Sim_Atomic a;
    if(!started[k]) return;
    if(!finished[k]) return;
    SIM_CHECK(id == ids[k], "wrong-id", "thread %llu has another identifier for its holder than for itself", (ull)k);
    sim_probe("identified");
}
static void joined(u64 k, const char* how) {
    Sim_Atomic a;
    SIM_CHECK(finished[k], "join-early", "%s returned before callable %llu finished", how, (ull)k);
    SIM_CHECK(!Tok::is_alive(tok_of[k]), "callable-not-destroyed", "callable %llu still exists after %s", (ull)k, how);
    u64 v = payload[k];
    sim_touch(&payload[k], 8, 0);
    SIM_CHECK(v == 1000 + k, "join-visibility", "write of thread %llu not visible after %s", (ull)k, how);
}
template<typename A>
static void use(u64& k, Thread::Mutex* shared) {
    using TT = Thread::Thread<A>;
    (void)shared;
    switch(sim_work(8)) {
    case 0: {
        u64 i = k++;
        TT t{job(i, false)};
        dawdle();
        identify(t, i);
        t.join();
        joined(i, "join");
    } break;
    case 1: {
        u64 i = k++;
        {
            TT t{job(i, false)};
            dawdle();
        }
        joined(i, "the destructor");
    } break;
    case 2: { // assignment over a running thread
        u64 i = k++, j = k++;
        {
            TT t{job(i, false)};
            TT u{job(j, false)};
            dawdle();
            t = rpp::move(u);
            joined(i, "move assignment");
            sim_probe("assigned over a running thread");
        }
        joined(j, "the destructor after a move");
    } break;
    case 3: { // detach never waits
        u64 i = k++;
        TT t{job(i, true)};
        dawdle();
        t.detach();
        SIM_CHECK(!finished[i], "internal:gate", "gate did not hold");
        sim_gate_open(&gates[i]);
        sim_probe("detached");
    } break;
    case 4: { // detach after the thread is gone, or about to be
        u64 i = k++;
        TT t{job(i, false)};
        for(u64 s = sim_work(30); s > 0; s--) sim_yield();
        identify(t, i);
        t.detach();
    } break;
    case 5: { // moves
        u64 i = k++;
        {
            TT t{job(i, false)};
            TT u{rpp::move(t)};
            TT v;
            v = rpp::move(u);
            identify(v, i);
            if(sim_chance(1, 2)) {
                v.join();
                joined(i, "join after moves");
            } else {
                t = rpp::move(v); // back into the first one
            }
        }
        joined(i, "the destructor of the last holder");
        sim_probe("moved around");
    } break;
    case 7: { // nothing is assigned over a running thread
        u64 i = k++;
        TT t{job(i, false)};
        dawdle();
        if(sim_chance(1, 2)) t = TT{};
        else {
            TT none;
            t = rpp::move(none);
        }
        joined(i, "assignment of an empty thread");
        sim_probe("an empty thread assigned over a running one");
    } break;
    case 6: { // handed to another thread, which joins it
        u64 i = k++, j = k++;
        {
            TT t{job(i, false)};
            tok_of[j] = 0;
            TT w{[t = rpp::move(t), i]() mutable {
                dawdle();
                t.join();
                joined(i, "join on another thread");
            }};
        }
        joined(i, "join of the joining thread");
        sim_probe("joined elsewhere");
    } break;
    }
}
void scenario() {
    sim_watch_heap("heap memory");
    sim_watch(payload, sizeof payload, "data written by the started thread");
    warm_up();
    i64 net = sys_net_allocs();
    u64 k = 0;
    u64 n = 1 + sim_work(3);
    for(u64 i = 0; i < n; i++) {
        if(sim_chance(1, 2)) use<Mhidden>(k, null);
        else use<Thread::Alloc>(k, null);
    }
    sim_quiesce();
    Sim_Atomic a;
    for(u64 i = 0; i < k; i++) {
        if(!tok_of[i]) continue;
        SIM_CHECK(started[i] == 1 && finished[i], "never-ran", "callable %llu ran %u times", (ull)i, started[i]);
    }
    tokens_all_dead("all threads ended");
    SIM_CHECK(instances == 0, "never-destroyed", "%lld instances of a callable's members were not destroyed", (long long)instances);
    SIM_CHECK(sim_threads_unjoined() == 0, "thread-leaked", "%d threads were neither joined nor detached", sim_threads_unjoined());
    SIM_CHECK(sys_net_allocs() == net, "closure-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
