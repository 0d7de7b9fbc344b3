// Futures and promises: one complete result, delivered once, whoever waits, polls or lets go.
#include "common.h"
#include <rpp/alloc1.h>

static u64 effect;
static u32 finished, call_token, arg_token;
static u32 kind;

static Big produce(u64 v, u64 spin) {
    for(u64 i = 0; i < spin; i++) sim_yield();
    Big b = Big::of(v);
    effect = v;
    Sim_Atomic a;
    finished++;
    return b;
}
static void after(u64 v, const char* how) {
    {
        Sim_Atomic a;
        SIM_CHECK(finished == 1, "future-early", "%s reported a result %s", how, finished ? "of a call that ran twice" : "before the call had finished");
    }
    u64 e = effect;
    SIM_CHECK(e == v, "future-visibility", "side effect not visible after %s", how);
}
template<typename F>
static void poll(F& f, u64 v) {
    for(u64 n = sim_work(5); n > 0; n--) {
        bool done;
        {
            Sim_Atomic a;
            done = finished == 2;
        }
        if(f->ready()) {
            after(v, "ready");
            sim_probe("ready seen");
        } else
            SIM_CHECK(!done, "future-not-ready", "ready() false although the result was delivered before");
        dawdle();
    }
}

template<typename A>
static void spawned_value(u64 v) {
    u64 spin = sim_work(5);
    Tok call = Tok::fresh(), arg = Tok::fresh();
    u64 drop = sim_work(5);
    auto f = Thread::spawn<A>([call = rpp::move(call), spin](Tok a, u64 x) {
        call.check("call");
        a.check("use argument");
        SIM_CHECK(call.ok() && a.ok(), "argument-lost", "the call did not get its callable and argument");
        return produce(x, spin);
    }, rpp::move(arg), u64{v});
    dawdle();
    if(drop == 0) { // let go early
        f.clear();
        sim_probe("future dropped early");
        return;
    }
    if(drop == 1) { // somebody else holds it meanwhile
        T_ t{[g = f.dup(), v]() mutable { poll(g, v); }};
        poll(f, v);
        Big b = f->block();
        after(v, "block");
        b.expect(v, "block");
        return;
    }
    if(drop == 2) { // the waiter is another thread and the owner lets go
        T_ t{[g = rpp::move(f), v]() mutable {
            Big b = g->block();
            after(v, "block");
            b.expect(v, "block");
        }};
        return;
    }
    poll(f, v);
    Big b = f->block();
    after(v, "block");
    b.expect(v, "block");
    SIM_CHECK(f->ready(), "future-not-ready", "ready() false after block returned");
}
template<typename A>
static void spawned_void(u64 v) {
    u64 spin = sim_work(5);
    Tok call = Tok::fresh();
    auto f = Thread::spawn<A>([call = rpp::move(call), spin, v]() {
        call.check("call");
        Big b = produce(v, spin);
    });
    u64 waiters = sim_work(4);
    {
        Vec<T_, Mhidden> ts;
        for(u64 i = 0; i < waiters; i++)
            ts.push(T_{[g = f.dup(), v]() mutable {
                dawdle();
                poll(g, v);
                g->block();
                after(v, "block");
                sim_probe("many waiters");
            }});
        if(sim_chance(1, 3)) {
            f.clear();
        } else {
            poll(f, v);
            f->block();
            after(v, "block");
        }
    }
}
template<typename A>
static void spawned_word(u64 v) { // trivially copyable result, several waiters may take it
    auto f = Thread::spawn<A>([v]() -> u64 {
        Big b = produce(v, 2);
        return b.w[2];
    });
    {
        Vec<T_, Mhidden> ts;
        for(u64 i = sim_work(3); i > 0; i--)
            ts.push(T_{[g = f.dup(), v]() mutable {
                u64 r = g->block();
                SIM_CHECK(r == v * 3, "wrong-value", "block returned %llu instead of %llu", (ull)r, (ull)(v * 3));
                after(v, "block");
            }});
        u64 r = f->block();
        SIM_CHECK(r == v * 3, "wrong-value", "block returned %llu instead of %llu", (ull)r, (ull)(v * 3));
        after(v, "block");
    }
}
template<typename A>
static void promised(u64 v) {
    auto f = Thread::Future<Big, A>::make();
    {
        T_ p{[g = f.dup(), v]() mutable {
            dawdle();
            g->fill(produce(v, sim_work(3)));
            dawdle();
        }};
        T_ c{[g = f.dup(), v]() mutable {
            dawdle();
            poll(g, v);
            Big b = g->block();
            after(v, "block");
            b.expect(v, "block");
        }};
        if(sim_chance(1, 2)) f.clear();
        else poll(f, v);
    }
    if(f.ok()) {
        SIM_CHECK(f->ready(), "future-not-ready", "not ready at the end");
        SIM_CHECK(f.references() == 1, "references", "%llu references to a future held once", (ull)f.references());
    }
}
template<typename A>
static void go(u64 v) {
    if constexpr(!Allocator<A>) {
        promised<A>(v);
        return;
    } else {
        switch(kind) {
        case 0: spawned_value<A>(v); break;
        case 1: spawned_void<A>(v); break;
        case 2: spawned_word<A>(v); break;
        default: promised<A>(v); break;
        }
    }
}
void scenario() {
    sim_watch_heap("heap memory");
    sim_fault(F_SPURIOUS, 6000);
    sim_fault(F_EINTR_FUTEX, 6000);
    kind = static_cast<u32>(sim_work(4));
    sim_watch(&effect, 8, "side effect of the spawned call");
    warm_up();
    i64 net = sys_net_allocs();
    u64 which = sim_work(3);
    u64 rounds = 1 + sim_work(2);
    for(u64 r = 0; r < rounds; r++) {
        finished = 0;
        u64 v = 11 + r;
        if(which == 0) go<Thread::Alloc>(v);
        if(which == 1) go<Mhidden>(v);
        if(which == 2) go<Mpool>(v);
        sim_quiesce();
        SIM_CHECK(finished == 1, "never-ran", "the call ran %u times", finished);
        tokens_all_dead("producer and all holders are gone");
        SIM_CHECK(sim_threads_unjoined() == 0, "thread-leaked", "a thread was neither joined nor detached");
        if(which != 2) SIM_CHECK(sys_net_allocs() == net, "state-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
    }
}
