// Tasks: body once, consumer once and after it, frame destroyed once by whoever comes last.
#define SCENARIO_POLLS
#include "coro.h"

static Mail* mail;

template<typename R>
static R result(u64 id) noexcept {
    if constexpr(Same<R, Big>) return Big::of(id * 7 + 3);
    else if constexpr(Same<R, i64>) return static_cast<i64>(id) * -0x100000001ll;
}
template<typename R>
static void expect(const R& r, u64 id, const char* how) noexcept {
    if constexpr(Same<R, Big>) r.expect(id * 7 + 3, how);
    else SIM_CHECK(r == static_cast<i64>(id) * -0x100000001ll, "wrong-value", "%s: got %lld for coroutine %llu", how, (long long)r, (ull)id);
}
template<typename R, typename A>
static Async::Task<R, A> leaf(u64 id, Tok arg, u64 hops) noexcept {
    body_start(id);
    Local local{id};
    for(u64 i = 0; i < hops; i++) {
        co_await Hop{*mail};
        arg.check("use");
        local.tok.check("use");
    }
    if(sim_chance(1, 4)) dawdle();
    SIM_CHECK(arg.ok(), "lost-argument", "argument of coroutine %llu lost", (ull)id);
    body_end(id);
    if constexpr(Same<R, void>) co_return;
    else {
        if constexpr(Same<R, i64>) {
            if(sim_chance(1, 2)) {
                const R constant = result<R>(id);
                co_return constant;
            }
        }
        co_return result<R>(id);
    }
}
template<typename R, typename A>
static Async::Task<R, A> spawn(u64& id) noexcept {
    id = new_body();
    return leaf<R, A>(id, Tok::fresh(), sim_work(3));
}
// The continuation given to then: an object with an identity, called once, while it exists.
template<typename R, typename O, typename A>
struct Cont {
    u64 c1, c2;
    Tok tok = Tok::fresh();
    Async::Task<O, A> operator()(R r) noexcept {
        tok.check("call");
        SIM_CHECK(tok.ok(), "lost-continuation", "the continuation called by then is not the one given");
        body_consumed(c1, "then");
        expect<R>(r, c1, "then");
        return leaf<O, A>(c2, Tok::fresh(), sim_work(3));
    }
};
template<typename O, typename A>
struct Cont<void, O, A> {
    u64 c1, c2;
    Tok tok = Tok::fresh();
    Async::Task<O, A> operator()() noexcept {
        tok.check("call");
        SIM_CHECK(tok.ok(), "lost-continuation", "the continuation called by then is not the one given");
        body_consumed(c1, "then");
        return leaf<O, A>(c2, Tok::fresh(), sim_work(3));
    }
};
template<typename R, typename A>
static Async::Task<void, A> user(u64 id, u64 depth) noexcept {
    body_start(id);
    Local local{id};
    u64 n = 1 + sim_work(2);
    for(u64 i = 0; i < n; i++) {
        u64 c;
        switch(sim_work(depth ? 9 : 7)) {
        case 0: { // await a temporary
            u64 what = c = new_body();
            if constexpr(Same<R, void>) co_await leaf<R, A>(what, Tok::fresh(), sim_work(3));
            else {
                R r = co_await leaf<R, A>(what, Tok::fresh(), sim_work(3));
                expect<R>(r, what, "co_await");
            }
            body_consumed(c, "co_await");
        } break;
        case 1: { // two at once, awaited in either order
            u64 c1, c2;
            auto t1 = spawn<R, A>(c1);
            auto t2 = spawn<R, A>(c2);
            bool swap = sim_chance(1, 2);
            auto& a1 = swap ? t2 : t1;
            auto& a2 = swap ? t1 : t2;
            u64 i1 = swap ? c2 : c1, i2 = swap ? c1 : c2;
            if constexpr(Same<R, void>) {
                co_await a1;
                body_consumed(i1, "co_await");
                co_await a2;
                body_consumed(i2, "co_await");
            } else {
                R r1 = co_await a1;
                body_consumed(i1, "co_await");
                R r2 = co_await a2;
                body_consumed(i2, "co_await");
                expect<R>(r1, i1, "co_await");
                expect<R>(r2, i2, "co_await");
            }
            sim_probe("two children");
        } break;
        case 2: { // dropped without being awaited
            auto t = spawn<R, A>(c);
            if(sim_chance(1, 2)) co_await Hop{*mail};
            if(!t.done()) sim_probe("dropped unfinished");
        } break;
        case 3: { // moved, then awaited if not done yet
            auto t = spawn<R, A>(c);
            Async::Task<R, A> u{rpp::move(t)};
            SIM_CHECK(!t.ok() && u.ok(), "move", "moving a task left the source owning");
            Async::Task<R, A> v;
            SIM_CHECK(!v.ok(), "move", "a default task owns something");
            v = rpp::move(u);
            if(v.done()) {
                Sim_Atomic a;
                SIM_CHECK(bodies[c].finished && !bodies[c].locals, "done-early", "done() before coroutine %llu returned", (ull)c);
            }
            if constexpr(Same<R, void>) co_await v;
            else {
                R r = co_await v;
                expect<R>(r, c, "co_await");
            }
            body_consumed(c, "co_await");
            SIM_CHECK(v.done(), "not-done", "an awaited task is not done");
        } break;
        case 4: { // then
            u64 c1 = new_body(), c2 = new_body();
            auto t = leaf<R, A>(c1, Tok::fresh(), sim_work(3));
            if constexpr(Same<R, void>) {
                co_await t.then(Cont<R, void, A>{c1, c2});
            } else if(sim_chance(1, 2)) {
                i64 got = co_await t.then(Cont<R, i64, A>{c1, c2});
                expect<i64>(got, c2, "then");
            } else {
                Cont<R, i64, A> named{c1, c2};
                i64 got = co_await t.then(named);
                expect<i64>(got, c2, "then");
            }
            body_consumed(c2, "co_await of then");
            sim_probe("then");
        } break;
        case 5: { // assigned over while unfinished
            auto t = spawn<R, A>(c);
            u64 d;
            t = spawn<R, A>(d);
            if constexpr(Same<R, void>) co_await t;
            else {
                R r = co_await t;
                expect<R>(r, d, "co_await");
            }
            body_consumed(d, "co_await");
        } break;
        case 6: { // polled by another thread while awaited
            auto t = spawn<R, A>(c);
            T_ poller{[&t, c]() {
                for(u64 k = 0; k < 12; k++) {
                    if(t.done()) {
                        Sim_Atomic a;
                        SIM_CHECK(bodies[c].finished && !bodies[c].locals, "done-early", "done() before coroutine %llu returned", (ull)c);
                        sim_probe("done while awaited");
                        return;
                    }
                    sim_yield();
                }
            }};
            if constexpr(Same<R, void>) co_await t;
            else {
                R r = co_await t;
                expect<R>(r, c, "co_await");
            }
            body_consumed(c, "co_await");
            SIM_CHECK(t.done(), "not-done", "an awaited task is not done");
            poller.join();
        } break;
        default: {
            u64 d = new_body();
            co_await user<R, A>(d, depth - 1);
            body_consumed(d, "co_await of a tree");
            sim_probe("tree");
        } break;
        }
    }
    body_end(id);
}
template<typename R, typename A>
static void consume_block(Async::Task<R, A>& t, u64 id, const char* how) {
    if constexpr(Same<R, void>) t.block();
    else {
        R r = t.block();
        expect<R>(r, id, how);
    }
    body_consumed(id, how);
    SIM_CHECK(t.done(), "not-done", "a task that was blocked on is not done");
}
template<typename R, typename A>
static void top() {
    u64 id;
    switch(sim_work(9)) {
    case 0: { // block
        auto t = spawn<R, A>(id);
        dawdle();
        consume_block<R, A>(t, id, "block");
    } break;
    case 1: { // poll
        auto t = spawn<R, A>(id);
        while(!t.done()) sim_yield();
        {
            Sim_Atomic a;
            SIM_CHECK(bodies[id].finished && !bodies[id].locals, "done-early", "done() before coroutine %llu returned", (ull)id);
        }
        consume_block<R, A>(t, id, "block after done");
        sim_probe("polled");
    } break;
    case 2: { // dropped at once
        auto t = spawn<R, A>(id);
        dawdle();
        if(!t.done()) sim_probe("dropped unfinished");
    } break;
    case 3: { // consumed by another thread, while this one goes on
        auto t = spawn<R, A>(id);
        T_ other{[t = rpp::move(t), id]() mutable { consume_block<R, A>(t, id, "block on another thread"); }};
        SIM_CHECK(!t.ok(), "move", "moving a task left the source owning");
        dawdle();
    } break;
    case 4: { // dropped by another thread
        auto t = spawn<R, A>(id);
        T_ other{[t = rpp::move(t)]() mutable {
            Async::Task<R, A> mine{rpp::move(t)};
            dawdle();
        }};
        dawdle();
    } break;
    case 5: { // a coroutine that awaits; blocked upon or dropped
        id = new_body();
        auto t = user<R, A>(id, 1);
        dawdle();
        if(sim_chance(2, 3)) consume_block<void, A>(t, id, "block on a tree");
        else sim_probe("tree dropped");
    } break;
    case 6: { // manual resumption
        u64 b = new_body();
        auto co = [](u64 b, u64 n, Tok arg) -> Async::Task<i64, A> {
            body_start(b);
            Local local{b};
            for(u64 i = 0; i < n; i++) co_await Async::Suspend{};
            co_await Async::Continue{};
            arg.check("use");
            body_end(b);
            co_return result<i64>(b);
        };
        u64 n = sim_work(3);
        auto t = co(b, n, Tok::fresh());
        for(u64 i = 0; i < n; i++) {
            SIM_CHECK(!t.done(), "done-early", "a suspended coroutine is done");
            t.resume();
        }
        SIM_CHECK(t.done(), "not-done", "a finished coroutine is not done");
        consume_block<i64, A>(t, b, "block after resume");
    } break;
    case 7: { // assigned over
        auto t = spawn<R, A>(id);
        u64 d;
        t = spawn<R, A>(d);
        dawdle();
        consume_block<R, A>(t, d, "block");
    } break;
    default: { // then, from the outside
        u64 c1 = new_body(), c2 = new_body();
        auto t = leaf<R, A>(c1, Tok::fresh(), sim_work(3));
        auto f = t.then(Cont<R, i64, A>{c1, c2});
        dawdle();
        consume_block<i64, A>(f, c2, "block on then");
        sim_probe("then from outside");
    } break;
    }
}
template<typename R, typename A>
static void go() {
    Mail m;
    mail = &m;
    m.start(1 + sim_work(3));
    u64 n = 1 + sim_work(3);
    bool both = sim_chance(1, 3);
    {
        Vec<T_, Mhidden> ts;
        if(both) ts.push(T_{[]() { top<R, A>(); }});
        for(u64 i = 0; i < n; i++) top<R, A>();
    }
    m.finish();
    bodies_all_done("every thread that could resume it is gone");
    tokens_all_dead("every coroutine ended and every task is gone");
}
// Whoever waits for a task would never be woken if it were dropped: that stops the process.
static bool dropping;
static void abandoned() {
    sim_on_exit([](int how, int code) {
        SIM_CHECK(dropping, "fatal-error", "the process stopped (%d, %d) without a reason", how, code);
        SIM_CHECK(how != 0 || code != 0, "success", "the process stopped with success");
        sim_probe("dropped while awaited");
        sim_pass();
    });
    auto sleeper = [](u64 n) -> Async::Task<i64> {
        for(u64 i = 0; i <= n; i++) co_await Async::Suspend{};
        co_return 5;
    };
    auto waiter = [](Async::Task<i64>& t) -> Async::Task<i64> { co_return co_await t; };
    u64 n = sim_work(3);
    auto t = sleeper(n);
    auto w = waiter(t);
    for(u64 i = 0; i < n; i++) t.resume();
    SIM_CHECK(!w.done(), "done-early", "a coroutine that awaits an unfinished task is done");
    if(sim_chance(1, 2)) { // moving the task is fine
        auto other = rpp::move(t);
        dropping = true;
    } else {
        dropping = true;
        t = Async::Task<i64>{};
    }
    sim_violation("not-stopped", "a task was dropped while a coroutine awaits it");
}
void scenario() {
    if(sim_chance(1, 40)) {
        if(sim_chance(1, 2)) abandoned();
        else T_{[]() { abandoned(); }}.join();
        return;
    }
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 3) ? 6000 : 0);
    sim_fault(F_SPURIOUS, sim_chance(1, 3) ? 6000 : 0);
    warm_up();
    i64 net = sys_net_allocs();
    switch(sim_work(6)) {
    case 0: go<void, Async::Alloc>(); break;
    case 1: go<i64, Async::Alloc>(); break;
    case 2: go<Big, Async::Alloc>(); break;
    case 3: go<void, Mhidden>(); break;
    case 4: go<i64, Mdefault>(); break;
    default: go<Big, Mhidden>(); break;
    }
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
