// Describing counters and shared objects while other threads change them.
#include "common.h"
#include <rpp/box.h>
#include <rpp/opt.h>
#include <rpp/pair.h>

// A count that other threads change: what it may be at this moment, and over a window.
struct Count {
    i64 low, high;
};
constexpr u64 WINDOWS = 8;
struct Window {
    bool open;
    i64 low[2], high[2];
};
static Count counts[2]; // of references, of the counter
static Window windows[WINDOWS];
static void change(u64 c, i64 low, i64 high) {
    Sim_Atomic a;
    counts[c].low += low;
    counts[c].high += high;
    for(Window& w : windows)
        if(w.open) {
            if(counts[c].low < w.low[c]) w.low[c] = counts[c].low;
            if(counts[c].high > w.high[c]) w.high[c] = counts[c].high;
        }
}
// Runs an operation that makes count c larger or smaller by one.
template<typename F>
static void step(u64 c, bool up, F f) {
    if(up) change(c, 0, 1);
    else change(c, -1, 0);
    f();
    if(up) change(c, 1, 0);
    else change(c, 0, -1);
}
using Shared = Arc<Thread::Atomic>;
static Window& window(u64 me) {
    Sim_Atomic a;
    Window& w = windows[me];
    w.open = true;
    for(u64 c = 0; c < 2; c++) w.low[c] = counts[c].low, w.high[c] = counts[c].high;
    return w;
}
struct Reader {
    const char* s;
    u64 n, at = 0;
    bool eat(const char* what) {
        u64 k = at;
        for(; *what; what++, k++)
            if(k >= n || s[k] != *what) return false;
        at = k;
        return true;
    }
    bool number(i64& v) {
        bool minus = eat("-");
        u64 u = 0, from = at;
        while(at < n && s[at] >= '0' && s[at] <= '9' && at - from < 20) u = u * 10 + static_cast<u64>(s[at++] - '0');
        v = static_cast<i64>(minus ? 0 - u : u);
        return at > from && at - from < 20;
    }
};
static void in_window(const Window& w, u64 c, i64 v, const char* what) {
    SIM_CHECK(v >= w.low[c] && v <= w.high[c], "wrong-value", "%s is described as %lld, it was between %lld and %lld meanwhile", what, (long long)v, (long long)w.low[c], (long long)w.high[c]);
}
static void expect_atomic(Reader& r, const Window& w) {
    i64 v = 0;
    bool ok = r.eat("Atomic{value_ : ") && r.number(v) && r.eat("}");
    SIM_CHECK(ok, "garbled", "a counter is described as %.*s", (int)(r.n > 200 ? 200 : r.n), r.s);
    in_window(w, 1, v, "the counter");
}
static void expect_shared(Reader& r, const Window& w) {
    i64 v = 0;
    bool ok = r.eat("Arc[") && r.number(v) && r.eat("]{");
    SIM_CHECK(ok, "garbled", "a shared object is described as %.*s", (int)(r.n > 200 ? 200 : r.n), r.s);
    in_window(w, 0, v, "the number of references");
    expect_atomic(r, w);
    SIM_CHECK(r.eat("}"), "garbled", "a shared object is described as %.*s", (int)(r.n > 200 ? 200 : r.n), r.s);
}
static void expect_end(Reader& r) {
    SIM_CHECK(r.at == r.n, "garbled", "a description does not end where it should: %.*s", (int)(r.n > 200 ? 200 : r.n), r.s);
}
static void expect_text(Reader& r, const char* t) {
    SIM_CHECK(r.eat(t), "garbled", "'%s' is missing from %.*s", t, (int)(r.n > 200 ? 200 : r.n), r.s);
}
static void describe(u64 me, const Shared& x) {
    Window& w = window(me);
    u64 kind = sim_work(8);
    i64 mark = static_cast<i64>(sim_work(100000));
    auto judge = [&](auto&& text) {
        Sim_Atomic a;
        w.open = false;
        Reader r{reinterpret_cast<const char*>(text.data()), text.length()};
        switch(kind) {
        case 0: expect_atomic(r, w); break;
        case 1: expect_shared(r, w); break;
        case 2:
            expect_text(r, "count ");
            expect_atomic(r, w);
            expect_text(r, " of %");
            expect_shared(r, w);
            expect_text(r, " and ");
            expect_shared(r, w);
            expect_text(r, " end");
            break;
        default: {
            expect_text(r, "Pair{");
            expect_shared(r, w);
            expect_text(r, ", ");
            i64 v = 0;
            bool ok = r.number(v) && v == mark;
            SIM_CHECK(ok, "garbled", "what follows a shared object is lost: %.*s", (int)(r.n > 200 ? 200 : r.n), r.s);
            expect_text(r, "}");
        } break;
        }
        expect_end(r);
        if(w.low[0] != w.high[0]) sim_probe("references changed meanwhile");
        if(w.low[1] != w.high[1]) sim_probe("counter changed meanwhile");
        if((w.low[0] < 10 && w.high[0] >= 10) || (w.low[1] < 10 && w.high[1] >= 10) || (w.low[1] < 0 && w.high[1] >= 0)) sim_probe("length changed meanwhile");
    };
    switch(kind) {
    case 0: judge(format<Mhidden>("%"_v, *x)); break;
    case 1: judge(format<Mhidden>("%"_v, x)); break;
    case 2: judge(format<Mhidden>("count % of %%% and % end"_v, *x, x, x)); break;
    case 3: {
        Shared y;
        step(0, true, [&]() { y = x.dup(); });
        Pair<Shared, i64> p{rpp::move(y), i64{mark}};
        judge(format<Mhidden>("%"_v, p));
        step(0, false, [&]() { p.first.clear(); });
    } break;
    case 4: {
        Region(R) {
            kind = 2;
            judge(format<Mregion<R>>("count % of %%% and % end"_v, *x, x, x));
        }
    } break;
    default: { // a message
        u64 from;
        {
            Sim_Atomic a;
            static u64 serial;
            from = ++serial;
        }
        info("<%>count % of %%% and % end", from, *x, x, x);
        kind = 2;
        char head[40];
        u64 n = 0, h = 0, at = 0, e;
        char digits[24];
        head[h++] = '<';
        for(u64 v = from; v; v /= 10) digits[n++] = static_cast<char>('0' + v % 10);
        while(n) head[h++] = digits[--n];
        head[h++] = '>';
        Sim_Atomic a;
        const char* s = sim_stdout_data();
        u64 size = sim_stdout_size();
        while(at + h <= size && __builtin_memcmp(s + at, head, h)) at++;
        SIM_CHECK(at + h <= size, "lost", "a message that describes a shared object is not on standard output");
        at += h;
        e = at;
        while(e < size && s[e] != '\n') e++;
        judge(String_View{reinterpret_cast<const u8*>(s + at), e - at});
        sim_probe("in a message");
    } break;
    }
}
void scenario() {
    sim_on_exit([](int how, int code) {
        u64 n = sim_stdout_size(), b = n > 300 ? n - 300 : 0;
        sim_violation("stopped", "describing a shared object stopped the process (%d, %d): %.*s", how, code, (int)(n - b), sim_stdout_data() + b);
    });
    sim_watch_heap("heap memory");
    static const i64 at[] = {0, 9, 99, 999999999, 9223372036854775707, -10, -100, 2147483647};
    i64 v = at[sim_work(8)] - 2 + static_cast<i64>(sim_work(5));
    {
        Shared x{v};
        counts[1] = {v, v};
        // So many references that a few more or less make the number longer or shorter.
        Vec<Shared, Mhidden> keep;
        u64 n = sim_work(4) == 0 ? 95 + sim_work(6) : 5 + sim_work(6);
        if(sim_work(3) == 0) n = sim_work(4);
        for(u64 i = 0; i < n; i++) keep.push(x.dup());
        counts[0] = {static_cast<i64>(n + 1), static_cast<i64>(n + 1)};
        {
            Vec<T_, Mhidden> ts;
            u64 threads = 1 + sim_work(3);
            for(u64 t = 0; t < threads; t++) {
                u64 ops = 2 + sim_work(10);
                bool talks = sim_chance(1, 3);
                Shared mine;
                step(0, true, [&]() { mine = x.dup(); });
                ts.push(T_{[ops, talks, t, mine = rpp::move(mine)]() mutable {
                    Shared more[3];
                    for(u64 i = 0; i < ops; i++) {
                        u64 k = sim_work(3);
                        switch(sim_work(talks ? 4 : 3)) {
                        case 0:
                            if(!more[k].ok()) step(0, true, [&]() { more[k] = mine.dup(); });
                            else step(0, false, [&]() { more[k].clear(); });
                            break;
                        case 1: step(1, true, [&]() { mine->incr(); }); break;
                        case 2: step(1, false, [&]() { mine->decr(); }); break;
                        default: describe(1 + t, mine); break;
                        }
                    }
                    for(Shared& m : more)
                        if(m.ok()) step(0, false, [&]() { m.clear(); });
                    step(0, false, [&]() { mine.clear(); });
                }});
            }
            for(u64 i = 1 + sim_work(6); i > 0; i--) describe(0, x);
        }
        // Nobody changes it any more: exactly so.
        SIM_CHECK(counts[0].low == counts[0].high && counts[1].low == counts[1].high, "internal:counts", "the scenario lost count");
        describe(0, x);
    }
}
