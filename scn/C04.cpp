// Atomics: histories checked for linearizability against a sequential register, and publication.
#include "common.h"

enum { LOAD, INCR, DECR, XCHG, CAS, OPS };
static const char* names[] = {"load", "incr", "decr", "exchange", "compare_and_swap"};
struct Op {
    u8 kind, thread;
    i64 a, b, ret;
    u64 inv, res;
};
static Op hist[20];
static u32 nhist;
static u64 stamp;

// Wing and Gong search with memoisation on (done set, value).
struct Memo {
    u32 mask;
    i64 v;
};
static Memo memo[1 << 15];
static u32 nmemo;
static bool apply(const Op& o, i64& v) {
    switch(o.kind) {
    case LOAD: return o.ret == v;
    case INCR: v = static_cast<i64>(static_cast<u64>(v) + 1); return o.ret == v;
    case DECR: v = static_cast<i64>(static_cast<u64>(v) - 1); return o.ret == v;
    case XCHG: {
        bool ok = o.ret == v;
        v = o.a;
        return ok;
    }
    default: {
        bool ok = o.ret == v;
        if(v == o.a) v = o.b;
        return ok;
    }
    }
}
static bool search(u32 mask, i64 v, i64 final_v) {
    if(mask == (1u << nhist) - 1) return v == final_v;
    for(u32 i = 0; i < nmemo; i++)
        if(memo[i].mask == mask && memo[i].v == v) return false;
    for(u32 i = 0; i < nhist; i++) {
        if(mask & (1u << i)) continue;
        bool first = true;
        for(u32 j = 0; j < nhist; j++)
            if(!(mask & (1u << j)) && j != i && hist[j].res < hist[i].inv) first = false;
        if(!first) continue;
        i64 w = v;
        if(apply(hist[i], w) && search(mask | (1u << i), w, final_v)) return true;
    }
    if(nmemo < sizeof memo / sizeof memo[0]) memo[nmemo++] = {mask, v};
    return false;
}
static void history() {
    i64 init = odd_value();
    Thread::Atomic x{init};
    u64 nt = 2 + sim_work(3);
    i64 pool[4] = {init, odd_value(), static_cast<i64>(static_cast<u64>(init) + 1), odd_value()};
    {
        Vec<T_, Mhidden> ts;
        for(u64 t = 0; t < nt; t++) {
            u64 n = 1 + sim_work(nt == 2 ? 6 : 4);
            ts.push(T_{[n, t, &x, &pool]() {
                for(u64 k = 0; k < n; k++) {
                    Op o = {};
                    o.kind = static_cast<u8>(sim_work(OPS));
                    o.thread = static_cast<u8>(t);
                    o.a = pool[sim_work(4)];
                    o.b = pool[sim_work(4)];
                    {
                        Sim_Atomic a;
                        o.inv = ++stamp;
                    }
                    switch(o.kind) {
                    case LOAD:
                        switch(sim_work(5)) {
                        case 0: o.ret = x.load<i64>(); break;
                        case 1: o.ret = static_cast<i64>(x.load<u64>()); break;
                        default: o.ret = x.load(); break;
                        }
                        break;
                    case INCR: o.ret = x.incr(); break;
                    case DECR: o.ret = x.decr(); break;
                    case XCHG: o.ret = x.exchange(o.a); break;
                    default: o.ret = x.compare_and_swap(o.a, o.b); break;
                    }
                    Sim_Atomic a;
                    o.res = ++stamp;
                    if(o.kind == CAS) sim_probe(o.ret == o.a ? "cas stored" : "cas refused");
                    hist[nhist++] = o;
                }
            }});
        }
    }
    i64 fin = x.load();
    SIM_CHECK(x.load<i32>() == static_cast<i32>(fin) && x.load<u16>() == static_cast<u16>(fin) && x.load<i8>() == static_cast<i8>(fin) && x.load<u32>() == static_cast<u32>(fin), "not-linearizable", "an Atomic of value %lld loads as something else", (long long)fin);
    Sim_Atomic a;
    for(u32 i = 0; i < nhist; i++)
        sim_log("%s T%d inv %llu res %llu (%lld,%lld) = %lld", names[hist[i].kind], hist[i].thread, (ull)hist[i].inv, (ull)hist[i].res, (long long)hist[i].a, (long long)hist[i].b, (long long)hist[i].ret);
    SIM_CHECK(search(0, init, fin), "not-linearizable", "%u concurrent operations on one Atomic starting at %lld and ending at %lld have no sequential explanation", nhist, (long long)init, (long long)fin);
}
// Message passing through every pair of (publishing operation, observing operation). The publisher
// makes exactly one atomic operation, and so does each attempt of the observer, so that each
// operation alone has to carry the ordering.
static void publish() {
    Thread::Atomic x{0};
    static u64 data;
    data = 0;
    sim_watch(&data, 8, "data published through an Atomic");
    u64 how = sim_work(4), look = sim_work(6);
    i64 pub = how == 3 ? -1 : 1;
    static const char* how_s[] = {"incr", "exchange", "cas", "decr"};
    static const char* look_s[] = {"load", "failing cas", "successful cas", "exchange", "incr", "decr"};
    sim_log("published by %s, observed by %s", how_s[how], look_s[look]);
    {
        T_ w{[&]() {
            dawdle();
            data = 5;
            if(how == 0) x.incr();
            if(how == 1) x.exchange(1);
            if(how == 2) (void)x.compare_and_swap(0, 1);
            if(how == 3) x.decr();
        }};
        T_ r{[&]() {
            dawdle();
            bool seen = false, once = look >= 4;
            if(once) dawdle();
            for(u64 i = 0; i < 60 && !seen; i++) {
                if(look == 0) seen = x.load() == pub;
                if(look == 1) seen = x.compare_and_swap(7, 7) == pub;
                if(look == 2) seen = x.compare_and_swap(pub, pub) == pub;
                if(look == 3) seen = x.exchange(0) == pub;
                if(look == 4) seen = x.incr() == pub + 1;
                if(look == 5) seen = x.decr() == pub - 1;
                if(once) break;
            }
            if(seen) {
                u64 v = data;
                SIM_CHECK(v == 5, "not-published", "the write before the update is not visible to its observer");
                static const char* P[4][6] = {
                    {"incr seen by load", "incr seen by failing cas", "incr seen by cas", "incr seen by exchange", "incr seen by incr", "incr seen by decr"},
                    {"exchange seen by load", "exchange seen by failing cas", "exchange seen by cas", "exchange seen by exchange", "exchange seen by incr", "exchange seen by decr"},
                    {"cas seen by load", "cas seen by failing cas", "cas seen by cas", "cas seen by exchange", "cas seen by incr", "cas seen by decr"},
                    {"decr seen by load", "decr seen by failing cas", "decr seen by cas", "decr seen by exchange", "decr seen by incr", "decr seen by decr"}};
                sim_probe(P[how][look]);
            }
        }};
    }
}
// Conservation: tickets handed out by incr/decr are unique and complete.
static void tickets() {
    Thread::Atomic x{0}, y{100};
    static u8 up[64], down[64];
    u64 nt = 2 + sim_work(4), per = 1 + sim_work(5);
    {
        Vec<T_, Mhidden> ts;
        for(u64 t = 0; t < nt; t++)
            ts.push(T_{[&, per]() {
                for(u64 i = 0; i < per; i++) {
                    i64 a = x.incr();
                    i64 d = y.decr();
                    Sim_Atomic s;
                    SIM_CHECK(a >= 1 && a < 64 && !up[a], "ticket-twice", "incr returned %lld twice", (long long)a);
                    up[a] = 1;
                    SIM_CHECK(d <= 99 && d > 36 && !down[99 - d], "ticket-twice", "decr returned %lld twice", (long long)d);
                    down[99 - d] = 1;
                }
            }});
    }
    SIM_CHECK(x.load() == static_cast<i64>(nt * per), "count-lost", "%llu increments gave %lld", (ull)(nt * per), (long long)x.load());
    SIM_CHECK(y.load() == static_cast<i64>(100 - nt * per), "count-lost", "decrements lost");
}
void scenario() {
    sim_fault(F_WEAK_CAS, 6000);
    u64 k = sim_work(4);
    if(k < 2) history();
    else if(k == 2) publish();
    else tickets();
}
