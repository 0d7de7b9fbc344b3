// Random streams: reproducible from their seed, in range, and different on different threads and at different times.
#include "common.h"
#include <rpp/rng.h>

using RNG::Stream;

static u64 odd_seed() {
    switch(sim_work(5)) {
    case 0: return sim_work(4);
    case 1: return ~0ull - sim_work(4);
    default: return (static_cast<u64>(sim_work(0x100000000ull)) << 32) | sim_work(0x100000000ull);
    }
}
// A seed whose stream is expected to start with the given number: numbers at the ends of the range are too rare to be met
// by chance. Only a guess at how the library computes them, so nothing depends on it being right.
static u64 unxor(u64 v, int k) {
    u64 r = v;
    for(int i = 0; i < 64 / k + 1; i++) r = v ^ (r >> k);
    return r;
}
static u64 inverse(u64 odd) {
    u64 x = odd;
    for(int i = 0; i < 6; i++) x *= 2 - odd * x;
    return x;
}
static u64 seed_for(u64 out) {
    u64 v = unxor(out, 17) * inverse(0xD8081C73F0FAA127ull);
    v = unxor(v, 15) - 0xDB8BDB77D7DF9811ull;
    v = unxor(v, 13) * inverse(0xEC705118C5FBDA13ull);
    v = unxor(v, 11) - 0x9D9FDC30FD876B1Dull;
    return unxor(v, 9) * inverse(0xA278032FB08BA40Dull);
}
// Draws at the ends of the range, or just next to them.
static u64 extreme() {
    u64 ones = ~0ull;
    switch(sim_work(6)) {
    case 0: return ones - sim_work(4);
    case 1: return sim_work(4);
    case 2: return ones << sim_work(64);
    case 3: return ones >> sim_work(64);
    case 4: return (1ull << sim_work(64)) - sim_work(3);
    default: return ones ^ (1ull << sim_work(64));
    }
}
static Stream extreme_stream() {
    u64 out = extreme();
    Stream s{seed_for(out)}, t = s;
    if(t() == out) sim_probe("extreme draw");
    return s;
}
// What a seed produced the first time it was used, on whichever thread.
struct Tape {
    static constexpr u64 LEN = 6, MAX = 6;
    u64 seed[MAX], out[MAX][LEN], n = 0;
};
static Tape tape;
static void seeded(Stream s, u64 seed) {
    u64 got[Tape::LEN];
    for(u64 i = 0; i < Tape::LEN; i++) {
        got[i] = s();
        if(sim_chance(1, 4)) dawdle();
    }
    Sim_Atomic a;
    for(u64 k = 0; k < tape.n; k++) {
        bool same = true;
        for(u64 i = 0; i < Tape::LEN; i++) same &= got[i] == tape.out[k][i];
        if(tape.seed[k] == seed) {
            SIM_CHECK(same, "not-reproducible", "seed %llu gave another sequence the second time", (ull)seed);
            sim_probe("same seed again");
            return;
        }
        SIM_CHECK(!same, "seeds-collide", "seeds %llu and %llu give the same sequence", (ull)seed, (ull)tape.seed[k]);
    }
    if(tape.n == Tape::MAX) return;
    tape.seed[tape.n] = seed;
    for(u64 i = 0; i < Tape::LEN; i++) tape.out[tape.n][i] = got[i];
    tape.n++;
}
// Streams made without a seed: by whom, in which second (when it did not change meanwhile), and what they produced.
struct Made {
    u64 thread, second, out[2];
    bool known;
};
static constexpr u64 MADE = 64;
static Made made[MADE];
static u64 n_made;
static void own(u64 me) {
    Stream local{1};
    u64 before, after;
    {
        Sim_Atomic a;
        before = sim_wall() / 1000000000;
    }
    if(sim_chance(1, 2)) local.seed();
    else local = Stream{};
    {
        Sim_Atomic a;
        after = sim_wall() / 1000000000;
    }
    Made m{me, before, {}, before == after};
    m.out[0] = local();
    m.out[1] = local();
    Sim_Atomic a;
    for(u64 i = 0; i < n_made; i++) {
        const Made& o = made[i];
        bool same = o.out[0] == m.out[0] && o.out[1] == m.out[1];
        if(o.thread != me) SIM_CHECK(!same, "threads-share-sequence", "streams made without a seed by threads %llu and %llu produce the same numbers", (ull)o.thread, (ull)me);
        else if(o.known && m.known && o.second != m.second) SIM_CHECK(!same, "times-share-sequence", "streams made in seconds %llu and %llu produce the same numbers", (ull)o.second, (ull)m.second);
    }
    if(n_made < MADE) made[n_made++] = m;
}
template<typename I>
static void ranges(Stream& s, const char* type) {
    constexpr bool sign = static_cast<I>(-1) < static_cast<I>(0);
    const I least = sign ? static_cast<I>(1ull << (8 * sizeof(I) - 1)) : static_cast<I>(0);
    const I most = static_cast<I>(~static_cast<u64>(least));
    auto pick = [&]() -> I {
        switch(sim_work(5)) {
        case 0: return static_cast<I>(least + static_cast<I>(sim_work(3)));
        case 1: return static_cast<I>(most - static_cast<I>(sim_work(3)));
        case 2: return static_cast<I>(static_cast<I>(sim_work(7)) - static_cast<I>(sign ? 3 : 0));
        default: return static_cast<I>(odd_seed());
        }
    };
    I a = pick(), b = sim_chance(1, 2) ? pick() : static_cast<I>(a + static_cast<I>(1 + sim_work(9)));
    if(a == b) return;
    if(b < a) {
        I t = a;
        a = b;
        b = t;
    }
    u64 span = static_cast<u64>(b) - static_cast<u64>(a);
    u64 seen = 0;
    bool low = false, high = false;
    for(u64 i = 0; i < 310; i++) {
        Stream e = s;
        if(i >= 300) e = extreme_stream();
        I v = i < 300 ? s.range(a, b) : e.range(a, b);
        SIM_CHECK(v >= a && v < b, "out-of-range", "range(%lld, %lld) of %s gave %lld", (long long)a, (long long)b, type, (long long)v);
        u64 at = static_cast<u64>(v) - static_cast<u64>(a);
        if(span <= 9) seen |= 1ull << at;
        if(at < span / 2) low = true;
        else high = true;
    }
    if(span <= 9) {
        SIM_CHECK(seen == (1ull << span) - 1, "never-drawn", "range(%lld, %lld) of %s never gave some of the values", (long long)a, (long long)b, type);
        sim_probe("every value of a small range");
    } else SIM_CHECK(low && high, "never-drawn", "range(%lld, %lld) of %s never left one half", (long long)a, (long long)b, type);
    if(sign && static_cast<I>(b - 1) >= 0 && a < 0) sim_probe("range across zero");
}
template<typename F>
static void unit_ends(const char* type) {
    for(u64 i = 0; i < 20; i++) {
        Stream s = extreme_stream();
        Stream t = s, h = s;
        F u = s.unit<F>();
        SIM_CHECK(u >= 0 && u < 1, "out-of-range", "unit<%s> gave %.20g", type, (double)u);
        SIM_CHECK(!t.coin_flip(static_cast<F>(0)), "coin", "a coin that never shows heads did");
        SIM_CHECK(h.coin_flip(static_cast<F>(1)), "coin", "a coin that always shows heads did not");
    }
}
template<typename F>
static void units(Stream& s, const char* type) {
    u64 heads = 0, quarter[4] = {};
    for(u64 i = 0; i < 400; i++) {
        F u = s.unit<F>();
        SIM_CHECK(u >= 0 && u < 1, "out-of-range", "unit<%s> gave %g", type, (double)u);
        quarter[static_cast<u64>(u * 4)]++;
        if(s.coin_flip(static_cast<F>(0.5))) heads++;
        SIM_CHECK(!s.coin_flip(static_cast<F>(0)), "coin", "a coin that never shows heads did");
        SIM_CHECK(s.coin_flip(static_cast<F>(1)), "coin", "a coin that always shows heads did not");
    }
    for(u64 q : quarter) SIM_CHECK(q > 10, "never-drawn", "unit<%s> gave only %llu of 400 values in one quarter", type, (ull)q);
    SIM_CHECK(heads > 100 && heads < 300, "coin", "a fair coin showed heads %llu times of 400", (ull)heads);
}
static void shuffles(Stream& s) {
    u64 n = sim_work(12);
    Vec<u64, Mhidden> v;
    Vec<Tok, Mhidden> t;
    for(u64 i = 0; i < n; i++) v.push(i);
    for(u64 i = 0; i < n; i++) t.push(Tok::fresh());
    s.shuffle(t);
    u64 orders = 0;
    for(u64 k = 0; k < (n == 2 || n == 3 ? 300 : 5); k++) {
        for(u64 i = 0; i < n; i++) v[i] = i;
        s.shuffle(v);
        u64 seen = 0;
        for(u64 i = 0; i < n; i++) seen |= 1ull << v[i];
        SIM_CHECK(v.length() == n && seen == (1ull << n) - 1, "not-a-permutation", "a shuffle of %llu elements lost one", (ull)n);
        if(n == 2 || n == 3) orders |= 1ull << (v[0] * 3 + v[1]);
    }
    if(n == 3) SIM_CHECK(orders == ((1ull << 1) | (1ull << 2) | (1ull << 3) | (1ull << 5) | (1ull << 6) | (1ull << 7)), "never-drawn", "some order of three elements never came up in 300 shuffles");
    if(n == 2) SIM_CHECK(orders == ((1ull << 1) | (1ull << 3)), "never-drawn", "some order of two elements never came up in 300 shuffles");
    for(u64 i = 0; i < n; i++)
        for(u64 j = 0; j < i; j++) SIM_CHECK(t[i].id != t[j].id && t[i].id, "not-a-permutation", "a shuffle doubled an element");
    for(Tok& k : t) k.check("shuffle");
    if(n == 0) sim_probe("empty shuffle");
}
static bool everybody;
static void user(u64 me, u64 n) {
    // Identifiers of threads that ended may be used again: nobody ends before all have started.
    while(!everybody) sim_sleep(1000);
    for(u64 i = 0; i < n; i++) {
        u64 seed = sim_chance(1, 2) ? sim_work(3) : odd_seed();
        switch(sim_work(8)) {
        case 0: {
            Stream s{seed};
            seeded(s, seed);
        } break;
        case 1: {
            Stream s;
            s.seed(seed);
            seeded(s, seed);
        } break;
        case 2:
        case 3: own(me); break;
        case 4: {
            Stream s{seed};
            switch(sim_work(8)) {
            case 0: ranges<i8>(s, "i8"); break;
            case 1: ranges<u8>(s, "u8"); break;
            case 2: ranges<i16>(s, "i16"); break;
            case 3: ranges<u16>(s, "u16"); break;
            case 4: ranges<i32>(s, "i32"); break;
            case 5: ranges<u32>(s, "u32"); break;
            case 6: ranges<i64>(s, "i64"); break;
            default: ranges<u64>(s, "u64"); break;
            }
        } break;
        case 5: {
            Stream s{seed};
            if(sim_chance(1, 2)) unit_ends<f32>("f32"), unit_ends<f64>("f64");
            if(sim_chance(1, 2)) units<f32>(s, "f32");
            else units<f64>(s, "f64");
        } break;
        case 6: {
            Stream s;
            shuffles(s);
        } break;
        default: {
            Stream s{seed};
            u64 ones = 0, zeros = 0;
            for(u64 k = 0; k < 100; k++) {
                u32 v = s.integer<u32>();
                ones |= v;
                zeros |= static_cast<u32>(~v);
            }
            SIM_CHECK(ones == 0xffffffff && zeros == 0xffffffff, "never-drawn", "a bit of 100 integers never changed");
        } break;
        }
        if(sim_chance(1, 4)) {
            sim_wall_jump(static_cast<i64>(sim_work(20000)) * 1000000000 - 10000000000000ll);
            sim_probe("wall clock stepped");
        }
        if(sim_chance(1, 3)) sim_sleep(sim_work(3000000000ull));
        if(sim_chance(1, 4)) dawdle();
    }
}
void scenario() {
    sim_fault(F_STALL, sim_chance(1, 4) ? 300 : 0);
    sim_fault(F_WALL_JUMP, sim_chance(1, 3) ? 1000 : 0);
    {
        Vec<T_, Mhidden> ts;
        u64 n = sim_work(4);
        for(u64 i = 0; i < n; i++) {
            u64 k = 1 + sim_work(5);
            ts.push(T_{[i, k]() { user(i + 1, k); }});
        }
        everybody = true;
        user(0, 1 + sim_work(6));
    }
    tokens_all_dead("end");
}
