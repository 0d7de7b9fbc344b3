// Regions: memory stays valid, disjoint and private until its scope ends; scopes restore what they found.
#include "poolc.h"
#include <rpp/log.h>
#include <rpp/format.h>

using RA = Region_Allocator;
constexpr u64 BRANDS = 4;
constexpr Region brand_of(u64 i) {
    return 0x5150000ull + i * 77;
}
// Every live block of every thread.
struct Block {
    u8* p;
    u64 n, seed;
    int tid;
    u64 depth;
};
constexpr u64 BLOCKS = 1200;
static Block blocks[BLOCKS];
static u64 n_blocks, serial;
static bool other_threads, logs;

UNSEEN static u8 fill(u64 seed, u64 i) {
    return static_cast<u8>(((seed + i) * 0x9e3779b97f4a7c15ull) >> 56);
}
UNSEEN static void verify(const Block& b, const char* when) {
    sim_touch(b.p, b.n, 0);
    for(u64 i = 0; i < b.n; i++)
        if(b.p[i] != fill(b.seed, i))
            sim_violation("overwritten", "byte %llu of a live %llu-byte region allocation (made at depth %llu) changed, seen %s", (ull)i, (ull)b.n, (ull)b.depth, when);
}
static void verify_all(const char* when, u64 stride = 1) {
    Sim_Atomic a;
    int me = sim_tid();
    for(u64 i = sim_work(stride); i < n_blocks; i += stride)
        if(blocks[i].tid == me) verify(blocks[i], when);
}
UNSEEN static void took(void* ptr, u64 n, u64 depth) {
    Sim_Atomic a;
    u8* p = static_cast<u8*>(ptr);
    SIM_CHECK(p || !n, "null", "a region allocation of %llu bytes returned null", (ull)n);
    SIM_CHECK(reinterpret_cast<uptr>(p) % (n < 16 ? 8 : 16) == 0 || n < 8, "misaligned", "a region allocation of %llu bytes is at %p", (ull)n, ptr);
    for(u64 i = 0; i < n_blocks; i++) {
        Block& b = blocks[i];
        if(n && b.n && p < b.p + b.n && b.p < p + n)
            sim_violation("overlap", "a new %llu-byte allocation overlaps a live %llu-byte one of %s", (ull)n, (ull)b.n, b.tid == sim_tid() ? "the same thread" : "another thread");
    }
    if(n_blocks >= BLOCKS) sim_violation("internal:blocks", "scenario ran out of blocks");
    Block& b = blocks[n_blocks++];
    b = {p, n, ++serial * 1000003, sim_tid(), depth};
    sim_touch(p, n, 1);
    for(u64 i = 0; i < n; i++) p[i] = fill(b.seed, i);
}
static void gone(u64 depth) { // this thread's blocks at this depth and below
    Sim_Atomic a;
    int me = sim_tid();
    u64 k = 0;
    for(u64 i = 0; i < n_blocks; i++)
        if(blocks[i].tid != me || blocks[i].depth < depth) blocks[k++] = blocks[i];
    n_blocks = k;
}
static u64 size() {
    if(sim_chance(1, 400)) return 20000 + sim_work(300000);
    switch(sim_work(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 1000 - 24 + sim_work(30);
    case 3: return 1024 - 3 + sim_work(6);
    case 4: return 900 + sim_work(100);
    case 5: return 2048 - 50 + sim_work(100);
    case 6: return 3000 + sim_work(9000);
    case 7: return 500;
    default: return sim_work(120);
    }
}
struct Probe {
    u64 budget; // operations left
};
static void nest(u64 level, Probe& pr, u64 depth0);

template<u64 B>
static void ops(u64 level, Probe& pr, u64 depth0) {
    constexpr Region R = brand_of(B);
    u64 n = 1 + sim_work(6);
    for(u64 i = 0; i < n && pr.budget; i++) {
        pr.budget--;
        switch(sim_work(8)) {
        case 0:
        case 1:
        case 2: {
            u64 s = size(), before = RA::size();
            void* p = Mregion<R>::alloc(s);
            took(p, s, level);
            SIM_CHECK(RA::size() >= before + s && RA::size() <= before + s + 64, "size", "allocating %llu bytes changed the region size from %llu to %llu", (ull)s, (ull)before, (ull)RA::size());
        } break;
        case 3: nest(level + 1, pr, depth0); break;
        case 4: {
            // Containers living in the region, growing past chunk boundaries, freed or not.
            Vec<u64, Mregion<R>> v;
            u64 k = sim_work(300);
            for(u64 q = 0; q < k; q++) v.push(u64{q * 3});
            if(sim_chance(1, 2)) nest(level + 1, pr, depth0);
            for(u64 q = 0; q < k; q++)
                if(v[q] != q * 3) sim_violation("overwritten", "element %llu of a vector in a region changed", (ull)q);
        } break;
        case 5:
            if(logs && level < 100) {
                info("level % of %", level, String_View{"some text that is not tiny"});
                sim_probe("logged inside a region");
            }
            break;
        case 6: {
            auto s = format<Mregion<R>>("% and %"_v, level, i);
            u64 want = s.length();
            if(sim_chance(1, 2)) nest(level + 1, pr, depth0);
            auto t = format<Mregion<R>>("% and %"_v, level, i);
            SIM_CHECK(t.length() == want && s.view() == t.view(), "overwritten", "a string in a region changed");
        } break;
        default:
            Mregion<R>::free(null);
            dawdle();
            break;
        }
        verify_all("during the scope", 4);
    }
}
template<u64 B>
static void scoped(u64 level, Probe& pr, u64 depth0) {
    u64 size0 = RA::size();
    SIM_CHECK(RA::depth() == depth0 + level - 1, "depth", "depth is %llu, should be %llu", (ull)RA::depth(), (ull)(depth0 + level - 1));
    {
        RA::Scope<brand_of(B)> scope;
        SIM_CHECK(RA::depth() == depth0 + level, "depth", "depth inside a new scope is %llu, should be %llu", (ull)RA::depth(), (ull)(depth0 + level));
        SIM_CHECK(RA::size() == size0, "size", "a new scope changed the size from %llu to %llu", (ull)size0, (ull)RA::size());
        ops<B>(level, pr, depth0);
        verify_all("before the end of the scope");
        gone(level);
    }
    SIM_CHECK(RA::depth() == depth0 + level - 1, "depth", "depth after a scope is %llu, should be %llu", (ull)RA::depth(), (ull)(depth0 + level - 1));
    SIM_CHECK(RA::size() == size0, "size", "size after a scope is %llu, %llu before it", (ull)RA::size(), (ull)size0);
    verify_all("after an inner scope ended");
}
static void nest(u64 level, Probe& pr, u64 depth0) {
    if(level + depth0 > 120) return;
    switch(sim_work(BRANDS)) {
    case 0: scoped<0>(level, pr, depth0); break;
    case 1: scoped<1>(level, pr, depth0); break;
    case 2: scoped<2>(level, pr, depth0); break;
    default: scoped<3>(level, pr, depth0); break;
    }
}
// One thread's life outside any region: afterwards nothing is left.
static void life(u64 scopes, u64 budget) {
    SIM_CHECK(RA::depth() == 0 && RA::size() == 0, "depth", "a thread starts at depth %llu with %llu bytes", (ull)RA::depth(), (ull)RA::size());
    for(u64 i = 0; i < scopes; i++) {
        Probe pr{budget};
        u64 mark = sim_heap_mark();
        nest(1, pr, 0);
        if(!other_threads && !logs) {
            Sim_Atomic a;
            SIM_CHECK(sim_heap_live_since(mark) == 0, "leaked", "%llu heap blocks are left after the outermost scope", (ull)sim_heap_live_since(mark));
        }
    }
    SIM_CHECK(RA::depth() == 0 && RA::size() == 0, "depth", "after all scopes the depth is %llu, the size %llu", (ull)RA::depth(), (ull)RA::size());
}
template<u64 D>
static void deep() { // different code at every level, as the macro has it
    if constexpr(D > 0) {
        Region(R) {
            u64 s = size();
            void* p = Mregion<R>::alloc(s);
            took(p, s, 1000 + D);
            deep<D - 1>();
            verify_all("after an inner scope ended", 3);
            // Only this block ends here; the others of this thread are further out.
            Sim_Atomic a;
            u64 k = 0;
            int me = sim_tid();
            for(u64 i = 0; i < n_blocks; i++)
                if(blocks[i].tid != me || blocks[i].depth != 1000 + D) blocks[k++] = blocks[i];
            n_blocks = k;
        }
    } else sim_probe("127 scopes deep");
}
static Pool_* pp;
static Async::Task<void> hopping(u64 id, u64 n) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    for(u64 i = 0; i < n; i++) {
        co_await pool.suspend();
        life(1, 8);
    }
    body_end(id);
}
// Allocating from a region that is not the innermost one stops the process.
static u32 expect_stop;
// There is room for a limited number of scopes inside each other (127 at least); one more stops the process.
static void too_deep(u64 level) {
    if(level == 128) expect_stop = 1; // where exactly is the library's choice
    if(level > 5000) sim_violation("not-stopped", "%llu scopes are open inside each other", (ull)level);
    RA::Scope<brand_of(0)> scope;
    if(level < 128 || sim_chance(1, 8)) {
        u64 n = 1 + sim_work(40);
        u8* p = static_cast<u8*>(Mregion<brand_of(0)>::alloc(n));
        for(u64 i = 0; i < n; i++) p[i] = static_cast<u8>(level);
        too_deep(level + 1);
        for(u64 i = 0; i < n; i++) SIM_CHECK(p[i] == static_cast<u8>(level), "overwritten", "region memory of an outer scope changed");
    } else too_deep(level + 1);
}
static void misuse() {
    sim_on_exit([](int how, int code) {
        if(!expect_stop) sim_violation("fatal-error", "the process stopped without a reason");
        if(how == 0 && code == 0) sim_violation("exit-status", "the process stopped with status 0");
        sim_probe("stopped");
        sim_pass();
    });
    if(sim_chance(1, 4)) {
        too_deep(1);
        return;
    }
    RA::Scope<brand_of(0)> a;
    void* p = Mregion<brand_of(0)>::alloc(10);
    u64 kind = sim_work(4);
    {
        RA::Scope<brand_of(1)> b;
        (void)Mregion<brand_of(1)>::alloc(sim_work(2000));
        expect_stop = 1;
        switch(kind) {
        case 0: p = Mregion<brand_of(0)>::alloc(sim_work(2000)); break; // enclosing
        case 1: // never begun, and hardly different from one that was
            switch(sim_work(6)) {
            case 0: p = Mregion<brand_of(1) ^ 1>::alloc(sim_work(2000)); break;
            case 1: p = Mregion<brand_of(1) ^ 1ull << 8>::alloc(sim_work(2000)); break;
            case 2: p = Mregion<brand_of(1) ^ 1ull << 16>::alloc(sim_work(2000)); break;
            case 3: p = Mregion<brand_of(1) ^ 1ull << 32>::alloc(sim_work(2000)); break;
            case 4: p = Mregion<brand_of(1) ^ 1ull << 63>::alloc(sim_work(2000)); break;
            default: p = Mregion<brand_of(2)>::alloc(sim_work(2000)); break;
            }
            break;
        case 2: Mregion<brand_of(0)>::free(p); break;
        default: break;
        }
        if(kind < 3) sim_violation("not-stopped", "%s succeeded", kind == 0 ? "allocating from an enclosing region" : kind == 1 ? "allocating from a region that was not begun" : "freeing into an enclosing region");
        expect_stop = 0;
    }
    expect_stop = 1;
    p = Mregion<brand_of(1)>::alloc(sim_work(2000)); // its scope is over
    sim_violation("not-stopped", "allocating from a region whose scope is over succeeded");
}
void scenario() {
    if(sim_chance(1, 12)) {
        if(sim_chance(1, 2)) {
            T_ t{[]() { misuse(); }};
            t.join();
        } else misuse();
        return;
    }
    logs = sim_chance(1, 2);
    warm_up();
    info("warm");
    i64 net = sys_net_allocs();
    {
        Vec<T_, Mhidden> ts;
        u64 n = sim_work(4);
        other_threads = n > 0;
        if(n && sim_chance(1, 4)) {
            Pool_ p;
            pp = &p;
            u64 ids[4];
            Vec<Async::Task<void>, Mhidden> tasks;
            for(u64 i = 0; i < n; i++) tasks.push(hopping(ids[i] = new_body(), 1 + sim_work(4)));
            life(1, 10);
            for(u64 i = 0; i < n; i++) {
                tasks[i].block();
                body_consumed(ids[i], "block");
            }
            tasks.clear();
            sim_quiesce();
        } else {
            for(u64 i = 0; i < n; i++) ts.push(T_{[s = 1 + sim_work(3), b = 4 + sim_work(20)]() { life(s, b); }});
            if(sim_chance(1, 20)) {
                deep<127>();
                life(1, 10);
            } else life(1 + sim_work(3), 5 + sim_work(40));
        }
    }
    SIM_CHECK(sys_net_allocs() == net, "leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
