// Allocation accounting: the net count, the per-allocator report and the leak verdict are exact.
#include "common.h"
#include <rpp/box.h>
#include <rpp/map.h>

using M0 = Mallocator<"Sim A">;
using M1 = Mallocator<"Sim B">;
using M2 = Mallocator<"Sim C">;
using M3 = Mallocator<"Sim quiet", false>;

struct Account {
    const char* name;
    i64 allocs, frees, asize, fsize;
    i64 low, up;           // certainly / possibly allocated at this moment
    i64 high_low, high_up; // bounds of the high-water mark
    // reported
    i64 r_allocs = -1, r_frees = -1, r_high = -1, r_asize = -1, r_fsize = -1, r_unbalanced = 0;
    u32 reports = 0;
};
static Account acc[4] = {{"Sim A"}, {"Sim B"}, {"Sim C"}, {"Sim quiet"}};
// The pool allocators: named after the size of their objects, which are fewer or more than their blocks.
template<u64 N>
struct Fat {
    u8 bytes[N] = {};
};
constexpr u64 POOLS = 4;
static Account pools[POOLS] = {{"Pool<7>"}, {"Pool<24>"}, {"Pool<130>"}, {"Pool<1002>"}};
static const u64 pool_size[POOLS] = {7, 24, 130, 1002};
template<u64 N>
static void pool_use(u64 k) {
    Fat<N>* mine[3];
    u64 n = 1 + sim_work(3);
    for(u64 i = 0; i < n; i++) {
        {
            Sim_Atomic a;
            pools[k].allocs++;
        }
        mine[i] = Mpool::make<Fat<N>>();
    }
    while(n) Mpool::destroy(mine[--n]);
}
struct Item {
    void* p;
    u64 n;
    u32 a;
};
constexpr u64 ITEMS = 600;
static Item items[ITEMS]; // owned by nobody in particular: freed on any thread
static u64 n_items, live_items;

template<typename M>
static void* alloc_as(u32 a, u64 n) {
    {
        Sim_Atomic at;
        acc[a].up += static_cast<i64>(n);
        if(acc[a].up > acc[a].high_up) acc[a].high_up = acc[a].up;
    }
    void* p = M::alloc(n);
    Sim_Atomic at;
    SIM_CHECK((n == 0) == (p == null), "null", "allocating %llu bytes returned %p", (ull)n, p);
    if(!n) return p;
    SIM_CHECK(sim_heap_block_size(p) >= n, "too-short", "asked for %llu bytes, got %llu", (ull)n, (ull)sim_heap_block_size(p));
    acc[a].allocs++;
    acc[a].asize += static_cast<i64>(n);
    acc[a].low += static_cast<i64>(n);
    if(acc[a].low > acc[a].high_low) acc[a].high_low = acc[a].low;
    live_items++;
    return p;
}
template<typename M>
static void free_as(u32 a, void* p, u64 n) {
    {
        Sim_Atomic at;
        acc[a].low -= static_cast<i64>(n);
        if(p) {
            acc[a].frees++;
            acc[a].fsize += static_cast<i64>(n);
            live_items--;
        }
    }
    M::free(p);
    Sim_Atomic at;
    acc[a].up -= static_cast<i64>(n);
}
static Item get(u32 a, u64 n) {
    switch(a) {
    case 0: return {alloc_as<M0>(a, n), n, a};
    case 1: return {alloc_as<M1>(a, n), n, a};
    case 2: return {alloc_as<M2>(a, n), n, a};
    default: return {alloc_as<M3>(a, n), n, a};
    }
}
static void put(const Item& i) {
    switch(i.a) {
    case 0: free_as<M0>(i.a, i.p, i.n); break;
    case 1: free_as<M1>(i.a, i.p, i.n); break;
    case 2: free_as<M2>(i.a, i.p, i.n); break;
    default: free_as<M3>(i.a, i.p, i.n); break;
    }
}
static u64 some_size() {
    switch(sim_work(5)) {
    case 0: return 0;
    case 1: return 8;
    case 2: return 1 + sim_work(64);
    case 3: return 1000 + sim_work(2000);
    default: return sim_chance(1, 12) ? (1ull << (29 + sim_work(6))) - 2 + sim_work(5) : 64; // up to 16 GB
    }
}
// Owned by a thread, or by nobody until the process exits: freed when the thread's other data is already gone.
struct Owner {
    Item mine[3] = {};
    u64 n = 0;
    void take() {
        if(n < 3) mine[n++] = get(static_cast<u32>(sim_work(4)), some_size());
    }
    ~Owner() {
        if(!n) return;
        while(n) put(mine[--n]);
        Item it = get(static_cast<u32>(sim_work(4)), 24);
        {
            Trace("at exit"_v) put(it);
        }
        sim_probe("freed by a destructor at exit");
    }
};
static Owner& owner() { // not constructed along with the thread's profile
    static thread_local Owner o;
    return o;
}
static Owner static_owner;

// Memory given back by a function registered to run at finalization.
constexpr u64 HELD = 64;
static struct Held {
    Item it{};
    u32 ran = 0;
} held[HELD];
static u64 n_held, held_live;
static bool finalizing, use_held;

static void hold() {
    u64 k;
    {
        Sim_Atomic at;
        if(n_held == HELD) return;
        k = n_held++;
    }
    Item it = get(static_cast<u32>(sim_work(4)), some_size());
    {
        Sim_Atomic at;
        held[k].it = it;
        if(it.p) held_live++;
    }
    Profile::finalizer([k]() {
        {
            Sim_Atomic at;
            SIM_CHECK(finalizing, "finalizer", "a finalizer ran before finalization");
            SIM_CHECK(++held[k].ran == 1, "finalizer", "a finalizer ran %u times", held[k].ran);
        }
        put(held[k].it);
        if(sim_chance(1, 4)) {
            hold();
            sim_probe("registered by a finalizer");
        }
    });
}

static void worker(u64 ops, bool frames, bool last = false) {
    bool in_frame = false;
    if(!last && sim_chance(1, 4)) owner().take();
    for(u64 i = 0; i < ops; i++) {
        switch(sim_work(frames ? 10 : 9)) {
        case 0:
        case 1:
        case 2: {
            Item it = get(static_cast<u32>(sim_work(4)), some_size());
            Sim_Atomic at;
            if(n_items >= ITEMS) sim_violation("internal:items", "scenario ran out of items");
            items[n_items++] = it;
        } break;
        case 3:
        case 4: {
            Item it{null, 0, 0};
            {
                Sim_Atomic at;
                if(n_items) {
                    u64 k = sim_work(n_items);
                    it = items[k];
                    items[k] = items[--n_items];
                }
            }
            put(it);
        } break;
        case 5: { // freeing null frees nothing
            if(sim_chance(1, 2)) {
                Mdefault::free(null);
                M0::free(null);
                sys_free(null);
            }
            // The same block comes back at once.
            u32 a = static_cast<u32>(sim_work(4));
            Item it = get(a, 40);
            put(it);
            it = get(static_cast<u32>(sim_work(4)), 40);
            put(it);
        } break;
        case 6: {
            Vec<u64, Mdefault> v;
            u64 k = sim_work(40);
            for(u64 q = 0; q < k; q++) v.push(u64{q});
            Box<u64, Mpool> b{u64{3}};
            switch(sim_work(8)) {
            case 0: pool_use<7>(0); break;
            case 1: pool_use<24>(1); break;
            case 2: pool_use<130>(2); break;
            case 3: pool_use<1002>(3); break;
            default: break;
            }
            Region(R) {
                Vec<u8, Mregion<R>> r;
                for(u64 q = 0; q < 30 * k; q++) r.push(u8{1});
            }
        } break;
        case 7: dawdle(); break;
        case 8:
            if(use_held) hold();
            break;
        default:
            if(in_frame) Profile::end_frame();
            else (void)Profile::begin_frame();
            in_frame = !in_frame;
            break;
        }
    }
    if(in_frame && (last || !sim_chance(1, 3))) Profile::end_frame(); // or the thread exits in the middle
}
static void quiet(const char* when) {
    Sim_Atomic a;
    SIM_CHECK(sys_net_allocs() == static_cast<i64>(sim_heap_live()), "net-count", "%s: sys_net_allocs is %lld, %llu system allocations are live", when, (long long)sys_net_allocs(), (ull)sim_heap_live());
}
// ---- the report ----------------------------------------------------------------------------
static bool leak, said_balanced, said_unbalanced, said_region_balanced, said_depth_balanced;
static i64 region_bytes, region_allocs, region_depth, said_region, said_depth;
static i64 said_net, expected_live;
static int current = -1;

static bool has(const char* s, u64 n, const char* what, u64& end) {
    u64 m = 0;
    while(what[m]) m++;
    for(u64 i = 0; i + m <= n; i++) {
        u64 k = 0;
        while(k < m && s[i + k] == what[k]) k++;
        if(k == m) {
            end = i + m;
            return true;
        }
    }
    return false;
}
static i64 number(const char* s, u64 n, u64 at) {
    while(at < n && (s[at] == ' ' || s[at] == ':')) at++;
    bool neg = at < n && s[at] == '-';
    if(neg) at++;
    i64 v = 0;
    if(at >= n || s[at] < '0' || s[at] > '9') sim_violation("report", "a report line has no number: %.*s", (int)n, s);
    while(at < n && s[at] >= '0' && s[at] <= '9') v = v * 10 + (s[at++] - '0');
    return neg ? -v : v;
}
// Standard output, line by line (a subscriber would itself be memory in use).
static void heard_line(const char* s, u64 n) {
    u64 e = 0;
    bool warned = has(s, n, "[warn/", e);
    if(has(s, n, "[fatal/", e)) return;
    if(!finalizing) {
        if(warned) sim_violation("false-warning", "%.*s", (int)n, s);
        return;
    }
    if(has(s, n, "Allocation stats for [", e)) {
        current = -1;
        for(int i = 0; i < 4; i++) {
            u64 f;
            if(has(s, n, acc[i].name, f) && f < n && s[f] == ']') {
                current = i;
                acc[i].reports++;
            }
        }
        for(u64 i = 0; i < POOLS; i++) {
            u64 f;
            if(has(s, n, pools[i].name, f) && f < n && s[f] == ']') {
                current = 10 + static_cast<int>(i);
                pools[i].reports++;
            }
        }
        if(current < 0) current = 100;
        return;
    }
    Account other{};
    Account& c = current >= 0 && current < 4 ? acc[current] : current >= 10 && current < 10 + static_cast<int>(POOLS) ? pools[current - 10] : other;
    if(has(s, n, "Unbalanced allocations", e)) said_unbalanced = true, said_net = number(s, n, e);
    else if(has(s, n, "No memory leaked", e)) said_balanced = true;
    else if(has(s, n, "No region memory leaked", e)) said_region_balanced = true;
    else if(has(s, n, "No regions leaked", e)) said_depth_balanced = true;
    else if(has(s, n, "Unbalanced region size", e)) said_region = number(s, n, e);
    else if(has(s, n, "Unbalanced regions", e)) said_depth = number(s, n, e);
    else if(has(s, n, "Memory leaked", e)) {
        SIM_CHECK(leak, "leak-verdict", "a leak is reported although everything was freed");
    } else if(has(s, n, "Allocs", e)) c.r_allocs = number(s, n, e);
    else if(has(s, n, "Frees", e)) c.r_frees = number(s, n, e);
    else if(has(s, n, "High water", e)) c.r_high = number(s, n, e);
    else if(has(s, n, "Alloc size", e)) c.r_asize = number(s, n, e);
    else if(has(s, n, "Free size", e)) c.r_fsize = number(s, n, e);
    else if(has(s, n, "Unbalanced size", e)) {
        c.r_unbalanced = number(s, n, e);
        SIM_CHECK(leak || &c != &other, "false-warning", "an allocator that freed everything is reported unbalanced by %lld bytes", (long long)c.r_unbalanced);
    } else if(warned) sim_violation("false-warning", "%.*s", (int)n, s);
}
static u64 heard_bytes;
static void hear() {
    Sim_Atomic a;
    const char* s = sim_stdout_data();
    u64 n = sim_stdout_size();
    while(heard_bytes < n) {
        u64 e = heard_bytes;
        while(e < n && s[e] != '\n') e++;
        if(e == n) return;
        heard_line(s + heard_bytes, e - heard_bytes);
        heard_bytes = e + 1;
    }
}
static void judge() {
    hear();
    for(int i = 0; i < 3; i++) {
        Account& c = acc[i];
        if(!c.allocs) {
            SIM_CHECK(c.reports == 0 || c.r_allocs == 0, "report", "[%s] reports %lld allocations, there were none", c.name, (long long)c.r_allocs);
            continue;
        }
        SIM_CHECK(c.reports == 1, "report", "[%s] is reported %u times", c.name, c.reports);
        SIM_CHECK(c.r_allocs == c.allocs, "report", "[%s] reports %lld allocations, there were %lld", c.name, (long long)c.r_allocs, (long long)c.allocs);
        SIM_CHECK(c.r_frees == c.frees, "report", "[%s] reports %lld frees, there were %lld", c.name, (long long)c.r_frees, (long long)c.frees);
        SIM_CHECK(c.r_asize == c.asize, "report", "[%s] reports %lld allocated bytes, there were %lld", c.name, (long long)c.r_asize, (long long)c.asize);
        SIM_CHECK(c.r_fsize == c.fsize, "report", "[%s] reports %lld freed bytes, there were %lld", c.name, (long long)c.r_fsize, (long long)c.fsize);
        SIM_CHECK(c.r_high >= c.high_low && c.r_high <= c.high_up, "report", "[%s] reports a high-water mark of %lld bytes, it was %lld to %lld", c.name, (long long)c.r_high, (long long)c.high_low, (long long)c.high_up);
        SIM_CHECK(c.r_unbalanced == c.asize - c.fsize, "report", "[%s] reports %lld unbalanced bytes, there are %lld", c.name, (long long)c.r_unbalanced, (long long)(c.asize - c.fsize));
    }
    for(u64 i = 0; i < POOLS; i++) {
        Account& c = pools[i];
        SIM_CHECK(c.reports == (c.allocs ? 1u : 0u), "report", "[%s] is reported %u times, and had %lld objects", c.name, c.reports, (long long)c.allocs);
        if(!c.allocs) continue;
        SIM_CHECK(c.r_allocs > 0 && c.r_frees == c.r_allocs, "report", "[%s] reports %lld blocks allocated and %lld freed for %lld objects", c.name, (long long)c.r_allocs, (long long)c.r_frees, (long long)c.allocs);
        SIM_CHECK(c.r_asize >= static_cast<i64>(pool_size[i]) && c.r_fsize == c.r_asize && c.r_high > 0 && c.r_high <= c.r_asize && !c.r_unbalanced, "report", "[%s] reports %lld bytes allocated, %lld freed, %lld at once, for %lld blocks", c.name, (long long)c.r_asize, (long long)c.r_fsize, (long long)c.r_high, (long long)c.r_allocs);
        sim_probe("pool reported");
    }
    SIM_CHECK(said_region >= region_bytes && said_region <= region_bytes + 16 * region_allocs && said_region_balanced == !region_allocs, "region-verdict", "the report says that %lld bytes are left in regions (none: %d), there are %lld in %lld allocations", (long long)said_region, said_region_balanced, (long long)region_bytes, (long long)region_allocs);
    SIM_CHECK(said_depth == region_depth && said_depth_balanced == !region_depth, "region-verdict", "the report says that %lld regions are open (none: %d), there are %lld", (long long)said_depth, said_depth_balanced, (long long)region_depth);
    for(u64 k = 0; k < n_held; k++) SIM_CHECK(held[k].ran == 1, "finalizer", "a finalizer ran %u times", held[k].ran);
    if(n_held) sim_probe("finalizers ran");
    if(region_depth) sim_probe("finalized within a region");
    SIM_CHECK(acc[3].reports == 0, "report", "an allocator that does not log is reported");
}
static void shutdown() {
    finalizing = true;
    Profile::finalize();
    SIM_CHECK(!leak, "leak-verdict", "finalization returned although %llu allocations were left", (ull)live_items);
    judge();
    SIM_CHECK(said_balanced && !said_unbalanced, "leak-verdict", "finalization did not say that nothing was leaked");
    quiet("after shutdown");
}
static void shutdown_within(u64 depth) {
    if(!depth) return shutdown();
    Region(R) {
        region_depth++;
        if(sim_chance(1, 2)) { // little enough for the memory every thread starts with
            u64 n = 1 + sim_work(60);
            (void)Mregion<R>::alloc(n);
            region_allocs++;
            region_bytes += static_cast<i64>(n);
        }
        shutdown_within(depth - 1);
    }
}
void scenario() {
    sim_watch_heap("heap memory");
    sim_heap_reuse(static_cast<int>(sim_work(3) != 0));
    sim_on_exit([](int how, int code) {
        if(!finalizing) sim_violation("fatal-error", "the process stopped (%d, %d)", how, code);
        SIM_CHECK(leak, "leak-verdict", "finalization stopped the process although everything was freed");
        SIM_CHECK(how == 0 && code != 0, "leak-verdict", "finalization with a leak ended with (%d, %d)", how, code);
        judge();
        SIM_CHECK(said_unbalanced && !said_balanced && said_net == expected_live, "leak-verdict", "the report says %lld allocations are left, there are %lld", (long long)said_net, (long long)expected_live);
        sim_probe("leak reported");
        sim_pass();
    });
    quiet("at the start");
    use_held = sim_chance(1, 3);
    u64 phases = 1 + sim_work(3);
    bool frames = sim_chance(1, 2);
    for(u64 p = 0; p < phases; p++) {
        {
            u64 n = sim_work(4);
            Vec<T_, Mhidden> ts;
            for(u64 i = 0; i < n; i++) ts.push(T_{[ops = 2 + sim_work(18), frames]() { worker(ops, frames); }});
            worker(2 + sim_work(20), frames, true);
        }
        quiet("after all threads ended");
    }
    leak = sim_chance(1, 3);
    while(n_items && (!leak || sim_chance(2, 3))) put(items[--n_items]);
    if(!leak || live_items == held_live) {
        while(n_items) put(items[--n_items]);
        leak = false;
    }
    quiet("before shutdown");
    expected_live = static_cast<i64>(live_items - held_live);
    hear();
    if(!leak && !use_held && sim_chance(1, 3)) {
        // The process may also just exit.
        if(sim_chance(1, 2)) owner().take();
        while(sim_chance(2, 3)) static_owner.take();
        sim_at_end([]() {
            quiet("when the main thread's data is gone");
            sim_run_atexit();
            SIM_CHECK(live_items == 0, "internal:items", "a destructor did not run");
            hear();
            quiet("after static objects were destroyed");
            sim_probe("no shutdown");
        });
        return;
    }
    shutdown_within(sim_chance(1, 4) ? 1 + sim_work(4) : 0);
}
