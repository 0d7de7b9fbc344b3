// Mpool: never hands out a live block; blocks are reused, ordered, and returned at shutdown.
#include "common.h"
#include <rpp/box.h>

// Storage in use, by address.
struct Live {
    const u8* p;
    u64 n, serial;
};
constexpr u64 MAX = 256;
static Live live[MAX];
static u64 n_live, serial, constructed, destroyed;
static bool over; // constructors and destructors may no longer run

static void born(const void* ptr, u64 n) {
    Sim_Atomic a;
    SIM_CHECK(!over, "after-the-end", "a constructor ran after shutdown");
    const u8* p = static_cast<const u8*>(ptr);
    for(u64 i = 0; i < n_live; i++)
        if(p < live[i].p + live[i].n && live[i].p < p + n) sim_violation("overlap", "an object of %llu bytes was made in storage that a live object of %llu bytes occupies", (ull)n, (ull)live[i].n);
    if(n_live >= MAX) sim_violation("internal:live", "scenario ran out of objects");
    live[n_live++] = {p, n, ++serial};
    constructed++;
}
static void died(const void* ptr, u64 n) {
    Sim_Atomic a;
    for(u64 i = 0; i < n_live; i++)
        if(live[i].p == ptr && live[i].n == n) {
            live[i] = live[--n_live];
            destroyed++;
            return;
        }
    sim_violation("dead-object", "the destructor of an object of %llu bytes ran although no object is alive there", (ull)n);
}
// Per size: blocks handed out at once, and every block ever seen.
struct Class {
    u64 size, in_flight, peak, blocks;
    const void* seen[MAX];
};
static Class classes[16];
static Class& class_of(u64 n) {
    for(u64 i = 0;; i++) {
        if(i == 16) sim_violation("internal:classes", "scenario ran out of sizes");
        if(classes[i].size == n) return classes[i];
        if(!classes[i].size) {
            classes[i].size = n;
            return classes[i];
        }
    }
}
template<u64 N, u64 K, u64 A>
struct alignas(A) Obj {
    u8 data[N];
    explicit Obj(u8 seed) noexcept {
        born(this, sizeof(Obj));
        for(u64 i = 0; i < N; i++) data[i] = static_cast<u8>(seed + i * 7);
    }
    Obj(const Obj&) = delete;
    ~Obj() noexcept {
        died(this, sizeof(Obj));
        for(u64 i = 0; i < N; i++) data[i] = 0xcc;
    }
    void expect(u8 seed) const {
        for(u64 i = 0; i < N; i++)
            if(data[i] != static_cast<u8>(seed + i * 7)) sim_violation("overwritten", "byte %llu of a live %llu-byte object changed", (ull)i, (ull)N);
    }
};
// Holds a value that is moved in, and must be destroyed once.
struct Holder {
    Tok tok;
    u64 pad[3];
    explicit Holder(Tok&& t) noexcept : tok(rpp::move(t)), pad{1, 2, 3} {
        born(this, sizeof(Holder));
    }
    ~Holder() noexcept {
        died(this, sizeof(Holder));
        tok.check("use");
        if(!tok.ok()) sim_violation("wrong-value", "an argument of make did not arrive");
    }
};
// An object somewhere, with the function that ends it.
struct Any {
    void* p = null;
    u8 seed = 0;
    void (*verify)(void*, u8) = null;
    void (*destroy)(void*) = null;
};
template<typename T, typename F>
static T* counted_make(F f) {
    {
        Sim_Atomic a;
        Class& c = class_of(sizeof(T));
        c.in_flight++;
        if(c.in_flight > c.peak) c.peak = c.in_flight;
    }
    T* p = f();
    Sim_Atomic a;
    Class& c = class_of(sizeof(T));
    SIM_CHECK(p && reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "misaligned", "make returned %p for a type aligned to %llu", static_cast<void*>(p), (ull)alignof(T));
    bool seen = false;
    for(u64 i = 0; i < c.blocks; i++) seen = seen || c.seen[i] == p;
    if(!seen) {
        if(c.blocks >= MAX) sim_violation("internal:seen", "scenario ran out of blocks");
        c.seen[c.blocks++] = p;
        // (A pool may keep a spare or two.)
        SIM_CHECK(c.blocks <= c.peak + 2, "not-reused", "%llu different blocks of %llu bytes were taken, but at most %llu objects were there at once", (ull)c.blocks, (ull)c.size, (ull)c.peak);
        SIM_CHECK(sim_heap_live_at(p), "bad-storage", "make returned storage that is not allocated");
        // From now on every access to it must be ordered with the others.
        sim_watch(p, sizeof(T), "a pool block");
    } else sim_probe("reused");
    return p;
}
template<typename T>
static void counted_destroy(void* p) {
    u64 n;
    {
        Sim_Atomic a;
        n = destroyed;
    }
    (void)n;
    Mpool::destroy(static_cast<T*>(p));
    Sim_Atomic a;
    class_of(sizeof(T)).in_flight--;
    for(u64 i = 0; i < n_live; i++)
        if(live[i].p == p && live[i].serial == 0) sim_violation("internal:live", "unreachable");
}
template<typename T>
static Any of(u8 seed) {
    T* p = counted_make<T>([seed]() { return Mpool::make<T>(seed); });
    p->expect(seed);
    return Any{p, seed, [](void* q, u8 s) { static_cast<T*>(q)->expect(s); }, counted_destroy<T>};
}
// Makes further objects while it is constructed and destroys them while it is destroyed.
struct Nest {
    Nest* inner = null;
    Obj<24, 0, 8>* other = null;
    u64 depth;
    explicit Nest(u64 d) noexcept : depth(d) {
        born(this, sizeof(Nest));
        if(d) inner = counted_make<Nest>([d]() { return Mpool::make<Nest>(d - 1); });
        if(d & 1) other = counted_make<Obj<24, 0, 8>>([d]() { return Mpool::make<Obj<24, 0, 8>>(static_cast<u8>(d)); });
    }
    ~Nest() noexcept {
        expect();
        if(inner) counted_destroy<Nest>(inner);
        if(other) counted_destroy<Obj<24, 0, 8>>(other);
        died(this, sizeof(Nest));
    }
    void expect() const {
        SIM_CHECK(!inner == !depth && !other == !(depth & 1), "overwritten", "an object that holds others changed");
        if(other) other->expect(static_cast<u8>(depth));
        if(inner) inner->expect();
    }
};
static Any make_any() {
    u8 seed = static_cast<u8>(1 + sim_work(250));
    switch(sim_work(14)) {
    case 12: return sim_chance(1, 2) ? of<Obj<4096, 0, 8>>(seed) : of<Obj<10000, 0, 16>>(seed);
    case 11: {
        u64 d = sim_work(4);
        Nest* h = counted_make<Nest>([d]() { return Mpool::make<Nest>(d); });
        sim_probe("object that makes objects");
        return Any{h, 0, [](void* q, u8) { static_cast<Nest*>(q)->expect(); }, counted_destroy<Nest>};
    }
    case 0: return of<Obj<1, 0, 1>>(seed);
    case 1: return of<Obj<8, 0, 8>>(seed);
    case 2: return of<Obj<8, 1, 4>>(seed); // another type of the same size
    case 3: return of<Obj<12, 0, 4>>(seed);
    case 4: return of<Obj<16, 0, 16>>(seed);
    case 5: return of<Obj<24, 0, 8>>(seed);
    case 6: return of<Obj<48, 0, 16>>(seed);
    case 7: return of<Obj<7, 0, 1>>(seed);
    case 8: return of<Obj<1000, 0, 8>>(seed);
    case 9:
    case 10: {
        Holder* h = counted_make<Holder>([]() { return Mpool::make<Holder>(Tok::fresh()); });
        return Any{h, 0, [](void* q, u8) { static_cast<Holder*>(q)->tok.check("use"); }, counted_destroy<Holder>};
    }
    default: return of<Obj<24, 1, 8>>(seed);
    }
}
// Objects change hands here.
static Thread::Mutex* mut;
static Vec<Any, Mhidden>* basket;

static void worker(u64 ops) {
    Any mine[6];
    u64 n = 0;
    for(u64 i = 0; i < ops; i++) {
        switch(sim_work(6)) {
        case 0:
        case 1:
            if(n < 6) mine[n++] = make_any();
            break;
        case 2:
            if(n) {
                u64 k = sim_work(n);
                mine[k].verify(mine[k].p, mine[k].seed);
                mine[k].destroy(mine[k].p);
                mine[k] = mine[--n];
            }
            break;
        case 3:
            if(n) {
                Thread::Lock l(*mut);
                basket->push(Any{mine[--n]});
            }
            break;
        case 4:
            if(n < 6) {
                Thread::Lock l(*mut);
                if(!basket->empty()) {
                    mine[n++] = basket->back();
                    basket->pop();
                    sim_probe("changed hands");
                }
            }
            break;
        default:
            for(u64 k = 0; k < n; k++) mine[k].verify(mine[k].p, mine[k].seed);
            dawdle();
            break;
        }
    }
    for(u64 k = 0; k < n; k++) {
        mine[k].verify(mine[k].p, mine[k].seed);
        mine[k].destroy(mine[k].p);
    }
}
// The free list underneath, with its owner moving about: a block is in one list or in use, never both.
static void lists() {
    using List = Free_List<Holder, Mhidden>;
    Vec<Holder*, Mhidden> used;
    used.reserve(64); // counted below as it is now
    i64 net = sys_net_allocs();
    u64 peak = 0, cleared = 0, ops = 4 + sim_work(40);
    {
        List l[3];
        for(u64 i = 0; i < ops; i++) {
            List& a = l[sim_work(3)];
            List& b = l[sim_work(3)];
            switch(sim_work(8)) {
            case 0:
            case 1:
            case 2:
                if(used.length() < 64) {
                    used.push(a.make(Tok::fresh()));
                    if(used.length() > peak) peak = used.length();
                }
                break;
            case 3:
            case 4:
                if(!used.empty()) {
                    u64 k = sim_work(used.length());
                    a.destroy(used[k]);
                    used[k] = used.back();
                    used.pop();
                }
                break;
            case 5: {
                List t{rpp::move(a)};
                if(sim_chance(1, 2)) used.length() < 64 ? used.push(t.make(Tok::fresh())), 0 : 0;
                b = rpp::move(t);
                sim_probe("free list moved");
            } break;
            case 6:
                if(&a != &b) a = rpp::move(b);
                break;
            default:
                if(sim_chance(1, 3)) {
                    a.clear();
                    cleared++;
                }
                break;
            }
            for(auto* h : used) h->tok.check("use");
        }
        i64 held = sys_net_allocs() - net;
        SIM_CHECK(held >= static_cast<i64>(used.length()), "bad-storage", "%lld blocks for %llu objects", (long long)held, (ull)used.length());
        while(!used.empty()) {
            l[0].destroy(used.back());
            used.pop();
        }
    }
    SIM_CHECK(sys_net_allocs() == net, "never-returned", "%lld blocks are left after their free lists", (long long)(sys_net_allocs() - net));
    SIM_CHECK(n_live == 0 && constructed == destroyed, "never-destroyed", "%llu objects were constructed, %llu destroyed", (ull)constructed, (ull)destroyed);
    tokens_all_dead("every object was destroyed");
}
static bool finalizing;
void scenario() {
    if(sim_chance(1, 20)) {
        sim_watch_heap("heap memory");
        sim_heap_reuse(static_cast<int>(sim_work(2)));
        warm_up();
        lists();
        return;
    }
    sim_watch_heap("heap memory");
    sim_heap_reuse(static_cast<int>(sim_work(2)));
    sim_on_exit([](int how, int code) {
        (void)how;
        (void)code;
        sim_violation("leak-reported", finalizing ? "finalization stopped the process although every object was destroyed" : "the process stopped");
    });
    Thread::Mutex m;
    mut = &m;
    u64 blocks_before = 0;
    {
        Vec<Any, Mhidden> b;
        basket = &b;
        {
            Vec<T_, Mhidden> ts;
            u64 n = sim_work(4);
            for(u64 i = 0; i < n; i++) ts.push(T_{[ops = 2 + sim_work(16)]() { worker(ops); }});
            worker(2 + sim_work(24));
        }
        for(auto& x : b) {
            x.verify(x.p, x.seed);
            x.destroy(x.p);
        }
        {
            // Also as the storage of a Box.
            Box<Obj<24, 0, 8>, Mpool> box{u8{3}};
            box->expect(3);
        }
    }
    SIM_CHECK(n_live == 0 && constructed == destroyed, "never-destroyed", "%llu objects were constructed, %llu destroyed", (ull)constructed, (ull)destroyed);
    tokens_all_dead("every object was destroyed");
    for(auto& c : classes)
        for(u64 i = 0; i < c.blocks; i++) {
            SIM_CHECK(sim_heap_live_at(c.seen[i]), "returned-early", "a block of %llu bytes was returned before shutdown", (ull)c.size);
            sim_unwatch(c.seen[i]);
            blocks_before++;
        }
    // Shutdown: what was taken from the system goes back.
    over = true;
    if(sim_chance(1, 4)) {
        // Or the process just exits.
        sim_at_end([]() {
            sim_run_atexit();
            sim_probe("no shutdown");
        });
        return;
    }
    finalizing = true;
    Profile::finalize();
    for(auto& c : classes)
        for(u64 i = 0; i < c.blocks; i++) SIM_CHECK(!sim_heap_live_at(c.seen[i]), "never-returned", "a block of %llu bytes was not returned at shutdown", (ull)c.size);
    SIM_CHECK(sys_net_allocs() == 0, "never-returned", "%lld allocations are left after shutdown", (long long)sys_net_allocs());
    sim_run_atexit(); // nothing is freed a second time by static destructors
    if(blocks_before > 8) sim_probe("many blocks");
}
