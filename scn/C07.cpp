// Shared ownership: the object lives until its last reference drops and then dies exactly once.
#include "common.h"
#include <rpp/alloc1.h>

struct Obj {
    Tok tok;
    u64 words[4];
    u32 slot;
    Obj() = default;
    explicit Obj(u32 s) : tok(Tok::fresh()), words{1, 2, 3, 4}, slot(s) {
    }
    ~Obj();
};
constexpr u32 SLOTS = 4;
struct Slot {
    i64 refs;   // oracle: references that certainly exist
    u32 deaths;
    void* addr;
    bool born;
};
static Slot slots[SLOTS];
Obj::~Obj() {
    Sim_Atomic a;
    Slot& s = slots[slot];
    SIM_CHECK(s.refs == 0, "died-early", "the object died while %lld references existed", (long long)s.refs);
    SIM_CHECK(++s.deaths == 1, "died-twice", "the object died twice");
    for(u64 i = 0; i < 4; i++) {
        sim_touch(&words[i], 8, 1); // must come after every holder's accesses
    }
}

template<typename A>
struct Holder {
    using R = Arc<Obj, A>;
    R r[3];
    u32 has[3] = {}; // slot + 1

    void take(u32 i, R&& v, u32 slot) { // assignment over a (maybe live) reference
        if(has[i]) lose(has[i] - 1);
        r[i] = rpp::move(v);
        has[i] = slot + 1;
    }
    static void gain(u32 s) {
        Sim_Atomic a;
        slots[s].refs++;
    }
    static void lose(u32 s) { // called before the reference is dropped
        Sim_Atomic a;
        slots[s].refs--;
    }
    void use(u32 i) {
        if(!has[i]) {
            SIM_CHECK(!r[i].ok() && r[i].references() == 0, "not-empty", "a cleared or moved-from reference still owns something");
            return;
        }
        R& x = r[i];
        Slot& s = slots[has[i] - 1];
        SIM_CHECK(&*x == s.addr, "moved-object", "the object changed its address");
        x->tok.check("use");
        u64 k = sim_work(4);
        u64 v = x->words[k];
        SIM_CHECK(v == k + 1, "corrupt-object", "word %llu of a live object is %llx", (ull)k, (ull)v);
        Sim_Atomic a;
        SIM_CHECK(s.deaths == 0, "died-early", "the object died although this thread holds a reference");
    }
};
template<typename A>
static void thread_body(Holder<A>& h, u64 ops) {
    using R = Arc<Obj, A>;
    for(u64 n = 0; n < ops; n++) {
        u32 i = static_cast<u32>(sim_work(3)), j = static_cast<u32>(sim_work(3));
        switch(sim_work(7)) {
        case 0:
            if(h.has[i] && i != j) {
                u32 s = h.has[i] - 1;
                R d = h.r[i].dup();
                Holder<A>::gain(s);
                h.take(j, rpp::move(d), s);
                SIM_CHECK(!d.ok(), "not-empty", "a moved-from reference still owns something");
                sim_probe("dup");
            }
            break;
        case 1:
            if(h.has[i] && i != j) {
                u32 s = h.has[i] - 1;
                R d = R::from_this(&*h.r[i]);
                Holder<A>::gain(s);
                h.take(j, rpp::move(d), s);
                sim_probe("from_this");
            }
            break;
        case 2:
            if(h.has[i] && i != j) {
                u32 s = h.has[i] - 1;
                if(h.has[j]) Holder<A>::lose(h.has[j] - 1);
                h.r[j] = rpp::move(h.r[i]);
                h.has[j] = s + 1;
                h.has[i] = 0;
                sim_probe("move assignment");
            }
            break;
        case 3:
            if(h.has[i]) {
                Holder<A>::lose(h.has[i] - 1);
                h.has[i] = 0;
                h.r[i].clear();
            }
            break;
        case 4: { // a reference on the stack
            if(h.has[i]) {
                u32 s = h.has[i] - 1;
                R d = h.r[i].dup();
                Holder<A>::gain(s);
                dawdle();
                R e{rpp::move(d)};
                SIM_CHECK(e.ok() && !d.ok() && d.references() == 0, "not-empty", "move construction left the source owning");
                Holder<A>::lose(s);
            }
        } break;
        case 5: {
            // dup of an empty reference is empty
            R none;
            R d = none.dup();
            SIM_CHECK(!d.ok() && d.references() == 0, "not-empty", "dup of an empty reference owns something");
            d.clear();
        } break;
        default: h.use(i); break;
        }
        if(sim_chance(1, 3)) h.use(static_cast<u32>(sim_work(3)));
    }
    for(u32 i = 0; i < 3; i++) {
        if(!h.has[i]) continue;
        Holder<A>::lose(h.has[i] - 1);
        h.has[i] = 0;
        if(sim_chance(1, 2)) h.r[i].clear();
        else h.r[i] = Arc<Obj, A>{};
    }
}
template<typename A>
static void go() {
    using R = Arc<Obj, A>;
    u64 nt = 2 + sim_work(3);
    u32 ns = 1 + static_cast<u32>(sim_work(2));
    Holder<A>* hs[5];
    for(u64 t = 0; t < nt; t++) hs[t] = new(Mhidden::alloc(sizeof(Holder<A>))) Holder<A>{};
    for(u32 s = 0; s < ns; s++) {
        R r = sim_chance(1, 2) ? R::make(s) : R{s};
        slots[s].addr = &*r;
        slots[s].born = true;
        slots[s].refs = 1;
        sim_watch(&r->words, sizeof(r->words), "the shared object");
        for(u64 t = 0; t < nt; t++)
            if(sim_chance(4, 5)) {
                slots[s].refs++;
                hs[t]->take(static_cast<u32>(sim_work(2)) + (s ? 1 : 0), r.dup(), s);
            }
        {
            // Quiet moment: the count is exact.
            Sim_Atomic a;
            SIM_CHECK(r.references() == static_cast<u64>(slots[s].refs), "references", "references() is %llu, %lld exist", (ull)r.references(), (long long)slots[s].refs);
        }
        Holder<A>::lose(s);
        if(sim_chance(1, 2)) r.clear();
    }
    {
        Vec<T_, Mhidden> ts;
        for(u64 t = 0; t < nt; t++) {
            u64 ops = 1 + sim_work(8);
            ts.push(T_{[h = hs[t], ops]() { thread_body<A>(*h, ops); }});
        }
    }
    for(u64 t = 0; t < nt; t++) {
        hs[t]->~Holder<A>();
        Mhidden::free(hs[t]);
    }
    for(u32 s = 0; s < ns; s++) {
        SIM_CHECK(slots[s].refs == 0, "internal:refs", "oracle miscounted");
        SIM_CHECK(slots[s].deaths == 1, "never-died", "the object was never destroyed although no reference is left");
    }
    tokens_all_dead("no reference is left");
}
// One reference shared by several threads which duplicate it (or its object) at the same time;
// what they made may outlive it. The count is exact whenever no operation is in progress.
template<typename A>
static void shared_one() {
    using R = Arc<Obj, A>;
    u64 nt = 2 + sim_work(3);
    slots[0].refs = 1;
    R r = sim_chance(1, 2) ? R::make(0u) : R{0u};
    Obj* obj = &*r;
    slots[0].addr = obj;
    slots[0].born = true;
    sim_watch(&r->words, sizeof(r->words), "the shared object");
    R* kept[4] = {};
    u64 n_kept = 0;
    {
        const R& cr = r;
        Vec<T_, Mhidden> ts;
        for(u64 t = 0; t < nt; t++) {
            u64 how = sim_work(3);
            if(how == 2) {
                kept[t] = new(Mhidden::alloc(sizeof(R))) R{};
                n_kept++;
            }
            ts.push(T_{[&cr, obj, how, k = kept[t]]() {
                dawdle();
                R d = how == 1 ? R::from_this(obj) : cr.dup();
                Holder<A>::gain(0);
                sim_probe(how == 1 ? "from_this of a shared object" : "dup of a shared reference");
                SIM_CHECK(d.ok() && &*d == obj, "wrong-object", "a duplicate refers to another object");
                SIM_CHECK(d->words[2] == 3, "corrupt-object", "word 2 of a live object is %llx", (ull)d->words[2]);
                if(how == 2) {
                    *k = rpp::move(d);
                    SIM_CHECK(!d.ok(), "not-empty", "a moved-from reference still owns something");
                    return; // kept
                }
                Holder<A>::lose(0);
            }});
        }
    }
    SIM_CHECK(r.references() == 1 + n_kept, "references", "references() is %llu with %llu references", (ull)r.references(), (ull)(1 + n_kept));
    // Moves of a lone or shared reference leave nothing behind and keep the count.
    R m{rpp::move(r)};
    SIM_CHECK(!r.ok() && r.references() == 0, "not-empty", "move construction left the source owning");
    SIM_CHECK(m.ok() && m.references() == 1 + n_kept, "references", "references() is %llu with %llu references after a move", (ull)m.references(), (ull)(1 + n_kept));
    r = rpp::move(m);
    SIM_CHECK(!m.ok() && m.references() == 0, "not-empty", "move assignment left the source owning");
    SIM_CHECK(r.ok() && r.references() == 1 + n_kept, "references", "references() is %llu with %llu references after a move", (ull)r.references(), (ull)(1 + n_kept));
    Holder<A>::lose(0);
    if(sim_chance(1, 2)) r.clear();
    else r = R{};
    SIM_CHECK(!r.ok() && r.references() == 0, "not-empty", "a cleared reference still owns something");
    {
        Vec<T_, Mhidden> ts; // the kept ones drop at the same time
        for(u64 t = 0; t < nt; t++)
            if(kept[t])
                ts.push(T_{[k = kept[t]]() {
                    dawdle();
                    SIM_CHECK((*k)->words[1] == 2, "corrupt-object", "word 1 of a live object is wrong");
                    Holder<A>::lose(0);
                    k->~R();
                }});
    }
    for(u64 t = 0; t < nt; t++)
        if(kept[t]) Mhidden::free(kept[t]);
    SIM_CHECK(slots[0].refs == 0, "internal:refs", "oracle miscounted");
    SIM_CHECK(slots[0].deaths == 1, "never-died", "the object was never destroyed although no reference is left");
    tokens_all_dead("no reference is left");
}
// A chain of objects that own one another, walked by assignment from within: the source of the
// assignment lives in the object that dies by it.
template<typename A>
struct Link {
    Tok tok = Tok::fresh();
    u64 id;
    Arc<Link, A> next;
    explicit Link(u64 id) : id(id) {
    }
};
template<typename A>
static void chain() {
    using L = Link<A>;
    using R = Arc<L, A>;
    u64 n = 1 + sim_work(6);
    Vec<T_, Mhidden> ts;
    {
        R head;
        R keep;
        u64 kept = sim_work(n + 1);
        for(u64 i = n; i-- > 0;) {
            R l = R::make(i);
            l->next = rpp::move(head);
            if(i == kept) keep = l.dup();
            head = rpp::move(l);
        }
        auto walk = [](R h, u64 at, u64 n) {
            for(;;) {
                if(sim_chance(1, 4)) {
                    R& same = h;
                    h = rpp::move(same);
                    SIM_CHECK(h.ok(), "lost-reference", "assigning a reference to itself lost it");
                    sim_probe("self-move");
                }
                SIM_CHECK(h->id == at, "wrong-object", "link %llu found where %llu should be", (ull)h->id, (ull)at);
                h->tok.check("use");
                if(++at == n) break;
                if(h.references() == 1) {
                    h = rpp::move(h->next);
                    sim_probe("moved out of a dying object");
                } else {
                    R d = h->next.dup();
                    h = rpp::move(d);
                }
                SIM_CHECK(h.ok(), "lost-reference", "a reference moved out of a dying object is gone");
            }
        };
        // A second walker starts in the middle, at the same time.
        if(keep.ok()) {
            ts.push(T_{[walk, keep = rpp::move(keep), kept, n]() mutable { walk(rpp::move(keep), kept, n); }});
        }
        // Others make and drop such objects meanwhile.
        u64 makers = sim_work(3);
        for(u64 m = 0; m < makers; m++) {
            ts.push(T_{[k = 1 + sim_work(6)]() {
                for(u64 i = 0; i < k; i++) {
                    R a = R::make(900 + i);
                    a->next = R::make(800 + i);
                    dawdle();
                    SIM_CHECK(a->id == 900 + i && a->next.ok() && a->next->id == 800 + i && a->next.references() == 1, "corrupt-object", "an object nobody else knows was changed");
                    if(sim_chance(1, 2)) a = rpp::move(a->next);
                }
            }});
        }
        walk(rpp::move(head), 0, n);
    }
    ts.clear();
    tokens_all_dead("no reference is left");
}
void scenario() {
    sim_watch_heap("heap memory");
    warm_up();
    i64 net = sys_net_allocs();
    u64 k = sim_work(3);
    bool one = sim_chance(1, 3);
    if(sim_chance(1, 6)) {
        if(k == 0) chain<Mhidden>();
        if(k == 1) chain<Mdefault>();
        if(k == 2) chain<Mpool>();
        if(k != 2) SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
        return;
    }
    if(k == 0) one ? shared_one<Mhidden>() : go<Mhidden>();
    if(k == 1) one ? shared_one<Mdefault>() : go<Mdefault>();
    if(k == 2) one ? shared_one<Mpool>() : go<Mpool>();
    if(k != 2) SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
