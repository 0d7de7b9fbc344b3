// Range_Allocator: disjoint, aligned, coalescing, exact statistics, under concurrency and across moves.
#include "common.h"
#include <rpp/range_allocator.h>

struct Range_ {
    u64 start, offset, end; // occupied [start, end), usable [offset, end)
};
template<u64 Buckets, u64 Bias>
struct Test {
    using RA = Range_Allocator<Mhidden, Buckets, Bias>;
    using R = typename RA::Range;
    struct Live {
        R r;
        Range_ x;
    };
    static constexpr u64 MAX = 192;
    static inline Live live[MAX];
    static inline u64 n_live, capacity, total_allocs, total_frees, total_alloc_size, total_free_size, high, occupied;
    static inline u64 in_flight, in_free;
    static inline bool alone;
    static inline RA* ra;

    static inline u64 usual; // a size many ranges have in this run
    static u64 size() {
        if(usual && sim_chance(2, 3)) return usual + sim_work(3);
        switch(sim_work(10)) {
        case 0: return 1;
        case 1: return 1 + sim_work(16);
        case 2: return 255 + sim_work(3);
        case 3: return 1ull << sim_work(14);
        case 4: return capacity;
        case 5: return capacity / 2 + 1 + sim_work(3);
        case 6: return capacity + 1 + sim_work(5);
        case 7: return sim_chance(1, 4) ? ~0ull - sim_work(1000) : 1 + sim_work(capacity);
        default: return 1 + sim_work(capacity / 8 + 1);
        }
    }
    static u64 alignment() {
        switch(sim_work(8)) {
        case 0: return 1;
        case 1: return 1 + sim_work(20); // not only powers of two
        case 2: return sim_chance(1, 3) ? ~0ull - sim_work(40) : 3;
        case 3: return 256;
        case 4: return 1ull << sim_work(15);
        default: return 1ull << sim_work(10);
        }
    }
    static u64 aligned(u64 x, u64 a) {
        u64 r = x % a;
        if(!r) return x;
        return x + (a - r) < x ? ~0ull : x + (a - r);
    }
    // The largest thing that can be said about free space: the gaps between live ranges.
    static u64 gaps(u64 want, u64 align, bool& fits) {
        u64 order[MAX];
        for(u64 i = 0; i < n_live; i++) order[i] = i;
        for(u64 i = 1; i < n_live; i++)
            for(u64 j = i; j > 0 && live[order[j - 1]].x.start > live[order[j]].x.start; j--) {
                u64 t = order[j];
                order[j] = order[j - 1];
                order[j - 1] = t;
            }
        u64 at = 0, n = 0;
        fits = false;
        for(u64 i = 0; i <= n_live; i++) {
            u64 e = i < n_live ? live[order[i]].x.start : capacity;
            if(e > at) {
                n++;
                u64 o = want ? aligned(at, align) : 0;
                if(want && o <= e && e - o >= want) fits = true;
            }
            if(i < n_live) at = live[order[i]].x.end;
        }
        return n;
    }
    static void check_new(const Range_& x, u64 want, u64 align) {
        SIM_CHECK(x.end - x.offset >= want && x.end >= x.offset, "too-short", "asked for %llu bytes, got %llu", (ull)want, (ull)(x.end - x.offset));
        SIM_CHECK(x.offset % align == 0, "misaligned", "offset %llu is not aligned to %llu", (ull)x.offset, (ull)align);
        SIM_CHECK(x.start <= x.offset && x.end <= capacity, "out-of-bounds", "range [%llu, %llu) with %llu bytes of padding is not inside the heap of %llu", (ull)x.offset, (ull)x.end, (ull)(x.offset - x.start), (ull)capacity);
        for(u64 i = 0; i < n_live; i++)
            if(x.offset < live[i].x.end && live[i].x.offset < x.end)
                sim_violation("overlap", "range [%llu, %llu) overlaps the live range [%llu, %llu)", (ull)x.offset, (ull)x.end, (ull)live[i].x.offset, (ull)live[i].x.end);
    }
    static bool allocate(R& out) {
        u64 n = size(), a = alignment();
        bool fits = false, quiet;
        {
            Sim_Atomic at;
            in_flight++;
            quiet = alone;
            if(quiet) gaps(n, a, fits);
        }
        auto r = ra->allocate(n, a);
        Sim_Atomic at;
        in_flight--;
        if(!r.ok()) {
            SIM_CHECK(!quiet || !fits, "spurious-failure", "no %llu bytes aligned to %llu, although a free block would hold them", (ull)n, (ull)a);
            sim_probe("did not fit");
            return false;
        }
        SIM_CHECK(!quiet || fits, "invented", "%llu bytes aligned to %llu were found although no free block holds them", (ull)n, (ull)a);
        out = *r;
        Range_ x;
        x.offset = out->offset;
        x.start = x.offset - out->padding();
        x.end = x.offset + out->length();
        check_new(x, n, a);
        if(n_live >= MAX) sim_violation("internal:live", "scenario ran out of ranges");
        live[n_live++] = {out, x};
        total_allocs++;
        total_alloc_size += x.end - x.start;
        occupied += x.end - x.start;
        if(occupied > high) high = occupied;
        return true;
    }
    static void release(R r) {
        {
            Sim_Atomic at;
            u64 i = 0;
            while(i < n_live && live[i].r != r) i++;
            if(i == n_live) sim_violation("internal:live", "range not found");
            // The range says the same as when it was handed out.
            Range_& x = live[i].x;
            SIM_CHECK(r->offset == x.offset && r->padding() == x.offset - x.start && r->length() == x.end - x.offset, "changed", "a live range changed from [%llu, %llu) to [%llu, +%llu)", (ull)x.offset, (ull)x.end, (ull)r->offset, (ull)r->length());
            total_frees++;
            total_free_size += x.end - x.start;
            occupied -= x.end - x.start;
            live[i] = live[--n_live];
            in_flight++, in_free++;
        }
        ra->free(r);
        Sim_Atomic at;
        in_flight--, in_free--;
    }
    static void verify_stats(const char* when, bool exact_high) {
        auto s = ra->statistics();
        bool fits;
        u64 n = gaps(0, 1, fits), sum = 0;
        for(u64 i = 0; i < Buckets; i++) sum += s.bucket_sizes[i];
#define EQ(field, want)                                                                            \
    SIM_CHECK(s.field == (want), "statistics", "%s: " #field " is %llu, should be %llu", when, (ull)s.field, (ull)(want))
        EQ(total_capacity, capacity);
        EQ(allocated_blocks, n_live);
        EQ(allocated_size, occupied);
        EQ(free_size, capacity - occupied);
        EQ(total_allocs, total_allocs);
        EQ(total_frees, total_frees);
        EQ(total_alloc_size, total_alloc_size);
        EQ(total_free_size, total_free_size);
        EQ(free_blocks, n); // coalesced: one block per gap
        if(exact_high) EQ(high_water, high);
#undef EQ
        SIM_CHECK(s.high_water >= high && s.high_water <= capacity, "statistics", "%s: high_water is %llu, at least %llu were taken of %llu", when, (ull)s.high_water, (ull)high, (ull)capacity);
        SIM_CHECK(sum == n, "statistics", "%s: the buckets hold %llu blocks, there are %llu", when, (ull)sum, (ull)n);
    }
    // Statistics taken while other threads allocate and free are those of one moment.
    static void snapshot() {
        u64 allocs, frees;
        {
            Sim_Atomic at;
            allocs = total_allocs, frees = total_frees - in_free;
        }
        auto s = ra->statistics();
        Sim_Atomic at;
        u64 sum = 0;
        for(u64 i = 0; i < Buckets; i++) sum += s.bucket_sizes[i];
        SIM_CHECK(s.total_capacity == capacity && s.free_size + s.allocated_size == capacity, "statistics", "meanwhile: %llu bytes are free and %llu allocated of %llu", (ull)s.free_size, (ull)s.allocated_size, (ull)s.total_capacity);
        SIM_CHECK(s.total_allocs - s.total_frees == s.allocated_blocks && s.total_alloc_size - s.total_free_size == s.allocated_size, "statistics", "meanwhile: %llu allocations less %llu frees, but %llu blocks", (ull)s.total_allocs, (ull)s.total_frees, (ull)s.allocated_blocks);
        SIM_CHECK(sum == s.free_blocks && s.high_water >= s.allocated_size && s.high_water <= capacity, "statistics", "meanwhile: the buckets hold %llu blocks of %llu, the high-water mark is %llu with %llu allocated", (ull)sum, (ull)s.free_blocks, (ull)s.high_water, (ull)s.allocated_size);
        SIM_CHECK(s.total_allocs >= allocs && s.total_frees >= frees && s.total_frees <= total_frees, "statistics", "meanwhile: %llu allocations and %llu frees, although %llu and %llu had returned", (ull)s.total_allocs, (ull)s.total_frees, (ull)allocs, (ull)frees);
        if(in_flight) sim_probe("statistics while others allocate");
    }
    static void steps(u64 n, bool check) {
        R mine[24];
        u64 k = 0;
        for(u64 i = 0; i < n; i++) {
            switch(sim_work(check ? 5 : 6)) {
            case 5: snapshot(); break;
            case 0:
            case 1:
                if(k < 24 && allocate(mine[k])) k++;
                break;
            case 2:
            case 3:
                if(k) {
                    u64 j = sim_work(k);
                    release(mine[j]);
                    mine[j] = mine[--k];
                }
                break;
            default: dawdle(); break;
            }
            if(check) verify_stats("after a step", true);
        }
        while(k) {
            u64 j = sim_work(k);
            release(mine[j]);
            mine[j] = mine[--k];
            if(check) verify_stats("after a free", true);
        }
    }
    static void empty_source(RA& src) {
        auto s = src.statistics();
        u64 sum = 0;
        for(u64 i = 0; i < Buckets; i++) sum += s.bucket_sizes[i];
        SIM_CHECK(s.total_capacity == 0 && s.free_size == 0 && s.allocated_size == 0 && s.allocated_blocks == 0 && s.free_blocks == 0 && sum == 0, "source-not-empty", "a moved-from allocator reports a capacity of %llu, %llu free, %llu allocated", (ull)s.total_capacity, (ull)s.free_size, (ull)s.allocated_size);
        auto r = src.allocate(1, 1);
        SIM_CHECK(!r.ok(), "source-not-empty", "a moved-from allocator still hands out ranges");
    }
    static RA* fresh(u64 n) {
        void* p = Mhidden::alloc(sizeof(RA));
        return n ? new(p) RA{n} : new(p) RA{};
    }
    static void drop(RA* p) {
        p->~RA();
        Mhidden::free(p);
    }
    // Everything the allocator knows goes along.
    static void move() {
        RA* to;
        u64 kind = sim_work(4);
        if(kind == 0) {
            to = new(Mhidden::alloc(sizeof(RA))) RA{rpp::move(*ra)};
        } else {
            to = fresh(kind == 1 ? 0 : 1 + sim_work(1000));
            if(kind == 3) { // had a life of its own, now over
                auto a = to->allocate(1, 1);
                auto b = to->allocate(1, 1);
                if(a.ok()) to->free(*a);
                if(b.ok()) to->free(*b);
            }
            *to = rpp::move(*ra);
        }
        RA* from = ra;
        ra = to;
        empty_source(*from);
        verify_stats("after a move", false);
        if(sim_chance(1, 3)) { // and back again
            *from = rpp::move(*to);
            ra = from;
            empty_source(*to);
            verify_stats("after moving back", false);
            drop(to);
        } else drop(from);
        sim_probe("moved");
    }
    // Moved while another thread is allocating: what it was given belongs to one of the two, and the new owner has it.
    static void move_under_load() {
        capacity = 64 + sim_work(400);
        i64 net = sys_net_allocs();
        RA* src = fresh(capacity);
        R got[8];
        u64 n = 0, bytes = 0;
        RA* to = null;
        {
            T_ t{[&]() {
                for(u64 i = 0; i < 8; i++) {
                    auto r = src->allocate(1 + sim_work(8), 1);
                    if(r.ok()) {
                        got[n++] = *r;
                        bytes += (*r)->length() + (*r)->padding();
                    }
                    if(sim_chance(1, 2)) sim_yield();
                }
            }};
            if(sim_chance(1, 2)) dawdle();
            if(sim_chance(1, 2)) to = new(Mhidden::alloc(sizeof(RA))) RA{rpp::move(*src)};
            else {
                to = fresh(sim_chance(1, 2) ? 0 : 100);
                *to = rpp::move(*src);
            }
        }
        empty_source(*src);
        auto s = to->statistics();
        SIM_CHECK(s.total_capacity == capacity && s.allocated_blocks == n && s.allocated_size == bytes && s.total_allocs == n, "statistics", "moved while a thread allocated: %llu blocks, %llu bytes of %llu reported, the thread holds %llu and %llu", (ull)s.allocated_blocks, (ull)s.allocated_size, (ull)s.total_capacity, (ull)n, (ull)bytes);
        u64 at = 0;
        for(u64 i = 0; i < n; i++) { // handed out in order from an empty heap
            SIM_CHECK(got[i]->offset >= at && got[i]->offset + got[i]->length() <= capacity, "overlap", "range %llu at %llu, the one before ends at %llu", (ull)i, (ull)got[i]->offset, (ull)at);
            at = got[i]->offset + got[i]->length();
        }
        if(n && n < 8) sim_probe("moved between two allocations");
        while(n) to->free(got[--n]);
        auto all = to->allocate(capacity, 1);
        SIM_CHECK(all.ok(), "not-coalesced", "everything is free, but %llu bytes cannot be allocated after a move", (ull)capacity);
        to->free(*all);
        drop(src);
        drop(to);
        SIM_CHECK(sys_net_allocs() == net, "leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
    }
    static void run() {
        if(sim_chance(1, 6)) return move_under_load();
        switch(sim_work(6)) {
        case 0: capacity = 1 + sim_work(8); break;
        case 1: capacity = 256; break;
        case 2: capacity = 1ull << (3 + sim_work(14)); break;
        case 3: capacity = 1000 + sim_work(4000); break;
        case 4: capacity = (1ull << (20 + sim_work(24))) + sim_work(3); break;
        default: capacity = 300 + sim_work(3); break;
        }
        usual = sim_chance(1, 2) ? 1 + sim_work(capacity / 20 + 1) : 0;
        i64 net = sys_net_allocs();
        ra = fresh(capacity);
        verify_stats("fresh", true);
        u64 rounds = 1 + sim_work(3);
        bool exact = true;
        for(u64 r = 0; r < rounds; r++) {
            R kept[6];
            u64 nk = 0;
            u64 threads = sim_work(4);
            alone = true;
            u64 keep = sim_work(4);
            for(u64 i = 0; i < keep; i++)
                if(allocate(kept[nk])) nk++;
            alone = threads == 0;
            if(alone) steps(3 + sim_work(50), exact);
            else {
                exact = false;
                sim_watch(ra, sizeof(RA), "the allocator's state");
                Vec<T_, Mhidden> ts;
                for(u64 i = 0; i < threads; i++) ts.push(T_{[n = 2 + sim_work(14)]() { steps(n, false); }});
                steps(2 + sim_work(14), false);
                ts.clear();
                sim_unwatch(ra);
            }
            alone = true;
            verify_stats("at a quiet moment", exact);
            if(sim_chance(1, 2)) move();
            if(sim_chance(1, 2) && nk < 6 && allocate(kept[nk])) nk++;
            while(nk) release(kept[--nk]);
            verify_stats("with everything free", exact);
            // The whole heap is one block again.
            auto all = ra->allocate(capacity, 1 + sim_work(64));
            SIM_CHECK(all.ok(), "not-coalesced", "everything is free, but %llu bytes cannot be allocated", (ull)capacity);
            SIM_CHECK((*all)->offset == 0 && (*all)->length() >= capacity, "too-short", "the whole heap is [%llu, +%llu)", (ull)(*all)->offset, (ull)(*all)->length());
            ra->free(*all);
            high = capacity;
            total_allocs++, total_frees++;
            total_alloc_size += capacity, total_free_size += capacity;
            if(sim_chance(1, 2)) move();
            verify_stats("with everything free again", exact);
            ra->statistics().assert_clear();
        }
        drop(ra);
        SIM_CHECK(sys_net_allocs() == net, "leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
    }
};
void scenario() {
    sim_watch_heap("heap memory");
    warm_up();
    switch(sim_work(5)) {
    case 0: Test<24, 8>::run(); break;
    case 1: Test<4, 2>::run(); break;
    case 2: Test<1, 0>::run(); break;
    case 3: Test<24, 0>::run(); break;
    default: Test<48, 3>::run(); break;
    }
}
