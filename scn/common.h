// Shared by the scenarios. Scenario code is instrumented and scheduled like the library itself;
// oracle state is updated inside Sim_Atomic sections.
#pragma once
#include <rpp/base.h>
#include <rpp/thread.h>
#include <rpp/rc.h>
#include <rpp/vec.h>
#include <rpp/function.h>
#include "sim.h"

using namespace rpp;
extern "C" const char* scenario_name = SCENARIO;
typedef unsigned long long ull;
// For loops of an oracle over many bytes, whose accesses are reported with one sim_touch.
#define UNSEEN __attribute__((no_sanitize("thread")))

template<typename F>
using Thr_ = rpp::Thread::Thread<Mhidden>;
using T_ = rpp::Thread::Thread<Mhidden>;

// In some programs it is seconds, hours or weeks before anything goes on.
static inline bool slow_world() {
    static int slow = 0;
    Sim_Atomic a;
    if(!slow) slow = sim_chance(1, 20) ? 2 : 1;
    return slow == 2;
}
// A few thousand nanoseconds of unrelated work, or scheduling points.
static inline void dawdle() {
    u64 k = sim_work(4);
    if(k == 0 && slow_world()) {
        static const u64 s[] = {1, 11, 61, 3601, 86401, 2592000};
#ifdef SCENARIO_POLLS // threads that look again and again would have to do so for weeks
        sim_advance(s[sim_work(6)] * 1000000000ull);
#else
        sim_sleep(s[sim_work(6)] * 1000000000ull);
#endif
        sim_probe("long pause");
    }
    if(k == 1) sim_yield();
    if(k == 2)
        for(u64 i = 0; i < 3; i++) sim_yield();
    if(k == 3) sim_advance(1000 + 1000 * sim_work(50));
}
// Values that make truncation, sign and lost-update mistakes visible.
static inline i64 odd_value() {
    u64 k = sim_work(8);
    switch(k) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return static_cast<i64>(sim_work(16));
    case 4: return 0x7fffffffffffffffll - static_cast<i64>(sim_work(3));
    case 5: return (-0x7fffffffffffffffll - 1) + static_cast<i64>(sim_work(3));
    case 6: return 0x80000000ll - 2 + static_cast<i64>(sim_work(4));
    default: return 0xffffffffll - 2 + static_cast<i64>(sim_work(4));
    }
}
// A value with an identity: moved around freely, must be destroyed exactly once.
struct Tok_Table {
    static constexpr u32 N = 4096;
    static inline u8 alive[N];
    static inline u32 count = 0, live = 0;
};
struct Tok {
    static constexpr u32 MAGIC = 0x70c3e11a;
    u32 magic = MAGIC, id = 0;

    Tok() noexcept = default;
    static Tok fresh() noexcept {
        Sim_Atomic a;
        Tok t;
        t.id = ++Tok_Table::count;
        if(t.id >= Tok_Table::N) sim_violation("internal:tokens", "scenario ran out of tokens");
        Tok_Table::alive[t.id] = 1;
        Tok_Table::live++;
        return t;
    }
    Tok(Tok&& o) noexcept {
        o.check("move from");
        id = o.id;
        o.id = 0;
    }
    Tok& operator=(Tok&& o) noexcept {
        check("assign to");
        o.check("move from");
        u32 take = o.id;
        o.id = 0;
        gone();
        id = take;
        return *this;
    }
    Tok(const Tok&) = delete;
    Tok& operator=(const Tok&) = delete;
    ~Tok() noexcept {
        check("destroy");
        gone();
        magic = 0xdeadc0de;
    }
    void check(const char* what) const noexcept {
        Sim_Atomic a;
        if(magic != MAGIC) sim_violation("dead-object", "%s an object that %s", what, magic == 0xdeadc0de ? "was already destroyed" : "was never constructed");
        if(id && !Tok_Table::alive[id]) sim_violation("dead-object", "%s object %u, which was already destroyed", what, id);
    }
    bool ok() const noexcept {
        return id != 0;
    }
    static bool is_alive(u32 id) noexcept {
        return Tok_Table::alive[id];
    }

private:
    void gone() noexcept {
        if(!id) return;
        Sim_Atomic a;
        Tok_Table::alive[id] = 0;
        Tok_Table::live--;
        id = 0;
    }
};
static inline void tokens_all_dead(const char* when) {
    Sim_Atomic a;
    for(u32 i = 1; i <= Tok_Table::count; i++)
        if(Tok_Table::alive[i]) sim_violation("never-destroyed", "object %u was never destroyed (%s)", i, when);
}
// A value spread over several words, so that torn or partial publication shows.
struct Big {
    u64 w[5] = {};
    Tok tok;
    static Big of(u64 v) noexcept {
        Big b;
        for(u64 i = 0; i < 5; i++) b.w[i] = v * (i + 1);
        b.tok = Tok::fresh();
        return b;
    }
    void expect(u64 v, const char* what) const noexcept {
        tok.check("use");
        for(u64 i = 0; i < 5; i++)
            if(w[i] != v * (i + 1)) sim_violation("wrong-value", "%s: word %llu is %llu, expected %llu", what, (ull)i, (ull)w[i], (ull)(v * (i + 1)));
        if(!tok.ok()) sim_violation("wrong-value", "%s: value was moved away", what);
    }
};
// The profiler's own tables (counted by sys_net_allocs) get their final size before anything is compared.
template<typename A>
static inline void warm_allocator() {
    void* p[40];
    for(u64 i = 0; i < 40; i++) p[i] = A::alloc(8 + i);
    for(u64 i = 0; i < 40; i++) A::free(p[i]);
}
static inline void warm_up() {
    sim_nopreempt(1);
    warm_allocator<Mdefault>();
    warm_allocator<rpp::Thread::Alloc>();
    sim_nopreempt(-1);
    T_ warm{[]() {}};
}
