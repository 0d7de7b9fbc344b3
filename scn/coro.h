// Coroutine helpers: hop to a scenario-owned thread, bodies with identities and watched side effects.
#pragma once
#include "common.h"
#include <rpp/async.h>

// A mailbox of suspended coroutines and the threads that resume them.
struct Mail {
    Thread::Mutex mut;
    Thread::Cond cond;
    Vec<std::coroutine_handle<>, Mhidden> box;
    bool stop = false;
    Vec<T_, Mhidden> crew;

    void start(u64 n) {
        for(u64 i = 0; i < n; i++) crew.push(T_{[this]() { work(); }});
    }
    void post(std::coroutine_handle<> h) {
        Thread::Lock l(mut);
        box.push(rpp::move(h));
        cond.signal();
    }
    void work() {
        for(;;) {
            std::coroutine_handle<> h;
            {
                Thread::Lock l(mut);
                while(box.empty() && !stop) cond.wait(mut);
                if(box.empty()) return;
                u64 i = sim_work(box.length());
                h = box[i];
                box[i] = box.back();
                box.pop();
            }
            if(sim_chance(1, 4)) dawdle();
            h.resume();
        }
    }
    // Returns when everything posted, and everything that posts in turn, has run.
    void finish() {
        {
            Thread::Lock l(mut);
            stop = true;
            cond.broadcast();
        }
        crew.clear();
    }
};
struct Hop {
    Mail& mail;
    bool await_ready() noexcept {
        return false;
    }
    void await_suspend(std::coroutine_handle<> h) noexcept {
        Mail& m = mail; // the awaiter may be gone as soon as the handle is published
        m.post(h);
    }
    void await_resume() noexcept {
    }
};

// One coroutine body's history.
constexpr u64 BODIES = 640;
struct Body {
    u32 started, finished, consumed;
    u32 locals;  // objects of the body that still exist
    u64 data[3];
    u64 farewell; // written when the last of them is destroyed
};
static Body bodies[BODIES];
static u64 n_bodies = 0;

static inline u64 new_body() {
    Sim_Atomic a;
    if(n_bodies >= BODIES) sim_violation("internal:bodies", "scenario ran out of bodies");
    u64 id = n_bodies++;
    sim_watch(bodies[id].data, sizeof(bodies[id].data) + 8, "what a coroutine wrote");
    return id;
}
static inline void body_start(u64 id) {
    Sim_Atomic a;
    SIM_CHECK(++bodies[id].started == 1, "ran-twice", "coroutine %llu started twice", (ull)id);
}
static inline void body_end(u64 id) {
    for(u64 i = 0; i < 3; i++) bodies[id].data[i] = id * 10 + i;
    Sim_Atomic a;
    SIM_CHECK(bodies[id].started == 1, "ran-twice", "coroutine %llu ended without starting", (ull)id);
    SIM_CHECK(++bodies[id].finished == 1, "ran-twice", "coroutine %llu reached its end twice", (ull)id);
}
// A local object of a body: its destruction is part of the body.
struct Local {
    u64 id;
    Tok tok = Tok::fresh();
    explicit Local(u64 id) noexcept : id(id) {
        Sim_Atomic a;
        bodies[id].locals++;
    }
    ~Local() {
        {
            Sim_Atomic a;
            SIM_CHECK(bodies[id].finished == 1, "frame-died-early", "the frame of coroutine %llu was destroyed before its body ended", (ull)id);
        }
        if(sim_chance(1, 4)) sim_yield();
        bodies[id].farewell = id + 1;
        Sim_Atomic a;
        bodies[id].locals--;
    }
    Local(const Local&) = delete;
};
// What a consumer may rely on when it continues.
static inline void body_consumed(u64 id, const char* how) {
    {
        Sim_Atomic a;
        SIM_CHECK(bodies[id].finished == 1, "continued-early", "%s continued before coroutine %llu returned", how, (ull)id);
        SIM_CHECK(++bodies[id].consumed == 1, "continued-twice", "%s continued twice after coroutine %llu", how, (ull)id);
        SIM_CHECK(bodies[id].locals == 0, "continued-early", "%s continued before the local objects of coroutine %llu were destroyed", how, (ull)id);
    }
    if(bodies[id].farewell) SIM_CHECK(bodies[id].farewell == id + 1, "not-visible", "%s does not see what the end of coroutine %llu wrote", how, (ull)id);
    for(u64 i = 0; i < 3; i++) {
        u64 v = bodies[id].data[i];
        SIM_CHECK(v == id * 10 + i, "not-visible", "%s does not see what coroutine %llu wrote", how, (ull)id);
    }
}
static inline void bodies_all_done(const char* when) {
    Sim_Atomic a;
    for(u64 i = 0; i < n_bodies; i++)
        SIM_CHECK(!bodies[i].started || bodies[i].finished == 1, "never-finished", "coroutine %llu never reached its end (%s)", (ull)i, when);
}
