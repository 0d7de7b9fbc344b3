// Pool helpers.
#pragma once
#include "coro.h"
#include <rpp/pool.h>
#include <rpp/asyncio.h>

struct Pool_ {
    using P = Async::Pool<>;
    P* pool;
    int first, last; // simulated thread ids started by the pool

    explicit Pool_() {
        first = last = -1;
        int before[256];
        for(int i = 0; i < 256; i++) before[i] = sim_thread_alive(i);
        pool = new(Mhidden::alloc(sizeof(P))) P{};
        for(int i = 0; i < 256; i++) {
            if(sim_thread_alive(i) && !before[i]) {
                if(first < 0) first = i;
                last = i;
            }
        }
    }
    ~Pool_() {
        if(pool) kill();
    }
    void kill() {
        pool->~P();
        Mhidden::free(pool);
        pool = null;
        first = last = -1;
    }
    bool on_worker() const {
        return sim_tid() >= first && sim_tid() <= last && !sim_polls(sim_tid()); // the event thread is none
    }
};
