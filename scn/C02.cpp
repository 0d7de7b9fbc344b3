// Condition variables: producers and consumers over several bounded buffers.
#define SCENARIO_POLLS
#include "common.h"

constexpr u64 CAP = 4, ITEMS = 64;
struct Buf {
    Thread::Mutex m;
    Thread::Cond not_empty, not_full;
    u64 q[CAP];
    u64 head, n, cap;
    u64 to_come; // items not yet produced, under m
    bool broadcast_only;
};
static Buf* b;
static u8 consumed[ITEMS];
static bool held_check(Thread::Mutex& m) {
    return !m.try_lock();
}
// A rendezvous whose waiters were all asleep before the wake-up: exact wake-up counts.
struct Door {
    Thread::Mutex m;
    Thread::Cond c;
    u64 waiting, passed, tickets;
    bool open;
};
static Door* d;

static void buffers() {
    b = new(Mhidden::alloc(sizeof(Buf))) Buf{};
    b->cap = 1 + sim_work(CAP);
    u64 np = 1 + sim_work(2), nc = 1 + sim_work(3), per = 1 + sim_work(5);
    b->to_come = np * per;
    bool single = np == 1 && nc == 1;
    b->broadcast_only = !single && sim_chance(1, 3);
    sim_watch(b->q, sizeof b->q + 24, "the buffer");
    {
        Vec<T_, Mhidden> ts;
        for(u64 p = 0; p < np; p++)
            ts.push(T_{[p, per]() {
                for(u64 i = 0; i < per; i++) {
                    dawdle();
                    {
                        Thread::Lock l{b->m};
                        while(b->n == b->cap) {
                            sim_probe("producer waits");
                            b->not_full.wait(b->m);
                            SIM_CHECK(held_check(b->m), "cond-mutex", "Cond::wait returned without the mutex");
                        }
                        b->q[(b->head + b->n) % CAP] = p * per + i;
                        b->n++;
                        b->to_come--;
                        if(b->to_come == 0) b->not_empty.broadcast(); // consumers may stop now
                        else if(b->broadcast_only) b->not_empty.broadcast();
                        else if(sim_chance(1, 2)) b->not_empty.signal();
                        else {
                            // signal after unlocking is as good
                            Thread::Lock moved{rpp::move(l)};
                            goto later;
                        }
                        continue;
                    }
                later:
                    b->not_empty.signal();
                }
            }});
        for(u64 c = 0; c < nc; c++)
            ts.push(T_{[]() {
                for(;;) {
                    dawdle();
                    Thread::Lock l{b->m};
                    while(b->n == 0 && b->to_come > 0) {
                        sim_probe("consumer waits");
                        b->not_empty.wait(b->m);
                        SIM_CHECK(held_check(b->m), "cond-mutex", "Cond::wait returned without the mutex");
                    }
                    if(b->n == 0) return;
                    u64 item = b->q[b->head];
                    b->head = (b->head + 1) % CAP;
                    b->n--;
                    SIM_CHECK(item < ITEMS && !consumed[item], "item-twice", "item %llu was handed over twice", (ull)item);
                    consumed[item] = 1;
                    if(b->broadcast_only) b->not_full.broadcast();
                    else b->not_full.signal();
                }
            }});
    }
    for(u64 i = 0; i < np * per; i++) SIM_CHECK(consumed[i], "item-lost", "item %llu was lost", (ull)i);
    b->~Buf();
    Mhidden::free(b);
}
static void door() {
    d = new(Mhidden::alloc(sizeof(Door))) Door{};
    u64 nw = 1 + sim_work(4);
    bool bc = sim_chance(1, 2);
    {
        Vec<T_, Mhidden> ts;
        for(u64 i = 0; i < nw; i++)
            ts.push(T_{[bc]() {
                dawdle();
                Thread::Lock l{d->m};
                d->waiting++;
                while(bc ? !d->open : d->tickets == 0) d->c.wait(d->m);
                if(!bc) d->tickets--;
                d->passed++;
            }});
        // Wait until everyone has started waiting (holding the mutex proves they sleep).
        for(;;) {
            Thread::Lock l{d->m};
            if(d->waiting == nw) break;
            Thread::Lock drop{rpp::move(l)};
            sim_yield();
        }
        if(bc) {
            {
                Thread::Lock l{d->m};
                d->open = true;
                if(sim_chance(1, 2)) {
                    d->c.broadcast();
                    goto done;
                }
            }
            d->c.broadcast();
        done:
            sim_probe("broadcast to all");
        } else {
            // One signal per ticket must let everybody through.
            for(u64 i = 0; i < nw; i++) {
                {
                    Thread::Lock l{d->m};
                    d->tickets++;
                }
                d->c.signal();
                dawdle();
            }
            sim_probe("signal each");
        }
    }
    SIM_CHECK(d->passed == nw, "wakeup-lost", "%llu of %llu waiters came through", (ull)d->passed, (ull)nw);
    d->~Door();
    Mhidden::free(d);
}
void scenario() {
    sim_fault(F_SPURIOUS, 8000);
    if(sim_chance(1, 2)) door();
    else buffers();
}
