// Mutual exclusion, try_lock, guards that move, publication of writes.
#include "common.h"

struct Rec {
    Thread::Mutex* m;
    i32 owner;         // oracle: thread inside, -1 none
    u64 data[4];       // only touched by the owner
    u64 count;         // only touched by the owner
    u64 expected;      // oracle: completed critical sections
    u64 tries_failed;
};
// Never waits, whatever the others do.
static bool attempt(Thread::Mutex& m) {
    u64 b = sim_blocks(sim_tid());
    bool got = m.try_lock();
    SIM_CHECK(sim_blocks(sim_tid()) == b, "try-lock-waits", "try_lock made its thread wait");
    return got;
}
// try_lock by the thread that owns it already.
static void again(Thread::Mutex& m) {
    if(!sim_chance(1, 4)) return;
    for(u64 k = 1 + sim_work(2); k > 0; k--) SIM_CHECK(!attempt(m), "try-lock-wrong", "try_lock succeeded on a mutex its caller holds already");
    sim_probe("try_lock by the owner");
}
static Rec r[2];

static void inside(Rec& x) {
    {
        Sim_Atomic a;
        SIM_CHECK(x.owner == -1, "mutual-exclusion", "T%d and T%d own the mutex at the same time", x.owner, sim_tid());
        x.owner = sim_tid();
    }
    u64 v = x.count;
    for(u64 i = 0; i < 4; i++) SIM_CHECK(x.data[i] == v, "lost-write", "word %llu is %llu, the previous owner wrote %llu", (ull)i, (ull)x.data[i], (ull)v);
    u64 k = sim_work(3);
    if(k && slow_world()) {
        sim_advance((1 + sim_work(100000)) * 1000000000ull); // an owner may take its time
        k += 20;
    }
    for(u64 i = 0; i < k; i++) sim_yield();
    for(u64 i = 0; i < 4; i++) x.data[i] = v + 1;
    x.count = v + 1;
    Sim_Atomic a;
    x.owner = -1;
    x.expected++;
}

// Leaves through a moved guard.
static Thread::Lock make_guard(Thread::Mutex& m) {
    Thread::Lock a{m};
    return Thread::Lock{rpp::move(a)};
}

void scenario() {
    u64 nm = 1 + sim_work(2);
    u64 nt = 2 + sim_work(3);
    for(u64 i = 0; i < nm; i++) {
        r[i].m = static_cast<Thread::Mutex*>(Mhidden::alloc(sizeof(Thread::Mutex)));
        new(r[i].m) Thread::Mutex{};
        r[i].owner = -1;
        sim_watch(r[i].data, sizeof r[i].data + 8, "data protected by a mutex");
    }
    {
        Vec<T_, Mhidden> ts;
        for(u64 t = 0; t < nt; t++) {
            u64 ops = 1 + sim_work(5);
            ts.push(T_{[ops, nm]() {
                for(u64 k = 0; k < ops; k++) {
                    Rec& x = r[sim_work(nm)];
                    switch(sim_work(9)) {
                    case 0:
                        x.m->lock();
                        inside(x);
                        again(*x.m);
                        x.m->unlock();
                        break;
                    case 1: {
                        Thread::Lock l{*x.m};
                        inside(x);
                        again(*x.m);
                    } break;
                    case 2: {
                        Thread::Lock l = make_guard(*x.m);
                        inside(x);
                        sim_probe("moved guard");
                    } break;
                    case 3: {
                        // A guard handed to an inner scope releases there, once.
                        Thread::Lock l{*x.m};
                        inside(x);
                        { Thread::Lock n{rpp::move(l)}; }
                        dawdle();
                    } break;
                    case 4: {
                        // Hand over hand: assigning a guard releases what the target held, after the new one was acquired.
                        Rec &a = r[0], &b = r[nm - 1];
                        Thread::Lock l{*a.m};
                        inside(a);
                        if(&a != &b) {
                            {
                                Thread::Lock n{*b.m};
                                inside(a);
                                l = rpp::move(n);
                                inside(b);
                            }
                            // The guard that gave it away is gone.
                            inside(b);
                            again(*b.m);
                            sim_probe("guard assigned over");
                            if(sim_chance(1, 3)) {
                                Thread::Lock& same = l;
                                l = rpp::move(same);
                                inside(b);
                                again(*b.m);
                            }
                            if(sim_chance(1, 2)) {
                                // Nobody else is asked to wait while this thread holds a as well.
                                Thread::Lock e{rpp::move(l)};
                                l = rpp::move(e);
                                inside(b);
                            }
                        } else {
                            Thread::Lock e{rpp::move(l)};
                            inside(a);
                            l = rpp::move(e);
                            inside(a);
                        }
                    } break;
                    case 5: {
                        // Spinning: failed attempts change nothing, however many.
                        while(!attempt(*x.m)) sim_yield();
                        inside(x);
                        x.m->unlock();
                    } break;
                    default: {
                        bool got = attempt(*x.m);
                        if(got) {
                            inside(x);
                            again(*x.m);
                            x.m->unlock();
                            sim_probe("try_lock succeeded");
                        } else {
                            sim_probe("try_lock failed");
                            if(sim_chance(1, 2)) { // side effects of the failure would show here
                                Thread::Lock l{*x.m};
                                inside(x);
                            }
                        }
                    } break;
                    }
                    dawdle();
                }
            }});
        }
        // try_lock by a thread while the mutex is certainly held, and certainly free.
        if(sim_chance(1, 3)) {
            Rec& x = r[0];
            x.m->lock();
            u64 before = sim_now();
            bool got = true;
            T_ o{[&]() {
                got = attempt(*x.m);
                if(got) x.m->unlock();
            }};
            o.join();
            (void)before;
            SIM_CHECK(!got, "try-lock-wrong", "try_lock succeeded on a mutex held by another thread");
            inside(x);
            x.m->unlock();
            sim_probe("try_lock on a held mutex");
        }
    }
    for(u64 i = 0; i < nm; i++) {
        SIM_CHECK(attempt(*r[i].m), "try-lock-wrong", "try_lock failed on a free mutex");
        SIM_CHECK(r[i].count == r[i].expected, "lost-write", "%llu critical sections ran, %llu recorded", (ull)r[i].expected, (ull)r[i].count);
        r[i].m->unlock();
        r[i].m->~Mutex();
        Mhidden::free(r[i].m);
    }
}
