// Flags: sticky, one-shot, no lost wake-up whatever the futex call reports.
#include "common.h"

struct St {
    Thread::Flag* flag;
    u32 started, finished;   // signals begun / completed
    bool known_set;          // some thread saw it set
    u64 payload[4];
    u32 signallers, returned;
};
static St st[2];

static void check_seen(St& s, bool single, u64 tag) {
    {
        Sim_Atomic a;
        SIM_CHECK(s.started > 0, "flag-early", "%s returned before any signal was sent", tag ? "block" : "ready (true)");
        s.known_set = true;
    }
    if(single) {
        u64 v = s.payload[0];
        SIM_CHECK(v == 77, "flag-visibility", "write made before signal not visible after %s: %llu", tag ? "block" : "ready", (ull)v);
    }
    SIM_CHECK(s.flag->ready(), "flag-not-sticky", "a flag that was seen set reports not ready");
}

void scenario() {
    sim_fault(F_SPURIOUS, 9000);
    sim_fault(F_EINTR_FUTEX, 9000);
    u64 nf = 1 + sim_work(2);
    Vec<T_, Mhidden> ts;
    for(u64 f = 0; f < nf; f++) {
        St& s = st[f];
        s.flag = static_cast<Thread::Flag*>(Mhidden::alloc(sizeof(Thread::Flag)));
        new(s.flag) Thread::Flag{};
        s.signallers = 1 + sim_work(3);
        bool single = s.signallers == 1;
        for(u64 i = 0; i < 4; i++) {
            s.payload[i] = 0;
        }
        if(single) sim_watch(s.payload, 8, "data written before Flag::signal");
        u64 blockers = sim_work(4), pollers = sim_work(3);
        for(u64 i = 0; i < blockers; i++) {
            u64 times = 1 + sim_work(2);
            ts.push(T_{[&s, single, times]() {
                dawdle();
                for(u64 k = 0; k < times; k++) {
                    s.flag->block();
                    check_seen(s, single, 1);
                }
                Sim_Atomic a;
                s.returned++;
                sim_probe("blocker returned");
            }});
        }
        for(u64 i = 0; i < pollers; i++) {
            u64 times = 1 + sim_work(6);
            ts.push(T_{[&s, single, times]() {
                for(u64 k = 0; k < times; k++) {
                    bool must;
                    {
                        Sim_Atomic a;
                        must = s.finished > 0 || s.known_set;
                    }
                    bool r = s.flag->ready();
                    if(r) {
                        check_seen(s, single, 0);
                        sim_probe("poller saw it set");
                    } else
                        SIM_CHECK(!must, "flag-not-sticky", "ready() is false although a signal had completed before");
                    dawdle();
                }
            }});
        }
        for(u64 i = 0; i < s.signallers; i++) {
            u64 times = 1 + sim_work(2);
            ts.push(T_{[&s, i, times, single]() {
                dawdle();
                for(u64 k = 0; k < times; k++) {
                    if(!single || k == 0) s.payload[i] = 77;
                    {
                        Sim_Atomic a;
                        s.started++;
                    }
                    s.flag->signal();
                    {
                        Sim_Atomic a;
                        s.finished++;
                        if(k) sim_probe("repeated signal");
                    }
                }
            }});
        }
    }
    for(auto& t : ts) t.join();
    for(u64 f = 0; f < nf; f++) {
        SIM_CHECK(st[f].flag->ready(), "flag-not-sticky", "signalled flag reports not ready at the end");
        st[f].flag->block(); // must not wait
        st[f].flag->~Flag();
        Mhidden::free(st[f].flag);
    }
}
