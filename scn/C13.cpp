// Events: wait_any returns a signalled one as soon as there is one; signals stay until reset; moves carry state.
#include "common.h"
#include <rpp/async.h>

using Async::Event;
constexpr u64 K = 6;

struct Oracle {
    u64 signals, signalling; // begun so far, under way
    u64 resets, resetting;
    bool maybe; // may be signalled
    bool sure;  // certainly signalled: a signal completed, and no reset was under way or began since
};
static Oracle os[K];
static Vec<Event, Mhidden>* evs;
static u64 n_ev;
static u64 hits;

struct Waiting {
    bool on;
    u64 mask;
};
static Waiting waits[256];

static void signal(u64 i, Event& e) {
    u64 r;
    bool clear;
    {
        Sim_Atomic a;
        os[i].signals++;
        os[i].signalling++;
        os[i].maybe = true;
        r = os[i].resets;
        clear = os[i].resetting == 0;
    }
    e.signal();
    Sim_Atomic a;
    os[i].signalling--;
    if(clear && os[i].resets == r) os[i].sure = true;
}
static void reset(u64 i, Event& e) {
    u64 s;
    bool clear;
    {
        Sim_Atomic a;
        s = os[i].signals;
        clear = os[i].signalling == 0;
        os[i].resets++;
        os[i].resetting++;
        os[i].sure = false;
    }
    e.reset();
    Sim_Atomic a;
    os[i].resetting--;
    if(clear && os[i].signals == s) os[i].maybe = false;
}
// Waits on a contiguous part of the events.
static u64 wait_some(u64 from, u64 n) {
    u64 before[K];
    bool may[K];
    {
        Sim_Atomic a;
        for(u64 i = 0; i < n; i++) before[i] = os[from + i].signals, may[i] = os[from + i].maybe;
        waits[sim_tid()] = {true, ((1ull << n) - 1) << from};
    }
    int fds = sim_fds_open();
    u64 got = Event::wait_any(Slice<Event>{evs->data() + from, n});
    (void)fds;
    Sim_Atomic a;
    waits[sim_tid()].on = false;
    SIM_CHECK(got < n, "bad-index", "wait_any returned index %llu of %llu events", (ull)got, (ull)n);
    SIM_CHECK(may[got] || os[from + got].signals != before[got], "not-signalled", "wait_any returned event %llu, which was not signalled", (ull)(from + got));
    hits++;
    return from + got;
}
// At an idle moment no waiter sleeps on an event that is certainly signalled.
static void check_idle() {
    Sim_Atomic a;
    for(u64 t = 0; t < 256; t++)
        if(waits[t].on && sim_thread_alive(static_cast<int>(t)))
            for(u64 i = 0; i < n_ev; i++)
                SIM_CHECK(!((waits[t].mask >> i) & 1) || !os[i].sure, "still-waiting", "thread T%llu waits on event %llu, which is signalled", (ull)t, (ull)i);
}
static void concurrent() {
    n_ev = 1 + sim_work(K);
    Vec<Event, Mhidden> events;
    for(u64 i = 0; i < n_ev; i++) events.push(Event{});
    evs = &events;
    if(sim_chance(1, 2)) {
        u64 i = sim_work(n_ev);
        signal(i, events[i]);
        sim_probe("signalled before the wait");
    }
    bool resets = sim_chance(1, 2);
    u64 nw = 1 + sim_work(3), ns = 1 + sim_work(2);
    Vec<T_, Mhidden> waiters;
    {
        Vec<T_, Mhidden> signallers;
        for(u64 w = 0; w < nw; w++) {
            u64 from = sim_work(n_ev), n = 1 + sim_work(n_ev - from), k = 1 + sim_work(3);
            bool rs = resets && sim_chance(1, 2);
            waiters.push(T_{[from, n, k, rs]() {
                for(u64 j = 0; j < k; j++) {
                    u64 i = wait_some(from, n);
                    if(rs && sim_chance(1, 2)) reset(i, (*evs)[i]);
                    if(sim_chance(1, 4)) {
                        bool t = (*evs)[i].try_wait();
                        Sim_Atomic a;
                        SIM_CHECK(!t || os[i].maybe || os[i].signals, "not-signalled", "try_wait reports an event that was never signalled");
                    }
                }
            }});
        }
        for(u64 s = 0; s < ns; s++) {
            u64 k = 1 + sim_work(5);
            signallers.push(T_{[k]() {
                for(u64 j = 0; j < k; j++) {
                    u64 i = sim_work(n_ev);
                    signal(i, (*evs)[i]);
                    if(sim_chance(1, 2)) dawdle();
                }
            }});
        }
    }
    sim_quiesce();
    check_idle();
    if(sim_chance(1, 2)) {
        // Still nothing moves without another signal; then one signal moves those who wait for it.
        u64 i = sim_work(n_ev);
        signal(i, events[i]);
        sim_quiesce();
        check_idle();
    }
    // Let the rest go: with every event signalled and reset no more, nobody waits.
    for(u64 round = 0; round < 200; round++) {
        bool any = false;
        for(u64 t = 0; t < 256; t++)
            if(waits[t].on) any = true;
        if(!any) break;
        for(u64 i = 0; i < n_ev; i++) signal(i, events[i]);
        sim_quiesce();
        check_idle();
    }
    waiters.clear();
}
// One thread, the exact state is known: signal, reset, wait and moves against a model.
static void model() {
    n_ev = 1 + sim_work(4);
    int fds = sim_fds_open();
    {
        Vec<Event, Mhidden> events;
        bool on[K] = {};
        for(u64 i = 0; i < n_ev; i++) events.push(Event{});
        evs = &events;
        u64 ops = 4 + sim_work(16);
        for(u64 j = 0; j < ops; j++) {
            u64 i = sim_work(n_ev), k = sim_work(n_ev);
            switch(sim_work(8)) {
            case 0:
            case 1:
                for(u64 r = 0; r <= sim_work(3); r++) signal(i, events[i]);
                on[i] = true;
                break;
            case 2:
                if(!on[i]) sim_probe("reset of an event that is not signalled");
                reset(i, events[i]);
                on[i] = false;
                break;
            case 3: {
                bool any = false;
                for(u64 q = i; q < n_ev; q++) any = any || on[q];
                if(!any) break;
                u64 got = wait_some(i, n_ev - i);
                SIM_CHECK(on[got], "not-signalled", "wait_any returned event %llu, which is not signalled", (ull)got);
            } break;
            case 4: { // a round trip through a temporary
                Event e{rpp::move(events[i])};
                if(sim_chance(1, 2)) e.signal(), on[i] = true, os[i].maybe = true;
                SIM_CHECK(sim_fds_open() == fds + static_cast<int>(n_ev), "descriptor-count", "moving an event changed the number of descriptors");
                events[i] = rpp::move(e);
            } break;
            case 5: { // swap by moves
                if(i == k) break;
                Event e{rpp::move(events[i])};
                events[i] = rpp::move(events[k]);
                events[k] = rpp::move(e);
                bool b = on[i];
                on[i] = on[k];
                on[k] = b;
                Oracle o = os[i];
                os[i] = os[k];
                os[k] = o;
                sim_probe("swapped");
            } break;
            case 6: { // replaced by a new, unsignalled one
                events[i] = Event{};
                on[i] = false;
                os[i] = {};
                SIM_CHECK(sim_fds_open() == fds + static_cast<int>(n_ev), "descriptor-count", "assigning over an event left %d descriptors open, not %d", sim_fds_open(), fds + static_cast<int>(n_ev));
            } break;
            default: {
                bool t = events[i].try_wait();
                SIM_CHECK(!t || on[i], "not-signalled", "try_wait reports an event that is not signalled");
            } break;
            }
            // A waiter sees exactly what is signalled: it keeps waiting otherwise.
            if(sim_chance(1, 4)) {
                u64 q = sim_work(n_ev);
                T_ w{[q]() { wait_some(q, 1); }};
                sim_quiesce();
                {
                    Sim_Atomic a;
                    u64 waiting = 0;
                    for(u64 t = 0; t < 256; t++)
                        if(waits[t].on) waiting++;
                    SIM_CHECK(waiting == (on[q] ? 0 : 1), on[q] ? "still-waiting" : "not-signalled", "event %llu is %s but its waiter %s", (ull)q, on[q] ? "signalled" : "not signalled", waiting ? "keeps waiting" : "returned");
                }
                if(!on[q]) {
                    signal(q, events[q]);
                    on[q] = true;
                    sim_probe("waiter kept waiting");
                }
                w.join();
            }
        }
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
}
// Long lists: whichever is signalled is found, whatever its place.
static void many() {
    u64 n = 2 + sim_work(sim_chance(1, 8) ? 600 : 150);
    Vec<Event, Mhidden> events;
    Vec<void*, Mhidden> handles; // of those that come from the system
    Vec<u8, Mhidden> on;
    for(u64 i = 0; i < n; i++) {
        void* h = null;
        if(sim_chance(1, 3)) {
            int fd;
            bool out = sim_chance(1, 2);
            h = out ? sim_user_event_open_out(&fd) : sim_user_event_open(&fd);
            Event e = Event::of_sys(fd, out ? 4 : 1);
            if(sim_chance(1, 2)) {
                Event f{rpp::move(e)};
                e = rpp::move(f);
            }
            events.push(rpp::move(e));
        } else {
            events.push(Event{});
        }
        handles.push(rpp::move(h));
        on.push(u8{0});
    }
    u64 count = 0;
    auto set = [&](u64 i) {
        {
            Sim_Atomic a;
            count += !on[i];
            on[i] = 1;
        }
        if(handles[i]) sim_user_event_set(handles[i]);
        else events[i].signal();
    };
    for(u64 round = 0; round < 2 + sim_work(6); round++) {
        u64 from = sim_chance(1, 2) ? 0 : sim_work(n), len = 1 + sim_work(n - from);
        if(sim_chance(1, 3)) from = 0, len = n;
        u64 k = from + sim_work(len);
        bool before = sim_chance(1, 2);
        T_ other;
        if(before) set(k);
        else other = T_{[&set, k]() {
            dawdle();
            set(k);
        }};
        for(u64 x = sim_work(3); x > 0; x--) set(sim_work(n));
        u64 got = Event::wait_any(Slice<Event>{events.data() + from, len});
        SIM_CHECK(got < len, "bad-index", "wait_any returned index %llu of %llu events", (ull)got, (ull)len);
        SIM_CHECK(on[from + got], "not-signalled", "wait_any returned event %llu of %llu, which is not signalled", (ull)(from + got), (ull)n);
        if(!before) other.join();
        // One after the other, until none is left.
        while(sim_chance(9, 10)) {
            u64 left = 0;
            for(u64 i = 0; i < n; i++) left += on[i];
            if(!left) break;
            u64 w = Event::wait_any(events.slice());
            SIM_CHECK(w < n, "bad-index", "wait_any returned index %llu of %llu events", (ull)w, (ull)n);
            SIM_CHECK(on[w], "not-signalled", "wait_any returned event %llu of %llu, which is not signalled", (ull)w, (ull)n);
            if(handles[w]) sim_user_event_clear(handles[w]);
            else events[w].reset();
            on[w] = 0;
        }
    }
    sim_probe("long list");
}
void scenario() {
    sim_fault(F_EINTR_EPOLL, sim_chance(1, 3) ? 8000 : 0);
    sim_fault(F_EINTR_FUTEX, sim_chance(1, 4) ? 6000 : 0);
    sim_fault(F_STALL, sim_chance(1, 6) ? 200 : 0);
    int fds = sim_fds_open();
    if(sim_chance(1, 24)) many();
    else if(sim_chance(2, 3)) concurrent();
    else model();
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
}
