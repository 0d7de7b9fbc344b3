PRE = r'''
#include <rpp/base.h>
#include <rpp/thread.h>
#include <rpp/pool.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include <rpp/net.h>
#include <rpp/range_allocator.h>
#include <rpp/box.h>
#include <rpp/log_callback.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#undef assert
using namespace rpp;
#define REQUIRE(x, ...) do { if(!(x)) { printf("FAILED %s: ", #x); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while(0)
#define REAL(name) (reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name)))
using T_ = rpp::Thread::Thread<>;
'''
# ---- C01
bug("c01-trylock-patience", "C01",
    "try_lock on a mutex whose owner keeps it for longer than a moment",
    "try_lock waits (up to a second) for the owner instead of returning false at once",
    [("pos/thread_pos.cpp", ("    int ret = pthread_mutex_trylock(&lock_);\n    if(ret == EBUSY)\n        return false;",
      "    timespec limit = {};\n    clock_gettime(CLOCK_REALTIME, &limit);\n    limit.tv_sec += 1;\n    int ret = pthread_mutex_trylock(&lock_);\n    if(ret == EBUSY) ret = pthread_mutex_timedlock(&lock_, &limit);\n    if(ret == ETIMEDOUT)\n        return false;"))],
    PRE + r'''
int main() {
    rpp::Thread::Mutex m;
    m.lock();
    bool got = false;
    u64 t = 0;
    {
        T_ th{[&]() {
            u64 t0 = rpp::Thread::perf_counter();
            got = m.try_lock();
            t = rpp::Thread::perf_counter() - t0;
        }};
    }
    m.unlock();
    REQUIRE(!got, "a held mutex was acquired");
    REQUIRE(t < 500000000, "try_lock took %llu ns", (unsigned long long)t);
    return 0;
}
''')
bug("c01-recursive", "C01",
    "try_lock by the thread that already owns the mutex",
    "the mutex is made recursive, so try_lock succeeds for its own owner and there are two lock/unlock pairs inside each other",
    [("pos/thread_pos.cpp", ("    int ret = pthread_mutex_init(&lock_, null);\n    if(ret) {\n        die(\"Failed to create mutex",
      "    pthread_mutexattr_t attr;\n    pthread_mutexattr_init(&attr);\n    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);\n    int ret = pthread_mutex_init(&lock_, &attr);\n    pthread_mutexattr_destroy(&attr);\n    if(ret) {\n        die(\"Failed to create mutex"))],
    PRE + r'''
int main() {
    rpp::Thread::Mutex m;
    m.lock();
    bool again = m.try_lock();
    REQUIRE(!again, "try_lock acquired a mutex that is held");
    m.unlock();
    bool now = m.try_lock();
    REQUIRE(now, "try_lock failed on a free mutex");
    m.unlock();
    return 0;
}
''')
# ---- C02
bug("c02-waiter-count", "C02",
    "two threads waiting; one is woken before the second signal is sent",
    "signals are skipped when no waiter is counted, and the first waiter to wake resets the count, so a later signal for the second one is lost",
    [("thread0.h", ("#else\n    pthread_cond_t cond_ = PTHREAD_COND_INITIALIZER;\n#endif", "#else\n    pthread_cond_t cond_ = PTHREAD_COND_INITIALIZER;\n    Atomic waiters_;\n#endif")),
     ("pos/thread_pos.cpp", ("    int ret = pthread_cond_wait(&cond_, &mut.lock_);", "    waiters_.incr();\n    int ret = pthread_cond_wait(&cond_, &mut.lock_);\n    waiters_.exchange(0);"),
      ("    int ret = pthread_cond_signal(&cond_);", "    // Nobody to wake: save the call.\n    int ret = waiters_.load() ? pthread_cond_signal(&cond_) : 0;"))],
    PRE + r'''
int main() {
    rpp::Thread::Mutex m;
    rpp::Thread::Cond c;
    int waiting = 0, tokens = 0, done = 0;
    auto body = [&]() {
        rpp::Thread::Lock l(m);
        waiting++;
        while(!tokens) c.wait(m);
        tokens--;
        done++;
    };
    T_ a{[&]() { body(); }}, b{[&]() { body(); }};
    for(;;) {
        rpp::Thread::Lock l(m);
        if(waiting == 2) break;
    }
    for(int k = 1; k <= 2; k++) {
        {
            rpp::Thread::Lock l(m);
            tokens++;
            c.signal();
        }
        for(int i = 0;; i++) {
            {
                rpp::Thread::Lock l(m);
                if(done == k) break;
            }
            REQUIRE(i < 5000, "a waiter was not woken by signal %d", k);
            usleep(1000);
        }
    }
    return 0;
}
''')
# ---- C03
bug("c03-eintr-once", "C03",
    "a thread sleeping in Flag::block is woken by something else than a signal of the flag",
    "block() waits once instead of re-checking the flag, so an early wake-up lets it return before signal()",
    [("pos/thread_pos.cpp", ("    while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {\n        int ret = syscall", "    if(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {\n        int ret = syscall"))],
    PRE + r'''
static void on_signal(int) {}
int main() {
    struct sigaction sa = {};
    sa.sa_handler = on_signal;
    sigaction(SIGUSR1, &sa, null);
    rpp::Thread::Flag f;
    rpp::Thread::Atomic returned, started;
    T_ t{[&]() {
        started.incr();
        f.block();
        returned.incr();
    }};
    while(!started.load()) {}
    for(int i = 0; i < 50; i++) {
        pthread_kill((pthread_t)t.id(), SIGUSR1);
        usleep(2000);
        REQUIRE(!returned.load(), "block returned although nobody signalled");
    }
    f.signal();
    t.join();
    return 0;
}
''')
bug("c03-wake-one", "C03",
    "two or more threads asleep in Flag::block when the flag is signalled",
    "signal() wakes only one of the sleepers",
    [("pos/thread_pos.cpp", ("FUTEX_WAKE, RPP_INT32_MAX", "FUTEX_WAKE, 1"))],
    PRE + r'''
int main() {
    rpp::Thread::Flag f;
    rpp::Thread::Atomic returned;
    for(int i = 0; i < 3; i++) T_{[&]() { f.block(); returned.incr(); }}.detach();
    usleep(200000);
    f.signal();
    for(int i = 0; i < 3000 && returned.load() < 3; i++) usleep(1000);
    REQUIRE(returned.load() == 3, "%d of 3 waiters returned", (int)returned.load());
    return 0;
}
''')
# ---- C04
bug("c04-decr-reload", "C04",
    "two threads decrementing at the same moment",
    "decr() returns a value read after the update, so two threads may both see zero",
    [("pos/thread_pos.cpp", ("    return __atomic_fetch_sub(&value_, 1, __ATOMIC_SEQ_CST) - 1;", "    __atomic_fetch_sub(&value_, 1, __ATOMIC_SEQ_CST);\n    return __atomic_load_n(&value_, __ATOMIC_SEQ_CST);"))],
    PRE + r'''
int main() {
    for(int round = 0; round < 200; round++) {
        constexpr i64 N = 20000;
        rpp::Thread::Atomic a{2 * N}, go;
        i64 sum[2] = {};
        {
            auto body = [&](int k) {
                go.incr();
                while(go.load() < 2) {}
                for(i64 i = 0; i < N; i++) sum[k] += a.decr();
            };
            T_ x{[&]() { body(0); }}, y{[&]() { body(1); }};
        }
        // Every value below 2N exactly once.
        REQUIRE(sum[0] + sum[1] == N * (2 * N - 1), "decr returned a value twice");
    }
    return 0;
}
''')
bug("c04-cas-retry", "C04",
    "compare_and_swap called while another thread changes the value just before",
    "compare_and_swap keeps trying with the value it found, so it stores although the previous value is not the expected one",
    [("pos/thread_pos.cpp", ("    __atomic_compare_exchange_n(&value_, &compare_with, set_to, false, __ATOMIC_SEQ_CST,\n                                __ATOMIC_SEQ_CST);\n    return compare_with;",
      "    i64 seen = __atomic_load_n(&value_, __ATOMIC_SEQ_CST);\n    if(seen != compare_with) return seen;\n    while(!__atomic_compare_exchange_n(&value_, &seen, set_to, true, __ATOMIC_SEQ_CST,\n                                       __ATOMIC_SEQ_CST)) {\n    }\n    return seen;"))],
    PRE + r'''
static rpp::Thread::Atomic slot, wins, arrived, turn;
static void barrier() {
    i64 t = turn.load();
    if(arrived.incr() == 2) {
        arrived.exchange(0);
        turn.incr();
    } else {
        while(turn.load() == t) {}
    }
}
int main() {
    // Two threads race to claim a ticket that is free (0); exactly one may win, and it must keep it.
    static int last[2];
    auto body = [&](int k) {
        for(int round = 0; round < 300000; round++) {
            if(!k) { slot.exchange(0); wins.exchange(0); }
            barrier();
            bool won = slot.compare_and_swap(0, k + 1) == 0;
            if(won) wins.incr();
            barrier();
            i64 w = wins.load(), s = slot.load();
            REQUIRE(w == 1, "%lld threads won", (long long)w);
            REQUIRE(won == (s == k + 1), "thread %d %s, the slot holds %lld", k + 1, won ? "won" : "lost", (long long)s);
            barrier();
        }
    };
    {
        T_ a{[&]() { body(0); }}, b{[&]() { body(1); }};
    }
    return 0;
}
''')
# ---- C05
bug("c05-assign-empty", "C05",
    "an empty Thread assigned over one that is still running",
    "move-assignment of an empty Thread forgets the running one instead of joining it",
    [("thread.h", ("    Thread& operator=(Thread&& src) noexcept {\n        this->~Thread();", "    Thread& operator=(Thread&& src) noexcept {\n        if(src.thread) this->~Thread();"))],
    PRE + r'''
int main() {
    rpp::Thread::Atomic done;
    T_ t{[&]() {
        usleep(200000);
        done.incr();
    }};
    t = T_{};
    REQUIRE(done.load() == 1, "assignment returned before the thread had finished");
    return 0;
}
''')
bug("c05-double-call-destroy", "C05",
    "a callable whose destructor does something after a move",
    "the stored callable is moved onto the stack and its storage freed without destroying what is left there",
    [("thread.h", ("        F* f = static_cast<F*>(_f);\n        (*f)();\n        f->~F();\n        A::free(f);", "        F f = rpp::move(*static_cast<F*>(_f));\n        A::free(_f); // give the memory back early, threads may be long-lived\n        f();"))],
    PRE + r'''
static int alive;
struct Counted {
    Counted() { alive++; }
    Counted(Counted&&) { alive++; }
    ~Counted() { alive--; }
    void operator()() {}
};
int main() {
    {
        T_ t{Counted{}};
    }
    REQUIRE(alive == 0, "%d callables were not destroyed", alive);
    return 0;
}
''')
# ---- C06
bug("c06-future-borrowed", "C06",
    "the future returned by spawn is dropped while the call is still running",
    "the running call borrows the shared state instead of holding a reference, so it writes its result into freed memory",
    [("thread.h", ("    Thread thread{[future = future.dup(), f =", "    Thread thread{[future = &*future, f ="))],
    PRE + r'''
struct Big { u64 v[32]; };
int main() {
    for(int i = 0; i < 50; i++) {
        rpp::Thread::Flag go, over;
        {
            auto f = rpp::Thread::spawn([&]() { go.block(); Big b; for(auto& x : b.v) x = 7; over.signal(); return b; });
        }
        go.signal();
        over.block();
        usleep(1000);
    }
    return 0;
}
''', flags="-O1 -g -fsanitize=address")
bug("c06-signal-first", "C06",
    "a consumer that reads the result right when ready() turns true",
    "the promise is marked as fulfilled before the value has been moved in",
    [("thread.h", ("        value = rpp::move(val);\n        flag.signal();", "        flag.signal();\n        value = rpp::move(val);"))],
    PRE + r'''
struct Big { u64 v[4000]; };
int main() {
    for(int i = 1; i < 3000; i++) {
        auto* p = new rpp::Thread::Promise<Big>;
        Big* b = new Big;
        for(auto& x : b->v) x = i;
        T_ t{[&]() { p->fill(rpp::move(*b)); }};
        while(!p->ready()) {}
        Big r = p->block();
        for(auto& x : r.v) REQUIRE(x == (u64)i, "the value is incomplete");
        t.join();
        delete p;
        delete b;
    }
    return 0;
}
''')
# ---- C07
bug("c07-last-check", "C07",
    "the last two references dropped at the same moment by two threads",
    "drop() tests for being the last holder before it decrements: two droppers both see two references and nobody destroys",
    [("rc.h", ("        if(data_->references.decr() == 0) {\n            data_->value.destruct();", "        if(data_->references.load() > 1) {\n            data_->references.decr();\n        } else {\n            data_->value.destruct();"))],
    PRE + r'''
static rpp::Thread::Atomic made, dead;
struct Obj { Obj() { made.incr(); } ~Obj() { dead.incr(); } };
int main() {
    for(int round = 0; round < 300; round++) {
        constexpr int N = 500;
        static Arc<Obj> a[N], b[N];
        for(int i = 0; i < N; i++) a[i] = Arc<Obj>::make(), b[i] = a[i].dup();
        static rpp::Thread::Atomic step[2];
        step[0].exchange(-1); step[1].exchange(-1);
        auto body = [&](Arc<Obj>* x, int me) {
            for(int i = 0; i < N; i++) {
                step[me].exchange(i);
                for(int k = 0; k < 3000 && step[1 - me].load() < i; k++) {}
                x[i].clear();
            }
        };
        T_ t{[&]() { body(a, 0); }}, u{[&]() { body(b, 1); }};
        t.join(); u.join();
        REQUIRE(made.load() == dead.load(), "%lld objects were never destroyed", (long long)(made.load() - dead.load()));
    }
    return 0;
}
''')
# ---- C08
bug("c08-suspend-exchange", "C08",
    "a task that finishes on another thread between the awaiter's check and its registration",
    "await_suspend overwrites the state after testing it: a task that finished in between is never noticed and its consumer never continues",
    [("async.h", ("        return handle.promise().state.compare_and_swap(TASK_START, cont) == TASK_START;", "        if(handle.promise().state.load() == TASK_DONE) return false;\n        handle.promise().state.exchange(cont);\n        return true;"))],
    PRE + r'''
using namespace rpp::Async;
int main() {
    rpp::Async::Pool<> pool;
    for(int i = 0; i < 20000; i++) {
        auto inner = [](rpp::Async::Pool<>& pool) -> Task<i32> { co_await pool.suspend(); co_return 1; };
        auto outer = [&](rpp::Async::Pool<>& pool, int spin) -> Task<i32> {
            auto t = inner(pool);
            for(volatile int k = 0; k < spin; k++) {}
            co_return co_await t;
        };
        auto t = outer(pool, (i * 37) % 3000);
        for(int k = 0; !t.done(); k++) {
            if(k > 1000) usleep(1000);
            REQUIRE(k < 6000, "the consumer never continued (round %d)", i);
        }
        (void)t.block();
    }
    return 0;
}
''')
# ---- C09
# ---- C10
bug("c10-signal-unlocked", "C10",
    "a worker that has looked at the shutdown flag and is about to sleep when the pool is destroyed",
    "the destructor signals the workers without taking their mutex, so the wake-up can fall between a worker's check and its wait and the destructor hangs in join",
    [("pool.h", ("            Thread::Lock lock(state.mut);\n            state.cond.signal();\n        }\n        threads.clear();", "            state.cond.signal();\n        }\n        threads.clear();"))],
    PRE + r'''
using namespace rpp::Async;
// A thread is slow to fall asleep (it still holds the mutex).
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    usleep(30000);
    return real(c, m);
}
int main() {
    for(int i = 0; i < 20; i++) {
        rpp::Async::Pool<> pool;
        usleep(i * 2000);
    }
    return 0;
}
''', timeout=20)
# ---- C11
bug("c11-batch-reset", "C11",
    "a coroutine that starts waiting on an event just while the event thread takes over earlier ones",
    "the event thread clears its wake-up event after it has let go of the lock, swallowing the wake-up of a coroutine that came in between",
    [("pool.h", ("            Thread::Lock lock(events_mut);\n            if(idx == 0) {\n                if(shutdown.load()) return;\n\n                for(auto& [event, state] : events_to_enqueue) {\n                    pending_events.push(rpp::move(event));\n                    pending_event_jobs.push(rpp::move(state));\n                }\n                events_to_enqueue.clear();\n\n                pending_events[0].reset();\n            } else {",
      "            if(idx == 0) {\n                {\n                    Thread::Lock lock(events_mut);\n                    if(shutdown.load()) return;\n\n                    for(auto& [event, state] : events_to_enqueue) {\n                        pending_events.push(rpp::move(event));\n                        pending_event_jobs.push(rpp::move(state));\n                    }\n                    events_to_enqueue.clear();\n                }\n                pending_events[0].reset();\n            } else {\n                Thread::Lock lock(events_mut);"))],
    PRE + r'''
using namespace rpp::Async;
// Clearing an event takes its time.
ssize_t read(int fd, void* b, size_t n) {
    static auto real = REAL(read);
    if(n == 8) usleep(20000);
    return real(fd, b, n);
}
int main() {
    rpp::Async::Pool<> pool;
    rpp::Thread::Atomic over;
    auto waiter = [&]() -> Task<void> {
        Event e;
        e.signal();
        co_await pool.event(rpp::move(e));
        over.incr();
    };
    Vec<Task<void>> ts;
    for(int i = 0; i < 30; i++) {
        ts.push(waiter());
        usleep(7000);
    }
    for(int k = 0; over.load() < 30; k++) {
        REQUIRE(k < 5000, "%d of 30 coroutines were resumed", (int)over.load());
        usleep(1000);
    }
    for(auto& t : ts) t.block();
    return 0;
}
''')
bug("c11-jobs-shifted", "C11",
    "at least three coroutines waiting on events that fire out of order",
    "the event that fired is swapped with the last one, but its coroutine is erased by shifting, so the remaining events and coroutines no longer belong together",
    [("pool.h", ("                    swap(pending_events[idx], pending_events.back());\n                    swap(pending_event_jobs[idx - 1], pending_event_jobs.back());\n                }",
      "                    swap(pending_events[idx], pending_events.back());\n                    for(u64 i = idx; i < pending_event_jobs.length(); i++) {\n                        swap(pending_event_jobs[i - 1], pending_event_jobs[i]);\n                    }\n                }"))],
    PRE + r'''
using namespace rpp::Async;
int main() {
    rpp::Async::Pool<> pool;
    constexpr int N = 5;
    int fds[N];
    static rpp::Thread::Atomic over[N];
    auto waiter = [&](int i) -> Task<void> {
        co_await pool.event(Event::of_sys(dup(fds[i]), EPOLLIN));
        over[i].incr();
    };
    Vec<Task<void>> ts;
    for(int i = 0; i < N; i++) {
        fds[i] = eventfd(0, EFD_NONBLOCK);
        ts.push(waiter(i));
        usleep(20000);
    }
    static const int order[] = {0, 3, 1, 4, 2};
    for(int n = 0; n < N; n++) {
        eventfd_write(fds[order[n]], 1);
        usleep(50000);
        for(int i = 0; i < N; i++) {
            bool want = false;
            for(int k = 0; k <= n; k++) want |= order[k] == i;
            REQUIRE(!!over[i].load() == want, "after event %d: coroutine %d was %sresumed", order[n], i, over[i].load() ? "" : "not ");
        }
    }
    for(auto& t : ts) t.block();
    return 0;
}
''')
# ---- C12
bug("c12-whole-seconds", "C12",
    "a wait of more than a second that is not a whole number of seconds",
    "long waits are rounded down to whole seconds",
    [("pos/asyncio_pos.cpp", ("    spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "    spec.it_value.tv_nsec = ms < 1000 ? ms * 1000000 : 0; // let long timers expire together"))],
    PRE + r'''
using namespace rpp::Async;
int main() {
    rpp::Async::Pool<> pool;
    for(u64 ms : {20, 1300}) {
        u64 t0 = rpp::Thread::perf_counter();
        auto t = wait(pool, ms);
        t.block();
        u64 dt = rpp::Thread::perf_counter() - t0;
        REQUIRE(dt >= ms * 1000000, "a wait of %d ms took %d ms", (int)ms, (int)(dt / 1000000));
    }
    return 0;
}
''')
bug("c12-absolute-wall", "C12",
    "a wall clock that is stepped while a coroutine waits",
    "the timer is armed with an absolute wall-clock deadline, so stepping the clock shortens or lengthens the wait",
    [("pos/asyncio_pos.cpp", ("    int fd = timerfd_create(CLOCK_MONOTONIC, TFD_CLOEXEC);", "    int fd = timerfd_create(CLOCK_REALTIME, TFD_CLOEXEC);"),
      ("    itimerspec spec = {};\n    spec.it_value.tv_sec = ms / 1000;\n    spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "    itimerspec spec = {};\n    clock_gettime(CLOCK_REALTIME, &spec.it_value);\n    spec.it_value.tv_sec += ms / 1000;\n    spec.it_value.tv_nsec += (ms % 1000) * 1000000;\n    if(spec.it_value.tv_nsec >= 1000000000) {\n        spec.it_value.tv_nsec -= 1000000000;\n        spec.it_value.tv_sec++;\n    }"),
      ("    if(timerfd_settime(fd, 0, &spec, null) == -1) {", "    if(timerfd_settime(fd, TFD_TIMER_ABSTIME, &spec, null) == -1) {"))],
    PRE + r'''
#include <sys/timerfd.h>
using namespace rpp::Async;
// The wall clock was 10 s behind when it was read, and is set right before the timer is armed.
int clock_gettime(clockid_t c, timespec* t) {
    static auto real = REAL(clock_gettime);
    int r = real(c, t);
    if(c == CLOCK_REALTIME) t->tv_sec -= 10;
    return r;
}
int main() {
    rpp::Async::Pool<> pool;
    u64 t0 = rpp::Thread::perf_counter();
    auto t = wait(pool, 300);
    t.block();
    u64 dt = rpp::Thread::perf_counter() - t0;
    REQUIRE(dt >= 300000000, "a wait of 300 ms took %d ms", (int)(dt / 1000000));
    REQUIRE(dt < 5000000000ull, "a wait of 300 ms took %d ms", (int)(dt / 1000000));
    return 0;
}
''')
# ---- C13
bug("c13-exclusive", "C13",
    "two threads in wait_any on the same event when it is signalled",
    "the event is registered for exclusive wake-ups, so a signal reaches only one of the threads waiting for it",
    [("pos/async_pos.cpp", ("        ev.events = event.mask;", "        ev.events = event.mask | EPOLLEXCLUSIVE; // no thundering herd"))],
    PRE + r'''
using namespace rpp::Async;
int main() {
    Event e[1];
    rpp::Thread::Atomic returned;
    for(int i = 0; i < 4; i++) T_{[&]() {
        (void)Event::wait_any(Slice<Event>{e, 1});
        returned.incr();
    }}.detach();
    usleep(200000);
    e[0].signal();
    for(int i = 0; i < 3000 && returned.load() < 4; i++) usleep(1000);
    REQUIRE(returned.load() == 4, "%d of 4 waiters of a signalled event returned", (int)returned.load());
    _exit(0);
}
''')
bug("c13-drain", "C13",
    "an event that was signalled more than once before it is reset",
    "events are created as semaphores, so each reset takes back one signal only and the event stays signalled after reset()",
    [("pos/async_pos.cpp", ("    int event = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);", "    int event = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);"))],
    PRE + r'''
using namespace rpp::Async;
int main() {
    Event e[2];
    e[0].signal();
    e[0].signal();
    e[0].reset();
    e[1].signal();
    u64 i = Event::wait_any(Slice<Event>{e, 2});
    REQUIRE(i == 1, "wait_any returned event %d, which was reset", (int)i);
    return 0;
}
''')
# ---- C14
bug("c14-wall-counter", "C14",
    "a wall clock that is set back between two readings",
    "the performance counter reads the wall clock",
    [("pos/thread_pos.cpp", ("    clock_gettime(CLOCK_MONOTONIC, &now);", "    clock_gettime(CLOCK_REALTIME, &now);"))],
    PRE + r'''
static int back;
int clock_gettime(clockid_t c, timespec* t) {
    static auto real = REAL(clock_gettime);
    int r = real(c, t);
    if(c == CLOCK_REALTIME) t->tv_sec -= back;
    return r;
}
int main() {
    u64 a = rpp::Thread::perf_counter();
    back = 3600;
    u64 b = rpp::Thread::perf_counter();
    REQUIRE(b >= a && b - a < 1000000000, "the counter went from %llu to %llu", (unsigned long long)a, (unsigned long long)b);
    return 0;
}
''')
# ---- C17
bug("c17-keep-newest", "C17",
    "a file whose modification time moves back (restored from a backup) and then forward again, below the newest time seen",
    "the watcher only remembers the newest time it has seen, so it misses modifications after the time went back",
    [("files.h", ("        last_write_time_ = *time;\n        return ret;", "        if(ret) last_write_time_ = *time;\n        return ret;"))],
    PRE + r'''
static void set(int s) {
    timespec t[2] = {{s, 0}, {s, 0}};
    utimensat(AT_FDCWD, "f", t, 0);
}
int main() {
    close(open("f", O_CREAT | O_WRONLY, 0644));
    set(1000000);
    Files::Write_Watcher w{"f"_v};
    REQUIRE(!w.poll(), "a change was reported");
    set(900000);
    REQUIRE(!w.poll(), "a change was reported when the time went back");
    set(950000);
    REQUIRE(w.poll(), "a modification was missed");
    REQUIRE(!w.poll(), "a modification was reported twice");
    return 0;
}
''')
# ---- C18
bug("c18-static-source", "C18",
    "two threads receiving on sockets of their own at the same time",
    "the source address is received into storage shared by all threads",
    [("pos/net_pos.cpp", ("    Address src;\n    socklen_t src_len", "    static Address src;\n    socklen_t src_len"))],
    PRE + r'''
using namespace rpp::Net;
#include <sys/socket.h>
static thread_local u16 my_sender;
// The thread is descheduled right after the kernel has filled in the address.
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) {
    static auto real = REAL(recvfrom);
    ssize_t r = real(fd, b, n, fl, a, l);
    if(r >= 0) sched_yield();
    return r;
}
int main() {
    auto run = [](u16 base) {
        Udp in, out;
        in.bind(Address{"127.0.0.1"_v, base});
        out.bind(Address{"127.0.0.1"_v, (u16)(base + 1)});
        Packet p;
        for(int i = 0; i < 100000; i++) {
            (void)out.send(Address{"127.0.0.1"_v, base}, p, 4);
            auto r = in.recv(p);
            if(!r.ok()) continue;
            sockaddr_in s;
            memcpy(&s, &r->from, sizeof s);
            REQUIRE(ntohs(s.sin_port) == base + 1, "a packet from port %d is said to come from %d", base + 1, ntohs(s.sin_port));
        }
    };
    T_ a{[&]() { run(21000); }}, b{[&]() { run(21010); }}, c{[&]() { run(21020); }};
    return 0;
}
''')
bug("c18-empty-packet", "C18",
    "a packet of no bytes",
    "a packet without contents is taken for the absence of a packet",
    [("pos/net_pos.cpp", ("    i64 ret = ::recvfrom(", "    i64 ret = -1, n = ::recvfrom("), ("reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);\n", "reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);\n    if(n > 0) ret = n;\n"))],
    PRE + r'''
using namespace rpp::Net;
int main() {
    Udp in, out;
    in.bind(Address{"127.0.0.1"_v, 21100});
    Packet p;
    (void)out.send(Address{"127.0.0.1"_v, 21100}, p, 0);
    usleep(50000);
    auto r = in.recv(p);
    REQUIRE(r.ok() && r->length == 0, "an empty packet was not returned");
    return 0;
}
''')
# ---- C19
bug("c19-cached-epoll", "C19",
    "several threads that use wait_any and end",
    "wait_any keeps an epoll descriptor per thread, which nobody closes when the thread ends",
    [("pos/async_pos.cpp", ("    int epfd = epoll_create1(EPOLL_CLOEXEC);\n    if(epfd == -1) {", "    static thread_local int epfd = -1;\n    if(epfd == -1) epfd = epoll_create1(EPOLL_CLOEXEC);\n    if(epfd == -1) {"),
      ("    ret = close(epfd);\n    assert(ret == 0);\n", "    for(auto& event : events) {\n        epoll_ctl(epfd, EPOLL_CTL_DEL, event.fd, null);\n    }\n"))],
    PRE + r'''
using namespace rpp::Async;
static int open_fds() {
    int n = 0;
    for(int i = 0; i < 200; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
int main() {
    int before = open_fds();
    for(int i = 0; i < 10; i++) {
        T_ t{[]() {
            Event e[1];
            e[0].signal();
            (void)Event::wait_any(Slice<Event>{e, 1});
        }};
    }
    REQUIRE(open_fds() == before, "%d descriptors before, %d after", before, open_fds());
    return 0;
}
''')
# ---- C20
# ---- C21
# ---- C22
bug("c22-neighbours-unlocked", "C22",
    "two threads freeing neighbouring ranges at the same moment",
    "free() looks at the neighbours of the range before it takes the lock",
    [("range_allocator.h", ("        Thread::Lock lock(mutex);\n\n        Block* block = allocation;\n        Block* prev = block->prev_block;\n        Block* next = block->next_block;\n        u64 free_size = block->size;\n",
      "        Block* block = allocation;\n        Block* prev = block->prev_block;\n        Block* next = block->next_block;\n        u64 free_size = block->size;\n\n        Thread::Lock lock(mutex);\n"))],
    PRE + r'''
int main() {
    for(int round = 0; round < 20; round++) {
        Range_Allocator<> ra{1 << 20};
        rpp::Thread::Atomic go;
        auto body = [&]() {
            go.incr();
            while(go.load() < 4) {}
            Range_Allocator<>::Range r[16];
            for(int i = 0; i < 3000; i++) {
                for(auto& x : r) { auto o = ra.allocate(64, 1); REQUIRE(o.ok(), "allocation failed"); x = *o; }
                for(auto& x : r) ra.free(x);
            }
        };
        {
            T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }};
        }
        auto s = ra.statistics();
        REQUIRE(s.free_blocks == 1 && s.free_size == 1 << 20, "%llu free blocks, %llu bytes", (unsigned long long)s.free_blocks, (unsigned long long)s.free_size);
        auto all = ra.allocate(1 << 20, 1);
        REQUIRE(all.ok(), "the heap is not one block");
        ra.free(*all);
    }
    return 0;
}
''')
# ---- C23
bug("c23-narrow-size", "C23",
    "one allocation of 2 GB or more",
    "the size of a freed block passes through 32 bits, so the report says memory is unbalanced although it is not",
    [("impl/profile.cpp", ("                    i64 size = **sz;", "                    i32 size = static_cast<i32>(**sz);"))],
    PRE + r'''
int main() {
    using M = Mallocator<"Demo">;
    static String<Mhidden> text;
    static bool bad;
    void* p = M::alloc(3ull << 30);
    M::free(p);
    auto t = Log::subscribe([](Log::Level l, rpp::Thread::Id, Log::Time, Log::Location, String_View s) {
        if(l == Log::Level::warn) {
            char b[200] = {};
            memcpy(b, s.data(), s.length() < 199 ? s.length() : 199);
            if(strstr(b, "Unbalanced size")) bad = true;
        }
    });
    // (the subscriber itself is an allocation, so finalize reports a leak: not what this is about)
    atexit([]() { if(bad) { printf("FAILED: balanced allocations reported as unbalanced\n"); fflush(stdout); _exit(1); } _exit(0); });
    Profile::finalize();
    return 0;
}
''')
# ---- C24
bug("c24-time-back", "C24",
    "the wall clock stepping back between two messages of one thread",
    "the text of the time is kept while the second has not moved on, so a message after a step back carries a time of the future",
    [("impl/log.cpp", ("    static thread_local char buffer[buffer_size];\n\n    ::tm tm_info;", "    static thread_local char buffer[buffer_size];\n    static thread_local ::time_t shown = 0;\n    static thread_local size_t length = 0;\n    if(length && timestamp <= shown) { // the same second\n        return String_View{reinterpret_cast<const u8*>(buffer), static_cast<u64>(length)};\n    }\n    shown = timestamp;\n\n    ::tm tm_info;"),
      ("    size_t written = ::strftime(buffer,", "    size_t written = length = ::strftime(buffer,"))],
    PRE + r"""
int main() {
    u8 a[10], b[10], c[10];
    auto get = [](u64 t, u8* o) {
        String_View v = Log::sys_time_string(t);
        for(u64 i = 0; i < 10; i++) o[i] = v[i];
    };
    get(1000000, a);
    get(1000050, b);
    get(1000000, c);
    for(u64 i = 0; i < 10; i++) REQUIRE(a[i] == c[i], "the same time has two texts");
    return 0;
}
""")
# ---- C25
bug("c25-uptime-precision", "C25",
    "a machine that has been up for weeks",
    "begin_frame subtracts two times that were already rounded to float",
    [("impl/profile.cpp", ("        ret = ms(t - prev_frame.nodes[0].begin) / 1000.0f;", "        ret = s(t) - s(prev_frame.nodes[0].begin);"))],
    PRE + r'''
int clock_gettime(clockid_t c, timespec* t) {
    static auto real = REAL(clock_gettime);
    int r = real(c, t);
    if(c == CLOCK_MONOTONIC) t->tv_sec += 60 * 86400;
    return r;
}
int main() {
    (void)Profile::begin_frame();
    Profile::end_frame();
    usleep(16000);
    f32 dt = Profile::begin_frame();
    Profile::end_frame();
    REQUIRE(dt > 0.015f && dt < 1.0f, "a frame of 16 ms took %f s", dt);
    return 0;
}
''')
# ---- C26
bug("c26-frames-unlocked", "C26",
    "another thread reading the timings just when a frame ends",
    "end_frame gives its lock up before it computes the times",
    [("impl/profile.cpp", ("    Thread_Profile& prof = this_thread;\n    Thread::Lock lock(prof.frames_lock);\n\n    assert(!prof.frames.empty());\n\n    Frame_Profile& this_frame = prof.frames.back();\n    this_frame.end();\n\n    prof.during_frame = false;",
      "    Thread_Profile& prof = this_thread;\n    {\n        Thread::Lock lock(prof.frames_lock);\n        assert(!prof.frames.empty());\n        prof.during_frame = false;\n    }\n\n    Frame_Profile& this_frame = prof.frames.back();\n    this_frame.end();"))],
    PRE + r'''
int main() {
    rpp::Thread::Atomic quit;
    T_ t{[&]() {
        while(!quit.load()) {
            (void)Profile::begin_frame();
            for(int i = 0; i < 50; i++) { Trace("scope"_v) { Trace("inner"_v) {} } }
            Profile::end_frame();
        }
    }};
    for(int i = 0; i < 200000; i++) {
        Profile::iterate_timings([&](rpp::Thread::Id, const Profile::Timing_Node& n) {
            REQUIRE(n.end >= n.begin, "a frame that is not complete was visited");
        });
    }
    quit.incr();
    t.join();
    return 0;
}
''', timeout=120)
# ---- C27
bug("c27-thread-retry", "C27",
    "a process that has reached its limit of threads",
    "creating a thread is retried for ever instead of stopping the program",
    [("pos/thread_pos.cpp", ("    int ret = pthread_create(&thread, null, f, data);\n    if(ret) {", "    int ret = 0;\n    while((ret = pthread_create(&thread, null, f, data)) == EAGAIN) sleep(1);\n    if(ret) {"))],
    PRE + r'''
#include <sys/wait.h>
int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) { return EAGAIN; }
int main() {
    int pid = fork();
    if(!pid) {
        signal(SIGTRAP, SIG_IGN);
        T_ t{[]() {}};
        _exit(0);
    }
    int st = 0;
    for(int i = 0; i < 5000; i++) {
        if(waitpid(pid, &st, WNOHANG) == pid) {
            REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "the program went on without its thread");
            return 0;
        }
        usleep(1000);
    }
    kill(pid, SIGKILL);
    REQUIRE(false, "the program hangs when no thread can be created");
}
''')
bug("c27-log-null-alloc", "C27",
    "memory running out for a large allocation",
    "a failed allocation is retried with what the size rounds to, and an impossible one returns null without stopping",
    [("impl/alloc.cpp", ("    void* ret = malloc(sz);\n", "    void* ret = malloc(sz);\n    if(!ret && sz >= Math::GB(1)) return ret; // nobody can have that much\n"), ("[[nodiscard]] void* sys_alloc(u64 sz) noexcept {", "[[nodiscard]] void* sys_alloc(const u64 sz) noexcept {"))],
    PRE + r'''
#include <sys/wait.h>
int main() {
    int pid = fork();
    if(!pid) {
        signal(SIGTRAP, SIG_IGN);
        void* p = Mhidden::alloc(~0ull >> 4);
        _exit(p ? 0 : 77);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 77), "the program went on with a null pointer");
    return 0;
}
''')

bug("c20-chunk-size", "C20",
    "a region allocation that ends within the last 24 bytes of a chunk that was added",
    "the header is counted as usable space of a new chunk, so the last allocation in it runs over its end",
    [("impl/alloc.cpp", ("    chunk->size = size - sizeof(Chunk);", "    chunk->size = size;"))],
    PRE + r"""
int main() {
    Region(R) {
        memset(Mregion<R>::alloc(2000), 1, 2000);
        for(int i = 0; i < 64; i++) memset(Mregion<R>::alloc(24), 2, 24);
    }
    return 0;
}
""", flags="-O1 -g -fsanitize=address")
bug("c20-keep-chunk", "C20",
    "a region whose own allocations are all gone when it ends, in a chunk that was added",
    "the last empty chunk is kept when it is small, and nobody frees it when the thread ends",
    [("impl/alloc.cpp", ("    if(chunks->used == 0 && chunks->up != null) {", "    // Keep a small chunk, it will be needed again.\n    if(chunks->used == 0 && chunks->up != null && chunks->size >= Math::KB(4)) {"))],
    PRE + r"""
int main() {
    { T_ t{[]() {}}; }
    i64 before = sys_net_allocs();
    for(int i = 0; i < 10; i++) {
        T_ t{[]() {
            Region(R) memset(Mregion<R>::alloc(1200), 1, 1200);
        }};
    }
    REQUIRE(sys_net_allocs() == before, "%d allocations are left after all regions ended", (int)(sys_net_allocs() - before));
    return 0;
}
""")
bug("c21-contended-small", "C21",
    "two threads allocating from the pool of a type smaller than a pointer at the same moment",
    "a contended make() takes its block straight from the system, with the size of the object instead of the size of a free-list node",
    [("alloc1.h", ("            Thread::Lock lock(mutex);\n            block = blocks.list.make();", "            if(mutex.try_lock()) {\n                block = blocks.list.make();\n                mutex.unlock();\n            } else { // do not wait, the system has blocks too\n                block = reinterpret_cast<Block*>(Backing::alloc(sizeof(Block)));\n            }"))],
    PRE + r"""
int main() {
    rpp::Thread::Atomic go;
    auto body = [&]() {
        go.incr();
        while(go.load() < 4) {}
        for(int i = 0; i < 20000; i++) {
            u8* p = Mpool::make<u8>(u8{1});
            Mpool::destroy(p);
        }
    };
    {
        T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }};
    }
    return 0;
}
""", flags="-O1 -g -fsanitize=address")
bug("c15-fd-zero", "C15",
    "a program whose standard input is closed, so that the file gets descriptor 0",
    "descriptor 0 is taken for a failure to open: the read fails although the file can be read (and leaks the descriptor)",
    [("pos/files_pos.cpp", ("    if(fd == -1) {\n        warn(\"Failed to open file", "    if(fd <= 0) {\n        warn(\"Failed to open file"))],
    PRE + r"""
int main() {
    FILE* f = fopen("f", "w");
    fputs("hello", f);
    fclose(f);
    close(0);
    auto d = Files::read("f"_v);
    REQUIRE(d.ok() && d->length() == 5, "the file was not read");
    return 0;
}
""")
bug("c19-fd-zero", "C19",
    "a program whose standard input is closed, so that the socket gets descriptor 0",
    "descriptor 0 is taken for no socket and never closed",
    [("pos/net_pos.cpp", ("Udp::~Udp() noexcept {\n    if(fd != -1) {", "Udp::~Udp() noexcept {\n    if(fd > 0) {"))],
    PRE + r"""
int main() {
    close(0);
    { Net::Udp u; }
    REQUIRE(fcntl(0, F_GETFD) == -1, "the socket is still open");
    return 0;
}
""")
bug("c17-static-stat", "C17",
    "two watchers polled by two threads at the same time",
    "the status of a file is read into storage shared by all threads",
    [("pos/files_pos.cpp", ("        struct stat info;\n        if(stat(", "        static struct stat info;\n        if(stat("))],
    PRE + r"""
// The thread loses the processor right after the kernel has answered.
int stat(const char* p, struct stat* s) {
    static auto real = REAL(stat);
    int r = real(p, s);
    usleep(100);
    return r;
}
static void set(const char* p, int s) {
    timespec t[2] = {{s, 0}, {s, 0}};
    close(open(p, O_CREAT | O_WRONLY, 0644));
    utimensat(AT_FDCWD, p, t, 0);
}
int main() {
    set("a", 1000);
    set("b", 2000);
    auto run = [](String_View p) {
        Files::Write_Watcher w{rpp::move(p)};
        for(int i = 0; i < 1000; i++) REQUIRE(!w.poll(), "an unchanged file was reported");
    };
    T_ a{[&]() { run("a"_v); }}, b{[&]() { run("b"_v); }};
    return 0;
}
""")
bug("c16-dup-close", "C16",
    "a close that reports what could not be written",
    "the bytes are written through a duplicate, and only the original's close is looked at; a delayed error is not reported",
    [("pos/files_pos.cpp", ("        warn(\"Failed to create file %: %\", path_, Log::sys_error());\n        return false;\n    }\n", "        warn(\"Failed to create file %: %\", path_, Log::sys_error());\n        return false;\n    }\n    if(data.empty()) return close(fd) == 0 || true; // nothing to write\n"), ("    if(close(fd) == -1) {\n        warn(\"Failed to close file %: %\", path_, Log::sys_error());\n        return false;\n    }\n    return true;", "    i32 ret = close(fd);\n    if(ret == -1 && errno != EIO) {\n        warn(\"Failed to close file %: %\", path_, Log::sys_error());\n    }\n    return ret == 0 || errno == EIO;"))],
    PRE + r"""
static bool fail;
int close(int fd) {
    static auto real = REAL(close);
    int r = real(fd);
    if(fail && fd > 2) { errno = EIO; return -1; }
    return r;
}
int main() {
    u8 b[4] = {};
    fail = true;
    bool ok = Files::write("f"_v, Slice<const u8>{b, 4});
    fail = false;
    REQUIRE(!ok, "a failed close was reported as success");
    return 0;
}
""")

bug("c23-count-unlocked", "C23",
    "two threads allocating at the same moment",
    "the net count is read and written in two steps, so an update is lost",
    [("impl/alloc.cpp", ("    g_net_allocs.incr();", "    g_net_allocs.exchange(g_net_allocs.load() + 1);"))],
    PRE + r"""
int main() {
    { T_ t{[]() {}}; }
    i64 before = sys_net_allocs();
    {
        auto body = []() { for(int i = 0; i < 100000; i++) { void* p = Mhidden::alloc(8); Mhidden::free(p); } };
        T_ a{[&]() { body(); }}, b{[&]() { body(); }}, c{[&]() { body(); }}, d{[&]() { body(); }};
    }
    REQUIRE(sys_net_allocs() == before, "%lld allocations before, %lld after", (long long)before, (long long)sys_net_allocs());
    return 0;
}
""")
bug("c09-if-wait", "C09",
    "a worker that wakes up although nobody signalled it",
    "the worker looks at its queue once more only before it sleeps, not after it woke up",
    [("pool.h", ("                while(state.jobs.empty() && !shutdown.load()) {", "                if(state.jobs.empty() && !shutdown.load()) {"))],
    PRE + r"""
// A condition variable may wake up spuriously.
static rpp::Thread::Atomic waits;
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if(waits.incr() % 5 == 0) return 0;
    return real(c, m);
}
int main() {
    rpp::Async::Pool<> pool;
    for(int i = 0; i < 100; i++) {
        auto job = [&]() -> rpp::Async::Task<i32> { co_await pool.suspend(); co_return 7; };
        auto t = job();
        REQUIRE(t.block() == 7, "a wrong result");
    }
    return 0;
}
""")
