# The fifth list. Same format.
PRE = open(os.path.join(ROOT, "tools", "bugs1.py")).read().split("r'''", 1)[1].split("'''", 1)[0]
bug("c13-index-byte", "C13",
    "waiting for more than 256 events when one of the later ones is signalled",
    "the index of the signalled event is kept in one byte",
    [("pos/async_pos.cpp", ("            return i;\n        }\n    }\n    RPP_UNREACHABLE", "            const u8 index = static_cast<u8>(i);\n            return index;\n        }\n    }\n    RPP_UNREACHABLE"))],
    PRE + r'''
int main() {
    alarm(20);
    static rpp::Async::Event e[400];
    for(u64 k : {u64{3}, u64{255}, u64{256}, u64{399}}) {
        e[k].signal();
        if(rpp::Async::Event::wait_any(Slice<rpp::Async::Event>{e, 400}) != k) return 1;
        e[k].reset();
    }
    return 0;
}
''')
bug("c11-move-mask", "C11",
    "waiting in a pool for a descriptor to become writable",
    "an event that is moved waits for its descriptor to be readable, whatever it waited for before",
    [("pos/async_pos.cpp", ("    mask = other.mask;\n    other.mask = 0;\n}\n\nEvent& Event", "    mask = fd == -1 ? 0 : EPOLLIN;\n    other.mask = 0;\n}\n\nEvent& Event"))],
    PRE + r'''
#include <sys/eventfd.h>
#include <sys/epoll.h>
static rpp::Async::Task<void> writable(rpp::Async::Pool<>& pool) {
    co_await pool.event(rpp::Async::Event::of_sys(eventfd(0, 0), EPOLLOUT));
}
int main() {
    alarm(10);
    rpp::Async::Pool<> pool;
    auto t = writable(pool);
    t.block();
    return 0;
}
''')
bug("c01-patience", "C01",
    "a mutex whose owner keeps it for seconds",
    "lock gives up waiting after two seconds, as if the owner were gone",
    [("pos/thread_pos.cpp", ("    int ret = pthread_mutex_lock(&lock_);\n", "    timespec limit;\n    clock_gettime(CLOCK_REALTIME, &limit);\n    limit.tv_sec += 2;\n    int ret = pthread_mutex_timedlock(&lock_, &limit);\n    if(ret == ETIMEDOUT) return;\n"))],
    PRE + r'''
static Thread::Mutex m;
static bool owned = false, bad = false;
int main() {
    alarm(20);
    m.lock();
    owned = true;
    Thread::Thread t{[]() {
        m.lock();
        bad = __atomic_load_n(&owned, __ATOMIC_SEQ_CST);
        if(bad) _exit(1);
        m.unlock();
    }};
    sleep(4);
    __atomic_store_n(&owned, false, __ATOMIC_SEQ_CST);
    m.unlock();
    t.join();
    return bad;
}
''')
bug("c05-join-patience", "C05",
    "joining a thread that goes on for seconds",
    "join gives up after two seconds and lets the thread go",
    [("pos/thread_pos.cpp", ("    int ret = pthread_join(thread, null);\n", "    timespec limit;\n    clock_gettime(CLOCK_REALTIME, &limit);\n    limit.tv_sec += 2;\n    int ret = pthread_timedjoin_np(thread, null, &limit);\n    if(ret == ETIMEDOUT) ret = pthread_detach(thread);\n"))],
    PRE + r'''
static bool over = false;
int main() {
    alarm(20);
    Thread::Thread t{[]() {
        sleep(4);
        __atomic_store_n(&over, true, __ATOMIC_SEQ_CST);
    }};
    t.join();
    return !__atomic_load_n(&over, __ATOMIC_SEQ_CST);
}
''')
bug("c06-future-patience", "C06",
    "blocking on a future that takes seconds to be filled",
    "a wait on a flag ends after two seconds even though nobody has signalled it",
    [("pos/thread_pos.cpp", ("        int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);\n", "        timespec limit = {2, 0};\n        int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, &limit, NULL, 0);\n        if(ret == -1 && errno == ETIMEDOUT) return;\n"))],
    PRE + r'''
int main() {
    alarm(20);
    auto f = Thread::spawn([]() -> u64 {
        sleep(4);
        return 7;
    });
    u64 v = f->block();
    if(v != 7) _exit(1);
    return 0;
}
''')
bug("c12-hour", "C12",
    "an asynchronous wait of more than an hour and twelve minutes",
    "the length of a wait is computed in microseconds of 32 bits",
    [("pos/asyncio_pos.cpp", ("    spec.it_value.tv_sec = ms / 1000;\n    spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "    const u32 us = static_cast<u32>(ms) * 1000;\n    spec.it_value.tv_sec = us / 1000000;\n    spec.it_value.tv_nsec = us % 1000000 * 1000;"))],
    PRE + r'''
#include <rpp/asyncio.h>
static rpp::Async::Task<void> one(rpp::Async::Pool<>& pool, u64 ms) {
    co_await rpp::Async::wait(pool, ms);
}
int main() {
    // 2^32 microseconds and a little more.
    static rpp::Async::Pool<>* pool = new rpp::Async::Pool<>;
    auto t = one(*pool, 4294968);
    for(int i = 0; i < 20 && !t.done(); i++) usleep(100000);
    _exit(t.done());
}
''')
bug("c11-push-late", "C11",
    "a coroutine that starts waiting while the event thread is about to take over others",
    "the event thread is told of a new event before the event is in the list",
    [("pool.h", ("        events_to_enqueue.emplace(rpp::move(event), rpp::move(job));\n        pending_events[0].signal();", "        pending_events[0].signal();\n        events_mut.unlock();\n        events_mut.lock();\n        events_to_enqueue.emplace(rpp::move(event), rpp::move(job));"))],
    PRE + r'''
static Thread::Atomic done;
static rpp::Async::Task<void> one(rpp::Async::Pool<>& pool) {
    rpp::Async::Event e;
    e.signal();
    co_await pool.event(rpp::move(e));
    done.incr();
}
int main() {
    alarm(100);
    rpp::Async::Pool<> pool;
    for(u64 r = 0; r < 20000; r++) {
        i64 before = done.load();
        auto t = one(pool);
        for(u64 w = 0; done.load() != before + 1; w++) {
            if(w > 2000) usleep(1000);
            if(w > 7000) _exit(1);
        }
    }
    return 0;
}
''', timeout=120)
bug("c24-time-shared", "C24",
    "two threads asking for the text of a time at once",
    "the text of a time is made in one buffer of the whole program",
    [("impl/log.cpp", ("    constexpr u64 buffer_size = 64;\n    static thread_local char buffer[buffer_size];\n\n    ::tm tm_info;", "    constexpr u64 buffer_size = 64;\n    static char buffer[buffer_size];\n\n    ::tm tm_info;"))],
    PRE + r'''
static bool stop = false;
int main() {
    alarm(60);
    Thread::Thread t{[]() {
        while(!__atomic_load_n(&stop, __ATOMIC_SEQ_CST)) static_cast<void>(Log::sys_time_string(11111111));
    }};
    int bad = 0;
    u8 mine[16];
    auto s = Log::sys_time_string(55555555);
    usleep(1000);
    // What it should be: asked for until the same comes twice.
    for(u64 i = 0; i < 3000000 && !bad; i++) {
        auto v = Log::sys_time_string(55555555);
        for(u64 k = 0; k < v.length() && k < 16; k++) mine[k] = v[k];
        usleep(0);
        for(u64 k = 0; k < v.length() && k < 16; k++)
            if(mine[k] != v[k]) bad = 1;
        if(i > 200000) break;
    }
    static_cast<void>(s);
    __atomic_store_n(&stop, true, __ATOMIC_SEQ_CST);
    t.join();
    return bad;
}
''', timeout=100)
bug("c13-descriptor-byte", "C13",
    "two of the events waited for have descriptors that differ by 256",
    "the signalled event is recognised by the low byte of its descriptor",
    [("pos/async_pos.cpp", ("        if(events[i].fd == ev.data.fd) {", "        if(static_cast<u8>(events[i].fd) == static_cast<u8>(ev.data.fd)) {"))],
    PRE + r'''
int main() {
    alarm(20);
    static rpp::Async::Event e[400];
    for(u64 k : {u64{3}, u64{300}, u64{399}}) {
        e[k].signal();
        if(rpp::Async::Event::wait_any(Slice<rpp::Async::Event>{e, 400}) != k) return 1;
        e[k].reset();
    }
    return 0;
}
''')
bug("c25-child-byte", "C25",
    "a frame of more than 256 scopes",
    "a node keeps the indices of the scopes inside it in one byte each",
    [("profile.h", ("        Vec<u64, Mhidden> children;", "        Vec<u8, Mhidden> children;")),
     ("impl/profile.cpp", ("node.children.push(child_idx);", "node.children.push(static_cast<u8>(child_idx));"))],
    PRE + r'''
int main() {
    alarm(20);
    (void)Profile::begin_frame();
    for(u64 r = 0; r < 2; r++)
        for(u64 i = 1; i <= 300; i++) {
            Profile::enter(Log::Location{"scope"_v, "file.cpp"_v, i});
            Profile::exit();
        }
    Profile::end_frame();
    u64 nodes = 0, twice = 0;
    Profile::iterate_timings([&](rpp::Thread::Id, const Profile::Timing_Node& n) {
        nodes++;
        twice += n.calls == 2;
    });
    return nodes != 301 || twice != 300;
}
''')
bug("c24-token-byte", "C24",
    "more than 256 callbacks have come and gone while one stays",
    "the tokens of callbacks are one byte",
    [("log_callback.h", ("using Token = u64;", "using Token = u8;"))],
    PRE + r'''
#include <rpp/log_callback.h>
static u64 heard = 0;
int main() {
    alarm(20);
    auto f = [](Log::Level, rpp::Thread::Id, Log::Time, Log::Location, String_View) { heard++; };
    auto t = Log::subscribe(rpp::move(f));
    for(u64 i = 0; i < 300; i++) Log::unsubscribe(Log::subscribe([](Log::Level, rpp::Thread::Id, Log::Time, Log::Location, String_View) {}));
    info("message");
    Log::unsubscribe(t);
    return heard != 1;
}
''')
