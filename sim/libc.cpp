// The simulated operating system: locks, futexes, descriptors, files, timers, datagrams, clocks
// and standard I/O. Functions named simc_X replace X in the instrumented objects.
#include "rt.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <semaphore.h>
#include <signal.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

static int err(int e) {
    errno = e;
    return -1;
}
static void wake_all(Wait k, u64 o) {
    Thr* t[MAXT];
    int n = waiters(k, o, t);
    for(int i = 0; i < n; i++) wake(t[i]);
}

// ---- mutexes ---------------------------------------------------------------------------------
constexpr u32 MX_LIVE = 0x4d555458, MX_DEAD = 0xdeadbeef, CV_LIVE = 0x434f4e44;
struct MX {
    u32 magic, owner, kind, rec;
};
static MX* mx(void* p, bool& bad) {
    heapchk(p, 40, true);
    MX* m = (MX*)p;
    bad = false;
    if(m->magic == 0) {
        // static initialiser: all zero apart from the kind field glibc keeps at offset 16
        m->magic = MX_LIVE;
        m->owner = 0;
        m->rec = 0;
        m->kind = ((u32*)p)[4] & 3;
    } else if(m->magic != MX_LIVE)
        bad = true;
    return m;
}
static int mx_lock(void* p, u64 deadline, bool point) {
    for(;;) {
        if(point) sp("lock", (u64)p);
        point = true;
        bool bad;
        MX* m = mx(p, bad);
        if(bad) return EINVAL;
        if(!t_self) return 0;
        if(m->owner == 0) {
            m->owner = t_self->id + 1;
            m->rec = 1;
            hb_acquire((u64)p);
            ev("locked", (u64)p);
            return 0;
        }
        if((int)m->owner == t_self->id + 1) {
            if(m->kind == PTHREAD_MUTEX_RECURSIVE) {
                m->rec++;
                return 0;
            }
            if(m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        if(block(W_MUTEX, (u64)p, deadline) == WK_TIMEOUT) return ETIMEDOUT;
        point = false; // runnable again: try without another scheduling point
    }
}
static void mx_release(void* p, MX* m) {
    m->owner = 0;
    hb_release((u64)p);
    wake_all(W_MUTEX, (u64)p);
}
extern "C" {
int simc_pthread_mutex_init(void* p, const u32* attr) {
    heapchk(p, 40, true);
    if(u64 e = on_heap(p) ? fault_val(F_LOCK_FAIL, 3) : 0) return e == 1 ? ENOMEM : EAGAIN;
    memset(p, 0, 40);
    MX* m = (MX*)p;
    m->magic = MX_LIVE;
    m->kind = attr ? (*attr & 3) : 0;
    hb_clear((u64)p);
    ev("mutex-init", (u64)p);
    return 0;
}
int simc_pthread_mutex_destroy(void* p) {
    sp("mutex-destroy", (u64)p);
    bool bad;
    MX* m = mx(p, bad);
    if(bad) return EINVAL;
    if(m->owner) return EBUSY;
    m->magic = MX_DEAD;
    return 0;
}
int simc_pthread_mutex_lock(void* p) {
    return mx_lock(p, ~0ull, true);
}
int simc_pthread_mutex_trylock(void* p) {
    sp("trylock", (u64)p);
    bool bad;
    MX* m = mx(p, bad);
    if(bad) return EINVAL;
    if(!t_self) return 0;
    if(m->owner) {
        if((int)m->owner == t_self->id + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE) {
            m->rec++;
            return 0;
        }
        return EBUSY;
    }
    m->owner = t_self->id + 1;
    m->rec = 1;
    hb_acquire((u64)p);
    return 0;
}
static u64 abs_deadline(clockid_t c, const timespec* ts) {
    i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if(c == CLOCK_REALTIME) t -= (i64)g_wall_off;
    return t < 0 ? 0 : (u64)t;
}
int simc_pthread_mutex_timedlock(void* p, const timespec* ts) {
    return mx_lock(p, abs_deadline(CLOCK_REALTIME, ts), true);
}
int simc_pthread_mutex_clocklock(void* p, clockid_t c, const timespec* ts) {
    return mx_lock(p, abs_deadline(c, ts), true);
}
int simc_pthread_mutex_unlock(void* p) {
    sp("unlock", (u64)p);
    bool bad;
    MX* m = mx(p, bad);
    if(bad) return EINVAL;
    if(!t_self) return 0;
    if((int)m->owner != t_self->id + 1) {
        if(m->kind == PTHREAD_MUTEX_NORMAL)
            violation("unlock-not-owner", "T%d unlocks mutex %p owned by %s%d", t_self->id, p, m->owner ? "T" : "nobody ", (int)m->owner - 1);
        return EPERM;
    }
    if(--m->rec) return 0;
    mx_release(p, m);
    return 0;
}

// ---- condition variables -----------------------------------------------------------------------
struct CV {
    u32 magic, clock;
};
static CV* cv(void* p, bool& bad) {
    heapchk(p, 48, true);
    CV* c = (CV*)p;
    bad = false;
    if(c->magic == 0)
        c->magic = CV_LIVE;
    else if(c->magic != CV_LIVE)
        bad = true;
    return c;
}
int simc_pthread_cond_init(void* p, const u32* attr) {
    heapchk(p, 48, true);
    if(u64 e = on_heap(p) ? fault_val(F_LOCK_FAIL, 3) : 0) return e == 1 ? ENOMEM : EAGAIN;
    memset(p, 0, 48);
    ((CV*)p)->magic = CV_LIVE;
    ((CV*)p)->clock = attr ? ((*attr >> 1) & 1) : 0;
    return 0;
}
int simc_pthread_cond_destroy(void* p) {
    sp("cond-destroy", (u64)p);
    bool bad;
    CV* c = cv(p, bad);
    if(bad) return EINVAL;
    Thr* t[MAXT];
    if(waiters(W_COND, (u64)p, t)) violation("cond-destroyed-with-waiters", "T%d waits on a condition variable that T%d destroys", t[0]->id, t_self->id);
    c->magic = MX_DEAD;
    return 0;
}
static int cv_wait(void* p, void* m, u64 deadline) {
    sp("cond-wait", (u64)p, (u64)m);
    bool bad;
    cv(p, bad);
    if(bad) return EINVAL;
    MX* x = mx(m, bad);
    if(bad) return EINVAL;
    if((int)x->owner != t_self->id + 1) violation("cond-wait-without-mutex", "T%d waits on a condition variable without holding the mutex", t_self->id);
    u32 rec = x->rec;
    mx_release(m, x);
    Wake w = block(W_COND, (u64)p, deadline, WK_SPURIOUS);
    int r = mx_lock(m, ~0ull, true);
    if(r) return r;
    ((MX*)m)->rec = rec;
    return w == WK_TIMEOUT ? ETIMEDOUT : 0;
}
int simc_pthread_cond_wait(void* p, void* m) {
    return cv_wait(p, m, ~0ull);
}
int simc_pthread_cond_timedwait(void* p, void* m, const timespec* ts) {
    return cv_wait(p, m, abs_deadline(((CV*)p)->clock ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts));
}
int simc_pthread_cond_clockwait(void* p, void* m, clockid_t c, const timespec* ts) {
    return cv_wait(p, m, abs_deadline(c, ts));
}
int simc_pthread_cond_signal(void* p) {
    sp("cond-signal", (u64)p);
    bool bad;
    cv(p, bad);
    if(bad) return EINVAL;
    Thr* t[MAXT];
    int n = waiters(W_COND, (u64)p, t);
    if(n) wake(t[sched_pick(n)]);
    return 0;
}
int simc_pthread_cond_broadcast(void* p) {
    sp("cond-broadcast", (u64)p);
    bool bad;
    cv(p, bad);
    if(bad) return EINVAL;
    wake_all(W_COND, (u64)p);
    return 0;
}

// ---- spin locks, read-write locks, semaphores, once ----------------------------------------------
int simc_pthread_spin_init(int* p, int) {
    *p = 0;
    return 0;
}
int simc_pthread_spin_destroy(int*) {
    return 0;
}
int simc_pthread_spin_lock(int* p) {
    for(;;) {
        sp("spin-lock", (u64)p);
        heapchk(p, 4, true);
        if(!*p) break;
    }
    *p = 1;
    hb_acquire((u64)p);
    return 0;
}
int simc_pthread_spin_trylock(int* p) {
    sp("spin-trylock", (u64)p);
    if(*p) return EBUSY;
    *p = 1;
    hb_acquire((u64)p);
    return 0;
}
int simc_pthread_spin_unlock(int* p) {
    sp("spin-unlock", (u64)p);
    *p = 0;
    hb_release((u64)p);
    return 0;
}
struct RW {
    u32 writer, readers;
};
int simc_pthread_rwlock_init(RW* p, const void*) {
    heapchk(p, 56, true);
    memset(p, 0, 56);
    return 0;
}
int simc_pthread_rwlock_destroy(RW* p) {
    sp("rw-destroy", (u64)p);
    return p->writer || p->readers ? EBUSY : 0;
}
int simc_pthread_rwlock_rdlock(RW* p) {
    sp("rdlock", (u64)p);
    for(;;) {
        heapchk(p, 56, true);
        if(!p->writer) break;
        block(W_RW, (u64)p);
    }
    p->readers++;
    hb_acquire((u64)p);
    return 0;
}
int simc_pthread_rwlock_tryrdlock(RW* p) {
    sp("tryrdlock", (u64)p);
    if(p->writer) return EBUSY;
    p->readers++;
    hb_acquire((u64)p);
    return 0;
}
int simc_pthread_rwlock_wrlock(RW* p) {
    sp("wrlock", (u64)p);
    for(;;) {
        heapchk(p, 56, true);
        if(!p->writer && !p->readers) break;
        block(W_RW, (u64)p);
    }
    p->writer = t_self->id + 1;
    hb_acquire((u64)p);
    hb_acquire((u64)p + 1);
    return 0;
}
int simc_pthread_rwlock_trywrlock(RW* p) {
    sp("trywrlock", (u64)p);
    if(p->writer || p->readers) return EBUSY;
    p->writer = t_self->id + 1;
    hb_acquire((u64)p);
    hb_acquire((u64)p + 1);
    return 0;
}
int simc_pthread_rwlock_unlock(RW* p) {
    sp("rwunlock", (u64)p);
    heapchk(p, 56, true);
    if(p->writer) {
        if((int)p->writer != t_self->id + 1) violation("unlock-not-owner", "T%d unlocks a read-write lock it does not hold", t_self->id);
        p->writer = 0;
        hb_release((u64)p);
    } else if(p->readers) {
        p->readers--;
        hb_release((u64)p + 1);
    } else
        violation("unlock-not-owner", "T%d unlocks a free read-write lock", t_self->id);
    wake_all(W_RW, (u64)p);
    return 0;
}
int simc_sem_init(u32* s, int, unsigned v) {
    s[0] = v;
    return 0;
}
int simc_sem_destroy(u32*) {
    return 0;
}
int simc_sem_post(u32* s) {
    sp("sem-post", (u64)s);
    s[0]++;
    hb_release((u64)s);
    wake_all(W_SEM, (u64)s);
    return 0;
}
int simc_sem_wait(u32* s) {
    sp("sem-wait", (u64)s);
    while(!s[0])
        if(block(W_SEM, (u64)s, ~0ull, WK_EINTR) == WK_EINTR) return err(EINTR);
    s[0]--;
    hb_acquire((u64)s);
    return 0;
}
int simc_sem_trywait(u32* s) {
    sp("sem-trywait", (u64)s);
    if(!s[0]) return err(EAGAIN);
    s[0]--;
    hb_acquire((u64)s);
    return 0;
}
int simc_sem_getvalue(u32* s, int* v) {
    *v = s[0];
    return 0;
}
int simc_pthread_once(int* o, void (*f)()) {
    sp("once", (u64)o);
    while(*o == 1) block(W_ONCE, (u64)o);
    if(*o == 0) {
        *o = 1;
        f();
        *o = 2;
        hb_release((u64)o);
        wake_all(W_ONCE, (u64)o);
    } else
        hb_acquire((u64)o);
    return 0;
}
int simc___cxa_guard_acquire(u8* g) {
    if(!g_running) return !g[0];
    sp("guard", (u64)g);
    while(g[1]) block(W_ONCE, (u64)g);
    if(g[0]) {
        hb_acquire((u64)g);
        return 0;
    }
    g[1] = 1;
    return 1;
}
void simc___cxa_guard_release(u8* g) {
    g[0] = 1;
    g[1] = 0;
    if(g_running) {
        hb_release((u64)g);
        wake_all(W_ONCE, (u64)g);
    }
}
void simc___cxa_guard_abort(u8* g) {
    g[1] = 0;
    if(g_running) wake_all(W_ONCE, (u64)g);
}

// ---- futex and other raw system calls ------------------------------------------------------------
long simc_syscall(long nr, long a, long b, long c, long d, long, long f) {
    if(nr == SYS_futex) {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        bool real = (int)b & FUTEX_CLOCK_REALTIME;
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sp("futex-wait", (u64)a, (u64)c);
            heapchk((void*)a, 4, false);
            if(*(volatile u32*)a != (u32)c) return err(EAGAIN);
            u64 dl = ~0ull;
            if(d) {
                const timespec* ts = (const timespec*)d;
                if(op == FUTEX_WAIT) dl = g_now + ts->tv_sec * 1000000000ull + ts->tv_nsec;
                else dl = abs_deadline(real ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            Wake w = block(W_FUTEX, (u64)a, dl, WK_EINTR);
            if(w == WK_EINTR) return err(EINTR);
            if(w == WK_TIMEOUT) return err(ETIMEDOUT);
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sp("futex-wake", (u64)a, (u64)c);
            Thr* t[MAXT];
            int n = waiters(W_FUTEX, (u64)a, t), k = 0;
            int max = (int)c < 1 ? 1 : (int)c;
            while(k < max && k < n) {
                int left = n - k;
                int pick = (left > 1 && k + 1 <= max && max < n) ? k + (int)sched_pick(left) : k;
                std::swap(t[k], t[pick]);
                wake(t[k]);
                k++;
            }
            return k;
        }
        (void)f;
        return err(ENOSYS);
    }
    if(nr == SYS_gettid) return 1000 + (t_self ? t_self->id : 0);
    if(nr == SYS_getpid) return 1000;
    sh->unmodelled++;
    trace("unmodelled system call %ld", nr);
    return err(ENOSYS);
}
long simc_gettid() {
    return 1000 + (t_self ? t_self->id : 0);
}
}

// ---- descriptors -------------------------------------------------------------------------------
// The bytes of a file. Files of hundreds of megabytes and more are address space of which only what is not zero exists.
struct File_Data {
    std::string s;
    u8* big = nullptr;
    u64 big_n = 0;
    static constexpr u64 BIG = 256u << 20, MOST = 16ull << 30;
    u64 size() const {
        return big ? big_n : s.size();
    }
    const char* data() const {
        return big ? (const char*)big : s.data();
    }
    void resize(u64 n) {
        if(!big && n >= BIG) {
            void* m = mmap(nullptr, MOST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if(m == MAP_FAILED) violation("simulator", "no address space for a file of %llu bytes", (unsigned long long)n);
            big = (u8*)m;
            big_n = s.size();
            memcpy(big, s.data(), s.size());
            s.clear();
        }
        if(!big) {
            s.resize(n);
            return;
        }
        if(n > MOST) violation("simulator", "a file of %llu bytes", (unsigned long long)n);
        if(n < big_n) sparse_set(big + n, 0, big_n - n);
        big_n = n;
        if(!n) {
            munmap(big, MOST);
            big = nullptr;
        }
    }
    void put(u64 at, const void* d, u64 n) {
        if(at + n > size()) resize(at + n);
        char* to = (big ? (char*)big : s.data()) + at;
        if(big && n < SPARSE && n && !*(const char*)d && !memcmp(d, (const char*)d + 1, n - 1) && !*to && !memcmp(to, to + 1, n - 1)) return; // zero, and was
        sparse_copy(to, d, n);
    }
    void assign(const char* d, u64 n) {
        resize(0);
        put(0, d, n);
    }
    void clear() {
        resize(0);
    }
    void operator+=(const std::string& x) {
        put(size(), x.data(), x.size());
    }
};
struct Inode {
    File_Data data;
    unsigned mode = 0100644;
    i64 mtime = 0, ctime = 0, atime = 0;
    u64 number = ++count; // not the address: addresses of the simulator itself are not repeatable
    static u64 count;
};
u64 Inode::count = 0;
typedef std::vector<u8> Bytes;
struct Packet_ {
    u64 at, seq;
    u32 ip;
    u16 sport, dport;
    Bytes data;
};
enum Kind { K_FILE, K_EVENT, K_EPOLL, K_TIMER, K_SOCKET, K_USER, K_LOGFILE };
struct Ofd;
struct Ep_Entry {
    int fd;
    Ofd* f;
    u32 events;
    u64 data;
    bool disabled = false;
    u64 order = 0;
    bool held = false; // EPOLLEXCLUSIVE: this signal went to another waiter
    u32 last = 0;
};
struct Ofd {
    Kind kind;
    int refs = 1;
    bool out = false; // a user event that is signalled by becoming writable
    int flags = 0;
    u64 serial = 0;
    // file
    Inode* ino = nullptr;
    u64 off = 0;
    bool was_read = false;
    // event
    u64 cnt = 0;
    // timer
    bool armed = false;
    u64 next = 0, interval = 0, exp = 0;
    int clock = 0;
    // epoll
    std::vector<Ep_Entry> ent;
    // socket
    u16 port = 0;
    u32 ip = 0;
    u16 cport = 0;
    u32 cip = 0;
    std::vector<Packet_> q;
};
static u64 ep_order = 0;
static Ofd* fdt[1024];
static int fd_limit = 1024;
static u64 bad_fds = 0, ofd_serial = 0;
static std::map<std::string, Inode*>* fs;
static i64 fs_free = -1;
static u64 fs_gran = 1;
static std::vector<Packet_>* in_flight;
static u64 pkt_seq = 0, net_max_delay = 5000000;
static int net_rcvbuf = 64;
static std::map<u16, u64>* net_delivered;
static std::vector<Ofd*>* timers;
struct Wait_Set {
    Ofd* ep;
    pollfd* fds;
    u64 n;
};

static bool fd_used[1024];
static int fd_opener[1024];
static bool stdin_closed = false;
// The program was started without a standard input: the first descriptor it opens is 0.
void libc_stdin_closed(bool c) {
    stdin_closed = c;
    if(c) ev("stdin-closed", 0);
}
// The program had many descriptors open before the library was used: the library's are numbered from `first` on.
static int fd_first = 3;
void libc_fd_first(int first) {
    fd_first = first;
    ev("fd-first", (u64)first);
}
static int new_fd(Ofd* f) {
    for(int i = stdin_closed ? 0 : fd_first; i < 1024 && i < fd_limit + fd_first - 3; i = i ? i + 1 : fd_first)
        if(!fdt[i]) {
            fdt[i] = f;
            f->serial = ++ofd_serial;
            fd_used[i] = true;
            fd_opener[i] = sim_tid();
            ev("fd-open", i, f->kind);
            return i;
        }
    fault_happened(F_FD_LIMIT);
    ev("fd-limit", fd_limit, f->kind);
    return -1;
}
static Ofd* fd(int n) {
    if(n >= 0 && n < 1024 && fdt[n]) {
        if(fdt[n]->kind == K_USER) violation("foreign-descriptor", "the library uses descriptor %d, which belongs to the program", n);
        return fdt[n];
    }
    bad_fds++;
    ev("bad-fd", (u64)n);
    return nullptr;
}
static void deliver() {
    for(u64 i = 0; i < in_flight->size();) {
        Packet_& p = (*in_flight)[i];
        if(p.at > g_now) {
            i++;
            continue;
        }
        for(int k = 0; k < 1024; k++) {
            Ofd* s = fdt[k];
            if(!s || s->kind != K_SOCKET || s->port != p.dport) continue;
            if((int)s->q.size() >= net_rcvbuf) {
                sh->fault_fired[F_RCVBUF]++;
                break;
            }
            (*net_delivered)[p.dport]++;
            s->q.push_back(p);
            break;
        }
        in_flight->erase(in_flight->begin() + i);
    }
}
static void timer_update(Ofd* f) {
    if(!f->armed || f->next > g_now) return;
    if(f->interval) {
        u64 k = (g_now - f->next) / f->interval + 1;
        f->exp += k;
        f->next += k * f->interval;
    } else {
        f->exp++;
        f->armed = false;
    }
}
static u32 ready(Ofd* f) {
    switch(f->kind) {
    case K_EVENT: return (f->cnt ? EPOLLIN : 0) | (f->cnt < ~1ull ? EPOLLOUT : 0);
    case K_TIMER: timer_update(f); return f->exp ? EPOLLIN : 0;
    case K_SOCKET: return (f->q.empty() ? 0 : EPOLLIN) | EPOLLOUT;
    case K_EPOLL: return 0;
    default: return EPOLLIN | EPOLLOUT;
    }
}
static u32 ep_ready(Ep_Entry& e) {
    if(e.disabled || e.held) return 0;
    return ready(e.f) & (e.events | EPOLLERR | EPOLLHUP);
}
static bool set_ready(Wait_Set* w) {
    if(w->ep) {
        for(auto& e : w->ep->ent) {
            u32 r = ep_ready(e);
            if(e.events & EPOLLET) {
                if(r & ~e.last) return true;
            } else if(r)
                return true;
        }
    } else
        for(u64 i = 0; i < w->n; i++) {
            int k = w->fds[i].fd;
            if(k < 0 || k >= 1024) continue;
            if(!fdt[k]) return true;
            if(ready(fdt[k]) & (u32)w->fds[i].events) return true;
        }
    return false;
}
void kernel_wake_check() {
    for(int i = 0; i < g_nthr; i++) {
        Thr* t = g_thr[i];
        if(t->done || !t->blocked) continue;
        if(t->wkind == W_EPOLL) {
            if(set_ready((Wait_Set*)t->wobj)) wake(t);
        } else if(t->wkind == W_FD) {
            if(ready((Ofd*)t->wobj) & EPOLLIN) wake(t);
        }
    }
}
// One signal wakes one of those who registered for exclusive wake-ups, in the order of registration.
static void signalled(Ofd* f) {
    std::vector<std::pair<Ofd*, Ep_Entry*>> ex;
    for(int i = 0; i < 1024; i++)
        if(fdt[i] && fdt[i]->kind == K_EPOLL)
            for(auto& e : fdt[i]->ent)
                if(e.f == f && (e.events & EPOLLEXCLUSIVE)) ex.push_back({fdt[i], &e});
    std::sort(ex.begin(), ex.end(), [](auto& a, auto& b) { return a.second->order < b.second->order; });
    bool woke = false;
    for(auto& x : ex) {
        x.second->held = woke;
        bool waits = false;
        for(int t = 0; t < g_nthr; t++)
            if(!g_thr[t]->done && g_thr[t]->blocked && g_thr[t]->wkind == W_EPOLL && ((Wait_Set*)g_thr[t]->wobj)->ep == x.first) waits = true;
        if(waits) woke = true;
    }
    kernel_wake_check();
}
bool next_timer(u64& when) {
    u64 best = ~0ull;
    bool waiting = false;
    for(int i = 0; i < g_nthr; i++) {
        Thr* t = g_thr[i];
        if(!t->done && t->blocked && (t->wkind == W_EPOLL || t->wkind == W_FD)) waiting = true;
    }
    if(!waiting) return false;
    for(Ofd* f : *timers)
        if(f->armed && !f->exp) {
            bool interest = false;
            for(int i = 0; i < g_nthr && !interest; i++) {
                Thr* t = g_thr[i];
                if(t->done || !t->blocked) continue;
                if(t->wkind == W_FD && (Ofd*)t->wobj == f) interest = true;
                if(t->wkind == W_EPOLL) {
                    Wait_Set* w = (Wait_Set*)t->wobj;
                    if(w->ep) {
                        for(auto& e : w->ep->ent)
                            if(e.f == f) interest = true;
                    } else
                        for(u64 j = 0; j < w->n; j++)
                            if(w->fds[j].fd >= 0 && w->fds[j].fd < 1024 && fdt[w->fds[j].fd] == f) interest = true;
                }
            }
            if(interest && f->next < best) best = f->next;
        }
    for(auto& p : *in_flight)
        if(p.at < best) best = p.at;
    when = best;
    return best != ~0ull;
}
void fire_kernel_timers() {
    bool any = false;
    for(Ofd* f : *timers)
        if(f->armed && f->next <= g_now) any = true;
    if(!in_flight->empty()) {
        u64 n = in_flight->size();
        deliver();
        if(in_flight->size() != n) any = true;
    }
    if(any) kernel_wake_check();
}
static void drop(Ofd* f) {
    if(--f->refs) return;
    for(int i = 0; i < 1024; i++)
        if(fdt[i] && fdt[i]->kind == K_EPOLL) {
            auto& v = fdt[i]->ent;
            for(u64 k = 0; k < v.size();)
                if(v[k].f == f) v.erase(v.begin() + k);
                else k++;
        }
    for(u64 k = 0; k < timers->size(); k++)
        if((*timers)[k] == f) {
            timers->erase(timers->begin() + k);
            break;
        }
    // Ofd objects are not freed: blocked threads may still refer to them.
}
void libc_reset() {
    if(!fs) fs = new std::map<std::string, Inode*>;
    in_flight = new std::vector<Packet_>;
    net_delivered = new std::map<u16, u64>;
    timers = new std::vector<Ofd*>;
}
static std::string norm(const char* p) {
    std::string s(p);
    while(s.size() > 2 && s[0] == '.' && s[1] == '/') s = s.substr(2);
    if(!s.empty() && s[0] != '/') s = "/cwd/" + s;
    while(s.size() > 1 && s.back() == '/') s.pop_back();
    return s;
}
static Inode* lookup(const std::string& p, bool follow = true, int depth = 0) {
    if(!fs) fs = new std::map<std::string, Inode*>;
    auto it = fs->find(p);
    if(it == fs->end()) return nullptr;
    Inode* i = it->second;
    if(!follow || !S_ISLNK(i->mode)) return i;
    return depth > 8 ? nullptr : lookup(norm(i->data.s.c_str()), true, depth + 1);
}
// The name a chain of symbolic links ends at.
static std::string resolve(std::string p) {
    for(int k = 0; k < 8; k++) {
        Inode* i = lookup(p, false);
        if(!i || !S_ISLNK(i->mode)) break;
        p = norm(i->data.s.c_str());
    }
    return p;
}
static i64 wall_ns() {
    i64 t = (i64)(g_now + g_wall_off);
    return t - t % (i64)fs_gran;
}
static void modified(Inode* i) {
    i->mtime = i->ctime = wall_ns();
}
static void created(Inode* i) {
    i->mtime = i->ctime = i->atime = wall_ns();
}
static bool is_dir(const std::string& p) {
    if(p == "/" || p == "/cwd" || p == "/tmp") return true;
    Inode* i = lookup(p);
    return i && S_ISDIR(i->mode);
}

// ---- stdio state -------------------------------------------------------------------------------
struct Sim_File {
    int kind; // 1 stdout, 2 stderr, 3 the log file, 4 any other file
    std::string buf;
    Inode* ino = nullptr;
    u64 off = 0;
    bool err = false, closed = false;
    bool reading = false;
    int fdno = -1;
    bool eof = false;
};
static std::string* out_data;
static Sim_File f_out{1, {}, nullptr, 0, false, false, false, 1}, f_err{2, {}, nullptr, 0, false, false, false, 2};
static Sim_File* log_file = nullptr;
static std::string& out() {
    if(!out_data) out_data = new std::string;
    return *out_data;
}

extern "C" {
void* simc_stdout = &f_out;
void* simc_stderr = &f_err;
void* simc_stdin = &f_err;

static int do_open(const char* path, int flags, unsigned mode) {
    sp("open", flags);
    if(g_running) heapchk(path, 1, false);
    trace("       open(\"%s\", %x, %o)", path, flags, mode);
    if(fault(F_EINTR_IO)) return err(EINTR);
    u64 e = fault_val(F_OPEN_FAIL, 6);
    static const int es[] = {0, EMFILE, EACCES, EIO, ENFILE, ENOMEM};
    if(e) return err(es[e]);
    std::string p = norm(path);
    if(p.empty()) return err(ENOENT);
    if(p.size() > 4095) return err(ENAMETOOLONG);
    if(Inode* l = lookup(p, false); l && S_ISLNK(l->mode)) {
        if(flags & O_NOFOLLOW) return err(ELOOP);
        if((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
        p = resolve(p);
        l = lookup(p, false);
        if(l && S_ISLNK(l->mode)) return err(ELOOP);
    }
    Inode* i = lookup(p);
    int am = flags & O_ACCMODE;
    bool dir = is_dir(p);
    if(dir && (am != O_RDONLY || (flags & O_CREAT))) return err(EISDIR);
    if((flags & O_DIRECTORY) && !dir) return err(i ? ENOTDIR : ENOENT);
    if(!i && !dir) {
        if(!(flags & O_CREAT)) return err(ENOENT);
        size_t k = p.rfind('/');
        std::string parent = k == 0 ? "/" : p.substr(0, k);
        if(!is_dir(parent)) return err(lookup(parent) ? ENOTDIR : ENOENT);
        if(fs_free == 0) return err(ENOSPC);
        i = new Inode;
        i->mode = S_IFREG | (mode & 07777 & ~022u);
        created(i);
        (*fs)[p] = i;
    } else if(i) {
        if((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
        if((am == O_RDONLY || am == O_RDWR) && !(i->mode & 0400)) return err(EACCES);
        if((am == O_WRONLY || am == O_RDWR) && !(i->mode & 0200)) return err(EACCES);
        if((flags & O_TRUNC) && am != O_RDONLY && S_ISREG(i->mode)) {
            if(fs_free >= 0) fs_free += (i64)i->data.size();
            modified(i);
            i->data.clear();
        }
    } else {
        static Inode rootdir;
        rootdir.mode = S_IFDIR | 0755;
        i = &rootdir;
    }
    Ofd* f = new Ofd{K_FILE};
    f->flags = flags;
    f->ino = i;
    int n = new_fd(f);
    if(n < 0) return err(EMFILE);
    return n;
}
int simc_open(const char* path, int flags, unsigned mode) {
    return do_open(path, flags, mode);
}
int simc_open64(const char* path, int flags, unsigned mode) {
    return do_open(path, flags, mode);
}
int simc_openat(int, const char* path, int flags, unsigned mode) {
    return do_open(path, flags, mode);
}
int simc_creat(const char* path, unsigned mode) {
    return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
}
int simc_close(int n) {
    sp("close", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    fdt[n] = nullptr;
    ev("fd-close", n, f->serial);
    drop(f);
    kernel_wake_check();
    if(f->kind == K_FILE) {
        u64 e = fault_val(F_CLOSE_FAIL, 4);
        static const int es[] = {0, EIO, ENOSPC, EINTR};
        if(e) {
            if(e == 1 && (f->flags & O_ACCMODE) != O_RDONLY && f->ino) {} // delayed write error reported here
            return err(es[e]);
        }
    }
    return 0;
}
int simc_dup(int n) {
    sp("dup", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    u64 keep = f->serial;
    int k = new_fd(f);
    f->serial = keep;
    if(k < 0) return err(EMFILE);
    f->refs++;
    return k;
}
static bool check_buf(const void* b, size_t n, bool w) {
    if(n && !b) return false;
    sim_nopreempt(1); // the kernel's copy is part of the system call
    acc(b, n, w);
    sim_nopreempt(-1);
    return true;
}
static ssize_t file_read(Ofd* f, void* b, size_t n, i64 at) {
    if((f->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
    if(S_ISDIR(f->ino->mode)) return err(EISDIR);
    if(fault(F_EINTR_IO)) return err(EINTR);
    if(fault(F_EIO_READ)) return err(EIO);
    u64 off = at < 0 ? f->off : (u64)at;
    u64 avail = off < f->ino->data.size() ? f->ino->data.size() - off : 0;
    u64 k = n < avail ? n : avail;
    if(k > 0x7ffff000) k = 0x7ffff000;
    if(k > 1) {
        u64 s = fault_val(F_SHORT_READ, 9);
        if(s) {
            u64 c = s == 8 ? k - 1 : s == 1 ? 1 : k * s / 9;
            k = c ? c : 1;
        }
    }
    if(!check_buf(b, n ? k : 0, true)) return err(EFAULT);
    sparse_copy(b, f->ino->data.data() + off, k);
    f->ino->atime = wall_ns();
    if(at < 0) f->off += k;
    ev("read-n", k, off);
    return (ssize_t)k;
}
static ssize_t file_write(Ofd* f, const void* b, size_t n, i64 at) {
    if((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
    if(fault(F_EINTR_IO)) return err(EINTR);
    if(!check_buf(b, n, false)) return err(EFAULT);
    if(n == 0) return 0;
    if(fault(F_EIO_WRITE)) return err(EIO);
    if(fault(F_ENOSPC)) return err(ENOSPC);
    u64 k = n < 0x7ffff000 ? n : 0x7ffff000;
    if(k > 1) {
        u64 s = fault_val(F_SHORT_WRITE, 9);
        if(s) {
            u64 c = s == 8 ? k - 1 : s == 1 ? 1 : k * s / 9;
            k = c ? c : 1;
        }
    }
    if(f->flags & O_APPEND) f->off = f->ino->data.size();
    u64 off = at < 0 ? f->off : (u64)at;
    if(fs_free >= 0) {
        u64 end = off + k;
        u64 grow = end > f->ino->data.size() ? end - f->ino->data.size() : 0;
        if((i64)grow > fs_free) {
            u64 can = (u64)fs_free;
            u64 cut = grow - can;
            if(cut >= k) {
                sh->fault_fired[F_ENOSPC]++;
                return err(ENOSPC);
            }
            k -= cut;
            grow = can;
            sh->fault_fired[F_ENOSPC]++;
        }
        fs_free -= (i64)grow;
    }
    f->ino->data.put(off, b, k);
    modified(f->ino);
    if(at < 0) f->off += k;
    ev("write-n", k, off);
    return (ssize_t)k;
}
static ssize_t event_write(Ofd* f, const void* b, size_t n) {
    if(n < 8) return err(EINVAL);
    u64 v;
    check_buf(b, 8, false);
    memcpy(&v, b, 8);
    if(v == ~0ull) return err(EINVAL);
    while(f->cnt + v < f->cnt || f->cnt + v == ~0ull) {
        if(f->flags & EFD_NONBLOCK) return err(EAGAIN);
        violation("deadlock", "eventfd overflow blocks for ever");
    }
    f->cnt += v;
    hb_release((u64)f);
    signalled(f);
    return 8;
}
static ssize_t event_read(Ofd* f, void* b, size_t n) {
    if(n < 8) return err(EINVAL);
    while(!f->cnt) {
        if(f->flags & EFD_NONBLOCK) return err(EAGAIN);
        if(block(W_FD, (u64)f, ~0ull, WK_EINTR) == WK_EINTR) return err(EINTR);
    }
    u64 v = (f->flags & EFD_SEMAPHORE) ? 1 : f->cnt;
    f->cnt -= v;
    hb_acquire((u64)f);
    check_buf(b, 8, true);
    memcpy(b, &v, 8);
    return 8;
}
static ssize_t timer_read(Ofd* f, void* b, size_t n) {
    if(n < 8) return err(EINVAL);
    timer_update(f);
    while(!f->exp) {
        if(f->flags & TFD_NONBLOCK) return err(EAGAIN);
        if(block(W_FD, (u64)f, ~0ull, WK_EINTR) == WK_EINTR) return err(EINTR);
        timer_update(f);
    }
    check_buf(b, 8, true);
    memcpy(b, &f->exp, 8);
    f->exp = 0;
    return 8;
}
static ssize_t do_recv(Ofd* f, void* b, size_t n, int flags, sockaddr* sa, socklen_t* sl);
ssize_t simc_read(int n, void* b, size_t k) {
    sp("read", n, k);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    switch(f->kind) {
    case K_FILE: return file_read(f, b, k, -1);
    case K_EVENT: return event_read(f, b, k);
    case K_TIMER: return timer_read(f, b, k);
    case K_SOCKET: return do_recv(f, b, k, 0, nullptr, nullptr);
    default: return err(EINVAL);
    }
}
ssize_t simc_pread(int n, void* b, size_t k, i64 off) {
    sp("pread", n, k);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(f->kind != K_FILE || S_ISFIFO(f->ino->mode)) return err(ESPIPE);
    return file_read(f, b, k, off);
}
ssize_t simc_pread64(int n, void* b, size_t k, i64 off) {
    return simc_pread(n, b, k, off);
}
ssize_t simc_readv(int n, const iovec* v, int c) {
    ssize_t t = 0;
    for(int i = 0; i < c; i++) {
        ssize_t r = simc_read(n, v[i].iov_base, v[i].iov_len);
        if(r < 0) return t ? t : r;
        t += r;
        if((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t simc_write(int n, const void* b, size_t k) {
    sp("write", n, k);
    if(n == 1 || n == 2) {
        if(n == 1) out().append((const char*)b, k);
        return (ssize_t)k;
    }
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    switch(f->kind) {
    case K_FILE: return file_write(f, b, k, -1);
    case K_EVENT: return event_write(f, b, k);
    default: return err(EINVAL);
    }
}
ssize_t simc_pwrite(int n, const void* b, size_t k, i64 off) {
    sp("pwrite", n, k);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(f->kind != K_FILE) return err(ESPIPE);
    return file_write(f, b, k, off);
}
ssize_t simc_pwrite64(int n, const void* b, size_t k, i64 off) {
    return simc_pwrite(n, b, k, off);
}
ssize_t simc_writev(int n, const iovec* v, int c) {
    ssize_t t = 0;
    for(int i = 0; i < c; i++) {
        ssize_t r = simc_write(n, v[i].iov_base, v[i].iov_len);
        if(r < 0) return t ? t : r;
        t += r;
        if((size_t)r < v[i].iov_len) break;
    }
    return t;
}
int simc_eventfd_read(int n, u64* v) {
    return simc_read(n, v, 8) == 8 ? 0 : -1;
}
int simc_eventfd_write(int n, u64 v) {
    return simc_write(n, &v, 8) == 8 ? 0 : -1;
}
static int dir_mode = 0;
void sim_fs_lseek_dir(int m) {
    dir_mode = m;
}
i64 simc_lseek(int n, i64 off, int wh) {
    sp("lseek", n, (u64)off);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(f->kind != K_FILE || S_ISFIFO(f->ino->mode)) return err(ESPIPE);
    if(fault(F_SEEK_FAIL)) return err(EIO);
    if(S_ISDIR(f->ino->mode)) {
        if(wh == SEEK_END) return dir_mode == 0 ? 0x7fffffffffffffffll : dir_mode == 1 ? 0 : 4096;
        return 0;
    }
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->off : wh == SEEK_END ? (i64)f->ino->data.size() : -1;
    if(base < 0) return err(EINVAL);
    if(base + off < 0) return err(EINVAL);
    f->off = (u64)(base + off);
    return (i64)f->off;
}
i64 simc_lseek64(int n, i64 off, int wh) {
    return simc_lseek(n, off, wh);
}
static timespec as_time(i64 t) {
    timespec r;
    r.tv_sec = t / 1000000000;
    r.tv_nsec = t % 1000000000;
    if(r.tv_nsec < 0) {
        r.tv_nsec += 1000000000;
        r.tv_sec--;
    }
    return r;
}
static void fill_stat(struct stat* s, Inode* i, bool dir) {
    memset(s, 0, sizeof *s);
    s->st_mode = dir && !i ? (S_IFDIR | 0755) : i->mode;
    s->st_nlink = 1;
    if(i) {
        s->st_size = S_ISDIR(i->mode) ? 4096 : (off_t)i->data.size();
        s->st_mtim = as_time(i->mtime);
        s->st_ctim = as_time(i->ctime);
        s->st_atim = as_time(i->atime);
        s->st_ino = (ino_t)(100 + i->number);
        s->st_blksize = 4096;
        s->st_blocks = (s->st_size + 511) / 512;
    }
}
static int stat_fault() {
    u64 e = fault_val(F_STAT_FAIL, 5);
    static const int es[] = {0, EIO, EACCES, ENOMEM, ESTALE};
    return es[e];
}
// What the caller's buffer holds after an error is anybody's guess: here, what an earlier call might have left on the stack.
static int stat_err(struct stat* s, int e) {
    memset(s, 0, sizeof *s);
    s->st_mode = S_IFREG | 0644;
    s->st_nlink = 1;
    s->st_size = 5;
    s->st_mtim = as_time((i64)(g_now + g_wall_off));
    return err(e);
}
static int stat_path(const char* p, struct stat* s, bool follow) {
    sp("stat", 0);
    if(g_running) heapchk(p, 1, false);
    if(int e = stat_fault()) return stat_err(s, e);
    std::string q = norm(p);
    Inode* i = lookup(q, follow);
    if(q.empty() || (!i && !is_dir(q))) return stat_err(s, ENOENT);
    acc(s, sizeof *s, true);
    fill_stat(s, i, true);
    return 0;
}
int simc_stat(const char* p, struct stat* s) {
    return stat_path(p, s, true);
}
int simc_lstat(const char* p, struct stat* s) {
    return stat_path(p, s, false);
}
int simc_stat64(const char* p, struct stat* s) {
    return simc_stat(p, s);
}
int simc_fstat(int n, struct stat* s) {
    sp("fstat", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(int e = stat_fault()) return stat_err(s, e);
    if(f->kind != K_FILE) {
        memset(s, 0, sizeof *s);
        return 0;
    }
    fill_stat(s, f->ino, S_ISDIR(f->ino->mode));
    return 0;
}
int simc_fstat64(int n, struct stat* s) {
    return simc_fstat(n, s);
}
int simc_fstatat(int d, const char* p, struct stat* s, int flags) {
    if((flags & AT_EMPTY_PATH) && !*p) return simc_fstat(d, s);
    return stat_path(p, s, !(flags & AT_SYMLINK_NOFOLLOW));
}
int simc_statx(int d, const char* p, int flags, unsigned, struct statx* x) {
    struct stat s;
    if(simc_fstatat(d, p, &s, flags)) return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = s.st_mode;
    x->stx_size = s.st_size;
    x->stx_mtime.tv_sec = s.st_mtim.tv_sec;
    x->stx_mtime.tv_nsec = s.st_mtim.tv_nsec;
    x->stx_ctime.tv_sec = s.st_ctim.tv_sec;
    x->stx_ctime.tv_nsec = s.st_ctim.tv_nsec;
    x->stx_atime.tv_sec = s.st_atim.tv_sec;
    x->stx_atime.tv_nsec = s.st_atim.tv_nsec;
    return 0;
}
int simc_access(const char* p, int) {
    sp("access", 0);
    std::string q = norm(p);
    return lookup(q) || is_dir(q) ? 0 : err(ENOENT);
}
int simc_unlink(const char* p) {
    sp("unlink", 0);
    std::string q = norm(p);
    if(!lookup(q, false)) return err(ENOENT);
    fs->erase(q);
    return 0;
}
int simc_rename(const char* a, const char* b) {
    sp("rename", 0);
    std::string x = norm(a), y = norm(b);
    Inode* i = lookup(x, false);
    if(!i) return err(ENOENT);
    if(is_dir(y)) return err(EISDIR);
    fs->erase(x);
    (*fs)[y] = i;
    return 0;
}
int simc_ftruncate(int n, i64 len) {
    sp("ftruncate", n);
    Ofd* f = fd(n);
    if(!f || f->kind != K_FILE) return err(EBADF);
    if((f->flags & O_ACCMODE) == O_RDONLY) return err(EINVAL);
    f->ino->data.resize(len);
    modified(f->ino);
    return 0;
}
int simc_truncate(const char* p, i64 len) {
    Inode* i = lookup(norm(p));
    if(!i) return err(ENOENT);
    i->data.resize(len);
    return 0;
}
int simc_fsync(int n) {
    sp("fsync", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(fault(F_EIO_WRITE)) return err(EIO);
    return 0;
}
int simc_fdatasync(int n) {
    return simc_fsync(n);
}
int simc_fchmod(int n, unsigned mode) {
    Ofd* f = fd(n);
    if(!f || f->kind != K_FILE) return err(EBADF);
    f->ino->mode = (f->ino->mode & ~07777u) | (mode & 07777);
    return 0;
}
int simc_posix_fadvise(int, i64, i64, int) {
    return 0;
}
int simc_posix_fallocate(int, i64, i64) {
    return 0;
}
int simc_fcntl(int n, int cmd, long arg) {
    sp("fcntl", n, cmd);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(cmd == F_GETFL) return f->flags;
    if(cmd == F_SETFL) {
        f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | ((int)arg & (O_NONBLOCK | O_APPEND));
        return 0;
    }
    if(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return simc_dup(n);
    return 0;
}
int simc_ioctl(int n, unsigned long req, void* arg) {
    sp("ioctl", n, req);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(req == FIONBIO) {
        f->flags = *(int*)arg ? f->flags | O_NONBLOCK : f->flags & ~O_NONBLOCK;
        return 0;
    }
    if(req == FIONREAD) {
        *(int*)arg = f->kind == K_SOCKET && !f->q.empty() ? (int)f->q[0].data.size() : 0;
        return 0;
    }
    return err(ENOTTY);
}

// ---- eventfd, epoll, timerfd ---------------------------------------------------------------------
int simc_eventfd(unsigned v, int flags) {
    sp("eventfd", v, flags);
    if(u64 e = fault_val(F_EVENTFD_FAIL, 4)) return err(e == 1 ? EMFILE : e == 2 ? ENFILE : ENOMEM);
    Ofd* f = new Ofd{K_EVENT};
    f->cnt = v;
    f->flags = flags;
    int n = new_fd(f);
    return n < 0 ? err(EMFILE) : n;
}
int simc_epoll_create1(int flags) {
    sp("epoll_create", flags);
    if(u64 e = fault_val(F_EPOLL_FAIL, 4)) return err(e == 1 ? EMFILE : e == 2 ? ENFILE : ENOMEM);
    Ofd* f = new Ofd{K_EPOLL};
    int n = new_fd(f);
    return n < 0 ? err(EMFILE) : n;
}
int simc_epoll_create(int) {
    return simc_epoll_create1(0);
}
int simc_epoll_ctl(int ep, int op, int n, epoll_event* e) {
    sp("epoll_ctl", ep, n);
    Ofd* p = fd(ep);
    Ofd* f = fd(n);
    if(!p || !f) return err(EBADF);
    if(p->kind != K_EPOLL || p == f) return err(EINVAL);
    if(f->kind == K_FILE) return err(EPERM);
    int at = -1;
    for(u64 i = 0; i < p->ent.size(); i++)
        if(p->ent[i].fd == n && p->ent[i].f == f) at = (int)i;
    if(op == EPOLL_CTL_ADD) {
        if(at >= 0) return err(EEXIST);
        if(fault(F_EPOLL_FAIL)) return err(ENOMEM);
        p->ent.push_back({n, f, e->events, e->data.u64, false, ++ep_order});
    } else if(op == EPOLL_CTL_MOD) {
        if(at < 0) return err(ENOENT);
        if((p->ent[at].events | e->events) & EPOLLEXCLUSIVE) return err(EINVAL);
        p->ent[at].events = e->events;
        p->ent[at].data = e->data.u64;
        p->ent[at].disabled = false;
        p->ent[at].last = 0;
    } else {
        if(at < 0) return err(ENOENT);
        p->ent.erase(p->ent.begin() + at);
    }
    kernel_wake_check();
    return 0;
}
static int do_epoll_wait(int ep, epoll_event* out_, int max, i64 timeout_ns) {
    if(timeout_ns) t_self->polls = true;
    sp("epoll_wait", ep);
    Ofd* p = fd(ep);
    if(!p) return err(EBADF);
    if(p->kind != K_EPOLL || max <= 0) return err(EINVAL);
    u64 dl = timeout_ns < 0 ? ~0ull : g_now + (u64)timeout_ns;
    for(;;) {
        std::vector<Ep_Entry*> r;
        for(auto& e : p->ent) {
            u32 x = ep_ready(e);
            if(e.events & EPOLLET) {
                if(x & ~e.last) r.push_back(&e);
                if(!x) e.last = 0;
            } else if(x)
                r.push_back(&e);
        }
        if(!r.empty()) {
            int n = 0;
            acc(out_, sizeof(epoll_event), true);
            while(n < max && n < (int)r.size()) {
                u64 k = n + sched_pick(r.size() - n);
                std::swap(r[n], r[k]);
                u32 x = ep_ready(*r[n]);
                out_[n].events = x;
                out_[n].data.u64 = r[n]->data;
                if(r[n]->events & EPOLLONESHOT) r[n]->disabled = true;
                if(r[n]->events & EPOLLET) r[n]->last = x;
                hb_acquire((u64)r[n]->f);
                ev("epoll-ready", r[n]->fd, x);
                n++;
            }
            return n;
        }
        if(timeout_ns == 0 || g_now >= dl) return 0;
        Wait_Set w{p, nullptr, 0};
        Wake k = block(W_EPOLL, (u64)&w, dl, WK_EINTR);
        if(k == WK_EINTR) return err(EINTR);
        if(k == WK_TIMEOUT) timeout_ns = 0;
    }
}
int simc_epoll_wait(int ep, epoll_event* o, int max, int ms) {
    return do_epoll_wait(ep, o, max, ms < 0 ? -1 : ms * 1000000ll);
}
int simc_epoll_pwait(int ep, epoll_event* o, int max, int ms, const void*) {
    return simc_epoll_wait(ep, o, max, ms);
}
static int do_poll(pollfd* p, u64 n, i64 ns) {
    if(ns) t_self->polls = true;
    sp("poll", n);
    u64 dl = ns < 0 ? ~0ull : g_now + (u64)ns;
    for(;;) {
        int c = 0;
        for(u64 i = 0; i < n; i++) {
            p[i].revents = 0;
            if(p[i].fd < 0) continue;
            if(p[i].fd >= 1024 || !fdt[p[i].fd]) {
                bad_fds++;
                p[i].revents = POLLNVAL;
            } else {
                p[i].revents = (short)(ready(fdt[p[i].fd]) & (u32)p[i].events);
                if(p[i].revents) hb_acquire((u64)fdt[p[i].fd]);
            }
            if(p[i].revents) c++;
        }
        if(c) return c;
        if(ns == 0 || g_now >= dl) return 0;
        Wait_Set w{nullptr, p, n};
        Wake k = block(W_EPOLL, (u64)&w, dl, WK_EINTR);
        if(k == WK_EINTR) return err(EINTR);
        if(k == WK_TIMEOUT) ns = 0;
    }
}
int simc_poll(pollfd* p, u64 n, int ms) {
    return do_poll(p, n, ms < 0 ? -1 : ms * 1000000ll);
}
int simc_ppoll(pollfd* p, u64 n, const timespec* ts, const void*) {
    return do_poll(p, n, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1);
}
int simc_timerfd_create(int clock, int flags) {
    sp("timerfd", clock, flags);
    if(u64 e = fault_val(F_TIMERFD_FAIL, 4)) return err(e == 1 ? EMFILE : e == 2 ? ENFILE : ENOMEM);
    Ofd* f = new Ofd{K_TIMER};
    f->flags = flags;
    f->clock = clock;
    int n = new_fd(f);
    if(n < 0) return err(EMFILE);
    timers->push_back(f);
    return n;
}
int simc_timerfd_settime(int n, int flags, const itimerspec* s, itimerspec*) {
    sp("timerfd_settime", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(f->kind != K_TIMER) return err(EINVAL);
    if(s->it_value.tv_nsec < 0 || s->it_value.tv_nsec > 999999999 || s->it_value.tv_sec < 0) return err(EINVAL);
    u64 v = (u64)s->it_value.tv_sec > 9000000000ull ? 9000000000ull * 1000000000ull : s->it_value.tv_sec * 1000000000ull + s->it_value.tv_nsec;
    f->exp = 0;
    f->interval = s->it_interval.tv_sec * 1000000000ull + s->it_interval.tv_nsec;
    if(!v) {
        f->armed = false;
        return 0;
    }
    f->armed = true;
    if(flags & TFD_TIMER_ABSTIME)
        f->next = f->clock == CLOCK_REALTIME ? (v > g_wall_off ? v - g_wall_off : 0) : v;
    else
        f->next = g_now + v < g_now ? ~1ull : g_now + v;
    kernel_wake_check();
    return 0;
}
int simc_timerfd_gettime(int n, itimerspec* s) {
    Ofd* f = fd(n);
    if(!f || f->kind != K_TIMER) return err(EBADF);
    timer_update(f);
    memset(s, 0, sizeof *s);
    if(f->armed) {
        u64 r = f->next - g_now;
        s->it_value.tv_sec = r / 1000000000;
        s->it_value.tv_nsec = r % 1000000000;
    }
    return 0;
}

// ---- sockets -------------------------------------------------------------------------------------
int simc_socket(int dom, int type, int) {
    sp("socket", dom, type);
    if(u64 e = fault_val(F_SOCKET_FAIL, 4)) return err(e == 1 ? EMFILE : e == 2 ? ENFILE : ENOBUFS);
    if(dom != AF_INET || (type & 0xf) != SOCK_DGRAM) return err(EAFNOSUPPORT);
    Ofd* f = new Ofd{K_SOCKET};
    f->flags = type & SOCK_NONBLOCK ? O_NONBLOCK : 0;
    int n = new_fd(f);
    return n < 0 ? err(EMFILE) : n;
}
static bool port_used(u16 p) {
    for(int i = 0; i < 1024; i++)
        if(fdt[i] && fdt[i]->kind == K_SOCKET && fdt[i]->port == p) return true;
    return false;
}
static u16 eph = 40000;
static void autobind(Ofd* f) {
    if(f->port) return;
    while(port_used(eph)) eph++;
    f->port = eph++;
}
int simc_bind(int n, const sockaddr_in* a, socklen_t l) {
    sp("bind", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(f->kind != K_SOCKET) return err(ENOTSOCK);
    if(fault(F_BIND_FAIL)) return err(EADDRINUSE);
    if(l < sizeof(sockaddr_in) || a->sin_family != AF_INET) return err(EINVAL);
    acc(a, sizeof *a, false);
    if(f->port) return err(EINVAL);
    u16 p = ntohs(a->sin_port);
    if(p == 0) {
        autobind(f);
        return 0;
    }
    if(port_used(p)) return err(EADDRINUSE);
    f->port = p;
    f->ip = a->sin_addr.s_addr;
    return 0;
}
int simc_connect(int n, const sockaddr_in* a, socklen_t) {
    sp("connect", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    autobind(f);
    f->cip = a->sin_addr.s_addr;
    f->cport = ntohs(a->sin_port);
    return 0;
}
int simc_getsockname(int n, sockaddr_in* a, socklen_t* l) {
    Ofd* f = fd(n);
    if(!f || f->kind != K_SOCKET) return err(EBADF);
    memset(a, 0, sizeof *a);
    a->sin_family = AF_INET;
    a->sin_port = htons(f->port);
    a->sin_addr.s_addr = f->ip;
    *l = sizeof *a;
    return 0;
}
int simc_setsockopt(int n, int, int, const void*, socklen_t) {
    return fd(n) ? 0 : err(EBADF);
}
int simc_getsockopt(int n, int, int, void* v, socklen_t* l) {
    if(!fd(n)) return err(EBADF);
    if(*l >= 4) *(int*)v = 0;
    return 0;
}
static void net_send(u32 ip, u16 sport, u16 dport, const void* b, size_t n) {
    if(fault(F_NET_DROP)) return;
    Packet_ p{g_now + 20000, ++pkt_seq, ip, sport, dport, Bytes((const u8*)b, (const u8*)b + n)};
    if(u64 d = fault_val(F_NET_DELAY, 17)) p.at += net_max_delay * d / 16;
    in_flight->push_back(p);
    if(fault(F_NET_DUP)) {
        Packet_ q = p;
        q.seq = ++pkt_seq;
        q.at = g_now + 20000;
        if(u64 d = fault_val(F_NET_DELAY, 17)) q.at += net_max_delay * d / 16;
        in_flight->push_back(q);
    }
    std::sort(in_flight->begin(), in_flight->end(), [](const Packet_& a, const Packet_& b) { return a.at != b.at ? a.at < b.at : a.seq < b.seq; });
}
static ssize_t do_send(Ofd* f, const void* b, size_t n, const sockaddr_in* a) {
    if(f->kind != K_SOCKET) return err(ENOTSOCK);
    if(!a && !f->cport) return err(EDESTADDRREQ);
    if(fault(F_EINTR_IO)) return err(EINTR);
    if(u64 e = fault_val(F_SEND_ERR, 4)) return err(e == 1 ? ENOBUFS : e == 2 ? ENETUNREACH : EPERM);
    if(a) {
        acc(a, sizeof *a, false);
        if(a->sin_family != AF_INET) return err(EAFNOSUPPORT);
    }
    if(n > 65507) return err(EMSGSIZE);
    check_buf(b, n, false);
    autobind(f);
    net_send(htonl(0x7f000001), f->port, a ? ntohs(a->sin_port) : f->cport, b, n);
    return (ssize_t)n;
}
ssize_t simc_sendto(int n, const void* b, size_t k, int, const sockaddr_in* a, socklen_t) {
    sp("sendto", n, k);
    Ofd* f = fd(n);
    return f ? do_send(f, b, k, a) : err(EBADF);
}
ssize_t simc_send(int n, const void* b, size_t k, int) {
    sp("send", n, k);
    Ofd* f = fd(n);
    return f ? do_send(f, b, k, nullptr) : err(EBADF);
}
ssize_t simc_sendmsg(int n, const msghdr* m, int) {
    sp("sendmsg", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    std::string s;
    for(u64 i = 0; i < m->msg_iovlen; i++) {
        check_buf(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false);
        s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    }
    return do_send(f, s.data(), s.size(), (const sockaddr_in*)m->msg_name);
}
static ssize_t do_recv(Ofd* f, void* b, size_t n, int flags, sockaddr* sa, socklen_t* sl) {
    if(f->kind != K_SOCKET) return err(ENOTSOCK);
    if(fault(F_EINTR_IO)) return err(EINTR);
    if(u64 e = fault_val(F_RECV_ERR, 5)) return err(e == 1 ? ECONNREFUSED : e == 2 ? ENOMEM : e == 3 ? EIO : ENETDOWN);
    deliver();
    while(f->q.empty()) {
        if((flags & MSG_DONTWAIT) || (f->flags & O_NONBLOCK)) return err(EAGAIN);
        if(block(W_FD, (u64)f, ~0ull, WK_EINTR) == WK_EINTR) return err(EINTR);
        deliver();
    }
    Packet_ p = f->q.front();
    if(!(flags & MSG_PEEK)) f->q.erase(f->q.begin());
    size_t k = p.data.size() < n ? p.data.size() : n;
    check_buf(b, k, true);
    memcpy(b, p.data.data(), k);
    if(sa && sl) {
        sockaddr_in a = {};
        a.sin_family = AF_INET;
        a.sin_port = htons(p.sport);
        a.sin_addr.s_addr = p.ip;
        size_t c = *sl < sizeof a ? *sl : sizeof a;
        acc(sa, c, true);
        memcpy(sa, &a, c);
        *sl = sizeof a;
    }
    ev("recv-n", p.seq, k);
    return (ssize_t)((flags & MSG_TRUNC) ? p.data.size() : k);
}
ssize_t simc_recvfrom(int n, void* b, size_t k, int flags, sockaddr* a, socklen_t* l) {
    sp("recvfrom", n, k);
    Ofd* f = fd(n);
    return f ? do_recv(f, b, k, flags, a, l) : err(EBADF);
}
ssize_t simc_recv(int n, void* b, size_t k, int flags) {
    sp("recv", n, k);
    Ofd* f = fd(n);
    return f ? do_recv(f, b, k, flags, nullptr, nullptr) : err(EBADF);
}
ssize_t simc_recvmsg(int n, msghdr* m, int flags) {
    sp("recvmsg", n);
    Ofd* f = fd(n);
    if(!f) return err(EBADF);
    if(m->msg_iovlen != 1) return err(ENOSYS);
    deliver();
    m->msg_flags = !f->q.empty() && f->q[0].data.size() > m->msg_iov[0].iov_len ? MSG_TRUNC : 0;
    return do_recv(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, (sockaddr*)m->msg_name, &m->msg_namelen);
}
int simc_shutdown(int n, int) {
    return fd(n) ? 0 : err(EBADF);
}

// ---- clocks and sleeping ---------------------------------------------------------------------------
static u64 clock_value(int c) {
    switch(c) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
    case CLOCK_TAI: return g_now + g_wall_off;
    case CLOCK_PROCESS_CPUTIME_ID:
    case CLOCK_THREAD_CPUTIME_ID: return g_step * 100;
    case CLOCK_MONOTONIC_COARSE: return g_now - g_now % 4000000;
    default: return g_now;
    }
}
int simc_clock_gettime(int c, timespec* ts) {
    sp("clock", c);
    acc(ts, sizeof *ts, true);
    u64 t = clock_value(c);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
int simc_clock_getres(int, timespec* ts) {
    if(ts) *ts = {0, 1};
    return 0;
}
int simc_gettimeofday(timeval* tv, void*) {
    sp("gettimeofday", 0);
    u64 t = clock_value(CLOCK_REALTIME);
    tv->tv_sec = t / 1000000000;
    tv->tv_usec = t % 1000000000 / 1000;
    return 0;
}
time_t simc_time(time_t* p) {
    sp("time", 0);
    time_t t = (time_t)(clock_value(CLOCK_REALTIME) / 1000000000);
    if(p) *p = t;
    return t;
}
long simc_clock() {
    return (long)(g_step / 10);
}
static int do_sleep(u64 dl, timespec* rem) {
    for(;;) {
        if(g_now >= dl) return 0;
        Wake w = block(W_SLEEP, 0, dl, WK_EINTR);
        if(w == WK_EINTR && g_now < dl) {
            if(rem) {
                rem->tv_sec = (dl - g_now) / 1000000000;
                rem->tv_nsec = (dl - g_now) % 1000000000;
            }
            return EINTR;
        }
    }
}
static u64 sat(u64 a, unsigned __int128 b) {
    unsigned __int128 s = (unsigned __int128)a + b;
    return s > ~1ull ? ~1ull : (u64)s;
}
int simc_usleep(u32 us) {
    sp("usleep", us);
    if(do_sleep(sat(g_now, (unsigned __int128)us * 1000), nullptr)) return err(EINTR);
    return 0;
}
unsigned simc_sleep(unsigned s) {
    sp("sleep", s);
    timespec rem = {};
    if(do_sleep(sat(g_now, (unsigned __int128)s * 1000000000), &rem)) return (unsigned)rem.tv_sec + (rem.tv_nsec >= 500000000);
    return 0;
}
int simc_nanosleep(const timespec* ts, timespec* rem) {
    sp("nanosleep", ts->tv_sec, ts->tv_nsec);
    if(ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) return err(EINVAL);
    if(do_sleep(sat(g_now, (unsigned __int128)ts->tv_sec * 1000000000 + ts->tv_nsec), rem)) return err(EINTR);
    return 0;
}
int simc_clock_nanosleep(int c, int flags, const timespec* ts, timespec* rem) {
    sp("clock_nanosleep", ts->tv_sec, ts->tv_nsec);
    if(ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) return EINVAL;
    u64 dl;
    if(flags & TIMER_ABSTIME) {
        unsigned __int128 t = (unsigned __int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
        dl = t > ~1ull ? ~1ull : (u64)t;
        if(c == CLOCK_REALTIME) dl = dl > g_wall_off ? dl - g_wall_off : 0;
        rem = nullptr;
    } else
        dl = sat(g_now, (unsigned __int128)ts->tv_sec * 1000000000 + ts->tv_nsec);
    return do_sleep(dl, rem);
}
int simc_select(int n, void* r, void* w, void* e, timeval* tv) {
    sp("select", n);
    if(r || w || e || !tv) {
        sh->unmodelled++;
        return err(ENOSYS);
    }
    return do_sleep(g_now + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull, nullptr) ? err(EINTR) : 0;
}
static i64 g_zone;
void sim_time_zone(i64 seconds_east) {
    g_zone = seconds_east;
}
tm* simc_localtime_r(const time_t* t, tm* o) {
    acc(o, sizeof *o, true);
    time_t there = *t + g_zone;
    return gmtime_r(&there, o);
}
tm* simc_localtime(const time_t* t) {
    static tm o; // one for the whole process
    simc_localtime_r(t, &o);
    sp("localtime", 0);
    return &o;
}

// ---- machine ---------------------------------------------------------------------------------------
static int cpus = 4;
void sim_set_cpus(int n) {
    cpus = n;
}
int sim_cpus(void) {
    return cpus;
}
long simc_sysconf(int k) {
    if(k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return cpus;
    return sysconf(k);
}
int simc_get_nprocs() {
    return cpus;
}
int simc_get_nprocs_conf() {
    return cpus;
}
int simc_sched_getaffinity(int, size_t sz, cpu_set_t* s) {
    CPU_ZERO_S(sz, s);
    for(int i = 0; i < cpus; i++) CPU_SET_S(i, sz, s);
    return 0;
}
int simc_pthread_getaffinity_np(u64, size_t sz, cpu_set_t* s) {
    return simc_sched_getaffinity(0, sz, s);
}
constexpr int MAX_PINNED = 512;
static int pinned[MAX_PINNED]; // a thread's only core, +1
static int set_aff(int t, size_t sz, const cpu_set_t* s) {
    sp("affinity", sz);
    if(fault(F_AFFINITY_FAIL)) return EINVAL;
    int n = 0, core = -1;
    for(int i = 0; i < cpus && i < static_cast<int>(sz * 8); i++)
        if(CPU_ISSET_S(i, sz, s)) n++, core = i;
    if(!n) return EINVAL;
    if(t >= 0 && t < MAX_PINNED) pinned[t] = n == 1 ? core + 1 : 0;
    return 0;
}
int sim_pinned(int t) {
    return t >= 0 && t < MAX_PINNED ? pinned[t] - 1 : -1;
}
int simc_pthread_setaffinity_np(u64 h, size_t sz, const cpu_set_t* s) {
    return set_aff(sim_tid_of(h), sz, s);
}
int simc_sched_setaffinity(int pid, size_t sz, const cpu_set_t* s) {
    int r = set_aff(pid == 0 ? sim_tid() : -1, sz, s);
    return r ? err(r) : 0;
}
int simc_pthread_setschedprio(u64, int p) {
    sp("setschedprio", (u64)p);
    return p == 0 ? 0 : EINVAL;
}
int simc_pthread_setschedparam(u64, int, const sched_param*) {
    return 0;
}
int simc_pthread_getschedparam(u64, int* pol, sched_param* p) {
    *pol = 0;
    p->sched_priority = 0;
    return 0;
}
int simc_pthread_setname_np(u64, const char*) {
    return 0;
}
int simc_pthread_kill(u64, int) {
    return 0;
}
int simc_raise(int sig) {
    rt_exit(sig, 0);
    return 0;
}
void simc_exit(int c) {
    rt_exit(0, c);
    for(;;) pause();
}
void simc__exit(int c) {
    simc_exit(c);
}
void simc__Exit(int c) {
    simc_exit(c);
}
void simc_quick_exit(int c) {
    simc_exit(c);
}
void simc_abort() {
    rt_exit(SIGABRT, 0);
    for(;;) pause();
}
int simc_kill(int, int sig) {
    rt_exit(sig, 0);
    return 0;
}
struct At_Exit {
    void (*f)(void*);
    void* a;
};
static std::vector<At_Exit>* at_exit;
int simc___cxa_atexit(void (*f)(void*), void* a, void*) {
    if(!at_exit) at_exit = new std::vector<At_Exit>;
    at_exit->push_back({f, a});
    return 0;
}
int simc_atexit(void (*f)()) {
    return simc___cxa_atexit((void (*)(void*))f, nullptr, nullptr);
}
void sim_run_atexit(void) {
    while(at_exit && !at_exit->empty()) {
        At_Exit e = at_exit->back();
        at_exit->pop_back();
        e.f(e.a);
    }
}

// ---- memory ----------------------------------------------------------------------------------------
void* simc_malloc(size_t n) {
    sp("malloc", n);
    if(fault(F_MALLOC_FAIL)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = rt_malloc(n);
    ev("malloc-ret", (u64)p, n);
    return p;
}
void simc_free(void* p) {
    sp("free", (u64)p);
    rt_free(p);
}
void* simc_calloc(size_t a, size_t b) {
    u64 n;
    if(__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = simc_malloc(n);
    if(p && n <= (256u << 20)) memset(p, 0, n); // a larger one is fresh
    return p;
}
void* simc_realloc(void* p, size_t n) {
    sp("realloc", (u64)p, n);
    if(fault(F_MALLOC_FAIL)) {
        errno = ENOMEM;
        return nullptr;
    }
    return rt_realloc(p, n);
}
void* simc_aligned_alloc(size_t al, size_t n) {
    sp("aligned_alloc", al, n);
    if(fault(F_MALLOC_FAIL)) {
        errno = ENOMEM;
        return nullptr;
    }
    return rt_malloc(n, al < 16 ? 16 : al);
}
void* simc_memalign(size_t al, size_t n) {
    return simc_aligned_alloc(al, n);
}
int simc_posix_memalign(void** p, size_t al, size_t n) {
    *p = simc_aligned_alloc(al, n);
    return *p ? 0 : ENOMEM;
}
size_t simc_malloc_usable_size(void* p) {
    return rt_block_size(p);
}
void* simc__Znwm(size_t n) {
    return simc_malloc(n);
}
void* simc__Znam(size_t n) {
    return simc_malloc(n);
}
void simc__ZdlPv(void* p) {
    simc_free(p);
}
void simc__ZdlPvm(void* p, size_t) {
    simc_free(p);
}
void simc__ZdaPv(void* p) {
    simc_free(p);
}
void simc__ZdaPvm(void* p, size_t) {
    simc_free(p);
}
void* simc_memcpy(void* d, const void* s, size_t n) {
    acc(s, n, false);
    acc(d, n, true);
    return n < SPARSE ? memcpy(d, s, n) : sparse_copy(d, s, n);
}
void* simc_memmove(void* d, const void* s, size_t n) {
    acc(s, n, false);
    acc(d, n, true);
    return n < SPARSE ? memmove(d, s, n) : sparse_copy(d, s, n);
}
void* simc_memset(void* d, int c, size_t n) {
    acc(d, n, true);
    return n < SPARSE ? memset(d, c, n) : sparse_set(d, c, n);
}
int simc_memcmp(const void* a, const void* b, size_t n) {
    acc(a, n, false);
    acc(b, n, false);
    return memcmp(a, b, n);
}
size_t simc_strlen(const char* s) {
    if(g_running) heapchk(s, 1, false);
    size_t n = strlen(s);
    acc(s, n + 1, false);
    return n;
}
int simc_vsnprintf(char* b, size_t n, const char* f, va_list a) {
    int r = vsnprintf(b, n, f, a);
    if(r > 0 && n) acc(b, (size_t)r < n ? r + 1 : n, true);
    return r;
}
int simc_snprintf(char* b, size_t n, const char* f, ...) {
    va_list a;
    va_start(a, f);
    int r = simc_vsnprintf(b, n, f, a);
    va_end(a);
    return r;
}

// ---- stdio -----------------------------------------------------------------------------------------
static int flush_file(Sim_File* f) {
    if(f->kind == 1) {
        out() += f->buf;
        f->buf.clear();
    } else if(f->kind == 3 && f->ino) {
        f->ino->data += f->buf;
        modified(f->ino);
        f->buf.clear();
    } else if(f->kind == 4) {
        size_t done = 0;
        while(done < f->buf.size()) {
            ssize_t r = simc_write(f->fdno, f->buf.data() + done, f->buf.size() - done);
            if(r < 0) {
                f->err = true;
                f->buf.clear();
                return -1;
            }
            done += r;
        }
        f->buf.clear();
    } else
        f->buf.clear();
    return 0;
}
static uint32_t stdio_mask = ~0u; // kinds of file whose output may fail
static bool stdio_fails(Sim_File* f) {
    return ((stdio_mask >> f->kind) & 1) && fault(F_STDIO_FAIL);
}
static int put(Sim_File* f, const char* s, size_t n) {
    if(!f) violation("null-file", "output to a null FILE");
    sp("stdio-put", f->kind, n);
    if(f->closed) violation("closed-file", "output to a closed FILE");
    if(stdio_fails(f)) {
        f->err = true;
        errno = EIO;
        return -1;
    }
    f->buf.append(s, n);
    u64 h = 0;
    for(size_t i = 0; i < n; i++) h = h * 131 + (u8)s[i];
    ev("stdio-text", f->kind, h);
    trace("       output[%s]: %.*s", f->kind == 1 ? "stdout" : f->kind == 2 ? "stderr" : "file", (int)(n > 300 ? 300 : n), s);
    if(f->buf.size() > (f->kind == 4 ? 4095 : 4096 * 4) && flush_file(f)) return -1;
    return (int)n;
}
static int vput(Sim_File* f, const char* fmt, va_list a) {
    char b[2048];
    va_list c;
    va_copy(c, a);
    int n = vsnprintf(b, sizeof b, fmt, a);
    int r;
    if(n >= (int)sizeof b) {
        std::string s(n + 1, 0);
        vsnprintf(&s[0], n + 1, fmt, c);
        r = put(f, s.data(), n);
    } else
        r = put(f, b, n);
    va_end(c);
    return r;
}
int simc_printf(const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    int r = vput(&f_out, fmt, a);
    va_end(a);
    return r;
}
int simc_vprintf(const char* fmt, va_list a) {
    return vput(&f_out, fmt, a);
}
int simc_fprintf(Sim_File* f, const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    int r = vput(f, fmt, a);
    va_end(a);
    return r;
}
int simc_vfprintf(Sim_File* f, const char* fmt, va_list a) {
    return vput(f, fmt, a);
}
int simc_puts(const char* s) {
    std::string t = std::string(s) + "\n";
    return put(&f_out, t.data(), t.size());
}
int simc_fputs(const char* s, Sim_File* f) {
    return put(f, s, strlen(s));
}
int simc_putchar(int c) {
    char x = (char)c;
    return put(&f_out, &x, 1) < 0 ? -1 : c;
}
int simc_fputc(int c, Sim_File* f) {
    char x = (char)c;
    return put(f, &x, 1) < 0 ? -1 : c;
}
int simc_putc(int c, Sim_File* f) {
    return simc_fputc(c, f);
}
size_t simc_fwrite(const void* p, size_t s, size_t n, Sim_File* f) {
    acc(p, s * n, false);
    return put(f, (const char*)p, s * n) < 0 ? 0 : n;
}
int simc_fflush(Sim_File* f) {
    sp("fflush", f ? f->kind : 0);
    if(!f) {
        flush_file(&f_out);
        if(log_file && !log_file->closed) flush_file(log_file);
        return 0;
    }
    if(f->closed) violation("closed-file", "flush of a closed FILE");
    if(stdio_fails(f)) {
        f->err = true;
        f->buf.clear(); // the data could not be written
        errno = EIO;
        return -1;
    }
    return flush_file(f);
}
void* simc_fopen(const char* path, const char* mode) {
    sp("fopen", 0);
    if((!g_running && getenv("SIM_FOPEN_FAIL")) || fault(F_FOPEN_FAIL)) {
        errno = EACCES;
        return nullptr;
    }
    std::string p = norm(path);
    if(g_running && p != "/cwd/debug.log") {
        bool plus = strchr(mode, '+');
        int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
        int n = simc_open(path, fl, 0666);
        if(n < 0) return nullptr;
        return new Sim_File{4, {}, nullptr, 0, false, false, mode[0] == 'r', n};
    }
    Sim_File* f = new Sim_File{3, {}, nullptr, 0, false, false, false, -1};
    Inode* i = lookup(p);
    if(mode[0] == 'r') {
        if(!i) {
            errno = ENOENT;
            return nullptr;
        }
        f->reading = true;
    } else {
        if(!i) {
            i = new Inode;
            (*fs)[p] = i;
        }
        if(mode[0] == 'w') i->data.clear();
        modified(i);
    }
    f->ino = i;
    if(p == "/cwd/debug.log") log_file = f;
    return f;
}
int simc_fclose(Sim_File* f) {
    sp("fclose", f->kind);
    if(f->closed) violation("closed-file", "FILE closed twice");
    int r = flush_file(f);
    f->closed = true;
    if(f->kind == 4 && simc_close(f->fdno)) r = -1;
    return r;
}
void* simc_fdopen(int n, const char* mode) {
    return new Sim_File{4, {}, nullptr, 0, false, false, mode[0] == 'r', n};
}
int simc_feof(Sim_File* f) {
    return f->eof;
}
int simc_fseek(Sim_File* f, long off, int whence) {
    if(flush_file(f)) return -1;
    if(f->kind != 4) return err(ESPIPE);
    f->eof = false;
    return simc_lseek(f->fdno, off, whence) < 0 ? -1 : 0;
}
int simc_fseeko(Sim_File* f, i64 off, int whence) {
    return simc_fseek(f, off, whence);
}
long simc_ftell(Sim_File* f) {
    if(f->kind != 4) return err(ESPIPE);
    i64 at = simc_lseek(f->fdno, 0, SEEK_CUR);
    return at < 0 ? at : at + (long)f->buf.size();
}
i64 simc_ftello(Sim_File* f) {
    return simc_ftell(f);
}
void simc_rewind(Sim_File* f) {
    simc_fseek(f, 0, SEEK_SET);
    f->err = false;
}
int simc_setvbuf(Sim_File*, char*, int, size_t) {
    return 0;
}
int simc_ferror(Sim_File* f) {
    return f->err;
}
void simc_clearerr(Sim_File* f) {
    f->err = false;
}
int simc_fileno(Sim_File* f) {
    return f->fdno;
}
size_t simc_fread(void* b, size_t s, size_t n, Sim_File* f) {
    sp("fread", 0);
    if(f->kind == 4) {
        size_t done = 0;
        while(done < s * n) {
            ssize_t r = simc_read(f->fdno, (char*)b + done, s * n - done);
            if(r < 0) f->err = true;
            if(r == 0) f->eof = true;
            if(r <= 0) break;
            done += r;
        }
        return s ? done / s : 0;
    }
    if(!f->ino) return 0;
    u64 avail = f->off < f->ino->data.size() ? f->ino->data.size() - f->off : 0;
    u64 k = s * n < avail ? s * n : avail;
    acc(b, k, true);
    memcpy(b, f->ino->data.data() + f->off, k);
    f->off += k;
    return s ? k / s : 0;
}
int simc_fgetc(Sim_File* f) {
    u8 c;
    return simc_fread(&c, 1, 1, f) == 1 ? c : EOF;
}
int simc_getc(Sim_File* f) {
    return simc_fgetc(f);
}
int simc_vdprintf(int n, const char* fmt, va_list a) {
    va_list c;
    va_copy(c, a);
    int k = vsnprintf(nullptr, 0, fmt, a);
    std::string s(k + 1, 0);
    vsnprintf(&s[0], k + 1, fmt, c);
    va_end(c);
    return (int)simc_write(n, s.data(), k);
}
int simc_dprintf(int n, const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    int r = simc_vdprintf(n, fmt, a);
    va_end(a);
    return r;
}
void simc_perror(const char* s) {
    std::string t = (s && *s ? std::string(s) + ": " : std::string()) + strerror(errno) + "\n";
    put(&f_err, t.data(), t.size());
}
int simc_fputs_unlocked(const char* s, Sim_File* f) {
    return simc_fputs(s, f);
}
int simc_putc_unlocked(int c, Sim_File* f) {
    return simc_fputc(c, f);
}
int simc_putchar_unlocked(int c) {
    return simc_putchar(c);
}
size_t simc_fwrite_unlocked(const void* p, size_t s, size_t n, Sim_File* f) {
    return simc_fwrite(p, s, n, f);
}
int simc_fflush_unlocked(Sim_File* f) {
    return simc_fflush(f);
}
void simc_setlinebuf(Sim_File*) {
}
void simc_setbuf(Sim_File*, char*) {
}
// ---- small things --------------------------------------------------------------------------------
ssize_t simc_getrandom(void* b, size_t n, unsigned) {
    sp("getrandom", n);
    for(size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)sim_work(256);
    acc(b, n, true);
    return (ssize_t)n;
}
int simc_getentropy(void* b, size_t n) {
    return simc_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
}
static u32 c_rand = 1;
void simc_srand(unsigned s) {
    c_rand = s;
}
int simc_rand() {
    sp("rand", 0);
    c_rand = c_rand * 1103515245u + 12345u;
    return (int)(c_rand >> 1);
}
long simc_random() {
    return simc_rand();
}
void simc_srandom(unsigned s) {
    c_rand = s;
}
int simc_getpid() {
    return 4242;
}
char* simc_getenv(const char*) {
    return nullptr;
}
int simc_sigaction(int, const void*, void*) {
    return 0;
}
void* simc_signal(int, void*) {
    return nullptr;
}
int simc_pthread_sigmask(int, const void*, void*) {
    return 0;
}
int simc_sigprocmask(int, const void*, void*) {
    return 0;
}
int simc_pthread_setcancelstate(int, int*) {
    return 0;
}
int simc_prctl(int, ...) {
    return 0;
}
int simc_setpriority(int, unsigned, int) {
    return 0;
}
int simc_sched_setscheduler(int, int, const void*) {
    return 0;
}
int simc_madvise(void*, size_t, int) {
    return 0;
}
void* simc_mmap(void*, size_t n, int prot, int flags, int d, i64 off) {
    sp("mmap", n);
    if(!n) return err(EINVAL), MAP_FAILED;
    Ofd* f = nullptr;
    if(!(flags & MAP_ANONYMOUS)) {
        f = fd(d);
        if(!f) return err(EBADF), MAP_FAILED;
        if(f->kind != K_FILE || S_ISDIR(f->ino->mode)) return err(ENODEV), MAP_FAILED;
        if((flags & MAP_SHARED) && (prot & PROT_WRITE)) { // not modelled: changes would not reach the file
            sh->unmodelled++;
            return err(ENOSYS), MAP_FAILED;
        }
    }
    if(fault(F_MALLOC_FAIL)) return err(ENOMEM), MAP_FAILED;
    size_t m = (n + 4095) & ~(size_t)4095;
    char* p;
    if(m >= File_Data::BIG) {
        p = (char*)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == (char*)MAP_FAILED) return err(ENOMEM), MAP_FAILED;
    } else {
        p = (char*)aligned_alloc(4096, m);
        if(!p) return err(ENOMEM), MAP_FAILED;
        memset(p, 0, m);
    }
    if(f && (u64)off < f->ino->data.size()) {
        size_t k = f->ino->data.size() - (size_t)off;
        sparse_copy(p, f->ino->data.data() + off, k < m ? k : m);
    }
    return p;
}
int simc_munmap(void* p, size_t n) {
    sp("munmap", 0);
    n = (n + 4095) & ~(size_t)4095;
    if(n >= File_Data::BIG) munmap(p, n);
    else free(p);
    return 0;
}
void simc_flockfile(Sim_File*) {
}
void simc_funlockfile(Sim_File*) {
}

// ---- scenario interface ------------------------------------------------------------------------------
size_t sim_stdout_size(void) {
    return out().size();
}
const char* sim_stdout_data(void) {
    return out().data();
}
size_t sim_stdout_pending(void) {
    return f_out.buf.size();
}
size_t sim_logfile_size(void) {
    return log_file ? log_file->ino->data.size() : 0;
}
const char* sim_logfile_data(void) {
    return log_file ? log_file->ino->data.data() : "";
}
size_t sim_logfile_pending(void) {
    return log_file ? log_file->buf.size() : 0;
}
void sim_stdio_fail_mask(uint32_t m) {
    stdio_mask = m;
}
int sim_logfile_closed(void) {
    return log_file ? log_file->closed : -1;
}
int sim_fds_open(void) {
    int n = 0;
    for(int i = 0; i < 1024; i++) n += fdt[i] && fdt[i]->kind != K_USER;
    return n;
}
int sim_fds_opened_by(int tid) {
    int n = 0;
    for(int i = 0; i < 1024; i++) n += fdt[i] && fdt[i]->kind != K_USER && fd_opener[i] == tid;
    return n;
}
u64 sim_fds_bad(void) {
    return bad_fds;
}
int sim_fd_is_open(int n) {
    return n >= 0 && n < 1024 && fdt[n];
}
int sim_user_fd(void) {
    return new_fd(new Ofd{K_USER});
}
void sim_user_fd_close(int n) {
    if(n < 0 || n >= 1024 || !fdt[n] || fdt[n]->kind != K_USER) violation("foreign-descriptor", "descriptor %d of the program was closed by the library", n);
    fdt[n] = nullptr;
}
void sim_fd_limit(int n) {
    fd_limit = n;
}
void* sim_user_event_open(int* fd_out) {
    Ofd* f = new Ofd{K_EVENT};
    f->flags = EFD_NONBLOCK;
    f->refs = 2; // the program's own handle on it: never freed
    *fd_out = new_fd(f);
    return f;
}
void sim_user_event_set(void* h) {
    Ofd* f = (Ofd*)h;
    sp("user-event", f->serial);
    if(f->out) f->cnt = 0;
    else f->cnt++;
    hb_release((u64)f);
    kernel_wake_check();
}
// One that is ready when it can be written to.
void* sim_user_event_open_out(int* fd_out) {
    Ofd* f = (Ofd*)sim_user_event_open(fd_out);
    f->out = true;
    f->cnt = ~1ull;
    return f;
}
void sim_user_event_clear(void* h) {
    Ofd* f = (Ofd*)h;
    sp("user-event", f->serial);
    f->cnt = f->out ? ~1ull : 0;
}
int sim_user_event_descriptors(void* h) {
    return ((Ofd*)h)->refs - 1;
}
void sim_patience(int times) {
    sh->patience = (u64)times;
}
void sim_fs_put(const char* path, const void* d, size_t n, unsigned mode) {
    std::string p = resolve(norm(path));
    Inode* i = lookup(p);
    if(!i) {
        i = new Inode;
        (*fs)[p] = i;
    }
    i->data.assign((const char*)d, n);
    i->mode = S_IFREG | mode;
    modified(i);
}
void sim_fs_replace(const char* path, const void* d, size_t n, unsigned mode) {
    Inode* i = new Inode;
    i->data.assign((const char*)d, n);
    i->mode = S_IFREG | mode;
    created(i);
    modified(i);
    (*fs)[resolve(norm(path))] = i;
}
void sim_fs_mkdir(const char* path) {
    Inode* i = new Inode;
    i->mode = S_IFDIR | 0755;
    created(i);
    (*fs)[norm(path)] = i;
}
void sim_fs_fifo(const char* path) {
    Inode* i = new Inode;
    i->mode = S_IFIFO | 0644;
    created(i);
    (*fs)[norm(path)] = i;
}
void sim_fs_remove(const char* path) {
    fs->erase(norm(path));
}
int sim_fs_exists(const char* path) {
    return lookup(norm(path)) != nullptr;
}
i64 sim_fs_size(const char* path) {
    Inode* i = lookup(norm(path));
    return i ? (i64)i->data.size() : -1;
}
size_t sim_fs_get(const char* path, void* o, size_t cap) {
    Inode* i = lookup(norm(path));
    if(!i) return 0;
    size_t n = i->data.size() < cap ? i->data.size() : cap;
    sparse_copy(o, i->data.data(), n);
    return n;
}
unsigned sim_fs_mode(const char* path) {
    Inode* i = lookup(norm(path));
    return i ? i->mode : 0;
}
void sim_fs_capacity(i64 n) {
    fs_free = n;
}
void sim_fs_touch(const char* path) {
    if(Inode* i = lookup(norm(path))) modified(i);
}
void sim_fs_set_mtime(const char* path, i64 ns) {
    if(Inode* i = lookup(norm(path))) {
        i->mtime = ns;
        i->ctime = wall_ns();
    }
}
// Changes that are no modifications: rights, and being read.
void sim_fs_chmod(const char* path, unsigned mode) {
    if(Inode* i = lookup(norm(path))) {
        i->mode = (i->mode & S_IFMT) | mode;
        i->ctime = wall_ns();
    }
}
void sim_fs_accessed(const char* path) {
    if(Inode* i = lookup(norm(path))) i->atime = wall_ns();
}
void sim_fs_symlink(const char* target, const char* path) {
    Inode* i = new Inode;
    i->mode = S_IFLNK | 0777;
    i->data.s = target;
    created(i);
    (*fs)[norm(path)] = i;
}
i64 sim_fs_mtime(const char* path) {
    Inode* i = lookup(norm(path));
    return i ? i->mtime : -1;
}
void sim_fs_granularity(u64 ns) {
    fs_gran = ns ? ns : 1;
}
void sim_net_limits(u64 d, int r) {
    net_max_delay = d;
    net_rcvbuf = r;
}
u64 sim_net_in_flight(void) {
    return in_flight->size();
}
u64 sim_net_queued(u16 port) {
    deliver();
    for(int i = 0; i < 1024; i++)
        if(fdt[i] && fdt[i]->kind == K_SOCKET && fdt[i]->port == port) return fdt[i]->q.size();
    return 0;
}
u64 sim_net_delivered(u16 port) {
    return (*net_delivered)[port];
}
void sim_net_inject(u32 ip, u16 sport, u16 dport, const void* d, size_t n) {
    net_send(htonl(ip), sport, dport, d, n);
}
}
