// Deterministic scheduler, choice streams, memory model (heap checking, happens-before checking)
// and the run life cycle. Not instrumented: uses the real libc.
#include "rt.h"
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

const char* const stream_names[S_STREAMS] = {"work", "sched", "mem", "fault"};
const char* const fault_names[F_COUNT] = {
    "spurious_wakeup", "eintr_futex", "eintr_epoll", "eintr_sleep", "eintr_io", "short_read",
    "short_write", "eio_read", "eio_write", "enospc", "open_fail", "close_fail", "stat_fail",
    "seek_fail", "thread_create_fail", "malloc_fail", "eventfd_fail", "epoll_fail", "timerfd_fail", "socket_fail", "bind_fail", "net_drop",
    "net_dup", "net_delay", "recv_error", "send_error", "stall", "wall_clock_jump", "stdio_fail",
    "fopen_fail", "weak_cas_fail", "late_timer", "rcvbuf_overflow", "affinity_fail", "lock_init_fail", "descriptor_limit"};

Shared* sh;
Run_Config rc;
bool g_running = false;
static bool g_ending = false;
Thr* g_thr[MAXT];
int g_nthr = 0;
static Thr* g_cur = nullptr;
u64 g_step, g_now, g_wall_off;
__thread Thr* t_self;
static pthread_key_t g_key;
static u64 g_soft = 60000, g_hard = 120000;
static bool g_fair = false;
static u64 g_stalled = 0;
static u64 g_wseq = 0;
static u64 g_mem_idx = 0;
static u64 g_tick = 100;
static void (*g_exit_hook)(int, int) = nullptr;
static bool g_nofault = false;
extern "C" __attribute__((weak)) void scenario_boot_done() {
}

// ---- PRNG ------------------------------------------------------------------------------------
u64 mix64(u64 x) {
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    x ^= x >> 31;
    return x;
}
struct Rng {
    u64 s;
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        return mix64(s);
    }
    u64 below(u64 n) {
        return n <= 1 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64);
    }
    bool p(u32 num65536) {
        return (next() & 0xffff) < num65536;
    }
};
static Rng r_work, r_sched, r_mem, r_fault, r_cfg;
u64 rnd_cfg(u64 n) {
    return r_cfg.below(n);
}

// ---- choice streams --------------------------------------------------------------------------
static u64 c_idx[S_STREAMS]; // next index
static u64 c_pos[S_STREAMS]; // replay cursor
static void record(int s, u64 idx, u64 val) {
    if(!val) return;
    if(sh->n[s] >= MAX_CHOICES) {
        sh->overflow = 1;
        return;
    }
    sh->c[s][sh->n[s]++] = {idx, val};
}
static u64 lookup(int s, u64 idx) {
    const std::vector<Choice>& v = *rc.in[s];
    while(c_pos[s] < v.size() && v[c_pos[s]].idx < idx) c_pos[s]++;
    if(c_pos[s] < v.size() && v[c_pos[s]].idx == idx) return v[c_pos[s]].val;
    return 0;
}
// The value of the next choice of a stream: replayed, or as drawn by the caller's policy.
static u64 decide(int s, u64 n, u64 drawn) {
    u64 idx = c_idx[s]++;
    u64 v = rc.replay ? lookup(s, idx) : drawn;
    if(n && v >= n) v %= n;
    record(s, idx, v);
    return v;
}
u64 work(u64 n) {
    if(n <= 1) return 0;
    u64 v = decide(S_WORK, n, rc.replay ? 0 : r_work.below(n));
    sh->hash = mix64(sh->hash ^ v ^ 0x51);
    return v;
}

// ---- faults ----------------------------------------------------------------------------------
static u32 f_prob[F_COUNT];
static u32 f_eff[F_COUNT];
static i64 f_nth[F_COUNT];
static bool f_all[F_COUNT]; // every opportunity from now on
static u64 f_tids[F_COUNT]; // threads it happened to
static u64 f_by_tid[F_COUNT][64];
void fault_happened(int k) {
    sh->fault_fired[k]++;
    if(t_self && t_self->id < 64) f_tids[k] |= 1ull << t_self->id, f_by_tid[k][t_self->id]++;
}
extern "C" void sim_fault(int k, u32 p) {
    f_prob[k] = p;
    // Swarm: a kind is active in about two thirds of the runs, at a varying rate.
    u64 r = r_cfg.below(6);
    f_eff[k] = r < 2 ? 0 : r < 4 ? p : r == 4 ? p / 4 : (p > 32768 ? p : p * 2);
}
extern "C" void sim_fail_nth(int k, i64 n) {
    f_nth[k] = n;
}
extern "C" void sim_fail_from_nth(int k, i64 n) {
    f_nth[k] = n;
    f_all[k] = true;
}
extern "C" int sim_fault_on_thread(int k, int t) {
    return t >= 0 && t < 64 && (f_tids[k] >> t & 1);
}
extern "C" u64 sim_fault_count_on(int k, int t) {
    return t >= 0 && t < 64 ? f_by_tid[k][t] : 0;
}
extern "C" u64 sim_fault_count(int k) {
    return sh->fault_fired[k];
}
extern "C" u64 sim_fault_opportunities(int k) {
    return sh->fault_opp[k];
}
extern "C" void sim_faults_off(void) {
    g_nofault = true;
}
u64 fault_val(int k, u64 n) {
    if(!g_running || g_ending) return 0;
    sh->fault_opp[k]++;
    if(f_nth[k] >= 0 && !g_nofault && f_nth[k]-- == 0) {
        f_nth[k] = f_all[k] ? 0 : -1;
        fault_happened(k);
        ev("fault-nth", k, 1);
        return 1;
    }
    if(!f_prob[k]) return 0;
    if(g_fair || g_nofault || t_self->nopreempt) return 0;
    u64 d = 0;
    if(!rc.replay && r_fault.p(f_eff[k])) d = 1 + r_fault.below(n - 1);
    u64 v = decide(S_FAULT, n, d);
    if(v) {
        fault_happened(k);
        ev(fault_names[k], k, v);
    }
    return v;
}
bool fault(int k) {
    return fault_val(k, 2) != 0;
}

// ---- trace, events, hash ---------------------------------------------------------------------
void trace(const char* fmt, ...) {
    if(!rc.trace || !sh || sh->trace_len + 512 >= TRACE_CAP) return;
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(sh->trace + sh->trace_len, 500, fmt, a);
    va_end(a);
    if(n > 499) n = 499;
    sh->trace_len += n;
    sh->trace[sh->trace_len++] = '\n';
}
void ev(const char* op, u64 obj, u64 val) {
    if(!g_running) return;
    u64 h = 0;
    for(const char* p = op; *p; p++) h = h * 131 + (u8)*p;
    int tid = t_self ? t_self->id : -1;
    sh->hash = mix64(sh->hash ^ (h + obj * 3 + val * 7 + (u64)tid * 0x10001 + g_now));
    sh->sig = mix64(sh->sig ^ (h + obj * 3 + (u64)tid * 0x10001));
    if(rc.trace) trace("%6llu %10.6fms T%d %-14s %llx %llx", (unsigned long long)g_step, (g_now % 1000000000000ull) / 1e6, tid, op, (unsigned long long)obj, (unsigned long long)val);
}

static std::atomic<u32> fin_once{0};
[[noreturn]] void finish(Status st) {
    if(fin_once.exchange(1)) {
        for(;;) pause();
    }
    g_ending = true;
    sh->steps = g_step;
    sh->mem_accesses = g_mem_idx;
    sh->now_ns = g_now;
    sh->threads = g_nthr;
    std::atomic_thread_fence(std::memory_order_seq_cst);
    sh->status = st;
    _exit(0);
}
static void take_backtrace() {
    if(!rc.trace) return;
    void* bt[48];
    int n = backtrace(bt, 48);
    char* o = sh->bt;
    for(int i = 0; i < n && o < sh->bt + sizeof(sh->bt) - 32; i++) o += sprintf(o, "%p ", bt[i]);
}
[[noreturn]] void violation(const char* cls, const char* fmt, ...) {
    if(!g_ending) {
        g_ending = true;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        va_list a;
        va_start(a, fmt);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, a);
        va_end(a);
        trace("%6llu            T%d VIOLATION %s: %s", (unsigned long long)g_step, t_self ? t_self->id : -1, cls, sh->msg);
        take_backtrace();
    }
    finish(ST_VIOLATION);
}
extern "C" void sim_violation(const char* cls, const char* fmt, ...) {
    if(!g_ending) {
        g_ending = true;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        va_list a;
        va_start(a, fmt);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, a);
        va_end(a);
        trace("%6llu            T%d VIOLATION %s: %s", (unsigned long long)g_step, t_self ? t_self->id : -1, cls, sh->msg);
        take_backtrace();
    }
    finish(ST_VIOLATION);
}
extern "C" void sim_pass(void) {
    finish(ST_OK);
}
extern "C" void sim_probe(const char* name) {
    for(u64 i = 0; i < sh->nprobes; i++)
        if(!strcmp(sh->probe_name[i], name)) {
            sh->probe_count[i]++;
            return;
        }
    if(sh->nprobes < MAX_PROBES) {
        snprintf(sh->probe_name[sh->nprobes], 48, "%s", name);
        sh->probe_count[sh->nprobes++] = 1;
    }
}
extern "C" void sim_tag(const char* name) {
    char buf[64];
    snprintf(buf, sizeof buf, ",%s,", name);
    if(strstr(sh->tags, buf)) return;
    if(strlen(sh->tags) + strlen(buf) + 1 < sizeof sh->tags) strcat(sh->tags, buf);
}
extern "C" void sim_log(const char* fmt, ...) {
    char buf[400];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof buf, fmt, a);
    va_end(a);
    u64 h = 0;
    for(const char* p = buf; *p; p++) h = h * 131 + (u8)*p;
    sh->hash = mix64(sh->hash ^ h);
    trace("%6llu %10.6fms T%d | %s", (unsigned long long)g_step, (g_now % 1000000000000ull) / 1e6, t_self ? t_self->id : -1, buf);
}
extern "C" void sim_on_exit(void (*hook)(int, int)) {
    g_exit_hook = hook;
}
extern "C" void sim_steps_limit(u64 soft, u64 hard) {
    g_soft = soft;
    g_hard = hard;
}

// ---- parking ---------------------------------------------------------------------------------
static void fwait(u32* w) {
    while(__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fwake(u32* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void switch_to(Thr* t) {
    Thr* me = t_self;
    if(t == me) return;
    sh->switches++;
    g_cur->consecutive = 0;
    t->consecutive = 0;
    g_cur = t;
    bool dying = me->done;
    int e = errno;
    fwake(&t->go);
    if(!dying) fwait(&me->go);
    errno = e;
}

// ---- scheduling policy -----------------------------------------------------------------------
static int strat;           // 0 random walk, 1 PCT, 2 run-to-block with rare switches
static u32 p_switch;        // out of 65536
static u32 p_hot;           // preemption before an access to a recently shared location
static u64 cold_gap;        // mean gap between preemptions at private-looking accesses (0: never)
static u64 mem_next;        // next cold preemption
static std::vector<u64> pct_points;
static u64 pct_low = 1000;
static u64 sched_events = 0;

static void draw_strategy() {
    u64 s = r_cfg.below(10);
    if(s < 4) {
        strat = 0;
        static const u32 ps[] = {32768, 16384, 8192, 3000, 800};
        p_switch = ps[r_cfg.below(5)];
    } else if(s < 8) {
        strat = 1;
        u64 d = r_cfg.below(6);
        static const u64 lens[] = {50, 150, 500, 2000, 8000};
        u64 len = lens[r_cfg.below(5)];
        for(u64 i = 0; i < d; i++) pct_points.push_back(r_cfg.below(len));
        p_switch = r_cfg.below(3) ? 0 : 600;
    } else {
        strat = 2;
        p_switch = 200;
    }
    static const u32 hots[] = {0, 0, 1000, 4096, 16384, 32768};
    p_hot = hots[r_cfg.below(6)];
    static const u64 gaps[] = {0, 0, 3000, 500, 80, 25};
    cold_gap = gaps[r_cfg.below(6)];
    mem_next = cold_gap ? 1 + r_cfg.below(2 * cold_gap) : ~0ull;
}

// Candidates: current first (if runnable), then the others in cyclic order.
static int candidates(Thr** out, bool rotate) {
    int n = 0, me = t_self->id;
    bool self_ok = !t_self->blocked && !t_self->done;
    if(self_ok && !rotate) out[n++] = t_self;
    for(int k = 1; k < g_nthr; k++) {
        Thr* t = g_thr[(me + k) % g_nthr];
        if(t->done || !t->started) continue;
        if(!t->blocked || (t->can_wake != WK_NONE && !g_fair && !g_nofault)) out[n++] = t;
    }
    if(self_ok && rotate) out[n++] = t_self;
    return n;
}
static bool any_runnable() {
    for(int i = 0; i < g_nthr; i++)
        if(g_thr[i]->started && !g_thr[i]->done && !g_thr[i]->blocked) return true;
    return false;
}
static u64 draw_sched(Thr** c, int n, bool self_ok) {
    if(strat == 1) {
        sched_events++;
        for(u64 p : pct_points)
            if(p == sched_events && self_ok) t_self->prio = pct_low--;
        if(p_switch && r_sched.p(p_switch) && self_ok) t_self->prio = pct_low > 0 ? pct_low-- : 0;
        int best = -1;
        for(int i = 0; i < n; i++) {
            // Blocked-but-interruptible threads are picked now and then.
            if(c[i]->blocked) {
                if(r_sched.p(4000)) return i;
                continue;
            }
            if(best < 0 || c[i]->prio > c[best]->prio) best = i;
        }
        return best < 0 ? 0 : best;
    }
    if(self_ok && !r_sched.p(p_switch)) return 0;
    u64 k = self_ok ? 1 + r_sched.below(n - 1) : r_sched.below(n);
    if(c[k]->blocked && !r_sched.p(12000)) {
        for(int i = 0; i < n; i++) {
            int j = (k + i) % n;
            if(!c[j]->blocked) return j;
        }
    }
    return k;
}
static void schedule_from(bool rotate) {
    Thr* c[MAXT];
    Thr* me = t_self;
    bool self_ok = !me->blocked && !me->done;
    int n = candidates(c, rotate);
    if(n == 0) return;
    int pick = 0;
    if(g_fair) {
        // Round robin, no choices.
        pick = 0;
        if(self_ok && me->consecutive > 40 && n > 1) pick = rotate ? 0 : 1;
    } else if(n > 1) {
        u64 d = 0;
        if(!rc.replay) d = rotate ? 0 : draw_sched(c, n, self_ok);
        pick = (int)decide(S_SCHED, n, d);
    }
    Thr* t = c[pick];
    if(t->blocked) { // spurious or interrupted wake-up
        sh->fault_fired[t->can_wake == WK_EINTR ? (t->wkind == W_EPOLL ? F_EINTR_EPOLL : t->wkind == W_SLEEP ? F_EINTR_SLEEP : t->wkind == W_FD ? F_EINTR_IO : F_EINTR_FUTEX) : F_SPURIOUS]++;
        Wake w = t->can_wake;
        trace("%6llu            T%d woken %s", (unsigned long long)g_step, t->id, w == WK_EINTR ? "by a signal (EINTR)" : "spuriously");
        wake(t, w);
    }
    if(t != me) {
        if(self_ok) sh->preemptions++;
        switch_to(t);
    }
}

static void fire_timers() {
    for(int i = 0; i < g_nthr; i++) {
        Thr* t = g_thr[i];
        if(t->blocked && t->deadline <= g_now) wake(t, WK_TIMEOUT);
    }
    fire_kernel_timers();
}
static std::string describe_threads() {
    static const char* wk[] = {"-", "mutex", "cond", "futex", "join", "sleep", "epoll", "fd", "quiesce", "gate", "once", "sem", "rwlock", "cond_destroy"};
    std::string s;
    char b[96];
    for(int i = 0; i < g_nthr; i++) {
        Thr* t = g_thr[i];
        if(t->done) continue;
        snprintf(b, sizeof b, "T%d:%s%s@%llx ", i, t->blocked ? "waits-" : "runs", t->blocked ? wk[t->wkind] : "", (unsigned long long)t->wobj);
        s += b;
    }
    return s;
}
// Current thread cannot continue (blocked or done). Picks another one; jumps time if needed.
static u32 g_quiescing, g_quiet_jumps;
static void leave() {
    Thr* me = t_self;
    for(;;) {
        if(!me->blocked && !me->done) return;
        if(any_runnable()) {
            schedule_from(false);
            if(me->done) return; // parked for ever by switch_to
            if(!me->blocked) return;
            continue;
        }
        u64 best = ~0ull, k;
        for(int i = 0; i < g_nthr; i++)
            if(g_thr[i]->blocked && !g_thr[i]->done && g_thr[i]->deadline < best) best = g_thr[i]->deadline;
        if(next_timer(k) && k < best) best = k;
        if(best != ~0ull && g_quiet_jumps < 500) {
            if(best > g_now) {
                g_now = best;
                if(g_quiescing) g_quiet_jumps++; // threads that only wake up now and then to look are quiet as well
                u64 late = fault_val(F_LATE_TIMER, 8);
                if(late) {
                    u64 d = late * late * 700000ull;
                    g_now += d;
                    g_stalled += d;
                }
            }
            if(++g_step > g_hard) violation("livelock", "no progress within %llu steps: %s", (unsigned long long)g_hard, describe_threads().c_str());
            fire_timers();
            continue;
        }
        bool q = false;
        for(int i = 0; i < g_nthr; i++)
            if(!g_thr[i]->done && g_thr[i]->blocked && g_thr[i]->wkind == W_QUIESCE) {
                wake(g_thr[i]);
                q = true;
            }
        g_quiet_jumps = 0;
        if(q) continue;
        violation("deadlock", "every thread waits for ever: %s", describe_threads().c_str());
    }
}

void sp(const char* op, u64 obj, u64 val) {
    if(!g_running || g_ending) {
        if(g_ending && t_self)
            for(;;) pause();
        return;
    }
    ev(op, obj, val);
    g_step++;
    g_now += g_tick;
    Thr* me = t_self;
    if(me->nopreempt) return;
    if(g_step >= g_soft && !g_fair) {
        g_fair = true;
        trace("---- fair scheduling and no faults from here on");
    }
    if(g_step > g_hard) violation("livelock", "no end within %llu steps: %s", (unsigned long long)g_hard, describe_threads().c_str());
    if(f_prob[F_STALL]) {
        u64 s = fault_val(F_STALL, 16);
        if(s) {
            u64 d = (s < 8) ? s * 100000ull : (s < 13) ? (s - 7) * 7000000ull : (s - 12) * 900000000ull;
            g_now += d;
            g_stalled += d;
        }
    }
    if(f_prob[F_WALL_JUMP]) {
        u64 s = fault_val(F_WALL_JUMP, 9);
        static const i64 jumps[9] = {0, 1000000, -1000000, 1500000000, -1500000000, 3600ll * 1000000000, -3600ll * 1000000000, 86400ll * 30 * 1000000000, -86400ll * 30 * 1000000000};
        if(s) g_wall_off += (u64)jumps[s];
    }
    fire_timers();
    me->consecutive++;
    if(g_fair && me->consecutive <= 40) return;
    bool rotate = me->consecutive > 400;
    if(rotate) {
        me->prio = pct_low > 0 ? pct_low-- : 0;
        me->consecutive = 0;
    }
    schedule_from(rotate);
}

Wake block(Wait kind, u64 obj, u64 deadline, Wake may) {
    Thr* me = t_self;
    if(!g_running) {
        fprintf(stderr, "blocking call outside a run\n");
        _exit(3);
    }
    if(g_ending)
        for(;;) pause();
    if(me->nopreempt) violation("internal:block-in-atomic", "thread T%d blocks inside an oracle section", me->id);
    me->blocked = true;
    me->blocks++;
    me->wkind = kind;
    me->wobj = obj;
    me->wseq = ++g_wseq;
    me->deadline = deadline;
    me->can_wake = WK_NONE;
    if(may != WK_NONE) {
        int k = may == WK_EINTR ? (kind == W_EPOLL ? F_EINTR_EPOLL : kind == W_SLEEP ? F_EINTR_SLEEP : kind == W_FD ? F_EINTR_IO : F_EINTR_FUTEX) : F_SPURIOUS;
        // The wake-up itself is counted when it is delivered.
        if(fault(k)) {
            me->can_wake = may;
            sh->fault_fired[k]--;
        } else if(may == WK_EINTR && kind == W_FUTEX && fault(F_SPURIOUS)) {
            me->can_wake = WK_SPURIOUS;
            sh->fault_fired[F_SPURIOUS]--;
        }
    }
    me->woke = WK_NONE;
    ev("block", kind, kind == W_FD ? 0 : obj);
    leave();
    return me->woke;
}
void wake(Thr* t, Wake w) {
    if(!t->blocked) return;
    t->blocked = false;
    t->woke = w;
    t->deadline = ~0ull;
    t->can_wake = WK_NONE;
    ev("wake", t->id, w);
}
int waiters(Wait kind, u64 obj, Thr** out) {
    int n = 0;
    for(int i = 0; i < g_nthr; i++) {
        Thr* t = g_thr[i];
        if(!t->done && t->blocked && t->wkind == kind && t->wobj == obj) {
            int j = n++;
            while(j > 0 && out[j - 1]->wseq > t->wseq) {
                out[j] = out[j - 1];
                j--;
            }
            out[j] = t;
        }
    }
    return n;
}

// ---- happens-before --------------------------------------------------------------------------
static std::unordered_map<u64, VC>* g_vc;
static void tickvc() {
    t_self->vc.c[t_self->id]++;
}
static VC zero_vc;
void hb_release(u64 obj) {
    if(!t_self) return;
    VC& v = g_vc->emplace(obj, zero_vc).first->second;
    v.join(t_self->vc, g_nthr);
    tickvc();
}
void hb_acquire(u64 obj) {
    if(!t_self) return;
    auto it = g_vc->find(obj);
    if(it != g_vc->end()) t_self->vc.join(it->second, g_nthr);
}
void hb_clear(u64 obj) {
    if(!g_vc) return;
    g_vc->erase(obj);
}

// ---- heap ------------------------------------------------------------------------------------
constexpr u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
constexpr u64 SHADOW = 0x110000000000ull; // one byte per 8 bytes: 0 none, 9 freed, 1..8 valid bytes
constexpr u64 SHADOW_SZ = ARENA_SZ / 8;
constexpr u64 BIDX = 0x120000000000ull; // u32 per 16 bytes: block number + 1
struct Block {
    u64 addr, size;
    bool live;
    int tid;
    u64 step;
    int free_tid;
    u64 free_step;
    u64 cap;
};
static std::vector<Block>* g_blocks;
static std::map<u64, std::vector<u32>>* g_free;
static u64 g_brk = ARENA + 4096;
static u64 g_live = 0, g_live_bytes = 0;
static bool g_reuse = false;
static int g_fill = 0;
static u8* shadow() {
    return (u8*)SHADOW;
}
static u32* bidx() {
    return (u32*)BIDX;
}
static void heap_init() {
    static bool done = false;
    if(done) return;
    done = true;
    auto m = [](u64 a, u64 n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p != (void*)a) {
            fprintf(stderr, "cannot map simulator memory at %llx: %s\n", (unsigned long long)a, strerror(errno));
            _exit(3);
        }
    };
    m(ARENA, ARENA_SZ);
    m(SHADOW, SHADOW_SZ);
    m(BIDX, ARENA_SZ / 4);
    g_blocks = new std::vector<Block>;
    g_blocks->reserve(4096);
    g_free = new std::map<u64, std::vector<u32>>;
}
static void poison(u64 a, u64 n, bool valid) {
    u64 g = (a - ARENA) / 8;
    u64 full = n / 8;
    memset(shadow() + g, valid ? 8 : 9, full);
    if(n % 8) shadow()[g + full] = valid ? n % 8 : 9;
}
static void unwatch_range(u64 a, u64 n);
static void heap_watch_forget(u64 a, u64 n);
// Copies and clears without touching pages that nobody has written (they are zero).
static void present(const void* p, u64 n, std::vector<u8>& v) {
    u64 lo = (u64)p & ~4095ull, hi = ((u64)p + n + 4095) & ~4095ull;
    v.resize((hi - lo) / 4096);
    if(mincore((void*)lo, hi - lo, v.data())) memset(v.data(), 1, v.size());
}
void* sparse_set(void* d, int c, u64 n) {
    if(c || n < SPARSE) return memset(d, c, n);
    std::vector<u8> v;
    present(d, n, v);
    u64 lo = (u64)d & ~4095ull, e = (u64)d + n;
    for(u64 i = 0; i < v.size(); i++) {
        if(!(v[i] & 1)) continue;
        u64 a = lo + i * 4096, b = a + 4096;
        if(a < (u64)d) a = (u64)d;
        if(b > e) b = e;
        memset((void*)a, 0, b - a);
    }
    return d;
}
void* sparse_copy(void* d, const void* s, u64 n) {
    if(n < SPARSE || ((u64)d < (u64)s + n && (u64)s < (u64)d + n)) return memmove(d, s, n);
    std::vector<u8> v;
    present(s, n, v);
    u64 lo = (u64)s & ~4095ull, e = (u64)s + n;
    u64 off = (u64)d - (u64)s, hole = 0;
    for(u64 i = 0; i <= v.size(); i++) {
        bool here = i < v.size() && (v[i] & 1);
        u64 a = lo + i * 4096, b = a + 4096;
        if(a < (u64)s) a = (u64)s;
        if(b > e) b = e;
        if((here || i == v.size()) && hole) {
            sparse_set((void*)(hole + off), 0, (i == v.size() ? e : a) - hole);
            hole = 0;
        }
        if(here) memcpy((void*)(a + off), (void*)a, b - a);
        else if(!hole) hole = a;
    }
    return d;
}
// Blocks of gigabytes live outside the arena and are never filled, so that they cost address space only.
static std::map<u64, u32>* g_big;
static void* big_malloc(u64 n) {
    void* p = MAP_FAILED;
    u64 cap = (n + 4095) & ~4095ull;
    static u64 next = 0x200000000000ull;
    if(n <= (64ull << 30)) p = mmap((void*)next, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p == MAP_FAILED) {
        errno = ENOMEM;
        return nullptr;
    }
    next += cap + (1 << 20);
    if(!g_big) g_big = new std::map<u64, u32>;
    (*g_big)[(u64)p] = (u32)g_blocks->size();
    g_blocks->push_back({(u64)p, n, true, t_self ? t_self->id : -1, g_step, -1, 0, cap});
    g_live++;
    g_live_bytes += n;
    return p;
}
void* rt_malloc(size_t n, size_t align) {
    heap_init();
    if(n > (256u << 20)) return big_malloc(n);
    u64 req = n ? n : 1;
    u64 cap = (req + 15) & ~15ull;
    if(g_reuse && align <= 16) {
        auto it = g_free->find(cap);
        if(it != g_free->end() && !it->second.empty()) {
            u32 b = it->second.back();
            it->second.pop_back();
            Block& bl = (*g_blocks)[b];
            Block nb = bl;
            nb.size = n;
            nb.live = true;
            nb.tid = t_self ? t_self->id : -1;
            nb.step = g_step;
            u32 id = (u32)g_blocks->size();
            g_blocks->push_back(nb);
            bidx()[(nb.addr - ARENA) / 16] = id + 1;
            poison(nb.addr, n, true);
            if(n % 8 == 0 && cap > n) shadow()[(nb.addr - ARENA + n) / 8] = 0;
            g_live++;
            g_live_bytes += n;
            memset((void*)nb.addr, g_fill, n);
            return (void*)nb.addr;
        }
    }
    u64 a = (g_brk + align - 1) & ~(align - 1);
    if(a + cap + 64 > ARENA + ARENA_SZ) {
        errno = ENOMEM;
        return nullptr;
    }
    g_brk = a + cap + 32; // red zone
    u32 id = (u32)g_blocks->size();
    g_blocks->push_back({a, n, true, t_self ? t_self->id : -1, g_step, -1, 0, cap});
    // every 16 bytes of the block point to it, for diagnostics of interior pointers
    bidx()[(a - ARENA) / 16] = id + 1;
    poison(a, n, true);
    g_live++;
    g_live_bytes += n;
    if(g_fill) memset((void*)a, g_fill, n);
    return (void*)a;
}
static Block* block_at(const void* p) {
    u64 a = (u64)p;
    if(g_big && (a < ARENA || a >= ARENA + ARENA_SZ)) {
        auto it = g_big->find(a);
        if(it != g_big->end()) return &(*g_blocks)[it->second];
    }
    if(a < ARENA || a >= ARENA + ARENA_SZ || (a & 15)) return nullptr;
    u32 i = bidx()[(a - ARENA) / 16];
    if(!i) return nullptr;
    Block* b = &(*g_blocks)[i - 1];
    return b->addr == a ? b : nullptr;
}
static Block* block_containing(u64 a) {
    u64 g = (a - ARENA) / 16;
    for(u64 k = 0; k < (1u << 22) && k <= g; k++) {
        u32 i = bidx()[g - k];
        if(i) return &(*g_blocks)[i - 1];
    }
    return nullptr;
}
void acc(const void* p, size_t n, bool w);
void rt_free(void* p) {
    if(!p) return;
    Block* b = block_at(p);
    if(!b) violation("invalid-free", "free(%p): not a heap block", p);
    if(!b->live) violation("double-free", "free(%p): block of %llu bytes was already freed by T%d at step %llu", p, (unsigned long long)b->size, b->free_tid, (unsigned long long)b->free_step);
    bool big = b->addr < ARENA || b->addr >= ARENA + ARENA_SZ;
    if(big && g_running) sp("free-big", b->size);
    if(!big && g_running) acc(p, b->size ? b->size : 1, true); // freeing conflicts with any concurrent access
    unwatch_range(b->addr, b->size);
    if(!big) heap_watch_forget(b->addr, b->size);
    // Somebody waiting on an object inside the block?
    if(g_running)
        for(int i = 0; i < g_nthr; i++) {
            Thr* t = g_thr[i];
            if(!t->done && t->blocked && t->wkind != W_FUTEX && (t->wobj >= b->addr && t->wobj < b->addr + b->size))
                violation("freed-while-waited-on", "T%d frees memory in which T%d is waiting on an object", t_self ? t_self->id : -1, t->id);
        }
    b->live = false;
    b->free_tid = t_self ? t_self->id : -1;
    b->free_step = g_step;
    g_live--;
    g_live_bytes -= b->size;
    if(big) {
        g_big->erase(b->addr);
        // The address is not used again: a later access crashes.
        mmap(p, b->cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        return;
    }
    poison(b->addr, b->size, false);
    memset(p, 0xDD, b->size);
    if(g_reuse) (*g_free)[b->cap].push_back((u32)(b - g_blocks->data()));
}
void* rt_realloc(void* p, size_t n) {
    if(!p) return rt_malloc(n);
    Block* b = block_at(p);
    if(!b || !b->live) violation("invalid-free", "realloc(%p)", p);
    u64 old = b->size;
    void* q = rt_malloc(n);
    if(!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    rt_free(p);
    return q;
}
size_t rt_block_size(void* p) {
    Block* b = block_at(p);
    return b ? b->size : 0;
}
extern "C" int sim_heap_live_at(const void* p) {
    u64 a = (u64)p;
    if(g_big && (a < ARENA || a >= ARENA + ARENA_SZ)) {
        auto it = g_big->upper_bound(a);
        if(it != g_big->begin()) {
            --it;
            if(a - it->first < (*g_blocks)[it->second].size) return 1;
        }
    }
    if(a < ARENA || a >= ARENA + ARENA_SZ) return 0;
    u8 s = shadow()[(a - ARENA) / 8];
    return s >= 1 && s <= 8 && (a & 7) < s;
}
extern "C" size_t sim_heap_block_size(const void* p) {
    return rt_block_size((void*)p);
}
extern "C" u64 sim_heap_live(void) {
    return g_live;
}
extern "C" u64 sim_heap_live_bytes(void) {
    return g_live_bytes;
}
extern "C" u64 sim_heap_allocs(void) {
    return g_blocks->size();
}
extern "C" u64 sim_heap_mark(void) {
    return g_blocks->size();
}
extern "C" u64 sim_heap_live_since(u64 m) {
    u64 n = 0;
    for(u64 i = m; i < g_blocks->size(); i++) n += (*g_blocks)[i].live;
    return n;
}
extern "C" void sim_heap_dump_since(u64 m) {
    for(u64 i = m; i < g_blocks->size(); i++)
        if((*g_blocks)[i].live) {
            Block& b = (*g_blocks)[i];
            trace("       live block %llx size %llu allocated by T%d at step %llu", (unsigned long long)b.addr, (unsigned long long)b.size, b.tid, (unsigned long long)b.step);
        }
}
extern "C" void sim_heap_reuse(int on) {
    g_reuse = on;
}

// ---- watched ranges --------------------------------------------------------------------------
struct Cell {
    int wt = -1;
    u32 wc = 0;
    std::vector<u32> r; // last read clock per thread
};
struct Watch {
    u64 a, n;
    const char* name;
    std::vector<Cell> cells;
};
static std::vector<Watch>* g_watch;
static u64 w_lo = ~0ull, w_hi = 0;
static void watch_bounds() {
    w_lo = ~0ull;
    w_hi = 0;
    for(auto& w : *g_watch) {
        if(w.a < w_lo) w_lo = w.a;
        if(w.a + w.n > w_hi) w_hi = w.a + w.n;
    }
}
extern "C" void sim_watch(const void* p, size_t n, const char* name) {
    sim_unwatch(p);
    Watch w{(u64)p, n, name, {}};
    w.cells.resize((n + 7 + ((u64)p & 7)) / 8 + 1);
    g_watch->push_back(std::move(w));
    watch_bounds();
}
extern "C" void sim_unwatch(const void* p) {
    for(u64 i = 0; i < g_watch->size(); i++)
        if((*g_watch)[i].a == (u64)p) {
            (*g_watch)[i] = g_watch->back();
            g_watch->pop_back();
            watch_bounds();
            return;
        }
}
static void unwatch_range(u64 a, u64 n) {
    if(!g_watch || w_lo >= a + n || w_hi <= a) return;
    for(u64 i = 0; i < g_watch->size();) {
        if((*g_watch)[i].a >= a && (*g_watch)[i].a < a + n) {
            (*g_watch)[i] = g_watch->back();
            g_watch->pop_back();
        } else
            i++;
    }
    watch_bounds();
}
static void watch_check(u64 a, u64 n, bool wr) {
    Thr* me = t_self;
    for(auto& w : *g_watch) {
        if(a >= w.a + w.n || a + n <= w.a) continue;
        u64 lo = a > w.a ? a : w.a, hi = a + n < w.a + w.n ? a + n : w.a + w.n;
        u64 base = w.a & ~7ull;
        for(u64 c = (lo - base) / 8; c <= (hi - 1 - base) / 8; c++) {
            Cell& x = w.cells[c];
            if(x.wt >= 0 && x.wt != me->id && x.wc > me->vc.c[x.wt])
                violation("data-race", "%s of %s by T%d is not ordered after the write by T%d", wr ? "write" : "read", w.name, me->id, x.wt);
            if(wr) {
                for(u64 t = 0; t < x.r.size(); t++)
                    if((int)t != me->id && x.r[t] > me->vc.c[t]) violation("data-race", "write of %s by T%d is not ordered after the read by T%d", w.name, me->id, (int)t);
                x.wt = me->id;
                x.wc = me->vc.c[me->id];
                x.r.clear();
            } else {
                if(x.r.size() <= (u64)me->id) x.r.resize(me->id + 1, 0);
                x.r[me->id] = me->vc.c[me->id];
            }
        }
    }
}

// ---- every heap block (sim_watch_heap) --------------------------------------------------------
// One cell per 8 bytes: the last write and the last read of each thread, with the bytes they touched.
// Accesses made by the scenario's oracle (inside Sim_Atomic) are neither checked nor recorded.
struct HRead {
    u16 tid;
    u8 mask;
    u32 clk;
};
struct HCell {
    int wt = -1;
    u32 wc = 0;
    u8 wmask = 0;
    std::vector<HRead> r;
};
static std::unordered_map<u64, HCell>* g_hw;
static const char* g_hw_name;
extern "C" void sim_watch_heap(const char* name) {
    g_hw_name = name;
    if(!g_hw) g_hw = new std::unordered_map<u64, HCell>;
    g_hw->clear();
}
static void heap_watch_forget(u64 a, u64 n) {
    if(!g_hw) return;
    for(u64 g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++) g_hw->erase(g);
}
static void heap_watch_check(u64 a, u64 n, bool wr) {
    Thr* me = t_self;
    if(me->nopreempt || n > 65536) return;
    for(u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        u8 mask = 0xff;
        if(g << 3 < a) mask &= (u8)(0xff << (a & 7));
        if((g << 3) + 8 > a + n) mask &= (u8)(0xff >> ((g << 3) + 8 - (a + n)));
        HCell& x = (*g_hw)[g];
        if(x.wt >= 0 && x.wt != me->id && (x.wmask & mask) && x.wc > me->vc.c[x.wt])
            violation("data-race", "%s of %s by T%d is not ordered after the write by T%d", wr ? "write" : "read", g_hw_name, me->id, x.wt);
        if(wr) {
            for(auto& r : x.r)
                if((int)r.tid != me->id && (r.mask & mask) && r.clk > me->vc.c[r.tid]) violation("data-race", "write of %s by T%d is not ordered after the read by T%d", g_hw_name, me->id, (int)r.tid);
            x.wt = me->id;
            x.wc = me->vc.c[me->id];
            x.wmask = mask;
            x.r.clear();
        } else {
            bool f = false;
            for(auto& r : x.r)
                if(r.tid == me->id) {
                    r.mask = r.clk == me->vc.c[me->id] ? r.mask | mask : mask;
                    r.clk = me->vc.c[me->id];
                    f = true;
                }
            if(!f) x.r.push_back({(u16)me->id, mask, me->vc.c[me->id]});
        }
    }
}

// ---- memory accesses -------------------------------------------------------------------------
constexpr u64 STACKS = 0x130000000000ull, STACK_SZ = 512 << 10;
constexpr u64 STACK_GAP = 64 << 10;
constexpr u64 HOT = 1 << 14;
static u64 hot_key[HOT];
static u8 hot_tid[HOT];
static u8 hot_shared[HOT];
constexpr u64 MEM_LIMIT = 60000000;

static void bad_access(u64 a, u64 n, bool w) {
    Block* b = block_containing(a);
    u8 s = shadow()[(a - ARENA) / 8];
    const char* cls = s == 9 ? "heap-use-after-free" : "heap-out-of-bounds";
    if(b)
        violation(cls, "%s of %llu bytes at %llx, offset %lld in the %llu-byte block allocated by T%d at step %llu%s T%d at step %llu", w ? "write" : "read", (unsigned long long)n,
                  (unsigned long long)a, (long long)(a - b->addr), (unsigned long long)b->size, b->tid, (unsigned long long)b->step, b->live ? "; live;" : "; freed by", b->free_tid, (unsigned long long)b->free_step);
    violation(cls, "%s of %llu bytes at %llx", w ? "write" : "read", (unsigned long long)n, (unsigned long long)a);
}
static void check_heap(u64 a, u64 n, bool w) {
    u8* s = shadow();
    u64 e = a + n;
    u64 g = (a - ARENA) / 8, ge = (e - 1 - ARENA) / 8;
    for(u64 i = g; i <= ge; i++) {
        u8 v = s[i];
        if(v == 8) continue;
        if(v == 0 || v == 9) bad_access(i == g ? a : ARENA + i * 8, n, w);
        u64 lastbyte = (i == ge) ? ((e - 1) & 7) : 7;
        if(lastbyte >= v) bad_access(ARENA + i * 8 + v, n, w);
    }
}
static void mem_point(u64 a) {
    Thr* me = t_self;
    u64 idx = ++g_mem_idx;
    if(idx > MEM_LIMIT) violation("livelock", "memory access limit reached without an end: %s", describe_threads().c_str());
    if(me->nopreempt || g_fair) return;
    u64 v = 0;
    if(rc.replay) {
        v = lookup(S_MEM, idx);
        if(!v) return;
    } else {
        bool go = false;
        if(idx >= mem_next) {
            go = true;
            mem_next = idx + 1 + r_mem.below(2 * cold_gap);
        } else if(p_hot) {
            u64 k = (a >> 3) & (HOT - 1);
            if(hot_key[k] != a >> 3) {
                hot_key[k] = a >> 3;
                hot_tid[k] = me->id;
                hot_shared[k] = 0;
            } else if(hot_tid[k] != me->id) {
                hot_tid[k] = me->id;
                hot_shared[k] = 1;
            }
            if(hot_shared[k] && r_mem.p(p_hot)) go = true;
        }
        if(!go) return;
    }
    Thr* c[MAXT];
    int n = candidates(c, false);
    int m = 0;
    for(int i = 1; i < n; i++)
        if(!c[i]->blocked) c[m++] = c[i];
    if(m == 0) return;
    if(!rc.replay) {
        if(strat == 1) {
            me->prio = pct_low > 0 ? pct_low-- : 0;
            int best = 0;
            for(int i = 1; i < m; i++)
                if(c[i]->prio > c[best]->prio) best = i;
            v = 1 + best;
        } else
            v = 1 + r_mem.below(m);
    }
    record(S_MEM, idx, v);
    Thr* t = c[(v - 1) % m];
    ev("preempt", a, t->id);
    sh->preemptions++;
    if(++g_step > g_hard) violation("livelock", "no end within %llu steps: %s", (unsigned long long)g_hard, describe_threads().c_str());
    switch_to(t);
}
u64 sched_pick(u64 n) {
    if(n <= 1 || g_fair) return 0;
    return decide(S_SCHED, n, rc.replay ? 0 : r_sched.below(n));
}
bool on_heap(const void* p) {
    return (u64)p - ARENA < ARENA_SZ;
}
void heapchk(const void* p, size_t n, bool w) {
    if(g_running && (u64)p - ARENA < ARENA_SZ) check_heap((u64)p, n, w);
}
void acc(const void* p, size_t n, bool w) {
    if(!g_running || !n) return;
    if(g_ending)
        for(;;) pause();
    u64 a = (u64)p;
    Thr* me = t_self;
    if(!me) return;
    if(a - (u64)me->stack < STACK_SZ) {
        if(a < w_hi && a + n > w_lo) watch_check(a, n, w);
        return;
    }
    mem_point(a);
    if(a - ARENA < ARENA_SZ) {
        check_heap(a, n, w);
        if(g_hw) heap_watch_check(a, n, w);
    }
    if(a < w_hi && a + n > w_lo) watch_check(a, n, w);
}
extern "C" void sim_touch(const void* p, size_t n, int w) {
    acc(p, n, w);
}

// ---- instrumentation callbacks ---------------------------------------------------------------
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
void __tsan_ignore_thread_begin() {
}
void __tsan_ignore_thread_end() {
}
#define RW(N)                                                                                      \
    void __tsan_read##N(void* p) { acc(p, N, false); }                                             \
    void __tsan_write##N(void* p) { acc(p, N, true); }                                             \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); }                                   \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); }                                   \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); }                                    \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); }                                    \
    void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false); }                          \
    void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true); }                          \
    void __tsan_read_write##N(void* p) { acc(p, N, true); }                                        \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void* p, void*) { acc(p, 1, false); }
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    acc(s, n, false);
    acc(d, n, true);
    return n < SPARSE ? memcpy(d, s, n) : sparse_copy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    acc(s, n, false);
    acc(d, n, true);
    return n < SPARSE ? memmove(d, s, n) : sparse_copy(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
    acc(d, n, true);
    return n < SPARSE ? memset(d, c, n) : sparse_set(d, c, n);
}
}

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
static bool is_acq(int m) {
    return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQ_REL || m == MO_SEQ;
}
static bool is_rel(int m) {
    return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ;
}
static void heap_only(u64 a, u64 n, bool w) {
    if(a - ARENA < ARENA_SZ) check_heap(a, n, w);
}
static void a_load(u64 a, int mo) {
    if(!g_running || !t_self) return;
    auto it = g_vc->find(a);
    if(it == g_vc->end()) return;
    if(is_acq(mo))
        t_self->vc.join(it->second, g_nthr);
    else
        t_self->acqP.join(it->second, g_nthr);
}
static void a_store(u64 a, int mo) {
    if(!g_running || !t_self) return;
    VC& v = g_vc->emplace(a, zero_vc).first->second;
    if(is_rel(mo)) {
        v = t_self->vc;
        tickvc();
    } else
        v = t_self->relF;
}
static void a_rmw(u64 a, int mo) {
    if(!g_running || !t_self) return;
    VC& v = g_vc->emplace(a, zero_vc).first->second;
    VC old = v;
    if(is_acq(mo))
        t_self->vc.join(old, g_nthr);
    else
        t_self->acqP.join(old, g_nthr);
    if(is_rel(mo)) {
        v.join(t_self->vc, g_nthr);
        tickvc();
    } else
        v.join(t_self->relF, g_nthr);
}
template<typename T>
static T at_load(const volatile T* p, int mo) {
    sp("load", (u64)p);
    heap_only((u64)p, sizeof(T), false);
    T v = *p;
    a_load((u64)p, mo);
    if(g_running && rc.trace) trace("%24s   -> %llx", "", (unsigned long long)v);
    return v;
}
template<typename T>
static void at_store(volatile T* p, T v, int mo) {
    sp("store", (u64)p, (u64)v);
    heap_only((u64)p, sizeof(T), true);
    *p = v;
    a_store((u64)p, mo);
}
template<typename T, typename F>
static T at_rmw(const char* op, volatile T* p, T v, int mo, F f) {
    sp(op, (u64)p, (u64)v);
    heap_only((u64)p, sizeof(T), true);
    T old = *p;
    *p = f(old, v);
    a_rmw((u64)p, mo);
    if(g_running && rc.trace) trace("%24s   %llx -> %llx", "", (unsigned long long)old, (unsigned long long)(u64)*p);
    return old;
}
template<typename T>
static bool at_cas(volatile T* p, T* e, T d, int mo, int fmo, bool weak) {
    sp("cas", (u64)p, (u64)d);
    heap_only((u64)p, sizeof(T), true);
    T old = *p;
    bool ok = old == *e;
    if(ok && weak && fault(F_WEAK_CAS)) ok = false;
    if(ok) {
        *p = d;
        a_rmw((u64)p, mo);
    } else {
        *e = old;
        a_load((u64)p, fmo);
    }
    if(g_running && rc.trace) trace("%24s   %llx %s", "", (unsigned long long)(u64)old, ok ? "swapped" : "kept");
    return ok;
}
extern "C" {
typedef __int128 i128;
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
#define ATOMIC(N, T)                                                                               \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return at_load<T>(p, mo); }           \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo); }           \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>("xchg", p, v, mo, [](T, T b) { return b; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>("add", p, v, mo, [](T a, T b) { return (T)(a + b); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>("sub", p, v, mo, [](T a, T b) { return (T)(a - b); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>("and", p, v, mo, [](T a, T b) { return (T)(a & b); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>("or", p, v, mo, [](T a, T b) { return (T)(a | b); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>("xor", p, v, mo, [](T a, T b) { return (T)(a ^ b); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>("nand", p, v, mo, [](T a, T b) { return (T)(~(a & b)); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return at_cas<T>(p, e, d, mo, fmo, false); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return at_cas<T>(p, e, d, mo, fmo, true); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { at_cas<T>(p, &e, d, mo, fmo, false); return e; }
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64)
void __tsan_atomic_thread_fence(int mo) {
    if(!g_running || !t_self) return;
    sp("fence", mo);
    if(is_acq(mo)) t_self->vc.join(t_self->acqP, g_nthr);
    if(is_rel(mo)) {
        t_self->relF = t_self->vc;
        tickvc();
    }
}
void __tsan_atomic_signal_fence(int) {
}
}

// ---- threads ---------------------------------------------------------------------------------
static std::vector<u64>* free_handles;
static bool handle_reuse = true;
static u64 next_handle = 0x7f3000000000ull + 0x640;
static u64 take_handle() {
    if(handle_reuse && !free_handles->empty()) {
        u64 h = free_handles->back();
        free_handles->pop_back();
        return h;
    }
    u64 h = next_handle;
    next_handle += 0x801000;
    return h;
}
static Thr* by_handle(u64 h) {
    for(int i = g_nthr - 1; i >= 0; i--)
        if(g_thr[i]->handle == h && !g_thr[i]->handle_free) return g_thr[i];
    return nullptr;
}
static void release_handle(Thr* t) {
    if(t->handle_free) return;
    t->handle_free = true;
    free_handles->push_back(t->handle);
}
static void (*g_at_end)() = nullptr;
extern "C" void sim_at_end(void (*f)(void)) {
    g_at_end = f;
}
static void thread_end(void* p) {
    // Key destructor: runs after the C++ thread_local destructors of this thread.
    Thr* me = (Thr*)p;
    if(g_ending)
        for(;;) pause();
    if(me->id == 0 && g_at_end) g_at_end();
    sp("thread-exit", me->id);
    me->endvc = me->vc;
    if(me->id == 0) finish(ST_OK);
    me->done = true;
    Thr* w[MAXT];
    int n = waiters(W_JOIN, me->id, w);
    for(int i = 0; i < n; i++) wake(w[i]);
    if(me->detached) release_handle(me);
    leave();
}
static void sig_handler(int sig, siginfo_t* si, void* uc);
static void* tramp(void* p) {
    Thr* me = (Thr*)p;
    static __thread u8 alt[16384] __attribute__((aligned(16)));
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    t_self = me;
    fwait(&me->go);
    pthread_setspecific(g_key, me);
    me->ret = me->fn(me->arg);
    return nullptr;
}
static Thr* new_thread(void* (*fn)(void*), void* arg) {
    if(g_nthr >= MAXT) violation("internal:threads", "too many simulated threads");
    Thr* t = new Thr;
    memset(&t->vc, 0, sizeof(VC) * 4);
    t->id = g_nthr;
    g_thr[g_nthr++] = t;
    t->fn = fn;
    t->arg = arg;
    t->handle = take_handle();
    t->stack = (u8*)(STACKS + (u64)t->id * (STACK_SZ + STACK_GAP));
    t->prio = 2000 + r_cfg.below(1000000);
    if(mmap(t->stack, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != t->stack) {
        fprintf(stderr, "stack mmap failed\n");
        _exit(3);
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stack, STACK_SZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t h;
    int r = pthread_create(&h, &at, tramp, t);
    if(r) {
        fprintf(stderr, "real pthread_create: %s\n", strerror(r));
        _exit(3);
    }
    pthread_attr_destroy(&at);
    t->started = true;
    t->vc.c[t->id] = 1;
    return t;
}
extern "C" {
int simc_pthread_create(u64* h, const void*, void* (*fn)(void*), void* arg) {
    if(!g_running) return EAGAIN;
    sp("create", (u64)fn);
    if(fault(F_THREAD_FAIL)) return EAGAIN;
    Thr* t = new_thread(fn, arg);
    t->vc.join(t_self->vc, g_nthr);
    tickvc();
    acc(h, 8, true);
    *h = t->handle;
    ev("created", t->id, t->handle);
    sp("created2", t->id);
    return 0;
}
}
static int do_join(u64 h, void** ret, u64 deadline) {
    sp("join", h);
    Thr* t = by_handle(h);
    if(!t || t->joined) violation("join-invalid", "pthread_join of a thread that is already joined or unknown (%llx)", (unsigned long long)h);
    if(t->detached) return EINVAL;
    if(t == t_self) return EDEADLK;
    while(!t->done)
        if(g_now >= deadline || block(W_JOIN, t->id, deadline) == WK_TIMEOUT) {
            if(!t->done) return deadline ? ETIMEDOUT : EBUSY;
        }
    t->joined = true;
    t_self->vc.join(t->endvc, g_nthr);
    if(ret) *ret = t->ret;
    release_handle(t);
    return 0;
}
extern "C" {
int simc_pthread_join(u64 h, void** ret) {
    return do_join(h, ret, ~0ull);
}
int simc_pthread_tryjoin_np(u64 h, void** ret) {
    return do_join(h, ret, 0);
}
int simc_pthread_clockjoin_np(u64 h, void** ret, int clock, const timespec* ts) {
    i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if(clock == CLOCK_REALTIME) t -= (i64)g_wall_off;
    return do_join(h, ret, t <= 0 ? 1 : (u64)t);
}
int simc_pthread_timedjoin_np(u64 h, void** ret, const timespec* ts) {
    return simc_pthread_clockjoin_np(h, ret, CLOCK_REALTIME, ts);
}
int simc_pthread_detach(u64 h) {
    sp("detach", h);
    Thr* t = by_handle(h);
    if(!t || t->joined) violation("detach-invalid", "pthread_detach of a thread that is already joined or unknown (%llx)", (unsigned long long)h);
    if(t->detached) return EINVAL;
    t->detached = true;
    if(t->done) release_handle(t);
    return 0;
}
u64 simc_pthread_self(void) {
    return t_self ? t_self->handle : 0x7f2fff000740ull;
}
int simc_pthread_equal(u64 a, u64 b) {
    return a == b;
}
int simc_sched_yield(void) {
    sp("yield", 0);
    return 0;
}
void sim_yield(void) {
    sp("sim-yield", 0);
}
u64 sim_step(void) {
    return g_step;
}
u64 sim_now(void) {
    return g_now;
}
u64 sim_wall(void) {
    return g_now + g_wall_off;
}
u64 sim_stalled(void) {
    return g_stalled;
}
int sim_tid_of(uint64_t handle) {
    Thr* t = by_handle(handle);
    return t ? t->id : -1;
}
int sim_tid(void) {
    return t_self ? t_self->id : -1;
}
int sim_thread_alive(int t) {
    return t < g_nthr && !g_thr[t]->done;
}
int sim_threads_alive(void) {
    int n = 0;
    for(int i = 0; i < g_nthr; i++) n += !g_thr[i]->done;
    return n;
}
int sim_threads_unjoined(void) {
    int n = 0;
    for(int i = 1; i < g_nthr; i++) n += !g_thr[i]->joined && !g_thr[i]->detached;
    return n;
}
void sim_nopreempt(int d) {
    if(t_self) t_self->nopreempt += d;
}
void sim_sleep(u64 ns) {
    sp("sim-sleep", ns);
    u64 d = g_now + ns;
    while(g_now < d) block(W_SLEEP, 0, d);
}
void sim_quiesce(void) {
    sp("quiesce", 0);
    g_quiescing++;
    block(W_QUIESCE, 0);
    g_quiescing--;
    g_quiet_jumps = 0;
}
void sim_gate_wait(volatile u32* w) {
    sp("gate-wait", (u64)w);
    while(!*w) block(W_GATE, (u64)w);
}
void sim_gate_open(volatile u32* w) {
    *w = 1;
    Thr* t[MAXT];
    int n = waiters(W_GATE, (u64)w, t);
    for(int i = 0; i < n; i++) wake(t[i]);
    sp("gate-open", (u64)w);
}
int sim_polls(int t) {
    return t >= 0 && t < g_nthr && g_thr[t] && g_thr[t]->polls;
}
u64 sim_blocks(int t) {
    return g_thr[t]->blocks;
}
int sim_blocked(int t) {
    return g_thr[t]->blocked;
}
u64 sim_ctx_switches(void) {
    return sh->switches;
}
void sim_wall_jump(i64 ns) {
    g_wall_off += (u64)ns;
}
void sim_advance(u64 ns) {
    g_now += ns;
    sp("advance", ns);
}
u64 sim_work(u64 n) {
    return work(n);
}
int sim_chance(u64 num, u64 den) {
    if(num >= den) return 1;
    // 0 (false) is the simplest value
    u64 v = work(den);
    return v >= den - num;
}
u64 sim_hash(const void* p, size_t n) {
    u64 h = 1469598103934665603ull;
    for(size_t i = 0; i < n; i++) h = (h ^ ((const u8*)p)[i]) * 1099511628211ull;
    return h;
}
}

// ---- process end -----------------------------------------------------------------------------
void rt_exit(int how, int code) {
    if(!g_running) _exit(code);
    if(g_ending)
        for(;;) pause();
    ev("exit", how, code);
    trace("%6llu            T%d process ends: %s %d", (unsigned long long)g_step, t_self->id, how ? "signal" : "exit", how ? how : code);
    if(g_exit_hook) {
        t_self->nopreempt++;
        g_exit_hook(how, code);
        t_self->nopreempt--;
        finish(ST_OK);
    }
    const char* out = sim_stdout_data();
    size_t n = sim_stdout_size();
    // last line printed
    size_t e = n;
    while(e > 0 && (out[e - 1] == '\n')) e--;
    size_t b = e;
    while(b > 0 && out[b - 1] != '\n') b--;
    if(how == SIGTRAP)
        violation("fatal-error", "the library stopped the process: %.*s", (int)(e - b > 600 ? 600 : e - b), out + b);
    violation("unexpected-exit", "%s %d: %.*s", how ? "signal" : "exit", how ? how : code, (int)(e - b > 600 ? 600 : e - b), out + b);
}
static void sig_handler(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    (void)u;
    if(!t_self || !g_running) {
        fprintf(stderr, "simulator crashed: signal %d at %p\n", sig, si->si_addr);
        _exit(3);
    }
    const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "SIGTRAP";
    char cls[32];
    snprintf(cls, sizeof cls, "crash:%s", nm);
    violation(cls, "signal %s in T%d at address %p pc %llx", nm, t_self->id, si->si_addr, (unsigned long long)u->uc_mcontext.gregs[REG_RIP]);
}

static void* t0_main(void*) {
    // Run configuration, part of the workload stream (0 = default).
    u64 c = work(4);
    g_fill = c == 0 ? 0 : c == 1 ? 0xCD : c == 2 ? 0xFF : 0x01;
    g_tick = 100 + 900 * work(3);
    handle_reuse = work(4) != 3;
    libc_stdin_closed(work(8) == 7);
    if(work(6) == 5) libc_fd_first(240 + (int)work(40));
    scenario();
    return nullptr;
}
[[noreturn]] void rt_run_child() {
    heap_init();
    g_watch = new std::vector<Watch>;
    g_vc = new std::unordered_map<u64, VC>;
    free_handles = new std::vector<u64>;
    for(int i = 0; i < F_COUNT; i++) f_nth[i] = -1;
    u64 s = rc.seed;
    r_work.s = mix64(s ^ 0x1111);
    r_sched.s = mix64(s ^ 0x2222);
    r_mem.s = mix64(s ^ 0x3333);
    r_fault.s = mix64(s ^ 0x4444);
    r_cfg.s = mix64(s ^ 0x5555);
    draw_strategy();
    struct sigaction sa = {};
    sa.sa_sigaction = sig_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for(int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(sig, &sa, nullptr);
    pthread_key_create(&g_key, thread_end);
    g_now = 1000000000000ull;
    g_wall_off = 1700000000ull * 1000000000ull;
    libc_reset();
    Thr* t0 = new_thread(t0_main, nullptr);
    g_cur = t0;
    g_running = true;
    fwake(&t0->go);
    for(;;) pause();
}
