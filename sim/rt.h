// Shared between the runtime (rt.cpp), the libc model (libc.cpp) and the runner (runner.cpp).
#pragma once
#include "sim.h"
#include <atomic>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <pthread.h>
#include <stdarg.h>
#include <string.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef int64_t i64;

enum { S_WORK, S_SCHED, S_MEM, S_FAULT, S_STREAMS };
extern const char* const stream_names[S_STREAMS];
extern const char* const fault_names[F_COUNT];

struct Choice {
    u64 idx, val;
};
constexpr u64 MAX_CHOICES = 1 << 16;
constexpr int MAX_PROBES = 96;
constexpr u64 TRACE_CAP = 1 << 20;

enum Status : u32 { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_INTERNAL };

// Lives in MAP_SHARED memory: survives the death of the run.
struct Shared {
    u32 status;
    u32 overflow;
    char cls[96];
    char msg[1024];
    char tags[256];
    char bt[4096];
    u64 steps, now_ns, hash, sig, mem_accesses, switches, preemptions, threads;
    u64 fault_fired[F_COUNT];
    u64 fault_opp[F_COUNT];
    char probe_name[MAX_PROBES][48];
    u64 probe_count[MAX_PROBES];
    u64 nprobes;
    u64 n[S_STREAMS];
    Choice c[S_STREAMS][MAX_CHOICES];
    u64 unmodelled;
    u64 patience; // how many times longer than others this run may take
    u64 trace_len;
    char trace[TRACE_CAP];
};

struct Run_Config {
    bool replay = false;
    bool trace = false;
    u64 seed = 0;
    const std::vector<Choice>* in[S_STREAMS] = {};
};

extern Shared* sh;
extern Run_Config rc;

// Runs the scenario in this process; never returns.
[[noreturn]] void rt_run_child();

// ---- internals shared with libc.cpp ----------------------------------------------------------

constexpr u64 SPARSE = 1 << 20; // sizes from which copying looks at what is there first
void* sparse_set(void* d, int c, u64 n);
void* sparse_copy(void* d, const void* s, u64 n);

enum Wait {
    W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_EPOLL, W_FD, W_QUIESCE, W_GATE, W_ONCE, W_SEM, W_RW, W_CONDDESTROY
};
enum Wake { WK_NONE, WK_NORMAL, WK_SPURIOUS, WK_EINTR, WK_TIMEOUT };

constexpr int MAXT = 192;
struct VC {
    u32 c[MAXT];
    void join(const VC& o, int n) {
        for(int i = 0; i < n; i++)
            if(o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct Thr {
    int id = 0;
    bool started = false, done = false, joined = false, detached = false, handle_free = false;
    bool blocked = false;
    bool polls = false; // waits for descriptors
    u32 go = 0;
    Wait wkind = W_NONE;
    u64 wobj = 0;
    u64 wseq = 0;
    u64 deadline = ~0ull; // ns, valid when blocked
    Wake can_wake = WK_NONE; // WK_SPURIOUS / WK_EINTR allowed while blocked
    Wake woke = WK_NONE;
    int nopreempt = 0;
    u64 prio = 0;
    u64 consecutive = 0;
    u64 blocks = 0;
    u64 handle = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    u8* stack = nullptr;
    VC vc, relF, acqP, endvc;
};

extern bool g_running;
extern Thr* g_thr[MAXT];
extern int g_nthr;
extern u64 g_step, g_now, g_wall_off;
extern __thread Thr* t_self;

u64 rnd_cfg(u64 n);
u64 choose(int stream, u64 n, u64 drawn_value_if_random, bool have_draw);
u64 work(u64 n);
bool fault(int kind);                  // fires?
u64 fault_val(int kind, u64 n);        // 0 = no fault, else 1..n-1
void fault_happened(int kind);
void sp(const char* op, u64 obj, u64 val = 0); // scheduling point
void ev(const char* op, u64 obj, u64 val = 0); // log event only
Wake block(Wait kind, u64 obj, u64 deadline = ~0ull, Wake may = WK_NONE);
void wake(Thr* t, Wake w = WK_NORMAL);
int waiters(Wait kind, u64 obj, Thr** out); // in arrival order
[[noreturn]] void violation(const char* cls, const char* fmt, ...);
[[noreturn]] void finish(Status st);
void trace(const char* fmt, ...);
void hb_release(u64 obj);
void hb_acquire(u64 obj);
void hb_clear(u64 obj);
void acc(const void* p, size_t n, bool w);
bool on_heap(const void* p);
void heapchk(const void* p, size_t n, bool w);
u64 sched_pick(u64 n);
void* rt_malloc(size_t n, size_t align = 16);
void rt_free(void* p);
void* rt_realloc(void* p, size_t n);
size_t rt_block_size(void* p);
bool next_timer(u64& when); // libc.cpp: earliest kernel timer that could wake somebody
void fire_kernel_timers();
void libc_reset();
void libc_stdin_closed(bool);
void libc_fd_first(int first);
void rt_exit(int how, int code); // process wants to end
void kernel_wake_check();        // after any fd state change
bool in_boot();
u64 mix64(u64 x);
