// Scenario-facing interface of the deterministic simulator.
// Everything here may be called from instrumented scenario code.
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

enum Sim_Fault {
    F_SPURIOUS,    // condition variable / futex wakes without a wake-up
    F_EINTR_FUTEX, // futex wait interrupted
    F_EINTR_EPOLL, // epoll_wait / poll interrupted
    F_EINTR_SLEEP, // sleep interrupted
    F_EINTR_IO,    // read/write/open/sendto/recvfrom interrupted before doing anything
    F_SHORT_READ,
    F_SHORT_WRITE,
    F_EIO_READ,
    F_EIO_WRITE,
    F_ENOSPC,
    F_OPEN_FAIL,   // EACCES / ENFILE / EMFILE / EIO on open
    F_CLOSE_FAIL,  // close reports EIO/ENOSPC (descriptor is released)
    F_STAT_FAIL,
    F_SEEK_FAIL,
    F_THREAD_FAIL, // pthread_create EAGAIN
    F_MALLOC_FAIL,
    F_EVENTFD_FAIL,
    F_EPOLL_FAIL, // epoll_create / epoll_ctl
    F_TIMERFD_FAIL,
    F_SOCKET_FAIL,
    F_BIND_FAIL,
    F_NET_DROP,
    F_NET_DUP,
    F_NET_DELAY,
    F_RECV_ERR, // ENOMEM/ECONNREFUSED/ENOBUFS on recvfrom
    F_SEND_ERR,
    F_STALL,     // the machine stands still for a while: time passes, nothing runs
    F_WALL_JUMP, // wall clock steps
    F_STDIO_FAIL,
    F_FOPEN_FAIL,
    F_WEAK_CAS,
    F_LATE_TIMER, // timers fire late
    F_RCVBUF,     // receive queue overflow
    F_AFFINITY_FAIL,
    F_LOCK_FAIL, // pthread_mutex_init / pthread_cond_init of an object on the heap: EAGAIN / ENOMEM
    F_FD_LIMIT, // no descriptor is left (sim_fd_limit)
    F_COUNT
};

// ---- choices -------------------------------------------------------------------------------
// Workload choice in [0,n); 0 is the simplest value. Recorded, replayed and minimised.
uint64_t sim_work(uint64_t n);
// true with probability num/den (false is simplest).
int sim_chance(uint64_t num, uint64_t den);
// Probability (out of 65536) of a fault kind at each opportunity.
void sim_fault(int kind, uint32_t p65536);
// The n-th (from 0) opportunity of this kind fails, counted from now. n<0: none.
void sim_fail_nth(int kind, int64_t n);
void sim_fail_from_nth(int kind, int64_t n); // that one and every later one
int sim_fault_on_thread(int kind, int tid); // it happened to that thread
uint64_t sim_fault_count_on(int kind, int tid); // times it happened to that thread
uint64_t sim_fault_count(int kind);        // times it fired so far
uint64_t sim_fault_opportunities(int kind); // opportunities so far
void sim_faults_off(void);                 // no further fault of any kind

// ---- run control ---------------------------------------------------------------------------
// Ends the run, reporting a violation of class `cls`.
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_pass(void) __attribute__((noreturn)); // ends the run, no violation
void sim_probe(const char* name);              // reach counter
void sim_tag(const char* name);                // marks the history shape (for known findings)
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Called instead of "unexpected exit is a violation": how = 0 for exit(code), else the signal number.
void sim_on_exit(void (*hook)(int how, int code));
void sim_patience(int times); // the run may take that many times longer than others
void sim_steps_limit(uint64_t soft, uint64_t hard);
// Runs registered static destructors (as exit() would) on the calling thread.
void sim_run_atexit(void);
// Called on the main thread when scenario() has returned and the thread_local objects are gone.
void sim_at_end(void (*f)(void));

// ---- scheduler -----------------------------------------------------------------------------
void sim_yield(void);
uint64_t sim_step(void);
uint64_t sim_now(void);  // simulated monotonic ns
uint64_t sim_wall(void); // simulated wall clock ns
uint64_t sim_stalled(void); // total ns injected by F_STALL, F_LATE_TIMER so far
int sim_tid(void);
int sim_tid_of(uint64_t handle); // of a pthread_t
int sim_thread_alive(int tid);
int sim_threads_alive(void);   // including the caller
int sim_threads_unjoined(void); // finished or not, neither joined nor detached, except T0
void sim_nopreempt(int delta); // +1 / -1: no scheduling inside
void sim_sleep(uint64_t ns);   // scenario's own sleep (never interrupted)
// Blocks until every other thread is finished or blocked for ever and no timer is pending.
void sim_quiesce(void);
// Blocks until word changes from val (scenario's own gate, invisible to rpp), no HB edge.
void sim_gate_wait(volatile uint32_t* word);
void sim_gate_open(volatile uint32_t* word);
uint64_t sim_blocks(int tid); // times it blocked so far
int sim_blocked(int tid); // 1 if blocked (not runnable)
int sim_polls(int tid); // 1 if it ever waited in epoll_wait, poll or select
uint64_t sim_ctx_switches(void);

void sim_set_cpus(int n);
int sim_cpus(void);
int sim_pinned(int tid); // the one core it is bound to, or -1
void sim_wall_jump(int64_t ns);
void sim_time_zone(int64_t seconds_east);
void sim_advance(uint64_t ns); // time passes (busy thread)

// ---- memory --------------------------------------------------------------------------------
// Race detection on [p,p+n): conflicting accesses must be ordered by synchronisation.
void sim_watch(const void* p, size_t n, const char* name);
void sim_unwatch(const void* p);
// The same for every heap block, by whoever uses it, outside oracle sections; from now on.
void sim_watch_heap(const char* name);
int sim_heap_live_at(const void* p); // 1 if p is inside a live heap block
size_t sim_heap_block_size(const void* p);
uint64_t sim_heap_live(void);        // live blocks
uint64_t sim_heap_live_bytes(void);
uint64_t sim_heap_allocs(void);
uint64_t sim_heap_mark(void);                   // serial number of next block
uint64_t sim_heap_live_since(uint64_t mark);    // live blocks allocated since mark
void sim_heap_dump_since(uint64_t mark);        // into the trace
void sim_heap_reuse(int on);
void sim_touch(const void* p, size_t n, int write); // explicit access check

// ---- descriptors, files --------------------------------------------------------------------
int sim_fds_open(void);           // number of open descriptors
int sim_fds_opened_by(int tid);   // of those, opened by that thread
uint64_t sim_fds_bad(void);       // operations on descriptors that were not open
int sim_user_fd(void);            // opens a descriptor owned by the scenario; any library use is a violation
void sim_user_fd_close(int fd);
void sim_fd_limit(int n);
// An eventfd whose descriptor is given to the library (Event::of_sys); the handle lets the program
// signal it even after the library closed its descriptor.
void* sim_user_event_open(int* fd);
void* sim_user_event_open_out(int* fd);
void sim_user_event_clear(void* h);
void sim_user_event_set(void* handle);
int sim_user_event_descriptors(void* handle); // the library's descriptors on it: 1 until it closes it
int sim_fd_is_open(int fd);
void sim_fs_put(const char* path, const void* data, size_t n, unsigned mode);
void sim_fs_replace(const char* path, const void* data, size_t n, unsigned mode); // a new file takes the place of the old
void sim_fs_mkdir(const char* path);
void sim_fs_fifo(const char* path);
void sim_fs_remove(const char* path);
int sim_fs_exists(const char* path);
int64_t sim_fs_size(const char* path);
size_t sim_fs_get(const char* path, void* out, size_t cap);
unsigned sim_fs_mode(const char* path);
void sim_fs_capacity(int64_t bytes); // free bytes left on the disk, <0 unlimited
void sim_fs_touch(const char* path); // mtime = now
void sim_fs_set_mtime(const char* path, int64_t ns);
int64_t sim_fs_mtime(const char* path);
void sim_fs_chmod(const char* path, unsigned mode); // its rights change, not its contents
void sim_fs_accessed(const char* path);             // somebody read it
void sim_fs_symlink(const char* target, const char* path);
void sim_fs_granularity(uint64_t ns); // timestamp granularity of the simulated disk
void sim_fs_lseek_dir(int mode);

// ---- stdio ---------------------------------------------------------------------------------
size_t sim_stdout_size(void); // flushed bytes
const char* sim_stdout_data(void);
size_t sim_stdout_pending(void); // bytes not flushed yet
size_t sim_logfile_size(void);   // flushed bytes of ./debug.log
const char* sim_logfile_data(void);
size_t sim_logfile_pending(void);
int sim_logfile_closed(void);    // -1: it was never opened
void sim_stdio_fail_mask(uint32_t m); // F_STDIO_FAIL concerns 2: stdout, 8: files

// ---- network -------------------------------------------------------------------------------
void sim_net_limits(uint64_t max_delay_ns, int rcvbuf_packets);
uint64_t sim_net_in_flight(void);
uint64_t sim_net_queued(uint16_t port);
uint64_t sim_net_delivered(uint16_t port);
void sim_net_inject(uint32_t ip, uint16_t sport, uint16_t dport, const void* data, size_t n);

// ---- misc ----------------------------------------------------------------------------------
uint64_t sim_hash(const void* p, size_t n);

#ifdef __cplusplus
}
struct Sim_Atomic {
    Sim_Atomic() { sim_nopreempt(1); }
    ~Sim_Atomic() { sim_nopreempt(-1); }
};
// A check that fails the run.
#define SIM_CHECK(cond, cls, ...)                                                                  \
    do {                                                                                           \
        if(!(cond)) sim_violation(cls, __VA_ARGS__);                                               \
    } while(0)
void scenario(void);
extern "C" const char* scenario_name;
#endif
