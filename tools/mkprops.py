#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A mutex admits one owner and publishes its writes",
 "At every moment at most one thread is between a completed lock (Mutex::lock, a Lock guard, or a try_lock that returned true) and the matching unlock, and everything written before an unlock is seen by the next owner. try_lock never waits, returns false without side effects when the mutex is held, and every blocked locker acquires the mutex once the owners ahead of it release it; a Lock guard releases the mutex it holds exactly once, when it is destroyed or assigned over, and one that has been moved from releases nothing.",
 ["schedules", "programs"], "every interleaving of lock, try_lock, guard moves and unlock calls by any number of threads, including preemption inside critical sections",
 "test/thread.cpp locks one mutex on one thread, with no contention at all.",
 ["rpp/thread0.h", "rpp/pos/thread_pos.cpp", "rpp/ref0.h"],
 [("Mutex over pthread_mutex, every return code checked", "rpp/pos/thread_pos.cpp"), ("Lock guard holding a movable Ref", "rpp/thread0.h")])

prop("C02", "Condition variables lose no wakeups",
 "A thread that calls Cond::wait holding the mutex gives the mutex up and goes to sleep as one atomic step, and holds it again when wait returns. A signal issued after a thread has started waiting wakes at least one waiter and a broadcast wakes all of them, so a consumer loop that re-checks its predicate always makes progress and no item handed over under the mutex is lost or seen twice.",
 ["schedules", "programs"], "every interleaving of waiters, signallers and broadcasters, with spurious wakeups",
 "No test uses Cond directly; the pool tests only pass through the schedules the host happens to produce.",
 ["rpp/thread0.h", "rpp/pos/thread_pos.cpp"],
 [("Cond over pthread_cond with the caller's mutex", "rpp/pos/thread_pos.cpp")])

prop("C03", "A flag is a sticky one-shot: signal releases every waiter",
 "Flag::block returns only after Flag::signal has been called on that flag and returns in every thread that called it before or after, however the signal interleaves with going to sleep and however often the operating system wakes a sleeper early, interrupts it, or declines to put it to sleep because the flag has just changed. Once set a flag stays set, ready() reports exactly that without waiting, and everything written before signal is visible after block or a true ready().",
 ["schedules", "fault_sequences"], "every interleaving of blockers, pollers and (possibly repeated) signallers; every sequence of spurious wakeups, EINTR and EAGAIN from the futex call",
 "Tests use flags only through futures with one waiter, and never meet an interrupted or spurious futex wait.",
 ["rpp/thread0.h", "rpp/pos/thread_pos.cpp"],
 [("atomic word plus futex wait/wake, re-checked in a loop", "rpp/pos/thread_pos.cpp")],
 state=[("value_", "0 unsignalled, 1 signalled", "rpp/thread0.h Flag")])

prop("C04", "Atomic counters are linearizable",
 "Concurrent load, incr, decr, exchange and compare_and_swap calls on one Atomic behave as if each took effect at a single instant between call and return: incr and decr return the new value, exchange and compare_and_swap return the previous one, and compare_and_swap stores exactly when that previous value equals the expected one. Writes made before an atomic update are visible to a thread that observes that update.",
 ["schedules", "histories"], "every history of concurrent operations by any number of threads, over the whole range of 64-bit values",
 "No test calls Atomic from more than one thread or checks the returned values.",
 ["rpp/thread0.h", "rpp/pos/thread_pos.cpp"],
 [("sequentially consistent compiler atomics", "rpp/pos/thread_pos.cpp")])

prop("C05", "A started thread runs its function once; join waits for it",
 "Constructing a Thread from a callable runs that callable exactly once, on another thread, and then destroys and frees the stored callable exactly once. join, the destructor and move-assignment over a running thread return only after the callable has finished and its writes are visible; detach never waits, and a detached or moved-from Thread object releases nothing twice and leaves no thread unjoined. id() of the holder is what this_id() is inside the callable.",
 ["schedules", "programs", "fault_sequences"], "every interleaving of creation, completion, join, detach, move construction and move assignment, with start delays of any length",
 "Tests create and drop a few threads without checking what join guarantees, and never move-assign over or detach a running thread.",
 ["rpp/thread.h", "rpp/pos/thread_pos.cpp"],
 [("heap-allocated closure handed to the new thread", "rpp/thread.h"), ("join in destructor and move assignment", "rpp/thread.h")])

prop("C06", "A future delivers its result exactly once, complete",
 "For every spawned call and every Promise, block() returns exactly when the producing call has finished and yields the value it produced, fully constructed and unmodified, with its side effects visible; ready() is true only from that moment on. The callable and its arguments are moved in once and destroyed once, the shared state lives until both producer and last holder have let go of it, dropping the future early neither cancels nor corrupts the call, and nothing is leaked or freed twice.",
 ["schedules", "inputs", "programs"], "every interleaving of producer, blockers, pollers and droppers; value and void results; every allocator the future can be given",
 "Tests spawn trivial functions and block straight away; the schedules in which the future dies first, or the waiter runs between fill and wake, are not exercised on purpose.",
 ["rpp/thread.h", "rpp/rc.h"],
 [("Promise = value + Flag, shared through Arc", "rpp/thread.h"), ("spawn closure keeps its own Arc", "rpp/thread.h")])

prop("C07", "A shared object lives until its last reference drops, then dies once",
 "An object owned by Arc stays alive and at the same address while any reference (from make, dup, from_this or a move) exists, and its destructor runs and its memory is released exactly once, by the thread dropping the last reference, after every other holder's accesses. references() equals the number of live references whenever no other thread is changing it, and moved-from or cleared references own nothing. Assigning to a reference works wherever the assigned one lives, also inside the very object that dies.",
 ["schedules", "programs"], "every interleaving of dup, from_this, move, clear, assignment over a live reference and destruction on any number of threads",
 "test/pointers.cpp uses Arc from one thread only.",
 ["rpp/rc.h", "rpp/alloc1.h"],
 [("atomic reference count; destroy when decr reaches zero", "rpp/rc.h")])

prop("C08", "A coroutine task delivers its result once and its frame dies once",
 "Whether a Task is blocked on, awaited by another coroutine, chained with then, polled with done, moved, or dropped unfinished, the coroutine body runs to completion exactly once, the consumer continues exactly once and only after the body returned, with the returned value and the body's side effects visible; a task that was blocked on or awaited is done. Dropping a Task that a coroutine is waiting for stops the program. The coroutine frame and everything in it are destroyed exactly once, after both the body has finished and the Task is gone, on whichever thread comes last.",
 ["schedules", "programs"], "every interleaving of the resuming thread reaching its end with the consumer awaiting, blocking, polling, moving or abandoning; chains and trees of tasks of any shape",
 "test/coro.cpp resumes coroutines on one thread; test/pool.cpp meets only the interleavings that occur by chance.",
 ["rpp/async.h"],
 [("atomic state word START / continuation / DONE / ABANDONED exchanged at both ends", "rpp/async.h"), ("Flag signalled on return", "rpp/async.h")],
 state=[("state", "who reaches the end first: coroutine, continuation or owner", "rpp/async.h Promise_Base")])

prop("C09", "The pool resumes every scheduled coroutine exactly once on a worker",
 "A coroutine that awaits pool.suspend() is resumed exactly once, by one of the pool's worker threads, after it has suspended, without waiting for anything but jobs that its worker is already running or has queued; no job is lost, resumed twice, or left queued while every worker sleeps. Each worker is bound to a hardware thread of its own. Whole trees of tasks running on the pool therefore finish with the right result, on machines with any number of hardware threads, from one to more than an affinity mask can name.",
 ["schedules", "configurations", "programs"], "every interleaving of enqueuers and workers with spurious wakeups; 1 to 130 hardware threads; task trees of any shape submitted from outside and inside the pool",
 "test/pool.cpp runs a few trees on the host's own core count and scheduler and can only notice a hang or a wrong sum that happens in that one schedule.",
 ["rpp/pool.h", "rpp/async.h"],
 [("per-worker queue, mutex and condition variable", "rpp/pool.h"), ("shutdown and emptiness re-checked under the mutex", "rpp/pool.h")])

prop("C10", "Destroying a pool at any moment terminates cleanly",
 "The pool's destructor may run while jobs are running, queued, or waiting on events: it always returns, after the coroutines being run have reached their next suspension or end, even if they would go on for ever, and no coroutine is resumed on that pool afterwards. Each coroutine still queued is destroyed exactly once, each worker and the event thread is joined, every descriptor the pool owns is closed, and no memory is touched after it was freed.",
 ["schedules", "crash_points"], "every point at which destruction can begin relative to enqueues, event completions, running jobs and sleeping workers",
 "The tests destroy pools at a handful of scripted moments, mostly idle ones, under one schedule each.",
 ["rpp/pool.h", "rpp/async.h", "rpp/pos/async_pos.cpp"],
 [("shutdown flag, per-worker signal under lock, event[0] wakeup", "rpp/pool.h ~Pool"), ("queued frames destroyed after the joins", "rpp/pool.h ~Pool")])

prop("C11", "A coroutine waiting on an event resumes once, after that event",
 "A coroutine that awaits pool.event(e) is resumed exactly once, on a worker, and only after e itself was signalled, whether that happened before or after it began waiting, and however many other coroutines wait on other events. No signalled waiter is forgotten, no unsignalled waiter is resumed, and each event is released exactly once, after it fired.",
 ["schedules", "fault_sequences", "programs"], "every interleaving of waits beginning, events being signalled in any order or all at once, the event thread and the workers; interrupted system calls",
 "The only test waits on a single timer at a time.",
 ["rpp/pool.h", "rpp/pos/async_pos.cpp"],
 [("event list and job list kept index-aligned", "rpp/pool.h do_events"), ("event 0 interrupts the wait when the list changes", "rpp/pool.h enqueue_event")])

prop("C12", "An asynchronous wait lasts at least, and about, the time asked for",
 "co_await Async::wait(pool, ms) resumes its coroutine exactly once, no earlier than ms milliseconds after the call on the monotonic clock and promptly once that much time has passed, for every duration including zero and for any number of concurrent waits. Steps of the wall clock, stalled threads and interrupted system calls neither shorten a wait nor lose one.",
 ["schedules", "fault_sequences", "inputs"], "every duration, every number of concurrent timers, every schedule, wall-clock jumps, thread stalls and EINTR",
 "One test waits 100 ms once in real time and checks nothing about when it resumed.",
 ["rpp/pos/asyncio_pos.cpp", "rpp/pool.h", "rpp/pos/async_pos.cpp"],
 [("timerfd on the monotonic clock awaited through the pool", "rpp/pos/asyncio_pos.cpp")])

prop("C13", "Events stay signalled until reset; wait_any returns a signalled one",
 "Event::wait_any returns the index of an event in its list that is signalled, as soon as at least one is, and otherwise keeps waiting; a signal sent before the wait began, repeatedly, or while the waiter is being interrupted is never lost and never wakes a waiter of a different event. An event stays signalled, for all its waiters, until reset() is called on it; reset() of an event that is not signalled changes nothing and does not wait. A moved event keeps its state while the moved-from one owns nothing.",
 ["schedules", "fault_sequences"], "every interleaving of signallers, resets, moves and waiters over any set of events, with interrupted and delayed system calls",
 "No test uses events directly.",
 ["rpp/async.h", "rpp/pos/async_pos.cpp"],
 [("eventfd per event, level-triggered epoll per wait", "rpp/pos/async_pos.cpp")])

prop("C14", "Thread::sleep never returns early; the perf counter never goes back",
 "Thread::sleep(ms) returns after at least ms milliseconds of monotonic time for every ms, even when signals interrupt the sleeping thread or the wall clock is stepped, promptly once that much time has passed, and lets other threads run meanwhile. perf_counter divided by perf_frequency is elapsed monotonic time: differences between two readings equal the time that passed, on any thread and across wall-clock jumps.",
 ["inputs", "fault_sequences", "schedules"], "every duration up to hours and days, every placement of EINTR and clock steps",
 "Tests sleep 1 to 100 ms in real time, never check how long, and never deliver a signal.",
 ["rpp/thread0.h", "rpp/pos/thread_pos.cpp", "rpp/impl/profile.cpp"],
 [("usleep and CLOCK_MONOTONIC", "rpp/pos/thread_pos.cpp")])

prop("C15", "Reading a file returns its whole contents or nothing",
 "Files::read and Async::read return exactly the bytes of an unchanging file, for every size and however the operating system splits the transfer into short or interrupted reads; interruptions and short transfers are not failures. A file that cannot be opened, sized or read, or that is not a regular file, gives no value rather than partial, padded or garbage data, and does not stop the process. A file that changes its size while it is read never yields bytes it did not hold. No descriptor stays open, whatever happened.",
 ["inputs", "fault_sequences"], "every file size and content, short reads, EINTR, EIO at any offset, EMFILE, missing files, directories and pipes",
 "Tests read one small file from a healthy local disk, which never returns a short read or an error.",
 ["rpp/files.h", "rpp/pos/files_pos.cpp", "rpp/pos/asyncio_pos.cpp"],
 [("size by lseek, then read", "rpp/pos/files_pos.cpp")])

prop("C16", "A write that reports success stored exactly the given bytes",
 "When Files::write or Async::write returns true, the file at that path exists and contains exactly the bytes given, whatever it contained before and however the operating system split or interrupted the transfer, and the program can read it back; when nothing fails, it returns true, interruptions and short transfers not being failures. Any error (cannot create, disk full, I/O error, error on close) is reported as false, never as success and never as a crash.",
 ["inputs", "fault_sequences"], "every size and content, existing longer or shorter files, short writes, EINTR, ENOSPC, EIO and EMFILE at any point",
 "No passing test writes a file at all; writing happens only when a test has already failed.",
 ["rpp/files.h", "rpp/pos/files_pos.cpp", "rpp/pos/asyncio_pos.cpp"],
 [("open, write, close", "rpp/pos/files_pos.cpp")])

prop("C17", "A write watcher reports each modification exactly once",
 "After a Write_Watcher is created, poll() returns true on the first poll after the file was modified (its modification time moved forward, by however little, or the file came into existence) and false on polls with no modification in between. Failures to stat the file at a poll produce false and lose no later or pending report; a file that does not exist or cannot be examined at creation counts as not existing then. The watcher never reports a change that did not happen.",
 ["histories", "fault_sequences"], "every sequence of modifications, removals, re-creations, polls and failed stats, at any spacing in time down to nanoseconds",
 "No test uses Write_Watcher.",
 ["rpp/files.h", "rpp/pos/files_pos.cpp"],
 [("modification time compared with the last one seen", "rpp/files.h")])

prop("C18", "UDP reception yields only whole packets that were sent, with their sender",
 "Every packet Udp::recv returns has the contents, length and source address of one packet some peer sent to the bound address, no matter how the network drops, duplicates, delays or reorders (one too long for the Packet still reports its real length, so it is never taken for a whole one); when nothing is waiting, or the receive call fails for any reason, it returns no value without waiting. Packets that the network does deliver are returned, send reports the number of bytes sent, and receive errors provoked by unreachable peers, and interruptions of either call, do not stop the process or invent data. An Address made from a text denotes exactly that text's address, also when the text is part of a longer one; a text that is none stops the program.",
 ["fault_sequences", "schedules", "inputs"], "every packet length, also beyond the packet buffer's 1472 bytes, any number of peers, drops, duplicates, delays, reordering, queue overflow, EINTR and ECONNREFUSED",
 "One test sends one packet to itself over loopback.",
 ["rpp/net.h", "rpp/pos/net_pos.cpp"],
 [("non-blocking recvfrom, sendto", "rpp/pos/net_pos.cpp")])

prop("C19", "Every descriptor is closed exactly once on every path",
 "Every file descriptor the library opens (files, sockets, events, epoll sets, timers) is closed exactly once, no later than when the operation returns or its owning object is destroyed or assigned over, on success and on every error path alike. It never closes or uses a descriptor number it does not currently own, even when numbers are reused by other threads.",
 ["fault_sequences", "schedules", "programs"], "every error at every system call, moves and move-assignments of owning objects, concurrent use that reuses descriptor numbers immediately",
 "Leaked or doubly closed descriptors are invisible to the tests, which never meet an I/O error.",
 ["rpp/pos/files_pos.cpp", "rpp/pos/asyncio_pos.cpp", "rpp/pos/async_pos.cpp", "rpp/pos/net_pos.cpp", "rpp/pool.h"],
 [("destructors and moves of Event and Udp", "rpp/pos/async_pos.cpp"), ("explicit close in file operations", "rpp/pos/files_pos.cpp")])

prop("C20", "Region memory stays valid, disjoint and private to its thread",
 "Memory allocated in a region is writable, aligned for any type, overlaps no other live allocation, and keeps its contents until that region's scope ends on the same thread, whatever nesting, sizes or other threads' regions happen in between. Ending a scope returns exactly what it allocated: depth and size go back to their values at entry, enclosing regions' memory is untouched, nothing is leaked, and allocating from a region that is not the innermost one, or nesting more scopes than there is room for, stops the process.",
 ["programs", "schedules", "inputs"], "every sequence of nested scopes and allocation sizes from zero to many chunks, on any number of threads, coroutines and log calls interleaving",
 "test/allocator.cpp makes a few allocations on one thread and never looks at contents or overlap.",
 ["rpp/alloc0.h", "rpp/impl/alloc.cpp"],
 [("thread-local chunk stack with per-depth offsets and brands", "rpp/impl/alloc.cpp")])

prop("C21", "A pool allocator never hands out a live block",
 "Mpool::make returns storage for the object that is suitably aligned and overlaps no other object currently allocated, on any thread, and destroy runs the destructor once and makes the block available for reuse with the previous owner's accesses ordered before the next owner's; constructors and destructors may make and destroy further objects meanwhile. Every block obtained from the system is returned by shutdown finalization, once; a program that exits without it ends normally. The free list underneath keeps each block in one list or one object only, whichever way lists are moved and cleared, and returns its blocks when it goes.",
 ["schedules", "programs"], "every interleaving of make and destroy by any number of threads, objects freed on other threads than they were made on, several size classes",
 "Tests use Mpool from one thread.",
 ["rpp/alloc1.h", "rpp/alloc0.h"],
 [("mutex-protected free list per size", "rpp/alloc1.h Pool"), ("finalizer clearing the list", "rpp/alloc1.h Pool::Finalizer")])

prop("C22", "Range allocations are aligned, in bounds and disjoint under concurrency",
 "Ranges handed out by one Range_Allocator to any threads are at least as long as requested, aligned, inside the heap and mutually disjoint while allocated; freed space is coalesced, so once everything is freed the whole heap is again one block that can be allocated, and statistics are those of one moment, and agree with the live ranges at every quiet one. An allocation fails only when no sufficiently large free block is available, and moving an allocator carries its live ranges and statistics to a usable new owner, leaving the source empty.",
 ["schedules", "programs", "inputs"], "every interleaving and sequence of allocate, free and move with any sizes and alignments",
 "test/range_allocator.cpp checks only alignment, on one thread, with an 8 GB heap that never fills up.",
 ["rpp/range_allocator.h"],
 [("doubly linked block list with free flags, size-class buckets, one mutex", "rpp/range_allocator.h")])

prop("C23", "Allocation accounting is exact and the leak report tells the truth",
 "At every quiet moment the net allocation count equals the number of live system allocations, whatever threads made or freed them, and no allocator warns about a free or allocation that was in fact balanced. Shutdown finalization reports, per named allocator, exactly the allocations, frees, sizes and high-water mark that happened, and reports a leak and exits with failure exactly when memory is still allocated, says how many regions are still open and what they hold, and runs each registered finalizer exactly once before it judges, also those a finalizer registers. Objects destroyed late, at thread or process exit, free and allocate like any others.",
 ["schedules", "histories"], "every interleaving of allocations and frees on any number of threads, cross-thread frees, address reuse by the system allocator, inside and outside frames",
 "Tests never inspect the accounting and always balance on one or two threads.",
 ["rpp/impl/alloc.cpp", "rpp/impl/profile.cpp", "rpp/alloc1.h", "rpp/profile.h"],
 [("atomic net counter", "rpp/impl/alloc.cpp"), ("profile recorded before free and after malloc", "rpp/alloc1.h"), ("live set per allocator under a lock", "rpp/impl/profile.cpp")])

prop("C24", "Each log message reaches every sink once, whole and in one order",
 "Every message logged by any thread appears exactly once, complete and not interleaved with others, on standard output, in the log file and at every callback subscribed at that time, by the time the logging call returns, in the same order everywhere and in program order per thread, with its own level, thread, local time, location and text, indented by the Log_Indent scopes its own thread has open. A message logged by a callback itself reaches standard output and the file but no callback. After subscribe returns the callback misses nothing and after unsubscribe returns it is never called again; failure of the log file or of standard output neither loses messages at the other sinks nor stops the program. All of this also holds for messages and subscriptions of static objects, made while they are constructed or destroyed.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of loggers, subscribers and unsubscribers; failing log file or console; clock steps",
 "Tests subscribe one callback for a whole process and compare text logged by mostly one thread.",
 ["rpp/impl/log.cpp", "rpp/log.h", "rpp/log_callback.h"],
 [("one lock around console, callbacks and file", "rpp/impl/log.cpp output"), ("per-thread region for formatting", "rpp/log.h log")])

prop("C25", "Profiled times add up",
 "For a completed frame, each profiled scope's node carries exactly the number of times it was entered, its inclusive time equals the total monotonic time spent inside it, and its exclusive time equals inclusive time minus that of its direct children; the tree has one node per distinct path of nested scopes. begin_frame returns the seconds since the previous frame began, and wall-clock steps, recursion, repeats and other threads' activity do not distort any of this. Framing for ever takes a bounded amount of memory.",
 ["histories", "schedules"], "every sequence of nested, repeated and recursive scopes across frames on any thread, with arbitrary time spent in each and wall-clock jumps",
 "Tests open a few trace scopes and never read the timings back; real time cannot be predicted exactly.",
 ["rpp/profile.h", "rpp/impl/profile.cpp"],
 [("per-frame tree of timing nodes with begin/end stamps", "rpp/impl/profile.cpp")])

prop("C26", "Profiler data can be read while other threads run, frame and exit",
 "iterate_timings may run at any time while other threads begin and end frames, trace, allocate, start and exit, and its callback may itself trace, allocate and log: it visits each registered thread's latest completed frame consistently, never a half-updated, freed or foreign one, and never deadlocks with them. A thread that exits, in or out of a frame, is removed without error and its identifier can be reused by a later thread.",
 ["schedules", "crash_points"], "every interleaving of readers with framing threads, with threads exiting at any point including inside a frame",
 "No test calls iterate_timings.",
 ["rpp/profile.h", "rpp/impl/profile.cpp"],
 [("threads lock then per-thread frames lock", "rpp/profile.h iterate_timings"), ("thread-exit finalizer unregisters", "rpp/profile.h Thread_Profile")])

prop("C27", "Exhausted resources stop the program loudly, never corrupt it",
 "When the system refuses memory, threads, locks, descriptors, timers or sockets to an operation that has no way to report failure, the process logs a fatal message naming the failure and exits with a failure status at that operation; it never continues with a null, partial or wrong resource, hangs, or crashes silently. Operations that can report failure return it instead, and work again once the resource is available.",
 ["fault_sequences", "schedules"], "a refusal of any single call, at any occurrence, on any thread",
 "The tests never run out of anything.",
 ["rpp/impl/alloc.cpp", "rpp/pos/thread_pos.cpp", "rpp/pos/async_pos.cpp", "rpp/pos/asyncio_pos.cpp", "rpp/pos/net_pos.cpp", "rpp/log.h"],
 [("assert / die on every failing system call", "rpp/log.h")])

prop("C28", "Containers behave like their mathematical models",
 "Vec, Array, Slice, Queue, Stack, Heap, Map and String hold exactly the elements inserted and not removed, in the documented order, with every element constructed and destroyed exactly once across growth, moves, clones and erasure.",
 ["programs", "inputs"], "every sequence of operations on one container used by one thread",
 "Tests run a few fixed sequences.",
 ["rpp/vec.h", "rpp/queue.h", "rpp/map.h", "rpp/heap.h", "rpp/stack.h", "rpp/array.h", "rpp/string0.h"],
 [("element lifetime management in each container", "rpp/vec.h")])

prop("C29", "Formatting and reflection describe every value correctly",
 "format writes, for every reflectable value, exactly the text its measured length promised, substituting arguments in order.",
 ["inputs"], "every format string and every reflectable type and value",
 "Tests compare a fixed list of values.",
 ["rpp/format.h", "rpp/format1.h", "rpp/reflect.h"],
 [("measure then write", "rpp/format.h")])

prop("C30", "Vector math and SIMD agree with scalar mathematics",
 "Every vector, matrix, quaternion, box and SIMD operation equals its component-wise mathematical definition to within floating-point rounding, on every supported instruction set.",
 ["inputs"], "every finite input",
 "Tests check a few values.",
 ["rpp/vmath.h", "rpp/impl/vmath.cpp", "rpp/simd.h", "rpp/impl/simd.cpp", "rpp/math.h", "rpp/impl/math.cpp"],
 [("per-architecture implementations", "rpp/impl/simd.cpp")])

prop("C31", "Single-threaded ownership types construct and destroy exactly once",
 "Box, Rc, Opt, Variant, Tuple, Pair, Storage and Function construct, move and destroy the values they hold exactly once and never expose a value that is not there.",
 ["programs", "inputs"], "every sequence of operations by one thread",
 "Tests run fixed sequences.",
 ["rpp/box.h", "rpp/rc.h", "rpp/opt.h", "rpp/variant.h", "rpp/tuple.h", "rpp/function.h", "rpp/storage.h"],
 [("tag and storage management", "rpp/variant.h")])

prop("C32", "Windows and macOS back ends give the same guarantees",
 "Every guarantee above about threads, events, files and sockets holds equally for the Windows and macOS implementations.",
 ["schedules", "fault_sequences", "configurations"], "every schedule and fault sequence on those systems",
 "Tests here build and run on Linux only.",
 ["rpp/w32/thread_w32.cpp", "rpp/w32/async_w32.cpp", "rpp/w32/asyncio_w32.cpp", "rpp/w32/files_w32.cpp", "rpp/w32/net_w32.cpp", "rpp/pos/async_bsd.cpp", "rpp/pos/asyncio_bsd.cpp"],
 [("per-system source files behind common headers", "rpp/w32/unify.cpp")])

prop("C33", "Random streams are reproducible, in range, and differ between threads",
 "A Stream given a seed produces the same sequence each time, on any thread and at any time, and different seeds produce different ones; streams made or re-seeded without a seed by different live threads, or in different seconds of the system clock, produce different sequences. range(min, max) is at least min and less than max for every integer type and every min < max, unit() is at least 0 and less than 1, each value and region comes up, coin_flip(p) succeeds with probability p, and shuffle leaves a permutation of any list, also an empty one, each order of it coming up.",
 ["inputs", "schedules", "configurations"], "every seed, thread identity and clock value (with steps), every integer type and bounds, lists of any length",
 "Only one test draws numbers, from one seed, one type and one range.",
 ["rpp/rng.h", "rpp/hash.h", "rpp/impl/log.cpp", "rpp/pos/thread_pos.cpp"],
 [("hash chain over the state; seed from thread identity and clock", "rpp/rng.h")])

prop("C34", "Shared counters and objects can be described while others change them",
 "Formatting or logging a Thread::Atomic or an Arc (alone, with other arguments, or inside another value) while other threads change the counter, copy the reference or drop copies always completes: it never stops the program, reads or writes outside its text, or races with the other threads, and the text is whole, with nothing after it, and shows for each count a value it had at some moment of the call. When nobody changes them the text shows exactly the current counts.",
 ["schedules", "inputs"], "every interleaving of measuring and writing the text with changes of the counts by any number of threads, every value and number of digits",
 "test/format.cpp formats both on one thread, so a count never changes between being measured and being written.",
 ["rpp/format.h", "rpp/rc.h", "rpp/thread0.h", "rpp/log.h"],
 [("text measured first, then written", "rpp/format.h format"), ("counts written after other threads may have changed them", "rpp/rc.h Measure<Arc>, Write<Arc>")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
assert all(len(p["title"]) <= 80 for p in P), [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80]
print(len(P), "properties")
