// A write watcher reports each modification exactly once.
#include "filec.h"

static const char* const path = "/data/watched";
static String_View view() {
    return String_View{"/data/watched/out"}.sub(0, 13); // part of a longer text
}
struct Watch {
    Files::Write_Watcher w;
    i64 seen; // modification time it knows of, 0: none
};
// Ways a file changes.
static void modify() {
    switch(sim_work(7)) {
    case 0: {
        u8 b[3] = {1, 2, 3};
        if(!Files::write(view(), Slice<const u8>{b, 3})) sim_log("write failed");
    } break;
    case 1: sim_fs_touch(path); break;
    case 2:
        if(sim_fs_exists(path)) sim_fs_set_mtime(path, sim_fs_mtime(path) + 1 + static_cast<i64>(sim_work(2000)));
        else sim_fs_put(path, "x", 1, 0644);
        sim_probe("moved forward by less than 2 us");
        break;
    case 3:
        if(sim_fs_exists(path)) sim_fs_set_mtime(path, sim_fs_mtime(path) + 1000000 * static_cast<i64>(1 + sim_work(5000)));
        break;
    case 4: sim_fs_put(path, "hello", 5, 0644); break;
    case 5: // something else than a modification
        if(sim_chance(1, 2)) sim_fs_chmod(path, sim_chance(1, 2) ? 0644 : 0600);
        else sim_fs_accessed(path);
        sim_probe("read, or its rights changed");
        break;
    default:
        if(sim_fs_exists(path)) {
            sim_fs_set_mtime(path, sim_fs_mtime(path) - 1 - static_cast<i64>(sim_work(3000000000)));
            sim_probe("moved backwards");
        }
        break;
    }
}
static void let_time_pass() {
    switch(sim_work(4)) {
    case 0: break;
    case 1: sim_advance(1 + sim_work(1000)); break;
    case 2: sim_advance(sim_work(3000000)); break;
    default: sim_advance(sim_work(3000000000ull)); break;
    }
}
static Watch make(u64& failed) {
    u64 f = sim_fault_count(F_STAT_FAIL);
    Watch w{Files::Write_Watcher{view()}, 0};
    bool bad = sim_fault_count(F_STAT_FAIL) != f;
    if(bad) failed++;
    if(!bad && sim_fs_exists(path)) w.seen = sim_fs_mtime(path);
    SIM_CHECK(w.w.path() == view(), "path", "the watcher watches another path");
    return w;
}
static void poll(Watch& w) {
    u64 f = sim_fault_count(F_STAT_FAIL);
    bool exists = sim_fs_exists(path);
    i64 m = exists ? sim_fs_mtime(path) : 0;
    bool got = w.w.poll();
    bool bad = sim_fault_count(F_STAT_FAIL) != f;
    bool want = !bad && exists && m > w.seen;
    Sim_Atomic a;
    if(got && !want) sim_violation("false-report", "poll() reports a modification; %s", bad ? "the file could not be examined" : !exists ? "the file does not exist" : m == w.seen ? "nothing changed since it was last seen" : "its time went back");
    if(!got && want) sim_violation("missed", "poll() does not report a modification (time moved from %lld to %lld ns)", (long long)w.seen, (long long)m);
    if(got) sim_probe("reported");
    if(!bad && exists) w.seen = m;
}
static void sequential() {
    u64 failed = 0;
    if(sim_chance(2, 3)) sim_fs_put(path, "abc", 3, 0644);
    let_time_pass();
    Watch a = make(failed), b = make(failed);
    u64 n = 5 + sim_work(25);
    for(u64 i = 0; i < n; i++) {
        Watch& w = sim_chance(1, 2) ? a : b;
        switch(sim_work(9)) {
        case 0:
        case 1: modify(); break;
        case 2: let_time_pass(); break;
        case 3:
            sim_fs_remove(path); // (with a link: from now on it is a file of its own)
            sim_probe("removed");
            break;
        case 4:
            if(sim_chance(1, 3)) {
                sim_wall_jump(static_cast<i64>(sim_work(20)) * 1000000000 - 10000000000ll);
                sim_probe("wall clock stepped");
            }
            break;
        case 5:
            w = make(failed);
            break;
        default:
            poll(w);
            if(sim_chance(1, 3)) poll(w);
            break;
        }
    }
    // Whatever is still pending comes out now.
    sim_faults_off();
    poll(a);
    poll(b);
    poll(a);
    poll(b);
}
// A modification at any moment of a poll is reported by it or by the next.
static void concurrent() {
    sim_fs_put(path, "abc", 3, 0644);
    let_time_pass();
    Files::Write_Watcher w{view()};
    i64 lo = sim_fs_mtime(path), hi = lo;
    u64 reports = 0, mods = 0;
    {
        T_ t{[&mods, n = 1 + sim_work(5)]() {
            for(u64 i = 0; i < n; i++) {
                sim_fs_set_mtime(path, sim_fs_mtime(path) + 1 + static_cast<i64>(sim_work(1000000)));
                mods++;
                dawdle();
            }
        }};
        u64 n = 1 + sim_work(6);
        for(u64 i = 0; i < n; i++) {
            i64 m0 = sim_fs_mtime(path);
            bool got = w.poll();
            i64 m1 = sim_fs_mtime(path);
            if(got) reports++;
            SIM_CHECK(!got || m1 > lo, "false-report", "poll() reports a modification that did not happen");
            SIM_CHECK(got || m0 <= hi, "missed", "poll() does not report a modification");
            lo = m0;
            hi = m1;
            if(sim_chance(1, 2)) dawdle();
        }
    }
    i64 m = sim_fs_mtime(path);
    bool got = w.poll();
    if(got) reports++;
    SIM_CHECK(!got || m > lo, "false-report", "poll() reports a modification that did not happen");
    SIM_CHECK(got || m <= hi, "missed", "poll() does not report a modification");
    SIM_CHECK(!w.poll(), "false-report", "poll() reports a modification twice");
    SIM_CHECK(reports <= mods && (!mods || reports), "count", "%llu reports of %llu modifications", (ull)reports, (ull)mods);
    sim_probe("concurrent");
}
// Threads that poll watchers of their own, on files of their own.
static void apart() {
    static const char* const paths[] = {"/data/a", "/data/b", "/data/c"};
    u64 n = 2 + sim_work(2);
    for(u64 i = 0; i < n; i++) sim_fs_put(paths[i], "abc", 3, 0644);
    let_time_pass();
    Vec<T_, Mhidden> ts;
    for(u64 i = 0; i < n; i++)
        ts.push(T_{[i, ops = 2 + sim_work(8)]() {
            String_View v{reinterpret_cast<const u8*>(paths[i]), 7};
            Files::Write_Watcher w{v};
            i64 seen = sim_fs_mtime(paths[i]);
            for(u64 k = 0; k < ops; k++) {
                if(sim_chance(1, 2)) {
                    i64 d = static_cast<i64>(sim_work(1000000000)) - (sim_chance(1, 3) ? 500000000 : 0);
                    sim_fs_set_mtime(paths[i], sim_fs_mtime(paths[i]) + d);
                }
                i64 m = sim_fs_mtime(paths[i]);
                bool got = w.poll();
                SIM_CHECK(!got || m > seen, "false-report", "poll() reports a modification of file %llu that did not happen", (ull)i);
                SIM_CHECK(got || m <= seen, "missed", "poll() does not report a modification of file %llu", (ull)i);
                seen = m;
                auto t = Files::last_write_time(v);
                SIM_CHECK(t.ok(), "failed", "last_write_time of file %llu fails", (ull)i);
                if(sim_chance(1, 3)) {
                    u8 b[2] = {1, 2};
                    SIM_CHECK(Files::write(v, Slice<const u8>{b, 1 + sim_work(2)}), "failed", "writing file %llu fails", (ull)i);
                }
            }
        }});
    sim_probe("watchers on several threads");
}
void scenario() {
    static const u64 gran[] = {1, 1, 1000, 1000000, 4000000, 10000000, 1000000000, 2000000000};
    sim_fs_mkdir("/data");
    sim_fs_granularity(gran[sim_work(8)]);
    if(sim_chance(1, 6)) sim_fs_symlink("/data/target", path);
    if(sim_chance(1, 2)) sim_wall_jump(static_cast<i64>(sim_work(1000000000)));
    u64 shape = sim_work(6);
    if(shape == 5) apart();
    else if(shape == 4) concurrent();
    else {
        sim_fault(F_STAT_FAIL, sim_chance(1, 2) ? 10000 : 0);
        sequential();
    }
    Files::Write_Watcher none{""_v};
    SIM_CHECK(!none.poll(), "false-report", "a watcher of nothing reports a modification");
}
