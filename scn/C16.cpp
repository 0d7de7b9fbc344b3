// A write that reports success stored exactly the given bytes; everything else is reported as false.
#include "filec.h"

struct File {
    char path[PATH];
    int kind; // 0 new, 1 existing, 2 directory, 3 parent missing, 4 may not be written
    u64 version, old_n;
    bool written, unknown; // content is `version`; content not known (failed write)
    u64 n;
};
static File files[6];
static u64 n_files, versions = 100;
static Pool_* pp;

static void verify(File& f, const char* how) {
    Sim_Atomic a;
    SIM_CHECK(sim_fs_exists(f.path), "not-stored", "%s reported success but the file does not exist", how);
    i64 n = sim_fs_size(f.path);
    u8* got = static_cast<u8*>(Mhidden::alloc(static_cast<u64>(n) + 1));
    sim_fs_get(f.path, got, static_cast<u64>(n));
    expect_bytes(got, static_cast<u64>(n), f.n, f.version, "wrong-contents", how);
    Mhidden::free(got);
    SIM_CHECK((sim_fs_mode(f.path) & 0600) == 0600, "not-usable", "%s left a file with mode %o, which its owner cannot read and write", how, sim_fs_mode(f.path));
}
static bool may_fail(const File& f, u64 mark, bool tight) {
    return f.kind >= 2 || hard_fault_since(mark) || tight;
}
static bool tight_disk;
// A close of this thread's file that the system reported as failed.
static u64 failed_closes() {
    return sim_fault_count_on(F_CLOSE_FAIL, sim_tid());
}
static void wrote(File& f, bool ok, u64 n, u64 version, u64 mark, bool close_failed, const char* how) {
    if(ok) {
        SIM_CHECK(!close_failed, "close-ignored", "%s reported success although closing the file failed", how);
        SIM_CHECK(f.kind < 2, "success-from-nothing", "%s to a %s reported success", how, f.kind == 2 ? "directory" : f.kind == 3 ? "missing directory" : "file that may not be written");
        f.n = n;
        f.version = version;
        f.written = true;
        f.unknown = false;
        verify(f, how);
    } else {
        Sim_Atomic a;
        SIM_CHECK(may_fail(f, mark, tight_disk), "spurious-failure", "%s failed although nothing stood in its way", how);
        f.unknown = true;
        sim_probe("failed write");
    }
}
static void read_back(File& f) {
    if(!f.written || f.unknown) return;
    u64 mark = hard_faults();
    Spelled name{f.path};
    auto r = Files::read(name);
    if(!r.ok()) {
        SIM_CHECK(hard_fault_since(mark), "not-readable", "the file just written cannot be read back");
        return;
    }
    expect_bytes(r->data(), r->length(), f.n, f.version, "wrong-contents", "reading back");
    sim_probe("read back");
}
static u64 new_version() {
    Sim_Atomic a;
    return ++versions;
}
static Async::Task<void> via_pool(u64 id, File* f, u64 n, bool hop) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    if(hop) co_await pool.suspend();
    u64 v = new_version();
    Content c{n, v};
    u64 mark = hard_faults();
    Spelled name{f->path};
    int me = sim_tid();
    u64 closes = failed_closes();
    bool ok = co_await Async::write(pool, name, Slice<u8>{c.data, c.n});
    bool same = sim_tid() == me; // it did not move to another thread
    wrote(*f, ok, n, v, mark, same && failed_closes() != closes, "Async::write");
    body_end(id);
}
static void writer(u64 first, u64 count, u64 n) {
    for(u64 k = 0; k < n; k++) {
        File& f = files[first + sim_work(count)];
        u64 v = new_version(), size = file_size();
        Content c{size, v};
        Spelled name{f.path};
        u64 mark = hard_faults(), closes = failed_closes();
        bool ok = Files::write(name, Slice<const u8>{c.data, c.n});
        wrote(f, ok, size, v, mark, failed_closes() != closes, "write");
        if(sim_chance(1, 2)) read_back(f);
    }
}
// Gigabytes, most of them zero.
static void huge() {
    sim_steps_limit(8000000, 16000000);
    sim_patience(20);
    sim_fault(F_SHORT_WRITE, sim_chance(1, 2) ? 200 : 0);
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 200 : 0);
    sim_fs_mkdir("/data");
    u64 n = Huge::size(sim_chance(1, 3)), seed = sim_work(1000);
    i64 old = 0; // whose place is free once it is overwritten
    if(sim_chance(1, 2)) {
        Content c{file_size(), 77};
        sim_fs_put("/data/huge", c.data, c.n, 0644);
        old = static_cast<i64>(c.n);
    }
    i64 room = -1; // the disk
    if(sim_chance(1, 3)) room = static_cast<i64>(n) - 2 + static_cast<i64>(sim_work(4)) - old;
    int fds = sim_fds_open();
    {
        Huge h{n, seed};
        sim_fs_capacity(room);
        bool ok = Files::write("/data/huge"_v, Slice<const u8>{h.data, h.n});
        bool fits = room < 0 || room + old >= static_cast<i64>(n);
        SIM_CHECK(ok == fits, ok ? "success-from-nothing" : "spurious-failure", "writing %llu bytes to a disk with room for %lld %s", (ull)n, (long long)room, ok ? "reported success" : "failed");
    }
    if(room < 0 || room + old >= static_cast<i64>(n)) {
        u64 m = static_cast<u64>(sim_fs_size("/data/huge"));
        u8* got = static_cast<u8*>(Mhidden::alloc(m + 1));
        sim_fs_get("/data/huge", got, m);
        Huge::expect(got, m, n, seed, "write of gigabytes");
        Mhidden::free(got);
        sim_probe("huge file written");
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
}
void scenario() {
    if(sim_chance(1, 1000)) return huge();
    sim_steps_limit(200000, 400000);
    static const int cpus[] = {2, 3, 1};
    sim_set_cpus(cpus[sim_work(3)]);
    bool faults = sim_chance(2, 3);
    sim_fault(F_SHORT_WRITE, sim_chance(1, 2) ? 20000 : 0);
    sim_fault(F_SHORT_READ, sim_chance(1, 4) ? 20000 : 0);
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 10000 : 0);
    if(faults) {
        sim_fault(F_EIO_WRITE, sim_chance(1, 3) ? 6000 : 0);
        sim_fault(F_ENOSPC, sim_chance(1, 4) ? 6000 : 0);
        sim_fault(F_OPEN_FAIL, sim_chance(1, 4) ? 6000 : 0);
        sim_fault(F_CLOSE_FAIL, sim_chance(1, 3) ? 10000 : 0);
        sim_fault(F_STAT_FAIL, sim_chance(1, 6) ? 6000 : 0);
        sim_fault(F_SEEK_FAIL, sim_chance(1, 6) ? 6000 : 0);
    }
    sim_fs_mkdir("/data");
    n_files = 2 + sim_work(4);
    for(u64 i = 0; i < n_files; i++) {
        File& f = files[i];
        f.kind = static_cast<int>(sim_work(2));
        if(sim_chance(1, 5)) f.kind = 2 + static_cast<int>(sim_work(3));
        name_file(f.path, f.kind == 3 ? "/none" : "/data", "file", i, f.kind != 3 && sim_chance(1, 10));
        if(f.kind <= 1 && sim_chance(1, 10)) { // reached through a symbolic link, which may point to nothing yet
            char target[] = "/data/target0";
            target[12] = static_cast<char>('0' + i);
            sim_fs_symlink(target, f.path);
        }
        if(f.kind == 1 || f.kind == 4) {
            f.old_n = file_size();
            f.n = f.old_n;
            f.version = i;
            f.written = true;
            Content c{f.old_n, i};
            sim_fs_put(f.path, c.data, c.n, f.kind == 4 ? 0400 : 0644);
        }
        if(f.kind == 2) sim_fs_mkdir(f.path);
    }
    tight_disk = sim_chance(1, 4);
    if(tight_disk) sim_fs_capacity(static_cast<int64_t>(sim_chance(1, 8) ? sim_work(400000) : sim_work(30000)));
    warm_files();
    i64 net = sys_net_allocs();
    int fds = sim_fds_open();
    if(sim_chance(1, 3)) {
        Pool_ p;
        pp = &p;
        u64 n = 1 + sim_work(n_files < 4 ? n_files : 4);
        Vec<Async::Task<void>, Mhidden> ts;
        u64 ids[4];
        for(u64 i = 0; i < n; i++) ts.push(via_pool(ids[i] = new_body(), &files[i], file_size(), sim_chance(2, 3)));
        for(u64 i = 0; i < n; i++) {
            ts[i].block();
            body_consumed(ids[i], "block");
        }
        ts.clear();
        sim_quiesce();
    } else {
        Vec<T_, Mhidden> ts;
        u64 half = n_files / 2;
        if(sim_chance(1, 2)) ts.push(T_{[half, k = 1 + sim_work(3)]() { writer(half, n_files - half, k); }});
        writer(0, half, 1 + sim_work(4));
    }
    // Nothing changed behind our back.
    for(u64 i = 0; i < n_files; i++)
        if(files[i].written && !files[i].unknown && files[i].kind < 2) verify(files[i], "an earlier write");
    // Once the trouble is over, it works again.
    if(sim_chance(1, 2)) {
        sim_faults_off();
        sim_fs_capacity(-1);
        tight_disk = false;
        writer(0, n_files, 3);
        for(u64 i = 0; i < n_files; i++) read_back(files[i]);
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
