// Reading a file returns its whole contents, or nothing.
#include "filec.h"

struct File {
    char path[PATH];
    u64 n, seed;
    int kind; // 0 regular, 1 missing, 2 directory, 3 pipe, 4 unreadable, 5 changes its size meanwhile, 6 is replaced by others
    u64 n2;
};
static File files[6];
static u64 n_files;
static Pool_* pp;

static void check(const Opt<Vec<u8, Files::Alloc>>& r, const File& f, u64 mark, const char* how) {
    if(r.ok() && f.kind == 5) {
        // Some of what it held, nothing else.
        u64 most = f.n > f.n2 ? f.n : f.n2;
        SIM_CHECK(r->length() <= most, "wrong-contents", "%s of a file of %llu or %llu bytes gave %llu", how, (ull)f.n, (ull)f.n2, (ull)r->length());
        expect_bytes(r->data(), r->length(), r->length(), f.seed, "wrong-contents", how);
        sim_probe("read while it changed");
        return;
    }
    if(r.ok() && f.kind == 6) {
        // One of the files it was, whole.
        bool second = r->length() == f.n2 && (!f.n2 || (*r)[0] == file_byte(f.seed + 50, 0));
        expect_bytes(r->data(), r->length(), second ? f.n2 : f.n, f.seed + (second ? 50 : 0), "wrong-contents", how);
        sim_probe("read while it was replaced");
        return;
    }
    if(r.ok()) {
        SIM_CHECK(f.kind == 0, "value-from-nothing", "%s of a %s gave a value", how, f.kind == 1 ? "missing file" : f.kind == 2 ? "directory" : f.kind == 3 ? "pipe" : "file that may not be read");
        expect_bytes(r->data(), r->length(), f.n, f.seed, "wrong-contents", how);
        if(f.n) sim_touch(r->data(), r->length(), 0);
    } else {
        Sim_Atomic a;
        SIM_CHECK((f.kind != 0 && f.kind != 6) || hard_fault_since(mark), "no-value", "%s gave no value although nothing failed", how);
        if(f.kind == 0) sim_probe("failed read");
    }
}
static Async::Task<void> via_pool(u64 id, u64 i, bool hop) noexcept {
    auto& pool = *pp->pool;
    body_start(id);
    if(hop) co_await pool.suspend();
    u64 mark = hard_faults();
    Spelled name{files[i].path};
    auto r = co_await Async::read(pool, name);
    check(r, files[i], mark, "Async::read");
    body_end(id);
}
static void reader(u64 n) {
    for(u64 k = 0; k < n; k++) {
        u64 i = sim_work(n_files);
        u64 mark = hard_faults();
        Spelled name{files[i].path};
        if(sim_chance(1, 2)) {
            auto r = Files::read(name);
            check(r, files[i], mark, "read");
        } else if(sim_chance(1, 4)) {
            Files::Write_Watcher w{name};
            mark = hard_faults();
            auto r = w.read();
            check(r, files[i], mark, "Write_Watcher::read");
        } else {
            auto r = Files::read(String_View{files[i].path});
            check(r, files[i], mark, "read");
        }
    }
}
// Another program that cuts the file off and lets it grow again.
static void changer(u64 i) {
    File& f = files[i];
    for(u64 k = 0; k < 12; k++) {
        u64 n = k % 2 ? f.n : f.n2;
        Content c{n, f.seed};
        sim_fs_put(f.path, c.data, c.n, 0644);
        u64 pause = sim_work(12);
        for(u64 y = 0; y < pause; y++) sim_yield();
    }
}
// Another program that puts a new file in its place.
static void replacer(u64 i) {
    File& f = files[i];
    for(u64 k = 0; k < 12; k++) {
        Content c{k % 2 ? f.n : f.n2, k % 2 ? f.seed : f.seed + 50};
        sim_fs_replace(f.path, c.data, c.n, 0644);
        u64 pause = sim_work(12);
        for(u64 y = 0; y < pause; y++) sim_yield();
    }
}
// Files of gigabytes, of which little exists. Those of more than four are not supported; there may be no value then.
static void huge() {
    sim_steps_limit(8000000, 16000000);
    sim_patience(20);
    sim_fault(F_SHORT_READ, sim_chance(1, 2) ? 200 : 0);
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 200 : 0);
    sim_fs_mkdir("/data");
    bool more = sim_chance(1, 4);
    u64 n = Huge::size(more), seed = sim_work(1000);
    {
        Huge h{n, seed};
        sim_fs_put("/data/huge", h.data, h.n, 0644);
    }
    int fds = sim_fds_open();
    {
        auto r = Files::read("/data/huge"_v);
        if(r.ok()) {
            Huge::expect(r->data(), r->length(), n, seed, "read of a huge file");
            sim_probe("huge file read");
        } else SIM_CHECK(more, "no-value", "reading a file of %llu bytes gave no value although nothing failed", (ull)n);
    }
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
}
void scenario() {
    if(sim_chance(1, 1000)) return huge();
    sim_steps_limit(200000, 400000);
    static const int cpus[] = {2, 3, 1};
    sim_set_cpus(cpus[sim_work(3)]);
    bool faults = sim_chance(2, 3);
    sim_fault(F_SHORT_READ, sim_chance(1, 2) ? 20000 : 0);
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 10000 : 0);
    if(faults) {
        sim_fault(F_EIO_READ, sim_chance(1, 3) ? 5000 : 0);
        sim_fault(F_OPEN_FAIL, sim_chance(1, 4) ? 6000 : 0);
        sim_fault(F_SEEK_FAIL, sim_chance(1, 4) ? 6000 : 0);
        sim_fault(F_STAT_FAIL, sim_chance(1, 4) ? 6000 : 0);
        sim_fault(F_CLOSE_FAIL, sim_chance(1, 4) ? 6000 : 0);
    }
    sim_fs_lseek_dir(static_cast<int>(sim_work(3)));
    sim_fs_mkdir("/data");
    n_files = 1 + sim_work(5);
    for(u64 i = 0; i < n_files; i++) {
        File& f = files[i];
        name_file(f.path, "/data", "file", i, sim_chance(1, 10));
        f.kind = sim_chance(3, 4) ? 0 : 1 + static_cast<int>(sim_work(4));
        f.n = file_size();
        f.seed = i + 1;
        f.n2 = file_size();
        if(f.kind == 0 && sim_chance(1, 5)) f.kind = 5 + static_cast<int>(sim_work(2));
        if(f.kind == 0 || f.kind >= 4) {
            Content c{f.n, f.seed};
            if(sim_chance(1, 10)) { // reached through a symbolic link
                char target[] = "/data/target0";
                target[12] = static_cast<char>('0' + i);
                sim_fs_symlink(target, f.path);
            }
            sim_fs_put(f.path, c.data, c.n, f.kind == 4 ? 0200 : 0644);
        }
        if(f.kind == 2) sim_fs_mkdir(f.path);
        if(f.kind == 3) sim_fs_fifo(f.path);
    }
    warm_files();
    i64 net = sys_net_allocs();
    int fds = sim_fds_open();
    Vec<T_, Mhidden> others;
    for(u64 i = 0; i < n_files; i++)
        if(files[i].kind == 6) others.push(T_{[i]() { replacer(i); }});
        else if(files[i].kind == 5) others.push(T_{[i]() { changer(i); }});
    if(sim_chance(1, 3)) {
        Pool_ p;
        pp = &p;
        u64 n = 1 + sim_work(4);
        Vec<Async::Task<void>, Mhidden> ts;
        u64 ids[4];
        for(u64 i = 0; i < n; i++) ts.push(via_pool(ids[i] = new_body(), sim_work(n_files), sim_chance(2, 3)));
        for(u64 i = 0; i < n; i++) {
            ts[i].block();
            body_consumed(ids[i], "block");
        }
        ts.clear();
        sim_quiesce();
    } else {
        Vec<T_, Mhidden> ts;
        u64 n = sim_work(3);
        for(u64 i = 0; i < n; i++) ts.push(T_{[k = 1 + sim_work(3)]() { reader(k); }});
        reader(1 + sim_work(4));
    }
    others = Vec<T_, Mhidden>{};
    SIM_CHECK(sim_fds_open() == fds, "descriptor-left", "%d descriptors open before, %d after", fds, sim_fds_open());
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
}
