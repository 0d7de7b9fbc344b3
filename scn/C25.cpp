// Profiled times: the tree of scopes of a completed frame, with counts and times that add up.
#include "common.h"

constexpr u64 NODES = 400;
struct Name {
    bool located;
    Log::Location loc;
};
// Two texts with the same content are the same scope, however they are stored.
static char alias_a[] = "alpha", alias_f[] = "file.cpp";
static String_View sv(const char* s) {
    return String_View{s};
}
static Name name_of(u64 k) {
    switch(k) {
    case 0: return {false, {sv("alpha"), sv(""), 0}};
    case 1: return {false, {sv(alias_a), sv(""), 0}};
    case 2: return {false, {sv("beta"), sv(""), 0}};
    case 3: return {true, {sv("beta"), sv("file.cpp"), 7}};
    case 4: return {true, {sv("beta"), sv(alias_f), 7}};
    case 5: return {true, {sv("beta"), sv("file.cpp"), 8}};
    case 6: return {true, {sv("beta"), sv("other.cpp"), 7}};
    default: return {true, {sv("gamma"), sv("file.cpp"), 7}};
    }
}
static u64 kind_of(u64 k) { // what makes a scope the same scope
    return k == 1 ? 0 : k == 4 ? 3 : k;
}
struct Want {
    u64 name, parent, calls, lo, hi;
};
struct Seen {
    u64 name;
    u64 parent, calls, self, heir, begin, end;
    u64 children[NODES], n;
};
struct Frame {
    Want w[NODES];
    u64 n;
    u64 b0, b1; // begin_frame called, returned
    bool valid;
};
struct Per {
    Frame frame[2]; // running or latest, previous
    u64 cur;        // node we are in
    u64 frames;
    bool during;
    Seen* seen;
    u64 n_seen;
};
static u64 seen_in_reader;

static u64 recognise(const Log::Location& l) {
    if(l.function == sv("Frame") && l.file == sv("") && l.line == 0) return 100;
    for(u64 k = 0; k < 8; k++) {
        Name m = name_of(k);
        if(l.function == m.loc.function && l.file == m.loc.file && l.line == m.loc.line) return kind_of(k);
    }
    sim_violation("invented", "a node has a location nobody entered");
}
static void read_own(Per& p) {
    rpp::Thread::Id me = rpp::Thread::this_id();
    p.n_seen = 0;
    Profile::iterate_timings([&](rpp::Thread::Id id, const Profile::Timing_Node& node) {
        if(id != me) return;
        SIM_CHECK(p.n_seen < NODES, "shape", "a frame has more nodes than scopes were entered");
        Seen& s = p.seen[p.n_seen++];
        s.name = recognise(node.loc);
        s.parent = node.parent, s.calls = node.calls, s.self = node.self_time, s.heir = node.heir_time, s.begin = node.begin, s.end = node.end;
        s.n = 0;
        for(u64 c : node.children) {
            SIM_CHECK(s.n < NODES, "shape", "a node has more children than scopes were entered");
            s.children[s.n++] = c;
        }
    });
}
static u64 ticks(u64 ns) {
    return static_cast<u64>(static_cast<unsigned __int128>(ns) * Thread::perf_frequency() / 1000000000ull);
}
static void match(Per& p, const Frame& f, u64 want, u64 seen, u64& matched) {
    Seen& s = p.seen[seen];
    const Want& w = f.w[want];
    matched++;
    u64 lo = ticks(w.lo), hi = ticks(w.hi);
    u64 slack = w.calls + 1; // rounding, for a counter coarser than ours
    if(want) SIM_CHECK(s.calls == w.calls, "calls", "a scope entered %llu times says %llu (node %llu)", (ull)w.calls, (ull)s.calls, (ull)seen);
    SIM_CHECK(s.heir + slack >= lo && s.heir <= hi + slack, "inclusive-time", "a scope that lasted %llu to %llu in %llu calls says %llu (node %llu)", (ull)lo, (ull)hi, (ull)w.calls, (ull)s.heir, (ull)seen);
    u64 sum = 0, kids = 0;
    bool used[NODES] = {};
    for(u64 i = 0; i < s.n; i++) {
        u64 c = s.children[i];
        SIM_CHECK(c < p.n_seen && c != 0, "shape", "a node has a child %llu that is not there", (ull)c);
        SIM_CHECK(p.seen[c].parent == seen, "shape", "node %llu is a child of node %llu, but has parent %llu", (ull)c, (ull)seen, (ull)p.seen[c].parent);
        sum += p.seen[c].heir;
        u64 k = 0;
        for(k = 1; k < f.n; k++)
            if(!used[k] && f.w[k].parent == want && f.w[k].name == p.seen[c].name) break;
        SIM_CHECK(k < f.n, "shape", "a node has a child scope that was not entered there, or twice the same");
        used[k] = true;
        kids++;
        match(p, f, k, c, matched);
    }
    for(u64 k = 1; k < f.n; k++) SIM_CHECK(f.w[k].parent != want || used[k], "shape", "a scope that was entered is missing");
    SIM_CHECK(s.self == s.heir - sum, "exclusive-time", "a scope of %llu, of which its %llu children took %llu, has %llu of its own", (ull)s.heir, (ull)kids, (ull)sum, (ull)s.self);
}
static void check_own(Per& p) {
    read_own(p);
    Sim_Atomic a;
    const Frame& f = p.during ? p.frame[1] : p.frame[0];
    if(!f.valid) {
        SIM_CHECK(p.n_seen == 0, "incomplete", "a frame is shown before it completed");
        return;
    }
    SIM_CHECK(p.n_seen > 0, "missing", "a completed frame is not shown");
    SIM_CHECK(p.seen[0].name == 100, "shape", "the first node is not the frame");
    u64 matched = 0;
    match(p, f, 0, 0, matched);
    SIM_CHECK(matched == p.n_seen, "shape", "%llu nodes are in no scope", (ull)(p.n_seen - matched));
    if(f.n > 8) sim_probe("frame with many scopes");
}
static void some_time() {
    switch(sim_work(7)) {
    case 0: break;
    case 1: sim_advance(1 + sim_work(100)); break;
    case 2: sim_advance(1000000 + sim_work(5000000)); break;
    case 3: sim_advance((1 + sim_work(10)) * 1000000000ull); break;
    case 4: sim_sleep(1000 + sim_work(20000)); break;
    case 5:
        if(sim_chance(1, 4)) {
            sim_wall_jump(static_cast<i64>(sim_work(7200)) * 1000000000 - 3600000000000ll);
            sim_probe("wall clock stepped");
        }
        break;
    default: dawdle(); break;
    }
}
static void inside(Per& p, u64 depth, u64& budget);

// In the running frame: the node of scope `name` in the current one.
static u64 open_want(Per& p, u64 name) {
    Frame& f = p.frame[0];
    u64 k;
    for(k = 1; k < f.n; k++)
        if(f.w[k].parent == p.cur && f.w[k].name == kind_of(name)) break;
    if(k == f.n) {
        if(f.n >= NODES) sim_violation("internal:nodes", "scenario ran out of nodes");
        f.w[f.n++] = {kind_of(name), p.cur, 0, 0, 0};
    } else sim_probe("scope repeated");
    f.w[k].calls++;
    return k;
}
static void scope(Per& p, u64 depth, u64& budget) {
    if(!budget) return;
    budget--;
    u64 name = sim_work(8);
    bool counted = p.during;
    u64 up = p.cur, k = 0;
    if(counted) k = open_want(p, name);
    Name m = name_of(name);
    u64 t0 = sim_now(), t1, t2;
    bool macro = !m.located && sim_chance(1, 2);
    if(macro && name == 0) {
        Trace("alpha") {
            t1 = sim_now();
            if(counted) p.cur = k;
            inside(p, depth, budget);
            t2 = sim_now();
        }
    } else if(macro) {
        Trace(m.loc.function) {
            t1 = sim_now();
            if(counted) p.cur = k;
            inside(p, depth, budget);
            t2 = sim_now();
        }
    } else {
        if(m.located) Profile::enter(m.loc);
        else Profile::enter(m.loc.function);
        t1 = sim_now();
        if(counted) p.cur = k;
        inside(p, depth, budget);
        t2 = sim_now();
        Profile::exit();
    }
    u64 t3 = sim_now();
    if(counted) {
        Want& w = p.frame[0].w[k];
        w.lo += t2 - t1;
        w.hi += t3 - t0;
        p.cur = up;
    }
}
static void start_frame(Per& p) {
    u64 t0 = sim_now();
    f32 dt = Profile::begin_frame();
    u64 t1 = sim_now();
    bool had = p.frame[0].valid;
    u64 lo = had ? t0 - p.frame[0].b1 : 0, hi = had ? t1 - p.frame[0].b0 : 0;
    f64 l = static_cast<f64>(lo) * 1e-9, h = static_cast<f64>(hi) * 1e-9;
    SIM_CHECK(dt >= l * 0.99999 - 1e-8 && dt <= h * 1.00001 + 1e-8, "frame-time", "begin_frame says %.9f seconds, it was %.9f to %.9f", (double)dt, l, h);
    p.frame[1] = p.frame[0];
    Frame& f = p.frame[0];
    f.n = 1;
    f.w[0] = {100, 0, 1, 0, 0};
    f.b0 = t0, f.b1 = t1;
    f.valid = true;
    p.cur = 0;
    p.during = true;
    p.frames++;
}
static void finish_frame(Per& p) {
    u64 t2 = sim_now();
    Profile::end_frame();
    u64 t3 = sim_now();
    p.during = false;
    p.frame[0].w[0].lo = t2 - p.frame[0].b1;
    p.frame[0].w[0].hi = t3 - p.frame[0].b0;
}
static void inside(Per& p, u64 depth, u64& budget) {
    u64 n = sim_work(4);
    for(u64 i = 0; i < n; i++) {
        switch(sim_work(6)) {
        case 0:
        case 1:
            if(depth) scope(p, depth - 1, budget);
            break;
        case 2: {
            Vec<u64, Mdefault> v;
            for(u64 q = 0; q < 10; q++) v.push(u64{q});
        } break;
        case 3:
            if(sim_chance(1, 3)) check_own(p);
            break;
        default: some_time(); break;
        }
    }
}
static void worker(u64 frames) {
    Per* p = static_cast<Per*>(Mhidden::alloc(sizeof(Per)));
    __builtin_memset(static_cast<void*>(p), 0, sizeof(Per));
    p->seen = static_cast<Seen*>(Mhidden::alloc(sizeof(Seen) * NODES));
    for(u64 i = 0; i < frames; i++) {
        u64 budget = 1 + sim_work(sim_work(4) ? 14 : 50);
        if(sim_chance(1, 6)) {
            // A scope that is open when the frame begins is not part of it.
            u64 name = sim_work(8);
            Name m = name_of(name);
            if(m.located) Profile::enter(m.loc);
            else Profile::enter(m.loc.function);
            start_frame(*p);
            if(sim_chance(1, 2)) scope(*p, 2, budget);
            Profile::exit();
            sim_probe("scope open when the frame begins");
        } else start_frame(*p);
        u64 top = sim_work(5);
        for(u64 q = 0; q < top; q++) scope(*p, 1 + sim_work(6), budget);
        some_time();
        if(sim_chance(1, 4)) check_own(*p);
        finish_frame(*p);
        check_own(*p);
        if(p->frames > 8) sim_probe("more frames than are kept");
        if(sim_chance(1, 3)) { // scopes between frames leave no trace
            scope(*p, 1, budget);
            check_own(*p);
        }
        some_time();
    }
    Mhidden::free(p->seen);
    Mhidden::free(p);
}
// Framing for ever takes a bounded amount of memory: the frames that are no longer shown give theirs back.
static void endless() {
    i64 after[3];
    for(u64 part = 0; part < 3; part++) {
        for(u64 i = 0; i < 24; i++) {
            static_cast<void>(Profile::begin_frame());
            for(u64 q = 0; q < 3; q++) {
                Profile::enter("alpha"_v);
                Profile::enter("beta"_v);
                Profile::exit();
                Profile::exit();
            }
            Profile::end_frame();
        }
        Sim_Atomic a;
        after[part] = sys_net_allocs();
    }
    SIM_CHECK(after[2] <= after[1], "unbounded", "24 more frames on a thread that had 48 keep %lld more allocations", (long long)(after[2] - after[1]));
    sim_probe("frames for ever");
}
// A frame of several hundred scopes: one after another, one inside the other, or a bit of both; the last ones are entered again.
static void wide() {
    constexpr u64 MOST = 700;
    struct Flat {
        u64 line, parent, calls, n_children;
    };
    static Flat seen[MOST + 1], want[MOST + 1];
    static u64 n, n_seen;
    u64 total = 250 + sim_work(MOST - 250), shape = sim_work(3), open = 0, cur = 0;
    static_cast<void>(Profile::begin_frame());
    n = 1, n_seen = 0;
    want[0] = {0, 0, 1, 0};
    for(u64 i = 1; i <= total; i++) {
        Profile::enter(Log::Location{"wide"_v, "wide.cpp"_v, i});
        want[i] = {i, cur, 1, 0};
        want[cur].n_children++;
        n++;
        cur = i, open++;
        while(open && (shape == 0 || open > 200 || (shape == 2 && sim_chance(1, 2)))) {
            Profile::exit();
            cur = want[cur].parent, open--;
        }
    }
    for(u64 q = 0; q < 3; q++) { // the newest scope of those inside this one, once more
        u64 k = 0;
        for(u64 i = n - 1; i > 0 && !k; i--)
            if(want[i].parent == cur) k = i;
        if(!k) break;
        Profile::enter(Log::Location{"wide"_v, "wide.cpp"_v, k});
        Profile::exit();
        want[k].calls++;
    }
    while(open--) Profile::exit();
    Profile::end_frame();
    rpp::Thread::Id me = rpp::Thread::this_id();
    Profile::iterate_timings([&](rpp::Thread::Id id, const Profile::Timing_Node& node) {
        if(id != me) return;
        Sim_Atomic a;
        SIM_CHECK(n_seen < n, "shape", "a frame has more nodes than scopes were entered");
        seen[n_seen++] = {node.loc.line, node.parent, node.calls, node.children.length()};
    });
    Sim_Atomic a;
    SIM_CHECK(n_seen == n, "shape", "%llu scopes were entered in a frame, %llu are shown", (ull)n, (ull)n_seen);
    for(u64 i = 1; i < n; i++) { // scope by scope, wherever its node is
        u64 k = 1;
        while(k < n && seen[k].line != want[i].line) k++;
        SIM_CHECK(k < n, "shape", "a scope that was entered is missing");
        SIM_CHECK(seen[k].calls == want[i].calls, "calls", "scope %llu was entered %llu times, says %llu", (ull)i, (ull)want[i].calls, (ull)seen[k].calls);
        SIM_CHECK(seen[k].n_children == want[i].n_children, "shape", "scope %llu has %llu scopes inside, says %llu", (ull)i, (ull)want[i].n_children, (ull)seen[k].n_children);
        SIM_CHECK(seen[k].parent < n_seen && seen[seen[k].parent].line == want[i].parent, "shape", "scope %llu was entered in another one than it says", (ull)i);
    }
    sim_probe("frame of hundreds of scopes");
}
// A scope entered tens of thousands of times.
static void often() {
    u64 total = 65500 + sim_work(200);
    static_cast<void>(Profile::begin_frame());
    {
        Sim_Atomic a;
        for(u64 i = 0; i < total; i++) {
            Profile::enter("often"_v);
            Profile::exit();
        }
    }
    Profile::end_frame();
    rpp::Thread::Id me = rpp::Thread::this_id();
    u64 calls = 0, nodes = 0;
    Profile::iterate_timings([&](rpp::Thread::Id id, const Profile::Timing_Node& node) {
        if(id != me) return;
        nodes++;
        if(node.loc.function == "often"_v) calls += node.calls;
    });
    SIM_CHECK(nodes == 2 && calls == total, "calls", "a scope entered %llu times says %llu (%llu nodes)", (ull)total, (ull)calls, (ull)nodes);
    sim_probe("scope entered tens of thousands of times");
}
static void reader(u64 n) {
    for(u64 i = 0; i < n; i++) {
        Profile::iterate_timings([&](rpp::Thread::Id, const Profile::Timing_Node& node) {
            Sim_Atomic a;
            seen_in_reader++;
            SIM_CHECK(node.calls > 0, "calls", "a node has no calls");
        });
        dawdle();
    }
}
void scenario() {
    sim_steps_limit(200000, 400000);
    sim_fault(F_STALL, sim_chance(1, 5) ? 200 : 0);
    sim_fault(F_WALL_JUMP, sim_chance(1, 5) ? 200 : 0);
    u64 n = sim_work(3);
    bool long_run = sim_chance(1, 6);
    Vec<T_, Mhidden> ts;
    for(u64 i = 0; i < n; i++) ts.push(T_{[frames = 1 + sim_work(4)]() { worker(frames); }});
    if(sim_chance(1, 3)) ts.push(T_{[k = 1 + sim_work(6)]() { reader(k); }});
    worker(long_run ? 7 + sim_work(8) : 1 + sim_work(4));
    if(sim_chance(1, 8)) {
        ts.clear();
        endless();
    }
    if(sim_chance(1, 250)) wide();
    if(sim_chance(1, 1500)) {
        ts.clear();
        often();
    }
}
