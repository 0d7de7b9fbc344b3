// Reading the profile while other threads frame, trace, allocate, start and exit.
#include "common.h"

constexpr u64 LIVES = 24, FRAMES = 40, SHAPE = 6;
struct Life {
    rpp::Thread::Id id;
    u64 ending, done;   // frames end_frame was called for, returned for
    u64 sum[FRAMES];    // what the first reader saw of a frame
    bool leaving, gone; // about to exit; joined
};
static Life lives[LIVES];
static u64 n_lives;
static const char* const names[SHAPE] = {"s0", "s1", "s2", "s3", "s4", "s5"};

static u64 mix(u64 a, u64 b) {
    u64 x = (a * 1000 + b + 1) * 0x9e3779b97f4a7c15ull;
    return (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ull >> 20;
}
static u64 scopes_of(u64 serial, u64 f) {
    return 1 + mix(serial, f) % SHAPE;
}
static u64 calls_of(u64 serial, u64 f, u64 k) {
    return 1 + mix(serial * 64 + k, f) % 3;
}
struct Node {
    bool extra; // a reader's own scope
    u64 serial, frame, k, parent, calls, self, heir, begin, end;
    u64 kids[SHAPE + 1], n;
};
constexpr u64 NODES = 64;
struct Group { // one thread's frame, as it is being shown
    rpp::Thread::Id id;
    Node node[NODES];
    u64 n;
};
struct Reader {
    u64 before[LIVES]; // frames done when the reading began
    bool alive[LIVES], exited[LIVES];
    u64 seen[LIVES];
    Group g;
    bool open;
};
static void judge(Reader& r) {
    if(!r.open) return;
    r.open = false;
    Group& g = r.g;
    u64 first = 1, extra = 0;
    for(u64 i = 1; i < g.n; i++) extra += g.node[i].extra;
    while(first < g.n && g.node[first].extra) first++;
    SIM_CHECK(first < g.n, "half-updated", "a frame is shown without its scopes");
    u64 serial = g.node[first].serial, f = g.node[first].frame;
    SIM_CHECK(serial < n_lives && f < FRAMES, "foreign", "a frame nobody made is shown");
    Life& l = lives[serial];
    SIM_CHECK(g.id == l.id, "foreign", "a frame of thread %llx is shown for thread %llx", (ull)l.id, (ull)g.id);
    SIM_CHECK(!r.exited[serial], "freed", "a frame of a thread that has exited is shown");
    SIM_CHECK(f < l.ending, "half-updated", "frame %llu is shown, but is not complete", (ull)f);
    SIM_CHECK(f + 1 >= r.before[serial], "outdated", "frame %llu is shown, but frame %llu was complete when the reading began", (ull)f, (ull)(r.before[serial] - 1));
    u64 k = scopes_of(serial, f);
    SIM_CHECK(g.n == k + 1 + extra, "half-updated", "frame %llu is shown with %llu scopes, it has %llu", (ull)f, (ull)(g.n - 1 - extra), (ull)k);
    u64 sum = 0;
    for(u64 i = 0; i < g.n; i++) {
        Node& n = g.node[i];
        if(i && !n.extra) {
            SIM_CHECK(n.serial == serial && n.frame == f, "foreign", "scopes of different frames are shown together");
            SIM_CHECK(n.k < k, "foreign", "a frame is shown with a scope that is not its own");
            SIM_CHECK(n.calls == calls_of(serial, f, n.k), "half-updated", "scope %llu was entered %llu times, not %llu", (ull)n.k, (ull)calls_of(serial, f, n.k), (ull)n.calls);
            for(u64 j = 1; j < i; j++) SIM_CHECK(g.node[j].k != n.k, "foreign", "scope %llu is shown twice", (ull)n.k);
        }
        u64 kids = 0;
        for(u64 c = 0; c < n.n; c++) {
            SIM_CHECK(n.kids[c] < g.n, "half-updated", "a child is not there");
            kids += g.node[n.kids[c]].heir;
        }
        SIM_CHECK(n.self + kids == n.heir, "half-updated", "times of frame %llu do not add up: %llu is not %llu and %llu in children", (ull)f, (ull)n.heir, (ull)n.self, (ull)kids);
        SIM_CHECK(n.begin <= n.end, "half-updated", "a completed scope ends before it begins");
        sum = (sum ^ n.heir ^ (n.begin << 1) ^ (n.end << 2) ^ (n.parent << 60)) * 0x9e3779b97f4a7c15ull + 1;
    }
    if(!l.sum[f]) l.sum[f] = sum;
    SIM_CHECK(l.sum[f] == sum, "half-updated", "frame %llu looks different when shown again", (ull)f);
    SIM_CHECK(r.seen[serial]++ == 0, "twice", "a thread is shown twice");
}
static void take(Reader& r, rpp::Thread::Id id, const Profile::Timing_Node& node) {
    bool root = node.loc.function == "Frame"_v;
    if(root || !r.open || r.g.id != id) {
        SIM_CHECK(root, "half-updated", "scopes are shown before their frame");
        judge(r);
        r.open = true;
        r.g.id = id;
        r.g.n = 0;
    }
    SIM_CHECK(r.g.n < NODES, "half-updated", "a frame is shown with too many scopes");
    Node& n = r.g.node[r.g.n++];
    n.serial = node.loc.line / 1000, n.frame = node.loc.line % 1000;
    n.k = SHAPE;
    n.extra = node.loc.function == "reading"_v;
    for(u64 k = 0; k < SHAPE; k++)
        if(node.loc.function == String_View{names[k]}) n.k = k;
    n.parent = node.parent, n.calls = node.calls, n.self = node.self_time, n.heir = node.heir_time, n.begin = node.begin, n.end = node.end;
    n.n = 0;
    for(u64 c : node.children) {
        SIM_CHECK(n.n <= SHAPE, "half-updated", "a scope is shown with too many children");
        n.kids[n.n++] = c;
    }
}
static u64 own = 0;
static void read_all(u64 self, bool registered) {
    Reader* r = static_cast<Reader*>(Mhidden::alloc(sizeof(Reader)));
    {
        Sim_Atomic a;
        __builtin_memset(static_cast<void*>(r), 0, sizeof(Reader));
        for(u64 i = 0; i < n_lives; i++) r->before[i] = lives[i].done, r->alive[i] = !lives[i].leaving, r->exited[i] = lives[i].gone;
    }
    u64 style = sim_work(6);
    {
        Vec<u64, Mdefault> kept;
        Profile::iterate_timings([&](rpp::Thread::Id id, const Profile::Timing_Node& node) {
            take(*r, id, node);
            switch(style) {
            case 1: kept.push(node.heir_time); break; // a reader collects what it reads
            case 2: sim_yield(); break;
            case 3: dawdle(); break;
            case 4:
                if(!registered) sim_probe("traced by a thread without frames");
                Trace("reading") sim_yield();
                break;
            default: break;
            }
        });
        if(style == 1 && kept.length() > 8) sim_probe("collected while reading");
    }
    Sim_Atomic a;
    judge(*r);
    u64 others = 0;
    for(u64 i = 0; i < n_lives; i++) {
        if(r->alive[i] && r->before[i] && !lives[i].leaving) {
            SIM_CHECK(r->seen[i], "missing", "a thread with %llu completed frames is not shown", (ull)r->before[i]);
            others += i != self;
        }
        if(r->seen[i] && i == self) own++;
    }
    if(others) sim_probe("read others");
    if(own) sim_probe("read own");
    Mhidden::free(r);
}
static void named_scope(u64 serial, u64 f, u64 k) {
    Profile::enter(Log::Location{String_View{names[k]}, "w"_v, serial * 1000 + f});
}
static void busy() {
    switch(sim_work(5)) {
    case 0: {
        Vec<u64, Mdefault> v;
        for(u64 i = 0; i < 9; i++) v.push(u64{i});
    } break;
    case 1: sim_advance(1000 + sim_work(100000)); break;
    case 2: sim_yield(); break;
    default: break;
    }
}
// Runs the scopes of a frame; a thread may leave from inside any of them.
static bool scopes(u64 serial, u64 f, u64 k, u64 end, bool leave) {
    if(k >= end) return false;
    u64 nested = sim_work(2); // the rest inside this one, or after it
    u64 calls = calls_of(serial, f, k);
    for(u64 c = 0; c < calls; c++) {
        named_scope(serial, f, k);
        busy();
        if(leave && sim_chance(1, 4)) return true;
        if(nested && c + 1 == calls)
            if(scopes(serial, f, k + 1, end, leave)) return true;
        Profile::exit();
    }
    if(!nested) return scopes(serial, f, k + 1, end, leave);
    return false;
}
// Destroyed when the thread's profile is gone already: the last things it does are profiled, too.
struct Late {
    u64 uses = 0;
    ~Late() {
        if(!uses) return;
        Trace("the end") busy();
        Profile::enter("the very end"_v);
        busy();
        Profile::exit();
        sim_probe("profiled after its profile was gone");
    }
};
static Late& late() { // not constructed along with the thread's profile
    static thread_local Late l;
    return l;
}
static void live(u64 frames, u64 reads) {
    u64 me;
    if(sim_chance(1, 4)) late().uses++;
    {
        Sim_Atomic a;
        me = n_lives++;
        if(me >= LIVES) sim_violation("internal:lives", "scenario ran out of threads");
        lives[me].id = rpp::Thread::this_id();
        for(u64 i = 0; i < me; i++)
            if(lives[i].id == lives[me].id) sim_probe("identifier used again");
    }
    bool leave_inside = sim_chance(1, 3);
    for(u64 f = 0; f < frames; f++) {
        (void)Profile::begin_frame();
        bool leave = leave_inside && f + 1 == frames;
        if(leave && sim_chance(1, 3)) {
            sim_probe("left inside a frame");
            break;
        }
        if(scopes(me, f, 0, scopes_of(me, f), leave)) {
            sim_probe("left inside a scope");
            break;
        }
        if(reads && sim_chance(1, 3)) {
            reads--;
            read_all(me, true);
        }
        {
            Sim_Atomic a;
            lives[me].ending++;
        }
        Profile::end_frame();
        {
            Sim_Atomic a;
            lives[me].done++;
        }
        if(reads && sim_chance(1, 2)) {
            reads--;
            read_all(me, true);
        }
        busy();
    }
    Sim_Atomic a;
    lives[me].leaving = true;
}
struct Running {
    T_ t;
    rpp::Thread::Id id;
};
static void finish(Running& r) {
    r.t.join();
    Sim_Atomic a;
    for(u64 i = 0; i < n_lives; i++)
        if(lives[i].id == r.id && lives[i].leaving) lives[i].gone = true;
}
static void pure_reader(u64 n) {
    for(u64 i = 0; i < n; i++) {
        read_all(LIVES, false);
        dawdle();
    }
}
void scenario() {
    sim_steps_limit(200000, 400000);
    sim_fault(F_STALL, sim_chance(1, 6) ? 200 : 0);
    sim_heap_reuse(static_cast<int>(sim_work(2)));
    sim_watch_heap("profile data");
    T_ reader;
    if(sim_chance(1, 2)) reader = T_{[n = 1 + sim_work(12)]() { pure_reader(n); }};
    Running running[4];
    u64 total = 1 + sim_work(8);
    u64 width = 1 + sim_work(3);
    bool main_frames = sim_chance(1, 2);
    for(u64 i = 0; i < total; i++) {
        Running& r = running[i % width];
        if(i >= width) finish(r);
        u64 frames = sim_work(5) ? 1 + sim_work(4) : 8 + sim_work(4);
        r.t = T_{[frames, reads = sim_work(3)]() { live(frames, reads); }};
        r.id = r.t.id();
        if(sim_chance(1, 2)) {
            read_all(LIVES, false);
        }
    }
    if(main_frames) live(1 + sim_work(3), 2);
    for(u64 i = 0; i < width && i < total; i++) finish(running[i]);
    {
        Sim_Atomic a;
        for(u64 i = 0; i < n_lives; i++)
            if(lives[i].leaving && lives[i].id == rpp::Thread::this_id()) lives[i].leaving = false; // this one stays
    }
    read_all(LIVES, false);
}
