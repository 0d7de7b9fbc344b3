// The log: every message once, whole, in one order, at every sink that works.
#include "common.h"
#include <rpp/log_callback.h>
#include <errno.h>
#include <string.h>

constexpr u64 MSGS = 200, SUBS = 24, LONGEST = 70000;
struct Msg {
    u64 len;          // of the text
    u64 seed;
    int level;
    rpp::Thread::Id thread;
    const char* file;
    u64 line;
    u64 w0, w1;       // wall clock seconds around the call
    u64 jumps;
    u64 told;         // the time callbacks were given, +1
    bool nested; // logged by a callback, which the callbacks need not hear
    bool returned;
    u64 began, ended; // logical times
    u64 depth;        // Log_Indent scopes around it
};
static Msg msgs[MSGS];
static u64 n_msgs, tick;
struct Sub {
    u64 called;       // subscribe called / returned
    u64 ready;
    u64 ending, ended; // unsubscribe called / returned; 0: not yet
    Log::Token token;
    u64 got[MSGS], n;
};
static Sub subs[SUBS];
static u64 n_subs;
static u64 jumps;
static bool out_fails, file_fails, quit;

UNSEEN static char text_char(u64 seed, u64 i) {
    static const char set[] = "abcdefghijklmnopqrstuvwxyz%s%n%d%%{}[]\t ";
    return set[(((seed + i) * 0x9e3779b97f4a7c15ull) >> 33) % (sizeof set - 1)];
}
// "<id:" + digits + ">" + body + "</id:" + digits + ">"
UNSEEN static u64 put_num(char* b, u64 v) {
    char t[24];
    u64 n = 0;
    do t[n++] = static_cast<char>('0' + v % 10);
    while(v /= 10);
    for(u64 i = 0; i < n; i++) b[i] = t[n - 1 - i];
    return n;
}
UNSEEN static u64 compose(char* b, u64 id, u64 len, u64 seed) {
    u64 n = 0;
    for(const char* p = "<id:"; *p; p++) b[n++] = *p;
    n += put_num(b + n, id);
    b[n++] = '>';
    for(u64 i = 0; i < len; i++) b[n++] = text_char(seed, i);
    for(const char* p = "</id:"; *p; p++) b[n++] = *p;
    n += put_num(b + n, id);
    b[n++] = '>';
    return n;
}
static u64 wall_s() {
    return sim_wall() / 1000000000;
}
UNSEEN static bool find(const char* s, u64 n, const char* what, u64 m, u64 from, u64& at) {
    for(u64 i = from; i + m <= n; i++)
        if(__builtin_memcmp(s + i, what, m) == 0) {
            at = i;
            return true;
        }
    return false;
}
static bool find(const char* s, u64 n, const char* what, u64 from, u64& at) {
    return find(s, n, what, __builtin_strlen(what), from, at);
}
static const char* const level_names[] = {"info", "warn", "fatal"};
// The message a complete text belongs to.
static u64 identify(const char* s, u64 n, const char* where) {
    u64 at;
    if(!find(s, n, "<id:", 0, at)) sim_violation("torn", "%s has a line that is no message: %.*s", where, (int)(n > 200 ? 200 : n), s);
    u64 id = 0, i = at + 4;
    while(i < n && s[i] >= '0' && s[i] <= '9') id = id * 10 + static_cast<u64>(s[i++] - '0');
    if(id >= n_msgs) sim_violation("invented", "%s has message %llu, which nobody logged", where, (ull)id);
    static char want[LONGEST + 100];
    u64 len = compose(want, id, msgs[id].len, msgs[id].seed), pos;
    if(!find(s, n, want, len, 0, pos)) sim_violation("torn", "%s has message %llu, but not with its whole text: %.*s", where, (ull)id, (int)(n > 200 ? 200 : n), s);
    if(find(s, n, "<id:", pos + 4, at)) sim_violation("torn", "%s has two messages in one line: %.*s", where, (int)(n > 200 ? 200 : n), s);
    return id;
}
static i64 zone;
static void clock_of(char* c, u64 t) {
    t += static_cast<u64>(zone);
    u64 h = t / 3600 % 24, mi = t / 60 % 60, se = t % 60;
    c[0] = static_cast<char>('0' + h / 10), c[1] = static_cast<char>('0' + h % 10), c[2] = ':';
    c[3] = static_cast<char>('0' + mi / 10), c[4] = static_cast<char>('0' + mi % 10), c[5] = ':';
    c[6] = static_cast<char>('0' + se / 10), c[7] = static_cast<char>('0' + se % 10), c[8] = 0;
}
static void check_line(const char* s, u64 n, u64 id, const char* where) {
    Msg& m = msgs[id];
    char want[300];
    u64 k = 0, at;
    want[k++] = '[';
    for(const char* p = level_names[m.level]; *p; p++) want[k++] = *p;
    want[k++] = '/';
    k += put_num(want + k, m.thread);
    want[k++] = ']';
    SIM_CHECK(find(s, n, want, k, 0, at), "wrong-field", "%s: message %llu lacks its level and thread: %.*s", where, (ull)id, (int)(n > 200 ? 200 : n), s);
    k = 0;
    for(const char* p = m.file; *p; p++) want[k++] = *p;
    want[k++] = ':';
    k += put_num(want + k, m.line);
    SIM_CHECK(find(s, n, want, k, 0, at), "wrong-field", "%s: message %llu lacks its location: %.*s", where, (ull)id, (int)(n > 200 ? 200 : n), s);
    u64 text, gap = 0;
    if(find(s, n, "<id:", at, text)) {
        while(gap < text && s[text - 1 - gap] == ' ') gap++;
        SIM_CHECK(gap == 1 + 4 * m.depth, "wrong-field", "%s: message %llu stands %llu characters to the right in %llu scopes: %.*s", where, (ull)id, (ull)gap, (ull)m.depth, (int)(n > 200 ? 200 : n), s);
    }
    if(m.told) {
        char c[16];
        clock_of(c, m.told - 1);
        SIM_CHECK(find(s, n, c, 8, 0, at), "wrong-field", "%s: message %llu has another time than the %s callbacks were given: %.*s", where, (ull)id, c, (int)(n > 100 ? 100 : n), s);
    }
    if(m.w1 && m.jumps == 0) {
        bool ok = false;
        for(u64 t = m.w0; t <= m.w1 && t < m.w0 + 40 && !ok; t++) {
            char clock[16];
            clock_of(clock, t);
            ok = find(s, n, clock, 8, 0, at);
        }
        if(m.w1 - m.w0 < 40) SIM_CHECK(ok, "wrong-field", "%s: message %llu lacks the time it was logged: %.*s", where, (ull)id, (int)(n > 100 ? 100 : n), s);
    }
}
// ---- what the sinks hold -------------------------------------------------------------------------------
struct Order {
    u64 ids[MSGS], n;
    const char* line[MSGS]; // of a message, by its number
    u64 len[MSGS];
};
static Order out, file;
static void read_sink(const char* s, u64 n, Order& o, const char* where) {
    o.n = 0;
    u64 at = 0;
    bool seen[MSGS] = {};
    while(at < n) {
        u64 e = at;
        while(e < n && s[e] != '\n') e++;
        SIM_CHECK(e < n, "torn", "%s ends in the middle of a line", where);
        u64 skip;
        if(!find(s + at, e - at, "<id:", 0, skip) && (find(s + at, e - at, "stopping on purpose", 0, skip) || find(s + at, e - at, "[C24 setup]", 0, skip))) {
            at = e + 1;
            continue;
        }
        u64 id = identify(s + at, e - at, where);
        SIM_CHECK(!seen[id], "twice", "%s has message %llu twice", where, (ull)id);
        seen[id] = true;
        check_line(s + at, e - at, id, where);
        o.line[id] = s + at;
        o.len[id] = e - at;
        o.ids[o.n++] = id;
        at = e + 1;
    }
}
static void same_order(const Order& a, const u64* ids, u64 n, const char* what) { // ids is a subsequence of a, or of what both have
    u64 pos[MSGS];
    for(u64 i = 0; i < MSGS; i++) pos[i] = ~0ull;
    for(u64 i = 0; i < a.n; i++) pos[a.ids[i]] = i;
    u64 last = ~0ull;
    for(u64 i = 0; i < n; i++) {
        u64 p = pos[ids[i]];
        if(p == ~0ull) continue;
        if(last != ~0ull && p < last) sim_violation("order", "%s has message %llu after one that comes later elsewhere", what, (ull)ids[i]);
        last = p;
    }
}
static void program_order(const u64* ids, u64 n, const char* what) {
    for(u64 i = 0; i < n; i++)
        for(u64 j = i + 1; j < n; j++)
            if(msgs[ids[j]].returned && msgs[ids[j]].ended < msgs[ids[i]].began) sim_violation("order", "%s has message %llu before message %llu, which was logged before it", what, (ull)ids[i], (ull)ids[j]);
}
static bool contains(const u64* ids, u64 n, u64 id) {
    for(u64 i = 0; i < n; i++)
        if(ids[i] == id) return true;
    return false;
}
static void judge() {
    read_sink(sim_stdout_data(), sim_stdout_size(), out, "standard output");
    bool have_file = sim_logfile_closed() >= 0;
    if(have_file) read_sink(sim_logfile_data(), sim_logfile_size(), file, "the log file");
    else sim_probe("no log file");
    program_order(out.ids, out.n, "standard output");
    same_order(out, file.ids, file.n, "the log file");
    if(have_file) program_order(file.ids, file.n, "the log file");
    for(u64 i = 0; i < file.n; i++) {
        u64 id = file.ids[i];
        if(contains(out.ids, out.n, id)) SIM_CHECK(out.len[id] == file.len[id] && !__builtin_memcmp(out.line[id], file.line[id], out.len[id]), "wrong-field", "message %llu differs between standard output and the log file", (ull)id);
    }
    for(u64 i = 0; i < n_msgs; i++) {
        if(!msgs[i].returned) continue;
        if(!out_fails) SIM_CHECK(contains(out.ids, out.n, i), "lost", "message %llu is not on standard output although logging it returned", (ull)i);
        if(have_file && !file_fails) SIM_CHECK(contains(file.ids, file.n, i), "lost", "message %llu is not in the log file although logging it returned", (ull)i);
    }
    for(u64 k = 0; k < n_subs; k++) {
        Sub& s = subs[k];
        if(!out_fails) same_order(out, s.got, s.n, "a callback");
        else if(have_file && !file_fails) same_order(file, s.got, s.n, "a callback");
        program_order(s.got, s.n, "a callback");
        for(u64 q = 0; q < k; q++)
            for(u64 x = 0; x < s.n; x++)
                for(u64 y = x + 1; y < s.n; y++) {
                    u64 px = ~0ull, py = ~0ull;
                    for(u64 z = 0; z < subs[q].n; z++) {
                        if(subs[q].got[z] == s.got[x]) px = z;
                        if(subs[q].got[z] == s.got[y]) py = z;
                    }
                    SIM_CHECK(px == ~0ull || py == ~0ull || px < py, "order", "two callbacks saw messages %llu and %llu in different orders", (ull)s.got[x], (ull)s.got[y]);
                }
        for(u64 i = 0; i < n_msgs; i++) {
            Msg& m = msgs[i];
            bool has = contains(s.got, s.n, i);
            if(s.ready && !m.nested && m.began > s.ready && m.returned && (!s.ending || m.ended < s.ending)) SIM_CHECK(has, "missed", "a subscribed callback missed message %llu", (ull)i);
            if(has) SIM_CHECK(!m.returned || m.ended > s.called, "too-early", "a callback saw message %llu, logged before it was subscribed", (ull)i);
        }
    }
}
static void heard(u64 k, Log::Level level, rpp::Thread::Id thread, Log::Time time, const Log::Location& loc, String_View text) {
    Sim_Atomic a;
    Sub& s = subs[k];
    const char* p = reinterpret_cast<const char*>(text.data());
    u64 at;
    if(find(p, text.length(), "stopping on purpose", 0, at)) return;
    u64 id = identify(p, text.length(), "a callback");
    SIM_CHECK(!s.ended, "after-unsubscribe", "a callback was called after unsubscribe returned");
    SIM_CHECK(!contains(s.got, s.n, id), "twice", "a callback saw message %llu twice", (ull)id);
    Msg& m = msgs[id];
    SIM_CHECK(static_cast<int>(level) == m.level && thread == m.thread && loc.line == m.line && loc.file == String_View{m.file}, "wrong-field", "a callback got message %llu with level %d, thread %llu, line %llu", (ull)id, (int)level, (ull)thread, (ull)loc.line);
    SIM_CHECK(thread == rpp::Thread::this_id(), "wrong-field", "a callback for message %llu runs on another thread", (ull)id);
    SIM_CHECK(!m.returned, "late", "a callback got message %llu after logging it had returned", (ull)id);
    if(m.jumps == jumps + sim_fault_count(F_WALL_JUMP)) SIM_CHECK(time >= m.w0 && time <= wall_s(), "wrong-field", "a callback got message %llu with time %llu, it is %llu", (ull)id, (ull)time, (ull)wall_s());
    SIM_CHECK(!m.told || m.told == time + 1, "wrong-field", "two callbacks got message %llu with times %llu and %llu", (ull)id, (ull)(m.told - 1), (ull)time);
    m.told = time + 1;
    s.got[s.n++] = id;
}
static u64 text_length() {
    static bool was_long;
    if(!was_long && sim_chance(1, 60)) {
        was_long = true;
        sim_probe("very long message");
        return sim_work(LONGEST);
    }
    switch(sim_work(6)) {
    case 0: return 0;
    case 1: return sim_work(20);
    case 2: return 900 + sim_work(200);
    case 3: return 2000 + sim_work(100);
    case 4: return sim_work(5000);
    default: return sim_work(100);
    }
}
static thread_local u64 depth;
static u64 begin_msg(int level, const char* f, u64 line, u64 len, bool nested = false) {
    Sim_Atomic a;
    if(n_msgs >= MSGS) sim_violation("internal:messages", "scenario ran out of messages");
    u64 id = n_msgs++;
    msgs[id] = {len, id * 1000003 + 7, level, rpp::Thread::this_id(), f, line, wall_s(), 0, jumps + sim_fault_count(F_WALL_JUMP), 0, nested, false, ++tick, 0, depth};
    return id;
}
static void end_msg(u64 id) {
    Sim_Atomic a;
    Msg& m = msgs[id];
    m.ended = ++tick;
    m.returned = true;
    m.w1 = wall_s();
    m.jumps = jumps + sim_fault_count(F_WALL_JUMP) - m.jumps;
    // By now it is at every sink, and not just in a buffer.
    SIM_CHECK(out_fails || sim_stdout_pending() == 0 || sim_threads_alive() > 1, "not-flushed", "message %llu waits in a buffer of standard output", (ull)id);
    for(u64 k = 0; k < n_subs; k++)
        if(!m.nested && subs[k].ready && subs[k].ready < m.began && !subs[k].ending) SIM_CHECK(contains(subs[k].got, subs[k].n, id), "missed", "a subscribed callback missed message %llu", (ull)id);
}
static void in_sink(u64 id, const char* s, u64 n, const char* where) {
    Sim_Atomic a;
    static char want[LONGEST + 100];
    u64 len = compose(want, id, msgs[id].len, msgs[id].seed), at;
    SIM_CHECK(find(s, n, want, len, 0, at), "late", "logging message %llu returned, but it is not %s yet", (ull)id, where);
}
// A value that logs a message of its own while it is formatted.
struct Teller {
    rpp::String_View text;
};
static void log_one();
namespace rpp {
RPP_RECORD(::Teller, RPP_FIELD(text));
namespace Format {
template<>
struct Measure<::Teller> {
    static u64 measure(const ::Teller& t) noexcept {
        return t.text.length();
    }
};
template<Allocator O>
struct Write<O, ::Teller> {
    static u64 write(String<O>& output, u64 idx, const ::Teller& t) noexcept {
        log_one();
        sim_probe("logged while formatting");
        return output.write(idx, t.text);
    }
};
} // namespace Format
} // namespace rpp
static void log_one() {
    u64 len = text_length();
    char* b = static_cast<char*>(Mhidden::alloc(len + 200));
    u64 id;
    switch(sim_work(4)) {
    case 0: { // the macros
        len = len > 100 ? 100 : len;
        u64 line = __LINE__ + 5;
        bool w = sim_chance(1, 2);
        id = begin_msg(w, "C24.cpp", line, len);
        u64 n = compose(b, id, len, msgs[id].seed);
        sim_touch(b, n, 1);
        if(w) warn("%", (String_View{reinterpret_cast<u8*>(b), n})); else info("%", (String_View{reinterpret_cast<u8*>(b), n}));
    } break;
    default: {
        static const char* const files[] = {"a.cpp", "some_longer_file_name.h", "x"};
        int level = static_cast<int>(sim_work(3));
        const char* f = files[sim_work(3)];
        u64 line = sim_work(4) ? 1 + sim_work(5000) : 0;
        id = begin_msg(level, f, line, len);
        u64 n = compose(b, id, len, msgs[id].seed);
        sim_touch(b, n, 1);
        Log::Location loc{"function"_v, String_View{f}, line};
        String_View text{reinterpret_cast<u8*>(b), n};
        if(n_msgs < MSGS / 2 && sim_chance(1, 10)) Log::log(static_cast<Log::Level>(level), loc, "%"_v, Teller{text});
        else Log::log(static_cast<Log::Level>(level), loc, "%"_v, text);
    } break;
    }
    end_msg(id);
    if(!out_fails) in_sink(id, sim_stdout_data(), sim_stdout_size(), "on standard output");
    if(!file_fails && sim_logfile_closed() >= 0) in_sink(id, sim_logfile_data(), sim_logfile_size(), "in the log file");
    Mhidden::free(b);
}
// A static object that is constructed before the library's own, and subscribes already.
struct Early {
    Early() noexcept {
        info("[C24 setup]");
        subs[0].called = subs[0].ready = tick = 1;
        n_subs = 1;
        subs[0].token = Log::subscribe([](Log::Level l, rpp::Thread::Id th, Log::Time ti, Log::Location lo, String_View s) {
            u64 at;
            if(find(reinterpret_cast<const char*>(s.data()), s.length(), "[C24 setup]", 0, at)) return;
            heard(0, l, th, ti, lo, s);
        });
    }
};
static Early early;
static thread_local bool talking; // a callback of this thread logs
static bool log_plain(bool nested) {
    if(n_msgs + 20 >= MSGS) return false;
    char b[300];
    u64 len = sim_work(100);
    u64 id = begin_msg(1, "nested.cpp", 9, len, nested);
    u64 n = compose(b, id, len, msgs[id].seed);
    Log::log(Log::Level::warn, Log::Location{"function"_v, "nested.cpp"_v, 9}, "%"_v, String_View{reinterpret_cast<u8*>(b), n});
    end_msg(id);
    if(nested) sim_probe("logged by a callback");
    return true;
}
static void unsubscribe(u64 k) {
    {
        Sim_Atomic a;
        subs[k].ending = ++tick;
    }
    Log::unsubscribe(subs[k].token);
    Sim_Atomic a;
    subs[k].ended = ++tick;
}
// Hundreds of callbacks that come and go, some of which stay: each of those hears the next message once.
static void crowd() {
    constexpr u64 KEEP = 24;
    static u64 hits[KEEP];
    static u64 gone;
    {
        Sim_Atomic a;
        for(u64 i = 0; i < KEEP; i++) hits[i] = 0;
        gone = 0;
    }
    Log::Token kept[KEEP], n = 0;
    rpp::Thread::Id me = rpp::Thread::this_id();
    u64 total = 260 + sim_work(60), early = 1 + sim_work(KEEP - 2);
    for(u64 i = 0; i < total; i++) {
        if(i < early || (n < KEEP && i + KEEP >= total)) {
            u64 k = n++;
            kept[k] = Log::subscribe([k, me](Log::Level, rpp::Thread::Id th, Log::Time, Log::Location, String_View) {
                Sim_Atomic a;
                if(th == me) hits[k]++;
            });
            Sim_Atomic a;
            for(u64 j = 0; j < k; j++) SIM_CHECK(kept[j] != kept[k], "same-token", "two callbacks that are subscribed have the same token");
        } else {
            Log::Token t = Log::subscribe([me](Log::Level, rpp::Thread::Id th, Log::Time, Log::Location, String_View) {
                Sim_Atomic a;
                if(th == me) gone++;
            });
            Log::unsubscribe(t);
        }
    }
    bool told = log_plain(false);
    {
        Sim_Atomic a;
        for(u64 i = 0; i < n; i++) SIM_CHECK(hits[i] == told, hits[i] ? "twice" : "missed", "callback %llu of %llu heard one message %llu times", (ull)i, (ull)n, (ull)hits[i]);
    }
    for(u64 i = 0; i < n; i++) Log::unsubscribe(kept[i]);
    static_cast<void>(log_plain(false));
    Sim_Atomic a;
    for(u64 i = 0; i < n; i++) SIM_CHECK(hits[i] == told, "after-unsubscribe", "a callback was called after unsubscribe returned");
    SIM_CHECK(!gone, "after-unsubscribe", "a callback was called after unsubscribe returned");
    sim_probe("hundreds of callbacks");
}
static void worker(u64 ops) {
    u64 mine[3];
    u64 n = 0;
    for(u64 i = 0; i < ops; i++) {
        switch(sim_work(9)) {
        case 0:
        case 1:
        case 2: log_one(); break;
        case 3: {
            if(n == 3 || n_subs >= SUBS) break;
            u64 k;
            {
                Sim_Atomic a;
                k = n_subs++;
                subs[k].called = ++tick;
            }
            Log::Token t = Log::subscribe([k, chatty = sim_chance(1, 6) != 0, tok = Tok::fresh()](Log::Level l, rpp::Thread::Id th, Log::Time ti, Log::Location lo, String_View s) {
                tok.check("use");
                heard(k, l, th, ti, lo, s);
                if(chatty && !talking) {
                    talking = true;
                    static_cast<void>(log_plain(true));
                    talking = false;
                }
            });
            Sim_Atomic a;
            subs[k].token = t;
            subs[k].ready = ++tick;
            mine[n++] = k;
        } break;
        case 4:
            if(n) {
                u64 j = sim_work(n);
                unsubscribe(mine[j]);
                mine[j] = mine[--n];
                sim_probe("unsubscribed");
            }
            break;
        case 5: {
            u64 was = n_msgs;
            Log_Indent {
                depth++;
                log_one();
                if(sim_chance(1, 2)) Log_Indent {
                        depth++;
                        log_one();
                        depth--;
                    }
                if(sim_chance(1, 3)) log_one();
                depth--;
            }
            SIM_CHECK(n_msgs > was, "lost", "what stands in a Log_Indent block was not executed");
        } break;
        case 6:
            if(sim_chance(1, 3)) {
                Sim_Atomic a;
                sim_wall_jump(static_cast<i64>(sim_work(7200)) * 1000000000 - 3600000000000ll);
                jumps++;
            }
            break;
        case 7: if(sim_chance(1, 2)) { // each thread has its own text of an error
            int code = sim_chance(1, 2) ? 1 + static_cast<int>(sim_work(40)) : 5000 + static_cast<int>(sim_work(1000));
            char b[256];
            const char* want = strerror_r(code, b, sizeof b);
            errno = code;
            String_View v = Log::sys_error();
            if(sim_chance(1, 2)) dawdle();
            SIM_CHECK(v == String_View{want}, "wrong-error", "the text of error %d is %.*s", code, (int)v.length(), reinterpret_cast<const char*>(v.data()));
            sim_probe("text of an error");
            break;
        } else { // each thread has its own text of a time
            u64 t = wall_s() - sim_work(100000);
            String_View v = Log::sys_time_string(t);
            if(sim_chance(1, 2)) dawdle();
            char c[16], w[16];
            clock_of(c, t);
            SIM_CHECK(v.length() == 10, "wrong-time", "the text of a time is %llu bytes long", (ull)v.length());
            for(u64 k = 0; k < 10; k++) w[k] = static_cast<char>(v[k]);
            SIM_CHECK(w[0] == '[' && w[9] == ']' && !__builtin_memcmp(w + 1, c, 8), "wrong-time", "the text of time %llu (%s) is %.*s", (ull)t, c, 10, w);
        } break;
        default: dawdle(); break;
        }
    }
    while(n) unsubscribe(mine[--n]);
}
void scenario() {
    sim_watch_heap("heap memory");
    sim_steps_limit(150000, 300000);
    sim_fault(F_STALL, sim_chance(1, 6) ? 100 : 0);
    sim_fault(F_WALL_JUMP, sim_chance(1, 6) ? 100 : 0);
    zone = sim_chance(1, 2) ? 900 * (static_cast<i64>(sim_work(105)) - 48) : 0; // -12:00 to +14:00
    sim_time_zone(zone);
    info("[C24 setup]");
    if(sim_chance(1, 2)) {
        Log::unsubscribe(subs[0].token);
        subs[0].ending = subs[0].ended = tick = 2;
    } else sim_probe("subscribed before main");
    warm_up();
    i64 net = sys_net_allocs();
    if(sim_chance(1, 3)) {
        out_fails = sim_chance(1, 2);
        file_fails = !out_fails || sim_chance(1, 4);
        sim_stdio_fail_mask((out_fails ? 2u : 0) | (file_fails ? 8u : 0));
        sim_fault(F_STDIO_FAIL, sim_chance(1, 2) ? 65536 : 16000);
    }
    bool die_at_end = sim_chance(1, 5);
    sim_on_exit([](int how, int code) {
        if(!quit) sim_violation("fatal-error", "the process stopped (%d, %d)", how, code);
        // Everything, and why it stopped, is on record.
        Sim_Atomic a;
        judge();
        u64 at;
        if(!out_fails) SIM_CHECK(find(sim_stdout_data(), sim_stdout_size(), "stopping on purpose", 0, at), "lost", "the fatal message is not on standard output when the process stops");
        if(!file_fails && sim_logfile_closed() >= 0) SIM_CHECK(find(sim_logfile_data(), sim_logfile_size(), "stopping on purpose", 0, at), "lost", "the fatal message is not in the log file when the process stops");
        sim_probe("stopped on purpose");
        sim_pass();
    });
    {
        Vec<T_, Mhidden> ts;
        u64 n = sim_work(4);
        for(u64 i = 0; i < n; i++) ts.push(T_{[ops = 2 + sim_work(10)]() { worker(ops); }});
        worker(2 + sim_work(12));
        if(sim_chance(1, 250)) crowd();
        if(die_at_end && sim_chance(1, 2)) {
            quit = true;
            die("stopping on purpose");
        }
    }
    tokens_all_dead("every callback was unsubscribed");
    SIM_CHECK(sys_net_allocs() == net, "leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
    {
        Sim_Atomic a;
        judge();
    }
    if(die_at_end) {
        quit = true;
        die("stopping on purpose");
    }
    // Static objects may also log while the process exits.
    sim_at_end([]() {
        log_one();
        sim_run_atexit();
        log_one();
        Sim_Atomic a;
        judge();
        sim_probe("logged at exit");
    });
}
