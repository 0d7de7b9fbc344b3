// Drives simulated runs: one child process per run. Search, determinism check, minimisation, replay.
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <functional>

extern "C" const char* scenario_name;
static u64 now_ms() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000ull + t.tv_nsec / 1000000;
}
// Processor time a run has taken: other load on the machine does not make it look stuck.
static u64 cpu_ms(pid_t p) {
    clockid_t c;
    timespec t;
    if(clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return ~0ull;
    return t.tv_sec * 1000ull + t.tv_nsec / 1000000;
}
typedef std::vector<Choice> Stream;
struct Input {
    u64 seed = 0;
    Stream s[S_STREAMS];
    bool fopen_fail = false;
};
struct Result {
    u32 status = 0;
    std::string cls, msg, tags, bt;
    u64 hash = 0, sig = 0, steps = 0, sim_ns = 0;
    bool overflow = false;
};
static u64 real_timeout = 10000;

// The kernel frees the memory of ended processes in the background and can fall behind by gigabytes; wait for it.
static void wait_for_memory() {
    static u64 calls;
    if(calls++ % 64) return;
    for(int i = 0; i < 400; i++) {
        FILE* f = fopen("/proc/meminfo", "r");
        if(!f) return;
        char line[128];
        unsigned long long tot = 0, avail = 0;
        while(fgets(line, sizeof line, f)) {
            sscanf(line, "MemTotal: %llu", &tot);
            if(sscanf(line, "MemAvailable: %llu", &avail) == 1) break;
        }
        fclose(f);
        if(!avail || avail > tot / 2 || avail > (16ull << 20)) return;
        usleep(10000);
    }
}

static Result run_once_(u64 seed, const Input* in, bool tr) {
    memset(sh, 0, offsetof(Shared, probe_name));
    sh->nprobes = 0;
    memset(sh->n, 0, sizeof sh->n);
    sh->unmodelled = 0;
    sh->patience = 0;
    sh->trace_len = 0;
    rc.seed = seed;
    rc.trace = tr;
    rc.replay = in != nullptr;
    for(int i = 0; i < S_STREAMS; i++) rc.in[i] = in ? &in->s[i] : nullptr;
    pid_t self = getpid();
    pid_t p = fork();
    for(int i = 0; p < 0 && i < 200; i++) {
        usleep(20000);
        p = fork();
    }
    if(p < 0) {
        perror("fork");
        exit(3);
    }
    if(p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if(getppid() != self) _exit(0);
        rt_run_child();
    }
    u64 t0 = now_ms();
    int st = 0;
    bool hang = false;
    u64 spins = 0;
    for(;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p) break;
        if(r < 0 && errno != EINTR) break;
        spins++;
        if(spins < 200) {
            usleep(50);
        } else {
            usleep(500);
            u64 most = real_timeout * (1 + sh->patience);
            if(now_ms() - t0 > most && (cpu_ms(p) > most || now_ms() - t0 > most * 12)) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                hang = true;
                break;
            }
        }
    }
    Result r;
    r.status = sh->status;
    if(hang) {
        r.status = ST_VIOLATION;
        r.cls = "hang";
        r.msg = "the run computes for ever without reaching any synchronisation, system call or shared memory access";
    } else if(sh->status == ST_NONE) {
        r.status = ST_INTERNAL;
        r.cls = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "internal:killed" : "internal:child";
        char b[96];
        snprintf(b, sizeof b, "the simulation process ended with status %x", st);
        r.msg = b;
    } else if(sh->status == ST_VIOLATION) {
        r.cls = sh->cls;
        r.msg = sh->msg;
        r.bt = sh->bt;
    }
    r.tags = sh->tags;
    r.hash = sh->hash;
    r.sig = sh->sig;
    r.steps = sh->steps;
    r.sim_ns = sh->now_ns;
    r.overflow = sh->overflow;
    return r;
}
static Result run_once(u64 seed, const Input* in, bool tr) {
    wait_for_memory();
    Result r = run_once_(seed, in, tr);
    // Somebody else ended the process (memory): not an answer, try again.
    for(int i = 0; i < 4 && r.cls == "internal:killed"; i++) {
        usleep(200000);
        r = run_once_(seed, in, tr);
    }
    return r;
}
static Input capture(u64 seed) {
    Input in;
    in.seed = seed;
    for(int i = 0; i < S_STREAMS; i++) in.s[i].assign(sh->c[i], sh->c[i] + sh->n[i]);
    return in;
}
static u64 total(const Input& in) {
    u64 n = 0;
    for(auto& s : in.s) n += s.size();
    return n;
}
// Keeps the run failing the same way with fewer and smaller choices.
static Input minimise(Input in, const Result& want, u64 budget_ms, u64& tries) {
    u64 end = now_ms() + budget_ms;
    auto same = [&](const Input& c) {
        tries++;
        Result r = run_once(c.seed, &c, false);
        return r.status == want.status && r.cls == want.cls && r.tags == want.tags && !r.overflow;
    };
    // What was recorded while replaying is canonical: choices never consumed disappear.
    auto canon = [&](Input& c) {
        Input d = capture(c.seed);
        if(total(d) <= total(c)) c = d;
    };
    if(!same(in)) return in;
    canon(in);
    bool progress = true;
    while(progress && now_ms() < end) {
        progress = false;
        static const int order[S_STREAMS] = {S_MEM, S_SCHED, S_FAULT, S_WORK};
        for(int k = 0; k < S_STREAMS; k++) {
            int st = order[k];
            u64 chunk = in.s[st].size();
            while(chunk >= 1 && now_ms() < end) {
                for(u64 at = 0; at < in.s[st].size() && now_ms() < end;) {
                    Input c = in;
                    u64 e = std::min<u64>(at + chunk, c.s[st].size());
                    c.s[st].erase(c.s[st].begin() + at, c.s[st].begin() + e);
                    if(same(c)) {
                        canon(c);
                        in = c;
                        progress = true;
                    } else
                        at += chunk;
                }
                chunk /= 2;
            }
            for(u64 at = 0; at < in.s[st].size() && now_ms() < end; at++) {
                u64 was = in.s[st][at].val;
                for(u64 v : {u64(1), was / 2, was - was / 8 - 1, was <= 64 ? was - 1 : 0}) {
                    if(at >= in.s[st].size() || v == 0 || v >= in.s[st][at].val) continue;
                    Input c = in;
                    c.s[st][at].val = v;
                    if(same(c)) {
                        canon(c);
                        in = c;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    return in;
}
static void write_replay(const char* path, const Input& in, const Result& r, u64 orig, u64 tries) {
    FILE* f = fopen(path, "w");
    if(!f) {
        perror(path);
        exit(3);
    }
    fprintf(f, "rpp-simulation-replay 1\nscenario %s\nseed %llu\nclass %s\nhash %016llx\ntags %s\nmessage %s\n", scenario_name, (unsigned long long)in.seed, r.cls.c_str(), (unsigned long long)r.hash, r.tags.c_str(), r.msg.c_str());
    if(getenv("SIM_FOPEN_FAIL")) fprintf(f, "env SIM_FOPEN_FAIL\n");
    fprintf(f, "minimised %llu choices to %llu in %llu runs\n", (unsigned long long)orig, (unsigned long long)total(in), (unsigned long long)tries);
    for(int i = 0; i < S_STREAMS; i++) {
        fprintf(f, "%s", stream_names[i]);
        for(auto& c : in.s[i]) fprintf(f, " %llu:%llu", (unsigned long long)c.idx, (unsigned long long)c.val);
        fprintf(f, "\n");
    }
    fprintf(f, "backtrace %s\n--- trace of the minimised run ---\n", r.bt.c_str());
    // Long traces: only the end matters.
    u64 keep = 400000, b = sh->trace_len > keep ? sh->trace_len - keep : 0;
    fwrite(sh->trace + b, 1, sh->trace_len - b, f);
    fclose(f);
}
static bool read_replay(const char* path, Input& in, std::string& cls, std::string& hash) {
    FILE* f = fopen(path, "r");
    if(!f) return false;
    std::string text;
    char buf[65536];
    size_t n;
    while((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
    fclose(f);
    size_t at = 0;
    while(at < text.size()) {
        size_t e = text.find('\n', at);
        if(e == std::string::npos) e = text.size();
        std::string l = text.substr(at, e - at);
        at = e + 1;
        if(l.rfind("---", 0) == 0) break;
        if(l == "env SIM_FOPEN_FAIL") in.fopen_fail = true;
        if(l.rfind("seed ", 0) == 0) in.seed = strtoull(l.c_str() + 5, nullptr, 10);
        if(l.rfind("class ", 0) == 0) cls = l.substr(6);
        if(l.rfind("hash ", 0) == 0) hash = l.substr(5);
        for(int i = 0; i < S_STREAMS; i++) {
            std::string k = std::string(stream_names[i]) + " ";
            if(l.rfind(k, 0) != 0) continue;
            const char* p = l.c_str() + k.size();
            while(*p) {
                char* q;
                Choice c;
                c.idx = strtoull(p, &q, 10);
                if(*q != ':') break;
                c.val = strtoull(q + 1, &q, 10);
                in.s[i].push_back(c);
                p = *q == ' ' ? q + 1 : q;
            }
        }
    }
    return true;
}
static void jstr(FILE* f, const std::string& s) {
    fputc('"', f);
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static const char* arg(int argc, char** argv, const char* k, const char* d) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], k)) return argv[i + 1];
    return d;
}
struct Found {
    Result r;
    u64 index, seed, count;
    std::string replay;
    u64 orig, mini, tries;
    bool known, reproduced;
};
int main(int argc, char** argv) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); // a killed search leaves nothing running
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(sh == MAP_FAILED) return 3;
    if(const char* t = arg(argc, argv, "--timeout", nullptr)) real_timeout = strtoull(t, nullptr, 10);
    if(const char* rp = arg(argc, argv, "--replay", nullptr)) {
        Input in;
        std::string cls, hash;
        if(!read_replay(rp, in, cls, hash)) {
            fprintf(stderr, "cannot read %s\n", rp);
            return 3;
        }
        if(in.fopen_fail && !getenv("SIM_FOPEN_FAIL")) { // the log file is opened before main
            setenv("SIM_FOPEN_FAIL", "1", 1);
            execv("/proc/self/exe", argv);
            return 3;
        }
        Result r = run_once(in.seed, &in, true);
        printf("class %s\nhash %016llx\nmessage %s\nbacktrace %s\n", r.status == ST_OK ? "none" : r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str(), r.bt.c_str());
        if(const char* o = arg(argc, argv, "--trace", nullptr)) {
            FILE* f = fopen(o, "w");
            fwrite(sh->trace, 1, sh->trace_len, f);
            fclose(f);
        }
        char h[32];
        snprintf(h, sizeof h, "%016llx", (unsigned long long)r.hash);
        if(r.status == ST_OK) return 0;
        return r.cls == cls ? (hash == h ? 1 : 4) : 5;
    }
    u64 seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    u64 first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
    u64 stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
    u64 count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    u64 limit = strtoull(arg(argc, argv, "--limit-ms", "600000"), nullptr, 10);
    u64 every = strtoull(arg(argc, argv, "--twice", "50"), nullptr, 10);
    u64 budget = strtoull(arg(argc, argv, "--minimise-ms", "20000"), nullptr, 10);
    bool keep_going = atoi(arg(argc, argv, "--keep-going", "0"));
    const char* out = arg(argc, argv, "--out", nullptr);
    const char* prefix = arg(argc, argv, "--replay-prefix", "/tmp/replay");
    std::vector<std::string> known;
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], "--known")) known.push_back(argv[i + 1]);
    if(const char* one = arg(argc, argv, "--trace-run", nullptr)) {
        u64 s = mix64(mix64(seed) + strtoull(one, nullptr, 10) * 0x9e3779b97f4a7c15ull);
        Result r = run_once(s, nullptr, true);
        fwrite(sh->trace, 1, sh->trace_len, stdout);
        printf("status %u class %s msg %s tags %s steps %llu\n", r.status, r.cls.c_str(), r.msg.c_str(), r.tags.c_str(), (unsigned long long)r.steps);
        return 0;
    }
    u64 t0 = now_ms(), runs = 0, steps = 0, simns = 0, twice = 0, mismatch = 0, overflow = 0, mem = 0, sw = 0, pre = 0, unmod = 0, maxsteps = 0, threads = 0, internal = 0;
    u64 fired[F_COUNT] = {}, opp[F_COUNT] = {}, runs_with[F_COUNT] = {};
    std::map<std::string, u64> probes, probe_runs;
    std::vector<u64> sigs;
    std::vector<Found> found;
    std::string mismatch_msg;
    bool stop = false, timed = false;
    for(u64 k = 0; k < count && !stop; k++) {
        if(now_ms() - t0 > limit) {
            timed = true;
            break;
        }
        u64 idx = first + k * stride;
        u64 s = mix64(mix64(seed) + idx * 0x9e3779b97f4a7c15ull);
        Result r = run_once(s, nullptr, false);
        runs++;
        steps += r.steps;
        maxsteps = std::max(maxsteps, r.steps);
        simns += r.sim_ns > 1000000000000ull ? r.sim_ns - 1000000000000ull : 0;
        mem += sh->mem_accesses;
        sw += sh->switches;
        pre += sh->preemptions;
        threads += sh->threads;
        unmod += sh->unmodelled;
        overflow += r.overflow;
        for(int i = 0; i < F_COUNT; i++) {
            fired[i] += sh->fault_fired[i];
            opp[i] += sh->fault_opp[i];
            runs_with[i] += sh->fault_fired[i] != 0;
        }
        for(u64 i = 0; i < sh->nprobes; i++) {
            probes[sh->probe_name[i]] += sh->probe_count[i];
            probe_runs[sh->probe_name[i]]++;
        }
        sigs.push_back(r.sig);
        Input in;
        bool bad = r.status != ST_OK;
        if(bad) in = capture(s);
        if(r.status == ST_INTERNAL || r.cls.rfind("internal:", 0) == 0) {
            internal++;
            mismatch_msg += "[" + r.cls + " " + r.msg + " run " + std::to_string(idx) + "]";
            if(internal > 3) stop = true;
            continue;
        }
        if(every && (k % every == 0 || bad) && r.cls != "hang") {
            Result q = run_once(s, nullptr, false);
            twice++;
            if(q.hash != r.hash || q.status != r.status || q.cls != r.cls) {
                mismatch++;
                mismatch_msg += "[run " + std::to_string(idx) + ": " + r.cls + " / " + q.cls + "]";
                if(mismatch > 3) stop = true;
                if(bad && q.status != r.status) continue;
            }
        }
        if(!bad) continue;
        bool is_known = false;
        for(auto& kk : known) {
            size_t bar = kk.find('|');
            std::string c = kk.substr(0, bar), t = bar == std::string::npos ? "" : kk.substr(bar + 1);
            if(c == r.cls && (t.empty() || r.tags.find("," + t + ",") != std::string::npos)) is_known = true;
        }
        bool dup = false;
        for(auto& f : found)
            if(f.r.cls == r.cls && f.r.tags == r.tags) {
                f.count++;
                dup = true;
            }
        if(dup) continue;
        Found f;
        f.r = r;
        f.index = idx;
        f.seed = s;
        f.count = 1;
        f.known = is_known;
        f.orig = total(in);
        f.tries = 0;
        if(r.cls == "hang") real_timeout = std::min<u64>(real_timeout, 4000);
        Input m = minimise(in, r, is_known ? budget / 8 : budget, f.tries);
        f.mini = total(m);
        char path[512];
        snprintf(path, sizeof path, "%s-%llu.replay", prefix, (unsigned long long)idx);
        Result q = run_once(m.seed, &m, true);
        f.reproduced = q.cls == r.cls;
        f.r.msg = q.msg.empty() ? r.msg : q.msg;
        Result w = q;
        write_replay(path, m, w, f.orig, f.tries);
        f.replay = path;
        found.push_back(f);
        if(!is_known && !keep_going) stop = true;
    }
    if(!out) {
        printf("runs %llu in %.1fs, %.0f/s, steps/run %.0f (max %llu), mem/run %.0f, switches/run %.1f, preempt/run %.1f, twice %llu mismatch %llu overflow %llu internal %llu unmod %llu %s\n", (unsigned long long)runs, (now_ms() - t0) / 1000.0, runs * 1000.0 / (now_ms() - t0 + 1), runs ? (double)steps / runs : 0,
               (unsigned long long)maxsteps, runs ? (double)mem / runs : 0, runs ? (double)sw / runs : 0, runs ? (double)pre / runs : 0, (unsigned long long)twice, (unsigned long long)mismatch, (unsigned long long)overflow, (unsigned long long)internal, (unsigned long long)unmod, mismatch_msg.c_str());
        std::sort(sigs.begin(), sigs.end());
        printf("distinct %zu\n", (size_t)(std::unique(sigs.begin(), sigs.end()) - sigs.begin()));
        for(int i = 0; i < F_COUNT; i++)
            if(fired[i]) printf("  fault %-20s %llu of %llu\n", fault_names[i], (unsigned long long)fired[i], (unsigned long long)opp[i]);
        for(auto& p : probes) printf("  probe %-30s %llu in %llu runs\n", p.first.c_str(), (unsigned long long)p.second, (unsigned long long)probe_runs[p.first]);
        for(auto& f : found) printf("%s %s (x%llu) run %llu tags %s: %s\n   %s (%llu -> %llu choices, %llu tries, reproduced %d)\n", f.known ? "KNOWN" : "VIOLATION", f.r.cls.c_str(), (unsigned long long)f.count, (unsigned long long)f.index, f.r.tags.c_str(), f.r.msg.c_str(), f.replay.c_str(), (unsigned long long)f.orig, (unsigned long long)f.mini, (unsigned long long)f.tries, f.reproduced);
        return found.empty() ? 0 : 1;
    }
    std::string sp_ = std::string(out) + ".sigs";
    FILE* f = fopen(sp_.c_str(), "w");
    fwrite(sigs.data(), 8, sigs.size(), f);
    fclose(f);
    std::string tmp_ = std::string(out) + ".part"; // whoever finds the file finds all of it
    f = fopen(tmp_.c_str(), "w");
    fprintf(f, "{\"scenario\":\"%s\",\"runs\":%llu,\"elapsed_ms\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"sim_ns\":%llu,\"mem\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"threads\":%llu,\"unmodelled\":%llu,\"overflow\":%llu,\"twice\":%llu,\"mismatch\":%llu,\"internal\":%llu,\"timed_out\":%s,\"note\":",
            scenario_name, (unsigned long long)runs, (unsigned long long)(now_ms() - t0), (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)simns, (unsigned long long)mem, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)threads, (unsigned long long)unmod,
            (unsigned long long)overflow, (unsigned long long)twice, (unsigned long long)mismatch, (unsigned long long)internal, timed ? "true" : "false");
    jstr(f, mismatch_msg);
    fprintf(f, ",\"faults\":{");
    bool sep = false;
    for(int i = 0; i < F_COUNT; i++)
        if(opp[i] || fired[i]) {
            fprintf(f, "%s\"%s\":{\"fired\":%llu,\"opportunities\":%llu,\"runs\":%llu}", sep ? "," : "", fault_names[i], (unsigned long long)fired[i], (unsigned long long)opp[i], (unsigned long long)runs_with[i]);
            sep = true;
        }
    fprintf(f, "},\"probes\":{");
    sep = false;
    for(auto& p : probes) {
        fprintf(f, "%s", sep ? "," : "");
        jstr(f, p.first);
        fprintf(f, ":{\"count\":%llu,\"runs\":%llu}", (unsigned long long)p.second, (unsigned long long)probe_runs[p.first]);
        sep = true;
    }
    fprintf(f, "},\"found\":[");
    sep = false;
    for(auto& v : found) {
        fprintf(f, "%s{\"class\":", sep ? "," : "");
        jstr(f, v.r.cls);
        fprintf(f, ",\"message\":");
        jstr(f, v.r.msg);
        fprintf(f, ",\"tags\":");
        jstr(f, v.r.tags);
        fprintf(f, ",\"replay\":");
        jstr(f, v.replay);
        fprintf(f, ",\"index\":%llu,\"seed\":%llu,\"count\":%llu,\"known\":%s,\"reproduced\":%s,\"choices\":%llu,\"minimised\":%llu,\"tries\":%llu}", (unsigned long long)v.index, (unsigned long long)v.seed, (unsigned long long)v.count, v.known ? "true" : "false", v.reproduced ? "true" : "false",
                (unsigned long long)v.orig, (unsigned long long)v.mini, (unsigned long long)v.tries);
        sep = true;
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename(tmp_.c_str(), out);
    return found.empty() ? 0 : 1;
}
