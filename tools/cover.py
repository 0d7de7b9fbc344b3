#!/usr/bin/env python3
"""Which lines of the library no scenario reaches: python3 tools/cover.py [--runs N] [ID...]

Builds the simulators once more with block coverage, in a directory of its own, runs them, and prints every source line
under rpp/ that was compiled into some scenario and executed in none. A help for writing scenarios; decides nothing."""
import collections, glob, os, re, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
ids = [a for a in sys.argv[1:] if a.startswith("C")] or ["C%02d" % i for i in range(1, 28)]
runs = int(sys.argv[sys.argv.index("--runs") + 1]) if "--runs" in sys.argv else 8000
check.BUILD = "/tmp/rpp-cover"
os.makedirs(check.BUILD, exist_ok=True)
src = os.path.join(check.BUILD, "cov.cpp")
open(src, "w").write(r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
static uint8_t* hit;
static const uintptr_t *pcs, *pcs_end;
static struct { const uintptr_t *b, *e; uint32_t first; } tabs[16];
static int n_tabs;
static uint32_t total;
static pid_t first;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) {
    if(b == e || *b) return;
    if(!hit) hit = (uint8_t*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0), first = getpid();
    tabs[n_tabs].first = total + 1;
    for(; b < e; b++) *b = ++total;
}
void __sanitizer_cov_pcs_init(const uintptr_t* b, const uintptr_t* e) {
    tabs[n_tabs].b = b, tabs[n_tabs].e = e;
    n_tabs++;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if(hit) hit[*g] = 1;
}
}
struct Out {
    ~Out() {
        if(getpid() != first) return;
        char p[300];
        snprintf(p, sizeof p, "%s.%d", getenv("COV_OUT"), (int)getpid());
        FILE* f = fopen(p, "w");
        for(int t = 0; t < n_tabs; t++)
            for(const uintptr_t* q = tabs[t].b; q < tabs[t].e; q += 2) fprintf(f, "%lx %d\n", *q, hit[tabs[t].first + (q - tabs[t].b) / 2]);
        fclose(f);
    }
} out;
''')
cov = os.path.join(check.BUILD, "cov.o")
subprocess.run([check.CXX, "-O1", "-fno-pie", "-c", src, "-o", cov], check=True)
check.INSTR += ["-fsanitize-coverage=trace-pc-guard,pc-table"]
plain_start = check.start
check.start = lambda cmd: plain_start(cmd + [cov] if "-c" not in cmd else cmd)
bins, d2 = check.build(ids)
lines = collections.defaultdict(int)  # (file, line) -> 1 if executed
for p in ids:
    t = tempfile.mkdtemp(prefix="cov-")
    procs = []
    for w in range(8):
        procs.append(subprocess.Popen([bins[p], "--seed", "1", "--first", str(w), "--stride", "8", "--count", str(runs // 8), "--keep-going", "1"],
                                      cwd=t, env=dict(os.environ, COV_OUT=t + "/cov"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for q in procs: q.wait()
    hits = {}
    for f in glob.glob(t + "/cov.*"):
        for l in open(f):
            a, h = l.split()
            hits[a] = hits.get(a, 0) | int(h)
    shutil.rmtree(t)
    if not hits: print(p, "no coverage"); continue
    out = subprocess.run(["llvm-symbolizer-18", "--functions=none", "--output-style=LLVM", "-e", bins[p]], input="\n".join("0x" + a for a in hits), capture_output=True, text=True).stdout
    locs = [g.strip().split("\n")[0] for g in out.strip().split("\n\n")]
    for (a, h), loc in zip(hits.items(), locs):
        m = re.match(r"(.*):(\d+):(\d+)$", loc)
        if m and "/rpp/" in m.group(1) and check.REPO in m.group(1):
            k = (os.path.relpath(m.group(1), check.REPO), int(m.group(2)))
            lines[k] |= h
    print(p, sum(hits.values()), "of", len(hits), "blocks", file=sys.stderr)
text = {}
last = None
for (f, n), h in sorted(lines.items()):
    if h: continue
    if f not in text: text[f] = open(os.path.join(check.REPO, f)).read().split("\n")
    if f != last: print("\n" + f)
    last = f
    print("%5d %s" % (n, text[f][n - 1].strip()[:110]))
