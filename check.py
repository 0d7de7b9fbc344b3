#!/usr/bin/env python3
"""Deterministic-simulation check of one property of TheNumbat/rpp.

  check.py ID [--tier quick|thorough] [--runs N] [--workers N]
  check.py ID --replay FILE      replays a recorded violation exactly
  check.py --build ID...         builds only

Exit 0: the property held on everything explored. 1: violation (a VIOLATION line was printed).
2: the machinery could not give an answer (build failure, nondeterminism, replay mismatch).
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RPP_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BUILD = os.environ.get("RPP_BUILD") or os.path.join(HERE, "build")
INSTR = ["-std=c++20", "-O1", "-g1", "-fno-exceptions", "-fno-rtti", "-fno-builtin", "-fno-pie", "-w",
         "-fno-omit-frame-pointer", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
         "-DRPP_RELWITHDEBINFO_BUILD"]
PLAIN = ["-std=c++20", "-O2", "-g1", "-fno-exceptions", "-fno-rtti", "-fno-pie", "-fno-omit-frame-pointer", "-w"]

# runs: (quick, thorough). cap: wall-clock seconds after which a check stops early and says so.
DEFAULT = dict(runs=(40000, 3000000), cap=(240, 780), timeout_ms=10000)
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import CONFIG  # noqa: E402


def cfg(pid):
    c = dict(DEFAULT)
    c.update(CONFIG.get(pid, {}))
    return c


def files_under(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, _, fs in sorted(os.walk(r)):
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".hpp", ".inc", ".c", ".cc", ".txt", ".natvis")) or "std" in d:
                    out.append(os.path.join(d, f))
    return out


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


class Fail(Exception):
    pass


def start(cmd):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd


def finish(job):
    p, cmd = job
    out, _ = p.communicate()
    if p.returncode:
        raise Fail("command failed: " + " ".join(cmd) + "\n" + out[-6000:])
    return out


def atomic_dir(path):
    os.makedirs(path, exist_ok=True)
    return path


def build(pids):
    """Builds the simulators of the given properties from REPO's working tree; returns {pid: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        simsrc = sorted(glob.glob(os.path.join(HERE, "sim", "*")))
        simkey = digest(simsrc, PLAIN, CXX)
        repokey = digest(files_under(os.path.join(REPO, "rpp")), INSTR, CXX, REPO)
        d1 = atomic_dir(os.path.join(BUILD, "sim-" + simkey))
        d2 = atomic_dir(os.path.join(BUILD, "rpp-" + simkey[:6] + repokey))
        for d in glob.glob(os.path.join(BUILD, "*-*")):
            if d not in (d1, d2) and time.time() - os.path.getmtime(d) > 900:
                shutil.rmtree(d, ignore_errors=True)
        os.utime(d1), os.utime(d2)
        jobs = []
        simobjs = {}
        for n in ("rt", "libc", "runner"):
            o = os.path.join(d1, n + ".o")
            simobjs[n] = o
            if not os.path.exists(o):
                jobs.append((start([CXX, *PLAIN, "-I" + os.path.join(HERE, "sim"), "-c", os.path.join(HERE, "sim", n + ".cpp"), "-o", o + ".tmp"]), o))
        raw = {}
        for n, src in (("impl", "rpp/impl/unify.cpp"), ("pos", "rpp/pos/unify.cpp")):
            o = os.path.join(d2, n + ".raw.o")
            raw[n] = o
            if not os.path.exists(o):
                jobs.append((start([CXX, *INSTR, "-I" + REPO, "-c", os.path.join(REPO, src), "-o", o + ".tmp"]), o))
        scn = {}
        for p in pids:
            src = os.path.join(HERE, "scn", p + ".cpp")
            key = digest([src] + sorted(glob.glob(os.path.join(HERE, "scn", "*.h"))))
            o = os.path.join(d2, p + "-" + key + ".raw.o")
            scn[p] = o
            if not os.path.exists(o):
                jobs.append((start([CXX, *INSTR, "-I" + REPO, "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "scn"), '-DSCENARIO="%s"' % p, "-c", src, "-o", o + ".tmp"]), o))
        err = None
        for j, o in jobs:
            try:
                finish(j)
                os.rename(o + ".tmp", o)
            except Fail as e:
                err = e
        if err:
            raise err
        syms = subprocess.run(["nm", "--defined-only", simobjs["rt"], simobjs["libc"]], capture_output=True, text=True, check=True).stdout
        names = sorted(set(re.findall(r"\bsimc_(\S+)", syms)))
        mapf = os.path.join(d1, "redefine.map")
        if not os.path.exists(mapf):
            with open(mapf + ".tmp", "w") as f:
                for n in names:
                    f.write("%s simc_%s\n" % (n, n))
            os.rename(mapf + ".tmp", mapf)
        bins = {}
        for p in pids:
            b = scn[p].replace(".raw.o", ".bin")
            bins[p] = b
            if os.path.exists(b):
                continue
            objs = []
            for r in (raw["impl"], raw["pos"], scn[p]):
                o = r.replace(".raw.o", ".o")
                if not os.path.exists(o):
                    subprocess.run(["objcopy", "--redefine-syms=" + mapf, r, o + ".tmp"], check=True)
                    os.rename(o + ".tmp", o)
                objs.append(o)
            finish(start([CXX, "-no-pie", "-o", b + ".tmp", *objs, simobjs["rt"], simobjs["libc"], simobjs["runner"], "-lpthread", "-lm"]))
            os.rename(b + ".tmp", b)
        return bins, d2


# Symbols the library may take from the host: pure functions and compiler support.
HOST_OK = re.compile(r"^(_Z|__cxa_|__dso_handle|__gxx|_Unwind|__tsan_|sim|_GLOBAL_|__clang|(sin|cos|tan|asin|acos|atan|atan2|exp|log|log2|log10|pow|sqrt|fmod|floor|ceil|round|roundf|fabs|nextafter|nearbyint|trunc|cbrt|hypot|fma|fmin|fmax|ldexp|frexp|modf|sinh|cosh|tanh|exp2|copysign|lround|llround|rint|lrint)(f|l)?$|__errno_location$|strerror|gmtime|inet_|htons|ntohs|htonl|ntohl|strftime|qsort|bsearch|abs$|sscanf|strto|ato|scenario|__stack_chk|backtrace|mktime|__isoc|strchr|strrchr|strstr|strcmp|strncmp|strcpy|strncpy|memchr|gai_strerror|getaddrinfo|freeaddrinfo|strcasecmp|strnlen|strspn|strcspn|strpbrk|memrchr|memmem|stpcpy|strcat|strncat|to(upper|lower)$|is(alpha|digit|alnum|space|xdigit|upper|lower|print)$|__ctype_|__sched_cpu|__assert_fail|__printf_chk|__CPU|cpuid|llabs|labs|pthread_attr_|sched_get_priority)")


def host_symbols(d2):
    out = subprocess.run("nm -u %s/impl.o %s/pos.o" % (d2, d2), shell=True, capture_output=True, text=True).stdout
    return sorted({l.split()[-1] for l in out.splitlines() if l.strip().startswith(("U ", "w "))} - {"W"})


def known_findings(pid):
    """Lines: known: property=ID class=CLASS tag=TAG :: what fails"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) tag=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append(dict(cls=m.group(2), tag=m.group(3), what=m.group(4)))
    return res


def symbolize(binary, bt):
    addrs = [a for a in bt.split() if a.startswith("0x") and len(a) < 12]
    if not addrs:
        return []
    try:
        out = subprocess.run(["addr2line", "-Cfpi", "-e", binary, *addrs], capture_output=True, text=True, timeout=60).stdout
        return [l for l in out.splitlines() if "/sim/" not in l and "??" not in l][:14]
    except Exception:
        return []


def replay(binary, path, trace=None):
    cmd = [binary, "--replay", path] + (["--trace", trace] if trace else [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    d = dict(l.split(" ", 1) for l in r.stdout.splitlines() if " " in l)
    return r.returncode, d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--probes", action="store_true", help="print reach counters and fault counts")
    a = ap.parse_args()
    try:
        bins, d2 = build(a.id)
    except (Fail, subprocess.CalledProcessError) as e:
        print("cannot build the simulator from %s:\n%s" % (REPO, e))
        return 2
    if a.build:
        print("\n".join(bins.values()))
        return 0
    rc = 0
    for pid in a.id:
        r = check(pid, bins[pid], d2, a)
        rc = max(rc, r) if r != 1 and rc != 1 else 1
    return rc


def check(pid, binary, d2, a):
    c = cfg(pid)
    if a.replay:
        code, d = replay(binary, a.replay)
        for k, v in d.items():
            if k != "backtrace":
                print(k + ": " + v)
        for l in symbolize(binary, d.get("backtrace", "")):
            print("  at " + l)
        if code == 0:
            print("the recorded execution does not violate the property on this tree")
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1
    ti = 0 if a.tier == "quick" else 1
    runs = a.runs or c["runs"][ti]
    cpus = sorted(os.sched_getaffinity(0))
    workers = a.workers or min(8, len(cpus))
    known = known_findings(pid)
    rdir = atomic_dir(os.path.join(HERE, "replays"))
    tag = "%s-%d" % (pid, os.getpid())
    tmp = atomic_dir(os.path.join(BUILD, "run-" + tag))
    t0 = time.time()
    procs = []
    for w in range(workers):
        n = runs // workers + (1 if w < runs % workers else 0)
        cmd = [binary, "--seed", str(a.seed), "--first", str(w), "--stride", str(workers), "--count", str(n),
               "--limit-ms", str(c["cap"][ti] * 1000), "--timeout", str(c["timeout_ms"]), "--twice", "40",
               "--minimise-ms", str(25000 if ti == 0 else 90000),
               "--out", os.path.join(tmp, "w%d.json" % w), "--replay-prefix", os.path.join(rdir, pid)]
        for k in known:
            cmd += ["--known", k["cls"] + "|" + k["tag"]]
        cpu = cpus[w % len(cpus)]
        env = dict(os.environ)
        if c.get("log_file_fails") and w % 3 == 2:
            env["SIM_FOPEN_FAIL"] = "1"  # this worker's processes start without a log file
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, preexec_fn=lambda cpu=cpu: os.sched_setaffinity(0, {cpu})))
    # The first worker that stops on a violation ends the search; the others get a moment.
    deadline = None
    while any(p.poll() is None for p in procs):
        if deadline is None:
            for w, p in enumerate(procs):
                f = os.path.join(tmp, "w%d.json" % w)
                if p.poll() == 1 and os.path.exists(f):
                    try:
                        if any(not v["known"] for v in json.load(open(f))["found"]):
                            deadline = time.time() + 1
                    except ValueError:
                        pass
        elif time.time() > deadline:
            for p in procs:
                if p.poll() is None:
                    p.kill()
        time.sleep(0.05)
    res, sigs = [], set()
    for w in range(workers):
        f = os.path.join(tmp, "w%d.json" % w)
        if os.path.exists(f):
            res.append(json.load(open(f)))
            b = open(f + ".sigs", "rb").read()
            sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
    wall = time.time() - t0
    shutil.rmtree(tmp, ignore_errors=True)
    crashed = [p.returncode for p in procs if p.returncode not in (0, 1, -9)]
    found = [v for r in res for v in r["found"]]
    tot = lambda k: sum(r[k] for r in res)
    faults, probes = {}, {}
    for r in res:
        for k, v in r["faults"].items():
            x = faults.setdefault(k, dict(fired=0, opportunities=0, runs=0))
            for j in v:
                x[j] += v[j]
        for k, v in r["probes"].items():
            x = probes.setdefault(k, dict(count=0, runs=0))
            for j in v:
                x[j] += v[j]
    rcode, problems = 0, []
    if crashed or not res:
        problems.append("a simulation worker died: %s" % crashed)
    if tot("mismatch"):
        problems.append("the same seed gave two different executions: " + " ".join(r["note"] for r in res))
    if tot("internal"):
        problems.append("simulator error: " + " ".join(r["note"] for r in res))
    real = []
    kf_seen = {}
    for v in found:
        if v["known"]:
            for i, k in enumerate(known):
                if k["cls"] == v["class"] and "," + k["tag"] + "," in v["tags"]:
                    kf_seen[i] = kf_seen.get(i, 0) + v["count"]
        else:
            real.append(v)
    real.sort(key=lambda v: v["index"])
    reported = []
    for v in real[:2]:
        code, d = replay(binary, v["replay"])  # fresh process
        if code == 1:
            reported.append(v)
            print("property %s violated in run %d (seed %d): %s" % (pid, v["index"], a.seed, v["class"]))
            print("  " + v["message"])
            for l in symbolize(binary, d.get("backtrace", "")):
                print("    at " + l)
            print("  minimised from %d to %d choices in %d runs" % (v["choices"], v["minimised"], v["tries"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        else:
            problems.append("violation '%s' (%s) did not replay exactly (%d)" % (v["class"], v["message"], code))
    if reported:
        rcode = 1
    elif problems:
        rcode = 2
    for i, k in enumerate(known):
        print("KNOWN-FINDING: property=%s %s (seen in %d of %d runs)" % (pid, k["what"], kf_seen.get(i, 0), tot("runs")))
    for p in problems:
        print("PROBLEM: " + p)
    n = tot("runs")
    missing = [p for p in c.get("probes", []) if not probes.get(p)]
    host = [s for s in host_symbols(d2) if not HOST_OK.match(s)]
    if not a.no_evidence and not a.runs:
        write_evidence(pid, a, c, dict(runs=n, wall=wall, workers=workers, sigs=len(sigs), res=res, tot=tot, faults=faults, probes=probes,
                                       missing=missing, host=host, found=found, reported=reported, problems=problems, rcode=rcode, known=known, kf=kf_seen))
    print("%s %s: %d runs in %.1f s (%d workers, %.0f runs/hour), %d distinct interleavings, %.1f s simulated, %d faults injected%s%s%s" % (
        pid, a.tier, n, wall, workers, n * 3600 / max(wall, .001), len(sigs), tot("sim_ns") / 1e9, sum(f["fired"] for f in faults.values()),
        "; stopped early by the time cap" if any(r["timed_out"] for r in res) else "",
        "; NOT REACHED: " + ",".join(missing) if missing else "", "; unmodelled host symbols: " + ",".join(host) if host else ""))
    if a.probes:
        for k, v in sorted(probes.items()):
            print("   probe %-40s %8d in %d runs" % (k, v["count"], v["runs"]))
        for k, v in sorted(faults.items()):
            if v["opportunities"]:
                print("   fault %-40s %8d of %d" % (k, v["fired"], v["opportunities"]))
    return rcode


def write_evidence(pid, a, c, x):
    from evidence import evidence
    d = atomic_dir(os.path.join(HERE, "evidence"))
    e = evidence(pid, a, c, x)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
