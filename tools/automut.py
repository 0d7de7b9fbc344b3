#!/usr/bin/env python3
"""Self-test: makes small mechanical changes to the library (statement removed, condition negated, comparison or constant
changed, ...), keeps those that compile and pass the repository's tests, and runs the related quick checks on each.

  automut.py [--sample N] [--skip N] [--seed S] [--runs N] [--jobs J] [FILE...]     prints caught / MISSED per mutant
"""
import argparse, hashlib, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "thread0.h": "C01 C02 C03 C04 C05 C14", "thread.h": "C05 C06 C23", "pos/thread_pos.cpp": "C01 C02 C03 C04 C05 C14 C27",
    "ref0.h": "C01", "pool.h": "C09 C10 C11 C12 C13 C19", "async.h": "C08 C09 C10 C13 C11", "rc.h": "C07 C34", "format.h": "C34 C24", "alloc0.h": "C20 C21 C22 C23 C27",
    "alloc1.h": "C21 C23 C07", "impl/alloc.cpp": "C20 C23 C27 C33", "impl/log.cpp": "C24 C27 C33", "log.h": "C24 C25 C27",
    "log_callback.h": "C24", "impl/profile.cpp": "C25 C26 C23", "profile.h": "C25 C26 C23", "files.h": "C15 C16 C17 C19",
    "pos/files_pos.cpp": "C15 C16 C17 C19", "pos/asyncio_pos.cpp": "C12 C15 C16 C19 C27", "net.h": "C18 C19",
    "pos/net_pos.cpp": "C18 C19 C27", "pos/async_pos.cpp": "C11 C13 C10 C12 C19 C27", "range_allocator.h": "C22", "rng.h": "C33",
}
ap = argparse.ArgumentParser()
ap.add_argument("files", nargs="*")
ap.add_argument("--sample", type=int, default=100000)
ap.add_argument("--skip", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--runs", type=int, default=1500)
ap.add_argument("--jobs", type=int, default=6)
A = ap.parse_args()


def mutants(path, lines):
    out = []
    depth_decl = re.compile(r"^\s*(static_assert|template|using|namespace|struct|#|//|requires|private|public|friend|constexpr static|static constexpr)")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or depth_decl.match(l) or s.startswith("//"): continue
        def put(kind, new):
            if new != l: out.append((path, i, kind, l, new))
        if re.match(r"^[^(){}]*(\(.*\))?[^{}]*;$", s) and not re.match(r"^(return|co_return|break|continue|else|case|goto|[\w:<>&* ]+ [\w]+( = .*)?;|.*noexcept;|.*delete;|.*default;)", s):
            put("removed", re.match(r"^\s*", l).group() + ";")
        if re.match(r"^[\w\.\->\[\]:]+ (=|\+=|-=|\|=|&=) .*;$", s): put("removed", re.match(r"^\s*", l).group() + ";")
        m = re.match(r"^(\s*(?:\} else )?(?:if|while)\()(.*)(\)(?: \{|[^()]*;)?)$", l)
        if m and "constexpr" not in l: put("negated", "%s!(%s)%s" % m.groups())
        if "template" not in l and "operator" not in l and "#include" not in l:
            for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                         (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), ("++", "--"), ("--", "++"), ("true", "false"), ("false", "true"), (" += ", " -= "), (" -= ", " += "),
                         (" * ", " / "), (" & ", " | "), ("null", "null + 1"), ("signal", "broadcast"), ("broadcast()", "signal()"), ("front", "back"), ("back()", "front()"),
                         ("begin", "end"), ("min(", "max("), ("max(", "min(")):
                for m in re.finditer(re.escape(a), l):
                    put("%s for %s" % (b.strip() or "nothing", a.strip()), l[:m.start()] + b + l[m.end():])
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.x])", l):
                put("constant", l[:m.start()] + str(int(m.group()) + 1) + l[m.end():])
                if m.group() == "1": put("constant", l[:m.start()] + "0" + l[m.end():])
        if re.match(r"^return [^;]+;$", s) and "bool" not in s and "{}" not in s: put("return {}", re.match(r"^\s*", l).group() + "return {};")
    return out


allm = []
for f in (A.files or FILES):
    lines = open("/repo/rpp/" + f).read().split("\n")
    allm += mutants(f, lines)
random.Random(A.seed).shuffle(allm)
allm = allm[A.skip:A.skip + A.sample]
print("%d mutants" % len(allm), flush=True)
q = queue.Queue()
for m in allm: q.put(m)
lock = threading.Lock()
stats = {}


def say(kind, m, text):
    with lock:
        stats[kind] = stats.get(kind, 0) + 1
        if kind in ("nobuild", "tests"): return
        print("%-7s %s:%d [%s] %s\n        %s => %s" % (kind, m[0], m[1] + 1, m[2], text, m[3].strip()[:110], m[4].strip()[:110]), flush=True)


def work(n):
    d = tempfile.mkdtemp(prefix="automut-")
    sh = lambda c, t=300: subprocess.run(["timeout", str(t), "bash", "-c", c], cwd=d + "/r", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        subprocess.run("git clone -q /repo %s/r" % d, shell=True, check=True)
        sh("cmake -S . -B _b2 -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DRPP_TEST=ON && ninja -C _b2 -j2", 600)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = d + "/r/rpp/" + m[0]
            lines = open(p).read().split("\n")
            lines[m[1]] = m[4]
            open(p, "w").write("\n".join(lines))
            r = sh("clang++-18 -std=c++20 -w -fsyntax-only -fno-exceptions -fno-rtti rpp/impl/unify.cpp rpp/pos/unify.cpp && ninja -C _b2 -j2")
            if r.returncode: say("nobuild", m, "")
            else:
                r = sh("ctest --test-dir _b2 -j2 --timeout 30; rm -f test/*.corrected")
                if "100% tests passed" not in r.stdout: say("tests", m, "")
                else:
                    res = None
                    for c in FILES[m[0]].split():
                        r = subprocess.run([sys.executable, ROOT + "/check.py", c, "--no-evidence", "--workers", "2", "--runs", str(A.runs)],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, RPP_REPO=d + "/r", RPP_BUILD=d + "/b"))
                        if r.returncode == 1:
                            c = re.search(r"violated in run (\d+) .*?: (\S+)\n\s*(.*)", r.stdout)
                            res = ("caught", "%s %s" % (re.search(r"property=(\w+)", r.stdout).group(1), c.group(2) if c else ""))
                            break
                        if r.returncode:
                            res = ("caught2", c + " rc=%d " % r.returncode + r.stdout.strip()[-200:].replace("\n", " "))
                    say(*(res[0], m, res[1]) if res else ("MISSED", m, ""))
            sh("rm -rf %s/b/rpp-*" % d)
            sh("git checkout -q . && git clean -qfd rpp test")
    finally:
        shutil.rmtree(d)


ts = [threading.Thread(target=work, args=(n,)) for n in range(A.jobs)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
