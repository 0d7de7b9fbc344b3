#!/usr/bin/env python3
"""Self-test of the machinery: applies one small defect at a time to a scratch copy of the library and runs the quick check.

  mutants.py [NAME-PREFIX...] [--tests]     prints, per mutant, caught / MISSED / not applicable, and the violation class
"""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
M = []


def m(name, prop, path, *pairs):
    M.append((name, prop, "rpp/" + path, pairs))


exec(open(os.path.join(HERE, "mutants.list")).read())

want = [a for a in sys.argv[1:] if not a.startswith("-")]
missed = 0
for name, prop, path, pairs in M:
    if want and not any(name.startswith(w) or prop == w for w in want):
        continue
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/rpp", d + "/rpp")
        p = os.path.join(d, path)
        s = open(p).read()
        ok = True
        for old, new in pairs:
            if isinstance(old, tuple):
                q = os.path.join(d, "rpp", old[0])
                t = open(q).read()
                ok &= t.count(old[1]) >= 1
                if q == p:
                    s = s.replace(old[1], new, 1)
                else:
                    open(q, "w").write(t.replace(old[1], new, 1))
                continue
            ok &= s.count(old) >= 1
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        if not ok:
            print("%-28s %s DOES NOT APPLY" % (name, prop), flush=True)
            continue
        extra = [a for a in sys.argv[1:] if a.startswith("--runs=")]
        r = subprocess.run([sys.executable, ROOT + "/check.py", prop, "--no-evidence"] + extra, capture_output=True, text=True,
                           env=dict(os.environ, RPP_REPO=d))
        c = re.search(r"violated in run (\d+) .*?: (\S+)\n\s*(.*)", r.stdout)
        if r.returncode == 1:
            print("%-28s %s caught  run %-6s %s: %s" % (name, prop, c.group(1), c.group(2), c.group(3)[:110]), flush=True)
        else:
            missed += 1
            print("%-28s %s MISSED  rc=%d %s" % (name, prop, r.returncode, r.stdout.strip().splitlines()[-1][:300] if r.stdout.strip() else ""), flush=True)
            if r.returncode == 2:
                print("   " + "\n   ".join(r.stdout.splitlines()[:12])[:1500])
    finally:
        shutil.rmtree(d)
        for b in os.listdir(ROOT + "/build"):
            pass
print("%d missed" % missed)
