#!/usr/bin/env python3
"""Self-test: changes that keep the behaviour (other system calls, other data structures, other orders) must not raise an alarm.

  quiet.py [NAME-PREFIX...] [--runs N]     prints, per change, quiet / ALARM, and the first lines of each alarm
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
Q = []


def q(name, *files):
    Q.append((name, files))


exec(open(os.path.join(HERE, "quiet.list")).read())
ap = argparse.ArgumentParser()
ap.add_argument("names", nargs="*")
ap.add_argument("--runs", default="3000")
ap.add_argument("--workers", default="8")
ap.add_argument("--checks", default="")
A = ap.parse_args()
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
ids = A.checks.split() or [c.get("property_id") or c.get("property") for c in man["checks"]]
bad = 0
for name, files in Q:
    if A.names and not any(name.startswith(w) for w in A.names): continue
    d = tempfile.mkdtemp(prefix="quiet-")
    try:
        shutil.copytree(os.environ.get("RPP_REPO", "/repo") + "/rpp", d + "/rpp")
        note = ""
        for f, *pairs in files:
            p = os.path.join(d, "rpp", f)
            s = open(p).read()
            for old, new in pairs:
                if s.count(old) < 1: note = "no match: " + old[:60]
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if note:
            print(name, note, flush=True)
            continue
        r = subprocess.run([sys.executable, "check.py", *ids, "--no-evidence", "--runs", A.runs, "--workers", A.workers], cwd=ROOT,
                           env=dict(os.environ, RPP_REPO=d, RPP_BUILD=d + "/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and "unmodelled" not in r.stdout:
            print(name, "quiet", flush=True)
        else:
            bad += 1
            keep = [l for l in r.stdout.splitlines() if not l.startswith(("C", "KNOWN")) or "unmodelled" in l]
            print(name, "ALARM rc=%d\n" % r.returncode + "\n".join("   " + l for l in keep[:25]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
