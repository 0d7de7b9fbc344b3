#!/usr/bin/env python3
"""Makes and confirms planted bugs: python3 tools/plant.py LIST.py [ids...]

LIST.py calls bug(id, property, needs, breaks, demo_flags, edits, demo_source). For each one, in a scratch copy of
/repo: apply the edits, write seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}, build, run the tests, run the
demonstration without and with the change. Nothing here is read by a check."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
BASE = "430d550"
bugs = {}
DEMO = """#!/bin/bash
# Run with the repository as the current directory: 0 if it behaves, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++20 -w -fno-exceptions -fno-rtti %s -I. -o "$t/demo" "$here/demo.cpp" rpp/impl/unify.cpp rpp/pos/unify.cpp -lpthread -ldl || exit 1
repo=$PWD
cd "$t" && timeout %d ./demo
r=$?
[ $r = 0 ] || echo "demo failed: $r"
exit $r
"""

def bug(id, prop, needs, breaks, edits, src, flags="-O1 -g", timeout=60):
    bugs[id] = (prop, needs, breaks, edits, src, flags, timeout)

def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build_and_test():
    r = sh("cmake -S . -B _b2 -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DRPP_TEST=ON >/dev/null && ninja -C _b2 -j6 2>&1 | tail -5; test ${PIPESTATUS[0]} = 0 && ctest --test-dir _b2 -j1 --timeout 60 2>&1 | tail -8; cp -a test/*.corrected /tmp/plant 2>/dev/null; git checkout -q test; git clean -qfd test", executable="/bin/bash")
    return "100% tests passed" in r.stdout, r.stdout

def main():
    exec(open(sys.argv[1]).read(), globals())
    ids = sys.argv[2:] or list(bugs)
    for id in ids:
        prop, needs, breaks, edits, src, flags, timeout = bugs[id]
        sh("git checkout -q . && git clean -qfd rpp")
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        bad = None
        for f, *subs in edits:
            p = os.path.join(W, "rpp", f)
            s = open(p).read()
            for a, b in subs:
                if s.count(a) != 1: bad = "%s: %d matches of %r" % (f, s.count(a), a[:60])
                s = s.replace(a, b, 1)
            open(p, "w").write(s)
        if bad:
            print(id, "BAD EDIT", bad); continue
        diff = sh("git diff -- rpp").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(src.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (flags, timeout))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines changed
        orig = 0
        for part in diff.split("diff --git ")[1:]:
            f = part.split(" b/")[1].split("\n")[0]
            base = sh("git show %s:%s" % (BASE, f)).stdout.split("\n")
            orig += sum(1 for l in part.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in base)
        ok, out = build_and_test()
        with_ = sh("bash %s/demo.sh" % d)
        sh("git checkout -q .")
        without = sh("bash %s/demo.sh" % d)
        good = ok and orig and with_.returncode != 0 and without.returncode == 0
        print("%-26s %s %s tests %s, original lines %d, demo without %d, with %d" % (id, prop, "CONFIRMED" if good else "NOT CONFIRMED", "pass" if ok else "FAIL", orig, without.returncode, with_.returncode), flush=True)
        if not ok: print(out[-1500:])
        if without.returncode: print("  without:", without.stdout[-1500:])
        print("  with:", with_.stdout[-400:].strip())
main()
