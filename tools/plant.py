#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: turns entries of a spec (BUGS list) into
/verif/seeded/<id>/ after confirming each in /repo: the lines it changes are
original, it builds, the stable tests pass, the demo passes without and fails with it.
Entry: id, prop, edits=[(file under /repo, old, new)], needs, breaks, demo (C++ body or None + script)"""
import importlib.util, json, os, shutil, subprocess, sys
R, V = os.environ.get("PLANT_REPO", "/repo"), "/verif"
ROOT = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not; run in the repository after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo_XXXXXX)
trap 'rm -rf "$T"' EXIT
SRC=$(ls cxx/*.cc cxx/distributions/*.cc cxx/emissions/*.cc cxx/pclean/*.cc | grep -v -e '_test[.]cc' -e hirm_main.cc -e pclean/pclean.cc -e typename_playground.cc)
printf '%s\\n' $SRC "$D/demo.cc" | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O0 -w -Icxx -c "{}" -o "$0/$(echo "{}" | tr / _).o" || touch "$0/failed"' "$T" || exit 2
[ -e "$T/failed" ] && exit 2
g++ "$T"/*.o -o "$T/demo" || exit 2
cd "$T" && exec timeout 200 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
%s
static int failed = 0;
static void expect(bool ok, const char* what) { printf("%%s: %%s\\n", ok ? "ok" : "WRONG", what); if (!ok) failed = 1; }
int main() {
%s
  return failed;
}
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def blame_ok(f, old, s):
    a = s[:s.index(old)].count("\n") + 1; b = a + old.rstrip("\n").count("\n")
    out = subprocess.check_output(["git", "-C", R, "blame", "-l", "-L", f"{a},{b}", f], text=True)
    return out
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    mine = set(subprocess.check_output(["git", "-C", R, "log", "--format=%H", "--grep=^fix:"], text=True).split())
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"]), "dirty /repo"
        d = f"{V}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            for f, old, new in b["edits"]:
                s = open(f"{R}/{f}").read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                import difflib
                ol, nl = old.splitlines(), new.splitlines()
                bl = blame_ok(f, old, s).splitlines()
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl).get_opcodes():
                    if tag in ("replace", "delete"):
                        for x in bl[i1:i2]:
                            if x.split()[0].lstrip("^") in mine: print("   NOTE changes a line of a fix:", x[-80:])
            for f, old, new in b["edits"]:
                s = open(f"{R}/{f}").read(); open(f"{R}/{f}", "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
            open(f"{d}/patch.diff", "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            if "script" in b: open(f"{d}/demo.sh", "w").write(b["script"])
            else:
                open(f"{d}/demo.sh", "w").write(DEMO)
                open(f"{d}/demo.cc", "w").write(PRE % (b.get("inc", ""), b["demo"]))
            for n, t in b.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
            os.chmod(f"{d}/demo.sh", 0o755)
            r = sh(f"bash {V}/tools/baseline.sh {R}")
            ok = "missing stable: []" in r.stdout
            w = sh(f"bash {d}/demo.sh", cwd=R)
        finally:
            subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        sh(f"bash {V}/tools/baseline.sh {R} build")
        g = sh(f"bash {d}/demo.sh", cwd=R)
        good = ok and w.returncode not in (0, 2) and g.returncode == 0
        print(("KEEP " if good else "DROP "), b["id"], b["prop"], "tests", r.stdout.strip()[-200:] if not ok else "ok", "demo with", w.returncode, "without", g.returncode)
        if w.returncode in (0, 2) or g.returncode: print("   with:", (w.stdout + w.stderr)[-600:], "\n   without:", (g.stdout + g.stderr)[-300:])
        if not good: shutil.rmtree(d)
main()
