#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in tools/seeds.py and tries them.

  mkseed.py                 write all
  mkseed.py --demo ID...    run the demo on the clean and on the changed tree (scratch copy)
  mkseed.py --check ID...   run the property's quick check on the changed tree (scratch copy)
"""
import sys, os, subprocess, json, difflib, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
DEMO = r'''#!/bin/bash
# exit 0: the property held on this input; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo-XXXXXXXX); trap 'find "$t" -delete' EXIT
mkdir "$t/inc" "$t/o" "$t/w"
ln -s "$repo/toolbox/src/acme.hh" "$t/inc/acme.hh"; ln -s "$repo/toolbox/src/acme" "$t/inc/acme"
F="-O1 -w -pthread -I$repo/src -I$t/inc -I$repo/sfun/include_sfun -I/usr/include/eigen3"
{ for s in "$repo"/toolbox/src/*.cc; do [ -e "$repo/src/$(basename "$s")" ] || echo "$s"; done
  ls "$repo"/src/*.cc; ls "$repo"/sfun/src_sfun/enve_sfun_interface.cc; } |
  xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 '"$F"' -c "{}" -o '"$t"'/o/$(basename "{}" .cc).o' || exit 3
g++ -std=gnu++17 $F "$here/demo.cc" "$t"/o/*.o -o "$t/demo" || exit 3
cd "$t/w" && timeout 200 "$t/demo"
'''
HEAD = '''#include "enve.hh"
#include "enve_sfun_interface.h"
#include <cstdio>
#include <cmath>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#define CHECK(c) do { if (!(c)) { std::printf("FAIL: %s\\n", #c); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t; }
typedef enve::triangleground TG;
static TG::ptr tg(int id, double f, acme::point a, acme::point b, acme::point c) { return std::make_shared<TG const>(id, f, a, b, c); }
static acme::affine at(double x, double y, double z, double yaw = 0, double camber = 0, double spin = 0)
{
  acme::affine a; a.matrix() = acme::mat4::Identity(); a.translate(acme::vec3(x, y, z));
  a.rotate(acme::angleaxis(yaw, acme::vec3(0,0,1))); a.rotate(acme::angleaxis(camber, acme::vec3(1,0,0))); a.rotate(acme::angleaxis(spin, acme::vec3(0,1,0)));
  return a;
}
static TG::vecptr quad(double x0, double x1, double y0, double y1, double z, double f, int id = 0)
{ return {tg(id, f, acme::point(x0,y0,z), acme::point(x1,y0,z), acme::point(x1,y1,z)), tg(id+1, f, acme::point(x0,y0,z), acme::point(x1,y1,z), acme::point(x0,y1,z))}; }
'''
# the same for the MEX boundary: a stand-in for the MATLAB side lies beside the demo
DEMO_MEX = DEMO.replace('-I$repo/sfun/include_sfun', '-I$repo/sfun/include_sfun -I$here/mex -I$repo/toolbox/src_mex') \
  .replace('ls "$repo"/sfun/src_sfun/enve_sfun_interface.cc;', 'ls "$here"/mex/*.cc;')
HEAD_MEX = '#include "mexrt.hh"\n#include <cstdio>\n#include <cstdint>\n#define CHECK(c) do { if (!(c)) { std::printf("FAIL: %s\\n", #c); return 1; } } while (0)\n'
def write(s):
    d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    files, diff = {}, ""
    for f, a, b in s["edits"]:
        if f not in files:
            files[f] = [open(REPO + "/" + f, newline="").read()] * 2
        cur = files[f][1]
        n = cur.count(a)
        assert n == s.get("n", 1), (s["id"], f, n)
        base = subprocess.run(["git", "-C", REPO, "show", BASE + ":" + f], capture_output=True, text=True).stdout
        removed = [l for l in a.split("\n") if l.strip() and l not in b.split("\n")]
        for l in removed:
            if l not in base: print("WARNING", s["id"], "line not original:", l)
        files[f][1] = cur.replace(a, b)
    for f, (o, n) in files.items():
        diff += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(1), n.splitlines(1), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(diff)
    mex = s.get("mex")
    if mex: shutil.copytree(VERIF + "/harness/mex", d + "/mex", dirs_exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_MEX if mex else DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write((HEAD_MEX if mex else HEAD) + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
def wt(s=None):
    w = "/tmp/wt-%d-" % os.getpid() + (s["id"] if s else "clean")
    subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", REPO, w], check=True)
    if s: subprocess.run(["git", "-C", w, "apply", os.path.join(VERIF, "seeded", s["id"], "patch.diff")], check=True)
    return w
if __name__ == "__main__":
    for s in SEEDS: write(s)
    ids = sys.argv[2:]; mode = sys.argv[1] if len(sys.argv) > 1 else ""
    for s in SEEDS:
        if mode and ids and s["id"] not in ids: continue
        if mode == "--demo":
            w = wt(s); demo = os.path.join(VERIF, "seeded", s["id"], "demo.sh")
            a = subprocess.run([demo], cwd=REPO, capture_output=True, text=True); b = subprocess.run([demo], cwd=w, capture_output=True, text=True)
            print(s["id"], s["property"], "demo clean", a.returncode, "changed", b.returncode, "OK" if a.returncode == 0 and b.returncode not in (0, 3) else "BAD " + a.stdout[-150:] + a.stderr[-250:] + b.stdout[-150:] + b.stderr[-250:], flush=True)
            subprocess.run(["rm", "-rf", w])
        if mode == "--check":
            w = wt(s)
            r = subprocess.run(["python3", VERIF + "/run.py", s["property"]], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(s["id"], s["property"], "check exit", r.returncode, (v or r.stdout.splitlines()[-1:])[0][:200], flush=True)
            subprocess.run(["rm", "-rf", w])
