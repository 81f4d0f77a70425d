#!/usr/bin/env python3
"""Runner: builds /repo's current sources together with one exhaustive harness,
explores it on all cores, and reports.

  run.py <ID> [--tier quick|thorough] [--only N] [--keep] [--jobs N]
  run.py --setup

exit 0: property held on everything explored; exit 1 + VIOLATION line otherwise;
exit 2: the check itself could not run.
"""
import sys, os, json, time, hashlib, subprocess, shutil, tempfile, array, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ACME_UNITS = ["AABBtree", "aabb", "ball", "collection", "collinear", "coplanar", "disk", "entity",
              "intersection", "line", "math", "none", "orthogonal", "parallel", "plane", "point",
              "ray", "segment", "triangle", "utilities"]
ENVE_UNITS = ["flat", "mesh", "rib", "shape", "shell", "triangleground"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
FAST = ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"]
COMMON = ["-w", "-pthread"]

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
            if f.endswith((".hh", ".hxx", ".h", ".cc")))
        for f in files:
            h.update(f.encode()); h.update(read(f))
    return h.digest()


def variant_roots():
    """The library sources exist twice in the repository (src and its shipped
    copy toolbox/src).  When they differ, both are explored."""
    roots = [("src", os.path.join(REPO, "src"))]
    tb = os.path.join(REPO, "toolbox", "src")
    differ = False
    for rel in [u + ".cc" for u in ENVE_UNITS] + ["enve.hh"] + \
            ["enve/" + os.path.basename(x) for x in glob.glob(os.path.join(REPO, "src/enve/*.hxx"))]:
        a, b = os.path.join(REPO, "src", rel), os.path.join(tb, rel)
        if not os.path.exists(b):
            continue
        if strip(read(a)) != strip(read(b)):
            differ = True
    if differ:
        roots.append(("toolbox", tb))
    return roots


def strip(src):
    """Compare the two copies modulo comments and whitespace."""
    s = src.decode("latin-1")
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    s = re.sub(r"//[^\n]*", "", s)
    return re.sub(r"\s+", "", s)


class Builder:
    def __init__(self, chk, tier, jobs):
        self.chk, self.jobs = chk, jobs
        self.cache = os.path.join(VERIF, "build", "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="b-", dir=os.path.join(VERIF, "build"))
        self.inc = os.path.join(self.tmp, "inc")
        os.makedirs(self.inc)
        os.symlink(os.path.join(REPO, "toolbox/src/acme.hh"), os.path.join(self.inc, "acme.hh"))
        os.symlink(os.path.join(REPO, "toolbox/src/acme"), os.path.join(self.inc, "acme"))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def compile(self, src, flags, std, incs, hdrhash, cxx="g++"):
        key = sha(read(src), " ".join(flags), std, " ".join(incs).replace(self.inc, "INC"), hdrhash, cxx)
        obj = os.path.join(self.cache, key[:32] + ".o")
        if os.path.exists(obj):
            try:
                os.utime(obj)
            except OSError:
                pass
            return obj, ""
        t = os.path.join(self.tmp, key[:32] + ".o")
        cmd = [cxx, "-std=" + std] + flags + COMMON + incs + ["-c", src, "-o", t]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return None, "%s\n%s" % (" ".join(cmd), r.stderr[-3000:])
        os.replace(t, obj)
        return obj, ""

    def build(self, root):
        chk = self.chk
        flags = list(SAN if chk.get("san", True) else FAST) + chk.get("flags", [])
        libflags = flags + chk.get("libflags", [])
        incs = ["-I" + root, "-I" + self.inc, "-I" + os.path.join(REPO, "sfun/include_sfun"), "-I/usr/include/eigen3"]
        units = [os.path.join(REPO, "toolbox/src", u + ".cc") for u in ACME_UNITS]
        if chk.get("enve", True):
            units += [os.path.join(root, u + ".cc") for u in ENVE_UNITS]
        if chk.get("sfun"):
            units += [os.path.join(REPO, "sfun/src_sfun/enve_sfun_interface.cc")]
        units += [os.path.join(REPO, u) for u in chk.get("extra_units", [])]
        # pick up units added next to the known ones (e.g. by a refactoring)
        if chk.get("enve", True):
            for f in sorted(glob.glob(os.path.join(root, "*.cc"))):
                b = os.path.basename(f)[:-3]
                if b not in ENVE_UNITS and b not in ACME_UNITS:
                    units.append(f)
        for f in sorted(glob.glob(os.path.join(REPO, "toolbox/src/*.cc"))):
            b = os.path.basename(f)[:-3]
            if b not in ENVE_UNITS and b not in ACME_UNITS and not os.path.exists(os.path.join(root, b + ".cc")):
                units.append(f)
        for d in chk.get("repo_incs", []):
            incs.append("-I" + os.path.join(REPO, d))
        hdr = tree_hash([os.path.join(REPO, d) for d in chk.get("repo_incs", [])] +
                        [os.path.join(REPO, "toolbox/src/acme.hh"), os.path.join(REPO, "toolbox/src/acme"),
                         os.path.join(root, "enve.hh"), os.path.join(root, "enve"),
                         os.path.join(REPO, "sfun/include_sfun")])
        vhdr = tree_hash([os.path.join(VERIF, "mc")])
        jobs = [(u, libflags, "gnu++11", incs, hdr) for u in units]
        hincs = incs + ["-I" + os.path.join(VERIF, "mc")] + ["-I" + os.path.join(VERIF, d) for d in chk.get("incs", [])]
        for h in chk.get("plain", []):  # harness parts built without the extra flags
            jobs.append((os.path.join(VERIF, h), list(FAST), "gnu++17", hincs, hdr + vhdr + tree_hash([os.path.join(VERIF, "harness")])))
        for h in chk["harness"]:
            jobs.append((os.path.join(VERIF, h), flags, "gnu++14", hincs, hdr + vhdr + tree_hash([os.path.join(VERIF, "harness")])))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        jobs.sort(key=lambda j: 0 if "/harness/" in j[0] else 1)
        objs, errs = [], []
        with ThreadPoolExecutor(self.jobs) as ex:
            for o, e in ex.map(lambda j: self.compile(*j), jobs):
                objs.append(o)
                if e:
                    errs.append(e)
        if errs:
            die("build failed:\n" + "\n".join(errs)[:6000])
        exe = os.path.join(self.tmp, "h-" + sha(root)[:8])
        r = subprocess.run(["g++"] + (chk.get("ldflags") or flags) + COMMON + objs + chk.get("ld", []) + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            die("link failed:\n" + r.stderr[-3000:])
        return exe


ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=78:detect_leaks=0:allocator_may_return_null=1:symbolize=1:detect_stack_use_after_return=0",
           MC_REPO=REPO, UBSAN_OPTIONS="print_stacktrace=1:exitcode=79:halt_on_error=1", LC_ALL="C")


def run_shards(exe, tier, n, tmp, tag, only=None, hang=60, timeout=3000):
    procs = []
    for i in range(n if only is None else 1):
        out = os.path.join(tmp, "%s-%d.json" % (tag, i))
        cmd = [exe, "--tier", tier, "--out", out, "--hang", str(hang)]
        cmd += ["--shard", "%d/%d" % (i, n)] if only is None else ["--only", str(only)]
        wd = os.path.join(tmp, "%s-wd%d" % (tag, i))
        os.makedirs(wd, exist_ok=True)
        err = open(out + ".err", "wb")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV, cwd=wd, stdin=subprocess.DEVNULL), out))
    res = []
    for p, out in procs:
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -999
        r = {"rc": rc, "out": out, "data": None, "cur": None}
        try:
            cur = read(out + ".cur").split(b"\0")[0].decode("latin-1")
            i, _, text = cur.partition("\n")
            r["cur"] = (int(i), text)
        except Exception:
            pass
        if rc == 0:
            try:
                r["data"] = json.loads(read(out))
            except Exception as e:
                r["rc"] = -998
                r["why"] = str(e)
        r["err"] = read(out + ".err").decode("latin-1")
        res.append(r)
    return res


def crash_summary(err, rc):
    for pat in (r"runtime error: [^\n]*", r"ERROR: AddressSanitizer:? [^\n]*", r"MC-HANG", r"[^\n]*Assertion[^\n]*failed[^\n]*", r"terminate called[^\n]*(\n[^\n]*)?"):
        m = re.search(pat, err)
        if m:
            loc = re.search(r"#\d+ 0x[0-9a-f]+ in ((?:acme|enve|Eigen)[^\n]*)", err)
            return re.sub(r"0x[0-9a-f]+", "ADDR", m.group(0))[:300] + ((" at " + loc.group(1)[:200]) if loc else "")
    return "process ended with status %s" % rc


def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known


def merge_sets(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            a = array.array("Q")
            a.frombytes(read(p))
            s.update(a)
    return len(s)


def main():
    if "--setup" in sys.argv:
        r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
        ok = r.returncode == 0 and os.path.isdir("/usr/include/eigen3/Eigen")
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup: " + ("ok" if ok else "missing compiler or Eigen"))
        sys.exit(0 if ok else 1)
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep, jobs = None, False, os.cpu_count() or 4
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--only":
            only = int(args[i + 1]); i += 1
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "--jobs":
            jobs = int(args[i + 1]); i += 1
        i += 1
    if pid not in CHECKS:
        die("unknown property " + pid)
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    b = Builder(chk, tier, jobs)
    try:
        rc = check(pid, chk, tier, only, jobs, seed, t0, b)
    finally:
        if not keep:
            b.cleanup()
        # keep the object cache small
        objs = sorted(glob.glob(os.path.join(b.cache, "*.o")), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        for o in objs[:-900]:
            try:
                os.unlink(o)
            except OSError:
                pass
    sys.exit(rc)


def check(pid, chk, tier, only, jobs, seed, t0, b):
    roots = variant_roots() if chk.get("enve", True) else [("src", os.path.join(REPO, "src"))]
    tot = {"evaluations": 0, "nontrivial": 0, "transitions": 0, "traces": 0, "checks": 0}
    notes, samples, viol, vcount = {}, [], [], {}
    statefiles, outfiles, ntfiles = [], [], []
    for tag, root in roots:
        exe = b.build(root)
        tb = time.time()
        n = 1 if only is not None else chk.get("shards", jobs)
        res = run_shards(exe, tier, n, b.tmp, tag, only, chk.get("hang", 60))
        for k, r in enumerate(res):
            if r["data"] is None:
                what = crash_summary(r["err"], r["rc"])
                cur = r["cur"] or (-1, "?")
                if r["rc"] in (-9, -999) or r["rc"] == -998:
                    # killed from outside (memory) or over time: not an answer
                    die("%s shard %d ended with %s (%s) in case %s" % (pid, k, r["rc"], r.get("why", ""), cur))
                if r["rc"] == 77:
                    rr = run_shards(exe, tier, 1, b.tmp, tag + "-re", cur[0], 240)
                    if rr[0]["data"] is not None and not rr[0]["data"]["violations"]:
                        die("case %s exceeded its time under load only" % (cur,))
                viol.append({"key": "crash", "idx": cur[0], "case": cur[1], "detail": what, "variant": tag})
                vcount["crash"] = vcount.get("crash", 0) + 1
                continue
            d = r["data"]
            for key in tot:
                tot[key] += d[key]
            for kk, v in d["notes"].items():
                notes[kk] = notes.get(kk, 0) + v
            for kk, v in d["vcount"].items():
                vcount[kk] = vcount.get(kk, 0) + v
            for v in d["violations"]:
                v["variant"] = tag
                viol.append(v)
            samples += d["samples"]
            statefiles.append(r["out"] + ".states")
            outfiles.append(r["out"] + ".outcomes")
            ntfiles.append(r["out"] + ".nt")
            cases_total = d["cases_total"]
        print("explored %s: build %.0fs, exploration %.0fs" % (tag, tb - t0, time.time() - tb))
    known = dict(load_known(pid))
    new = [v for v in viol if v["key"] not in known]
    hit = sorted({v["key"] for v in viol if v["key"] in known})
    nstates, nout, nnt = merge_sets(statefiles), merge_sets(outfiles), merge_sets(ntfiles)
    cov = {"evaluations": tot["evaluations"], "distinct_nontrivial": nnt, "rule": chk["rule"],
           "samples": samples[:6] or ["(none)"], "exhaustive": True, "distinct_outcomes": nout,
           "oracle_checks": tot["checks"], "bound": chk["bound"].get(tier, chk["bound"]["quick"]) if isinstance(chk["bound"], dict) else chk["bound"],
           "known_findings_observed": hit}
    if notes:
        cov["notes"] = notes
    if chk["level"] == "model_checking":
        cov["states"], cov["transitions"] = nstates, tot["transitions"]
        cov["traces_validated_against_impl"] = tot["traces"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: %d cases (%d non-trivial), %d oracle checks, %d distinct outcomes%s, %.1fs" % (
        pid, tier, tot["evaluations"], nnt, tot["checks"], nout,
        (", %d states, %d transitions, %d traces" % (nstates, tot["transitions"], tot["traces"])) if chk["level"] == "model_checking" else "",
        time.time() - t0))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if notes:
        print("notes: " + json.dumps(notes))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", pid + ".txt")
        with open(path, "w") as f:
            for v in new[:40]:
                f.write("key: %s\nvariant: %s\ncase: %d\ninput: %s\nobserved: %s\nreplay: python3 %s/run.py %s --tier %s --only %d\n\n" % (
                    v["key"], v["variant"], v["idx"], v["case"], v["detail"], VERIF, pid, tier, v["idx"]))
        for v in new[:6]:
            print("  [%s] case %d: %s\n      -> %s" % (v["key"], v["idx"], v["case"][:400], v["detail"][:400]))
        print("  violation counts: " + json.dumps({k: c for k, c in vcount.items() if k not in known}))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if only is None and tot["evaluations"] == 0:
        die("nothing explored")
    return 0


if __name__ == "__main__":
    main()
