#!/usr/bin/env python3
"""Build one model-checking harness from /repo's working tree and run it.

  run.py check <PROPERTY> [--tier quick|thorough]   run a registered check
  run.py replay <file>                              re-run one recorded violation
  run.py build [exe ...]                            only build
"""
import sys, os, json, subprocess, time, shutil, fnmatch, hashlib, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DYABLO_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MIRROR = os.path.join(BUILD, "src")          # content-compared copy of /repo/core/src
sys.path.insert(0, VERIF)
from checks.registry import EXES, CHECKS

def mirror():
    """Copy /repo/core/src to the build folder, touching only files whose content changed."""
    src = os.path.join(REPO, "core", "src")
    seen = set()
    for root, dirs, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            rel = os.path.relpath(p, src)
            seen.add(rel)
            q = os.path.join(MIRROR, rel)
            data = open(p, "rb").read()
            try:
                if open(q, "rb").read() == data:
                    continue
            except OSError:
                os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as o:
                o.write(data)
    for root, dirs, files in os.walk(MIRROR):
        for f in files:
            q = os.path.join(root, f)
            if os.path.relpath(q, MIRROR) not in seen:
                os.remove(q)

COMMON = "-std=c++17 -fopenmp -DDYABLO_USE_DOUBLE -DDYABLO_USE_MPI -w -g0 -pipe -include {v}/fw/kokkos37_compat.h".format(v=VERIF)
FLAVORS = {
    # in-process MPI, no HDF5, product assertions as in a Release build
    "fake": dict(cxx="g++", flags="-O1 -DNDEBUG -DDYABLO_VERIF_MC -I{v}/fw/fakempi -I{v}/fw -I{m} -I{m}/utils/mpi".format(v=VERIF, m=MIRROR), ld="-fopenmp -ldl"),
    # in-process MPI + in-memory HDF5
    "fakeh5": dict(cxx="g++", flags="-O1 -DNDEBUG -DDYABLO_VERIF_MC -DDYABLO_USE_HDF5 -DDYABLO_USE_HDF5_PARALLEL -I{v}/fw/fakempi -I{v}/fw/fakehdf5 -I{v}/fw -I{m} -I{m}/utils/mpi".format(v=VERIF, m=MIRROR), ld="-fopenmp -ldl"),
}
ALWAYS_TU = ["utils/mpi/GlobalMpiSession.cpp"]

def all_tus(flavor):
    import re
    tus = []
    text = open(os.path.join(MIRROR, "CMakeLists.txt")).read()
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/(\S+\.cpp)", line)
        if m:
            tus.append(m.group(1))
    h5 = [t for t in tus if t.startswith("io/") or "restart" in t]
    if flavor != "fakeh5":
        tus = [t for t in tus if t not in h5]
    tus += ["utils/mpi/GlobalMpiSession.cpp", "utils/config/inih/ini.cpp", "utils/monitoring/Timers.cpp",
            "utils/monitoring/SimpleTimer.cpp", "utils/monitoring/OpenMPTimer.cpp"]
    return [t for t in dict.fromkeys(tus) if os.path.exists(os.path.join(MIRROR, t))]

def ninja_file(exes, full=()):
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    for name, f in FLAVORS.items():
        L += [f"rule cxx_{name}", f"  command = {f['cxx']} {COMMON} {f['flags']} $xf -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out"]
        L += [f"rule ld_{name}", f"  command = {f['cxx']} $in -o $out {f['ld']} -lkokkoscontainers -lkokkoscore -lpthread", "  description = LD $out"]
    done = {}
    def obj(flavor, path, xf=""):
        base = path if not os.path.isabs(path) else os.path.relpath(path, VERIF)
        tag = hashlib.md5(xf.encode()).hexdigest()[:6] if xf else ""
        o = os.path.join(BUILD, "obj", flavor + tag, base.replace("/", "_") + ".o")
        if o not in done:
            done[o] = 1
            src = path if os.path.isabs(path) else os.path.join(MIRROR, path)
            L.append(f"build {o}: cxx_{flavor} {src}")
            if xf: L.append(f"  xf = {xf}")
        return o
    outs = {}
    for e in exes:
        s = EXES[e]; fl = s["flavor"]; xf = s.get("xflags", "").format(v=VERIF, m=MIRROR)
        objs = [obj(fl, os.path.join(VERIF, p), xf) for p in s["src"]]
        objs += [obj(fl, os.path.join(VERIF, p)) for p in ["fw/mc.cpp", "fw/fakempi/fakempi.cpp"] + s.get("fw", [])]
        tus = all_tus(fl) if e in full or s["tus"] == "ALL" else ALWAYS_TU + s["tus"]
        tus = [t for t in dict.fromkeys(tus)]
        pxf = s.get("product_xflags", "").format(v=VERIF, m=MIRROR)
        objs += [obj(fl, t, pxf) for t in tus]
        out = os.path.join(BUILD, "bin", e)
        L.append(f"build {out}: ld_{fl} " + " ".join(objs))
        outs[e] = out
    return "\n".join(L) + "\n", outs

def build(exes, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror()
        full = ()
        for attempt in range(2):
            text, outs = ninja_file(exes, full)
            nf = os.path.join(BUILD, "build_" + hashlib.md5((",".join(exes) + str(full)).encode()).hexdigest()[:8] + ".ninja")
            if not os.path.exists(nf) or open(nf).read() != text:
                open(nf, "w").write(text)
            r = subprocess.run(["ninja", "-f", nf] + [outs[e] for e in exes], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                if not quiet: print(r.stdout[-2000:])
                return outs
            # a link error can mean that code moved to another translation unit: link everything
            if attempt == 0 and "undefined reference" in r.stdout:
                full = tuple(exes)
                continue
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write("\nBUILD FAILED\n")
            sys.exit(2)

def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def is_known(prop, v):
    for k in known():
        if k["property"] == prop and fnmatch.fnmatchcase(v["key"], k["key"]) and fnmatch.fnmatchcase(v["desc"], k.get("desc", "*")):
            return k
    return None

def run_exe(path, args, out, extra=()):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OMP_PROC_BIND="false", OMP_WAIT_POLICY="passive")
    cmd = [path] + args + ["--out", out] + list(extra)
    scratch = tempfile.mkdtemp(prefix="vmc_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)  # files written by the code under test go there
    env["VERIF_SCRATCH"] = scratch
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL if not os.environ.get("VERIF_VERBOSE") else None)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode

def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    parts = c["parts"]
    outs = build(list(dict.fromkeys(p["exe"] for p in parts)))
    tb = time.time() - t0
    rundir = os.path.join(BUILD, "run", prop + "_" + tier)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, "replay"); os.makedirs(rpdir, exist_ok=True)
    agg = dict(states=0, transitions=0, traces=0, evaluations=0, distinct=0, counters={}, samples=[])
    viol, knownhit = [], {}
    for i, p in enumerate(parts):
        out = os.path.join(rundir, f"part{i}.json")
        args = list(p.get("args", [])) + (["--thorough"] if tier == "thorough" else [])
        rc = run_exe(outs[p["exe"]], args, out)
        if rc not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(f"harness {p['exe']} ended with {rc}\n"); sys.exit(2)
        r = json.load(open(out))
        for k in ("states", "transitions", "traces", "evaluations", "distinct"): agg[k] += r[k]
        for k, v in r["counters"].items(): agg["counters"][k] = max(v, agg["counters"].get(k, 0)) if k.startswith("max_") else agg["counters"].get(k, 0) + v
        agg["samples"] += r["samples"][:4]
        for v in r["violations"]:
            k = is_known(prop, v)
            if k: knownhit.setdefault(k["key"] + k.get("desc", "*"), (k, v))
            else: viol.append((p, v))
    wall = time.time() - t0
    for k in known():
        if k["property"] == prop:
            hit = (k["key"] + k.get("desc", "*")) in knownhit
            if hit: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    lev = c["level"]
    cov = dict(samples=agg["samples"][:8] or ["(none)"], exhaustive=True, rule=c["rule"], build_s=round(tb, 1), tier_bounds=c.get("bounds", {}).get(tier, ""), **{"counters": agg["counters"]})
    if lev == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
    if agg["evaluations"]:
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=lev, coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if viol:
        seen = {}
        for p, v in viol: seen.setdefault(v["key"], (p, v))
        first = None
        for n, (key, (p, v)) in enumerate(list(seen.items())[:10]):
            rp = os.path.join(rpdir, f"{prop}_{n}.json")
            json.dump(dict(property=prop, exe=p["exe"], args=p.get("args", []), tier=tier, **v), open(rp, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  [{v['key']}] {v['desc']}\n    {v['msg'][:1500]}")
        print(f"{prop}: {len(viol)} violating cases recorded; wall {wall:.1f}s")
        sys.exit(1)
    print(f"{prop} {tier}: held. states={agg['states']} transitions={agg['transitions']} traces={agg['traces']} evaluations={agg['evaluations']} distinct={agg['distinct']} counters={agg['counters']} build={tb:.1f}s wall={wall:.1f}s")
    sys.exit(0)

def replay(path):
    r = json.load(open(path))
    outs = build([r["exe"]])
    f = path + ".case"
    open(f, "w").write(r["desc"] + "\n")
    args = list(r["args"]) + (["--thorough"] if r["tier"] == "thorough" else [])
    out = path + ".out"
    rc = run_exe(outs[r["exe"]], args, out, ["--only-file", f])
    print(open(out).read() if os.path.exists(out) else "")
    os.remove(f)
    print(f"VIOLATION property={r['property']} replay={path}" if rc == 1 else f"replay ended with {rc}")
    sys.exit(rc)

def main():
    a = sys.argv[1:]
    if a[0] == "build":
        build(a[1:] or list(EXES), quiet=False)
    elif a[0] == "replay":
        replay(a[1])
    elif a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        check(a[1], tier)
    else:
        print(__doc__); sys.exit(2)

if __name__ == "__main__":
    main()
