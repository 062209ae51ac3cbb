#!/usr/bin/env python3
"""Check driver:  run.py <PROPERTY> [--case N] [--seed S] [--tier T] [--keep]

Builds the monitors of one property from /repo's working tree, runs them in
shards, gathers what the oracles observed, writes evidence/<PROPERTY>.json.
exit 0: held on everything explored   exit 1: VIOLATION line   exit 2: error
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NPROC = os.cpu_count() or 4
INC = ["-include", f"{VERIF}/harness/vfassert.hpp", f"-I{VERIF}/harness", f"-I{VERIF}/stubs",
       f"-I{REPO}/include", f"-I{REPO}/tests", "-I/usr/include/eigen3"]
UB_LIGHT = "-fsanitize=bounds,signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,return,unreachable,float-cast-overflow,vla-bound"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w",
          "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DPROXSUITE_NLP_PRAGMA(x)="]
BUILDS = {
    # quick tier: clang, ASan + the cheap half of UBSan
    "asan": ("clang++", ["-O1", "-fsanitize=address", UB_LIGHT, "-fno-sanitize-recover=all",
                         "-D_GLIBCXX_ASSERTIONS"]),
    "asanub": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                       "-D_GLIBCXX_ASSERTIONS"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"]),
    "plain": ("clang++", ["-O1"]),
    "opt": ("g++", ["-O2", "-DNDEBUG", "-DEIGEN_NO_DEBUG"]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:max_malloc_fill_size=16777216:malloc_fill_byte=255:detect_stack_use_after_return=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LC_ALL": "C",
})


def sh(cmd, timeout=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
    return p.returncode, p.stdout.decode("utf8", "replace")


def compile_one(args):
    cmd, out = args
    try:
        rc, o = sh(cmd, timeout=800)
    except subprocess.TimeoutExpired:
        rc, o = 1, "compile timeout"
    return rc, o, cmd


LIB_GLOB = ["src/*.cpp"]


def lib_sources():
    r = []
    for g in LIB_GLOB:
        r += sorted(glob.glob(os.path.join(REPO, g)))
    return r


def build(bd, name, spec, kind):
    """Build one harness.  mode 'lib': compile src/*.cpp with explicit
    instantiation, like the shipped library; mode 'hdr': header-only use plus
    block-kind.cpp.  If the preferred mode does not build, try the other."""
    cxx, flags = BUILDS[kind]
    pref = spec.get("mode", "hdr")
    modes = [pref] + [m for m in ("lib", "hdr") if m != pref]
    log = ""
    for mode in modes:
        d = os.path.join(bd, f"{name}-{kind}-{mode}")
        os.makedirs(d, exist_ok=True)
        srcs = [os.path.join(VERIF, "harness", s) for s in spec["src"]]
        defs = list(spec.get("defs", []))
        if mode == "lib":
            libs = lib_sources()
            defs.append("-DPROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION")
        else:
            libs = [s for s in lib_sources() if os.path.basename(s) == "block-kind.cpp"] or []
            if not libs:
                libs = [s for s in lib_sources() if "block" in os.path.basename(s) and "ldlt" not in os.path.basename(s)]
        big = ("prox-solver", "block-ldlt", "linesearch", "workspace")
        allsrc = srcs + libs
        allsrc.sort(key=lambda s: 0 if s in srcs or any(b in s for b in big) else 1)
        jobs = []
        objs = []
        for i, s in enumerate(allsrc):
            o = os.path.join(d, f"{i}.o")
            objs.append(o)
            jobs.append(([cxx, *COMMON, *flags, *defs, *INC, "-c", s, "-o", o], o))
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(compile_one, jobs))
        bad = [(o, c) for rc, o, c in res if rc]
        if bad:
            log += f"== {name} {kind} mode={mode}: compile failed\n" + "\n".join(
                " ".join(c) + "\n" + o[-3000:] for o, c in bad[:3])
            continue
        exe = os.path.join(d, name)
        rc, o = sh([cxx, *flags, *objs, "-o", exe, "-lfmt", "-lpthread"])
        if rc:
            log += f"== {name} {kind} mode={mode}: link failed\n" + o[-3000:]
            # a shipped library may move code between sources: retry with all of them
            continue
        return exe, log, mode
    return None, log, None


def describe_crash(rc, err):
    m = re.search(r"SUMMARY: (\w+): ([\w\- ]+?)(?: /| \(|\n|$)", err)
    if m:
        return f"{m.group(1)}-{m.group(2).strip().replace(' ', '-')}"
    m = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    m = re.search(r"Assertion [`']([^'`]{0,60})", err)
    if m:
        return "assert-" + re.sub(r"[^A-Za-z0-9]+", "-", m.group(1))[:50]
    if "terminate called" in err or "libc++abi" in err:
        return "terminate"
    if rc < 0:
        return "signal-" + signal.Signals(-rc).name
    return f"exit-{rc}"


def run_shard(exe, bd, tag, shard, nshards, seed, tier, scale, timeout, only=None):
    out = os.path.join(bd, f"{tag}-{shard}.json")
    status = os.path.join(bd, f"{tag}-{shard}.status")
    errf = os.path.join(bd, f"{tag}-{shard}.err")
    for p in (out, status):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--scale", str(scale),
           "--shard", str(shard), "--nshards", str(nshards), "--out", out, "--status", status]
    if only is not None:
        cmd += ["--case", str(only)]
    hang = False
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=bd, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
    err = open(errf, "rb").read()[-20000:].decode("utf8", "replace")
    st = ""
    if os.path.exists(status):
        st = open(status, errors="replace").read()
    m = re.match(r"\s*(-?\d+) (.*\S)", st)
    cas, ph = (int(m.group(1)), m.group(2).strip()) if m else (-1, "start")
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except Exception:
            data = None
    return dict(rc=rc, hang=hang, err=err, cas=cas, phase=ph, data=data, cmd=cmd)


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--case", type=int)
    ap.add_argument("--part")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    spec = CHECKS[pid]
    t0 = time.time()
    bd = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    try:
        rc = check(pid, spec, tier, a, bd, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(pid, spec, tier, a, bd, t0):
    parts = [p for p in spec["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    if a.part:
        parts = [p for p in parts if p["name"] == a.part]
    counters, distinct, samples, evals, viols = {}, set(), [], 0, []
    errors, info = [], []
    # build all parts in parallel; each build is itself parallel
    with ThreadPoolExecutor(max(1, len(parts))) as ex:
        built = list(ex.map(lambda p: build(bd, p["name"], p, p["build"]), parts))
    tb = time.time() - t0
    for p, (exe, log, mode) in zip(parts, built):
        name = p["name"]
        if exe is None:
            errors.append(f"build of {name} failed\n{log}")
            continue
        nsh = p.get("shards", NPROC)
        scale = p.get("scale", {}).get(tier, 1.0)
        to = p.get("timeout", {}).get(tier, 200 if tier == "quick" else 3000)
        if a.case is not None:
            rs = [run_shard(exe, bd, name, 0, 1, a.seed, tier, scale, to, only=a.case)]
            sys.stderr.write(rs[0]["err"])
        else:
            with ThreadPoolExecutor(min(nsh, p.get("par", NPROC))) as ex:
                rs = list(ex.map(lambda s: run_shard(exe, bd, name, s, nsh, a.seed, tier, scale, to), range(nsh)))
        # cases which did not end are tried again, alone and side by side
        hung = [r for r in rs if r["hang"]]
        for r in hung:
            r["again"] = None
        if hung:
            def again(ir):
                ir[1]["again"] = run_shard(exe, bd, f"{name}-re{ir[0]}", 0, 1, a.seed, tier, scale, max(60, to // 3), only=ir[1]["cas"])
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(again, enumerate(hung[:4])))
        for r in rs:
            if r["data"] is not None:
                d = r["data"]
                evals += d["evals"]
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                distinct |= {name[:2] + h for h in d["distinct"]}
                samples += d["samples"]
                for v in d["violations"]:
                    viols.append(dict(v, part=name))
            if r["hang"]:
                r2 = r["again"]
                if r2 is None:
                    continue
                if r2["hang"]:
                    viols.append(dict(key=f"hang.{r['phase']}", case=r["cas"], part=name,
                                      msg=f"did not terminate (twice), phase {r['phase']}"))
                elif r2["rc"] == 0 and r2["data"] is not None:
                    errors.append(f"{name}: shard timed out at case {r['cas']} ({r['phase']}) but the case alone ended")
                else:
                    r = r2
            if not r["hang"] and (r["rc"] != 0 or r["data"] is None):
                if r["rc"] == -signal.SIGKILL:
                    errors.append(f"{name}: killed (out of memory?)")
                elif r["cas"] < 0:
                    errors.append(f"{name}: harness failed before the first case rc={r['rc']}\n{r['err'][-2000:]}")
                else:
                    viols.append(dict(key=f"crash.{describe_crash(r['rc'], r['err'])}.{r['phase']}", case=r["cas"],
                                      part=name, msg=r["err"][-6000:]))
        if any(v["key"].startswith("hang.") for v in viols):
            break  # no time left to hang in the other parts as well
    # thresholds: a run that observed nothing is inconclusive
    if a.case is None:
        for k, n in spec.get("require", {}).items():
            if counters.get(k, 0) < n:
                errors.append(f"inconclusive: observed {k}={counters.get(k, 0)} < {n}")
        for bad, total, frac in spec.get("rates", []):
            b, n = counters.get(bad, 0), counters.get(total, 0)
            if b > frac * n + 4 * (frac * n) ** 0.5 + 2:
                viols.append(dict(key=f"rate.{bad}", case=-1, part=parts[0]["name"],
                                  msg=f"{b} of {n} {total}; at most {frac:.1%} is expected"))
    known = [k for k in load_known(pid) if k.get("status") == "open"]
    fresh, seen_known = [], {}
    for v in viols:
        hit = next((k for k in known if k["key"] == v["key"]), None)
        if hit:
            seen_known.setdefault(hit["key"], hit)
        else:
            fresh.append(v)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if a.case is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": a.seed,
            "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(distinct),
                "rule": spec["rule"], "samples": samples[:6] or ["none"],
                "observed": dict(sorted(counters.items())),
                "builds": [f"{p['name']}:{p['build']}:{m}" for p, (e, l, m) in zip(parts, built)],
                "build_s": round(tb, 1),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        groups = {}
        for v in fresh:
            groups.setdefault(v["key"], []).append(v)
        for i, (k, vs) in enumerate(sorted(groups.items())):
            v = vs[0]
            path = os.path.join(rd, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', k)[:80]}.json")
            json.dump(dict(property=pid, key=k, seed=a.seed, tier=tier, part=v["part"], case=v["case"], message=v["msg"],
                           count=len(vs),
                           replay=f"python3 {VERIF}/run.py {pid} --part {v['part']} --seed {a.seed} --tier {tier}" + (f" --case {v['case']}" if v["case"] >= 0 else "")),
                      open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  key={k} case={v['case']} part={v['part']}: {v['msg'][:600]}")
        for e in errors:
            print("note:", e[:500])
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    print(f"OK property={pid} tier={tier} seed={a.seed} cases={evals} distinct={len(distinct)} "
          f"build={tb:.0f}s total={time.time()-t0:.0f}s")
    for k, v in sorted(counters.items()):
        print(f"   {k}={v}")
    return 0


if __name__ == "__main__":
    main()
