#!/usr/bin/env python3
"""plant.py NAME...  (re)creates seeded/<NAME>/ from tools/bugs/<NAME>.py in a
scratch worktree and confirms it: builds, stable tests pass, demo passes without
and fails with the change.   plant.py --check NAME...  also runs the property's
check against /repo with the patch applied (and undoes it)."""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
check = "--check" in args
names = [a for a in args if not a.startswith("-")]
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w %(flags)s "-DPROXSUITE_NLP_PRAGMA(x)=" -I"$d/inc" -I"$r/include" -I/usr/include/eigen3 \\
  "$d/demo.cpp" %(src)s -o "$t/demo" -lfmt -lpthread || exit 2
cd "$t" && timeout 200 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for n in names:
    b = runpy.run_path(f"{V}/tools/bugs/{n}.py")
    wt = f"/tmp/plant-{n}"
    sh(f"rm -rf {wt}")
    shutil.copytree("/repo", wt, symlinks=True)
    sh("git checkout -q . ", cwd=wt)
    for f, old, new in b["edits"]:
        p = f"{wt}/{f}"
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != b.get("count", 1):
            sys.exit(f"{n}: {f}: text found {s.count(old)} times")
        open(p, "w", newline="").write(s.replace(old, new))
    sd = f"{V}/seeded/{n}"
    os.makedirs(f"{sd}/inc/proxsuite-nlp", exist_ok=True)
    open(f"{sd}/patch.diff", "w", newline="").write(subprocess.run("git diff", shell=True, stdout=subprocess.PIPE, cwd=wt).stdout.decode())
    for h in ("config", "deprecated", "warning"):
        shutil.copy(f"{V}/stubs/proxsuite-nlp/{h}.hpp", f"{sd}/inc/proxsuite-nlp/{h}.hpp")
    open(f"{sd}/demo.cpp", "w").write(b["demo"].replace("//PRELUDE", open(f"{V}/tools/prelude.hpp").read()))
    open(f"{sd}/demo.sh", "w").write(DEMO % dict(flags=b.get("flags", ""), src=" ".join(f'"$r/{s}"' for s in b.get("src", ["src/block-kind.cpp"]))))
    os.chmod(f"{sd}/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{sd}/meta.json", "w"), indent=1)
    bad = []
    # everything below runs in a private mount namespace in which the scratch
    # copy is mounted over /repo: the real /repo is never touched
    def ns(cmd, cwd="/repo"):
        return sh(f"unshare -m sh -c 'mount --bind {wt} /repo && cd {cwd} && {cmd}'")
    sh("git checkout -q .", cwd=wt)
    r = ns(f"bash /opt/vp/build.sh >/dev/null 2>&1; bash {sd}/demo.sh")
    if r.returncode: bad.append(f"demo fails on the unchanged tree rc={r.returncode}: {r.stdout[-1500:]}")
    r = ns(f"git apply {sd}/patch.diff")
    if r.returncode: bad.append("apply: " + r.stdout)
    r = ns(f"bash /opt/vp/build.sh >/dev/null 2>&1; bash {sd}/demo.sh")
    if not r.returncode or r.returncode in (2, 3): bad.append(f"demo rc={r.returncode} with the patch: {r.stdout[-1500:]}")
    out = r.stdout[-200:]
    r = ns(f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {wt}-o.json")
    o = json.load(open(f"{wt}-o.json")) if os.path.exists(f"{wt}-o.json") else {"passed": []}
    if r.returncode or len(o["passed"]) != 3: bad.append("stable tests: " + r.stdout[-800:])
    # only lines of the original repository are changed
    base = sh("git rev-list --max-parents=0 HEAD | tail -1", cwd=wt).stdout.strip()
    res = ""
    caught = []
    if check:
        for p in b.get("also", []) + [b["prop"]]:
            r = ns(f"python3 run.py {p}", cwd=V)
            ks = [l.strip().split(" ")[0] for l in r.stdout.split("\n") if l.startswith("  key=")]
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout: caught.append(p)
            res += f"  {p} rc={r.returncode} {ks[:6] or r.stdout[-300:]}"
    if check and not bad:
        rf = f"{V}/tools/results.json"
        import fcntl
        lock = open("/tmp/plant.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
        d = json.load(open(rf)) if os.path.exists(rf) else {}
        d[n] = dict(property=b["prop"], needs=b["needs"], caught=", ".join(caught) or "none")
        json.dump(d, open(rf, "w"), indent=1, sort_keys=True)
        lock.close()
    sh(f"rm -f {wt}-o.json")
    sh(f"rm -rf {wt}")
    print(n, "BAD" if bad else "ok", *bad, "demo:", repr(out[-120:]), res)
