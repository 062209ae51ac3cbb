#!/usr/bin/env python3
"""mutate.py OUTDIR [N] [SEED]: mechanical source changes (flipped operators, changed
constants, dropped statements) of /repo's headers, each run against the checks of the
properties anchored in that file until one reports it.  Finds gaps: the surviving
changes are written to OUTDIR/survivors.txt to be read by hand."""
import sys, os, re, random, subprocess, shutil, json, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 100
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
ONLY = sys.argv[4] if len(sys.argv) > 4 else ""
H = "include/proxsuite-nlp/"
MAP = {
 H+"prox-solver.hxx": (["C03", "C29", "C06", "C01", "C05", "C04", "C08", "C24"], 4),
 H+"prox-solver.hpp": (["C03", "C05", "C29", "C08", "C01"], 2),
 H+"pdal.hxx": (["C06", "C03"], 2), H+"pdal.hpp": (["C06", "C03"], 1),
 H+"workspace.hpp": (["C27", "C06", "C03"], 1), H+"results.hpp": (["C27", "C05"], 1),
 H+"problem-base.hpp": (["C27", "C06", "C16"], 2),
 H+"linesearch-armijo.hpp": (["C23"], 2), H+"linesearch-base.hpp": (["C23", "C03"], 1),
 H+"bfgs-strategy.hpp": (["C24"], 2),
 H+"linalg/bunchkaufman.hpp": (["C07"], 2), H+"linalg/dense.hpp": (["C09"], 2),
 H+"linalg/block-ldlt.hpp": (["C10", "C11"], 1), H+"linalg/block-ldlt.hxx": (["C10"], 2),
 H+"linalg/block-kind.hpp": (["C11", "C10"], 1), "src/block-kind.cpp": (["C11", "C10"], 1),
 H+"linalg/block-triangular.hpp": (["C12", "C10"], 1), H+"linalg/gemmt.hpp": (["C12"], 1),
 H+"ldlt-allocator.hpp": (["C08", "C27"], 2), H+"linalg/ldlt-base.hpp": (["C08", "C09", "C10"], 1),
 H+"modelling/spaces/vector-space.hpp": (["C13", "C14", "C15"], 2),
 H+"modelling/spaces/tangent-bundle.hxx": (["C14", "C13", "C15"], 2),
 H+"modelling/spaces/tangent-bundle.hpp": (["C14", "C13", "C15"], 2),
 H+"modelling/spaces/cartesian-product.hxx": (["C15", "C14", "C13"], 2),
 H+"modelling/spaces/cartesian-product.hpp": (["C15", "C14", "C13"], 2),
 H+"manifold-base.hpp": (["C13", "C14", "C15"], 1), H+"manifold-base.hxx": (["C13", "C14", "C15"], 2),
 H+"function-base.hpp": (["C16", "C17"], 1), H+"function-ops.hpp": (["C16"], 2),
 H+"modelling/residuals/linear.hpp": (["C16"], 2), H+"modelling/residuals/state-residual.hpp": (["C16"], 2),
 H+"modelling/costs/quadratic-residual.hxx": (["C16"], 2), H+"modelling/costs/quadratic-residual.hpp": (["C16"], 2),
 H+"modelling/costs/squared-distance.hpp": (["C16"], 2),
 H+"cost-function.hpp": (["C16", "C17"], 1), H+"cost-sum.hpp": (["C17"], 2), H+"cost-sum.hxx": (["C17"], 3),
 H+"modelling/autodiff/finite-difference.hpp": (["C18"], 2),
 H+"constraint-set.hpp": (["C21", "C19", "C20", "C22"], 1), H+"constraint-set.hxx": (["C21", "C19"], 2),
 H+"modelling/constraints/box-constraint.hpp": (["C19", "C20", "C21"], 2),
 H+"modelling/constraints/negative-orthant.hpp": (["C19", "C20", "C21"], 2),
 H+"modelling/constraints/l1-penalty.hpp": (["C19", "C20", "C21"], 2),
 H+"modelling/constraints/equality-constraint.hpp": (["C19", "C20", "C21"], 2),
 H+"modelling/constraints/constraint-set-product.hpp": (["C22"], 2),
 H+"third-party/polymorphic_cxx14.hpp": (["C25"], 2),
 H+"logger.hpp": (["C26"], 2), H+"math.hpp": (["C28", "C06"], 1),
 H+"helpers/history-callback.hpp": (["C26", "C03"], 2), H+"bcl-params.hpp": (["C03"], 3),
}
OPS = [(r"(?<= )<(?= )", "<="), (r"<=", "<"), (r"(?<=\w )>(?= \w)", ">="), (r">=", ">"), (r"(?<=[\w)] )>(?= [\w(])", "<"),
 (r"&&", "||"), (r"\|\|", "&&"), (r"==", "!="), (r"!=", "=="), (r"\+=", "-="), (r"-=", "+="), (r"\+=", "="), (r"-=", "="),
 (r"\*=", "="), (r"(?<=[\w)\]] )\+(?= [\w(])", "-"), (r"(?<=[\w)\]] )-(?= [\w(])", "+"), (r"(?<=[\w)\]] )\*(?= [\w(])", "+"), (r"(?<=[\w)\]] )/(?= [\w(])", "*"),
 (r"(?<== )-(?=[\w(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
 (r"\bhead\(", "tail("), (r"\btail\(", "head("), (r"topRows\(", "bottomRows("), (r"bottomRows\(", "topRows("), (r"leftCols\(", "rightCols("), (r"rightCols\(", "leftCols("),
 (r"\.transpose\(\)", ""), (r"\bLower\b", "Upper"), (r"\bUpper\b", "Lower"), (r"setZero\(\)", "setOnes()"), (r"setIdentity\(\)", "setZero()"),
 (r"\b0\.5\b", "0.6"), (r"(?<![\w.])0\.?(?=[;,) ])", "1"), (r"(?<![\w.])1\.?(?=[;,) ])", "2"), (r"(?<![\w.])2\.?(?=[;,) ])", "1"), (r"!(?=[\w(])", ""),
 (r"\bi \+ 1\b", "i"), (r"\bj \+ 1\b", "j"), (r"\bx0\b", "x1"), (r"\bx1\b", "x0"), (r"\[i\]", "[0]"), (r"\babs\(", "("), (r"isnan", "isinf"),
 (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\breturn;", ";"), (r"\bif \(", "if (!("), ]
STMT = re.compile(r"^\s+[\w*&:.>\[\]()\-<, ]+(\(|=[^=]|\+=|-=|\*=|<<|\+\+).*;\s*$")
DECL = re.compile(r"^\s*(using|typedef|return|const |auto |Scalar |int |bool |isize |usize |std::size_t |Eigen::Index |template|static|virtual|explicit|friend|extern|typename|class|struct|enum|inline|VectorXs |MatrixXs |ConstVectorRef |VectorRef |MatrixRef|throw|assert|case|public|private|else|if|for|while|PROXSUITE|Workspace |Results |#|//|/\*|\*|ManifoldPtr|decltype|BlockKind |Index |break|continue|std::vector|long |shared_ptr|boost|xyz)")
random.seed(SEED)
muts = []
for f, (checks, w) in MAP.items():
    p = "/repo/" + f
    if not os.path.exists(p): print("missing", f); continue
    if ONLY and not re.search(ONLY, f): continue
    L = open(p, newline="").read().split("\n")
    ms = []
    for k, l in enumerate(L):
        if "assert(" in l or re.match(r"[=\s]*={9}|\s*(//|/\*|\*|#|template|using|namespace|PROXSUITE_NLP_[A-Z_]*TYPEDEFS|extern)", l) or not l.strip(): continue
        code = l.split("//")[0]
        if "operator" in code or "override" in code and ";" not in code: pass
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if rx == r"\bif \(":
                    if not code.rstrip().endswith((") {", ")\r", ")")): continue
                    e = code.rstrip()
                    if e.endswith(") {"): n = code[:m.start()] + "if (!(" + e[m.end():-3] + ")) {"
                    else: n = code[:m.start()] + "if (!(" + e[m.end():-1] + "))"
                    if n.count("(") != n.count(")"): continue
                else:
                    n = code[:m.start()] + to + code[m.end():]
                ms.append((f, k, n + l[len(code):], checks))
        if STMT.match(code) and not DECL.match(code): ms.append((f, k, ";", checks))
    want = max(4, len(L) * w // 12)
    random.shuffle(ms)
    muts += ms[:want]
random.shuffle(muts)
os.makedirs(OUT, exist_ok=True)
done = set()
rp = f"{OUT}/results.jsonl"
if os.path.exists(rp):
    for l in open(rp): r = json.loads(l); done.add((r["f"], r["k"], r["new"]))
muts = [m for m in muts if (m[0], m[1], m[2]) not in done][:N]
print(len(muts), "changes", flush=True)
def one(i):
    f, k, new, checks = muts[i]
    wt = f"{OUT}/wt-{os.getpid()}-{i}"
    shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    for d in ("include", "src"): shutil.copytree(f"/repo/{d}", f"{wt}/{d}")
    L = open(f"{wt}/{f}", newline="").read().split("\n")
    old = L[k]; L[k] = new
    open(f"{wt}/{f}", "w", newline="").write("\n".join(L))
    v = f"{wt}/v"; os.makedirs(v)
    for d in os.listdir(V):
        if d in (".git", "seeded", "evidence", "tools"): continue
        (shutil.copytree if os.path.isdir(f"{V}/{d}") else shutil.copy)(f"{V}/{d}", f"{v}/{d}")
    # lighter builds, cached objects
    t = open(f"{v}/run.py").read()
    t = t.replace('ENV = dict(os.environ)', 'BUILDS["asan"] = BUILDS["plain"] = ("clang++", ["-O1", "-g0"])\nENV = dict(os.environ)', 1)
    t = t.replace('jobs.append(([cxx,', f'jobs.append((["python3", "{V}/tools/ccwrap.py", cxx,', 1)
    t = t.replace('parts = [p for p in spec["parts"] if', 'parts = [p for p in spec["parts"] if p["build"] != "tsan" and', 1)
    t = t.replace('"-g1"', '"-g0"')
    open(f"{v}/run.py", "w").write(t)
    res = "SURVIVED"
    for c in checks:
        try:
            r = subprocess.run(["python3", f"{v}/run.py", c], env=dict(os.environ, VF_REPO=wt, CCWRAP_DIR=f"{OUT}/cc"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-9", "-f", f"{wt}/"]); res = f"timeout {c}"; break
        if r.returncode == 1:
            ks = [l.strip().split(" ")[0] for l in r.stdout.split("\n") if l.startswith("  key=")]
            res = f"killed {c} {ks[:2]}"; break
        if r.returncode == 2:
            res = "nobuild" if "compile failed" in r.stdout else f"inconclusive {c} {r.stdout[:300]}"; break
    shutil.rmtree(wt, ignore_errors=True)
    with open(rp, "a") as o: o.write(json.dumps(dict(f=f, k=k, old=old.strip(), new=new, res=res)) + "\n")
    print(i, f"{f}:{k+1}", res, "|", old.strip(), "=>", new.strip(), flush=True)
with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "2"))) as ex: list(ex.map(one, range(len(muts))))
