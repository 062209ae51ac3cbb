#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from checks.py."""
import json, os
from checks import CHECKS, NOT_APPLICABLE, DET
D = os.path.dirname(os.path.abspath(__file__))
with open(f"{D}/properties.jsonl", "w") as f:
    for p in sorted(list(CHECKS) + [n["property"] for n in NOT_APPLICABLE]):
        c = CHECKS.get(p) or next(n for n in NOT_APPLICABLE if n["property"] == p)
        assert len(c["title"]) <= 80, (p, len(c["title"]))
        a = dict(files=c["files"], mechanism=c["mechanism"], observe_at=c["observe"], hook_needed=None)
        if c.get("state"):
            a["state"] = c["state"]
        f.write(json.dumps(dict(id=p, title=c["title"], statement=c["statement"],
                                quantifier=dict(over=c["over"], text=c["text"]),
                                why_tests_cant=c["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="python3 setup_check.py",
         checks=[dict(property=p, quick_cmd=f"python3 run.py {p}",
                      thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p}",
                      evidence_file=f"evidence/{p}.json",
                      technique=c.get("technique", "runtime monitoring: randomised workload, reference oracle, ASan/UBSan"),
                      level=c.get("level", "exploration"), level_note=c["note"] + " " + DET)
                 for p, c in sorted(CHECKS.items())],
         not_applicable=[dict(property=n["property"], reason=n["reason"]) for n in NOT_APPLICABLE],
         notes="One driver (run.py) builds each monitor from /repo's working tree and runs it in 8 shards; see DESIGN.md. No hooks in /repo are needed: every monitor observes public state.")
json.dump(m, open(f"{D}/MANIFEST.json", "w"), indent=1)
open(f"{D}/MANIFEST.json", "a").write("\n")
print(len(CHECKS), "checks")

# ---- DESIGN.md sections
import re, glob
def section(tag, text):
    p = f"{D}/DESIGN.md"
    d = open(p).read()
    d = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + text + m.group(2), d, flags=re.S)
    open(p, "w").write(d)
t = ""
for p, c in sorted(CHECKS.items()):
    t += f"### {p} {c['title']}\n\n*Ranges over* {c['text']}.  *Workload:* {c['rule']}  *Oracle:* {c['note']}  *Observed:* {'; '.join(c['observe'])}.  "
    t += f"*Parts:* " + ", ".join(f"{q['name']} ({q['src'][0]}, {q['build']}{', library build' if q.get('mode') == 'lib' else ''})" for q in c["parts"])
    t += ".  *Minimum observed per quick run:* " + ", ".join(f"{k} >= {v}" for k, v in c["require"].items()) + f".  *Beyond the tests:* {c['why']}\n\n"
for n in NOT_APPLICABLE:
    t += f"### {n['property']} {n['title']} (not applicable)\n\n{n['reason']}\n\n"
section("properties", t)
kf = json.load(open(f"{D}/known-findings.json"))["findings"]
section("fixes", "".join(f"* {f['property']} `{f.get('commit', '')}` {f['what']}\n" for f in kf if f["status"] == "fixed"))
r = json.load(open(f"{D}/tools/results.json")) if os.path.exists(f"{D}/tools/results.json") else {}
section("seeded", "| bug | property | needs | checks which report it |\n|---|---|---|---|\n" + "".join(
    f"| {n} | {v['property']} | {v['needs']} | {v['caught']} |\n" for n, v in sorted(r.items())))
