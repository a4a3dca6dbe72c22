#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py and jobs.py"""
import json, meta, jobs
NA = getattr(meta, "NA", {})
with open("properties.jsonl", "w") as f:
    for k in sorted(meta.P):
        m = meta.P[k]
        assert len(m["title"]) <= 80, (k, len(m["title"]))
        f.write(json.dumps(dict(id=k, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["qtext"]), why_tests_cant=m["why"],
                anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]]))) + "\n")
TECH = "symbolic execution of the LLVM IR of the real code, assertions decided by z3; counterexamples replayed on the real code"
checks = []
for k in sorted(meta.P):
    if k in NA: continue
    assert k in jobs.PROPS, k
    checks.append(dict(property=k, quick_cmd=f"python3 check.py {k} --tier quick", thorough_cmd=f"python3 check.py {k} --tier thorough", evidence_file=f"evidence/{k}.json",
        technique=TECH + ("; EUF for floating-point values" if any(j.get("uf") for j in jobs.PROPS[k]["quick"]) else "") + ("; happens-before race queries over pairs of loop iterations" if any(j.get("omp") for j in jobs.PROPS[k]["quick"]) else ""),
        level="model_checking", level_note=meta.P[k]["note"] or "exhaustive for all inputs within the bounds listed per job in the evidence file (sizes, degrees, parameter ranges); trusts clang's lowering to IR, the executor's memory model (validated by native replays of sampled paths) and z3; nothing is claimed beyond the bounds"))
for k in jobs.PROPS: assert k in meta.P, k
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in sorted(NA.items())],
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged", source_commits=[]),
    notes="See DESIGN.md. known_findings.txt lists repaired defects (fixed: lines) and, if any, recorded findings."), open("MANIFEST.json", "w"), indent=1)

# DESIGN.md = hand-written text up to the marker, then the table of planted bugs and the list of properties
import glob, os
M = "<!-- generated below by gen.py -->"
head = open("DESIGN.md").read().split(M)[0].rstrip() + "\n"
out = [head, M, "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    b = f.split("/")[1]; j = json.load(open(f)); out.append(f"| {b} | {j['property']} | {caught.get(b, '')} | {j['needs']} |")
out += ["", "## Properties"]
def bounds(j): return j["entry"] + "(" + ",".join(f"{k}={v}" for k, v in j["params"].items()) + (f"; {j['omp']} threads" if j.get("omp") else "") + ")"
for k in sorted(meta.P):
    m = meta.P[k]
    out += [f"### {k} {m['title']}", f"*Over*: {m['qtext']}. *Tests cannot*: {m['why']}.", f"*Code*: " + "; ".join(f"{a} ({b})" for a, b in m["mech"]) + "."]
    if k in jobs.PROPS:
        out += ["*Quick*: " + " ".join(bounds(j) for j in jobs.PROPS[k]["quick"]) + ".", "*Thorough adds*: " + (" ".join(bounds(j) for j in jobs.PROPS[k]["thorough"]) or "nothing") + "."]
        if jobs.PROPS[k]["assumptions"]: out.append("*Assumes*: " + "; ".join(jobs.PROPS[k]["assumptions"]) + ".")
    out.append("")
open("DESIGN.md", "w").write("\n".join(out))
