#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the properties, the checks and the planted bugs."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib", V + "/checks"]
part = lambda n: open(f"{V}/tools/design/{n}.md").read()
bugs = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((f.split("/")[-2], m))
missed = json.load(open(V + "/tools/design/missed.json"))
out = [part("head")]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = importlib.import_module(p["id"].lower())
    out.append(f"### {p['id']} {p['title']}\n\n")
    out.append(f"- **Workload and oracle.** {c.RULE}\n")
    out.append(f"- **Observed at** {', '.join(p['anchors']['observe_at'])}; {c.CASES['quick']} cases ({c.TIME['quick']} s at most) in the quick tier, "
               f"{c.CASES['thorough']} ({c.TIME['thorough'] // 60} min at most) in the thorough one. A run has to have seen: {', '.join(c.MUST_SEE) if c.MUST_SEE else '-'}.\n")
    if getattr(c, "ASSUMPTIONS", None):
        out.append(f"- **Bounds.** {'; '.join(c.ASSUMPTIONS)}.\n")
    out.append(f"- **Beyond the tests.** {p['why_tests_cant']}\n\n")
out.append(part("tail"))
out.append("## Planted bugs\n\n`seeded/<id>/` has the patch, a demonstration and what it needs to manifest; `tools/seed.py` confirms one (it builds, passes all tests, "
           "the demonstration fails with it and passes without). \"Caught\" is the quick check of its property with VERIF_SEED=1.\n\n"
           "| bug | what it needs | what it breaks | caught |\n|---|---|---|---|\n")
n = 0
for prop in sorted(bugs):
    for i, m in bugs[prop]:
        n += 1
        cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
        out.append(f"| {i} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {'no: ' + missed[i] if i in missed else 'yes'} |\n")
out.append(f"\n{n} planted bugs, {n - len(missed)} caught.\n\n")
out.append(part("findings"))
open(V + "/DESIGN.md", "w").write("".join(out).rstrip("\n") + "\n")
