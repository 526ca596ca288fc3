"""writes DESIGN.md (by hand, after running the checks: contract names come from /verif/evidence)"""
import os, sys, json, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]; NA = json.load(open(V + "/tools/not_applicable.json"))
rd = lambda f: open(V + "/tools/" + f).read() if os.path.exists(V + "/tools/" + f) else ""
o = [rd("design_head.md")]; na = []
for p in props:
    i = p["id"]; f = f"{V}/checks/{i.lower()}.py"
    if not os.path.exists(f) or i in NA: na.append((i, p["title"], NA.get(i, "check not built yet"))); continue
    m = importlib.import_module("checks." + i.lower()); o.append(f"### {i} {p['title']}\n")
    o.append(m.NOTE + "\n"); e = V + f"/evidence/{i}.json"
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]; fs = c.get("functions_under_contract", [])
        o.append("Contracts: " + ", ".join(f"`{x['name']}`" for x in fs) + f". {c['obligations']} obligations, about {json.load(open(e))['wall_s']:.0f} s.\n")
    src = [s if isinstance(s, str) else "" for s in (m.SRCS() if callable(m.SRCS) else m.SRCS)]; o.append("Sources: " + ", ".join(f"`{s.replace(V + '/', '')}`" for s in src if s) + f"; harness `harness/{i}.cc`" + (f" ({m.HARNESS.get('secs', 5)} s)" if getattr(m, "HARNESS", None) else "") + ".\n")
    if getattr(m, "ASSUME", None): o.append("Assumed: " + "; ".join(m.ASSUME) + ".\n")
    if getattr(m, "TRUSTED", None): o.append("Trusted contracts: " + "; ".join(m.TRUSTED) + ".\n")
o.append("## 3. Not applicable\n"); o += [f"* **{i} {t}**: {r}" for i, t, r in na]; o.append("")
o.append("## 4. Defects found and planted changes\n\n### Genuine defects (all repaired, `known_findings.txt`)\n")
o += ["* " + l[len("fixed: property="):].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:")]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
o.append("\n### Planted changes (`seeded/`)\n\n| change | needs | caught by |\n|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(f"{V}/seeded/{d}/meta.json")); o.append(f"| {d} | {j['needs']} | {caught.get(d, j['property'] + ' (not recorded)')} |")
o.append("\n" + rd("design_tail.md"))
open(V + "/DESIGN.md", "w").write("\n".join(o))
