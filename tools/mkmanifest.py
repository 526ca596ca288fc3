"""writes MANIFEST.json from the check modules (run by hand when checks change)"""
import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py") and i not in NA:
        m = importlib.import_module("checks." + i.lower())
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", evidence_file=f"evidence/{i}.json",
            technique=getattr(m, "TECHNIQUE", "contract-based deductive verification of the real code (LLVM IR, Houdini loop invariants, z3)"),
            level=getattr(m, "LEVEL", "proof"), level_note=m.NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
   notes="No hooks are needed in /repo: contracts are written against the compiled code (field layouts come from the compiler's debug information) and live in /verif/checks."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
