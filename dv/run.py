"""Runs the check of one property: discharges the contracts over the code as it
is now, runs the replay / bounded stand-in harness, writes the evidence."""
import sys, os, time, json, importlib, subprocess, threading, multiprocessing, signal, traceback, re
sys.setrecursionlimit(20000)
from collections import OrderedDict
from . import build, stubs, ir, sym
from .engine import verify
V = build.VERIF

def pack(sp, r):
    obl = OrderedDict()
    fails = []
    for label, st, model, trace, t in r.obl:
        o = obl.setdefault(label, [0, 0, 0.0]); o[0] += 1; o[2] += t
        if st == "proved": o[1] += 1
        elif len(fails) < 6:
            ms = ""
            if model is not None:
                try: ms = "\n".join(f"  {d.name()} = {str(model[d])[:200]}" for d in model.decls()[:60])
                except Exception: ms = "?"
            fails.append(dict(label=label, status=st, model=ms, path=[f"{a}:{b}" for a, b in (trace or [])][-40:]))
    ex = r.ex
    return dict(name=sp["name"], function=getattr(r, "fn", ""), status=r.status, err=r.err, tb=getattr(r, "tb", None), wall_s=round(r.time, 2), solver_s=round(r.solver_s, 2),
                queries=r.nq, paths=r.paths, passes=r.passes, obligations=sum(o[0] for o in obl.values()), discharged=sum(o[1] for o in obl.values()),
                labels={k: f"{v[1]}/{v[0]}" for k, v in obl.items() if not k.startswith("loop ")}, loop_obligations=sum(v[0] for k, v in obl.items() if k.startswith("loop ")),
                loops={k: len(v) for k, v in r.loops.items()}, covers=r.covers, fails=fails,
                contracts_used=sorted(ex.used)[:80] if ex else [], inlined=sorted(sym.short(x) for x in ex.inlined)[:120] if ex else [],
                assumed_valid_pointers=sorted(ex.assumed_nonnull)[:40] if ex else [])

def spec_child(q, i, mk, u, scale):
    try:
        sp = mk(u) if callable(mk) else mk
        sp = dict(sp)
        sp["budget"] = sp.get("budget", 150) * scale
        st = sp.pop("stubs", []) + stubs.DEFAULT
        sp.pop("what", None)
        r = verify(unit=u, stubs=st, **sp)
        q.put((i, pack(sp, r)))
    except ir.Unsupported as e:
        q.put((i, dict(name=getattr(mk, "__name__", "?"), status="undecided", err="extraction: " + str(e), obligations=0, discharged=0)))
    except Exception as e:
        q.put((i, dict(name=getattr(mk, "__name__", "?"), status="undecided", err=f"internal: {type(e).__name__}: {e}", tb=traceback.format_exc(), obligations=0, discharged=0)))

def run_specs(u, mks, par, scale, limit):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    todo = list(enumerate(mks)); live = {}; res = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < par:
            i, mk = todo.pop(0)
            p = ctx.Process(target=spec_child, args=(q, i, mk, u, scale)); p.start(); live[i] = p
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r; live.pop(i).join(5)
        except Exception:
            for i, p in list(live.items()):
                if not p.is_alive() and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        res[i] = dict(name=getattr(mks[i], "__name__", "?"), status="undecided", err="verifier process died", obligations=0, discharged=0); live.pop(i)
        if time.time() - t0 > limit:
            for i, p in live.items():
                p.kill(); res[i] = dict(name=getattr(mks[i], "__name__", "?"), status="undecided", err="time limit", obligations=0, discharged=0)
            for i, mk in todo: res[i] = dict(name=getattr(mk, "__name__", "?"), status="undecided", err="time limit (not started)", obligations=0, discharged=0)
            break
    return [res[i] for i in range(len(mks))]

def known(prop):
    """[(key, text)] of the recorded findings of the property"""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    t0 = time.time()
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + prop.lower())
    kn = known(prop)
    H = getattr(mod, "HARNESS", None)
    hres = {}
    def harness():
        try:
            exe = build.native(H["file"], H.get("srcs"), H.get("san", True))
        except Exception as e:
            hres["err"] = f"{type(e).__name__}: {e}"; return
        secs = H.get("secs", 8) if tier == "quick" else H.get("thorough_secs", 150)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=12000:symbolize=0", MLIO_KNOWN=",".join(k for k, _ in kn), TMPDIR=build.scratch())
        try:
            r = subprocess.run([exe, str(seed), str(secs), tier], capture_output=True, text=True, errors="replace", env=env, timeout=secs + 500, cwd=build.scratch())
            hres.update(rc=r.returncode, out=r.stdout, errout=r.stderr[-6000:])
        except subprocess.TimeoutExpired:
            hres["err"] = "harness time limit"
    build.incs()
    th = None
    if H: th = threading.Thread(target=harness); th.start()
    res = []; exerr = None
    srcs = getattr(mod, "SRCS", [])
    if srcs:
        try:
            u = build.compile_ir(srcs)
            sym.demangle_all([n for m in u.mods for n in m.funcs])
            mks = mod.specs(u)
            res = run_specs(u, mks, 7, 1 if tier == "quick" else 3, 420 if tier == "quick" else 2400)
        except (ir.Unsupported, build.BuildError) as e:
            exerr = f"{type(e).__name__}: {e}"
        except Exception as e:
            exerr = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    if th: th.join()
    # ---------------- verdict
    out = hres.get("out", "")
    fail = re.search(r"^FAIL (.*?)^CASE (.*)", out, re.S | re.M)
    kkeys = {k for k, _ in kn}
    failed = []
    knownhit = set(re.findall(r"^KNOWN (\S+)", out, re.M))
    for r in res:
        if r["status"] != "failed": continue
        fs = [f for f in r["fails"] if f["status"] == "failed"]
        fresh = [f for f in fs if (r["name"] + "/" + f["label"]).replace(" ", "_") not in kkeys]
        for f in fs:
            k = (r["name"] + "/" + f["label"]).replace(" ", "_")
            if k in kkeys: knownhit.add(k)
        if fresh: failed.append((r, fresh))
    harness_failed = H and hres.get("rc") == 1 and fail
    undec = [r for r in res if r["status"] not in ("proved", "failed")]
    nproved = sum(r["status"] == "proved" for r in res)
    cnt = lambda k: int((re.search(rf"^{k} (\d+)", out, re.M) or [0, 0])[1])
    samples = re.findall(r"^SAMPLE (.*)", out, re.M)
    # ---------------- evidence
    level = mod.LEVEL if hasattr(mod, "LEVEL") else ("proof" if srcs else "exploration")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=0, coverage={}, violations=0)
    c = ev["coverage"]
    if srcs:
        c["obligations"] = sum(r["obligations"] for r in res)
        c["discharged"] = sum(r["discharged"] for r in res)
        c["checker_cmd"] = f"/verif/check {prop}"
        tb = ["clang++-18 -O0 and opt-18 sroa (C++ to LLVM IR) and the IR semantics in dv/sym.py", "z3 5.3.2 (python3-vt), cvc5 1.1.2 where z3 gives no answer", "the contract text in checks/%s.py" % prop.lower()]
        tb += list(getattr(mod, "TRUSTED", []))
        c["trusted_base"] = tb
        c["functions_under_contract"] = [dict(name=r["name"], function=r.get("function"), status=r["status"], note=r.get("err"), obligations=r["obligations"], discharged=r["discharged"],
             loop_invariant_obligations=r.get("loop_obligations"), loops=r.get("loops"), paths=r.get("paths"), covers=r.get("covers"), solver_s=r.get("solver_s"), wall_s=r.get("wall_s"), queries=r.get("queries"),
             obligations_by_label=r.get("labels"), executed_inside=r.get("inlined"), external_contracts_assumed=r.get("contracts_used"), pointers_assumed_valid=r.get("assumed_valid_pointers")) for r in res]
        c["proved_functions"] = nproved
        c["proof_not_reestablished"] = [f"{r['name']}: {r.get('err')}" for r in undec] + ([f"extraction failed: {exerr}"] if exerr else [])
        c["solver_s"] = round(sum(r.get("solver_s") or 0 for r in res), 2)
    if H:
        b = dict(label="bounded, not counted as proved", evaluations=cnt("CASES"), distinct_nontrivial=cnt("NONTRIVIAL"), rule=H.get("rule", "see the header of harness/" + H["file"]), samples=samples,
                 error=hres.get("err"))
        c["bounded_stand_in"] = b
        if level != "proof": c.update(evaluations=b["evaluations"], distinct_nontrivial=b["distinct_nontrivial"], rule=b["rule"], samples=samples)
    ev["assumptions"] = list(getattr(mod, "ASSUME", []))
    # ---------------- report
    rc = 0
    rp = os.path.join(V, "replays", f"{prop}.txt")
    if harness_failed or failed:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write(f"property {prop}\n")
            if harness_failed:
                f.write(f"\nfailing input on the real code (harness/{H['file']}, seed {seed}, tier {tier}):\n  case: {fail.group(2).strip()}\n  what failed: {fail.group(1).strip()}\n")
                f.write(f"  rerun: VERIF_SEED={seed} VERIF_TIER={tier} /verif/check {prop}\n")
                if hres.get("errout"): f.write("  stderr:\n" + hres["errout"] + "\n")
            for r, fs in failed:
                for x in fs:
                    f.write(f"\nfailed obligation of {r['name']} ({r['function']}):\n  {x['label']}\n  path: {' '.join(x['path'])}\n  verifier's model:\n{x['model']}\n")
        for r, fs in failed:
            for x in fs[:2]: print(f"failed obligation: {r['name']}: {x['label']}")
        if harness_failed: print("failing input: " + fail.group(2).strip()[:500].replace("\n", " ") + " -- " + fail.group(1).strip()[:500].replace("\n", " "))
        print(f"VIOLATION property={prop} replay={rp}" + ("" if harness_failed else " no-failing-input-found"))
        rc = 1; ev["violations"] = 1
    for k, text in kn:
        if k in knownhit: print(f"KNOWN-FINDING: property={prop} {text}")
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {nproved}/{len(res)} contracts proved, {c.get('discharged', 0)}/{c.get('obligations', 0)} obligations, {len(undec)} undecided; harness {cnt('CASES')} cases" +
          (f" [{hres['err'][:1500]}]" if hres.get("err") else "") + f"; {ev['wall_s']} s")
    if os.environ.get("DV_DEBUG"):
        for r in res:
            print(" ", r["name"], r["status"], r.get("err"), "wall", r.get("wall_s"), "paths", r.get("paths"), "passes", r.get("passes"), "q", r.get("queries"), "obl", r["obligations"], r.get("covers"))
            if r.get("tb"): print(r["tb"])
            for x in r.get("fails", []): print("    FAILED", x["label"], x["status"], "\n", x["model"][:1500] if os.environ["DV_DEBUG"] == "2" else "", x["path"][-12:])
            if os.environ["DV_DEBUG"] == "2": print("    labels", r.get("labels")); print("    used", r.get("contracts_used")); print("    inl", r.get("inlined")); print("   ptr", r.get("assumed_valid_pointers"))
    for e in [exerr] if exerr else []: print("extraction:", e)
    sys.stdout.flush()
    os._exit(cleanup(rc))

def cleanup(rc):
    import shutil
    if build._scratch: shutil.rmtree(build._scratch, ignore_errors=True)
    return rc

if __name__ == "__main__": main()
