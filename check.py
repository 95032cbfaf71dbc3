#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current working tree.

A. deductive part: compile the real translation units to LLVM IR, verify the contracts in targets/<property>.py function
   by function (irv), every obligation to an SMT solver.
B. replay part: run the real code natively on concrete inputs (boundary shapes first, then seeded random ones) against an
   independent oracle. It looks for a failing input when an obligation fails, and is the labelled bounded stand-in for
   whatever the verifier did not decide.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                rest = l.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out[key.removeprefix("key=")] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default="AB", help="A (proof) or B (replay) only, for development")
    ap.add_argument("--target", default="", help="run only targets whose name contains this")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = float(os.environ.get("VERIF_LIMIT", "660" if tier == "quick" else "3000"))
    from irv import pool
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    try:
        tm = importlib.import_module(f"targets.{prop}")
    except ModuleNotFoundError as e:
        if e.name != f"targets.{prop}":
            raise
        tm = None
    has_b = os.path.exists(os.path.join(HERE, "replay", f"{prop}.py")) and "B" in a.only
    bproc = None
    try:
        if has_b:
            bout = os.path.join(scratch, "b.json")
            bproc = subprocess.Popen([sys.executable, "-B", "-m", "replay.base", prop, tier, str(seed), scratch, bout,
                                      str(limit * (0.35 if tier == "quick" else 0.6))],
                                     cwd=HERE, start_new_session=True)
        results, trusted, assumptions = [], [], []
        if tm is not None and "A" in a.only:
            targets = [t for t in tm.TARGETS if (tier == "thorough" or t.tier == "quick") and a.target in t.name]
            need = {u for t in targets for u in t.units}
            mods, errs = pool.compile_units({k: v for k, v in tm.UNITS.items() if k in need}, scratch, a.jobs)
            for k, v in errs.items():
                print(f"  unit {k} does not compile: {v[-600:]}")
            results = pool.run_targets(targets, mods, errs, a.jobs - (2 if has_b else 0), t0 + limit - 20,
                                       lambda s: print(s, flush=True))
            trusted = list(getattr(tm, "TRUSTED", []))
            assumptions = list(getattr(tm, "ASSUMPTIONS", []))
        b = None
        if bproc is not None:
            try:
                bproc.wait(timeout=max(5, t0 + limit - time.time()))
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(bout):
                b = json.load(open(bout))
            else:
                b = {"evals": 0, "nontrivial": 0, "samples": [], "fails": [], "notes": ["replay produced no result"]}
            for n in b["notes"]:
                print("  replay:", n)
            print(f"  replay: {b['evals']} concrete evaluations, {len(b['fails'])} failing")
        return verdict(prop, tier, seed, t0, tm, results, trusted, assumptions, b, evdir, rpdir)
    finally:
        if bproc is not None and bproc.poll() is None:
            try:
                os.killpg(bproc.pid, 9)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def known_loops(prop):
    """the loops each target met when its contracts were written (loops.json, made by mkloops.py)"""
    path = os.path.join(HERE, "loops.json")
    return json.load(open(path)).get(prop, {}) if os.path.exists(path) else {}


def verdict(prop, tier, seed, t0, tm, results, trusted, assumptions, b, evdir, rpdir):
    known = known_findings(prop)
    viol = []
    seen_known = set()
    for i, f in enumerate((b or {}).get("fails", [])):
        if f.get("key") in known:
            seen_known.add(f["key"])
            continue
        path = os.path.join(rpdir, f"{prop}-{len(viol)}.json")
        json.dump({"property": prop, "found_by": "native replay of the real code", "failing_input": f}, open(path, "w"),
                  indent=1)
        viol.append((path, True, f["title"]))
        if len(viol) >= 5:
            break
    # Only an obligation with a counterexample is a violation. What the verifier could not decide (a renamed function, a
    # construct or library call without a contract, a solver give-up) is undecided: the bounded replay stands in for it.
    # A loop the contracts were not written for is cut with what invariants the verifier finds by itself: an obligation that
    # fails after that says that these are too weak, or that the code is wrong, and only a failing input tells which.
    loops = known_loops(prop)
    for r in results:
        new = sorted(set(r.get("cuts", {})) - set(loops.get(r["target"], [])))
        if r["status"] == "refuted" and r["target"] in loops and new:
            r.update(status="unknown", detail=f"no invariant is known for the loop {new[0]}")
    open_ = [r for r in results if r["status"] == "refuted"]
    if open_ and not viol:
        for r in open_:
            path = os.path.join(rpdir, f"{prop}-{len(viol)}.json")
            json.dump({"property": prop, "found_by": "deductive verifier: obligation not discharged on the current source",
                       "target": r["target"], "status": r["status"], "detail": r.get("detail", ""),
                       "failed_obligations": r["failed"],
                       "replay_attempts": {"concrete_evaluations": (b or {}).get("evals", 0), "failing_input": None}},
                      open(path, "w"), indent=1)
            what = r["failed"][0]["name"] if r["failed"] else r["status"]
            viol.append((path, False, f"{r['target']}: {what}"))
            if len(viol) >= 5:
                break
    obl = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    backs = {}
    fns, assumed, cuts, cov = set(), {}, {}, 0
    for r in results:
        for k, v in r.get("solver", {}).items():
            backs[k] = round(backs.get(k, 0) + v, 2)
        fns |= set(r.get("functions", []))
        for k, v in r.get("assumed", {}).items():
            assumed[k] = assumed.get(k, 0) + v
        cov += len(r.get("covers", []))
    und = [{"target": r["target"], "status": r["status"]} for r in results if r["status"] != "proved"]
    coverage = {}
    if tm is not None:
        repo_fns = sorted(f[:200] for f in fns if not f.startswith(("std::", "__gnu", "__cxx", "void std::", "bool std::",
                                                                    "decltype", "auto std::", "_mm", "unsigned long std::",
                                                                    "char* std::", "operator new", "fmt::", "__")))
        coverage = {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {tier}",
            "trusted_base": ["clang 18 front end (-O0 IR of the verbatim sources; no source is copied or edited)",
                             "irv: the verification-condition generator in /verif/irv", "z3 5.x (python3-vt), cvc5 1.1.2"]
            + trusted + sorted(f"assumed contract {k}" for k in assumed),
            "targets": [{"target": r["target"], "status": r["status"], "level": r["level"],
                         "obligations": r["obligations"], "discharged": r["discharged"],
                         "sent_to_solver": r.get("solver_obligations", 0),
                         "closed_while_generating": r.get("folded", 0), "wall_s": r.get("wall_s"),
                         "slowest_obligation_s": r.get("max_ob_s"), "loops_cut_by_invariant": r.get("cuts", {}), "loops_met": r.get("loops_met", [])}
                        for r in results],
            "repo_functions_under_contract": repo_fns,
            "functions_whose_body_was_verified": len(fns),
            "vacuity_checks_passed": cov,
            "back_ends": backs,
            "undecided_targets": und,
        }
    if b is not None:
        coverage.update({"evaluations": b["evals"], "distinct_nontrivial": b["nontrivial"], "rule": b.get("rule", ""),
                         "samples": b["samples"][:8] or ["none"],
                         "replay_label": "bounded: concrete inputs against the natively built real code; finds failing "
                                         "inputs, never counted as proved"})
        if b["notes"]:
            coverage["replay_notes"] = b["notes"]
    level = getattr(tm, "LEVEL", "proof") if tm is not None else "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(evdir, f".{prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evdir, f"{prop}.json"))
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for r in results:
        if r["status"] not in ("proved", "refuted"):
            print(f"  UNDECIDED {r['target']}: {r['status']} {r.get('detail', '').strip()[-300:]}")
    for path, found, what in viol:
        print(f"  {what}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
    print(f"{prop} {tier}: {'VIOLATED' if viol else 'held'}; {dis}/{obl} obligations discharged, "
          f"{len(und)} targets undecided, {time.time() - t0:.1f}s")
    if not viol and not dis and not (b or {}).get("evals"):
        print(f"{prop}: nothing could be explored")
        return 2
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
