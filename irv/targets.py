"""Proof targets: one target = one real function (or one lemma over its contracts) verified in its own process."""
import json
import os
import re
import sys
import time
import traceback
import z3
from . import build, models
from .exec import Executor, State, SAFETY
from .val import Unsupported


class Target:
    def __init__(self, name, units, fn, budget=300, tier="quick", level="proved", safety=None, **kw):
        self.name, self.units, self.fn, self.budget, self.tier, self.level, self.kw = \
            name, units, fn, budget, tier, level, kw
        self.safety = safety       # None: everything; "check": report only undefined behaviour; "wild": look for nothing else


class Missing(Exception):
    """the function a contract is written for is not in the program any more"""


class Ctx:
    def __init__(self, target, mods, deadline):
        self.target, self.mods, self.deadline = target, mods, deadline
        self.exs = []
        self.notes = []
        self.lemmas = []

    def executor(self, name=None, units=None, timeout=60.0, **kw):
        ms = [self.mods[u] for u in (units or self.target.units)]
        ex = Executor(ms, name or self.target.name, timeout=timeout, deadline=self.deadline, **kw)
        ex.safety = self.target.safety
        models.install(ex)
        self.exs.append(ex)
        return ex

    def find(self, ex, rx, n=None):
        """the unique function whose demangled name matches rx -> (module, mangled name)"""
        r = re.compile(rx)
        hits = []
        for m in ex.modules:
            for k, d in m.demangled.items():
                if r.search(d) and m.has_fn(k) and not any(h[1] == k for h in hits):
                    hits.append((m, k))
        if not hits:
            raise Missing(f"no function matches {rx}")
        if n is None and len(hits) > 1:
            # constructors/destructors come as C1/C2 clones
            hits.sort(key=lambda h: h[1])
        return hits[0] if n is None else hits[:n]

    def cover(self, ex, st, what):
        """vacuity guard: the end of the contract's path must be reachable"""
        r = ex.solver.check(st.pc, [], ex.timeout, use_cvc5=False)
        self.lemmas.append((f"cover:{what}", r))
        if r == "unsat":
            raise Vacuous(what)


class Vacuous(Exception):
    pass


def model_text(m, lim=60):
    out = []
    try:
        for d in sorted(m.decls(), key=lambda d: d.name())[:lim]:
            out.append(f"{d.name()} = {str(m[d])[:120]}")
    except Exception:
        pass
    return out


def run_target(t, mods, wfd):
    """child process body: writes one JSON document to wfd"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(t, mods, t0 + t.budget)
    res = {"target": t.name, "status": "proved", "detail": "", "level": t.level}
    try:
        t.fn(ctx, **t.kw)
    except Unsupported as e:
        res.update(status="unsupported", detail=str(e)[:800])
    except Missing as e:
        res.update(status="missing", detail=str(e)[:800])
    except Vacuous as e:
        # an obligation that was refuted is assumed afterwards, which may leave nothing reachable
        if not any(o.status == "refuted" for ex in ctx.exs for o in ex.obs):
            res.update(status="vacuous", detail=str(e)[:800])
    except Exception:
        # after a refuted obligation the rest of the path is vacuous, and code that reads its result may trip over that
        if not any(o.status == "refuted" for ex in ctx.exs for o in ex.obs):
            res.update(status="error", detail=traceback.format_exc()[-1500:])
    if time.time() > t0 + t.budget and res["status"] != "proved":
        res["status"] = "timeout"
    obs, fns, assumed, stats, cuts, met = [], {}, {}, {}, {}, set()
    folded = 0
    for ex in ctx.exs:
        for o in ex.obs:
            d = {"name": o.name, "kind": o.kind, "status": o.status, "s": round(o.t, 3), "by": o.backend}
            if o.status != "discharged":
                d["loc"] = o.name
                if o.model is not None:
                    d["model"] = model_text(o.model)
            obs.append(d)
        folded += ex.folded
        for k in ex.executed:
            fns[k] = fns.get(k, 0) + ex.executed[k]
        for k, n in ex.assumed.items():
            kk = f"{k[0]}:{k[1]}"
            assumed[kk] = assumed.get(kk, 0) + n
        for k, v in ex.solver.stats.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in ex.cuts.items():
            cuts[str(k)] = v if isinstance(v, (int, str)) else str(v)
        met |= ex.loops_met
    if t.safety is not None:
        rest = [o for o in obs if o["kind"] not in SAFETY]
        obs = [o for o in obs if o["kind"] in SAFETY]
        ctx.notes.append(f"{len(rest)} obligations of other properties were used")
        op = [o["name"] for o in rest if o["status"] != "discharged"]
        if op and res["status"] == "proved":
            res.update(status="unsupported", detail=f"relies on obligations of other properties that are open: {op[:3]}")
    bad = [o for o in obs if o["status"] == "refuted"]
    unk = [o for o in obs if o["status"] == "unknown"]
    if t.safety is not None and res["status"] == "unsupported" and bad:
        res.update(status="proved", detail="")     # what comes after an access outside an object does not matter
    if res["status"] == "proved":
        if bad:
            res["status"] = "refuted"
        elif unk:
            res["status"] = "timeout" if time.time() > t0 + t.budget else "unknown"
        elif not obs and not folded:
            res.update(status="vacuous", detail="no obligation was generated")
    res.update(obligations=len(obs) + folded, discharged=len(obs) - len(bad) - len(unk) + folded, folded=folded,
               solver_obligations=len(obs), failed=(bad + unk)[:20], functions=sorted(fns), assumed=assumed,
               solver=stats, cuts=cuts, loops_met=sorted(met), covers=ctx.lemmas, notes=ctx.notes, wall_s=round(time.time() - t0, 2),
               max_ob_s=max([o["s"] for o in obs], default=0))
    with os.fdopen(wfd, "w") as f:
        json.dump(res, f)
