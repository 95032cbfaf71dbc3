"""SMT back end: z3 (in process) with cvc5 (binary) as second opinion for answers z3 leaves unknown."""
import bisect
import os
import subprocess
import tempfile
import time
import z3
from .val import is_c, zb, fresh_mark


class PC:
    """persistent path condition"""
    __slots__ = ("parent", "fact", "depth", "dead")

    def __init__(self, parent=None, fact=None):
        self.parent, self.fact = parent, fact
        self.depth = parent.depth + 1 if parent else 0
        self.dead = parent.dead if parent else False

    def add(self, f):
        if is_c(f):
            if f:
                return self
            p = PC(self, z3.BoolVal(False))
            p.dead = True
            return p
        if z3.is_true(f):
            return self
        p = PC(self, f)
        if z3.is_false(f):
            p.dead = True
        return p

    def facts(self, until=None):
        out = []
        p = self
        while p is not until and p.parent is not None:
            out.append(p.fact)
            p = p.parent
        out.reverse()
        return out


def common(a, b):
    while a is not b:
        if a.depth >= b.depth and a.parent is not None:
            a = a.parent
        else:
            b = b.parent
    return a


class Solver:
    def __init__(self, deadline=None):
        self.cache = {}
        self.stats = {"z3": 0, "cvc5": 0, "queries": 0, "z3_s": 0.0, "cvc5_s": 0.0}
        self.axioms = []      # closed facts, always included
        self.onces = {}       # key -> (facts, quantified facts, positions) with the trial run they were needed in (see once)
        self.epoch = {}
        self.kept = []
        self.inst = []        # callbacks producing instantiated (quantifier-free) facts at query time
        self.deadline = deadline
        self.models = {}
        self.stale = []       # ranges of symbol numbers made in trial runs that are over
        self._syms = {}
        self._live = {}       # the most recently used sets of live symbols

    def _facts(self, pc, extra=()):
        fs = list(self.axioms)
        for cb in self.inst:
            fs += cb()
        for ax, _, _ in self.onces.values():
            fs += ax
        pf = pc.facts()
        if self.stale:
            # a fact about a symbol of a trial run that is over only matters where that symbol still occurs
            live = self.live(pc)
            if extra:
                live = live.union(*[self.syms(f) for f in extra])
            fs = [f for f in fs if self.old(f) <= live]
        return fs + pf

    def live(self, pc):
        """names of the numbered constants in the facts of pc"""
        todo, p, base = [], pc, frozenset()
        while p.parent is not None:
            h = self._live.get(id(p))
            if h is not None and h[0] is p:
                base = h[1]
                break
            todo.append(p)
            p = p.parent
        if todo:
            base = base.union(*[self.syms(q.fact) for q in todo])
            if len(self._live) >= 256:
                for x in list(self._live)[:64]:
                    del self._live[x]
            self._live[id(pc)] = (pc, base)
        return base

    def retire(self, a, b):
        """symbols numbered a..b-1 belong to a trial run that is over"""
        while self.stale and self.stale[-1][0] >= a:
            self.stale.pop()
        self.stale.append((a, b))
        for k in [k for k, e in self.epoch.items() if a <= e < b]:
            del self.epoch[k], self.onces[k]
        self._old = {}

    def once(self, key, make):
        """facts (valid in every state) that come with a term: make() -> (facts, quantified facts, positions to instantiate
        at).  What was first needed in a trial run is dropped with it, and made again when it is needed again."""
        terms = [k for k in key if isinstance(k, z3.ExprRef)]
        key = tuple(k.get_id() if isinstance(k, z3.ExprRef) else k for k in key)
        if key not in self.onces:
            self.kept.append(terms)
            self.onces[key] = ([], [], [])
            self.epoch[key] = fresh_mark()
            self.onces[key] = make()

    def syms(self, f):
        """names of the numbered constants in f"""
        h = self._syms.get(f.get_id())
        if h is not None:
            return h[1]
        out, st, seen = set(), [f], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args():
                st += x.children()
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if "!" in n:
                    out.add(n)
        out = frozenset(out)
        self._syms[f.get_id()] = (f, out)
        return out

    def old(self, f):
        h = self._old.get(f.get_id())
        if h is None:
            h = frozenset(n for n in self.syms(f) if self.is_old(n))
            self._old[f.get_id()] = h
        return h

    def is_old(self, n):
        d = n.rsplit("!", 1)[1]
        if not d.isdigit():
            return False
        i = bisect.bisect_right(self.stale, (int(d), 1 << 62)) - 1
        return i >= 0 and self.stale[i][0] <= int(d) < self.stale[i][1]

    def check(self, pc, extra=(), timeout=20.0, use_cvc5=True, want_model=False):
        """'unsat' | 'sat' | 'unknown' (and the model when asked)"""
        extra = [e for e in extra if not (is_c(e) and e)]
        if pc.dead or any(is_c(e) and not e for e in extra):
            return ("unsat", None) if want_model else "unsat"
        extra = [zb(e) for e in extra]
        self.stats["queries"] += 1
        if self.deadline and time.time() > self.deadline:
            return ("unknown", None) if want_model else "unknown"
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        fs = self._facts(pc, extra)
        cref, sref = s.ctx.ref(), s.solver
        for f in fs + extra:
            z3.Z3_solver_assert(cref, sref, f.as_ast())
        r = str(s.check())
        dt = time.time() - t0
        self.stats["z3_s"] += dt
        if os.environ.get("IRV_SLOW") and dt > float(os.environ["IRV_SLOW"]):
            print(f"   [slow query {dt:.1f}s -> {r}; {len(fs)} facts; extra {str(extra)[:300]}]")
            if os.environ.get("IRV_DUMP"):
                open(os.environ["IRV_DUMP"], "w").write(s.to_smt2())
        self.last = "z3"
        m = None
        if r == "sat" and want_model:
            m = s.model()
        if r == "unknown" and use_cvc5 and timeout >= 3:
            t1 = time.time()
            r2 = self._cvc5(s.to_smt2(), max(timeout, 10))
            self.stats["cvc5_s"] += time.time() - t1
            if r2 in ("sat", "unsat"):
                r = r2
                self.last = "cvc5"
        self.stats[self.last] += 1
        return (r, m) if want_model else r

    def _cvc5(self, text, timeout):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + text)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True,
                               timeout=timeout + 10)
            return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)

    def valid(self, pc, goal, timeout=3.0, give_up=None):
        """goal follows from pc? quick, used to simplify terms (False = not shown; give_up is called when the solver could
        not tell)"""
        if is_c(goal):
            return bool(goal)
        if z3.is_true(goal):
            return True
        key = ("v", id(pc), goal.get_id())
        hit = self.cache.get(key)
        if hit is not None and hit[1] is pc and hit[2].eq(goal):
            return hit[0]
        r = self.check(pc, [z3.Not(goal)], timeout, use_cvc5=give_up is not None)
        if r == "unknown" and give_up is not None:
            give_up(goal)
        r = r == "unsat"
        self.cache[key] = (r, pc, goal)
        return r

    def feasible(self, pc, cond=True, timeout=2.0):
        if is_c(cond) and not cond:
            return False
        key = ("f", id(pc), cond if is_c(cond) else cond.get_id())
        hit = self.cache.get(key)
        if hit is not None and hit[1] is pc and (is_c(cond) or hit[2].eq(cond)):
            return hit[0]
        r = self.check(pc, [cond], timeout, use_cvc5=False) != "unsat"
        self.cache[key] = (r, pc, cond)
        return r
