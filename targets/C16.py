"""C16: the reported difference turns the old database into the new one."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm
from . import dbm, appm, mains

UNITS = {"diff": ("/verif/harness/diff.cpp", [], "c++")}
TRUSTED = []
ASSUMPTIONS = ["flat_file::database, operator<=>, pawned_pw::to_string: their contracts, proved in C04, C01, C02",
               "the databases are strictly ascending (no hash occurs twice)",
               "fmt::format substitutes the arguments it is given for the fields of its format text, and operator<< writes the text"]
LINE = re.compile(r"^\{\}:\{:08X\}:\{\}\n?$")


class Walk:
    """The walk over the new database: I(j) = number of records of the old one accounted for by new records before j."""

    def __init__(self, ex, old, new):
        self.ex, self.old, self.new = ex, old, new
        self.I = z3.Function(fresh_name("I"), z3.IntSort(), z3.IntSort())
        self.seen = {}
        ex.solver.axioms.append(self.I(0) == 0)

    def inst(self, j):
        if j.get_id() in self.seen:
            return
        self.seen[j.get_id()] = j
        I = self.I(j)
        hit = z3.And(I < self.old.D, self.old.key(I) == self.new.key(j))
        self.ex.solver.axioms.append(z3.Implies(z3.And(j >= 0, j < self.new.D), z3.And(
            I >= 0, self.I(j + 1) == I + z3.If(hit, z3.IntVal(1), z3.IntVal(0)))))

    def at(self, j):
        j = zi(j)
        for x in (z3.simplify(j - 1), z3.simplify(j)):
            self.inst(x)
        return self.I(j)

    def missing(self, j):
        """the record of the old database that the walk is at when it gets to new record j is not in the new database
        (lemma `missing`)"""
        i = self.at(j)
        return z3.And(j >= 0, j <= self.new.D, i < self.old.D,
                      z3.Or(j == self.new.D, dbm.lt(self.old.key(i), self.new.key(j))))


def iterators(st, d):
    """(object, offset) of every pair of a pointer to d and a position"""
    out = []
    for oid, c in st.mem.items():
        if isinstance(c, CellC):
            for o, (n, v) in c.c.items():
                if n == 8 and isinstance(v, Ptr) and v.obj is d.this.obj and v.obj is not None and o + 8 in c.c \
                        and c.c[o + 8][0] == 8 and (is_zi(c.c[o + 8][1]) or is_c(c.c[o + 8][1])):
                    out.append((oid, o + 8))
    return out


def cell(s, c):
    x = s.mem.get(c[0])
    if not isinstance(x, CellC) or c[1] not in x.c:
        return None
    n, v = x.c[c[1]]
    return zi(v) if is_zi(v) or is_c(v) and not isinstance(v, bool) else None


def written(s, c):
    """the cell has a value before the loop"""
    v = cell(s, c)
    return v is not None and not str(v).startswith("uninit")


def run_diff(ctx, kind):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"run_diff<{kind}>", int_widths=(32, 64))
    dbm.use_ranks(ex, N)
    st = State()
    old = dbm.DBM(ctx, ex, st, kind, file="OLD", name="old", place="run_diff")
    new = dbm.DBM(ctx, ex, st, kind, file="NEW", name="new", place="run_diff")
    for d in (old, new) if ex.safety != "wild" else ():
        ex.forall(lambda i, d=d: z3.Implies(z3.And(i >= 0, i + 1 < d.D), dbm.lt(d.key(i), d.key(i + 1))))
    st.ghost.update({"io": 0, "missing": 0, "half": 0})
    appm.Opens(ctx, ex, [(old, "old"), (new, "new")])
    po, pn = Ptr(ex.new_obj(st, "old.path", 40, content=CellC()), 0), Ptr(ex.new_obj(st, "new.path", 40, content=CellC()), 0)
    appm.named_string(ex, st, po, "old")
    appm.named_string(ex, st, pn, "new")
    os_ = Ptr(ex.new_obj(st, "diff", 4096, content=CellC()), 0)
    w = Walk(ex, old, new)

    def same(j):
        i = w.at(j)
        return z3.And(i < old.D, old.key(i) == new.key(j), dbm.cnt(old.at(i), N) == dbm.cnt(new.at(j), N))

    seq = appm.Seq(ex, "hunks", lambda j: z3.Not(same(j)), lambda j: j)
    seq.start(st)

    def on_text(ex, st, os, v):
        if not (isinstance(os, Ptr) and os.obj is os_.obj):
            if appm.global_named(os, "_ZSt4cerr"):
                return
            raise Unsupported("text on another stream")
        if v == "\n":
            ex.oblige(st, "a line ends after a hunk", zi(st.ghost["half"]) == 1)
            st.ghost["half"] = 0
            return
        if not isinstance(v, appm.Fmt) or not LINE.match(v.text) or len(v.args) != 3:
            raise Unsupported(f"text {getattr(v, 'text', v)!r} in the difference")
        (t, ty), (tp, pos), (_, r) = v.args
        if t != 8 or tp not in (2, 4) or not (isinstance(r, tuple) and r[0] == "rec"):
            raise Unsupported(f"arguments {[a[0] for a in v.args]} of a hunk")
        ex.oblige(st, "hunks are on lines of their own", zi(st.ghost["half"]) == 0)
        n = seq.count(st)
        j = seq.E(n)
        i = w.at(j)
        upd = z3.And(i < old.D, old.key(i) == new.key(j))
        what = "the hunk is the next record of NEW that differs"
        ex.oblige(st, what, r[1] == new.at(j))
        ex.oblige(st, what + ", with its position in OLD", zi(norm(pos)) == i)
        ex.oblige(st, what + ", with its kind", z3.If(upd, to_bv(ty, 8) == ord("U"), to_bv(ty, 8) == ord("I")))
        st.ghost[seq.g] = i_add(st.ghost[seq.g], 1)
        st.ghost["half"] = 0 if v.text.endswith("\n") else 1
    appm.Texts(ex, on_text)

    def fail(ex, st, args, dem):
        its = {cell(st, c).get_id(): cell(st, c) for c in iterators(st, new)}
        ps = list(its.values()) + [new.D]
        ex.oblige(st, "a reported deletion is a record of OLD that is missing from NEW",
                  z3.Or(zi(st.ghost["io"]) == 1, *[w.missing(p) for p in ps]))
        st.ghost["missing"] = 1
        return None
    ex.contracts.append((re.compile(r"^std::runtime_error::runtime_error\("), fail))

    def cands(ex, ctx_, H, mods, k):
        ids = lambda c: c[1].id if hasattr(c[1], "id") else c[1]
        mod = [(ids(c), c[2]) for c in mods.keys() if c[0] == "cell" and c[3] == 8]
        plain = [c for c in mod if cell(H, c) is not None and c not in iterators(H, old) and c not in iterators(H, new)]
        olds, news = [[c for c in iterators(H, d) if written(ctx_.entry, c)] for d in (old, new)]
        plain = [c for c in plain if written(ctx_.entry, c)]
        bs = [c for c in mod if c in news] + plain
        out = []
        for b in bs:
            def cnt(s, k, b=b):
                v = cell(s, b)
                return z3.BoolVal(False) if v is None else seq.count(s) == seq.at(v)
            def rng(s, k, b=b):
                v = cell(s, b)
                return z3.BoolVal(False) if v is None else z3.And(v >= 0, v <= new.D)
            out += [cnt, rng]
            for a in [c for c in olds] + plain:
                if a == b:
                    continue
                def f(s, k, a=a, b=b):
                    x, y = cell(s, a), cell(s, b)
                    return z3.BoolVal(False) if x is None or y is None else z3.And(x == w.at(y), x <= old.D)
                out.append(f)
        out.append(lambda s, k: zi(s.ghost["half"]) == 0)
        return out
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, rf"hibp::diffutils::run_diff<hibp::pawned_pw<{N}u|^_ZN4hibp9diffutils8run_diffI.*pawned_pwILj{N}E")
    out = ex.run_fn(m, f, [po, pn, os_], st)
    s = out.st
    ex.oblige(s, "the walk ends with every record of OLD accounted for", w.at(new.D) == old.D)
    seq.done(s, new.D, "every difference is reported")
    ex.oblige(s, "the last line is complete", zi(s.ghost["half"]) == 0)
    for x in out.excs:
        ex.oblige(x, "an error is only reported for a failing file or a missing record",
                  z3.Or(zi(x.ghost["io"]) == 1, zi(x.ghost["missing"]) == 1))
    ctx.cover(ex, s, "end")


def missing(ctx, kind):
    """lemma: where the walk meets a new record above the old one (or the end), that old record is not in NEW, unless an
    earlier one is missing already (induction over the new records)"""
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"missing<{kind}>")
    dbm.use_ranks(ex, N)
    st = State()
    old = dbm.DBM(ctx, ex, st, kind, file="OLD", name="old", place="x")
    new = dbm.DBM(ctx, ex, st, kind, file="NEW", name="new", place="x")
    w = Walk(ex, old, new)
    r = ex.fresh(st, 64, "r")
    st.assume(r < new.D)

    def below(j):
        """every new record before j is below the old record that the walk is at (last one; the rest by sortedness)"""
        i = w.at(j)
        return z3.Or(j == 0, i == old.D, dbm.lt(new.key(j - 1), old.key(i)))
    ex.oblige(st, "base", below(z3.IntVal(0)))
    i = w.at(r)
    st.assume(z3.And(i >= 0, i <= old.D, below(r), z3.Not(w.missing(r))))
    st.assume(z3.Implies(i + 1 < old.D, dbm.lt(old.key(i), old.key(i + 1))))
    ex.oblige(st, "step", below(r + 1))
    ex.oblige(st, "step: position stays in range", z3.And(w.at(r + 1) >= 0, w.at(r + 1) <= old.D))
    s = State()
    p = ex.fresh(s, 64, "p")
    q = ex.fresh(s, 64, "q")
    i = w.at(p)
    s.assume(z3.And(p <= new.D, below(p), w.missing(p), i >= 0))
    # strictly ascending, used between q and its neighbours p-1 and p
    s.assume(z3.And(q < new.D, z3.Implies(z3.And(q < p - 1, p >= 1), dbm.lt(new.key(q), new.key(p - 1))),
                    z3.Implies(z3.And(q > p, p < new.D), dbm.lt(new.key(p), new.key(q)))))
    ex.oblige(s, "no record of NEW has the hash", new.key(q) != old.key(i))
    ctx.cover(ex, s, "missing")


TARGETS = [Target(f"run_diff<{k}>", ["diff"], run_diff, kind=k) for k in ("sha1", "ntlm")] + \
    [Target(f"lemma: missing records <{k}>", ["diff"], missing, kind=k) for k in ("sha1", "ntlm")]
UNITS["diff_main"] = ("/verif/harness/diff_main.cpp", [], "c++")
TARGETS.append(Target("main of hibp-diff", ["diff_main"], mains.diff_main))
