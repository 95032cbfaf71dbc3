"""C07: a lookup through the table of contents finds exactly what a search of the whole database finds."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out, LoopSpec
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm
from . import dbm, appm

UNITS = {"toc": ("/verif/harness/toc.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = ["std::find_if: the first position in the range whose record meets the (real) predicate", "std::vector<uint32_t>::clear, reserve, push_back"]
ASSUMPTIONS = ["flat_file::database: its contracts, proved in C04; comparison of records: its contract, proved in C01"]


def prefix(rec_key, N, bits):
    """the leading `bits` bits of a hash, as a 32-bit number"""
    top = z3.Extract(8 * N - 1, 8 * N - 32, rec_key)
    return z3.LShR(top, z3.BitVecVal(32, 32) - bits)


class Toc:
    """the global table: size S, content toc[p]"""

    def __init__(self, ctx, ex, st, kind):
        self.ctx, self.ex, self.kind = ctx, ex, kind
        self.v = ex.run_fn(*ctx.find(ex, rf"^acc_toc_{kind}\("), [], st).val
        self.es = ex.run_fn(*ctx.find(ex, rf"^acc_toc_elem_{kind}\("), [], st).val

    def put(self, st, size, node):
        ex = self.ex
        self.o = o = ex.new_obj(st, "toc", i_scale(size, self.es), "heap", content=ArrC(self.es, node, True))
        # the global may be any object: give it fresh cells
        st.mem[self.v.obj.id] = CellC({})
        ex.store(st, self.v, Ptr(o, 0), PTR)
        ex.store(st, ex.padd(self.v, 8), Ptr(o, i_scale(size, self.es)), PTR)
        ex.store(st, ex.padd(self.v, 16), Ptr(o, i_scale(size, self.es)), PTR)


class Pfx:
    """contract of pw_to_prefix (proved by the target of that name): the leading bits as a number, monotone in the hash"""

    def __init__(self, ctx, ex, st, kind, d):
        self.ex, self.d, self.N = ex, d, d.N
        self.fn = z3.Function(fresh_name("PFX"), z3.BitVecSort(8 * d.N) if getattr(ex, "rank", None) is None else z3.IntSort(), z3.IntSort())
        self.bits = ex.fresh(st, 32, "bits")
        self.lim = z3.Int("two_to_the_bits")
        st.assume(z3.And(self.bits >= 1, self.bits <= 31, self.lim >= 2, self.lim <= 1 << 31))
        self.used = 0
        ctx.find(ex, r"hibp::details::pw_to_prefix<")
        ex.contracts.append((re.compile(r"hibp::details::pw_to_prefix<"), self.handler))
        self.atf = z3.Function(fresh_name("PFX_AT"), z3.IntSort(), z3.IntSort())

    def handler(self, ex, st, args, dem):
        self.used += 1
        ex.oblige(st, "the prefix has the width of the table", i_eq(norm(args[1]) if not is_bv(args[1]) else to_zi(args[1], 32), self.bits))
        return self.of(dbm.hash_of(ex, st, args[0], self.N))

    def of(self, k):
        v = self.fn(k)
        self.ex.solver.once((self, k), lambda: ([z3.And(v >= 0, v < self.lim)], [], []))
        return v

    def at(self, i):
        i = z3.simplify(zi(i))
        v = self.atf(i)
        w = self.of(self.d.key(i))
        self.ex.solver.once((self, i, "at"), lambda: ([v == w], [], []))
        return v

    def mono(self, k):
        """facts relating the prefix of k to that of every record"""
        def f(i):
            r = self.d.key(i)
            return z3.And(z3.Implies(z3.ULT(r, k), self.of(r) <= self.of(k)), z3.Implies(z3.UGE(r, k), self.of(r) >= self.of(k)))
        self.ex.forall(f)

    def check_used(self):
        if not self.used:
            raise Unsupported("the prefix is not computed by pw_to_prefix any more")


def prefix_fn(ctx, kind):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"pw_to_prefix<{kind}>")
    st = State()
    p, v = dbm.sym_record(ex, st, rec, "rec")
    bits = z3.BitVec("bits", 32)
    st.assume(z3.And(z3.UGE(bits, 1), z3.ULE(bits, 31)))
    m, f = ctx.find(ex, rf"hibp::details::pw_to_prefix<hibp::pawned_pw<{N}u>")
    out = ex.run_fn(m, f, [p, bits], st)
    r, k = to_bv(out.val, 32), dbm.key(v, N)
    ex.oblige(out.st, "the prefix is the leading bits of the hash", r == prefix(k, N, bits))
    k2 = z3.BitVec("k2", 8 * N)
    ex.oblige(out.st, "monotone in the hash", z3.Implies(z3.ULE(k, k2), z3.ULE(r, prefix(k2, N, bits))))
    ex.oblige(out.st, "below 2^bits", z3.ULT(r, z3.BitVecVal(1, 32) << bits))
    ctx.cover(ex, out.st, "end")


def search(ctx, kind):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"toc_search<{kind}>", int_widths=(32, 64))
    st = State()
    d = dbm.DBM(ctx, ex, st, kind)
    t = Toc(ctx, ex, st, kind)
    px = Pfx(ctx, ex, st, kind, d)
    needle, v = dbm.sym_record(ex, st, rec, "needle")
    k = dbm.key(v, N)
    LB = d.lower(st, k)
    P = px.of(k)
    px.mono(k)
    # what build's contract promises: toc[p] is the position of the first record with a prefix >= p, for every p < S,
    # and no record has a prefix >= S
    S = ex.fresh(st, 64, "toc.size")
    wild = ex.safety == "wild"
    st.assume(z3.And(S >= 1, S <= px.lim, d.D >= 1) if not wild else S < 1 << 61)
    TOC = Base("TOC", 32, True)
    t.put(st, S, TOC)
    B0, B1 = TOC.read(P, ex), TOC.read(P + 1, ex)
    if not wild:
        st.assume(z3.And(z3.Implies(P < S, B0 <= d.D), z3.Implies(P + 1 < S, B1 <= d.D)))

    def rows(i):
        p = px.at(i)
        return z3.Implies(z3.And(i >= 0, i < d.D), z3.And(z3.Implies(P < S, (i < B0) == (p < P)),
                                                          z3.Implies(P + 1 < S, (i < B1) == (p < P + 1)), p < S))
    if not wild:
        ex.forall(rows)
    ex.skolem_idx += [B0, B1, B0 - 1, B1 - 1, d.D - 1]
    ex.loop_specs.append(dbm.lower_bound_spec(ex, d))
    m, f = ctx.find(ex, rf"^toc_search_{kind}\(")
    ret = ex.new_obj(st, "ret", 64, content=CellC())
    out = ex.run_fn(m, f, [Ptr(ret, 0), d.this, needle, px.bits], st)
    px.check_used()
    s = out.st
    has = ex.run_fn(*ctx.find(ex, rf"^opt_has_{kind}\("), [Ptr(ret, 0)], s).val
    present = z3.And(LB < d.D, d.key(LB) == k)
    ex.oblige(s, "found exactly when a record with this hash is present", b_iff(has, present))
    s2 = s.fork()
    s2.assume(has)
    p = ex.run_fn(*ctx.find(ex, rf"^opt_get_{kind}\("), [Ptr(ret, 0)], s2).val
    ex.oblige(s2, "the record found is the first one stored with this hash",
              to_bv(ex.load(s2, p, IntT(8 * rec)), 8 * rec) == d.at(LB))
    for x in out.excs:
        ex.oblige(x, "only a failing read makes it throw", x.exc[0] == lib.FAILURE)
    ctx.cover(ex, s2, "found")
    s3 = s.fork()
    s3.assume(b_not(has))
    ctx.cover(ex, s3, "not found")


class Table:
    """the global table as a sequence of entries: clear(), reserve(), push_back() of std::vector (assumed contracts); every
    entry added must be the one its place calls for"""

    def __init__(self, ctx, ex, st, kind, on_push):
        V = r"^std::vector<unsigned int, std::allocator<unsigned int> ?>::"
        self.v = ex.run_fn(*ctx.find(ex, rf"^acc_toc_{kind}\("), [], st).val
        self.on_push = on_push
        st.ghost["entries"] = self.n0 = ex.fresh(st, 64, "entries.before")
        ex.contracts += [(re.compile(V + r"clear\("), self.clear), (re.compile(V + r"reserve\("), self.reserve),
                         (re.compile(V + r"(push_back|emplace_back<.*>)\("), self.push), (re.compile(V + r"size\("), self.size),
                         (re.compile(r"^(std::vector<unsigned int|void std::vector<unsigned int|std::_Vector_base<unsigned int)|^__normal_iterator"), self.refuse)]

    def refuse(self, ex, st, args, dem):
        raise Unsupported(f"no contract for {dem[:120]}")

    def mine(self, p):
        if not isinstance(p, Ptr) or p.obj is not self.v.obj:
            raise Unsupported("another vector of entries")

    def clear(self, ex, st, args, dem):
        self.mine(args[0])
        st.ghost["entries"] = 0
        return None

    def reserve(self, ex, st, args, dem):
        self.mine(args[0])
        return Out(st, None, [throws_io(ex, st, "_ZTISt9bad_alloc")])

    def size(self, ex, st, args, dem):
        self.mine(args[0])
        return st.ghost["entries"]

    def push(self, ex, st, args, dem):
        self.mine(args[0])
        v = norm(ex.load(st, args[1], IntT(32)))
        self.on_push(ex, st, zi(st.ghost["entries"]), to_zi(v, 32) if is_bv(v) else zi(v))
        st.ghost["entries"] = i_add(st.ghost["entries"], 1)
        return Out(st, None, [throws_io(ex, st, "_ZTISt9bad_alloc")])


def throws_io(ex, st, ty):
    s = lib.fork_throw(ex, st, ty)
    s.ghost["io"] = 1
    return s


def find_if(ctx, ex, kind, d, px):
    """std::find_if over the database (assumed contract): the first position in the range whose record meets the predicate,
    or the end; the predicate is the real one, executed on an arbitrary record"""
    def h(ex, st, args, dem):
        if len(args) < 4 or any(dbm.find_db(ex, args[i]) is not d for i in (0, 2)):
            raise Unsupported("find_if over something else")
        a, e = zi(norm(args[1])), zi(norm(args[3]))
        fns = appm.comparator_functions(ctx, ex, d.N, "build<")
        if len(fns) != 1:
            raise Unsupported("predicate of find_if")
        ex.oblige(st, "find_if is given a range of the database", z3.And(a <= e, e <= d.D))
        i0 = z3.Int(fresh_name("at"))
        s = st.fork()
        s.assume(z3.And(i0 >= 0, i0 < d.D))
        fo = ex.new_obj(s, "pred", 64, content=CellC())
        off = 0
        for v in args[4:]:
            ex.store(s, Ptr(fo, off), v, IntT(64))
            off += 8
        out = ex.run_fn(*fns[0], [Ptr(fo, 0), d.recs.give(ex, s, d.at(i0))], s)
        if out.excs:
            raise Unsupported("predicate that throws")
        b = zb(out.val)

        def pred(i):
            return z3.And(z3.substitute(b, (i0, zi(i))), px.at(i) >= 0)
        r = z3.Int(fresh_name("found"))
        st.assume(z3.And(r >= a, r <= e, z3.Implies(r < e, pred(r))))
        ex.solver.once((r,), lambda: ([], [lambda i: z3.Implies(z3.And(i >= a, i < r), z3.Not(pred(i)))], [r]))
        bad = lib.fork_throw(ex, st, lib.FAILURE)
        bad.ghost["io"] = 1
        return Out(st, Agg([args[0], r]), [bad])
    ex.contracts.append((re.compile(r"^_ZSt7find_ifI|(^| )std::find_if<flat_file::database<"), h))


def build(ctx, kind):
    """entry p of the table is the position of the first record whose prefix is p or more; there is one for every prefix up
    to that of the last record, but no more than 2^bits; a gap in the prefixes is refused"""
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"build<{kind}>", int_widths=(32, 64))
    st = State()
    dbm.use_ranks(ex, N)
    d = dbm.DBM(ctx, ex, st, kind, place="build")
    path = Ptr(ex.new_obj(st, "path", 64, content=CellC()), 0)
    appm.named_string(ex, st, path, "db")
    st.ghost["io"] = 0
    appm.Opens(ctx, ex, [(d, "db")])
    px = Pfx(ctx, ex, st, kind, d)
    ex.pow2 = [(px.bits, px.lim)]
    # a sorted database: the prefixes of its records never decrease (pw_to_prefix is monotone in the hash), so the records
    # with a prefix below p are exactly those before a position F(p)
    F = z3.Function(fresh_name("FIRST"), z3.IntSort(), z3.IntSort())

    def first(p):
        p = zi(p)
        v = F(p)

        def facts():
            w = px.at(v)
            return ([z3.And(v >= 0, v <= d.D)],
                    [lambda i: z3.Implies(z3.And(i >= 0, i < d.D), z3.And((i < v) == (px.at(i) < p), z3.Implies(i == v, px.at(i) == w)))],
                    [v, v - 1])
        if ex.safety != "wild":
            ex.solver.once((F, p), facts)
        return v
    last = px.at(d.D - 1)
    ex.skolem_idx += [d.D - 1]
    S = z3.If(last + 1 < px.lim, last + 1, px.lim)

    def on_push(ex, st, n, v):
        first(n + 1)
        ex.oblige(st, "the entry is the position of the first record with this prefix", v == first(n))
        ex.oblige(st, "there is a record with this prefix", z3.And(first(n) < d.D, px.at(first(n)) == n))
    Table(ctx, ex, st, kind, on_push)

    def cands(ex, ctx_, H, mods, k):
        n = zi(H.ghost["entries"])
        r = appm.int_cands(mods, H, ["entries"])
        for c in mods.keys():
            if c[0] == "cell" and c[3] in (4, 8) and is_zi(mods.get(H, c)):
                def f(s, k, c=c):
                    v, n = mods.get(s, c), zi(s.ghost["entries"])
                    if not (is_zi(v) or is_c(v)):
                        return z3.BoolVal(False)
                    # nothing before this position has the prefix looked for
                    return zi(v) <= first(n)
                r.append(f)
        r.append(lambda s, k: zi(s.ghost["entries"]) <= S)
        return r
    ex.cand_gens.append(cands)

    for fn in ("log2", "log10", "log", "pow", "ceil", "floor", "round", "sqrt"):
        ex.contracts.append((re.compile(rf"^{fn}$"), lambda ex, st, args, dem: Flo()))
    find_if(ctx, ex, kind, d, px)
    ex.contracts.append((re.compile(r"^std::ostream::operator<<\(std::ostream& \(\*\)"), lambda ex, st, args, dem: args[0]))
    appm.Texts(ex, lambda ex, st, os, v: None)
    m, f = ctx.find(ex, rf"^det_build_{kind}\(")
    out = ex.run_fn(m, f, [path, px.bits], st)
    px.check_used()
    s = out.st
    n = zi(s.ghost["entries"])
    ex.oblige(s, "the table has one entry for every prefix up to the last one", n == S)
    ex.oblige(s, "positions fit into the entries", d.D < 1 << 32)
    for x in out.excs:
        n = zi(x.ghost["entries"])
        first(n + 1)
        ex.oblige(x, "only a failing file, an empty or too large database, or a gap makes it throw",
                  z3.Or(zi(x.ghost["io"]) == 1, d.D == 0, d.D >= 1 << 32, z3.And(n < S, px.at(first(n)) != n)))
    ctx.cover(ex, s, "end")



TARGETS = [Target(f"pw_to_prefix<{k}>", ["toc"], prefix_fn, kind=k) for k in dbm.KINDS] + \
    [Target(f"toc_search<{k}>", ["toc"], search, kind=k) for k in dbm.KINDS] + \
    [Target(f"build<{k}>", ["toc"], build, kind=k, budget=200) for k in dbm.KINDS]
