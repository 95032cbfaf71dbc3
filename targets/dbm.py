"""flat_file::database at contract level (the contracts are proved in C04, the comparison contracts in C01)."""
import re
import z3
from irv.exec import State, Out, LoopSpec
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm

KINDS = {"sha1": ("hibp::pawned_pw<20u>", 24, 20), "ntlm": ("hibp::pawned_pw<16u>", 20, 16), "t64": ("hibp::pawned_pw<8u>", 12, 8)}
HARNESS = ("/verif/harness/flat.cpp", ["-DNO_WRITER"], "c++")
RT = "_ZTISt13runtime_error"


def key(rec, N):
    """the hash bytes of a record (little-endian memory image) as one big-endian number"""
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, rec) for i in range(N)])


def cnt(rec, N):
    return z3.Extract(8 * N + 31, 8 * N, rec)


class Recs:
    """records behind references handed out by get_record: a reference is only good until the next access"""

    def __init__(self, ex, st, rec):
        self.o = ex.new_obj(st, "recs", 1 << 62, "heap", content=ArrC(rec, Base("recs", 8 * rec)))
        self.rec = rec

    def give(self, ex, st, v):
        q = z3.Int(fresh_name("slot"))
        st.assume(z3.And(q >= 0, q < 1 << 50))
        st.mem[self.o.id] = ArrC(self.rec, StoreN(Base("recs", 8 * self.rec), q, v))
        return Ptr(self.o, i_scale(q, self.rec))


class DBM:
    def __init__(self, ctx, ex, st, kind, file="FILE", name="db", place=None):
        self.ctx, self.ex, self.kind = ctx, ex, kind
        self.T, self.rec, self.N = KINDS[kind]
        self.FILE = Base(file, 8 * self.rec)
        self.D = ex.fresh(st, 64, name + ".size")
        st.assume(self.D < 1 << 50)
        self.recs = Recs(ex, st, self.rec)
        if place is None:
            self.o = ex.new_obj(st, name, self.const(st, "acc_d_sizeof"), content=CellC())
            self.this = Ptr(self.o, 0)
            self.put(st, self.this)
        else:
            self.this = None
        if not hasattr(ex, "dbs"):
            ex.dbs = {}
            T = re.escape(self.T)
            ex.contracts += [(re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::get_record\("), get_record)]
            for n in (20, 16, 8):
                ex.contracts += [(re.compile(rf"^hibp::pawned_pw<{n}u>::operator<=>\("), cmp3(n)),
                                 (re.compile(rf"^hibp::pawned_pw<{n}u>::operator==\("), cmpeq(n))]
        if self.this is not None:
            ex.dbs[self.this.obj.id] = self

    def put(self, st, this):
        """establish what the constructor's contract (C04) promises"""
        self.this = this
        ex = self.ex
        ex.store(st, self.acc(st, "acc_d_size"), self.D, IntT(64))
        ex.store(st, self.acc(st, "acc_d_fsize"), self.D * self.rec, IntT(64))

    def const(self, st, nm):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [], st).val

    def acc(self, st, nm):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [self.this], st).val

    def at(self, i):
        return to_bv(self.FILE.read(zi(i), self.ex), 8 * self.rec)

    def key(self, i):
        if getattr(self.ex, "rank", None) is not None:
            return self.ex.rank(z3.Extract(8 * self.N - 1, 0, self.at(i)))
        return key(self.at(i), self.N)

    def lower(self, st, k, name="LB"):
        """sortedness, as used for one search key k: the records below k are exactly those before position LB"""
        LB = z3.Int(fresh_name(name))
        st.assume(z3.And(LB >= 0, LB <= self.D))
        if self.ex.safety != "wild":
            self.ex.forall(lambda i: z3.Implies(z3.And(i >= 0, i < self.D), (i < LB) == z3.ULT(self.key(i), k)))
        self.ex.skolem_idx += [LB, LB - 1]
        return LB


def find_db(ex, p, st=None):
    if isinstance(p, PtrU) and st is not None:
        found = []
        for c, q in p.alts:
            if q.obj is None:
                ex.oblige(st, "null-deref", False, c)
            else:
                found.append(find_db(ex, q))
        return found[0] if found and all(f is found[0] for f in found) else None
    if isinstance(p, Ptr) and p.obj is not None:
        return ex.dbs.get(p.obj.id)
    return None


def get_record(ex, st, args, dem):
    d = find_db(ex, args[0], st)
    if d is None:
        raise Unsupported("access to an unknown database")
    pos = norm(args[1])
    ok = i_lt(pos, d.D)
    excs = [lib.fork_throw(ex, st, lib.FAILURE)]
    excs[0].ghost["io"] = 1
    if not (is_c(ok) and ok) and not ex.solver.valid(st.pc, zb(ok), 3.0):
        excs.append(lib.fork_throw(ex, st, RT, b_not(ok)))
        st.assume(ok)
    p = d.recs.give(ex, st, d.at(pos))
    ex.skolem_idx.append(zi(pos)) if not ex.suppress else None
    ex.hooks_get(ex, st, d, pos) if hasattr(ex, "hooks_get") else None
    return Out(st, p, excs)


def rec_hash(ex, st, p, n):
    return key(to_bv(ex.read_bytes(st, p, n), 8 * n), n) if isinstance(p, Ptr) else None


def hash_of(ex, st, p, n):
    for c, q in ex.ptr_alts(p):
        ex.bounds(st, q, n, c)
    v = to_bv(ex.load(st, p, IntT(8 * n)), 8 * n)
    if getattr(ex, "rank", None) is not None:
        return ex.rank(v)
    return key(v, n)


def use_ranks(ex, N):
    """stand for the number that hash bytes spell by an uninterpreted function of them (its order and equality are all that
    is used)"""
    ex.rank = z3.Function("rank", z3.BitVecSort(8 * N), z3.IntSort())


def lt(a, b):
    return a < b if a.sort() == z3.IntSort() else z3.ULT(a, b)


def cmp3(n):
    def h(ex, st, args, dem):
        a, b = hash_of(ex, st, args[0], n), hash_of(ex, st, args[1], n)
        return z3.If(a == b, z3.BitVecVal(0, 8), z3.If(lt(a, b), z3.BitVecVal(255, 8), z3.BitVecVal(1, 8)))
    return h


def cmpeq(n):
    def h(ex, st, args, dem):
        return hash_of(ex, st, args[0], n) == hash_of(ex, st, args[1], n)
    return h


def local(st, name):
    """alloca of a named local of the function being executed"""
    v = st.env.get(name + ".addr")
    return v if v is not None else st.env.get(name)


def recent(ex, ctx, idx, keep=2):
    """instantiate quantified facts at the positions of the last `keep` looks at the loop state"""
    h = ctx.__dict__.setdefault("hist", [])
    h.append(idx)
    for old in h[:-keep]:
        for x in old:
            ex.skolem_idx[:] = [y for y in ex.skolem_idx if y is not x]
    del h[:-keep]
    ex.skolem_idx += idx


def lower_bound_spec(ex, dbm, key_of_val=None):
    """invariant of the search loop of std::__lower_bound over positions [first, first+len)"""

    def inv(ex_, st, ctx):
        d = dbm
        first, ln = local(st, "__first"), local(st, "__len")
        val = local(st, "__val")
        if first is None or ln is None or val is None:
            raise Unsupported("locals of __lower_bound")
        f = zi(ex_.load(st, ex_.padd(first, 8), IntT(64)))
        n = zi(ex_.load(st, ln, IntT(64)))
        if ctx.at_entry or not hasattr(ctx, "b0"):
            e = ctx.entry
            ctx.b0 = zi(ex_.load(e, ex_.padd(local(e, "__first"), 8), IntT(64)))
            ctx.n0 = zi(ex_.load(e, local(e, "__len"), IntT(64)))
            ctx.k = None if not hasattr(ctx, "k") else ctx.k
            ctx.key = hash_of(ex_, e, ex_.load(e, local(e, "__val"), PTR), d.N)
        K = ctx.key
        recent(ex_, ctx, [f - 1, f + n])
        if ex_.safety == "wild":
            # any range, also one that ends before it begins; the length is a signed number
            return [("range", z3.Or(n >= 1 << 63, z3.And(ctx.n0 < 1 << 63, f >= ctx.b0, n >= 0, f + n <= ctx.b0 + ctx.n0)))]
        return [("range", z3.And(f >= ctx.b0, n >= 0, f + n <= ctx.b0 + ctx.n0)),
                ("below", z3.Implies(f > ctx.b0, z3.ULT(d.key(f - 1), K))),
                ("above", z3.Implies(f + n < ctx.b0 + ctx.n0, z3.UGE(d.key(f + n), K)))]
    return LoopSpec(r"std::__lower_bound<flat_file::database", inv=inv, idx=0)


def sym_record(ex, st, rec, name):
    v = z3.BitVec(name, 8 * rec)
    o = ex.new_obj(st, name, rec, content=CellC({0: (rec, v)}))
    return Ptr(o, 0), v
