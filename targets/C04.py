"""C04: flat_file::database returns FILE[pos] for every history; iterators are positions."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import sym_string

UNITS = {"flatd": ("/verif/harness/flat.cpp", ["-DNO_WRITER"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["the file is not modified while it is open (a truncation is a failing read)",
               "std::ifstream::seekg/read keep their documented contracts with exceptions(badbit|failbit) set",
               "file_size() is the size of the file that is opened"]
KINDS = {"sha1": ("hibp::pawned_pw<20u>", 24), "ntlm": ("hibp::pawned_pw<16u>", 20), "t64": ("hibp::pawned_pw<8u>", 12)}
RT = "_ZTISt13runtime_error"


class DB:
    """a flat_file::database object in an arbitrary state that satisfies the window invariant"""

    def __init__(self, ctx, kind, what, ex=None, st=None, unit_ok=True, empty_buf=True, bufmax=None):
        self.kind, self.ctx = kind, ctx
        self.T, self.rec = KINDS[kind]
        self.ex = ex = ex or ctx.executor(f"database<{kind}>::{what}")
        lib.install_ifstream(ex)
        lib.install_exceptions(ex)
        self.st = st = st or State()
        self.FILE = Base("FILE", 8 * self.rec)
        self.D = D = ex.fresh(st, 64, "dbsize")
        st.assume(D < 1 << 50)
        ex.gfile = lib.GFile(self.FILE, D * self.rec, self.rec)
        self.o = ex.new_obj(st, "db", self.const("acc_d_sizeof"), content=CellC())
        self.this = Ptr(self.o, 0)
        ex.store(st, self.acc("acc_d_size"), D, IntT(64))
        ex.store(st, self.acc("acc_d_fsize"), D * self.rec, IntT(64))
        self.B = Bn = ex.fresh(st, 64, "bufrecs")
        st.assume(Bn < 1 << 50)
        self.buf = bo = ex.new_obj(st, "buf", Bn * self.rec, "heap", content=ArrC(self.rec, Base("buf", 8 * self.rec)))
        v = self.acc("acc_d_buf")
        ex.store(st, v, Ptr(bo, 0), PTR)
        ex.store(st, ex.padd(v, 8), Ptr(bo, Bn * self.rec), PTR)
        ex.store(st, ex.padd(v, 16), Ptr(bo, Bn * self.rec), PTR)
        ex.store(st, self.acc("acc_d_start"), ex.fresh(st, 64, "buf_start"), IntT(64))
        ex.store(st, self.acc("acc_d_end"), ex.fresh(st, 64, "buf_end"), IntT(64))
        for _, f in self.inv(st):
            st.assume(f)
        s0 = st.fork()
        ex.forall(lambda i: z3.And(*[f for _, f in self.inv(s0, i)[1:]]))

    def const(self, nm):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [], self.st).val

    def acc(self, nm):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [self.this], self.st).val

    def fn(self, nm):
        return self.ctx.find(self.ex, rf"^{nm}_{self.kind}\(")

    def window(self, st):
        return (zi(self.ex.load(st, self.acc("acc_d_start"), IntT(64))),
                zi(self.ex.load(st, self.acc("acc_d_end"), IntT(64))))

    def inv(self, st, K=None):
        s, e = self.window(st)
        fs = [("the window lies within file and buffer", z3.And(s >= 0, s <= e, z3.Or(s == e, z3.And(e <= self.D, e - s <= self.B))))]
        if K is not None:
            n = self.ex.content(st, self.buf).node
            fs += [("buffer record i is file record start+i",
                    z3.Implies(z3.And(K >= 0, K < e - s),
                               to_bv(n.read(K, self.ex), 8 * self.rec) == self.FILE.read(s + K, self.ex)))]
        return fs

    def prove_inv(self, st, tag):
        K = z3.Int("K")
        self.ex.skolem_idx.append(K)
        for nm, f in self.inv(st, K):
            self.ex.oblige(st, f"{tag}: {nm}", f)

    def rec_at(self, st, p):
        return to_bv(self.ex.load(st, p, IntT(8 * self.rec)), 8 * self.rec)

    def check_deref(self, out, pos, ok=None):
        """contract of an access to position pos: out.val points to a record equal to FILE[pos]; else an exception"""
        ex = self.ex
        pos = zi(pos)
        s0, _ = self.window(self.pre)
        ex.skolem_idx += [pos - s0]
        s = out.st
        if s is not None:
            ex.oblige(s, "data are returned only for a position below the end", pos < self.D)
            ex.oblige(s, "the record returned is the record stored at the position",
                      self.rec_at(s, out.val) == self.FILE.read(pos, ex))
            self.prove_inv(s, "after the access")
            self.ctx.cover(ex, s, "returned")
        for x in out.excs:
            if x.exc[0] == RT:
                ex.oblige(x, "refused only past the end or without a buffer", z3.Or(pos >= self.D, self.B == 0))
            else:
                ex.oblige(x, "the only other error is a failing read", x.exc[0] == lib.FAILURE)
            self.prove_inv(x, f"after {x.exc[0]}")

    def iter(self, st, pos, name="it"):
        """a const_iterator object built by the real constructor path: {database*, position}"""
        out = self.ex.run_fn(*self.fn("d_begin"), [self.this], st)
        st2 = out.st
        v = out.val
        o = self.ex.new_obj(st2, name, 16, content=CellC())
        if isinstance(v, Agg):
            self.ex.store(st2, Ptr(o, 0), v.f[0], PTR)
            self.ex.store(st2, Ptr(o, 8), v.f[1], IntT(64))
        # begin() is position 0; the position member is the one begin() zeroes
        self.ex.oblige(st2, "begin() is position 0 of this database",
                       b_and(i_eq(v.f[1], 0), z3.BoolVal(isinstance(v.f[0], Ptr) and v.f[0].obj is self.o)))
        self.ex.store(st2, Ptr(o, 8), pos, IntT(64))
        return Ptr(o, 0)


def get_record(ctx, kind):
    d = DB(ctx, kind, "get_record")
    d.pre = d.st.fork()
    pos = d.ex.fresh(d.st, 64, "pos")
    out = d.ex.run_fn(*d.fn("d_get"), [d.this, pos], d.st)
    d.check_deref(out, pos)


def deref(ctx, kind):
    for f in ("it_deref", "it_arrow"):
        d = DB(ctx, kind, f)
        d.pre = d.st.fork()
        pos = d.ex.fresh(d.st, 64, "pos")
        it = d.iter(d.st, pos)
        out = d.ex.run_fn(*d.fn(f), [it], d.st)
        d.check_deref(out, pos)
    d = DB(ctx, kind, "back")
    d.pre = d.st.fork()
    d.st.assume(d.D > 0)
    out = d.ex.run_fn(*d.fn("d_back"), [d.this], d.st)
    d.check_deref(out, d.D - 1)


def arith(ctx, kind):
    d = DB(ctx, kind, "const_iterator")
    ex, st = d.ex, d.st
    for f, want in (("d_nrec", d.D), ("d_fsz", d.D * d.rec)):
        out = ex.run_fn(*d.fn(f), [d.this], st)
        st = out.st
        ex.oblige(st, f"{f} reports the size", i_eq(out.val, want))
    out = ex.run_fn(*d.fn("d_end"), [d.this], st)
    ex.oblige(out.st, "end() is position number_records()", i_eq(out.val.f[1], d.D))
    p, q, k = (ex.fresh(st, 64, x) for x in "pqk")
    for x in (p, q, k):
        st.assume(x < 1 << 60)
    M = 1 << 64
    for f, n, want in (("it_add", 1, p + k), ("it_radd", 1, p + k), ("it_sub", 1, p - k), ("it_preinc", 0, p + 1),
                       ("it_predec", 0, p - 1), ("it_postinc", 2, p + 1), ("it_postdec", 2, p - 1)):
        s = st.fork()
        if f in ("it_sub",):
            s.assume(k <= p)
        if "dec" in f:
            s.assume(p >= 1)
        a = d.iter(s, p)
        old = Ptr(ex.new_obj(s, "old", 16, content=CellC()), 0)
        # const_iterator is passed and returned as {database*, position} in registers
        args = [Ptr(d.o, 0), p] + ([k] if n == 1 else []) + ([old] if n == 2 else [])
        if f == "it_radd":
            args = [Ptr(d.o, 0), p, k]
        out = ex.run_fn(*d.fn(f), args, s)
        v = out.val
        ex.oblige(out.st, f"{f}: the resulting position", i_eq(v.f[1], want))
        ex.oblige(out.st, f"{f}: the same database", z3.BoolVal(isinstance(v.f[0], Ptr) and v.f[0].obj is d.o))
        if n == 2:
            ex.oblige(out.st, f"{f}: the old position", i_eq(ex.load(out.st, ex.padd(old, 8), IntT(64)), p))
    s = st.fork()
    a, b = d.iter(s, p, "a"), d.iter(s, q, "b")
    out = ex.run_fn(*d.fn("it_diff"), [a, b], s)
    dv = out.val
    sg = ex.signed(out.st, dv, 64) if not is_c(dv) else dv
    ex.oblige(out.st, "a - b is the distance of the positions", i_eq(sg, p - q))
    out = ex.run_fn(*d.fn("it_eq"), [a, b], s)
    ex.oblige(out.st, "a == b exactly at the same position", b_iff(out.val, p == q))
    out = ex.run_fn(*d.fn("it_pos"), [a], s)
    ex.oblige(out.st, "pos() is the position", i_eq(out.val, p))
    ctx.cover(ex, out.st, "end")


TARGETS = []
for k in KINDS:
    TARGETS += [Target(f"database<{k}>::get_record", ["flatd"], get_record, kind=k),
                Target(f"database<{k}> iterator dereference, back()", ["flatd"], deref, kind=k),
                Target(f"database<{k}> iterator arithmetic and sizes", ["flatd"], arith, kind=k)]


def ctor(ctx, kind):
    for empty in (False, True):
        ctor1(ctx, kind, empty)


def ctor1(ctx, kind, empty):
    T, rec = KINDS[kind]
    ex = ctx.executor(f"database<{kind}>::database(path, size)")
    ex.alloc_stride = lambda e, n: rec if not is_c(n) and lib.n_divides(n, rec) is True else None
    lib.install_path(ex)
    lib.install_fmt_opaque(ex)
    lib.install_exceptions(ex)
    st = State()
    FS = ex.fresh(st, 64, "file_size")
    st.assume(FS < 1 << 60)
    opened = z3.Bool("opened")
    path, _, _ = sym_string(ex, st, "path")
    text = lib.path_text(ex, st, path)

    def file_size(e, s, args, dem):
        e.oblige(s, "the size is that of the file given", lib.path_text(e, s, args[0]) is text)
        return Out(s, FS, [lib.fork_throw(e, s, "_ZTINSt10filesystem7__cxx1116filesystem_errorE")])

    def ifs(e, s, args, dem):
        e.oblige(s, "the file given is the file opened", lib.path_text(e, s, args[1]) is text)
        e.oblige(s, "opened for binary reading", i_eq(const_of(args[2]) & 4, 4) if const_of(args[2]) is not None else False)
        # the vtable pointer through which libstdc++ reaches the ios base
        e.store(s, args[0], Ptr(e.new_obj(s, "vtable", 64, content=CellC({0: (8, 256)})), 24), PTR)
        return None

    def exceptions(e, s, args, dem):
        s.ghost["imask"] = const_of(args[1])
        return None
    ex.contracts += [(re.compile(r"^std::filesystem::file_size\("), file_size),
                     (re.compile(r"^std::basic_ifstream<char.*>::basic_ifstream<"), ifs),
                     (re.compile(r"^std::basic_ifstream<char.*>::~basic_ifstream\(\)"), lib.nop),
                     (re.compile(r"^std::basic_ifstream<char.*>::is_open\(\)"), lambda e, s, a, d: opened),
                     (re.compile(r"^std::(basic_ios<char[^>]*>+|ios)::exceptions\(std::_Ios_Iostate\)"), exceptions)]
    B = 0 if empty else ex.fresh(st, 64, "buf_size")
    if not empty:
        st.assume(B > 0)
    st.ghost["imask"] = 0

    def const(nm):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}_{kind}\("), [], st).val
    o = ex.new_obj(st, "db", const("acc_d_sizeof"), content=CellC())

    def acc(s, nm):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}_{kind}\("), [Ptr(o, 0)], s).val
    m, f = ctx.find(ex, rf"^flat_file::database<{re.escape(T)} ?>::database\(")
    out = ex.run_fn(m, f, [Ptr(o, 0), path, B], st)
    s = out.st
    ex.oblige(s, "accepted only if the size is a whole number of records", z3.And(FS % rec == 0, opened))
    ex.oblige(s, "the number of records is size / record size", i_eq(ex.load(s, acc(s, "acc_d_size"), IntT(64)), FS / rec))
    ex.oblige(s, "the size is the file size", i_eq(ex.load(s, acc(s, "acc_d_fsize"), IntT(64)), FS))
    ex.oblige(s, "the window is empty", i_eq(ex.load(s, acc(s, "acc_d_start"), IntT(64)), ex.load(s, acc(s, "acc_d_end"), IntT(64))))
    v = acc(s, "acc_d_buf")
    b, e = ex.load(s, v, PTR), ex.load(s, ex.padd(v, 8), PTR)
    ex.oblige(s, "the buffer holds buf_size records", b_and(b.obj is e.obj, i_eq(i_sub(e.off, b.off), rec * B)))
    ex.oblige(s, "later failures of the stream are reported", s.ghost["imask"] == lib.FAILBITS)
    for x in out.excs:
        if x.exc[0] == lib.FAILURE:
            ex.oblige(x, "a whole number of records in a file that opens is never refused", z3.Or(FS % rec != 0, z3.Not(opened)))
    ctx.cover(ex, s, "opened")


TARGETS += [Target(f"database<{k}> constructor", ["flatd"], ctor, kind=k) for k in KINDS]
