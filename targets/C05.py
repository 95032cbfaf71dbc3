"""C05: stream_writer keeps LOG == OUT ++ buffer; destruction leaves OUT == LOG."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib

UNITS = {"flat": ("/verif/harness/flat.cpp", ["-DNO_DB"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::ostream::write appends exactly the bytes given or throws once exceptions(badbit|failbit) is set",
               "one writer per output stream at a time (two writers on one stream interleave by design)",
               "operator new succeeds (bad_alloc is an error report, not a lost record)"]
KINDS = {"sha1": ("hibp::pawned_pw<20u>", 24), "ntlm": ("hibp::pawned_pw<16u>", 20), "t64": ("hibp::pawned_pw<8u>", 12)}


class W:
    """a writer constructed by the real constructor, then put into an arbitrary state that satisfies the invariant"""

    def __init__(self, ctx, kind, what):
        self.kind = kind
        self.T, self.rec = KINDS[kind]
        self.ex = ex = ctx.executor(f"stream_writer<{kind}>::{what}")
        ex.alloc_stride = lambda e, n: self.rec
        lib.install_ostream(ex, self.rec)
        self.ctx = ctx
        self.st = st = State()
        lib.new_out(ex, st, self.rec)
        st.ghost["on"] = 0
        os_ = ex.new_obj(st, "ostream", 4096, content=CellC())
        # libstdc++ reads the virtual base offset from the vtable to reach basic_ios
        vt = ex.new_obj(st, "vtable", 64, content=CellC({0: (8, 256)}))
        ex.store(st, Ptr(os_, 0), Ptr(vt, 24), PTR)
        self.os = Ptr(os_, 0)
        self.N = N = ex.fresh(st, 64, "buf_size")
        st.assume(N >= 1)
        m, f = ctx.find(ex, rf"^flat_file::stream_writer<{re.escape(self.T)} ?>::stream_writer\(std::ostream&, unsigned long\)")
        self.o = ex.new_obj(st, "writer", self.const("acc_w_size"), content=CellC())
        self.this = Ptr(self.o, 0)
        st.ghost["wn"] = 0
        out = ex.run_fn(m, f, [self.this, self.os, N], st)
        self.st = out.st
        self.ctor_excs = out.excs

    def const(self, nm):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [], self.st).val

    def acc(self, nm, this=None):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}_{self.kind}\("), [this or self.this], self.st).val

    def pos(self, st, this=None):
        p = self.acc("acc_w_pos", this)
        v = self.ex.load(st, p, IntT(64))
        return zi(v)

    def buf(self, st, this=None):
        """(data pointer, number of records)"""
        p = self.acc("acc_w_buf", this)
        b, e = self.ex.load(st, p, PTR), self.ex.load(st, self.ex.padd(p, 8), PTR)
        return b, e

    def inv(self, st, n, what, this=None, K=None):
        """[(name, fact)]: OUT ++ buffer == LOG[0..n)"""
        ex = self.ex
        pos, on, ob = self.pos(st, this), zi(st.ghost["on"]), st.ghost["ob"]
        b, e = self.buf(st, this)
        cnt = lib.divx(i_sub(e.off, b.off), self.rec)
        c = ex.content(st, b.obj)
        node = c.node
        off = lib.divx(b.off, self.rec)
        fs = [("0 <= position <= buffer size", z3.And(pos >= 0, pos <= zi(cnt))),
              ("emitted + buffered == written", on + pos == zi(n)),
              ("the stream throws on failure", z3.BoolVal(st.ghost["omask"] == lib.FAILBITS))]
        if K is not None:
            fs += [("emitted records are the records written, in order",
                    z3.Implies(z3.And(K >= 0, K < on), to_bv(ob.read(K, ex), 8 * self.rec) == self.log(K))),
                   ("buffered records are the records written next, in order",
                    z3.Implies(z3.And(K >= 0, K < pos),
                               to_bv(node.read(i_add(off, K), ex), 8 * self.rec) == self.log(on + K)))]
        return fs

    def log(self, i):
        return self.LOG.read(zi(i), self.ex)

    def arbitrary(self):
        """any state satisfying the invariant with n records written so far"""
        ex, st = self.ex, self.st
        self.LOG = Base("LOG", 8 * self.rec)
        self.n = n = ex.fresh(st, 64, "n")
        st.assume(n < 1 << 50)
        ex.store(st, self.acc("acc_w_pos"), ex.fresh(st, 64, "pos"), IntT(64))
        b, e = self.buf(st)
        st.mem[b.obj.id] = ArrC(self.rec, Base("buf", 8 * self.rec))
        st.ghost["on"] = ex.fresh(st, 64, "on")
        st.ghost["ob"] = Base("OUT", 8 * self.rec)
        for _, f in self.inv(st, n, ""):
            st.assume(f)
        s0 = st.fork()
        ex.forall(lambda i: z3.And(*[f for _, f in self.inv(s0, n, "", K=i)[3:]]))

    def prove(self, st, n, tag, this=None):
        ex = self.ex
        K = z3.Int("K")
        on0 = zi(self.st.ghost["on"])
        ex.skolem_idx += [K, K - on0, K + on0]
        for nm, f in self.inv(st, n, "", this, K):
            ex.oblige(st, f"{tag}: {nm}", f)

    def fn(self, rx):
        return self.ctx.find(self.ex, rf"^flat_file::stream_writer<{re.escape(self.T)} ?>::{rx}")


def ctor(ctx, kind):
    w = W(ctx, kind, "stream_writer")
    w.LOG = Base("LOG", 8 * w.rec)
    w.prove(w.st, 0, "constructed")
    b, e = w.buf(w.st)
    w.ex.oblige(w.st, "the buffer holds buf_size records", zi(i_sub(e.off, b.off)) == w.rec * w.N)
    ctx.cover(w.ex, w.st, "constructed")


def write(ctx, kind):
    w = W(ctx, kind, "write")
    w.arbitrary()
    ex, st = w.ex, w.st
    s0 = st.fork()
    v = ex.new_obj(st, "value", w.rec, content=ArrC(w.rec, FnNode(lambda i: w.log(w.n), 8 * w.rec)))
    out = ex.run_fn(*w.fn(r"write\("), [w.this, Ptr(v, 0)], st)
    w.st = s0
    w.prove(out.st, w.n + 1, "after write")
    for s in out.excs:
        ex.oblige(s, "only a failing stream makes write throw", s.ghost["ofail"])
        ex.oblige(s, "after a failure nothing is left to flush again", w.pos(s) == 0)
    ctx.cover(ex, out.st, "written")
    if not out.excs:
        ex.oblige(out.st, "a failing stream is reported", False)


def flush(ctx, kind, dtor=False):
    w = W(ctx, kind, "~stream_writer" if dtor else "flush")
    w.arbitrary()
    ex, st = w.ex, w.st
    s0 = st.fork()
    b = z3.Bool("flush_stream")
    if dtor:
        def term(e, s, args, dem):
            # a destructor cannot throw: a failing stream ends the program with a message instead of losing records
            e.oblige(s, "only a failing stream ends the program in the destructor", s.ghost["ofail"])
            return Out(None)
        ex.models["__clang_call_terminate"] = term
        out = ex.run_fn(*w.fn(r"~stream_writer\("), [w.this], st)
    else:
        out = ex.run_fn(*w.fn(r"flush\(bool\)"), [w.this, b], st)
    K = z3.Int("K")
    on0 = zi(s0.ghost["on"])
    ex.skolem_idx += [K, K - on0]
    s = out.st
    ex.oblige(s, "everything written has reached the stream", zi(s.ghost["on"]) == w.n)
    ex.oblige(s, "in order, each once", z3.Implies(z3.And(K >= 0, K < w.n),
                                                   to_bv(s.ghost["ob"].read(K, ex), 8 * w.rec) == w.log(K)))
    if not dtor:
        w.st = s0
        w.prove(s, w.n, "after flush")
        ex.oblige(s, "flush(true) flushes the stream", z3.Implies(b, s.ghost["synced"]))
    for x in out.excs:
        ex.oblige(x, "only a failing stream makes it throw", x.ghost["ofail"])
        if not dtor:
            ex.oblige(x, "after a failure nothing is left to flush again", w.pos(x) == 0)
    ctx.cover(ex, s, "flushed")


def move(ctx, kind):
    w = W(ctx, kind, "stream_writer(&&)")
    w.arbitrary()
    ex, st = w.ex, w.st
    s0 = st.fork()
    o2 = ex.new_obj(st, "writer2", w.o.size, content=CellC())
    out = ex.run_fn(*w.fn(r"stream_writer\(flat_file::stream_writer<.*&&\)"), [Ptr(o2, 0), w.this], st)
    ex.oblige(out.st, "the moved-from writer has nothing to flush", w.pos(out.st) == 0)
    w.st = s0
    s1 = s0
    w.st = out.st
    on0 = zi(s0.ghost["on"])
    w.prove(out.st, w.n, "the new writer", Ptr(o2, 0))
    s2 = out.st
    r = ex.run_fn(*w.fn(r"~stream_writer\("), [w.this], s2)
    w.st = r.st
    w.prove(r.st, w.n, "after the old one is destroyed", Ptr(o2, 0))
    ctx.cover(ex, r.st, "moved")


TARGETS = []
for k in KINDS:
    TARGETS += [Target(f"stream_writer<{k}> constructor establishes OUT ++ buffer == LOG", ["flat"], ctor, kind=k),
                Target(f"stream_writer<{k}>::write", ["flat"], write, kind=k),
                Target(f"stream_writer<{k}>::flush", ["flat"], flush, kind=k),
                Target(f"stream_writer<{k}> destructor", ["flat"], flush, kind=k, dtor=True),
                Target(f"stream_writer<{k}> move", ["flat"], move, kind=k)]
