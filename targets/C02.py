"""C02: pawned_pw(text) and to_string() spell exactly the record."""
import z3
from irv.targets import Target
from irv.exec import State
from irv.mem import CellC
from irv.val import Ptr
from irv.irparse import IntT
from irv.models import *

UNITS = {"record": ("/verif/harness/arrcmp.cpp", [], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::string, std::to_chars and std::from_chars keep their documented contracts (written in irv/models.py)"]
HEX = b"0123456789ABCDEFabcdef"


def nib(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


def ctor(ctx, N):
    ex = ctx.executor(f"pawned_pw<{N}>(text)")
    m, n = ctx.find(ex, rf"^hibp::pawned_pw<{N}u>::pawned_pw\(std::")
    st = State()
    p, b, sz = sym_string(ex, st, "text")
    this = ex.new_obj(st, "pw", N + 4, content=CellC())
    if ex.safety != "wild":
        st.assume(sz >= 2 * N)
        for i in range(2 * N):
            st.assume(in_set(b.read(i, ex), HEX))
    else:
        from . import appm
        from irv import lib
        appm.Texts(ex, lambda *a: None)
        lib.install_exceptions(ex)
    out = ex.run_fn(m, n, [Ptr(this, 0), p], st)
    st = out.st
    if ex.safety == "wild":
        ctx.cover(ex, st, "end")
        return
    for i in range(N):
        hb = ex.load(st, Ptr(this, i), IntT(8))
        ex.oblige(st, f"hash byte {i} is the byte spelled by digits {2 * i} and {2 * i + 1}",
                  hb == nib(b.read(2 * i, ex)) * 16 + nib(b.read(2 * i + 1, ex)))
    cnt = to_bv(ex.load(st, Ptr(this, N), IntT(32)), 32)
    fc = st.ghost["from_chars"]
    idx = z3.IntVal(2 * N + 1)
    if N == 8:
        full = z3.And(sz >= 40, b.read(16, ex) != 58)
        idx = z3.If(full, z3.IntVal(41), idx)
    ex.oblige(st, "without a count: -1", z3.Implies(sz <= idx, cnt == z3.BitVecVal(-1, 32)))
    ex.oblige(st, "the count is the decimal number that follows the colon",
              z3.Implies(sz > idx, z3.And(zi(fc.first.off) == idx, zi(fc.n) == sz - idx,
                                          cnt == z3.If(fc.ok, fc.val, z3.BitVecVal(-1, 32)))))
    ctx.cover(ex, st, "a well-formed line")


def to_string(ctx, N):
    ex = ctx.executor(f"pawned_pw<{N}>::to_string")
    m, n = ctx.find(ex, rf"^hibp::pawned_pw<{N}u>::to_string")
    st = State()
    bs = [z3.BitVec(f"h{i}", 8) for i in range(N)]
    c = z3.BitVec("count", 32)
    cc = {i: (1, x) for i, x in enumerate(bs)}
    cc[N] = (4, c)
    this = ex.new_obj(st, "pw", N + 4, content=CellC(cc))
    ret = ex.new_obj(st, "ret", 32, content=CellC())
    out = ex.run_fn(m, n, [Ptr(ret, 0), Ptr(this, 0)], st)
    st = out.st
    d, sz = str_parts(ex, st, Ptr(ret, 0))
    node = view_node(ex, st, d, sz)
    ex.oblige(st, "length is 2N, a colon and the decimal count", zi(sz) == 2 * N + 1 + DLEN(c))

    def ch(x):
        return z3.If(z3.ULE(x, 9), x + 48, x + 55)
    for i in range(N):
        ex.oblige(st, f"digit {2 * i}", node.read(2 * i, ex) == ch(z3.LShR(bs[i], 4)))
        ex.oblige(st, f"digit {2 * i + 1}", node.read(2 * i + 1, ex) == ch(bs[i] & 15))
    ex.oblige(st, "colon", n_eq(node.read(2 * N, ex), 58, 8))
    K = z3.Int("K")
    ex.oblige(st, "decimal digits of the count", z3.Implies(z3.And(K >= 0, K < DLEN(c)),
                                                            node.read(2 * N + 1 + K, ex) == DIG(c, K)))
    ctx.cover(ex, st, "end")


def roundtrip(ctx, N):
    """pawned_pw(x.to_string()) is x, for every hash and every count"""
    ex = ctx.executor(f"pawned_pw<{N}> round trip")
    m, n1 = ctx.find(ex, rf"^hibp::pawned_pw<{N}u>::to_string")
    m, n2 = ctx.find(ex, rf"^hibp::pawned_pw<{N}u>::pawned_pw\(std::")
    st = State()
    bs = [z3.BitVec(f"h{i}", 8) for i in range(N)]
    c = z3.BitVec("count", 32)
    cc = {i: (1, x) for i, x in enumerate(bs)}
    cc[N] = (4, c)
    this = ex.new_obj(st, "pw", N + 4, content=CellC(cc))
    ret = ex.new_obj(st, "ret", 32, content=CellC())
    st = ex.run_fn(m, n1, [Ptr(ret, 0), Ptr(this, 0)], st).st
    back = ex.new_obj(st, "back", N + 4, content=CellC())
    st = ex.run_fn(m, n2, [Ptr(back, 0), Ptr(ret, 0)], st).st
    for i in range(N):
        ex.oblige(st, f"hash byte {i} survives", to_bv(ex.load(st, Ptr(back, i), IntT(8)), 8) == bs[i])
    ex.oblige(st, "count survives", to_bv(ex.load(st, Ptr(back, N), IntT(32)), 32) == c)
    ctx.cover(ex, st, "end")


TARGETS = [Target(f"pawned_pw<{N}>(text)", ["record"], ctor, N=N, budget=500) for N in (20, 16, 8)] + \
    [Target(f"pawned_pw<{N}>::to_string", ["record"], to_string, N=N) for N in (20, 16, 8)]

TARGETS += [Target(f"pawned_pw<{N}>(to_string()) == identity", ["record"], roundtrip, N=N, budget=500) for N in (20, 16, 8)]
