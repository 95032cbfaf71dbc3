"""C01: arrcmp::array_compare and the comparison operators of pawned_pw give the unsigned lexicographic order."""
import z3
from irv.targets import Target, Missing
from irv.exec import State
from irv.mem import CellC
from irv.val import Ptr, Agg, b_iff

H = "/verif/harness/arrcmp.cpp"
VARIANTS = {"": [], "-avx2": ["-mavx2"], "-avx512": ["-mavx512f", "-mavx512bw"], "-gcc": ["-DVERIF_GCC_PATH"],
            "-gcc-avx512": ["-DVERIF_GCC_PATH", "-mavx512f", "-mavx512bw"]}
UNITS = {f"arrcmp{v}": (H, f, "c++") for v, f in VARIANTS.items()}
TRUSTED = ["Intel intrinsics: their clang header bodies and the LLVM vector instructions they become are executed, no contract assumed"]
ASSUMPTIONS = ["arrays of the listed lengths only: the length is a compile-time template parameter, every length the tools use "
               "(20, 16, 8) and lengths around the 1, 2, 4, 8, 16, 32 and 64 byte blocks are instantiated and proved",
               "clang compiles the same source the production g++ build compiles; the -gcc variants preprocess the non-clang "
               "branches of the source"]
LEVEL = "proof"


def two(ex, st, N):
    r = []
    for nm in "ab":
        bs = [z3.BitVec(f"{nm}{i}", 8) for i in range(N)]
        o = ex.new_obj(st, nm, N, content=CellC({i: (1, b) for i, b in enumerate(bs)}))
        r.append((z3.Concat(*bs) if N > 1 else bs[0], o))
    return r


def cmp_target(ctx, kind, ns):
    for N in ns:
        ex = ctx.executor(f"array_compare<{N},{kind}>")
        m, n = ctx.find(ex, rf"array_compare<{N}ul, arrcmp::{kind}>\(std::array")
        st = State()
        (a, oa), (b, ob) = two(ex, st, N)
        ch = ex.new_obj(st, "c", 1, content=CellC())
        out = ex.run_fn(m, n, [Ptr(oa, 0), Ptr(ob, 0), Ptr(ch, 0)], st)
        v = out.val
        if kind == "equal":
            ex.oblige(out.st, f"{N}: result is (a == b)", b_iff(v, a == b))
        elif kind == "three_way":
            v = v.f[0] if isinstance(v, Agg) else v
            ex.oblige(out.st, f"{N}: result is the unsigned lexicographic order",
                      v == z3.If(a == b, z3.BitVecVal(0, 8), z3.If(z3.ULT(a, b), z3.BitVecVal(255, 8), z3.BitVecVal(1, 8))))
        else:
            ex.oblige(out.st, f"{N}: sign of the result is the unsigned lexicographic order",
                      z3.And((v == 0) == (a == b), (v < 0) == z3.ULT(a, b)))
        ctx.cover(ex, out.st, f"{N}")


def rec_target(ctx):
    """operator== and <=> of the record types: only the hash bytes take part"""
    for N in (20, 16, 8):
        for op in ("==", "<=>"):
            ex = ctx.executor(f"pawned_pw<{N}>::operator{op}")
            m, n = ctx.find(ex, rf"^hibp::pawned_pw<{N}u>::operator{op}\(hibp::pawned_pw<{N}u> const&\) const")
            st = State()
            ps, vs = [], []
            for nm in "xy":
                bs = [z3.BitVec(f"{nm}{i}", 8) for i in range(N)]
                cc = {i: (1, x) for i, x in enumerate(bs)}
                cc[N] = (4, z3.BitVec(f"{nm}count", 32))
                ps.append(Ptr(ex.new_obj(st, nm, N + 4, content=CellC(cc)), 0))
                vs.append(z3.Concat(*bs))
            out = ex.run_fn(m, n, ps, st)
            v = out.val
            if op == "==":
                ex.oblige(out.st, f"{N}: equal exactly when all hash bytes agree", b_iff(v, vs[0] == vs[1]))
            else:
                v = v.f[0] if isinstance(v, Agg) else v
                ex.oblige(out.st, f"{N}: order of the hash bytes",
                          v == z3.If(vs[0] == vs[1], z3.BitVecVal(0, 8),
                                     z3.If(z3.ULT(vs[0], vs[1]), z3.BitVecVal(255, 8), z3.BitVecVal(1, 8))))
            ctx.cover(ex, out.st, f"{N}{op}")


NS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 28, 31, 32, 33]
BIG = [40, 48, 63, 64, 65]
TARGETS = []
for v in VARIANTS:
    for k in ("equal", "three_way", "three_way_int"):
        TARGETS.append(Target(f"array_compare {k} {v or 'sse2'} N<=33", [f"arrcmp{v}"], cmp_target, kind=k, ns=NS))
        TARGETS.append(Target(f"array_compare {k} {v or 'sse2'} N in 40..65", [f"arrcmp{v}"], cmp_target, kind=k, ns=BIG))
        TARGETS.append(Target(f"array_compare {k} {v or 'sse2'} N=100", [f"arrcmp{v}"], cmp_target, kind=k, ns=[100],
                              tier="thorough", budget=1200))
    TARGETS.append(Target(f"pawned_pw operators {v or 'sse2'}", [f"arrcmp{v}"], rec_target))
