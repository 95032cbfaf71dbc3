"""C03: is_valid_hash accepts exactly the strings of 2*N upper-case hexadecimal digits."""
import z3
from irv.targets import Target
from irv.exec import State, zb
from irv.models import sym_string, in_set

UNITS = {"record": ("/verif/harness/arrcmp.cpp", [], "c++")}
TRUSTED = []
ASSUMPTIONS = ["that every query path of the search tool and the server calls is_valid_hash before building a record is "
               "replayed (bounded), not proved"]


def valid(ctx, N):
    ex = ctx.executor(f"is_valid_hash<{N}>")
    m, n = ctx.find(ex, rf"is_valid_hash<hibp::pawned_pw<{N}u>")
    st = State()
    p, b, sz = sym_string(ex, st, "hash")
    out = ex.run_fn(m, n, [p], st)
    K = z3.Int("K")
    ex.skolem_idx.append(K)
    v = out.val
    up = b"0123456789ABCDEF"
    ex.oblige(out.st, "accepted implies the exact length", z3.Implies(v, sz == 2 * N))
    ex.oblige(out.st, "accepted implies only upper-case hex digits",
              z3.Implies(z3.And(v, K >= 0, K < 2 * N), in_set(b.read(K, ex), up)))
    ex.skolem_idx += [z3.IntVal(j) for j in range(2 * N)]
    s2 = out.st.fork()
    s2.assume(sz == 2 * N)
    ex.forall(lambda i: z3.Implies(z3.And(i >= 0, i < 2 * N), zb(in_set(b.read(i, ex), up))))
    ex.oblige(s2, "every string of the right shape is accepted", v)
    ctx.cover(ex, s2, "a well-formed string")


TARGETS = [Target(f"is_valid_hash<{N}>", ["record"], valid, N=N) for N in (20, 16, 8)]
