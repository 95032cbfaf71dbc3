"""Values of the symbolic executor and their peephole-simplifying operations.

integers   Python int in [0,2^w) | z3 BitVec of width w | z3 Int holding the unsigned value ("exact" integers)
i1         Python bool | z3 Bool
pointers   Ptr(obj, off) (off: Python int or z3 Int, a mathematical integer) | PtrU (guarded union) | FnPtr
vectors    Vec(lanes);  aggregates: Agg(list);  floating point: Flo (opaque)
"""
import itertools
import z3

_cnt = itertools.count()


def fresh_name(base):
    return f"{base}!{next(_cnt)}"


def fresh_mark():
    return next(_cnt)


class Unsupported(Exception):
    """the executor (or a model) does not cover this construct: the target is undecided, never violated"""


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"Ptr({self.obj.name if self.obj else 'null'}+{self.off})"


NULL = Ptr(None, 0)


class PtrU:
    """guarded union of pointers: list of (cond, Ptr); exactly one guard holds"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"PtrU({[p for _, p in self.alts]})"


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"&{self.name}"


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Vec:
    __slots__ = ("lanes",)

    def __init__(self, lanes):
        self.lanes = tuple(lanes)


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = list(f)

    def __repr__(self):
        return f"Agg{self.f}"


class Flo:
    """opaque floating-point value"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def is_c(v):
    return isinstance(v, (int, bool)) and not isinstance(v, z3.ExprRef)


def is_bv(v):
    return isinstance(v, z3.BitVecRef)


def is_zi(v):
    return isinstance(v, z3.ArithRef)


def is_num(v):
    return is_c(v) or is_bv(v) or is_zi(v)


def mask(w):
    return (1 << w) - 1


def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c


# ---------------------------------------------------------------- booleans


def b_not(a):
    if is_c(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if is_c(x):
            if not x:
                return False
        elif z3.is_false(x):
            return False
        elif not z3.is_true(x):
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if is_c(x):
            if x:
                return True
        elif z3.is_true(x):
            return True
        elif not z3.is_false(x):
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_implies(a, b):
    if is_c(a):
        return b if a else True
    if is_c(b):
        return True if b else b_not(a)
    return z3.Implies(a, b)


def b_ite(c, a, b):
    if is_c(c):
        return a if c else b
    if is_c(a) and is_c(b):
        if a == b:
            return a
        return c if a else b_not(c)
    if is_c(a):
        return b_or(c, b) if a else b_and(b_not(c), b)
    if is_c(b):
        return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_iff(a, b):
    if is_c(a):
        return b if a else b_not(b)
    if is_c(b):
        return a if b else b_not(a)
    return a == b


def zb(x):
    """as a z3 Bool"""
    return z3.BoolVal(x) if is_c(x) else x


# ---------------------------------------------------------------- ite leaves


def is_ite(v):
    return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE


def const_of(v):
    """numeral value of a z3 term or None"""
    if is_c(v):
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_int_value(v):
        return v.as_long()
    return None


def ite_leaves(v, depth=5):
    """v is an ITE tree whose leaves are numerals?  -> list of leaves, or None"""
    c = const_of(v)
    if c is not None:
        return [c]
    if depth and not is_c(v) and is_ite(v):
        a = ite_leaves(v.arg(1), depth - 1)
        if a is None:
            return None
        b = ite_leaves(v.arg(2), depth - 1)
        if b is None:
            return None
        return a + b
    return None


def ite_map(v, f, ite):
    c = const_of(v)
    if c is not None:
        return f(c)
    a, b = ite_map(v.arg(1), f, ite), ite_map(v.arg(2), f, ite)
    if is_c(a) and is_c(b) and a == b and isinstance(a, bool) == isinstance(b, bool):
        return a
    return ite(v.arg(0), a, b)


def to_bv(v, w):
    if is_bv(v):
        assert v.size() == w, (v.size(), w)
        return v
    if is_c(v):
        return z3.BitVecVal(int(v), w)
    if is_zi(v):
        c = const_of(v)
        if c is not None:
            return z3.BitVecVal(c, w)
        if ite_leaves(v) is not None:
            return ite_map(v, lambda x: z3.BitVecVal(x, w), lambda c, a, b: z3.If(c, a, b))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT and v.arg(0).size() == w:
            return v.arg(0)
        return z3.Int2BV(v, w)
    raise Unsupported(f"to_bv of {v!r}")


def to_zi(v, w):
    """unsigned mathematical value"""
    if is_zi(v):
        return v
    if is_c(v):
        return int(v)
    if is_bv(v):
        if ite_leaves(v) is not None:
            return ite_map(v, lambda x: x, lambda c, a, b: z3.If(c, zi(a), zi(b)))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ZERO_EXT:
            return to_zi(v.arg(0), v.arg(0).size())
        if v.decl().kind() == z3.Z3_OP_CONCAT:
            x = z3.simplify(v)
            if x.decl().kind() == z3.Z3_OP_INT2BV:
                v = x
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_INT2BV:
            return v.arg(0) % (1 << w)
        if v.decl().kind() == z3.Z3_OP_BAND and v.num_args() == 2:
            for a, b in ((v.arg(0), v.arg(1)), (v.arg(1), v.arg(0))):
                if z3.is_bv_value(b) and a.decl().kind() == z3.Z3_OP_INT2BV and b.as_long() & (b.as_long() + 1) == 0:
                    return a.arg(0) % (b.as_long() + 1)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and has_int2bv(v):
            return z3.If(v.arg(0), zi(to_zi(v.arg(1), w)), zi(to_zi(v.arg(2), w)))
        return z3.BV2Int(v)
    raise Unsupported(f"to_zi of {v!r}")


HOIST = False    # move common conditions out of concatenations (set by targets that use the congruence prover)


def has_int2bv(v):
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        if has_int2bv(v.arg(1)):
            return True
        v = v.arg(2)
    return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_INT2BV


def zi(v):
    return z3.IntVal(v) if is_c(v) else v


def b2i_arg(v, w):
    """the w-bit vector that v is the unsigned value of, if v is written that way"""
    if is_bv(v):
        return v if v.size() == w else None
    if isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT:
        x = v.arg(0)
        return x if x.size() == w else z3.ZeroExt(w - x.size(), x) if x.size() < w else None
    return None


def n_eq(a, b, w):
    if is_c(a) and is_c(b):
        return a == b
    if is_zi(a) or is_zi(b):
        x, y = b2i_arg(a, w), b2i_arg(b, w)
        if x is not None and y is not None:
            return n_eq(x, y, w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        l = ite_leaves(a)
        if l is not None:
            return ite_map(a, lambda x: x == b, b_ite)
        if is_bv(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_ZERO_EXT:
                x = a.arg(0)
                if b >> x.size():
                    return False
                return n_eq(x, b, x.size())
            if k == z3.Z3_OP_CONCAT:
                # split only when low parts are constant
                pass
        if is_zi(a) and a.decl().kind() == z3.Z3_OP_BV2INT:
            x = a.arg(0)
            if b < 0 or b >> x.size():
                return False
            return n_eq(x, b, x.size())
        return a == b
    if is_bv(a) and is_bv(b):
        return True if a.eq(b) else a == b
    a, b = zi(to_zi(a, w)), zi(to_zi(b, w))
    if a.eq(b):
        return True
    d = lin_diff(a, b)
    if d is not None:
        return d == 0
    return a == b


def merge_num(c, a, b, w, prefer_int=True):
    if is_c(c):
        return a if c else b
    if is_c(a) and is_c(b):
        if a == b:
            return a
        if w == 1:
            return b_ite(c, bool(a), bool(b))
        if prefer_int and w >= 64:
            return z3.If(c, z3.IntVal(a), z3.IntVal(b))
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
    if w == 1:
        return b_ite(c, a, b)
    if is_zi(a) or is_zi(b):
        a, b = zi(to_zi(a, w)), zi(to_zi(b, w))
    else:
        a, b = to_bv(a, w), to_bv(b, w)
    return a if a.eq(b) else z3.If(c, a, b)


# ---------------------------------------------------------------- bit slices


def bv_extract(v, hi, lo):
    if is_c(v):
        return (v >> lo) & mask(hi - lo + 1)
    n = v.size()
    if lo == 0 and hi == n - 1:
        return v
    if z3.is_bv_value(v):
        return (v.as_long() >> lo) & mask(hi - lo + 1)
    k = v.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        # args are most significant first
        pos = n
        parts = []
        for a in v.children():
            pos -= a.size()
            ahi, alo = pos + a.size() - 1, pos
            if ahi < lo or alo > hi:
                continue
            h, l = min(hi, ahi) - pos, max(lo, alo) - pos
            parts.append((bv_extract(a, h, l), h - l + 1))
        return bv_concat(parts)
    if k == z3.Z3_OP_EXTRACT:
        h0, l0 = v.params()
        return bv_extract(v.arg(0), l0 + hi, l0 + lo)
    if k == z3.Z3_OP_ZERO_EXT:
        m = v.arg(0).size()
        if lo >= m:
            return 0
        if hi < m:
            return bv_extract(v.arg(0), hi, lo)
    if k == z3.Z3_OP_SIGN_EXT:
        m = v.arg(0).size()
        if hi < m:
            return bv_extract(v.arg(0), hi, lo)
    if ite_leaves(v) is not None:
        w = hi - lo + 1
        return ite_map(v, lambda x: (x >> lo) & mask(w), lambda c, a, b: z3.If(c, to_bv(a, w), to_bv(b, w)))
    return z3.Extract(hi, lo, v)


def bv_concat(parts):
    """parts: most significant first, list of (value, width); returns number of total width"""
    out = []
    if HOIST and len(parts) > 1 and all(is_bv(v) and v.decl().kind() == z3.Z3_OP_ITE for v, _ in parts):
        c = parts[0][0].arg(0)
        if all(v.arg(0).eq(c) for v, _ in parts):
            return z3.If(c, *[to_bv(bv_concat([(v.arg(k), w) for v, w in parts]), sum(w for _, w in parts)) for k in (1, 2)])
    for v, w in parts:
        if w == 0:
            continue
        v0 = const_of(v) if not is_c(v) else v
        if is_zi(v) and v0 is None:
            v = to_bv(v, w)
        if v0 is not None:
            if out and is_c(out[-1][0]):
                out[-1] = ((out[-1][0] << w) | int(v0), out[-1][1] + w)
            else:
                out.append((int(v0), w))
            continue
        if out and not is_c(out[-1][0]):
            p, pw = out[-1]
            # adjacent extracts of one term
            b1, h1, l1 = _slice(p)
            b2, h2, l2 = _slice(v)
            if b1.eq(b2) and l1 == h2 + 1:
                out[-1] = (bv_extract(b1, h1, l2), pw + w)
                continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if is_c(out[0][0]) and out[0][0] == 0 and len(out) == 2:
        return z3.ZeroExt(out[0][1], out[1][0])
    return z3.Concat(*[to_bv(v, w) for v, w in out])


def _slice(v):
    if v.decl().kind() == z3.Z3_OP_EXTRACT:
        h, l = v.params()
        return v.arg(0), h, l
    return v, v.size() - 1, 0


# ---------------------------------------------------------------- linear forms


def lin(e):
    """linear form of an Int term: ({ast_id: (atom, coef)}, const)"""
    out, const = {}, 0
    stack = [(e, 1)]
    while stack:
        x, c = stack.pop()
        if is_c(x):
            const += c * int(x)
            continue
        if z3.is_int_value(x):
            const += c * x.as_long()
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            stack += [(y, c) for y in x.children()]
        elif k == z3.Z3_OP_SUB:
            ch = x.children()
            stack.append((ch[0], c))
            stack += [(y, -c) for y in ch[1:]]
        elif k == z3.Z3_OP_UMINUS:
            stack.append((x.arg(0), -c))
        elif k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            stack.append((x.arg(1), c * x.arg(0).as_long()))
        elif k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
            stack.append((x.arg(0), c * x.arg(1).as_long()))
        else:
            i = x.get_id()
            if i in out:
                n = out[i][1] + c
                if n:
                    out[i] = (x, n)
                else:
                    del out[i]
            else:
                out[i] = (x, c)
    return out, const


def unlin(terms, const):
    if not terms:
        return const
    xs = [a if c == 1 else c * a for a, c in sorted(terms.values(), key=lambda t: t[0].get_id())]
    if const:
        xs.append(z3.IntVal(const))
    return xs[0] if len(xs) == 1 else z3.Sum(*xs)


def lin_diff(a, b):
    """a - b when it is a constant, else None"""
    ta, ca = lin(a)
    tb, cb = lin(b)
    if len(ta) != len(tb):
        return None
    for i, (x, c) in ta.items():
        if i not in tb or tb[i][1] != c:
            return None
    return ca - cb


def i_add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    ta, ca = lin(a)
    tb, cb = lin(b)
    t = dict(ta)
    for i, (x, c) in tb.items():
        n = c + (t[i][1] if i in t else 0)
        if n:
            t[i] = (x, n)
        else:
            t.pop(i, None)
    return unlin(t, ca + cb)


def i_scale(a, k):
    if is_c(a):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    ta, ca = lin(a)
    return unlin({i: (x, c * k) for i, (x, c) in ta.items()}, ca * k)


def i_sub(a, b):
    return i_add(a, i_scale(b, -1))


def i_divexact(a, s):
    """(quotient, remainder const) of a by s when every coefficient is a multiple of s, else None"""
    if is_c(a):
        return a // s, a % s
    ta, ca = lin(a)
    if any(c % s for _, c in ta.values()):
        return None
    return unlin({i: (x, c // s) for i, (x, c) in ta.items()}, ca // s), ca % s


def i_le(a, b):
    if is_c(a) and is_c(b):
        return a <= b
    d = lin_diff(a, b)
    if d is not None:
        return d <= 0
    return zi(a) <= zi(b)


def i_lt(a, b):
    if is_c(a) and is_c(b):
        return a < b
    d = lin_diff(a, b)
    if d is not None:
        return d < 0
    return zi(a) < zi(b)


def i_eq(a, b):
    return n_eq(a, b, 64)
