"""Memory: objects with either cell contents (concrete offsets) or element-array contents (symbolic offsets)."""
import itertools
import z3
from .val import *

_ids = itertools.count(1)


class Obj:
    __slots__ = ("id", "name", "size", "kind", "ro", "stride", "fresh_reads", "meta")

    def __init__(self, name, size, kind="stack", stride=None, ro=False):
        self.id = next(_ids)
        self.name, self.size, self.kind, self.ro, self.stride = name, size, kind, ro, stride
        self.meta = None

    def __repr__(self):
        return f"<{self.name}#{self.id}>"


# ---------------------------------------------------------------- element-array content


class Node:
    """content of an element array: index -> element (BV of 8*stride bits, or Int)"""

    def read(self, i, ex):
        raise NotImplementedError


class Base(Node):
    """unconstrained content, an uninterpreted function of the index"""

    def __init__(self, name, bits, is_int=False):
        self.name = fresh_name(name)
        self.f = z3.Function(self.name, z3.IntSort(), z3.IntSort() if is_int else z3.BitVecSort(bits))
        self.bits, self.is_int = bits, is_int
        self.reads = {}
        self.elem_fact = None  # callback(index, value) -> list of facts assumed about every element

    def read(self, i, ex):
        i = zi(i)
        v = self.f(i)
        if i.get_id() not in self.reads or not self.reads[i.get_id()].eq(i):
            self.reads[i.get_id()] = i
            if self.is_int:
                ex.solver.axioms.append(z3.And(v >= 0, v < (1 << self.bits)))
            if self.elem_fact:
                for f in self.elem_fact(i, v):
                    ex.solver.axioms.append(zb(f))
        return v


class FnNode(Node):
    """content given by a Python function of the index term"""

    def __init__(self, f, bits):
        self.f, self.bits = f, bits

    def read(self, i, ex):
        return self.f(i)


class StoreN(Node):
    def __init__(self, prev, i, v):
        self.prev, self.i, self.v = prev, i, v

    def read(self, i, ex):
        n = self
        acc = []
        while isinstance(n, StoreN):
            c = i_eq(i, n.i)
            if is_c(c):
                if c:
                    r = n.v
                    break
            else:
                acc.append((c, n.v))
            n = n.prev
        else:
            r = n.read(i, ex)
        for c, v in reversed(acc):
            r = elem_ite(c, v, r)
        return r


class CopyN(Node):
    """elements [lo, lo+n) come from src[slo..], the rest from prev"""

    def __init__(self, prev, lo, n, src, slo):
        self.prev, self.lo, self.n, self.src, self.slo = prev, lo, n, src, slo

    def read(self, i, ex):
        c = b_and(i_le(self.lo, i), i_lt(i, i_add(self.lo, self.n)))
        if is_c(c) and not c:
            return self.prev.read(i, ex)
        a = self.src.read(i_add(i_sub(i, self.lo), self.slo), ex)
        if is_c(c):
            return a
        return elem_ite(c, a, self.prev.read(i, ex))


class FillN(Node):
    def __init__(self, prev, lo, n, v):
        self.prev, self.lo, self.n, self.v = prev, lo, n, v

    def read(self, i, ex):
        c = b_and(i_le(self.lo, i), i_lt(i, i_add(self.lo, self.n)))
        if is_c(c):
            return self.v if c else self.prev.read(i, ex)
        return elem_ite(c, self.v, self.prev.read(i, ex))


class IteN(Node):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, i, ex):
        return elem_ite(self.c, self.a.read(i, ex), self.b.read(i, ex))


class BytesN(Node):
    """constant bytes"""

    def __init__(self, data):
        self.data = data
        self.arr = None

    def read(self, i, ex):
        c = const_of(i)
        if c is not None:
            return self.data[c] if 0 <= c < len(self.data) else 0
        r = 0
        if len(self.data) <= 64:
            for k in range(len(self.data) - 1, -1, -1):
                r = self.data[k] if is_c(r) and k == len(self.data) - 1 else merge_num(i_eq(i, k), self.data[k], r, 8)
            return r
        if self.arr is None:
            a = z3.K(z3.IntSort(), z3.BitVecVal(0, 8))
            for k, b in enumerate(self.data):
                if b:
                    a = z3.Store(a, k, z3.BitVecVal(b, 8))
            self.arr = a
        return z3.Select(self.arr, zi(i))


def elem_ite(c, a, b):
    if is_c(c):
        return a if c else b
    if is_c(a) and is_c(b):
        if a == b:
            return a
        raise Unsupported("element ite of two constants of unknown width")
    if is_zi(a) or is_zi(b):
        return z3.If(c, zi(a), zi(b))
    w = a.size() if is_bv(a) else b.size()
    a, b = to_bv(a, w), to_bv(b, w)
    return a if a.eq(b) else z3.If(c, a, b)


class ArrC:
    """content of an object as an array of elements of `stride` bytes"""
    __slots__ = ("stride", "node", "is_int")

    def __init__(self, stride, node, is_int=False):
        self.stride, self.node, self.is_int = stride, node, is_int


class CellC:
    """content of an object as cells at concrete offsets: off -> (nbytes, value)"""
    __slots__ = ("c",)

    def __init__(self, c=None):
        self.c = c if c is not None else {}


def sub_bytes(v, n, lo, k):
    """bytes lo..lo+k of an n-byte value"""
    if lo == 0 and k == n:
        return v
    if isinstance(v, (Ptr, PtrU, FnPtr, PInt)):
        raise Unsupported("partial read of a pointer")
    if isinstance(v, Flo):
        raise Unsupported("partial read of a float")
    if v is UNDEF:
        return UNDEF
    if isinstance(v, Vec):
        v = vec_to_bv(v, n * 8)
    if is_zi(v):
        v = to_bv(v, 8 * n)
    return bv_extract(v, 8 * (lo + k) - 1, 8 * lo)


def vec_to_bv(v, bits):
    lw = bits // len(v.lanes)
    ps = []
    for x in reversed(v.lanes):
        if lw == 1 and not is_c(x):
            x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isinstance(x, z3.BoolRef) else x
        elif isinstance(x, bool):
            x = int(x)
        ps.append((x, lw))
    return bv_concat(ps)
