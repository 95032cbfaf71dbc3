"""Assumed contracts of the C++ runtime and standard library (everything here is part of the trusted base)."""
import re
import z3
from .val import *
from .mem import *
from .exec import Out
from .irparse import IntT, PTR, StructT, size_align
from .names import basename

NPOS = mask(64)


def params_of(dem):
    """parameter list text of a demangled function"""
    d = dem.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "")
    d = re.sub(r"( const)?( &&?)?( \[.*\])?$", "", d)
    if not d.endswith(")"):
        return ""
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                return d[i + 1 : -1]
    return ""


def split_params(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<({":
            d += 1
        elif c in ">)}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- heap, exceptions, assertions


def m_new(ex, st, args, dem):
    n = args[0]
    n = const_of(n) if const_of(n) is not None else n
    stride = None
    if ex.alloc_stride is not None:
        stride = ex.alloc_stride(ex, n)
    if stride is None and not is_c(n):
        from math import gcd
        ts, c0 = lin(n)
        g = c0
        for _, c in ts.values():
            g = gcd(g, c)
        stride = g or 1
    o = ex.new_obj(st, "heap", n, "heap", stride=stride)
    if stride and stride in ex.__dict__.get("int_strides", ()):
        st.mem[o.id] = ArrC(stride, Base("heap", 8 * stride, True), True)
    return Ptr(o, 0)


def m_delete(ex, st, args, dem):
    p = args[0]
    for c, q in ex.ptr_alts(p):
        if q.obj is None:
            continue
        if q.obj.kind == "invalid":
            ex.oblige(st, "invalid-free", False, c)
            continue
        ex.oblige(st, "double-free", b_not(st.dead.get(q.obj.id, False)), c)
        ex.oblige(st, "free-of-interior", i_eq(q.off, 0), c)
        st.dead[q.obj.id] = b_or(st.dead.get(q.obj.id, False), c)
    return None


def m_assert(ex, st, args, dem):
    ex.oblige(st, "assert", False)
    return Out(None)


def m_stdassert(ex, st, args, dem):
    ex.oblige(st, "library-precondition", False)
    return Out(None)


def m_terminate(ex, st, args, dem):
    ex.oblige(st, "terminate", False)
    return Out(None)


def m_alloc_exc(ex, st, args, dem):
    o = ex.new_obj(st, "exception", 1024, "heap", content=CellC())
    return Ptr(o, 0)


def m_throw(ex, st, args, dem):
    ti = args[1]
    name = ti.obj.name[1:] if isinstance(ti, Ptr) and ti.obj else "?"
    return ex.throw(st, name, args[0])


def thrower(name):
    def h(ex, st, args, dem):
        return ex.throw(st, name, NULL)
    return h


def m_begin_catch(ex, st, args, dem):
    st.ghost["caught"] = Boxed(st.exc)
    st.exc = None
    p = args[0]
    if isinstance(p, (Ptr, PtrU)) and all(q.obj is None or q.obj.name == "exception" and not (
            isinstance(st.mem.get(q.obj.id), CellC) and 0 in st.mem[q.obj.id].c) for c, q in ex.ptr_alts(p)):
        # an exception of the library, or one whose library constructor was not executed: only what() can be asked of it
        vt = ex.new_obj(st, "exception.vtable", 64, content=CellC({16: (8, FnPtr("irv.what"))}))
        p = Ptr(ex.new_obj(st, "exception", 1024, "heap", content=CellC({0: (8, Ptr(vt, 0))})), 0)
    return p


def m_what(ex, st, args, dem):
    n = ex.fresh(st, 64, "what.len")
    st.assume(n < 1 << 30)
    o = ex.new_obj(st, "what", n + 1, "heap", content=ArrC(1, Base(fresh_name("what"), 8)))
    return Ptr(o, 0)


def m_end_catch(ex, st, args, dem):
    st.ghost["caught"] = Boxed(None)
    return None


def m_rethrow(ex, st, args, dem):
    c = st.ghost.get("caught")
    st.exc = c.v if c is not None and c.v is not None else (None, NULL)
    return Out(None, None, [st])


class Boxed:
    """opaque ghost value"""

    def __init__(self, v):
        self.v = v

    def merge(self, ex, st, c, other):
        return self if self.v == other.v else Boxed(None)

    def havoc(self, ex, st):
        return Boxed(None)


def nop(ex, st, args, dem):
    return None


def m_exc_ctor(ex, st, args, dem):
    return None


# ---------------------------------------------------------------- mem* functions


def rd(ex, st, p, i):
    """byte at p+i (bounds obliged by caller)"""
    return ex.read_bytes(st, Ptr(p.obj, i_add(p.off, i)), 1)


def m_memcmp(ex, st, args, dem):
    a, b, n = args
    n = const_of(n) if const_of(n) is not None else n
    if not is_c(n):
        return mem_cmp_sym(ex, st, a, b, n)
    if n == 0:
        return 0
    ex.bounds(st, a, n)
    ex.bounds(st, b, n)
    x = [rd(ex, st, a, i) for i in range(n)]
    y = [rd(ex, st, b, i) for i in range(n)]
    X, Y = to_bv(bv_concat([(v, 8) for v in x]), 8 * n), to_bv(bv_concat([(v, 8) for v in y]), 8 * n)
    pos = z3.BitVec(fresh_name("memcmp"), 32)
    st.assume(pos > 0)
    st.assume(pos <= 255)
    return z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.ULT(X, Y), -pos, pos))


def mem_cmp_sym(ex, st, a, b, n):
    """0 iff all bytes equal; otherwise sign of the first difference (witness index)"""
    n = to_zi(n, 64)
    g = zi(n) > 0
    ex.bounds(st, a, n, g)
    ex.bounds(st, b, n, g)
    r = z3.BitVec(fresh_name("memcmp"), 32)
    w = z3.Int(fresh_name("diff"))
    ca, cb = ex.content(st, a.obj), ex.content(st, b.obj)

    def at(p, c, i):
        s = State_view(st, p, c)
        return ex.read_bytes(s, Ptr(p.obj, i_add(p.off, i)), 1)
    xa, xb = to_bv(at(a, ca, w), 8), to_bv(at(b, cb, w), 8)
    st.assume(z3.If(r == 0, True, z3.And(w >= 0, w < n, z3.If(r < 0, z3.ULT(xa, xb), z3.ULT(xb, xa)))))
    ex.forall(lambda i: z3.Implies(z3.And(0 <= i, i < n, z3.Or(r == 0, i < w)),
                                   to_bv(at(a, ca, i), 8) == to_bv(at(b, cb, i), 8)))
    ex.skolem_idx.append(w)
    return r


class State_view:
    """read-only view of a state with one object's content fixed"""

    def __init__(self, st, p, c):
        self.mem = {p.obj.id: c}
        self.pc = st.pc
        self.osize = st.osize
        self.dead = {}

    def assume(self, f):
        pass


def m_strlen(ex, st, args, dem):
    p = args[0]
    if not isinstance(p, Ptr) or p.obj is None:
        raise Unsupported("strlen of non-object pointer")
    c = ex.content(st, p.obj)
    if p.obj.kind == "global" and is_c(p.off):
        n = 0
        while True:
            v = rd(ex, st, p, n)
            v = const_of(v)
            if v is None:
                break
            if v == 0:
                return n
            n += 1
    # C string held by a modelled std::string: its length (assumes no embedded NUL)
    raise Unsupported("strlen of symbolic string")


# ---------------------------------------------------------------- std::string
# layout kept as in libstdc++: data pointer at 0, length at 8; each string owns one data object whose
# size is length+1; capacity and the small-string buffer are abstracted away


def str_new(ex, st, p, size, node, name="strdata"):
    """(re)initialise the string at p"""
    o = Obj(name, None, "strdata")
    st.mem[o.id] = ArrC(1, StoreN(node, size, z3.BitVecVal(0, 8)))
    st.osize[o.id] = i_add(size, 1)
    ex.store(st, p, Ptr(o, 0), PTR)
    ex.store(st, ex.padd(p, 8), size, IntT(64))
    return o


def str_parts(ex, st, p):
    d = ex.load(st, p, PTR)
    n = ex.load(st, ex.padd(p, 8), IntT(64))
    if is_bv(n):
        n = to_zi(n, 64)
    return d, n


def str_set(ex, st, p, size, node):
    """new content for an existing string, same data object"""
    d = ex.load(st, p, PTR)
    if not isinstance(d, Ptr) or d.obj is None or d.obj.kind != "strdata":
        return str_new(ex, st, p, size, node)
    st.mem[d.obj.id] = ArrC(1, StoreN(node, size, z3.BitVecVal(0, 8)))
    st.osize[d.obj.id] = i_add(size, 1)
    ex.store(st, ex.padd(p, 8), size, IntT(64))
    return d.obj


EMPTY = FnNode(lambda i: z3.BitVecVal(0, 8), 8)


def view_node(ex, st, ptr, n):
    """node whose element i is byte ptr[i]"""
    if isinstance(ptr, PtrU):
        # resolve by content of each alternative
        nodes = [(c, view_node(ex, st, q, n)) for c, q in ptr.alts if ex.solver.feasible(st.pc, c)]
        r = nodes[-1][1]
        for c, nd in reversed(nodes[:-1]):
            r = IteN(c, nd, r)
        return r
    if ptr.obj is None:
        return EMPTY
    c = ex.content(st, ptr.obj)
    if isinstance(c, ArrC) and c.stride == 1:
        if is_c(ptr.off) and ptr.off == 0:
            return c.node
        return CopyN(EMPTY, 0, n, c.node, ptr.off)
    if isinstance(c, CellC) and is_c(ptr.off):
        size = ex.size_of(st, ptr.obj)
        k = size - ptr.off
        if is_c(n):
            k = min(k, n)
        if not is_c(k) or k > 4096:
            raise Unsupported("string from large cell object")
        vals = [ex._cell_read(st, ptr.obj, ex.content(st, ptr.obj), ptr.off + i, 1) for i in range(k)]
        if all(const_of(v) is not None for v in vals):
            return BytesN(bytes(const_of(v) for v in vals))

        def f(i):
            ci = const_of(i)
            if ci is not None:
                return vals[ci] if 0 <= ci < k else z3.BitVecVal(0, 8)
            r = z3.BitVecVal(0, 8)
            for j, v in enumerate(vals):
                r = merge_num(i_eq(i, j), v, r, 8)
            return to_bv(r, 8)
        return FnNode(f, 8)
    raise Unsupported("string from this object")


def cstr_len(ex, st, p):
    n = m_strlen(ex, st, [p], "")
    return n


def range_ok(ex, st, p, n):
    g = True if is_c(n) and n > 0 else (False if is_c(n) else zi(n) > 0)
    for c, q in ex.ptr_alts(p):
        ex.bounds(st, q, n, b_and(c, g), "string source")


def m_string_ctor(ex, st, args, dem):
    ps = split_params(params_of(dem))
    this = args[0]
    a = ps[0] if ps else ""
    if not ps or (len(ps) == 1 and a.startswith("std::allocator")):
        str_new(ex, st, this, 0, EMPTY)
        return None
    if a.startswith("char const*"):
        if len(ps) >= 2 and ps[1].startswith(("unsigned long",)):
            n = norm(args[2])
            range_ok(ex, st, args[1], n)
        elif len(ps) >= 2 and ps[1].startswith("char const*"):
            n = ptr_dist(ex, st, args[1], args[2])
            range_ok(ex, st, args[1], n)
        else:
            n = cstr_len(ex, st, args[1])
        str_new(ex, st, this, n, view_node(ex, st, args[1], n))
        return None
    if a.startswith("unsigned long") and len(ps) > 1 and ps[1].startswith("char"):
        n = norm(args[1])
        c = args[2]
        str_new(ex, st, this, n, FnNode(lambda i: to_bv(c, 8), 8))
        return None
    if "basic_string<" in a and a.endswith("const&") and (len(ps) == 1 or ps[1].startswith("std::allocator")):
        d, n = str_parts(ex, st, args[1])
        str_new(ex, st, this, n, view_node(ex, st, d, n))
        return None
    if "basic_string<" in a and a.endswith("const&") and len(ps) >= 2 and ps[1].startswith("unsigned long"):
        d, n = str_parts(ex, st, args[1])
        pos = norm(args[2])
        return substr_into(ex, st, this, d, n, pos, norm(args[3]) if len(ps) >= 3 and ps[2].startswith("unsigned") else NPOS)
    if "basic_string<" in a and a.endswith("&&"):
        move_str(ex, st, this, args[1])
        return None
    if "basic_string_view" in a or "_sv_wrapper" in a or "string_view" in a or (a.startswith("T const&")) or "T&&" in a:
        return NotImplemented
    return NotImplemented


def move_str(ex, st, this, src):
    d, n = str_parts(ex, st, src)
    ex.store(st, this, d, PTR)
    ex.store(st, ex.padd(this, 8), n, IntT(64))
    str_new(ex, st, src, 0, EMPTY)


def norm(v):
    c = const_of(v) if is_num(v) else None
    if c is not None:
        return c
    return to_zi(v, 64)


def ptr_dist(ex, st, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return i_sub(b.off, a.off)
    return norm(ex.pint_binop(st, "sub", PInt(b), PInt(a), 64))


def imin(a, b):
    if is_c(a) and is_c(b):
        return min(a, b)
    c = i_le(a, b)
    if is_c(c):
        return a if c else b
    return z3.If(c, zi(a), zi(b))


def substr_into(ex, st, this, d, n, pos, cnt):
    """pos<=n else out_of_range"""
    bad = b_not(i_le(pos, n))
    excs = []
    if not (is_c(bad) and not bad) and ex.solver.feasible(st.pc, bad):
        s2 = st.fork()
        s2.assume(bad)
        excs = ex.throw(s2, "_ZTISt12out_of_range").excs
    st.assume(i_le(pos, n))
    ln = imin(cnt, i_sub(n, pos))
    if not is_c(ln):
        if ex.solver.valid(st.pc, i_le(cnt, i_sub(n, pos)), 1.0):
            ln = cnt
    str_new(ex, st, this, ln, view_node(ex, st, ex.padd(d, pos), ln))
    return Out(st, None, excs)


def m_string_dtor(ex, st, args, dem):
    d = ex.load(st, args[0], PTR)
    if isinstance(d, Ptr) and d.obj is not None and d.obj.kind == "strdata":
        st.dead[d.obj.id] = True
        return None
    if isinstance(d, PtrU):
        for c, q in d.alts:
            if q.obj is not None and q.obj.kind == "strdata":
                st.dead[q.obj.id] = b_or(st.dead.get(q.obj.id, False), c)
    return None


def arg_view(ex, st, args, ps, i):
    """(ptr, len) of a string-like argument number i (0-based after this)"""
    a = ps[i]
    if a.startswith("char const*"):
        if len(ps) > i + 1 and ps[i + 1].startswith("unsigned long"):
            n = norm(args[i + 2])
            range_ok(ex, st, args[i + 1], n)
            return args[i + 1], n
        return args[i + 1], cstr_len(ex, st, args[i + 1])
    if "basic_string_view" in a:
        raise Unsupported("string_view argument")
    if "basic_string<" in a:
        return str_parts(ex, st, args[i + 1])
    raise Unsupported(f"string argument {a}")


def m_string_assign(ex, st, args, dem):
    ps = split_params(params_of(dem))
    this = args[0]
    if not ps:
        return NotImplemented
    if ps[0] == "char":
        c = args[1]
        str_set(ex, st, this, 1, FnNode(lambda i: to_bv(c, 8), 8))
        return this
    if ps[0].startswith("unsigned long") and len(ps) > 1:
        n, c = norm(args[1]), args[2]
        str_set(ex, st, this, n, FnNode(lambda i: to_bv(c, 8), 8))
        return this
    if "basic_string<" in ps[0] and ps[0].endswith("&&"):
        d, n = str_parts(ex, st, args[1])
        str_set(ex, st, this, n, view_node(ex, st, d, n))
        str_set(ex, st, args[1], 0, EMPTY)
        return this
    if ps[0].startswith("char const*") or ("basic_string<" in ps[0] and "string_view" not in ps[0]):
        p, n = arg_view(ex, st, args, ps, 0)
        str_set(ex, st, this, n, view_node(ex, st, p, n))
        return this
    return NotImplemented


def str_append(ex, st, this, p, n):
    d, m = str_parts(ex, st, this)
    src = view_node(ex, st, p, n)
    base = view_node(ex, st, d, m)
    str_set(ex, st, this, i_add(m, n), CopyN(base, m, n, src, 0))


def m_string_append(ex, st, args, dem):
    ps = split_params(params_of(dem))
    this = args[0]
    if ps[0] == "char":
        return m_string_push(ex, st, args, dem, ret=this)
    if ps[0].startswith("unsigned long"):
        n, c = norm(args[1]), args[2]
        d, m = str_parts(ex, st, this)
        str_set(ex, st, this, i_add(m, n), CopyN(view_node(ex, st, d, m), m, n, FnNode(lambda i: to_bv(c, 8), 8), 0))
        return this
    if ps[0].startswith("char const*") and len(ps) > 1 and ps[1].startswith("char const*"):
        n = ptr_dist(ex, st, args[1], args[2])
        range_ok(ex, st, args[1], n)
        str_append(ex, st, this, args[1], n)
        return this
    if ps[0].startswith("char const*") or ("basic_string<" in ps[0] and len(ps) == 1):
        p, n = arg_view(ex, st, args, ps, 0)
        str_append(ex, st, this, p, n)
        return this
    return NotImplemented


def m_string_push(ex, st, args, dem, ret=None):
    this, c = args[0], args[1]
    d, m = str_parts(ex, st, this)
    node = view_node(ex, st, d, m)
    str_set(ex, st, this, i_add(m, 1), StoreN(node, m, to_bv(c, 8)))
    return ret


def m_string_resize(ex, st, args, dem):
    this = args[0]
    n = norm(args[1])
    c = args[2] if len(args) > 2 else 0
    d, m = str_parts(ex, st, this)
    node = view_node(ex, st, d, m)
    # elements beyond the old size become c
    grown = IteN(zb(i_lt(m, n)), FillN(node, m, i_sub(n, m), to_bv(c, 8)), node)
    le = i_le(n, m)
    if (is_c(le) and le) or (not is_c(le) and ex.solver.valid(st.pc, le, 1.0)):
        grown = node
    str_set(ex, st, this, n, grown)
    return None


def m_string_clear(ex, st, args, dem):
    str_set(ex, st, args[0], 0, EMPTY)
    return None


def m_string_substr(ex, st, args, dem):
    # sret, this, pos, n
    d, n = str_parts(ex, st, args[1])
    return substr_into(ex, st, args[0], d, n, norm(args[2]), norm(args[3]))


def in_set(v, chars):
    v = to_bv(v, 8)
    cs = sorted(set(chars))
    rngs = []
    for c in cs:
        if rngs and rngs[-1][1] == c - 1:
            rngs[-1][1] = c
        else:
            rngs.append([c, c])
    return b_or(*[z3.And(z3.UGE(v, a), z3.ULE(v, b)) if a != b else v == a for a, b in rngs])


def const_bytes(ex, st, p, n):
    out = []
    for i in range(n):
        v = const_of(rd(ex, st, p, i))
        if v is None:
            return None
        out.append(v)
    return bytes(out)


def search_chars(ex, st, p, n, lo, pred, name):
    """index of the first position >= lo satisfying pred, or npos"""
    r = ex.fresh(st, 64, name)
    node = view_node(ex, st, p, n)
    found = b_and(i_le(lo, r), i_lt(r, n))
    hit = pred(to_bv(node.read(r, ex), 8))
    st.assume(b_or(zi(r) == NPOS, b_and(found, hit)))
    st.assume(b_implies(i_lt(n, lo), zi(r) == NPOS))

    def all_(i):
        return z3.Implies(z3.And(zi(lo) <= i, i < zi(n), i < r), z3.Not(pred(to_bv(node.read(i, ex), 8))))
    ex.forall(all_)
    ex.skolem_idx.append(r)
    return r


def m_find_first_not_of(ex, st, args, dem):
    ps = split_params(params_of(dem))
    d, n = str_parts(ex, st, args[0])
    if ps[0].startswith("char const*"):
        if len(ps) > 2:
            k = norm(args[3])
        else:
            k = cstr_len(ex, st, args[1])
        if not is_c(k):
            raise Unsupported("set of symbolic size")
        cs = const_bytes(ex, st, args[1], k)
    elif "basic_string<" in ps[0]:
        q, k = str_parts(ex, st, args[1])
        if not is_c(k):
            raise Unsupported("set of symbolic size")
        cs = const_bytes(ex, st, q, k)
    else:
        return NotImplemented
    if cs is None:
        raise Unsupported("symbolic character set")
    lo = norm(args[2]) if len(ps) > 1 else 0
    neg = "find_first_not_of" in dem
    return search_chars(ex, st, d, n, lo, (lambda v: b_not(in_set(v, cs))) if neg else (lambda v: in_set(v, cs)), "ffno")


def m_string_find(ex, st, args, dem):
    ps = split_params(params_of(dem))
    d, n = str_parts(ex, st, args[0])
    if ps[0] == "char":
        c = to_bv(args[1], 8)
        lo = norm(args[2])
        return search_chars(ex, st, d, n, lo, lambda v: v == c, "find")
    return NotImplemented


def m_streq(ex, st, args, dem):
    """operator== of two strings / string and C string"""
    ps = split_params(params_of(dem))
    if any("basic_string_view" in p for p in ps):
        return NotImplemented
    if len(ps) != 2 or not all("basic_string<" in p or p.startswith("char const*") for p in ps):
        return NotImplemented
    views = []
    for a, p in zip(args, ps):
        if p.startswith("char const*"):
            views.append((a, cstr_len(ex, st, a)))
        else:
            views.append(str_parts(ex, st, a))
    return bytes_equal(ex, st, views[0], views[1])


def bytes_equal(ex, st, v1, v2):
    (p, n), (q, m) = v1, v2
    a, b = view_node(ex, st, p, n), view_node(ex, st, q, m)
    if is_c(n) or is_c(m):
        k = n if is_c(n) else m
        if k <= 128:
            c = i_eq(n, m)
            return b_and(c, *[n_eq(to_bv(a.read(i, ex), 8), to_bv(b.read(i, ex), 8), 8) for i in range(k)])
    r = z3.Bool(fresh_name("streq"))
    w = z3.Int(fresh_name("wit"))
    st.assume(z3.Implies(r, zi(n) == zi(m)))
    st.assume(z3.Or(r, zi(n) != zi(m), z3.And(w >= 0, w < zi(n), to_bv(a.read(w, ex), 8) != to_bv(b.read(w, ex), 8))))
    ex.forall(lambda i: z3.Implies(z3.And(r, i >= 0, i < zi(n)), to_bv(a.read(i, ex), 8) == to_bv(b.read(i, ex), 8)))
    ex.skolem_idx.append(w)
    return r


def m_strne(ex, st, args, dem):
    r = m_streq(ex, st, args, dem)
    return r if r is NotImplemented else b_not(r)


def m_string_plus(ex, st, args, dem):
    """operator+(a, b) -> sret string"""
    ps = split_params(params_of(dem))
    ret = args[0]
    vs = []
    for a, p in zip(args[1:], ps):
        if p.startswith("char const*"):
            vs.append((a, cstr_len(ex, st, a)))
        elif p == "char":
            vs.append(("c", a))
        else:
            vs.append(str_parts(ex, st, a))
    (p, n), (q, m) = vs
    if p == "c":
        na, n = FnNode(lambda i: to_bv(n0, 8), 8), 1
        n0 = args[1]
    else:
        na = view_node(ex, st, p, n)
    if q == "c":
        c0 = m
        nb, m = FnNode(lambda i: to_bv(c0, 8), 8), 1
    else:
        nb = view_node(ex, st, q, m)
    str_new(ex, st, ret, i_add(n, m), CopyN(na, n, m, nb, 0))
    return None


def m_capacity(ex, st, args, dem):
    d, n = str_parts(ex, st, args[0])
    r = ex.fresh(st, 64, "cap")
    st.assume(zi(r) >= zi(n))
    return r


# ---------------------------------------------------------------- from_chars / to_chars (int32)
DIG = z3.Function("to_chars_digit", z3.BitVecSort(32), z3.IntSort(), z3.BitVecSort(8))
DLEN = z3.Function("to_chars_len", z3.BitVecSort(32), z3.IntSort())
DAX = set()


def dlen(ex, v):
    n = DLEN(v)
    key = (id(ex), n.get_id())
    ex.keep.append(n)
    if key not in ex.dec_seen:
        ex.dec_seen.add(key)
        ex.solver.axioms.append(z3.And(n >= 1, n <= 11))
        ex.solver.axioms.append(z3.Implies(v >= 0, n <= 10))
        ex.solver.axioms.append(z3.Implies(v < 0, z3.And(n >= 2, DIG(v, z3.IntVal(0)) == 45)))
        ex.forall(lambda i: z3.Implies(z3.And(i >= 0, i < n, z3.Or(i > 0, v >= 0)),
                                       z3.And(z3.UGE(DIG(v, i), 48), z3.ULE(DIG(v, i), 57))))
    return n


class DecN(Node):
    """decimal text of v"""

    def __init__(self, v):
        self.v = v

    def read(self, i, ex):
        return DIG(self.v, zi(i))


def m_to_chars(ex, st, args, dem):
    """to_chars(first,last,int32) -> {ptr, ec}"""
    ps = split_params(params_of(dem))
    if len(args) < 3:
        return NotImplemented
    first, last, v = args[0], args[1], args[2]
    if not is_bv(v) and not is_c(v):
        v = to_bv(v, 32)
    v = to_bv(v, 32)
    if len(args) > 3 and const_of(args[3]) not in (None, 10):
        raise Unsupported("to_chars base")
    n = dlen(ex, v)
    room = ptr_dist(ex, st, first, last)
    fits = i_le(n, room)
    if not ex.solver.valid(st.pc, zb(fits), 2.0):
        # does not fit: (last, value_too_large)
        ex.oblige(st, "to_chars-capacity", fits)
    range_ok(ex, st, first, n)
    o = first.obj
    c = ex.content(st, o)
    if not (isinstance(c, ArrC) and c.stride == 1):
        raise Unsupported("to_chars into cell object")
    st.mem[o.id] = ArrC(1, CopyN(c.node, first.off, n, DecN(v), 0))
    return Agg([ex.padd(first, n), 0])


def find_dec(ex, st, node, lo):
    """the decimal text starting exactly at index lo of node, if syntactically evident"""
    while True:
        if isinstance(node, StoreN):
            node = node.prev
            continue
        if isinstance(node, CopyN):
            e = i_eq(node.lo, lo)
            if is_c(e) and e and isinstance(node.src, DecN) and is_c(node.slo) and node.slo == 0:
                return node
            if is_c(node.lo) and is_c(lo) and node.lo > lo:
                node = node.prev
                continue
            if is_c(node.lo) and node.lo == 0 and isinstance(node.src, (CopyN, StoreN)):
                lo = i_add(lo, node.slo)
                node = node.src
                continue
            return None
        return None


def m_from_chars(ex, st, args, dem):
    """from_chars(first,last,int& v, base=10): value = decimal prefix of the text if it fits, else unchanged"""
    first, last, vp = args[0], args[1], args[2]
    if len(args) > 3 and const_of(args[3]) not in (None, 10):
        raise Unsupported("from_chars base")
    n = ptr_dist(ex, st, first, last)
    ex.oblige(st, "from_chars-range", i_le(0, n))
    range_ok(ex, st, first, n)
    node = view_node(ex, st, first, n)
    old = ex.load(st, vp, IntT(32))
    ok, val, used = from_chars_spec(ex, st, node, n, key=(first.obj.id if isinstance(first, Ptr) else None, first))
    ex.store(st, vp, merge_num(ok, val, to_bv(old, 32), 32), IntT(32))
    st.ghost["from_chars"] = FCall(first, n, ok, val)
    return Agg([ex.padd(first, used), merge_num(ok, 0, 22, 32)])


class FCall:
    def __init__(self, first, n, ok, val):
        self.first, self.n, self.ok, self.val = first, n, ok, val

    def merge(self, ex, st, c, o):
        return self

    def havoc(self, ex, st):
        return self


def from_chars_spec(ex, st, node, n, key=None):
    """abstract decimal parse: functional in (content, n); exact when the text is a to_chars image"""
    ok, val = z3.Bool(fresh_name("fc_ok")), z3.BitVec(fresh_name("fc_val"), 32)
    used = ex.fresh(st, 64, "fc_used")
    st.assume(z3.And(zi(used) <= zi(n), z3.Implies(ok, zi(used) >= 1)))
    isdig = lambda b: z3.And(z3.UGE(b, 48), z3.ULE(b, 57))
    b0 = to_bv(node.read(0, ex), 8)
    st.assume(z3.Implies(z3.Or(zi(n) <= 0, z3.And(z3.Not(isdig(b0)), b0 != 45)), z3.Not(ok)))
    st.assume(z3.Implies(isdig(b0), z3.Implies(ok, val >= 0)))
    d = find_dec(ex, st, node, 0)
    if d is not None:
        v = d.src.v
        m = dlen(ex, v)
        nxt = to_bv(node.read(i_add(d.n, 0), ex), 8)
        st.assume(z3.Implies(z3.Or(zi(n) == m, z3.And(zi(n) > m, z3.Not(isdig(nxt)))),
                             z3.And(ok, val == v, zi(used) == m)))
    return ok, val, used


def install(ex):
    ex.skolem_idx = []
    ex.keep = []
    ex.dec_seen = set()
    ex._foralls = []
    ex.forall = lambda f: ex._foralls.append(f)
    inst_cache = {}

    def inst():
        n = 0
        while True:
            idx = [zi(i) for i in ex.skolem_idx]
            fs = list(ex._foralls)
            for _, fs2, idx2 in ex.solver.onces.values():
                fs += fs2
                idx += [zi(i) for i in idx2]
            out, new, had = [], False, set()
            for f in fs:
                for i in idx:
                    k = (id(f), i.get_id())
                    if k in had:
                        continue
                    had.add(k)
                    h = inst_cache.get(k)
                    if h is None:
                        h = inst_cache[k] = (zb(f(i)), i, f)
                        new = True
                    out.append(h[0])
            n += 1
            if not new or n > 3:
                return out
    ex.solver.inst.append(inst)
    M = ex.models
    M["operator new"] = m_new
    M["operator new[]"] = m_new
    M["operator delete"] = m_delete
    M["operator delete[]"] = m_delete
    M["_Znwm"] = m_new
    M["_Znam"] = m_new
    M["_ZdlPv"] = M["_ZdlPvm"] = M["_ZdaPv"] = m_delete
    M["_ZnwmSt11align_val_t"] = m_new
    M["__assert_fail"] = m_assert
    M["std::__glibcxx_assert_fail"] = m_stdassert
    M["std::terminate"] = m_terminate
    M["__clang_call_terminate"] = m_terminate
    M["abort"] = m_terminate
    M["__cxa_allocate_exception"] = m_alloc_exc
    M["__cxa_free_exception"] = nop
    M["irv.what"] = m_what
    M["__cxa_throw"] = m_throw
    M["__cxa_rethrow"] = m_rethrow
    M["__cxa_begin_catch"] = m_begin_catch
    M["__cxa_end_catch"] = m_end_catch
    def guard_acquire(ex, st, a, d):
        v = ex.load(st, a[0], IntT(8))
        return z3.If(to_bv(v, 8) == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    M["__cxa_guard_acquire"] = guard_acquire
    M["__cxa_guard_release"] = lambda ex, st, a, d: ex.store(st, a[0], 1, IntT(8))
    M["__cxa_guard_abort"] = nop
    M["__cxa_atexit"] = lambda ex, st, a, d: 0
    M["std::__throw_length_error"] = thrower("_ZTISt12length_error")
    M["std::__throw_logic_error"] = thrower("_ZTISt11logic_error")
    M["std::__throw_bad_alloc"] = thrower("_ZTISt9bad_alloc")
    M["std::__throw_bad_array_new_length"] = thrower("_ZTISt9bad_alloc")
    M["std::__throw_out_of_range_fmt"] = thrower("_ZTISt12out_of_range")
    M["std::__throw_out_of_range"] = thrower("_ZTISt12out_of_range")
    for e in ("runtime_error", "logic_error", "domain_error", "invalid_argument", "out_of_range", "ios_base::failure",
              "exception"):
        l = e.split("::")[-1]
        M[f"std::{e}::{l}"] = m_exc_ctor
        M[f"std::{e}::~{l}"] = nop
    M["memcmp"] = m_memcmp
    M["__builtin_memcmp"] = m_memcmp
    M["strlen"] = m_strlen
    M["memcpy"] = lambda ex, st, a, d: (ex.memcpy(st, a[0], a[1], a[2]), a[0])[1]
    M["memmove"] = M["memcpy"]
    M["memset"] = lambda ex, st, a, d: (ex.memset(st, a[0], ex.trunc(a[1], 32, 8), a[2]), a[0])[1]
    M["std::char_traits::length"] = m_strlen
    S = "std::basic_string::"
    M[S + "basic_string"] = m_string_ctor
    M[S + "~basic_string"] = m_string_dtor
    M[S + "operator="] = m_string_assign
    M[S + "assign"] = m_string_assign
    M[S + "append"] = m_string_append
    M[S + "operator+="] = m_string_append
    M[S + "push_back"] = m_string_push
    M[S + "resize"] = m_string_resize
    M[S + "clear"] = m_string_clear
    M[S + "substr"] = m_string_substr
    M[S + "find_first_not_of"] = m_find_first_not_of
    M[S + "find_first_of"] = m_find_first_not_of
    M[S + "find"] = m_string_find
    M[S + "capacity"] = m_capacity
    M[S + "reserve"] = nop
    M[S + "shrink_to_fit"] = nop
    M["std::operator=="] = m_streq
    M["std::operator!="] = m_strne
    M["std::operator+"] = m_string_plus
    M["std::to_chars"] = m_to_chars
    M["std::from_chars"] = m_from_chars
    ex.remodels.append((re.compile(r"^std::allocator::~?allocator$|^std::__new_allocator::~?__new_allocator$"), nop))


def sym_string(ex, st, name, size=None):
    """a std::string with arbitrary content and length; returns (Ptr, base node, size term)"""
    o = ex.new_obj(st, name, 32, "stack", content=CellC())
    if size is None:
        size = ex.fresh(st, 64, name + ".size")
        st.assume(zi(size) < (1 << 62))
    b = Base(name + ".data", 8)
    str_new(ex, st, Ptr(o, 0), size, b, name + ".data")
    return Ptr(o, 0), b, size
