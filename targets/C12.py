"""C12: the NTLM hash is MD4 (RFC 1320) of the UTF-16LE password."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out, LoopSpec
from irv.mem import *
from irv import val
from irv.val import *
from irv.irparse import IntT, PTR
from irv.models import norm, range_ok, str_parts, sym_string, str_new, view_node
from .dbm import local

UNITS = {"md4": ("/verif/harness/md4.c", [], "c"), "ntlm": ("/repo/src/ntlm.cpp", [], "c++")}
TRUSTED = ["std::wstring_convert<std::codecvt_utf8_utf16<char16_t>>: from_bytes gives the UTF-16 code units of its argument or throws"]
ASSUMPTIONS = ["the reference is RFC 1320: round functions, order of words, shift amounts, padding and length field as printed there"]

# ---------------------------------------------------------------- RFC 1320
RF = lambda x, y, z: (x & y) | (~x & z)
RG = lambda x, y, z: (x & y) | (x & z) | (y & z)
RH = lambda x, y, z: x ^ y ^ z
ROUNDS = [(RF, 0, list(range(16)), (3, 7, 11, 19)),
          (RG, 0x5A827999, [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15], (3, 5, 9, 13)),
          (RH, 0x6ED9EBA1, [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15], (3, 9, 11, 15))]
IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476)


def rfc_block(s, w):
    a, b, c, d = s
    for f, k, order, sh in ROUNDS:
        for i, j in enumerate(order):
            t = z3.RotateLeft(a + f(b, c, d) + w[j] + z3.BitVecVal(k, 32), sh[i % 4])
            a, b, c, d = d, t, b, c
    return [s[0] + a, s[1] + b, s[2] + c, s[3] + d]


def acc(ctx, ex, st, p, name, *a):
    return ex.run_fn(*ctx.find(ex, rf"^{name}\b"), ([p] if p is not None else []) + list(a), st).val


def body(ctx, alias):
    """one call of the block function: the state after n blocks is the RFC's, for every n"""
    ex = ctx.executor(f"MD4 body{' on its own buffer' if alias else ''}")
    ex.int_loads = val.HOIST = True
    ex.canon = True
    st = State()
    size = acc(ctx, ex, st, None, "acc_sizeof")
    cx = Ptr(ex.new_obj(st, "ctx", size, content=CellC()), 0)
    words = [acc(ctx, ex, st, cx, "acc_word", i) for i in range(4)]
    s0 = [z3.BitVec(f"s{i}", 32) for i in range(4)]
    keep = [z3.BitVec(f"keep{i}", 32) for i in range(2)]
    for p, v in zip(words, s0):
        ex.store(st, p, v, IntT(32))
    for nm, v in zip(("acc_lo", "acc_hi"), keep):
        ex.store(st, acc(ctx, ex, st, cx, nm), v, IntT(32))
    if alias:
        n, data = z3.IntVal(1), acc(ctx, ex, st, cx, "acc_buffer")
        bs = [z3.BitVec(f"b{i}", 8) for i in range(64)]
        for i, b in enumerate(bs):
            ex.store(st, ex.padd(data, i), b, IntT(8))
        byte = lambda i: bs[const_of(i)]
    else:
        n = z3.Int("blocks")
        st.assume(z3.And(n >= 1, n < 1 << 55))
        M = Base("data", 8)
        lo = z3.Int("at")
        st.assume(lo >= 0)
        o = ex.new_obj(st, "data", lo + 64 * n, content=ArrC(1, M))
        data = Ptr(o, lo)
        byte = lambda i: M.read(i_add(lo, i), ex)
    word = lambda k, j: z3.Concat(*[byte(i_add(i_scale(k, 64), 4 * j + b)) for b in (3, 2, 1, 0)])
    H = [z3.Function(fresh_name(f"H{i}"), z3.IntSort(), z3.BitVecSort(32)) for i in range(4)]
    hs = lambda k: s0 if const_of(k) == 0 else [h(zi(k)) for h in H]
    box = {}

    def inv(ex_, st_, c):
        loc = [local(st_, x) for x in ("a", "b", "c", "d")]
        if None in loc:
            raise Unsupported("locals of body")
        if c.at_entry or c.k is None:
            ref, rng = hs(0) if c.at_entry else None, True
        elif c.k.eq(box.get("k", z3.IntVal(-1)) + 1):
            k = box["k"]
            ref = rfc_block(hs(k), [word(0 if alias else k, j) for j in range(16)])
            rng = c.k < n
        else:
            box["k"] = c.k
            ref, rng = hs(c.k), c.k < n
        fs = [("block counter", rng)]
        if c.k is not None:
            fs.append(("bytes left", zi(ex_.load(st_, local(st_, "size"), IntT(64))) == 64 * (n - c.k)))
        if ref is not None:
            fs += [(f"state word {i}", to_bv(ex_.load(st_, loc[i], IntT(32)), 32) == ref[i]) for i in range(4)]
        return fs
    ex.loop_specs.append(LoopSpec(r"^body\b", inv=inv, idx=0))
    m, f = ctx.find(ex, r"^body$")
    out = ex.run_fn(m, f, [cx, data, n * 64 if not alias else 64], st)
    s, k = out.st, box["k"]
    ex.oblige(s, "exactly the given blocks are processed", k + 1 == n)
    ref = rfc_block(hs(k), [word(0 if alias else k, j) for j in range(16)])
    for i in range(4):
        ex.oblige(s, f"state word {i} after the last block", to_bv(ex.load(s, words[i], IntT(32)), 32) == ref[i])
    for nm, v in zip(("acc_lo", "acc_hi"), keep):
        ex.oblige(s, "the counters stay", to_bv(ex.load(s, acc(ctx, ex, s, cx, nm), IntT(32)), 32) == v)
    ex.oblige(s, "returns the end of the data", b_and(out.val.obj is data.obj, i_eq(out.val.off, i_add(data.off, i_scale(n, 64)))))
    ctx.cover(ex, s, "end")



class Len:
    def __init__(self, h, b, r):
        self.h, self.b, self.r = h, b, r
        self.blocks = h * (1 << 23) + b
        self.all = h * (1 << 29) + b * 64 + r
        self.lo = z3.Int2BV(b * 64 + r, 32)
        self.hi = z3.Int2BV(h, 32)


class Stream:
    """a context that has absorbed the first L bytes of the byte stream P; HB(k, i) is byte i of the state after k blocks"""

    def __init__(self, ctx, ex, st, P):
        self.ctx, self.ex, self.P = ctx, ex, P
        self.HB = z3.Function(fresh_name("HB"), z3.IntSort(), z3.IntSort(), z3.BitVecSort(8))
        self.size = acc(ctx, ex, st, None, "acc_sizeof")
        s2 = State()
        q = Ptr(ex.new_obj(s2, "probe", self.size, content=CellC()), 0)
        self.off = {"lo": acc(ctx, ex, s2, q, "acc_lo").off, "hi": acc(ctx, ex, s2, q, "acc_hi").off,
                    "buf": acc(ctx, ex, s2, q, "acc_buffer").off}
        ws = [acc(ctx, ex, s2, q, "acc_word", i).off for i in range(4)]
        if ws != list(range(ws[0], ws[0] + 16, 4)):
            raise Unsupported("state words are not adjacent")
        self.off["st"] = ws[0]
        ex.contracts.append((re.compile(r"^body$"), self.body))
        self.J = z3.Int("J")

    def state_node(self, k):
        b = self.off["st"]
        return FnNode(lambda i: self.HB(zi(k), zi(i_sub(i, b))), 8)

    def dec(self, st, name, L=None):
        """a length as 2^29*h + 64*b + r"""
        h, b, r = z3.Ints(f"{name}.h {name}.b {name}.r")
        st.assume(z3.And(h >= 0, h < 1 << 32, b >= 0, b < 1 << 23, r >= 0, r < 64))
        if L is not None:
            st.assume((h * (1 << 29) + b * 64) + r == L)
        return Len(h, b, r)

    def absorbed(self, st, L, name="ctx"):
        """a context object satisfying the invariant for L"""
        o = self.off
        word = lambda v, b: FnNode(lambda i: byte_of(v, i_sub(i, b)), 8)
        n = Base("ctxrest", 8)
        n = CopyN(n, o["buf"], L.r, self.P, 64 * L.blocks)
        n = CopyN(n, o["st"], 16, self.state_node(L.blocks), o["st"])
        n = CopyN(n, o["lo"], 4, word(L.lo, o["lo"]), o["lo"])
        n = CopyN(n, o["hi"], 4, word(L.hi, o["hi"]), o["hi"])
        st.ghost["k"] = L.blocks
        return Ptr(self.ex.new_obj(st, name, self.size, content=ArrC(1, n)), 0)

    def check(self, st, cx, L, what):
        """the invariant for L holds"""
        ex, o = self.ex, self.off
        rd = lambda i: to_bv(ex.load(st, ex.padd(cx, i), IntT(8)), 8)
        ex.oblige(st, f"{what}: number of blocks absorbed", st.ghost["k"] == L.blocks)
        for i in range(16):
            ex.oblige(st, f"{what}: state byte {i}", rd(o["st"] + i) == self.HB(zi(st.ghost["k"]), z3.IntVal(i)))
        for nm, v in (("lo", L.b * 64 + L.r), ("hi", L.h)):
            raw = to_bv(bv_concat([(rd(o[nm] + i), 8) for i in (3, 2, 1, 0)]), 32)
            for s, t in ex.cases(st, raw):
                ex.oblige(s, f"{what}: {nm}", to_zi(t, 32) == v)
        J = self.J
        s = st.fork()
        s.assume(z3.And(J >= 0, J < L.r))
        for s2, t in ex.cases(s, to_bv(ex.load(s, ex.padd(cx, o["buf"] + J), IntT(8)), 8)):
            ex.oblige(s2, f"{what}: buffered bytes", t == to_bv(self.P.read(64 * L.blocks + J, ex), 8))

    def body(self, ex, st, args, dem):
        """contract of the block function (proved by the target `MD4 body`)"""
        cx, data, n = args[0], args[1], norm(args[2])
        o, k = self.off, st.ghost["k"]
        ex.oblige(st, "body: at least one whole block", z3.And(zi(n) >= 64, zi(n) % 64 == 0))
        range_ok(ex, st, data, n)
        for i in range(16):
            ex.oblige(st, f"body: state byte {i} of the stream", to_bv(ex.load(st, ex.padd(cx, o["st"] + i), IntT(8)), 8) == self.HB(zi(k), z3.IntVal(i)))
        if not ex.suppress:
            J = self.J
            s = st.fork()
            s.assume(z3.And(J >= 0, J < n))
            ex.oblige(s, "body: the data are the next blocks of the stream",
                      to_bv(ex.load(s, ex.padd(data, J), IntT(8)), 8) == to_bv(self.P.read(i_add(i_scale(k, 64), J), ex), 8))
        nk = i_add(k, zi(n) / 64)
        c = ex.content(st, cx.obj)
        st.mem[cx.obj.id] = ArrC(1, CopyN(c.node, i_add(cx.off, o["st"]), 16, self.state_node(nk), o["st"]))
        st.ghost["k"] = nk
        return ex.padd(data, n)


def byte_of(v, i):
    i = const_of(i) if const_of(i) is not None else i
    if is_c(i):
        return z3.Extract(8 * i + 7, 8 * i, v)
    r = z3.Extract(7, 0, v)
    for j in range(1, v.size() // 8):
        r = z3.If(i == j, z3.Extract(8 * j + 7, 8 * j, v), r)
    return r


def update(ctx):
    ex = ctx.executor("MD4_Update", int_widths=(32, 64))
    ex.int_loads = val.HOIST = True
    st = State()
    P = Base("P", 8)
    t = Stream(ctx, ex, st, P)
    n, lo = z3.Ints("n at")
    st.assume(z3.And(n >= 0, lo >= 0))
    L = t.dec(st, "L")
    L2 = t.dec(st, "L2", L.all + n)
    # lemmas about the carry between the two counters
    W = 1 << 29
    nh, nl, low = z3.Int("n.h"), z3.Int("n.l"), L.b * 64 + L.r
    st.assume(z3.And(n == nh * W + nl, nl >= 0, nl < W))
    ex.oblige(st, "lemma: high part of the size", n / W == nh)
    carry = low + nl >= W
    ex.oblige(st, "lemma: low counter", (low + n) % W == z3.If(carry, low + nl - W, low + nl))
    ex.oblige(st, "lemma: high counter", L2.h == L.h + nh + z3.If(carry, 1, 0))
    cx = t.absorbed(st, L)
    data = Ptr(ex.new_obj(st, "data", lo + n, content=ArrC(1, FnNode(lambda i: P.read(i_add(L.all, i_sub(i, lo)), ex), 8))), lo)
    m, f = ctx.find(ex, r"^MD4_Update$")
    out = ex.run_fn(m, f, [cx, data, n], st)
    t.check(out.st, cx, L2, "after")
    ctx.cover(ex, out.st, "end")



def padded(ex, L, M):
    """the stream MD4 hashes: message, 0x80, zeros, length in bits (low word first), a whole number of blocks"""
    T = (L.blocks + z3.If(L.r >= 56, 2, 1)) * 64
    low = L.lo << 3            # 8 * length = 2^32 * L.h + 8 * (64 * L.b + L.r), and the latter is below 2^32
    lenb = lambda j: z3.If(j < 4, byte_of(low, j), byte_of(L.hi, i_sub(j, 4)))

    def at(i):
        i = zi(i)
        return z3.If(i < L.all, to_bv(M.read(i, ex), 8),
                     z3.If(i == L.all, z3.BitVecVal(0x80, 8), z3.If(i < T - 8, z3.BitVecVal(0, 8), lenb(i - (T - 8)))))
    return FnNode(at, 8), T


def final(ctx):
    ex = ctx.executor("MD4_Final")
    ex.int_loads = val.HOIST = True
    st = State()
    t = Stream(ctx, ex, st, None)
    L = t.dec(st, "L")
    t.P, T = padded(ex, L, Base("M", 8))
    ex.oblige(st, "lemma: length in bits", 8 * L.all == (1 << 32) * L.h + 8 * (64 * L.b + L.r))
    ex.oblige(st, "lemma: the low word does not overflow", 8 * (64 * L.b + L.r) < 1 << 32)
    cx = t.absorbed(st, L)
    res = Ptr(ex.new_obj(st, "result", 16, content=CellC()), 0)
    m, f = ctx.find(ex, r"^MD4_Final$")
    out = ex.run_fn(m, f, [res, cx], st)
    s = out.st
    for i in range(16):
        ex.oblige(s, f"result byte {i}", to_bv(ex.load(s, ex.padd(res, i), IntT(8)), 8) == t.HB(T / 64, z3.IntVal(i)))
    ctx.cover(ex, s, "end")



def init(ctx):
    ex = ctx.executor("MD4_Init")
    ex.int_loads = val.HOIST = True
    st = State()
    t = Stream(ctx, ex, st, None)
    cx = Ptr(ex.new_obj(st, "ctx", t.size, content=CellC()), 0)
    out = ex.run_fn(*ctx.find(ex, r"^MD4_Init$"), [cx], st)
    rd = lambda o: to_bv(ex.load(out.st, ex.padd(cx, o), IntT(32)), 32)
    for i, v in enumerate(IV):
        ex.oblige(out.st, f"initial state word {i}", rd(t.off["st"] + 4 * i) == v)
    ex.oblige(out.st, "nothing absorbed", z3.And(rd(t.off["lo"]) == 0, rd(t.off["hi"]) == 0))
    ctx.cover(ex, out.st, "end")


# ---------------------------------------------------------------- src/ntlm.cpp


def le_bytes(U):
    """byte i of the little-endian form of the code units U"""
    return lambda i, ex: z3.If(zi(i) % 2 == 0, z3.Extract(7, 0, U.read(zi(i) / 2, ex)), z3.Extract(15, 8, U.read(zi(i) / 2, ex)))


class Convert:
    """assumed contract of std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t>"""

    def __init__(self, ctx, ex, st, src):
        self.U, self.n, self.src = Base("U", 16), ex.fresh(st, 64, "units"), src
        st.assume(self.n < 1 << 58)
        self.calls = 0
        ex.contracts += [(re.compile(r"^std::(__cxx11::)?wstring_convert<std::codecvt_utf8_utf16<char16_t.*::(~)?wstring_convert\("), lambda ex, st, a, d: None),
                         (re.compile(r"^std::(__cxx11::)?wstring_convert<std::codecvt_utf8_utf16<char16_t.*::from_bytes\("), self.from_bytes)]

    def from_bytes(self, ex, st, args, dem):
        self.calls += 1
        ret, this, s = args[:3]
        if "basic_string" not in dem.split("from_bytes(")[1] and "std::string" not in dem.split("from_bytes(")[1]:
            return NotImplemented
        d, n = str_parts(ex, st, s)
        d0, n0 = str_parts(ex, st, self.src)
        ex.oblige(st, "the password itself is converted", b_and(d.obj is d0.obj, b_and(i_eq(d.off, d0.off), i_eq(n, n0))))
        bad = st.fork()
        bad.exc = ("_ZTISt11range_error", NULL)
        o = ex.new_obj(st, "u16data", i_scale(self.n, 2), "strdata", content=ArrC(2, self.U))
        ex.store(st, ret, Ptr(o, 0), PTR)
        ex.store(st, ex.padd(ret, 8), self.n, IntT(64))
        return Out(st, None, [bad])


def to_utf16(ctx):
    ex = ctx.executor("utf8_to_utf16_le")
    ex.int_loads = val.HOIST = True
    st = State()
    src = sym_string(ex, st, "password")[0]
    cv = Convert(ctx, ex, st, src)
    LE = le_bytes(cv.U)
    ret = Ptr(ex.new_obj(st, "ret", 32, content=CellC()), 0)
    J = z3.Int("J")
    box = {}

    def inv(ex_, s, c):
        if c.k is None:
            return []
        d, n = str_parts(ex_, s, ret)
        if c.at_entry:
            return [("nothing written yet", i_eq(n, 0))]
        fs = [("two bytes for every unit so far", zi(n) == 2 * c.k)]
        if "k" in box and c.k.eq(box["k"] + 1):
            v = to_bv(view_node(ex_, s, d, n).read(J, ex_), 8)
            fs.append(("low byte, high byte of every unit so far", z3.Implies(z3.And(J >= 0, J < zi(n)), v == LE(J, ex_))))
        else:
            box["k"] = c.k
        return fs

    def havoc(ex_, s, c, oid, a):
        if a.stride == 1:
            return ArrC(1, FnNode(lambda i: LE(i, ex_), 8))
    ex.loop_specs.append(LoopSpec(r"utf8_to_utf16_le", inv=inv, havoc=havoc, idx=0))
    out = ex.run_fn(*ctx.find(ex, r"^hibp::utf8_to_utf16_le\("), [ret, src], st)
    s = out.st
    d, n = str_parts(ex, s, ret)
    ex.oblige(s, "two bytes for every code unit", i_eq(n, i_scale(cv.n, 2)))
    s.assume(z3.And(J >= 0, J < 2 * cv.n))
    ex.oblige(s, "low byte, high byte of every code unit", to_bv(view_node(ex, s, d, n).read(J, ex), 8) == LE(J, ex))
    for x in out.excs:
        ex.oblige(x, "throws only when the text is not UTF-8", x.exc[0] == "_ZTISt11range_error")
    if not cv.calls:
        raise Unsupported("the conversion does not use wstring_convert any more")
    ctx.cover(ex, s, "end")


def ntlm(ctx):
    """ntlm(pw) = MD4 over exactly the bytes of utf8_to_utf16_le(pw), in one stream"""
    ex = ctx.executor("ntlm")
    ex.int_loads = val.HOIST = True
    st = State()
    src = sym_string(ex, st, "password")[0]
    M, n = Base("M", 8), ex.fresh(st, 64, "len")
    st.assume(n < 1 << 60)
    R = z3.Function("MD4", z3.IntSort(), z3.BitVecSort(8))
    J = z3.Int("J")
    st.ghost["L"] = -1

    def conv(ex, st, a, dem):
        d, m = str_parts(ex, st, a[1])
        d0, m0 = str_parts(ex, st, src)
        ex.oblige(st, "the password itself is converted", b_and(d.obj is d0.obj, b_and(i_eq(d.off, d0.off), i_eq(m, m0))))
        bad = st.fork()
        bad.exc = ("_ZTISt11range_error", NULL)
        str_new(ex, st, a[0], n, M)
        return Out(st, None, [bad])

    def m_init(ex, st, a, dem):
        st.ghost["L"], st.ghost["ctx"] = 0, a[0].obj.id
        return None

    def m_update(ex, st, a, dem):
        L, k = st.ghost["L"], norm(a[2])
        ex.oblige(st, "update of an initialised context", b_and(i_le(0, L), st.ghost.get("ctx") == a[0].obj.id))
        range_ok(ex, st, a[1], k)
        s = st.fork()
        s.assume(z3.And(J >= 0, J < k))
        ex.oblige(s, "the bytes hashed are those of the password", to_bv(ex.load(s, ex.padd(a[1], J), IntT(8)), 8) == M.read(i_add(L, J), ex))
        st.ghost["L"] = i_add(L, k)
        return None

    def m_final(ex, st, a, dem):
        ex.oblige(st, "final of an initialised context", b_and(i_le(0, st.ghost["L"]), st.ghost.get("ctx") == a[1].obj.id))
        ex.oblige(st, "the whole password is hashed", i_eq(st.ghost["L"], n))
        for i in range(16):
            ex.store(st, ex.padd(a[0], i), R(z3.IntVal(i)), IntT(8))
        st.ghost["L"] = -1
        return None
    ex.contracts += [(re.compile(r"^hibp::utf8_to_utf16_le\("), conv), (re.compile("^MD4_Init$"), m_init),
                     (re.compile("^MD4_Update$"), m_update), (re.compile("^MD4_Final$"), m_final)]
    out = ex.run_fn(*ctx.find(ex, r"^hibp::ntlm\("), [src], st)
    v = out.val
    bits = to_bv(bv_concat([(to_bv(x, 64), 64) for x in reversed(v.f)]), 128)
    for i in range(16):
        ex.oblige(out.st, f"byte {i} of the hash", z3.Extract(8 * i + 7, 8 * i, bits) == R(z3.IntVal(i)))
    ctx.cover(ex, out.st, "end")


TARGETS = [Target("MD4 body", ["md4"], body, alias=False), Target("MD4 body on the context's buffer", ["md4"], body, alias=True),
           Target("MD4_Init", ["md4"], init), Target("MD4_Update", ["md4"], update), Target("MD4_Final", ["md4"], final),
           Target("utf8_to_utf16_le", ["ntlm"], to_utf16), Target("ntlm", ["ntlm"], ntlm)]
