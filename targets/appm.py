"""Contracts shared by the proofs of the application main loops: text formatting, output streams, opening a database,
expected output sequences."""
import re
import z3
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv import models as M
from irv.models import norm, nop, Boxed, view_node, str_new, str_parts
from . import dbm

ASSUMED_IO = ["fmt::vformat substitutes the arguments it is given; operator<< appends the text to the stream"]


# ---------------------------------------------------------------- texts with a known origin
def tag(st, o, val):
    """the text in data object o was made from val"""
    o.meta = (st.mem[o.id].node, val)
    b = text_node(st.mem[o.id].node)
    TAGS[id(b)] = (b, i_sub(st.osize.get(o.id, o.size), 1), val)


def origin(ex, st, d):
    """what the text at data pointer d was made from (None: unknown)"""
    if not isinstance(d, Ptr) or d.obj is None or d.obj.meta is None:
        return None
    c = st.mem.get(d.obj.id)
    if not isinstance(c, ArrC) or not (is_c(d.off) and d.off == 0):
        return None
    node = c.node
    while isinstance(node, IteN) and node is not d.obj.meta[0]:
        if ex.solver.valid(st.pc, zb(node.c), 3.0):
            node = node.a
        elif ex.solver.valid(st.pc, zb(b_not(node.c)), 3.0):
            node = node.b
        else:
            return None
    if d.obj.meta[0] is not node:
        return None
    return d.obj.meta[1]


TAGS = {}


def text_node(n):
    while isinstance(n, StoreN):        # the terminating zero
        n = n.prev
    return n


def str_origin(ex, st, p):
    return text_origin(ex, st, *str_parts(ex, st, p))


def text_origin(ex, st, d, n):
    v = origin(ex, st, d)
    if v is not None or not isinstance(d, Ptr) or d.obj is None or not (is_c(d.off) and d.off == 0):
        return v
    # a copy: the same content with the same length
    c = st.mem.get(d.obj.id)
    if not isinstance(c, ArrC):
        return None
    node, ok = c.node, []
    while isinstance(node, StoreN):
        ok.append(zi(node.i) >= zi(n))
        node = node.prev
    t = TAGS.get(id(node))
    if t is None or t[0] is not node:
        return None
    ok.append(zi(t[1]) == zi(n))
    if all(z3.is_true(z3.simplify(x)) or ex.solver.valid(st.pc, x, 3.0) for x in ok):
        return t[2]
    return None


def opaque_str(ex, st, ret, val, name="text"):
    n = ex.fresh(st, 64, name + ".len")
    st.assume(n < 1 << 40)
    o = str_new(ex, st, ret, n, Base(fresh_name(name), 8), name)
    tag(st, o, val)
    return o


def literal(ex, st, p, n):
    n = const_of(n) if not is_c(n) else n
    if n is None or not isinstance(p, Ptr):
        return None
    out = bytearray()
    for i in range(n):
        b = ex.load(st, ex.padd(p, i), IntT(8))
        c = const_of(b)
        if c is None:
            return None
        out.append(c & 255)
    return out.decode("latin1")


class Fmt:
    """the result of fmt::format: literal format text and argument values"""

    def __init__(self, text, args):
        self.text, self.args = text, args


TYPES = {1: 4, 2: 4, 3: 8, 4: 8, 7: 1, 8: 1}


def vformat(ex, st, args, dem):
    ret, fp, fn, desc, vals = args
    text = literal(ex, st, fp, norm(fn))
    d = const_of(desc) if not is_c(desc) else desc
    if text is None or d is None or d >> 60:
        raise Unsupported("format text or argument types not literal")
    out, i = [], 0
    while d >> (4 * i) & 15:
        t = d >> (4 * i) & 15
        slot = ex.padd(vals, 16 * i)
        if t in TYPES:
            out.append((t, ex.load(st, slot, IntT(8 * TYPES[t]))))
        elif t == 13 or t == 12:
            dp = ex.load(st, slot, PTR)
            out.append((t, text_origin(ex, st, dp, norm(ex.load(st, ex.padd(slot, 8), IntT(64)))) if t == 13 and isinstance(dp, Ptr) else origin(ex, st, dp) if isinstance(dp, Ptr) else None))
        else:
            out.append((t, None))
        i += 1
    opaque_str(ex, st, ret, Fmt(text, out), "fmt")
    return None


def to_string(rec):
    def h(ex, st, args, dem):
        v = to_bv(ex.load(st, args[1], IntT(8 * rec)), 8 * rec)
        opaque_str(ex, st, args[0], ("rec", v), "record text")
        return None
    return h


class Texts:
    """everything written to text streams; handler(ex, st, stream pointer, value)"""

    def __init__(self, ex, on_text):
        self.on = on_text
        ex.contracts += [
            (re.compile(r"^fmt::v\d+::vformat\[?"), vformat),
            (re.compile(r"^std::(ostream|basic_ostream<char[^&]*)& std::operator<< ?<(char, )?std::char_traits<char>, std::allocator<char> ?>\("), self.put_str),
            (re.compile(r"^std::(ostream|basic_ostream<char[^&]*)& std::operator<< ?<std::char_traits<char> ?>\((std::ostream|std::basic_ostream<[^&]*)&, char const\*\)"), self.put_cstr),
            (re.compile(r"^std::(ostream|basic_ostream<char[^&]*)& std::operator<< ?<std::char_traits<char> ?>\((std::ostream|std::basic_ostream<[^&]*)&, char\)"), self.put_char),
        ]
        for n in (20, 16, 8):
            ex.contracts += [(re.compile(rf"^hibp::pawned_pw<{n}u>::to_string"), to_string(n + 4)),
                             (re.compile(rf"^hibp::operator<<\(std::ostream&, hibp::pawned_pw<{n}u> const&\)"), self.put_rec(n + 4))]

    def put_str(self, ex, st, args, dem):
        self.on(ex, st, args[0], str_origin(ex, st, args[1]))
        return args[0]

    def put_cstr(self, ex, st, args, dem):
        p = args[1]
        s = None
        if isinstance(p, Ptr) and p.obj is not None and is_c(p.obj.size):
            s = literal(ex, st, p, p.obj.size - p.off)
            s = s.split("\0")[0] if s is not None else None
        self.on(ex, st, args[0], s)
        return args[0]

    def put_char(self, ex, st, args, dem):
        c = const_of(args[1])
        self.on(ex, st, args[0], chr(c & 255) if c is not None else None)
        return args[0]

    def put_rec(self, rec):
        def h(ex, st, args, dem):
            v = to_bv(ex.load(st, args[1], IntT(8 * rec)), 8 * rec)
            self.on(ex, st, args[0], ("rec", v))
            return args[0]
        return h


# ---------------------------------------------------------------- opening files
def same_text(ex, st, p, q):
    """the strings at p and q are the same text (same length and same content node)"""
    a, n = str_parts(ex, st, p)
    b, m = q
    x, y = view_node(ex, st, a, n), b
    return zb(i_eq(n, m)), x is y or node_id(x) == node_id(y)


def node_id(n):
    while isinstance(n, StoreN):
        n = n.base if hasattr(n, "base") else n
        break
    return id(n)


class Opens:
    """database(path, size): the database of the named file, or an error"""

    def __init__(self, ctx, ex, dbs, again=False):
        """again: a database may be opened more than once; dbs: list of (DBM, name id or None) in any order; a path is recognised by the identity of its text"""
        self.ctx, self.ex = ctx, ex
        self.dbs = dbs
        self.opened, self.again = [], again
        ex.contracts += [(re.compile(r"^std::filesystem::__cxx11::path::path<std::"), self.path_ctor),
                         (re.compile(r"^std::filesystem::__cxx11::path::path\(std::__cxx11::basic_string<char"), self.path_ctor),
                         (re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::database\(std::filesystem"), self.open),
                         (re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::~database\("), nop)]
        ex.contracts += [(re.compile(r"^std::filesystem::__cxx11::path::path\(std::filesystem::__cxx11::path const&\)"), self.path_copy)]
        lib.install_path(ex)
        lib.install_exceptions(ex)

    def path_ctor(self, ex, st, args, dem):
        return self.path_copy(ex, st, args, dem)

    def path_copy(self, ex, st, args, dem):
        val = str_origin(ex, st, args[1])
        d, n = str_parts(ex, st, args[1])
        o = str_new(ex, st, args[0], n, view_node(ex, st, d, n))
        if val is not None:
            tag(st, o, val)
        return None

    def open(self, ex, st, args, dem):
        name = str_origin(ex, st, args[1])
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        for d, nm in self.dbs:
            if nm == name and (d.this is None or self.again) and re.search(re.escape(d.T), dem):
                d.put(st, args[0])
                ex.dbs[args[0].obj.id] = d
                self.opened.append(d)
                return Out(st, None, [bad])
        raise Unsupported(f"opens a database named by {name!r}")


def named_string(ex, st, p, val, name="name"):
    """a std::string at p whose text is known as val"""
    n = ex.fresh(st, 64, name + ".len")
    st.assume(n < 1 << 40)
    o = str_new(ex, st, p, n, Base(fresh_name(name), 8), name)
    tag(st, o, val)


# ---------------------------------------------------------------- expected output sequences
class Seq:
    """Expected sequence of emissions: over the steps 0 <= i < steps, step i contributes the value val(i) iff cond(i).

    N(i) = contributions of the steps before i (defined by recursion), E(j) = j-th contribution.  Every emission must be
    E(ghost count); the ghost count is related to N by loop invariants, and must be N(steps) at the end."""

    def __init__(self, ex, name, cond, val):
        self.ex, self.name, self.cond, self.val = ex, name, cond, val
        self.N = z3.Function(fresh_name("N_" + name), z3.IntSort(), z3.IntSort())
        self.E = z3.Function(fresh_name("E_" + name), z3.IntSort(), val(z3.IntVal(0)).sort())
        self.seen = {}
        ex.solver.axioms.append(self.N(0) == 0)
        self.g = "seq:" + name

    def start(self, st):
        st.ghost[self.g] = 0

    def inst(self, i):
        """definition of N and E at step i"""
        i = zi(i)
        if i.get_id() in self.seen:
            return
        self.seen[i.get_id()] = i
        c = zb(self.cond(i))
        self.ex.solver.axioms.append(z3.Implies(i >= 0, z3.And(
            self.N(i) >= 0, self.N(i + 1) == self.N(i) + z3.If(c, z3.IntVal(1), z3.IntVal(0)),
            z3.Implies(c, self.E(self.N(i)) == self.val(i)))))

    def at(self, i):
        i = zi(i)
        for j in (z3.simplify(i - 1), z3.simplify(i)):
            self.inst(j)
        return self.N(i)

    def count(self, st):
        return zi(st.ghost[self.g])

    def emit(self, st, v, what):
        n = self.count(st)
        self.ex.oblige(st, what, self.E(n) == v)
        st.ghost[self.g] = i_add(st.ghost[self.g], 1)

    def done(self, st, steps, what):
        self.ex.oblige(st, what, self.count(st) == self.at(steps))


def cell_cands(ex, ctx, H, mods, kinds):
    """candidate invariants: for each modified cell of n bytes, kinds[n](value, k) -> Bool"""
    out = []
    for c in mods.keys():
        if c[0] == "cell" and c[3] in kinds:
            v = mods.get(H, c)
            if v is None or not (is_num(v) or isinstance(v, (bool, z3.BoolRef))):
                continue
            for kf in kinds[c[3]]:
                def f(st, k, c=c, kf=kf):
                    x = mods.get(st, c)
                    if x is None or x is UNDEF or isinstance(x, (Ptr, PtrU)):
                        return z3.BoolVal(False)
                    r = kf(x, k)
                    return z3.BoolVal(False) if r is None else r
                out.append(f)
    return out


def seq_cands(seq, mods, H):
    """candidate relations between the number of emissions and the number of steps taken"""
    out = [lambda s, k: seq.count(s) == seq.at(k)]
    for c in mods.keys():
        if (c[0] == "cell" and c[3] in (4, 8) or c[0] == "env") and is_zi(mods.get(H, c)):
            def f(s, k, c=c):
                v = mods.get(s, c)
                if not (is_zi(v) or is_c(v)):
                    return z3.BoolVal(False)
                return seq.count(s) == seq.at(zi(v))
            out.append(f)
    return out


def flag_cands(v, k):
    """a flag that changes with the first step"""
    one, zero = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)
    return to_bv(v, 8) == z3.If(k >= 1, one, zero)


def nflag_cands(v, k):
    one, zero = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)
    return to_bv(v, 8) == z3.If(k >= 1, zero, one)


# ---------------------------------------------------------------- record writers (contract proved in C05)
class Writers:
    """stream_writer at contract level: construction ties it to a stream, write() appends one record, flush() pushes out,
    destruction pushes out what is left; every one may report a failing stream (FAILURE)."""

    def __init__(self, ex, on_record, on_open=None):
        self.on, self.on_open = on_record, on_open
        C = r"^flat_file::stream_writer<hibp::pawned_pw<(\d+)u> ?>::"
        ex.contracts += [(re.compile(C + r"stream_writer\(std::(ostream|basic_ostream<[^&]*)&, unsigned long\)"), self.ctor),
                         (re.compile(C + r"stream_writer\(flat_file::stream_writer<hibp::pawned_pw<\d+u> ?>&&\)"), self.move),
                         (re.compile(C + r"write\("), self.write),
                         (re.compile(C + r"flush\("), self.flush),
                         (re.compile(C + r"~stream_writer\("), nop)]

    def key(self, p):
        if not isinstance(p, Ptr) or p.obj is None or not is_c(p.off):
            raise Unsupported("writer at an unknown place")
        return f"writer:{p.obj.id}:{p.off}"

    def ctor(self, ex, st, args, dem):
        bad = lib.fork_throw(ex, st, lib.FAILURE)
        bad.ghost["io"] = 1
        st.ghost[self.key(args[0])] = self.on_open(ex, st, args[1]) if self.on_open else "open"
        return Out(st, None, [bad])

    def move(self, ex, st, args, dem):
        st.ghost[self.key(args[0])] = st.ghost[self.key(args[1])]
        return None

    def write(self, ex, st, args, dem):
        n = int(re.search(r"pawned_pw<(\d+)u", dem).group(1))
        if self.key(args[0]) not in st.ghost:
            raise Unsupported("write to an unknown writer")
        v = to_bv(ex.load(st, args[1], IntT(8 * (n + 4))), 8 * (n + 4))
        bad = lib.fork_throw(ex, st, lib.FAILURE)
        bad.ghost["io"] = 1
        self.on(ex, st, st.ghost[self.key(args[0])], v)
        st.ghost["pushed"] = 0
        return Out(st, None, [bad])

    def flush(self, ex, st, args, dem):
        bad = lib.fork_throw(ex, st, lib.FAILURE)
        bad.ghost["io"] = 1
        st.ghost["pushed"] = 1
        return Out(st, None, [bad])


def global_named(p, name):
    return isinstance(p, Ptr) and p.obj is not None and p.obj.name.lstrip("@") == name


def comparator_functions(ctx, ex, n, hint):
    """the functions that the comparator adapters of the standard library call, for records of hash size n"""
    out = []
    for m in ex.modules:
        for k, d in m.demangled.items():
            if not m.has_fn(k) or not d.startswith("bool __gnu_cxx::__ops::_") or "::operator()" not in d \
                    or f"pawned_pw<{n}u>" not in d or hint not in d:
                continue
            for c in re.findall(r"call [^@\n]*i1 @(\"[^\"]*\"|[\w.$]+)\(", m.fn_text(k)):
                c = c.strip('"')
                if not any(c == x[1] for x in out):
                    out.append((m, c))
    return out


# ---------------------------------------------------------------- file and standard streams
VBASE = 256          # where basic_ios sits in our stream objects (libstdc++ looks the offset up in the vtable)
STD = {"_ZSt3cin": "stdin", "_ZSt4cout": "stdout", "_ZSt4cerr": "stderr", "_ZSt4clog": "stderr"}


class Streams:
    """std::ifstream / std::ofstream / std::cin / std::cout as objects that are tied to a named file or standard stream.

    Ghost state per stream object: what it is tied to (a Python name; "closed" before it is opened) and whether it has
    failed (an Int).  ghost io = 1 once an operation on a file or stream has failed; ghost exists(name) is a fixed fact."""

    def __init__(self, ex, st, on_create=None, getline=None):
        self.ex, self.on_create, self.on_getline = ex, on_create, getline
        self.existing = {}
        self.names = {}
        self.nfail = 0
        for g, nm in STD.items():
            if any(m.glob(g) is not None for m in ex.modules):
                o = ex.gobj(st, g)
                self.setup(st, Ptr(o, 0), nm)
                st.ghost[f"bad:{o.id}"] = 0
        F = r"^std::(basic_)?%s(<char, std::char_traits<char> ?>)?::"
        I, O = F % "ifstream", F % "ofstream"
        IOS = r"^std::(basic_ios<char, std::char_traits<char> ?>|ios)::"
        C = [(I + r"basic_ifstream\(\)", self.ctor0), (O + r"basic_ofstream\(\)", self.ctor0),
             (I + r"basic_ifstream\(std::__cxx11::basic_string<.*> const&, std::_Ios_Openmode\)", self.open_in),
             (O + r"basic_ofstream\(std::__cxx11::basic_string<.*> const&, std::_Ios_Openmode\)", self.open_out),
             (I + r"basic_ifstream<std::filesystem::__cxx11::path", self.open_in),
             (O + r"basic_ofstream<std::filesystem::__cxx11::path", self.open_out),
             (F % "[io]fstream" + r"(operator=|basic_[io]fstream)\(std::basic_[io]fstream<.*&&\)", self.move),
             (F % "[io]fstream" + r"~basic_[io]fstream\(\)", nop),
             (IOS + r"operator!\(\) const", lambda e, s, a, d: self.bad(s, a[0])),
             (IOS + r"fail\(\) const", lambda e, s, a, d: self.bad(s, a[0])),
             (IOS + r"operator bool\(\) const", lambda e, s, a, d: b_not(self.bad(s, a[0]))),
             (IOS + r"exceptions\(std::_Ios_Iostate\)", self.exceptions),
             (IOS + r"good\(\) const", lambda e, s, a, d: b_not(self.bad(s, a[0]))),
             (r"^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::flush\(\)", self.flush),
             (r"^std::filesystem::exists\(std::filesystem::__cxx11::path const&\)", self.exists),
             (r"^std::(istream|basic_istream<char[^&]*)& std::getline<char, std::char_traits<char>, std::allocator<char> ?>\("
              r"std::(istream|basic_istream<char[^&]*)&, std::__cxx11::basic_string<[^&]*&\)", self.getline)]
        ex.contracts += [(re.compile(r), h) for r, h in C]
        lib.install_errno(ex)
        st.ghost.setdefault("io", 0)

    def setup(self, st, p, name):
        vt = self.ex.new_obj(st, "vtable", 64, content=CellC({0: (8, VBASE)}))
        self.ex.store(st, p, Ptr(vt, 24), PTR)
        st.ghost[f"stream:{p.obj.id}"] = name
        st.ghost[f"thr:{p.obj.id}"] = 0

    def key(self, p):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported("stream at an unknown place")
        return p.obj.id

    def name(self, st, p):
        """what the stream at p is tied to"""
        n = st.ghost.get(f"stream:{self.key(p)}")
        if n is None or n == "mixed":
            raise Unsupported("unknown stream")
        return n

    def bad(self, st, p):
        b = st.ghost.get(f"bad:{self.key(p)}")
        if b is None:
            raise Unsupported("state of an unknown stream")
        return b == 1 if is_c(b) else zi(b) == 1

    def failed(self, st, what):
        """a fresh 0/1 outcome of an operation on a file; a failure counts as an I/O failure"""
        e = self.ex.fresh(st, 64, what)
        st.assume(e <= 1)
        st.ghost["io"] = z3.If(e == 1, z3.IntVal(1), zi(st.ghost["io"]))
        return e

    def ctor0(self, ex, st, args, dem):
        self.setup(st, args[0], "closed")
        st.ghost[f"bad:{args[0].obj.id}"] = 0
        return None

    def open_in(self, ex, st, args, dem):
        nm = str_origin(ex, st, args[1])
        self.setup(st, args[0], nm if nm is not None else "unknown")
        st.ghost[f"bad:{args[0].obj.id}"] = self.failed(st, "open.fail")
        return None

    def open_out(self, ex, st, args, dem):
        nm = str_origin(ex, st, args[1])
        if self.on_create:
            self.on_create(ex, st, nm, 16 if len(args) < 3 else args[2] if const_of(args[2]) is None else const_of(args[2]))
        self.setup(st, args[0], nm if nm is not None else "unknown")
        st.ghost[f"bad:{args[0].obj.id}"] = self.failed(st, "open.fail")
        return None

    def move(self, ex, st, args, dem):
        a, b = self.key(args[0]), self.key(args[1])
        nm = self.name(st, args[1])
        if f"stream:{a}" not in st.ghost:
            self.setup(st, args[0], nm)
        st.ghost[f"stream:{a}"], st.ghost[f"bad:{a}"] = nm, st.ghost[f"bad:{b}"]
        st.ghost[f"stream:{b}"] = "closed"
        return args[0] if "operator=" in dem else None

    def exists_fact(self, nm):
        if nm not in self.existing:
            self.existing[nm] = z3.Bool(f"exists({nm})")
        return self.existing[nm]

    def exists(self, ex, st, args, dem):
        nm = str_origin(ex, st, args[0])
        if nm is None:
            raise Unsupported("existence of an unknown file")
        x = lib.fork_throw(ex, st, "_ZTINSt10filesystem7__cxx1116filesystem_errorE")
        x.ghost["io"] = 1
        return Out(st, self.exists_fact(nm), [x])

    def flush(self, ex, st, args, dem):
        k = self.key(args[0])
        if st.ghost.get(f"stream:{k}") is None:
            raise Unsupported("flush of an unknown stream")
        e = self.failed(st, "flush.fail")
        excs = []
        thr = st.ghost.get(f"thr:{k}", 0)
        if not (is_c(thr) and thr == 0):
            excs = [lib.fork_throw(ex, st, lib.FAILURE, z3.And(zi(thr) == 1, e == 1))]
            st.assume(z3.Not(z3.And(zi(thr) == 1, e == 1)))
        st.ghost[f"bad:{k}"] = z3.If(zi(st.ghost[f"bad:{k}"]) == 1, z3.IntVal(1), e)
        st.ghost["synced"] = 1
        return Out(st, args[0], excs)

    def exceptions(self, ex, st, args, dem):
        m = const_of(args[1])
        if m is None:
            raise Unsupported("exception mask")
        st.ghost[f"thr:{self.key(args[0])}"] = 1 if m & 5 == 5 else 0
        return None

    def getline(self, ex, st, args, dem):
        if self.on_getline is None:
            raise Unsupported("getline")
        st.ghost[f"bad:{self.key(args[0])}"] = z3.If(zb(self.on_getline(ex, st, self.name(st, args[0]), args[1])),
                                                    z3.IntVal(0), z3.IntVal(1))
        return args[0]


def step_cands(ctx, mods, H):
    """cells that move by one each step"""
    out = []
    for c in mods.keys():
        if c[0] == "cell" and c[3] in (4, 8) and is_zi(mods.get(H, c)):
            e = mods.get(ctx.entry, c)
            if is_zi(e) or is_c(e) and not isinstance(e, bool):
                for d in (1, -1):
                    def f(s, k, c=c, d=d, e=zi(e)):
                        v = mods.get(s, c)
                        return zi(v) == e + d * k if is_zi(v) or is_c(v) else z3.BoolVal(False)
                    out.append(f)
    return out


def int_cands(mods, H, seeds):
    """candidate equalities (and off-by-one) between ghost counters, 8-byte cells and the step count"""
    cells = [c for c in mods.keys() if (c[0] == "cell" and c[3] == 8 or c[0] == "env") and is_zi(mods.get(H, c))]

    def get(s, c):
        if isinstance(c, str):
            v = s.ghost.get(c)
        else:
            v = mods.get(s, c)
        return zi(v) if is_zi(v) or is_c(v) else None
    out = []

    def rel(a, b, d):
        def f(s, k):
            x, y = get(s, a), k if b is None else get(s, b)
            if x is None or y is None:
                return z3.BoolVal(False)
            return x == y + d
        return f
    for i, a in enumerate(seeds):
        for b in [None] + seeds[i + 1:] + cells:
            for d in (0, 1, -1):
                out.append(rel(a, b, d))
    return out
