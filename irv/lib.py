"""Assumed contracts of I/O: std::ostream, std::ifstream, std::filesystem and friends, over ghost state.

Every handler here is part of the trusted base (reported as `assumed contract ...`)."""
import re
import z3
from .val import *
from .mem import *
from .exec import Out, State
from .irparse import IntT, PTR
from .models import norm, nop, range_ok, view_node

FAILBITS = 5  # libstdc++: badbit 1, eofbit 2, failbit 4


def fork_throw(ex, st, ty, cond=None):
    """a copy of st that throws ty (under cond)"""
    s = st.fork()
    if cond is not None:
        s.assume(cond)
    s.exc = (ty, NULL)
    return s


def stream_write(rec):
    """std::ostream::write over a ghost output sequence of `rec`-byte elements: ghost on = length, ob = content"""
    def h(ex, st, args, dem):
        this, p, n = args[0], args[1], norm(args[2])
        ex.oblige(st, "write: whole records", n_divides(n, rec))
        range_ok(ex, st, p, n)
        ex.oblige(st, "write: a failing stream is set to throw", st.ghost.get("omask") == FAILBITS)
        bad = fork_throw(ex, st, "_ZTINSt8ios_base7failureB5cxx11E")
        bad.ghost["ofail"] = z3.BoolVal(True)
        cnt = divx(n, rec)
        src = elem_view(ex, st, p, rec)
        on, ob = st.ghost["on"], st.ghost["ob"]
        st.ghost["ob"] = CopyN(ob, on, cnt, src[0], src[1])
        st.ghost["on"] = i_add(on, cnt)
        st.ghost["synced"] = z3.BoolVal(False)
        return Out(st, this, [bad])
    return h


def n_divides(n, rec):
    if is_c(n):
        return n % rec == 0
    ts, c = lin(n)
    if c % rec == 0 and all(k % rec == 0 for _, k in ts.values()):
        return True
    return zi(n) % rec == 0


def divx(v, k):
    """v / k, where k divides v"""
    if k == 1:
        return v
    r = i_divexact(v, k)
    if r is None or r[1]:
        return zi(v) / k
    return r[0]


def elem_view(ex, st, p, rec):
    """(node, element offset) of the rec-byte elements at p"""
    c = ex.content(st, p.obj)
    if isinstance(c, ArrC) and c.stride == rec:
        return c.node, divx(p.off, rec)
    if isinstance(c, CellC) and is_c(p.off):
        def f(i):
            k = const_of(i)
            if k is None:
                raise Unsupported("symbolic element of a cell object")
            return ex.read_bytes(State_at(st, p.obj, c), Ptr(p.obj, p.off + k * rec), rec)
        return FnNode(f, 8 * rec), 0
    raise Unsupported(f"elements of {p.obj!r}")


class State_at:
    def __init__(self, st, o, c):
        self.mem = dict(st.mem)
        self.mem[o.id] = c
        self.pc, self.osize, self.dead = st.pc, st.osize, {}

    def assume(self, f):
        pass


def stream_flush(ex, st, args, dem):
    bad = fork_throw(ex, st, "_ZTINSt8ios_base7failureB5cxx11E")
    bad.ghost["ofail"] = z3.BoolVal(True)
    ex.oblige(st, "flush: a failing stream is set to throw", st.ghost.get("omask") == FAILBITS)
    st.ghost["synced"] = z3.BoolVal(True)
    return Out(st, args[0], [bad])


def stream_exceptions(ex, st, args, dem):
    if len(args) < 2:
        return st.ghost.get("omask", 0)
    m = const_of(args[1])
    if m is None:
        raise Unsupported("symbolic exception mask")
    st.ghost["omask"] = m
    return Out(st, None, [fork_throw(ex, st, "_ZTINSt8ios_base7failureB5cxx11E")])


def install_ostream(ex, rec):
    ex.contracts += [(re.compile(r"^std::ostream::write\(char const\*, long\)"), stream_write(rec)),
                     (re.compile(r"^std::ostream::flush\(\)"), stream_flush),
                     (re.compile(r"^std::(basic_ios<char[^>]*>+|ios)::exceptions\(std::_Ios_Iostate\)"), stream_exceptions)]


def new_out(ex, st, rec, name="out"):
    """fresh ghost output: length on, content ob"""
    st.ghost["on"] = ex.fresh(st, 64, name + ".len")
    b = Base(name, 8 * rec)
    st.ghost["ob"] = b
    st.ghost["omask"] = 0
    st.ghost["synced"] = z3.BoolVal(False)
    st.ghost["ofail"] = z3.BoolVal(False)
    return b


# ---------------------------------------------------------------- std::ifstream over a ghost file of `rec`-byte elements
# ghost: fpos = position in bytes (Int); the file (content node and size in bytes) is fixed


class GFile:
    """a file that does not change while it is read; size in bytes, content as elements of `rec` bytes"""

    def __init__(self, node, size, rec):
        self.node, self.size, self.rec = node, size, rec


FAILURE = "_ZTINSt8ios_base7failureB5cxx11E"


def ifs_seekg(ex, st, args, dem):
    ex.oblige(st, "seekg: position within the file", b_and(i_le(0, norm(args[1])), i_le(norm(args[1]), ex.gfile.size)))
    st.ghost["fpos"] = norm(args[1])
    return Out(st, args[0], [fork_throw(ex, st, FAILURE)])


def ifs_read(ex, st, args, dem):
    """reads n bytes at the current position or throws (exceptions(badbit|failbit) is set by the constructor)"""
    this, p, n = args[0], args[1], norm(args[2])
    f = ex.gfile
    ex.oblige(st, "read: whole records", n_divides(n, f.rec))
    range_ok(ex, st, p, n)
    pos = st.ghost.get("fpos")
    if pos is None:
        raise Unsupported("read without a known position")
    bad = fork_throw(ex, st, FAILURE)
    # a failing read may have written anything into the destination
    c = ex.content(st, p.obj)
    if not (isinstance(c, ArrC) and c.stride == f.rec):
        raise Unsupported("read into this object")
    lo, cnt = divx(p.off, f.rec), divx(n, f.rec)
    bad.mem[p.obj.id] = ArrC(c.stride, CopyN(c.node, lo, cnt, Base("partial", 8 * f.rec), 0))
    bad.ghost["fpos"] = ex.fresh(bad, 64, "fpos")
    ex.oblige(st, "read: never asks for more than the file holds", i_le(i_add(pos, n), f.size))
    ex.oblige(st, "read: from a record boundary", n_divides(pos, f.rec))
    st.mem[p.obj.id] = ArrC(c.stride, CopyN(c.node, lo, cnt, f.node, divx(pos, f.rec)))
    st.ghost["fpos"] = i_add(pos, n)
    return Out(st, this, [bad])


def install_ifstream(ex):
    ex.contracts += [(re.compile(r"^std::istream::seekg\(std::fpos<"), ifs_seekg_fpos),
                     (re.compile(r"^std::istream::seekg\(long, "), ifs_seekg_dir),
                     (re.compile(r"^std::istream::read\(char\*, long\)"), ifs_read)]


def ifs_seekg_fpos(ex, st, args, dem):
    # fpos is {streamoff, mbstate} passed as two registers
    return ifs_seekg(ex, st, [args[0], args[1]], dem)


def ifs_seekg_dir(ex, st, args, dem):
    if const_of(args[2]) != 0:
        return NotImplemented
    return ifs_seekg(ex, st, args, dem)


def install_exceptions(ex):
    """constructors/destructors of exception objects and error texts carry no state of interest"""
    for b in ("std::ios_base::failure::failure", "std::ios_base::failure::~failure", "std::domain_error::domain_error",
              "std::system_error::system_error"):
        ex.models[b] = nop


# ---------------------------------------------------------------- std::filesystem::path (its std::string at offset 0)
from . import models as _m


def path_move(ex, st, args, dem):
    _m.move_str(ex, st, args[0], args[1])
    return None


def path_copy(ex, st, args, dem):
    d, n = _m.str_parts(ex, st, args[1])
    _m.str_new(ex, st, args[0], n, view_node(ex, st, d, n))
    return None


def path_dtor(ex, st, args, dem):
    return _m.m_string_dtor(ex, st, args, dem)


def install_path(ex):
    ex.contracts += [(re.compile(r"^std::filesystem::__cxx11::path::path\(std::filesystem::__cxx11::path&&\)"), path_move),
                     (re.compile(r"^std::filesystem::__cxx11::path::path\(std::filesystem::__cxx11::path const&\)"), path_copy),
                     (re.compile(r"^std::filesystem::__cxx11::path::~path\(\)"), path_dtor)]


def path_text(ex, st, p):
    """identity of the text of a path: its data object"""
    d = ex.load(st, p, PTR)
    return d.obj if isinstance(d, Ptr) else None


def fmt_string(ex, st, args, dem):
    """fmt::format: some string (error texts are not specified)"""
    n = ex.fresh(st, 64, "fmt.len")
    st.assume(n < 1 << 40)
    _m.str_new(ex, st, args[0], n, Base("fmt", 8), "fmt.data")
    return None


def install_fmt_opaque(ex):
    ex.contracts += [(re.compile(r"fmt::v\d+::format\[?abi.*<|fmt::v\d+::format<|fmt::v\d+::vformat"), fmt_string)]
    install_errno(ex)


def install_errno(ex):
    ex.models["strerror"] = lambda ex, st, a, d: Ptr(ex.new_obj(st, "errtext", 64, content=ArrC(1, Base("err", 8))), 0)
    ex.models["__errno_location"] = lambda ex, st, a, d: Ptr(ex.new_obj(st, "errno", 4, content=CellC({0: (4, z3.BitVec(fresh_name("errno"), 32))})), 0)
    ex.models["std::iostream_category"] = lambda ex, st, a, d: Ptr(ex.new_obj(st, "category", 64, content=CellC()), 0)
