"""C08: a saved table of contents is used only if complete and newer than its database."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import dbm, appm

UNITS = {"toc": ("/verif/harness/toc.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = ["std::ofstream, std::ifstream, std::filesystem::{exists, last_write_time, file_size, rename, remove}: every operation may fail; "
           "rename replaces its target in one step; a file is partial from the moment it is opened for writing until all was written and closed without failure"]
ASSUMPTIONS = ["details::build: its contract, proved in C07", "the database is not modified while its table is being built",
               "a file that was saved and not touched since has the time stamp and content it was saved with"]
FSERR = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"
PLACE = re.compile(r"\{(\d*)(?::([^{}]*))?\}|\{\{|\}\}")
# states of a file
BEFORE, COMPLETE, PARTIAL, GONE = 0, 1, 2, 3


def str_plus(ex, st, args, dem):
    ret, v = args[0], []
    for a in args[1:3]:
        x = None
        if isinstance(a, Ptr) and a.obj is not None and a.obj.kind == "global":
            t = appm.literal(ex, st, a, a.obj.size - a.off)
            x = ("lit", t.split("\0")[0]) if t is not None else None
        elif isinstance(a, Ptr):
            x = appm.str_origin(ex, st, a)
        v.append(x)
    if None in v:
        appm.opaque_str(ex, st, ret, ("text",))
    else:
        appm.opaque_str(ex, st, ret, ("append", v[0], v[1]))
    return None


def parts_of(v):
    """a name as a list of literal texts, ("db",) and ("int", value, spec)"""
    if isinstance(v, str):
        return [("db",)] if v == "the db" else [("lit", v)] if v else []
    if isinstance(v, tuple) and v and v[0] == "append":
        return parts_of(v[1]) + parts_of(v[2])
    if isinstance(v, tuple) and v and v[0] == "lit":
        return [v] if v[1] else []
    if isinstance(v, tuple) and v and v[0] == "int":
        return [v]
    if isinstance(v, appm.Fmt):
        out, pos, k = [], 0, 0
        for m in PLACE.finditer(v.text):
            if v.text[pos:m.start()]:
                out.append(("lit", v.text[pos:m.start()]))
            pos = m.end()
            if m.group(0) in ("{{", "}}"):
                out.append(("lit", m.group(0)[0]))
                continue
            i = int(m.group(1)) if m.group(1) else k
            k += 1
            if i >= len(v.args):
                raise Unsupported("format text")
            t, x = v.args[i]
            if t in (1, 2, 3, 4):
                out.append(("int", x, m.group(2) or ""))
            elif x is None or m.group(2):
                raise Unsupported("part of a file name")
            else:
                out += parts_of(x)
        if v.text[pos:]:
            out.append(("lit", v.text[pos:]))
        return out
    raise Unsupported(f"file name {v!r}")


def join(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


class Files(appm.Streams):
    """the file system as far as tables are concerned: the database, the saved table, other files"""

    def __init__(self, ctx, ex, st, bits, vec):
        super().__init__(ex, st)
        self.ctx, self.bits, self.vec = ctx, bits, vec
        self.table = None                                # the name of the table
        self.S = z3.Int("entries")
        self.TAB, self.FILE = Base("TABLE", 32), Base("SAVED", 32)
        self.E, self.SZ = z3.Bool("table.exists"), 4 * z3.Int("table.entries") + z3.Int("table.rest")
        self.wt, self.wd = z3.Int("time.table"), z3.Int("time.db")
        st.assume(z3.And(self.S >= 1, self.S <= 1 << 25, z3.Int("table.entries") >= 0, z3.Int("table.rest") >= 0, z3.Int("table.rest") < 4, self.SZ < 1 << 62))
        fresh = z3.And(self.E, self.wt > self.wd)
        # what earlier runs left: a table newer than its database is complete
        if ex.safety == "wild":
            fresh = z3.BoolVal(False)
        st.assume(z3.Implies(fresh, self.SZ == 4 * self.S))
        ex.forall(lambda i: z3.Implies(z3.And(fresh, i >= 0, i < self.S),
                                       to_bv(self.FILE.read(i, ex), 32) == to_bv(self.TAB.read(i, ex), 32)))
        st.ghost.update({"toc": BEFORE, "db touched": 0})
        P = r"std::filesystem::__cxx11::path"
        F = r"^std::filesystem::"
        C = [(F + r"last_write_time\(" + P + r" const&(, std::error_code&)?\)", self.last_write_time),
             (F + r"file_size\(" + P + r" const&(, std::error_code&)?\)", self.file_size),
             (F + r"exists\(" + P + r" const&, std::error_code&\)", self.exists),
             (F + r"rename\(", self.rename), (F + r"remove\(", self.remove), (F + r"copy_file\(", self.copy_file),
             (r"^" + P + r"::operator\+=\(", self.append), (r"^" + P + r"::concat", self.append),
             (r"^std::(ostream|basic_ostream<char[^&]*)::write\(char const\*, long\)", self.write),
             (r"^std::(istream|basic_istream<char[^&]*)::read\(char\*, long\)", self.read),
             (r"^std::(istream|basic_istream<char[^&]*)::gcount\(\)", self.gcount),
             (r"^std::basic_ofstream<char[^&]*::close\(\)|^std::ofstream::close\(\)", self.close),
             (r"^std::basic_ofstream<char[^&]*::is_open\(\)|^std::basic_ifstream<char[^&]*::is_open\(\)", self.is_open),
             (r"^std::basic_ifstream<char[^&]*::close\(\)", nop),
             (r"std::operator\+ ?<char, std::char_traits<char>", self.plus), (r"^std::(__cxx11::)?to_string\(unsigned", self.number),
             (r"^std::error_code::error_code\(\)", self.ec0), (r"^std::error_code::operator bool\(\)", self.ec_bool),
             (r"^std::_V2::\w+_category\(\)|^std::\w+_category\(\)", lambda ex, st, a, d: Ptr(ex.new_obj(st, "category", 64, content=CellC()), 0))]
        ex.contracts += [(re.compile(r), h) for r, h in C]

    # ---- names
    def kind(self, st, p, consult=False):
        v = appm.str_origin(self.ex, st, p) if isinstance(p, Ptr) else p
        if v is None or v == "unknown":
            raise Unsupported("unknown file name")
        ps = join(parts_of(v))
        if ps == [("db",)]:
            return "db"
        if not any(p[0] == "db" for p in ps):
            raise Unsupported(f"file name {ps}")
        if self.table is None:
            if not consult:
                raise Unsupported("a file is written before the table is looked for")
            self.table = ps
            self.tells_width(st, ps)
        if len(ps) == len(self.table) and all(a[0] == b[0] and (a[0] != "lit" or a[1] == b[1]) and (a[0] != "int" or self.same(st, a, b))
                                              for a, b in zip(ps, self.table)):
            return "toc"
        return "tmp " + "".join(p[1] if p[0] == "lit" else "{" + p[0] + "}" for p in ps)

    def same(self, st, a, b):
        return a[2] == b[2] and z3.is_true(z3.simplify(to_bv(a[1], 32) == to_bv(b[1], 32)))

    def tells_width(self, st, ps):
        ints = [i for i, p in enumerate(ps) if p[0] == "int"]
        if len([p for p in ps if p[0] == "db"]) != 1 or any(not re.fullmatch(r"0?\d*d?", ps[i][2]) for i in ints):
            raise Unsupported("form of the name of a table")
        if not ints:
            self.ex.oblige(st, "the name of a table tells its prefix width", z3.BoolVal(False))
            return
        i = ints[0]
        n = to_bv(ps[i][1], 32)
        self.ex.oblige(st, "the name of a table tells its prefix width", n == self.bits)
        d = [j for j, p in enumerate(ps) if p[0] == "db"][0]
        sep = ps[i - 1] if d < i else ps[i + 1]
        self.ex.oblige(st, "the name of a table tells its prefix width apart from the name of the database",
                       z3.BoolVal(sep[0] == "lit" and not (sep[1][-1] if d < i else sep[1][0]).isdigit()))

    def append(self, ex, st, args, dem):
        old = appm.str_origin(ex, st, args[0])
        if "path const&" in dem or "basic_string" in dem:
            new = appm.str_origin(ex, st, args[1])
        else:
            t = appm.literal(ex, st, args[1], args[1].obj.size - args[1].off) if isinstance(args[1], Ptr) and args[1].obj else None
            new = ("lit", t.split("\0")[0]) if t is not None else None
        if old is None or new is None:
            raise Unsupported("part of a file name")
        appm.opaque_str(ex, st, args[0], ("append", old, new))
        return args[0]

    def plus(self, ex, st, args, dem):
        return str_plus(ex, st, args, dem)

    def number(self, ex, st, args, dem):
        appm.opaque_str(ex, st, args[0], ("int", args[1], ""))
        return None

    # ---- error codes: the value is a fresh 0/1
    def ec0(self, ex, st, args, dem):
        ex.store(st, args[0], 0, IntT(32))
        return None

    def ec_bool(self, ex, st, args, dem):
        return to_bv(ex.load(st, args[0], IntT(32)), 32) != 0

    def outcome(self, ex, st, args, dem, at):
        """(failed, exceptions): the operation reports a failure through its error_code argument or by throwing"""
        if "error_code&" in dem:
            e = self.failed(st, "fs.fail")
            ex.store(st, args[at], z3.If(zi(e) == 1, z3.BitVecVal(5, 32), z3.BitVecVal(0, 32)), IntT(32))
            return zi(e) == 1, []
        x = lib.fork_throw(ex, st, FSERR)
        x.ghost["io"] = 1
        return z3.BoolVal(False), [x]

    # ---- queries
    def exists(self, ex, st, args, dem):
        k = self.kind(st, args[0], True)
        bad, excs = self.outcome(ex, st, args, dem, 1)
        v = self.E if k == "toc" else ex.fresh(st, 64, "exists") == 1
        if k == "toc" and not (is_c(st.ghost["toc"]) and st.ghost["toc"] == BEFORE):
            raise Unsupported("a table is looked for after it was written")
        return Out(st, z3.And(v, z3.Not(bad)), excs)

    def last_write_time(self, ex, st, args, dem):
        k = self.kind(st, args[0], True)
        bad, excs = self.outcome(ex, st, args, dem, 1)
        if k not in ("db", "toc") or not (is_c(st.ghost["toc"]) and st.ghost["toc"] == BEFORE):
            raise Unsupported("time of another file")
        t = self.wd if k == "db" else self.wt
        st.assume(z3.And(t >= -(1 << 60), t < 1 << 60))
        if k == "toc":
            st.assume(z3.Or(bad, self.E))
        lowest = z3.IntVal(-(1 << 63))
        return Out(st, z3.Int2BV(z3.If(bad, lowest, t), 64) if False else z3.If(bad, lowest, t), excs)

    def file_size(self, ex, st, args, dem):
        k = self.kind(st, args[0], True)
        bad, excs = self.outcome(ex, st, args, dem, 1)
        if k != "toc" or not (is_c(st.ghost["toc"]) and st.ghost["toc"] == BEFORE):
            raise Unsupported("size of another file")
        st.assume(z3.Or(bad, self.E))
        return Out(st, z3.If(bad, z3.IntVal((1 << 64) - 1), self.SZ), excs)

    # ---- changes
    def state(self, st, k):
        return zi(st.ghost.get("toc" if k == "toc" else "file:" + k, BEFORE))

    def set(self, st, k, v):
        st.ghost["toc" if k == "toc" else "file:" + k] = v

    def rename(self, ex, st, args, dem):
        a, b = self.kind(st, args[0]), self.kind(st, args[1])
        if b == "db" or a == "db":
            ex.oblige(st, "the database is not touched", z3.BoolVal(False))
        if a == "toc":
            raise Unsupported("a table is moved away")
        if b == "toc":
            ex.oblige(st, "only a complete file takes the name of a table", self.state(st, a) == COMPLETE)
        bad, excs = self.outcome(ex, st, args, dem, 2)
        self.set(st, b, z3.If(bad, self.state(st, b), self.state(st, a)))
        self.set(st, a, z3.If(bad, self.state(st, a), z3.IntVal(GONE)))
        return Out(st, None, excs)

    def copy_file(self, ex, st, args, dem):
        if self.kind(st, args[1]) in ("toc", "db"):
            ex.oblige(st, "a table is never written in place, nor a database", z3.BoolVal(False))
        raise Unsupported("a file is copied")

    def remove(self, ex, st, args, dem):
        k = self.kind(st, args[0])
        if k == "db":
            ex.oblige(st, "the database is not touched", z3.BoolVal(False))
        bad, excs = self.outcome(ex, st, args, dem, 1)
        self.set(st, k, z3.If(bad, self.state(st, k), z3.IntVal(GONE)))
        return Out(st, z3.Not(bad), excs)

    def open_out(self, ex, st, args, dem):
        k = self.kind(st, args[1])
        mode = 16 if len(args) < 3 else const_of(args[2])
        if mode is None:
            raise Unsupported("mode of a file")
        ex.oblige(st, "a table is never written in place, nor a database", z3.BoolVal(k not in ("toc", "db")))
        ex.oblige(st, "a table is written as binary, from the start", z3.BoolVal(bool(mode & 4) and not mode & 9 or k in ("toc", "db")))
        self.setup(st, args[0], k)
        i = args[0].obj.id
        st.ghost[f"bad:{i}"] = e = self.failed(st, "open.fail")
        st.ghost[f"wrote:{i}"], st.ghost[f"right:{i}"] = 0, 1
        self.set(st, k, z3.If(zi(e) == 1, self.state(st, k), z3.IntVal(PARTIAL)))
        return None

    def open_in(self, ex, st, args, dem):
        k = self.kind(st, args[1], True)
        if k != "toc":
            raise Unsupported("another file is read")
        self.setup(st, args[0], k)
        st.ghost[f"bad:{args[0].obj.id}"] = e = self.failed(st, "open.fail")
        st.assume(z3.Or(zi(e) == 1, self.E))
        st.ghost[f"pos:{args[0].obj.id}"] = 0
        st.ghost[f"got:{args[0].obj.id}"] = 0
        return None

    def quiet(self, st, k):
        t = st.ghost.get(f"thr:{k}", 0)
        if not (is_c(t) and t == 0):
            raise Unsupported("stream that throws")

    def write(self, ex, st, args, dem):
        i, p, n = self.key(args[0]), args[1], zi(norm(args[2]))
        self.quiet(st, i)
        if f"wrote:{i}" not in st.ghost:
            raise Unsupported("write to another stream")
        b = ex.load(st, self.vec, PTR)
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(b, Ptr) or p.obj is not b.obj:
            raise Unsupported("something else is written")
        lib.range_ok(ex, st, p, norm(args[2]))
        was = self.bad(st, args[0])
        e = self.failed(st, "write.fail")
        w = zi(st.ghost[f"wrote:{i}"])
        same = z3.BoolVal(ex.content(st, p.obj).node is self.TAB)
        st.ghost[f"right:{i}"] = z3.If(z3.And(same, zi(st.ghost[f"right:{i}"]) == 1, z3.Or(zi(p.off) == w, n == 0)), z3.IntVal(1), z3.IntVal(0))
        st.ghost[f"wrote:{i}"] = w + n
        st.ghost[f"bad:{i}"] = z3.If(z3.Or(was, zi(e) == 1), z3.IntVal(1), z3.IntVal(0))
        return args[0]

    def settle(self, ex, st, p, what):
        i = self.key(p)
        k = self.name(st, p)
        if f"wrote:{i}" not in st.ghost:
            return None
        self.quiet(st, i)
        was = self.bad(st, p)
        e = self.failed(st, what)
        bad = z3.Or(was, zi(e) == 1)
        st.ghost[f"bad:{i}"] = z3.If(bad, z3.IntVal(1), z3.IntVal(0))
        full = z3.And(zi(st.ghost[f"wrote:{i}"]) == 4 * self.S, zi(st.ghost[f"right:{i}"]) == 1)
        self.set(st, k, z3.If(z3.And(z3.Not(bad), full), z3.IntVal(COMPLETE), self.state(st, k)))
        return None

    def close(self, ex, st, args, dem):
        return self.settle(ex, st, args[0], "close.fail")

    def flush(self, ex, st, args, dem):
        if f"wrote:{self.key(args[0])}" in st.ghost:
            self.settle(ex, st, args[0], "flush.fail")
        return args[0]

    def is_open(self, ex, st, args, dem):
        i = self.key(args[0])
        done = st.ghost.get(f"wrote:{i}", st.ghost.get(f"pos:{i}"))
        if not (is_c(done) and done == 0):
            raise Unsupported("is_open() after use")
        return b_not(self.bad(st, args[0]))

    def read(self, ex, st, args, dem):
        i, p, n = self.key(args[0]), args[1], zi(norm(args[2]))
        self.quiet(st, i)
        if f"pos:{i}" not in st.ghost:
            raise Unsupported("read from another stream")
        lib.range_ok(ex, st, p, norm(args[2]))
        pos = zi(st.ghost[f"pos:{i}"])
        was = self.bad(st, args[0])
        ex.oblige(st, "a saved table is read only if it is newer than its database", z3.Or(was, z3.And(self.E, self.wt > self.wd)))
        e = self.failed(st, "read.fail")
        short = pos + n > self.SZ
        bad = z3.Or(was, zi(e) == 1, short)
        st.ghost["io"] = zi(st.ghost["io"])
        st.ghost[f"bad:{i}"] = z3.If(bad, z3.IntVal(1), z3.IntVal(0))
        got = ex.fresh(st, 64, "read.got")
        st.assume(z3.And(got >= 0, got <= n))
        st.ghost[f"got:{i}"] = z3.If(bad, got, n)
        st.ghost[f"pos:{i}"] = pos + z3.If(bad, got, n)
        for cond, q in ex.ptr_alts(p):
            if q.obj is None or len(ex.ptr_alts(p)) > 1 and not ex.solver.feasible(st.pc, cond):
                continue
            c = ex.content(st, q.obj)
            if not isinstance(c, ArrC):
                raise Unsupported(f"read into this object {c}")
            if c.stride != 4:
                raise Unsupported("read into objects of another size")
            if const_of(q.off) is None or const_of(q.off) % 4 or not ex.solver.valid(st.pc, z3.And(n % 4 == 0, pos % 4 == 0), 3.0):
                raise Unsupported("read of parts of entries")
            lo, cnt = zi(q.off) / 4, n / 4
            node = IteN(bad, CopyN(c.node, lo, cnt, Base(fresh_name("partial"), 32), 0), CopyN(c.node, lo, cnt, self.FILE, pos / 4))
            st.mem[q.obj.id] = ArrC(4, node if is_c(cond) and cond else IteN(zb(cond), node, c.node))
        return args[0]

    def gcount(self, ex, st, args, dem):
        return st.ghost[f"got:{self.key(args[0])}"]


def toc_build(ctx, kind):
    """whatever was saved before, and whatever fails on the way: the table used afterwards is that of the database, and the
    file with the name of a table is never anything but what it was or a complete table"""
    ex = ctx.executor(f"toc_build<{kind}>")
    st = State()
    bits = z3.BitVec("bits", 32)
    st.assume(z3.And(z3.UGE(bits, 1), z3.ULE(bits, 25)))
    path = Ptr(ex.new_obj(st, "path", 64, content=CellC()), 0)
    appm.named_string(ex, st, path, "the db")
    vec = ex.run_fn(*ctx.find(ex, rf"^acc_toc_{kind}\("), [], st).val

    def set_vec(st, node, n, name):
        o = ex.new_obj(st, name, n * 4, "heap", content=ArrC(4, node))
        ex.store(st, vec, Ptr(o, 0), PTR)
        for k in (8, 16):
            ex.store(st, ex.padd(vec, k), Ptr(o, n * 4), PTR)
    n0 = z3.Int("entries.before")
    st.assume(z3.And(n0 >= 0, n0 < 1 << 25))
    set_vec(st, Base("before", 32), n0, "table before")
    st.ghost["io"] = 0
    fs = Files(ctx, ex, st, bits, vec)
    appm.Texts(ex, lambda ex, st, os, v: None)
    lib.install_path(ex)
    lib.install_exceptions(ex)
    opens = appm.Opens(ctx, ex, [])
    ex.contracts = [(r, h) for r, h in ex.contracts if "::database\\(std" not in r.pattern]
    ex.models["std::runtime_error::runtime_error"] = nop

    def build(ex, st, args, dem):
        if fs.kind(st, args[0]) != "db":
            ex.oblige(st, "the table is built for the database given", z3.BoolVal(False))
        ex.oblige(st, "the table is built with the width given", to_bv(args[1], 32) == bits)
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, lib.FAILURE)]
        for b in bad:
            b.ghost["io"] = 1
        set_vec(st, fs.TAB, fs.S, "table built")
        return Out(st, None, bad)
    ex.contracts.append((re.compile(r"^_ZN4hibp7details5buildI|^(void )?hibp::details::build<"), build))
    from irv import models as _m

    def allocate(ex, st, args, dem):
        """memory for n entries (for none as well)"""
        return _m.m_new(ex, st, [zi(norm(args[1])) * 4], dem)
    ex.contracts.append((re.compile(r"^std::_Vector_base<unsigned int, std::allocator<unsigned int> ?>::_M_allocate\(|^_ZNSt12_Vector_baseIjSaIjEE11_M_allocateEm$"), allocate))
    m, f = ctx.find(ex, rf"^toc_build_{kind}\(")
    out = ex.run_fn(m, f, [path, bits], st)
    s = out.st
    if ex.safety == "wild":
        ctx.cover(ex, s, "end")
        return
    b, e = ex.load(s, vec, PTR), ex.load(s, ex.padd(vec, 8), PTR)
    i = z3.Int("i")
    ex.skolem_idx.append(i)
    s.assume(z3.And(i >= 0, i < fs.S))
    for c, p in ex.ptr_alts(b):
        g = s.fork()
        g.assume(zb(c))
        if not ex.solver.feasible(g.pc, True):
            continue
        ends = [(c2, q) for c2, q in ex.ptr_alts(e) if ex.solver.feasible(g.pc, c2)]
        if p.obj is None or any(q.obj is not p.obj for _, q in ends):
            ex.oblige(g, "the table used has all its entries", z3.BoolVal(False))
            continue
        for c2, q in ends:
            ex.oblige(g, "the table used has all its entries", z3.Implies(zb(c2), zi(q.off) - zi(p.off) == 4 * fs.S))
        ex.oblige(g, "the table used is the table of the database", to_bv(ex.load(g, ex.padd(p, 4 * i), IntT(32)), 32)
                  == to_bv(fs.TAB.read(i, ex), 32))
    for x in [s] + list(out.excs):
        t = zi(x.ghost["toc"])
        ex.oblige(x, "the saved table is what it was, complete, or gone", z3.Or(t == BEFORE, t == COMPLETE, t == GONE))
    for x in out.excs:
        ex.oblige(x, "only a failure makes it throw", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


TARGETS = [Target(f"toc_build<{k}>", ["toc"], toc_build, kind=k) for k in dbm.KINDS]
