"""C09: sorting on disk yields a sorted permutation of the input, whatever the order, the memory limit and the number of chunks."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import dbm, appm, mains
from .C08 import parts_of, join, str_plus, FSERR

UNITS = {"sort": ("/verif/harness/sort.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = ["std::sort arranges its range in the order of its comparator without changing which records it holds; "
           "std::priority_queue: top() is an element that no other element precedes; std::copy appends the records of its range"]
ASSUMPTIONS = ["flat_file::database, stream_writer, operator<=>: their contracts, proved in C04, C05, C01",
               "nothing else touches the chunk files while they are in use"]


class Order:
    """an arbitrary order of arbitrary keys of the records (LT), or the one of the records themselves"""

    def __init__(self, ex, rec, N):
        self.rec, self.N = rec, N
        self.K = z3.Function("KEY", z3.BitVecSort(8 * rec), z3.BitVecSort(64))
        self.P = z3.Function("PRECEDES", z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        ex.contracts += [(re.compile(r"^anykey<.*>::operator\(\)"), lambda e, s, a, d: self.key(e, s, a)),
                         (re.compile(r"^anyorder::operator\(\)"), lambda e, s, a, d: self.P(to_bv(a[1], 64), to_bv(a[2], 64)))]

    def key(self, ex, st, a):
        return self.K(to_bv(ex.load(st, a[1], IntT(8 * self.rec)), 8 * self.rec))

    def lt(self, a, b):
        return self.P(self.K(a), self.K(b))

    def axioms(self, vs):
        """a strict weak order, at these records"""
        ks = [self.K(v) for v in vs]
        P, out = self.P, []
        for a in ks:
            out.append(z3.Not(P(a, a)))
            for b in ks:
                out.append(z3.Not(z3.And(P(a, b), P(b, a))))
                for c in ks:
                    out.append(z3.Implies(z3.And(P(a, b), P(b, c)), P(a, c)))
                    out.append(z3.Implies(P(a, b), z3.Or(P(a, c), P(c, b))))
        return z3.And(*out)


def type_args(dem, name):
    """the template arguments of `name` in a demangled function name (the last one that is not itself an argument)"""
    dem = dem.replace("->", "  ")
    out, depth, i = [], 0, 0
    while i < len(dem):
        if depth == 0 and dem.startswith(name + "<", i):
            i += len(name) + 1
            out, cur, d = [], "", 0
            while i < len(dem):
                c = dem[i]
                if c in "<({":
                    d += 1
                elif c in ">)}":
                    if d == 0:
                        break
                    d -= 1
                if c == "," and d == 0:
                    out.append(cur.strip())
                    cur = ""
                else:
                    cur += c
                i += 1
            out.append(cur.strip())
            i += 1
            continue
        depth += (dem[i] in "<({") - (dem[i] in ">)}")
        i += 1
    return out


class Names:
    """the names of the chunk files: distinct from one another and from the name of the database"""

    def __init__(self, ex, st):
        self.ex = ex
        st.ghost.update({"np": 0, "nf": 0, "nump": 0, "numf": 0})
        self.form = None

    def number(self, st, v, what):
        ps = join(parts_of(v))
        ints = [p for p in ps if p[0] == "int"]
        if len(ints) != 1 or len([p for p in ps if p[0] == "db"]) != 1:
            raise Unsupported("name of a chunk")
        form = [p if p[0] != "int" else ("int", p[2]) for p in ps]
        if self.form is None:
            self.form = form
        if ps[-1][0] != "int":
            raise Unsupported("name of a chunk")
        if form != self.form or not re.fullmatch(r"0?\d*d?", ints[0][2]):
            raise Unsupported("name of a chunk")
        return zi(norm(ints[0][1]))


def chunks(ctx, kind):
    """the range is written to chunk files, each a sorted arrangement of the next part of it, none empty, nothing left out"""
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"sort_into_chunks<{kind}>")
    ex.alloc_stride = lambda e, n: rec
    st = State()
    order = Order(ex, rec, N)
    st.ghost["io"] = 0
    streams = appm.Streams(ex, st, on_create=lambda *a: create(*a))
    appm.Texts(ex, lambda ex, st, os, v: None)
    appm.Opens(ctx, ex, [])
    d = dbm.DBM(ctx, ex, st, kind)
    nm = Names(ex, st)
    first, last = z3.Int("first"), z3.Int("last")
    st.assume(z3.And(first >= 0, first <= last, last <= d.D))
    mem = ex.fresh(st, 64, "max_memory")
    st.ghost.update({"upto": first, "w": 0, "have": 0, "sn": 0, "pending": 0, "snode": Base("NONE", 8 * rec)})
    db = rec
    vec = Ptr(ex.new_obj(st, "names", 24, content=CellC()), 0)
    opaque = {vec.obj.id}
    C = []

    # the database and the records copied from it
    def filename(ex, st, args, dem):
        if dbm.find_db(ex, args[1], st) is not d:
            raise Unsupported("name of another database")
        appm.named_string(ex, st, args[0], "the db")

    def path_string(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if v is None:
            raise Unsupported("path")
        appm.named_string(ex, st, args[0], v)

    def vfields(st, v):
        b, e = ex.load(st, v, PTR), ex.load(st, ex.padd(v, 8), PTR)
        return b, e

    def append(ex, st, v, dba, a, dbb, b):
        if dbm.find_db(ex, dba, st) is not d or dbm.find_db(ex, dbb, st) is not d:
            raise Unsupported("records of another database")
        a, b = zi(norm(a)), zi(norm(b))
        ex.oblige(st, "the records copied are a range of the database", z3.And(a <= b, b <= d.D))
        ob, oe = vfields(st, v)
        if not isinstance(ob, Ptr) or not isinstance(oe, Ptr):
            raise Unsupported("records are kept")
        old, node = 0, Base(fresh_name("objs"), 8 * rec)
        if ob.obj is not None:
            old = lib.divx(i_sub(oe.off, ob.off), rec)
            node = CopyN(node, 0, old, ex.content(st, ob.obj).node, lib.divx(ob.off, rec))
        n = i_add(old, z3.simplify(b - a))
        o = ex.new_obj(st, "objs", i_scale(n, rec), "heap", content=ArrC(rec, CopyN(node, old, z3.simplify(b - a), d.FILE, a)))
        ex.store(st, v, Ptr(o, 0), PTR)
        for k in (8, 16):
            ex.store(st, ex.padd(v, k), Ptr(o, i_scale(n, rec)), PTR)
        bad = [lib.fork_throw(ex, st, t) for t in (lib.FAILURE, "_ZTISt9bad_alloc")]
        for x in bad:
            x.ghost["io"] = 1
        return bad

    def copy(ex, st, args, dem):
        return Out(st, args[4], append(ex, st, args[4], *args[:4]))

    def construct(ex, st, args, dem):
        for k in (0, 8, 16):
            ex.store(st, ex.padd(args[0], k), Ptr(None, 0), PTR)
        return Out(st, None, append(ex, st, args[0], *args[1:5]))

    def sort(ex, st, args, dem):
        f, l = args[0], args[1]
        if not isinstance(f, Ptr) or f.obj is None or not isinstance(l, Ptr) or l.obj is not f.obj:
            raise Unsupported("range of std::sort")
        ta = type_args(dem, "sort")
        if len(ta) not in (1, 2):
            raise Unsupported("std::sort")
        fns = appm.comparator_functions(ctx, ex, N, ta[1] + ">::operator()") if len(ta) == 2 else []
        fns = [x for x in fns if x[0].demangled.get(x[1], "").find("::operator()") >= 0]
        if len(ta) == 2 and len(fns) != 1:
            raise Unsupported(f"comparator of std::sort {len(fns)}")

        def run(s, a, b):
            if len(ta) == 1:
                return order_of_records(ex, s, a, b, N)
            fo = ex.new_obj(s, "less", 64, content=CellC())
            for k, v in enumerate(args[2:]):
                ex.store(s, Ptr(fo, 8 * k), v, PTR if isinstance(v, (Ptr, PtrU)) else IntT(64))
            out = ex.run_fn(*fns[0], [Ptr(fo, 0), a, b], s)
            if out.excs or out.st is not s:
                raise Unsupported("comparator that throws")
            return out.val
        env, st.env = st.env, {}
        ordered(ex, st, order, run, lambda s, v: mk_rec(ex, s, rec, v), False)
        st.env = env
        c = ex.content(st, f.obj)
        if not isinstance(c, ArrC) or c.stride != rec:
            raise Unsupported("range of std::sort")
        n = lib.divx(i_sub(l.off, f.off), rec)
        i = z3.Int(fresh_name("i"))
        s = st.fork()
        ex.skolem_idx.append(i)
        s.assume(z3.And(i >= 0, i < zi(n)))
        ex.oblige(st, "all that was taken is sorted", z3.And(zi(f.off) == 0, zi(l.off) == zi(st.osize.get(f.obj.id, f.obj.size))))
        ex.oblige(st, "one part after the other is sorted", z3.And(zi(st.ghost["upto"]) + zi(n) <= last, zi(st.ghost["have"]) == 0))
        ex.oblige(st, "the records sorted at once fit into the memory limit, unless it is a single one", z3.Or(zi(n) * rec <= zi(norm(mem)), zi(n) <= 1))
        ex.oblige(s, "the records sorted are the next of the range", to_bv(c.node.read(i_add(lib.divx(f.off, rec), i), ex), 8 * rec)
                  == d.at(zi(st.ghost["upto"]) + i))
        node = Base(fresh_name("SORTED"), 8 * rec)
        st.mem[f.obj.id] = ArrC(rec, CopyN(c.node, lib.divx(f.off, rec), n, node, 0))
        st.ghost["snode"], st.ghost["have"], st.ghost["sn"], st.ghost["w"] = node, 1, n, 0
        return None

    # the files
    def create(ex, st, v, mode):
        if v is None:
            raise Unsupported("name of a file")
        if join(parts_of(v)) == [("db",)]:
            ex.oblige(st, "the input is not written to", z3.BoolVal(False))
        num = nm.number(st, v, "file")
        g = st.ghost
        np_, nf = zi(g["np"]), zi(g["nf"])
        ex.oblige(st, "a chunk is written to the file of its own name",
                  z3.Or(z3.And(np_ == nf, num >= zi(g["numf"])), z3.And(np_ == nf + 1, num + 1 == zi(g["nump"]))))
        ex.oblige(st, "one chunk after the other is written", zi(g["pending"]) == 0)
        ex.oblige(st, "records are written as binary, from the start", z3.BoolVal(bool(mode & 4) and not mode & 9))
        g["numf"], g["nf"], g["pending"] = num + 1, nf + 1, 1

    def on_record(ex, st, where, v):
        w = zi(st.ghost["w"])
        ex.oblige(st, "the records of a chunk are written in order", z3.And(w < zi(st.ghost["sn"]), to_bv(st.ghost["snode"].read(w, ex), 8 * rec) == v, zi(st.ghost["have"]) == 1,
                                                                           zi(st.ghost["pending"]) == 1))
        st.ghost["w"] = i_add(st.ghost["w"], 1)

    class W(appm.Writers):
        def flush(self, ex, st, args, dem):
            bad = lib.fork_throw(ex, st, lib.FAILURE)
            bad.ghost["io"] = 1
            c = const_of(to_bv(args[1], 8)) if len(args) > 1 and not isinstance(args[1], bool) else args[1] if len(args) > 1 else 0
            if c is None:
                raise Unsupported("flush")
            if c:
                w = zi(st.ghost["w"])
                ex.oblige(st, "a chunk holds all records of its part, and at least one",
                          z3.And(w == zi(st.ghost["sn"]), w >= 1, zi(st.ghost["have"]) == 1, zi(st.ghost["pending"]) == 1))
                st.ghost["upto"] = zi(st.ghost["upto"]) + w
                st.ghost["have"], st.ghost["pending"], st.ghost["sn"], st.ghost["w"] = 0, 0, 0, 0
            return Out(st, None, [bad])
    W(ex, on_record)

    # the list of names
    def vs(f):
        def h(ex, st, args, dem):
            if not isinstance(args[0], Ptr) or args[0].obj is not vec.obj:
                raise Unsupported("another list of names")
            return f(ex, st, args, dem)
        return h

    def push(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if v is None:
            raise Unsupported("name of a chunk")
        num = nm.number(st, v, "name")
        g = st.ghost
        np_, nf = zi(g["np"]), zi(g["nf"])
        ex.oblige(st, "the names of the chunks are those of the files written, all different",
                  z3.Or(z3.And(np_ == nf, num >= zi(g["nump"])), z3.And(np_ + 1 == nf, num + 1 == zi(g["numf"]))))
        g["nump"], g["np"] = num + 1, np_ + 1
        nm.last = v
        bad = lib.fork_throw(ex, st, "_ZTISt9bad_alloc")
        bad.ghost["io"] = 1
        o = ex.new_obj(st, "name", 32, content=CellC())
        appm.named_string(ex, st, Ptr(o, 0), v)
        return Out(st, Ptr(o, 0), [bad])

    def reserve(ex, st, args, dem):
        bad = []
        for t in ("_ZTISt9bad_alloc", "_ZTISt12length_error"):
            x = lib.fork_throw(ex, st, t)
            x.ghost["io"] = 1
            bad.append(x)
        return Out(st, None, bad)
    S = r"^std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>, std::allocator<.*> ?>::"
    D = r"flat_file::database<hibp::pawned_pw<\d+u> ?>::"
    def reserve_records(ex, st, args, dem):
        bad = []
        for t in ("_ZTISt9bad_alloc", "_ZTISt12length_error"):
            x = lib.fork_throw(ex, st, t)
            x.ghost["io"] = 1
            bad.append(x)
        if isinstance(vfields(st, args[0])[0], Ptr) and vfields(st, args[0])[0].obj is not None:
            raise Unsupported("room for more records")
        return Out(st, None, bad)
    C += [(r"^std::vector<hibp::pawned_pw<\d+u>, .*>::reserve\(", reserve_records), (r"std::operator\+ ?<char, std::char_traits<char>", str_plus),
          (r"^" + D + r"filename", filename), (r"^std::filesystem::__cxx11::path::string(\[abi:cxx11\])?\(\) const", path_string),
          (r"(^|> )std::copy<" + D + "const_iterator, std::back_insert_iterator<", copy),
          (r"^std::vector<hibp::pawned_pw<\d+u>, .*>::vector<" + D + "const_iterator", construct),
          (r"^void std::(stable_)?sort<__gnu_cxx::__normal_iterator<hibp::", sort),
          (r"^std::(basic_)?ofstream(<char[^&]*>)?::is_open\(\)", lambda e, s, a, dd: b_not(streams.bad(s, a[0]))),
          (S + r"(push_back|emplace_back[<(].*)\b", vs(push)), (S + r"reserve\(", vs(reserve)), (S + r"vector\(\)", vs(nop)), (S + r"~vector\(\)", vs(nop)),
          (S + r"size\(\)", vs(lambda e, s, a, dd: s.ghost["np"]))]
    ex.contracts = [(re.compile(r), h) for r, h in C] + ex.contracts

    def cands(ex, ctx, H, mods, k):
        g = lambda s, n: zi(s.ghost[n])
        out = [lambda s, k: g(s, "np") == g(s, "nf"), lambda s, k: g(s, "nump") == g(s, "numf"), lambda s, k: g(s, "upto") <= last,
               lambda s, k: g(s, "upto") >= first, lambda s, k: g(s, "pending") == 0, lambda s, k: g(s, "nump") <= k, lambda s, k: g(s, "numf") <= k]
        seeds = ["np", "nf", "w", "nump", "numf"]
        out += appm.int_cands(mods, H, seeds) + appm.step_cands(ctx, mods, H)
        # how far the parts reach, for every local that may hold their size
        R = last - first
        for v in list(H.env.values()):
            if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == "stack" and is_c(v.off) and v.off == 0 and H.osize.get(v.obj.id, v.obj.size) == 8:
                c = H.mem.get(v.obj.id)
                if not isinstance(c, CellC) or 0 not in c.c or c.c[0][0] != 8 or not (is_zi(c.c[0][1]) or is_c(c.c[0][1])):
                    continue

                def f(s, k, o=v.obj):
                    c = s.mem.get(o.id)
                    x = c.c.get(0) if isinstance(c, CellC) else None
                    if x is None or not (is_zi(x[1]) or is_c(x[1])):
                        return z3.BoolVal(False)
                    m = k * zi(x[1])
                    return g(s, "upto") == first + z3.If(m <= R, m, R)

                def f2(s, k, o=v.obj):
                    c = s.mem.get(o.id)
                    x = c.c.get(0) if isinstance(c, CellC) else None
                    if x is None or not (is_zi(x[1]) or is_c(x[1])):
                        return z3.BoolVal(False)
                    return g(s, "upto") == first + zi(x[1])
                out += [f, f2]
        return out
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, rf"^sort_into_chunks_{kind}\b")
    out = ex.run_fn(m, f, [vec, d.this, first, last, mem], st)
    s = out.st
    g = s.ghost
    ex.oblige(s, "every record of the range is in a chunk", zi(g["upto"]) == last)
    ex.oblige(s, "every chunk is complete", zi(g["pending"]) == 0)
    ex.oblige(s, "every chunk is named, and no other file", zi(g["np"]) == zi(g["nf"]))
    for x in out.excs:
        ex.oblige(x, "only a failure makes it throw", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


def mk_rec(ex, st, rec, v):
    return Ptr(ex.new_obj(st, "record", rec, content=CellC({0: (rec, v)})), 0)


def order_of_records(ex, st, a, b, N):
    return dbm.lt(dbm.hash_of(ex, st, a, N), dbm.hash_of(ex, st, b, N))


def ordered(ex, st, order, run, mk, swapped):
    g = st.fork()
    vs = [z3.BitVec(fresh_name(n), 8 * order.rec) for n in "abc"]
    ps = [mk(g, v) for v in vs]
    g.assume(order.axioms(vs))
    r = {ij: zb(run(g, ps[ij[0]], ps[ij[1]])) for ij in ((0, 1), (1, 0), (1, 2), (0, 2), (2, 1), (2, 0), (0, 0))}
    a, b = (vs[1], vs[0]) if swapped else (vs[0], vs[1])
    ex.oblige(g, "the comparator keeps the order asked for", z3.Implies(order.lt(a, b), r[0, 1]))
    ex.oblige(g, "the comparator is a strict weak order", z3.And(
        z3.Not(r[0, 0]), z3.Not(z3.And(r[0, 1], r[1, 0])), z3.Implies(z3.And(r[0, 1], r[1, 2]), r[0, 2]),
        z3.Implies(r[0, 1], z3.Or(r[0, 2], r[2, 1]))))


class ChunkDB(dbm.DBM):
    """the database of one chunk file"""

    def __init__(self, ctx, ex, st, kind, idx, size):
        self.ctx, self.ex, self.kind = ctx, ex, kind
        self.T, self.rec, self.N = dbm.KINDS[kind]
        self.idx, self.D = idx, size


def merge(ctx, kind):
    """given chunk files that are each in order, their records are written in order, each once, and then the files removed.

    J stands for an arbitrary chunk: what is shown for it holds for every chunk."""
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"merge_sorted_chunks<{kind}>")
    ex.alloc_stride = lambda e, n: rec
    st = State()
    order = Order(ex, rec, N)
    IO = (rec + 7) // 8 * 8                                # where the index sits behind the record
    J, NCH = z3.Int("J"), z3.Int("chunks")
    SIZE = z3.Function("SIZE", z3.IntSort(), z3.IntSort())
    FJ = Base("CHUNK_J", 8 * rec)
    st.assume(z3.And(J >= 0, NCH >= 0, NCH < 1 << 40))

    def size(st, i):
        st.assume(z3.And(SIZE(i) >= 1, SIZE(i) < 1 << 50))
        return SIZE(i)
    size(st, J)
    rd = lambda i: to_bv(FJ.read(zi(i), ex), 8 * rec)
    st.ghost.update({"io": 0, "nch": 0, "cap": 0, "posJ": 0, "pushJ": 0, "wJ": 0, "inqJ": 0, "qvalJ": z3.BitVec("none", 8 * rec),
                     "last": z3.BitVec("last0", 8 * rec), "any": 0, "qn": 0, "has": 0, "curw": 0, "curidx": 0,
                     "curval": z3.BitVec("cur0", 8 * rec), "made": 0, "settled": 0, "remJ": 0})
    G = lambda s, n: zi(s.ghost[n]) if not isinstance(s.ghost[n], z3.BitVecRef) else s.ghost[n]
    streams = appm.Streams(ex, st, on_create=lambda *a: create(*a))
    appm.Texts(ex, lambda ex, st, os, v: None)
    lib.install_path(ex)
    lib.install_exceptions(ex)
    dbm.DBM(ctx, ex, st, kind, place="none")
    recs = dbm.Recs(ex, st, rec)
    names = ex.new_obj(st, "names", 32 * NCH, content=ArrC(32, Base("names", 256)))
    vec = Ptr(ex.new_obj(st, "chunk_filenames", 24, content=CellC({0: (8, Ptr(names, 0)), 8: (8, Ptr(names, 32 * NCH)),
                                                                     16: (8, Ptr(names, 32 * NCH))})), 0)
    outp = Ptr(ex.new_obj(st, "sorted_filename", 64, content=CellC()), 0)
    appm.named_string(ex, st, outp, "sorted")
    lay = {}
    focus = {}

    def fails(st, *types):
        out = []
        for t in types:
            x = lib.fork_throw(ex, st, t)
            x.ghost["io"] = 1
            out.append(x)
        return out

    # ---- names
    def name_of(st, p):
        if isinstance(p, Ptr) and p.obj is names:
            q = i_divexact(p.off, 32)
            if q is None or q[1] != 0:
                raise Unsupported("name of a chunk")
            i = zi(q[0])
            ex.oblige(st, "only the chunks named are used", z3.And(i >= 0, i < NCH))
            return ("chunk", i)
        return appm.str_origin(ex, st, p)

    def str_copy(ex, st, args, dem):
        if isinstance(args[1], Ptr) and args[1].obj is names:
            appm.named_string(ex, st, args[0], name_of(st, args[1]))
            return None
        return NotImplemented

    def path_ctor(ex, st, args, dem):
        v = name_of(st, args[1])
        appm.named_string(ex, st, args[0], v if v is not None else ("unknown",))

    # ---- chunks
    def local_type(dem):
        ta = type_args(dem, "std::vector")
        return ta[0] if ta and re.match(r"(\w+ )?flat_file::merge_sorted_chunks<", ta[0]) else None

    def on_vec(f):
        def h(ex, st, args, dem):
            return f(ex, st, args, dem) if local_type(dem) else NotImplemented
        return h

    def open_db(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if not (isinstance(v, tuple) and v[0] == "chunk"):
            raise Unsupported("opens another database")
        d = ChunkDB(ctx, ex, st, kind, v[1], size(st, v[1]))
        d.put(st, args[0])
        ex.dbs[args[0].obj.id] = d
        return Out(st, None, fails(st, dbm.RT, lib.FAILURE, FSERR))

    def emplace(ex, st, args, dem):
        t = local_type(dem)
        fns = []
        for m in ex.modules:
            for k, dd in m.demangled.items():
                if "std::construct_at<" + t + "," in dd and m.has_fn(k):
                    fns.append((m, k))
        if len(fns) != 1:
            raise Unsupported("construction of a chunk")
        o = ex.new_obj(st, "chunk", 4096, content=CellC())
        env = st.env
        out = ex.run_fn(*fns[0], [Ptr(o, 0)] + args[1:], st)
        st = out.st
        st.env = env
        d = ex.dbs.get(o.id)
        if d is None:
            raise Unsupported("chunk without a database")
        c = st.mem[o.id]
        me = [k for k, (n, v) in c.c.items() if n == 8 and isinstance(v, Ptr) and v.obj is o and v.off == 0]
        if len(me) != 2 or any((k + 8) not in c.c for k in me):
            raise Unsupported("form of a chunk")
        i = G(st, "nch")
        ex.oblige(st, "chunks stay where they are while iterators point into them", i < G(st, "cap"))
        ex.oblige(st, "chunk i is the file of name i", d.idx == i)
        starts = [k for k in me if const_of(c.c[k + 8][1]) == 0 or is_c(c.c[k + 8][1]) and c.c[k + 8][1] == 0]
        if len(starts) != 1:
            ex.oblige(st, "a chunk is read from its start to its end", z3.BoolVal(False))
            raise Unsupported("form of a chunk")
        s = starts[0]
        e = [k for k in me if k != s][0]
        ex.oblige(st, "a chunk is read from its start to its end", zi(c.c[e + 8][1]) == d.D)
        lay.update({"cur": s, "end": e, "all": c})
        st.ghost["nch"] = z3.simplify(i + 1)
        for x in out.excs:
            x.env = env
        return Out(st, Ptr(o, 0), list(out.excs) + fails(st, "_ZTISt9bad_alloc"))

    def at(ex, st, args, dem):
        i = zi(norm(args[1]))
        ex.oblige(st, "only chunks that there are are used", z3.And(i >= 0, i < G(st, "nch")))
        if "cur" not in lay:
            raise Unsupported("form of a chunk")
        for o, i2 in focus.values():
            if o.id in st.mem and i2.eq(i):
                return Ptr(o, 0)
        o = ex.new_obj(st, "chunk", 4096, content=CellC())
        c = dict(lay["all"].c)
        for k in (lay["cur"], lay["end"]):
            c[k] = (8, Ptr(o, 0))
        p = ex.fresh(st, 64, "pos")
        n = size(st, i)
        st.assume(z3.And(p <= n, z3.Implies(i == J, p == G(st, "posJ"))))
        c[lay["cur"] + 8], c[lay["end"] + 8] = (8, p), (8, n)
        st.mem[o.id] = CellC(c)
        d = ChunkDB(ctx, ex, st, kind, i, n)
        d.put(st, Ptr(o, 0))
        ex.dbs[o.id] = d
        focus[o.id] = (o, i)
        return Ptr(o, 0)
    busy = []

    def after(st, q):
        f = focus.get(q.obj.id) if q.obj is not None else None
        if f is None or busy:
            return
        o, i = f
        c = st.mem[o.id].c
        cur, end = c.get(lay["cur"] + 8), c.get(lay["end"] + 8)
        for k in (lay["cur"], lay["end"]):
            if k not in c or not isinstance(c[k][1], Ptr) or c[k][1].obj is not o:
                raise Unsupported("iterator of another chunk")
        if cur is None or cur[0] != 8 or not (is_zi(cur[1]) or is_c(cur[1])) or end is None or not z3.is_true(z3.simplify(zi(end[1]) == SIZE(i))):
            raise Unsupported("position in a chunk")
        p = zi(cur[1])
        st.ghost["posJ"] = z3.If(i == J, p, G(st, "posJ"))
        for o2, i2 in list(focus.values()):
            if o2 is not o and o2.id in st.mem:
                c2 = dict(st.mem[o2.id].c)
                x = c2.get(lay["cur"] + 8)
                if x is not None:
                    c2[lay["cur"] + 8] = (8, z3.If(i2 == i, p, zi(x[1])))
                    st.mem[o2.id] = CellC(c2)
    ex.after_store = after

    def get_record(ex, st, args, dem):
        d = dbm.find_db(ex, args[0], st)
        if d is None:
            raise Unsupported("access to an unknown database")
        pos = zi(norm(args[1]))
        bad = fails(st, lib.FAILURE)
        ex.oblige(st, "only records that a chunk has are read", z3.Implies(d.idx == J, pos < d.D))
        st.assume(pos < d.D)
        v = z3.BitVec(fresh_name("rec"), 8 * rec)
        return Out(st, recs.give(ex, st, z3.If(d.idx == J, rd(pos), v)), bad)

    # ---- the queue
    def pq_ctor(ex, st, args, dem):
        ta = type_args(dem, "std::priority_queue")
        if len(ta) != 3 or len(args) < 2:
            raise Unsupported("priority_queue")
        fns = appm.comparator_functions(ctx, ex, N, ta[2] + ">::operator()")
        if len(fns) != 1:
            raise Unsupported(f"comparator of the queue {len(fns)}")

        def mk(s, v):
            i = ex.fresh(s, 64, "idx")
            return Ptr(ex.new_obj(s, "head", IO + 8, content=CellC({0: (rec, v), IO: (8, i)})), 0)

        def run(s, a, b):
            out = ex.run_fn(*fns[0], [args[1], a, b], s)
            if out.excs or out.st is not s:
                raise Unsupported("comparator that throws")
            return out.val
        env, st.env = st.env, {}
        ordered(ex, st, order, run, mk, True)
        st.env = env
        return None

    def gone(st):
        for o in [x for x in tops if x.id in st.mem]:
            st.dead[o.id] = True
    tops = []

    def cst(st, n):
        v = st.ghost[n]
        v = v if is_c(v) else const_of(v)
        if v is None:
            raise Unsupported("state of the queue")
        return v

    def owed(st):
        """what was taken off the queue has been written"""
        if cst(st, "has") == 2:
            ex.oblige(st, "every record taken off the queue is written", z3.BoolVal(cst(st, "curw") == 1))

    def push(ex, st, args, dem):
        p = args[1]
        c = ex.content(st, p.obj) if isinstance(p, Ptr) and p.obj is not None else None
        if not isinstance(c, CellC) or not is_c(p.off) or c.c.get(p.off + IO, (0,))[0] != 8:
            raise Unsupported("form of what is queued")
        i, v = zi(norm(ex.load(st, ex.padd(p, IO), IntT(64)))), to_bv(ex.load(st, p, IntT(8 * rec)), 8 * rec)
        bad = fails(st, "_ZTISt9bad_alloc")
        if cst(st, "has") == 1:
            ex.oblige(st, "a record that was written is taken off the queue before another is queued", z3.BoolVal(cst(st, "curw") == 0))
            st.ghost["has"] = 0
        gone(st)
        mine = i == J
        n = G(st, "pushJ")
        ex.oblige(st, "what is queued is of one of the chunks", z3.And(i >= 0, i < G(st, "nch")))
        ex.oblige(st, "a chunk has no more than one record in the queue", z3.Implies(mine, G(st, "inqJ") == 0))
        ex.oblige(st, "the records of a chunk are queued one after the other", z3.Implies(mine, z3.And(n < SIZE(J), v == rd(n))))
        # the chunk is in order
        st.assume(z3.Implies(z3.And(n >= 1, n < SIZE(J)), z3.Not(order.lt(rd(n), rd(n - 1)))))
        st.ghost["inqJ"] = z3.If(mine, 1, G(st, "inqJ"))
        st.ghost["qvalJ"] = z3.If(mine, v, G(st, "qvalJ"))
        st.ghost["pushJ"] = z3.If(mine, n + 1, n)
        st.ghost["qn"] = G(st, "qn") + 1
        return Out(st, None, bad)

    def choose(ex, st):
        owed(st)
        ex.oblige(st, "a record is taken only from a queue that has one", G(st, "qn") >= 1)
        t, v = ex.fresh(st, 64, "top.idx"), z3.BitVec(fresh_name("top"), 8 * rec)
        st.assume(z3.And(t < G(st, "nch"), z3.Implies(t == J, z3.And(G(st, "inqJ") == 1, v == G(st, "qvalJ"))),
                         z3.Implies(G(st, "inqJ") == 1, z3.Not(order.lt(G(st, "qvalJ"), v)))))
        st.ghost["curidx"], st.ghost["curval"], st.ghost["curw"], st.ghost["has"] = t, v, 0, 1

    def top(ex, st, args, dem):
        if cst(st, "has") != 1:
            choose(ex, st)
        o = ex.new_obj(st, "top", IO + 8, "heap", content=CellC({0: (rec, st.ghost["curval"]), IO: (8, st.ghost["curidx"])}))
        tops.append(o)
        return Ptr(o, 0)

    def pop(ex, st, args, dem):
        if cst(st, "has") != 1:
            choose(ex, st)
        st.ghost["inqJ"] = z3.If(G(st, "curidx") == J, 0, G(st, "inqJ"))
        st.ghost["qn"] = z3.simplify(G(st, "qn") - 1)
        st.ghost["has"] = 0 if cst(st, "curw") else 2
        if st.ghost["has"] == 0:
            reset(st)
        gone(st)

    def reset(st):
        st.ghost["has"], st.ghost["curw"], st.ghost["curidx"], st.ghost["curval"] = 0, 0, 0, z3.BitVec("cur0", 8 * rec)

    def empty(ex, st, args, dem):
        st.assume(z3.Implies(G(st, "inqJ") == 1, G(st, "qn") >= 1))
        return G(st, "qn") == 0

    def qsize(ex, st, args, dem):
        st.assume(z3.Implies(G(st, "inqJ") == 1, G(st, "qn") >= 1))
        return G(st, "qn")

    # ---- the result
    def create(ex, st, v, mode):
        if v is None or v == "unknown":
            raise Unsupported("name of a file")
        ex.oblige(st, "the result is written to the file named, once", z3.And(z3.BoolVal(v == "sorted"), G(st, "made") == 0))
        ex.oblige(st, "records are written as binary, from the start", z3.BoolVal(bool(mode & 4) and not mode & 9))
        st.ghost["made"] = 1

    def on_record(ex, st, where, v):
        if cst(st, "has") == 0:
            ex.oblige(st, "a record is written once, and only when it is the first in the queue", z3.BoolVal(False))
            return
        ex.oblige(st, "a record is written once, and only when it is the first in the queue",
                  z3.And(z3.BoolVal(cst(st, "curw") == 0), v == G(st, "curval")))
        mine = G(st, "curidx") == J
        ex.oblige(st, "records are written in order", z3.Implies(z3.And(mine, G(st, "any") == 1), z3.Not(order.lt(v, st.ghost["last"]))))
        ex.oblige(st, "every record of a chunk is written, in turn", z3.Implies(mine, z3.And(G(st, "wJ") < SIZE(J), v == rd(G(st, "wJ")))))
        st.ghost["wJ"] = z3.If(mine, G(st, "wJ") + 1, G(st, "wJ"))
        st.ghost["last"], st.ghost["any"], st.ghost["curw"], st.ghost["settled"] = v, 1, 1, 0
        if cst(st, "has") == 2:
            reset(st)

    class W(appm.Writers):
        def flush(self, ex, st, args, dem):
            bad = fails(st, lib.FAILURE)
            c = const_of(to_bv(args[1], 8)) if len(args) > 1 and not isinstance(args[1], bool) else args[1] if len(args) > 1 else 0
            if c is None:
                raise Unsupported("flush")
            if c:
                st.ghost["settled"] = 1
            return Out(st, None, bad)
    W(ex, on_record)

    def remove(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[0])
        if not (isinstance(v, tuple) and v[0] == "chunk"):
            if v == "sorted":
                ex.oblige(st, "only chunks are removed", z3.BoolVal(False))
            raise Unsupported("removes another file")
        ex.oblige(st, "chunks are removed only when the result is complete",
                  z3.And(G(st, "made") == 1, G(st, "settled") == 1, z3.Implies(J < NCH, G(st, "wJ") == SIZE(J))))
        st.ghost["remJ"] = z3.If(v[1] == J, 1, G(st, "remJ"))
        if "error_code&" in dem:
            return Out(st, ex.fresh(st, 64, "removed") == 1, [])
        return Out(st, ex.fresh(st, 64, "removed") == 1, fails(st, FSERR))
    P = "std::filesystem::__cxx11::path"
    S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
    D = r"flat_file::database<hibp::pawned_pw<\d+u> ?>::"
    C = [(r"^" + S + r"::basic_string\(" + S + r" const&\)", str_copy),
         (r"^" + P + r"::path<std::", path_ctor), (r"^" + P + r"::path\(" + S, path_ctor),
         (r"^" + D + r"database\(std::filesystem", open_db), (r"^" + D + r"~database\(", nop), (r"^" + D + r"get_record\(", get_record),
         (r"^std::(basic_)?ofstream(<char[^&]*>)?::is_open\(\)", lambda e, s, a, dd: b_not(streams.bad(s, a[0]))),
         (r"^std::filesystem::remove\(", remove)]
    ex.contracts = [(re.compile(r), h) for r, h in C] + ex.contracts
    V, Q = "std::vector::", "std::priority_queue::"

    def reserve(ex, st, args, dem):
        st.ghost["cap"] = zi(norm(args[1]))
        return Out(st, None, fails(st, "_ZTISt9bad_alloc", "_ZTISt12length_error"))
    for n, h in (("vector", nop), ("~vector", nop), ("reserve", reserve), ("emplace_back", emplace), ("operator[]", at), ("at", at),
                 ("size", lambda e, s, a, dd: G(s, "nch")), ("empty", lambda e, s, a, dd: G(s, "nch") == 0),
                 ("back", lambda e, s, a, dd: at(e, s, [a[0], G(s, "nch") - 1], dd))):
        old = ex.models.get(V + n)

        def both(ex, st, args, dem, h=h, old=old):
            if local_type(dem):
                return h(ex, st, args, dem)
            return old(ex, st, args, dem) if old is not None else NotImplemented
        ex.models[V + n] = both
    ex.models.update({Q + "priority_queue": pq_ctor, Q + "~priority_queue": nop, Q + "push": push, Q + "top": top, Q + "pop": pop,
                      Q + "empty": empty, Q + "size": qsize})

    def cands(ex, ctx, H, mods, k):
        out = [lambda s, k: G(s, "posJ") == G(s, "pushJ"), lambda s, k: G(s, "pushJ") == G(s, "wJ") + G(s, "inqJ"),
               lambda s, k: G(s, "pushJ") <= SIZE(J), lambda s, k: z3.Implies(G(s, "inqJ") == 1, G(s, "qvalJ") == rd(G(s, "wJ"))),
               lambda s, k: z3.Implies(J < NCH, z3.Or(G(s, "inqJ") == 1, G(s, "pushJ") == SIZE(J))),
               lambda s, k: z3.Implies(z3.And(G(s, "inqJ") == 1, G(s, "any") == 1), z3.Not(order.lt(s.ghost["qvalJ"], s.ghost["last"]))),
               lambda s, k: G(s, "inqJ") == z3.If(k > J, 1, 0), lambda s, k: G(s, "remJ") == z3.If(k > J, 1, 0),
               lambda s, k: G(s, "wJ") == 0, lambda s, k: G(s, "any") == 0, lambda s, k: G(s, "nch") == k, lambda s, k: G(s, "qn") == k,
               lambda s, k: z3.Or(G(s, "inqJ") == 0, G(s, "inqJ") == 1), lambda s, k: G(s, "nch") <= NCH,
               lambda s, k: G(s, "pushJ") == G(s, "inqJ"), lambda s, k: z3.Or(G(s, "any") == 0, G(s, "any") == 1)]
        out += appm.step_cands(ctx, mods, H)
        return out
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, rf"^merge_sorted_chunks_{kind}\b")
    out = ex.run_fn(m, f, [vec, outp], st)
    s = out.st
    st = s
    if cst(s, "has") == 2:
        owed(s)
    ex.oblige(s, "a result is written and complete", z3.And(G(s, "made") == 1, G(s, "settled") == 1))
    ex.oblige(s, "every record of every chunk is written", z3.Implies(J < NCH, G(s, "wJ") == SIZE(J)))
    ex.oblige(s, "every chunk file is removed", z3.Implies(J < NCH, G(s, "remJ") == 1))
    for x in out.excs:
        ex.oblige(x, "only a failure makes it throw", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


def whole(ctx, kind):
    """the whole database is sorted into chunks and those are merged into the result, or the only one becomes the result"""
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"database<{kind}>::disksort")
    st = State()
    Order(ex, rec, N)
    st.ghost.update({"io": 0, "chunks": 0, "np": 0, "done": 0, "part": 0})
    appm.Texts(ex, lambda ex, st, os, v: None)
    lib.install_path(ex)
    lib.install_exceptions(ex)
    d = dbm.DBM(ctx, ex, st, kind)
    mem = ex.fresh(st, 64, "max_memory")
    G = lambda s, n: zi(s.ghost[n])

    def fails(st, *types):
        out = []
        for t in types:
            x = lib.fork_throw(ex, st, t)
            x.ghost["io"] = 1
            out.append(x)
        return out

    def filename(ex, st, args, dem):
        if dbm.find_db(ex, args[1], st) is not d:
            raise Unsupported("name of another database")
        appm.named_string(ex, st, args[0], "the db")

    def path_string(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if v is None:
            raise Unsupported("path")
        appm.named_string(ex, st, args[0], v)

    def into(ex, st, args, dem):
        vec, da, a, db, b, mm = args
        if dbm.find_db(ex, da, st) is not d or dbm.find_db(ex, db, st) is not d:
            raise Unsupported("another database")
        ex.oblige(st, "the whole database is sorted, once", z3.And(zi(norm(a)) == 0, zi(norm(b)) == d.D, G(st, "chunks") == 0))
        ex.oblige(st, "the memory limit is not above the one asked for", zi(norm(mm)) <= zi(norm(mem)))
        bad = fails(st, lib.FAILURE, dbm.RT, "_ZTISt9bad_alloc")
        n = ex.fresh(st, 64, "np")
        st.assume(z3.And(n < 1 << 40, (n == 0) == (d.D == 0), n <= d.D))
        names = ex.new_obj(st, "names", 32 * n, "heap", content=ArrC(32, Base("names", 256)))
        ex.names_obj = names
        for k, o in ((0, 0), (8, 32 * n), (16, 32 * n)):
            ex.store(st, ex.padd(vec, k), Ptr(names, o), PTR)
        st.ghost["chunks"], st.ghost["np"] = 1, n
        return Out(st, None, bad)

    def chunk_no(st, p):
        if isinstance(p, Ptr) and p.obj is getattr(ex, "names_obj", None):
            q = i_divexact(p.off, 32)
            if q is not None and q[1] == 0:
                return zi(q[0])
        v = appm.str_origin(ex, st, p)
        if isinstance(v, tuple) and v[0] == "chunk":
            return v[1]
        return None

    def path_ctor(ex, st, args, dem):
        n = chunk_no(st, args[1])
        v = ("chunk", n) if n is not None else appm.str_origin(ex, st, args[1])
        if v is None:
            raise Unsupported("path")
        appm.named_string(ex, st, args[0], v)

    def is_result(st, p):
        v = appm.str_origin(ex, st, p)
        if v is None or isinstance(v, tuple) and v[0] == "chunk":
            raise Unsupported("name of the result")
        ps = join(parts_of(v))
        if ps == [("db",)]:
            ex.oblige(st, "the input is not written to", z3.BoolVal(False))
            return repr(ps)
        if len(ps) != 2 or ps[0] != ("db",) or ps[1][0] != "lit" or not ps[1][1] or re.search(rb"[0-9/]$", bytes(ps[1][1]) if not isinstance(ps[1][1], str) else ps[1][1].encode()):
            raise Unsupported(f"name of the result {ps}")
        return repr(ps)

    def as_result(st, v, old=None):
        if st.ghost["part"] != 0 and st.ghost["part"] != v:
            raise Unsupported("two results")
        st.ghost["part"] = v

    def rename(ex, st, args, dem):
        n = chunk_no(st, args[0])
        v = is_result(st, args[1])
        if n is None:
            raise Unsupported("renames another file")
        bad = [] if "error_code&" in dem else fails(st, FSERR)
        ex.oblige(st, "the only chunk becomes the result", z3.And(G(st, "chunks") == 1, G(st, "np") == 1, n == 0, G(st, "done") == 0))
        st.ghost["done"] = 1
        as_result(st, v)
        if "error_code&" in dem:
            raise Unsupported("rename whose failure may be ignored")
        return Out(st, None, bad)

    def merged(ex, st, args, dem):
        b, e = ex.load(st, args[0], PTR), ex.load(st, ex.padd(args[0], 8), PTR)
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is getattr(ex, "names_obj", None) and e.obj is b.obj):
            raise Unsupported("names of the chunks")
        v = is_result(st, args[1])
        bad = fails(st, lib.FAILURE, FSERR, dbm.RT, "_ZTISt9bad_alloc")
        ex.oblige(st, "all chunks are merged, once", z3.And(G(st, "chunks") == 1, zi(b.off) == 0, zi(e.off) == 32 * G(st, "np"), G(st, "done") == 0))
        st.ghost["done"] = 1
        as_result(st, v)
        return Out(st, None, bad)
    P = "std::filesystem::__cxx11::path"
    S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
    D = r"flat_file::database<hibp::pawned_pw<\d+u> ?>::"
    VS = r"^std::vector<" + S + r", std::allocator<.*> ?>::"
    C = [(r"(^|> )flat_file::sort_into_chunks<", into), (r"(^|> |^void )flat_file::merge_sorted_chunks<", merged),
         (r"^" + D + r"filename", filename), (r"^" + P + r"::string(\[abi:cxx11\])?\(\) const", path_string),
         (r"^" + P + r"::path<std::", path_ctor), (r"^" + P + r"::path\(" + S, path_ctor), (r"^std::filesystem::rename\(", rename),
         (r"std::operator\+ ?<char, std::char_traits<char>", str_plus), (VS + r"~vector\(\)", nop)]
    ex.contracts = [(re.compile(r), h) for r, h in C] + ex.contracts
    m, f = ctx.find(ex, rf"^disksort_{kind}\b")
    ret = Ptr(ex.new_obj(st, "result", 32, content=CellC()), 0)
    out = ex.run_fn(m, f, [ret, d.this, mem], st)
    s = out.st
    ex.oblige(s, "the result is made", G(s, "done") == 1)
    v = appm.str_origin(ex, s, ret)
    if v is None or s.ghost["part"] in (0, "mixed"):
        raise Unsupported("name that is returned")
    ex.oblige(s, "the name returned is that of the result", z3.BoolVal(repr(join(parts_of(v))) == s.ghost["part"]))
    for x in out.excs:
        ex.oblige(x, "only a failure makes it throw", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


def sort_main(ctx):
    """the database named is sorted, as the kind of records and in the order asked for; every error ends in an error status"""
    ex = ctx.executor("main of hibp-sort")
    st = State()
    m = mains.Main(ctx, ex, st, {"input": "acc_cli_in"}, {"by_count": "acc_cli_by_count", "ntlm": "acc_cli_ntlm"}, {"memory": "acc_cli_mem"})
    o = m.opt
    st.assume(o["input"])
    st.ghost.update({"io": 0, "parsed": 0, "sorted": 0})
    kinds = ("sha1", "ntlm")
    D = {k: dbm.DBM(ctx, ex, st, k, file=f"FILE_{k}", name=f"db_{k}", place="main") for k in kinds}
    appm.Opens(ctx, ex, [(D[k], "input") for k in kinds])
    appm.Texts(ex, lambda *a: None)
    lib.install_exceptions(ex)

    def disksort(ex, st, args, dem):
        ta = type_args(dem, "disksort")
        kind = {"20": "sha1", "16": "ntlm"}.get(re.search(r"database<hibp::pawned_pw<(\d+)u?> ?>::disksort", dem).group(1))
        if len(args) != 3 or len(ta) != 2 or kind is None:
            raise Unsupported("form of disksort")
        T, rec, N = dbm.KINDS[kind]
        d = dbm.find_db(ex, args[1], st)
        if d is None:
            raise Unsupported("database")
        ex.oblige(st, "the kind of records is the one asked for", z3.BoolVal(kind == "ntlm") == o["ntlm"])
        ex.oblige(st, "it is sorted once", zi(st.ghost["sorted"]) == 0)
        ex.oblige(st, "the memory limit is not above the one given", z3.Implies(o["memory"] < 1 << 40, zi(norm(args[2])) <= o["memory"] * 1024 * 1024))
        # the comparison that sort_into_chunks makes for this comparator and projection
        fns = appm.comparator_functions(ctx, ex, N, f"flat_file::sort_into_chunks<{T}, {ta[0]}, {ta[1]}>(")
        fns = [x for x in fns if "::operator()" in x[0].demangled.get(x[1], "")]
        if len(fns) != 1:
            raise Unsupported(f"comparator of disksort {len(fns)}")
        env, st.env = st.env, {}
        g = st.fork()
        a, va = dbm.sym_record(ex, g, rec, "a")
        b, vb = dbm.sym_record(ex, g, rec, "b")
        fo = ex.new_obj(g, "less", 64, content=CellC())
        for k in range(0, 64, 8):
            ex.store(g, Ptr(fo, k), Ptr(ex.new_obj(g, "empty", 1, content=CellC()), 0), PTR)
        out = ex.run_fn(*fns[0], [Ptr(fo, 0), a, b], g)
        if out.excs:
            raise Unsupported("comparator that throws")
        less = z3.ULT(dbm.key(va, N), dbm.key(vb, N))
        ca, cb = dbm.cnt(va, N), dbm.cnt(vb, N)
        ex.oblige(out.st, "the order is the one asked for", b_iff(out.val, z3.If(o["by_count"], z3.Or(ca > cb, z3.And(ca == cb, less)), less)))
        st.env = env
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, lib.FAILURE, FSERR)]
        for x in bad:
            x.ghost["io"] = 1
        st.ghost["sorted"] = 1
        appm.named_string(ex, st, args[0], "sorted")
        return Out(st, None, bad)
    ex.contracts.insert(0, (re.compile(r"flat_file::database<hibp::pawned_pw<\d+u?> ?>::disksort<"), disksort))
    argv = Ptr(ex.new_obj(st, "argv", 64, content=CellC()), 0)
    out = ex.run_fn(*ctx.find(ex, r"^app_main\(int"), [ex.fresh(st, 32, "argc"), argv], st)
    for x in out.excs:
        ex.oblige(x, "every error ends in an error status", z3.BoolVal(False))
    s = out.st
    code = zi(norm(out.val)) if not is_c(out.val) else z3.IntVal(out.val)
    parsed = zi(s.ghost["parsed"]) == 1
    ex.oblige(s, "an error ends in an error status", z3.Implies(z3.And(parsed, zi(s.ghost["io"]) == 1), code != 0))
    ex.oblige(s, "without an error the database is sorted", z3.Implies(z3.And(parsed, zi(s.ghost["io"]) == 0), z3.And(code == 0, zi(s.ghost["sorted"]) == 1)))
    ctx.cover(ex, s, "end")


TARGETS = [Target("main of hibp-sort", ["sort"], sort_main)] + \
          [Target(f"disksort<{k}>", ["sort"], whole, kind=k) for k in ("sha1", "ntlm")] + \
          [Target(f"sort_into_chunks<{k}>", ["sort"], chunks, kind=k) for k in ("sha1", "ntlm")] + \
          [Target(f"merge_sorted_chunks<{k}>", ["sort"], merge, kind=k) for k in ("sha1", "ntlm")]
