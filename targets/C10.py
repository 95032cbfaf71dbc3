"""C10: the top-N database."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import dbm, appm

UNITS = {"topn": ("/verif/harness/topn.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::partial_sort_copy: copies the first min(N, size) records of the input in the order of its comparator",
               "std::sort: arranges its range in ascending order without changing which records it holds",
               "flat_file::database, stream_writer, operator<=>: their contracts, proved in C04, C05, C01"]


def comparator(ctx, kind):
    """every comparison function handed to partial_sort_copy orders by count descending, then hash ascending"""
    T, rec, N = dbm.KINDS[kind]
    ex0 = ctx.executor(f"comparator<{kind}>")
    fns = appm.comparator_functions(ctx, ex0, N, "build_topn")
    if not fns:
        raise Unsupported("comparator of partial_sort_copy not found")
    for m, f in fns:
        ex = ctx.executor(f"comparator<{kind}>")
        st = State()
        d = dbm.DBM(ctx, ex, st, kind)
        a, va = dbm.sym_record(ex, st, rec, "a")
        b, vb = dbm.sym_record(ex, st, rec, "b")
        cmp = ex.new_obj(st, "cmp", 8, content=CellC())
        out = ex.run_fn(m, f, [Ptr(cmp, 0), a, b], st)
        ca, cb = dbm.cnt(va, N), dbm.cnt(vb, N)
        want = z3.Or(ca > cb, z3.And(ca == cb, z3.ULT(dbm.key(va, N), dbm.key(vb, N))))
        ex.oblige(out.st, "higher count first, ties by smaller hash", b_iff(out.val, want))
        ctx.cover(ex, out.st, "end")


def now(ex, st, args, dem):
    t = ex.fresh(st, 64, "now")
    st.assume(t < 1 << 62)
    return t


def build(ctx, kind, stdout):
    for zero in (False, True):
        build1(ctx, kind, stdout, zero)


def build1(ctx, kind, stdout, zero):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"build_topn<{kind}> to {'standard output' if stdout else 'a file'}")
    ex.alloc_stride = lambda e, n: rec
    st = State()
    d = dbm.DBM(ctx, ex, st, kind, place="build_topn")

    def acc(nm, *a):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}\b"), list(a), st).val
    cli = Ptr(ex.new_obj(st, "cli", acc("acc_cli_size"), content=CellC()), 0)
    appm.named_string(ex, st, acc("acc_cli_in", cli), "input")
    appm.named_string(ex, st, acc("acc_cli_out", cli), "output")
    topn = z3.IntVal(0) if zero else ex.fresh(st, 64, "topn")
    st.assume(topn >= (0 if zero else 1))
    ex.store(st, acc("acc_cli_topn", cli), 0 if zero else topn, IntT(64))
    ex.store(st, acc("acc_cli_stdout", cli), 1 if stdout else 0, IntT(8))
    ex.store(st, acc("acc_cli_force", cli), z3.ZeroExt(7, z3.BitVec("force", 1)), IntT(8))
    st.ghost["io"] = 0
    appm.Opens(ctx, ex, [(d, "input")])
    TOP, SORTED = Base("TOP", 8 * rec), Base("SORTED", 8 * rec)

    def throws(ex, st, ty):
        s = lib.fork_throw(ex, st, ty)
        s.ghost["io"] = 1
        return s

    def psc(ex, st, args, dem):
        p0, i0, p1, i1, rf, rl = args[:6]
        if dbm.find_db(ex, p0) is not d or dbm.find_db(ex, p1) is not d:
            raise Unsupported("partial_sort_copy from something else")
        ex.oblige(st, "the selection looks at the whole database", z3.And(zi(norm(i0)) == 0, zi(norm(i1)) == d.D))
        if not isinstance(rf, Ptr) or not isinstance(rl, Ptr) or rf.obj is not rl.obj:
            raise Unsupported("destination of partial_sort_copy")
        R = lib.divx(i_sub(rl.off, rf.off), rec)
        if rf.obj is None and is_c(R) and R == 0:
            return Out(st, rf, [throws(ex, st, lib.FAILURE)])
        cnt = z3.If(zi(R) <= d.D, zi(R), d.D)
        c = ex.content(st, rf.obj)
        if not isinstance(c, ArrC) or c.stride != rec:
            raise Unsupported("destination of partial_sort_copy")
        st.mem[rf.obj.id] = ArrC(rec, CopyN(c.node, lib.divx(rf.off, rec), cnt, TOP, 0))
        return Out(st, ex.padd(rf, i_scale(cnt, rec)), [throws(ex, st, lib.FAILURE)])

    def sort(ex, st, args, dem):
        if len(args) != 2:
            raise Unsupported("std::sort with a comparator")
        f, l = args
        if not isinstance(f, Ptr) or not isinstance(l, Ptr) or f.obj is not l.obj:
            raise Unsupported("range of std::sort")
        cnt = lib.divx(i_sub(l.off, f.off), rec)
        if f.obj is None and is_c(cnt) and cnt == 0:
            ex.oblige(st, "exactly the selected records are sorted", topn == 0)
            return Out(st, None, [])
        if f.obj is None:
            raise Unsupported("range of std::sort")
        c = ex.content(st, f.obj)
        if not isinstance(c, ArrC) or c.stride != rec:
            raise Unsupported("range of std::sort")
        lo = lib.divx(f.off, rec)
        K = z3.Int("K")
        ex.oblige(st, "exactly the selected records are sorted",
                  z3.And(zi(cnt) == topn, z3.Implies(z3.And(K >= 0, K < topn),
                                                     to_bv(c.node.read(i_add(lo, K), ex), 8 * rec) == TOP.read(K, ex))))
        st.mem[f.obj.id] = ArrC(rec, CopyN(c.node, lo, cnt, SORTED, 0))
        return Out(st, None, [])
    ex.contracts += [(re.compile(r"^_ZSt17partial_sort_copyI|std::partial_sort_copy<"), psc),
                     (re.compile(r"^_ZSt4sortI|^void std::sort<"), sort)]

    # output
    def get_output_stream(ex, st, args, dem):
        ret, name, force = args
        ex.oblige(st, "the output stream is the file that was named", z3.BoolVal(appm.str_origin(ex, st, name) == "output"))
        st.ghost[f"ofs:{ret.obj.id}"] = "output"
        return Out(st, None, [throws(ex, st, dbm.RT), throws(ex, st, lib.FAILURE)])

    def ofs_move(ex, st, args, dem):
        st.ghost[f"ofs:{args[0].obj.id}"] = st.ghost.get(f"ofs:{args[1].obj.id}", "closed")
        return args[0]
    ex.contracts += [(re.compile(r"^get_output_stream\("), get_output_stream),
                     (re.compile(r"^std::basic_ofstream<char, std::char_traits<char> ?>::operator=\(|^std::ofstream::operator=\("), ofs_move),
                     (re.compile(r"^std::basic_ofstream<char, std::char_traits<char> ?>::(~?basic_ofstream)\(\)"), nop)]

    def on_open(ex, st, os):
        if appm.global_named(os, "_ZSt4cout"):
            where = "stdout"
        elif isinstance(os, Ptr) and os.obj is not None and is_c(os.off):
            where = st.ghost.get(f"ofs:{os.obj.id}", "unknown")
        else:
            raise Unsupported("output stream")
        ex.oblige(st, "records go to the output that was asked for", z3.BoolVal(where == ("stdout" if stdout else "output")))
        return where
    st.ghost["written"] = 0

    def on_record(ex, st, where, v):
        n = st.ghost["written"]
        ex.oblige(st, "the next record of the selection in hash order is written, with its count", SORTED.read(zi(n), ex) == v)
        st.ghost["written"] = i_add(n, 1)
    appm.Writers(ex, on_record, on_open)

    def on_text(ex, st, os, v):
        if stdout:
            ex.oblige(st, "nothing but records is written to standard output", z3.BoolVal(not appm.global_named(os, "_ZSt4cout")))
    appm.Texts(ex, on_text)
    ex.models["std::chrono::_V2::system_clock::now"] = now

    m, f = ctx.find(ex, rf"^(void )?build_topn<hibp::pawned_pw<{N}u|^_Z10build_topnI.*pawned_pwILj{N}E")
    out = ex.run_fn(m, f, [cli], st)
    ex.oblige(out.st, "a result is only given for N below the number of records", topn < d.D)
    ex.oblige(out.st, "exactly N records are written", zi(out.st.ghost["written"]) == topn)
    for x in out.excs:
        ex.oblige(x, "an error is only reported for a failing file or N not below the number of records",
                  z3.Or(zi(x.ghost["io"]) == 1, topn >= d.D))
    ctx.cover(ex, out.st, "end")


TARGETS = [Target(f"build_topn<{k}> to {'standard output' if so else 'a file'}", ["topn"], build, kind=k, stdout=so)
           for k in dbm.KINDS for so in (False, True)] + \
    [Target(f"comparator of build_topn<{k}>", ["topn"], comparator, kind=k) for k in dbm.KINDS]
