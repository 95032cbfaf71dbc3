"""C11: conversion between text and binary transfers every record in order and obeys its limit."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop, str_set
from . import dbm, appm

UNITS = {"convert": ("/verif/harness/convert.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::getline delivers the lines of its stream one by one, in order, until there is none left",
               "pawned_pw(std::string): a function of the text of the line, or an error (C02)",
               "flat_file::database and stream_writer: their contracts, proved in C04 and C05",
               "operator<< and flush: a failing stream says so when asked (operator!, operator bool, fail)"]


def convert(ctx, kind, mode, std_in, std_out):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"convert {mode} {kind} {'stdin' if std_in else 'file'} to {'stdout' if std_out else 'file'}")
    st = State()
    d = dbm.DBM(ctx, ex, st, kind, place="convert")

    def acc(nm, *a):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}\b"), list(a), st).val
    cli = Ptr(ex.new_obj(st, "cli", acc("acc_cli_size"), content=CellC()), 0)
    for nm, used, val in (("acc_cli_in", not std_in, "input"), ("acc_cli_out", not std_out, "output")):
        p = acc(nm, cli)
        appm.named_string(ex, st, p, val)
        n = ex.load(st, ex.padd(p, 8), IntT(64))
        st.assume(n >= 1 if used else n == 0)
    limit = ex.fresh(st, 64, "limit")
    ex.store(st, acc("acc_cli_limit", cli), limit, IntT(64))
    force = z3.BitVec("force", 1)
    ex.store(st, acc("acc_cli_force", cli), z3.ZeroExt(7, force), IntT(8))
    for nm, v in (("stdin", std_in), ("stdout", std_out), ("ntlm", kind == "ntlm"), ("t2b", mode == "t2b"), ("b2t", mode == "b2t")):
        ex.store(st, acc("acc_cli_" + nm, cli), 1 if v else 0, IntT(8))
    src, dst = "stdin" if std_in else "input", "stdout" if std_out else "output"
    st.ghost.update({"io": 0, "malformed": 0, "written": 0, "half": 0, "synced": 1, "pushed": 1, "lp": 0, "created": 0})

    def on_create(ex, st, nm, mode_):
        ex.oblige(st, "the only file that is created is the output that was named", z3.BoolVal(nm == "output" and not std_out))
        ex.oblige(st, "an existing file is only overwritten when that was asked for",
                  z3.Or(force == 1, z3.Not(streams.exists_fact("output"))))
        if not is_c(mode_):
            raise Unsupported("open mode")
        ex.oblige(st, "the output starts out empty", z3.BoolVal(not mode_ & 1 and (not mode_ & 8 or bool(mode_ & 32))))
        st.ghost["created"] = 1

    # ---- text lines
    L = ex.fresh(st, 64, "lines")
    st.assume(L < 1 << 50)
    P = z3.Function("P", z3.IntSort(), z3.BitVecSort(8 * rec))      # the record spelled by line i
    BAD = z3.Function("BAD", z3.IntSort(), z3.BoolSort())           # line i spells no record

    def on_getline(ex, st, nm, s):
        ex.oblige(st, "lines are taken from the input that was named", z3.BoolVal(nm == src and mode == "t2b"))
        lp = zi(st.ghost["lp"])
        ok = lp < L
        line = z3.If(ok, lp, ex.fresh(st, 64, "noline"))
        n = ex.fresh(st, 64, "line.len")
        st.assume(n < 1 << 40)
        node = Base(fresh_name("line"), 8)
        o = str_set(ex, st, s, n, node)
        o = appm.str_parts(ex, st, s)[0].obj
        appm.tag(st, o, ("line", line))
        st.ghost["lp"] = z3.If(ok, lp + 1, lp)
        return ok
    streams = appm.Streams(ex, st, on_create, on_getline)

    def pw_ctor(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if not (isinstance(v, tuple) and v[0] == "line"):
            raise Unsupported("record made from another text")
        bad = lib.fork_throw(ex, st, "_ZTISt13runtime_error", BAD(v[1]))
        bad.ghost["malformed"] = 1
        ex.oblige(bad, "only lines up to the limit are looked at", z3.And(v[1] < limit, v[1] < L))
        st.assume(z3.Not(BAD(v[1])))
        ex.store(st, args[0], P(v[1]), IntT(8 * rec))
        return Out(st, None, [bad])
    ex.contracts.append((re.compile(rf"^hibp::pawned_pw<{N}u>::pawned_pw\(std::(__cxx11::basic_string<|basic_string_view<)"), pw_ctor))

    def on_open(ex, st, os):
        ex.oblige(st, "records go to the output that was asked for", z3.BoolVal(streams.name(st, os) == dst))
        return dst

    def on_record(ex, st, where, v):
        n = zi(st.ghost["written"])
        ex.oblige(st, "the next record of the input is written", z3.And(P(n) == v, n < L, n < limit) if mode == "t2b" else z3.BoolVal(False))
        st.ghost["written"] = i_add(n, 1)
    appm.Writers(ex, on_record, on_open)
    appm.Opens(ctx, ex, [(d, "input")])

    # ---- text output
    def on_text(ex, st, os, v):
        nm = streams.name(st, os)
        if nm != dst:
            return
        if mode == "t2b":
            ex.oblige(st, "nothing but records is written to the output", z3.BoolVal(False))
        toks = []
        if isinstance(v, appm.Fmt):
            it = iter(v.args)
            for piece in re.split(r"(\{\})", v.text):
                toks.append(next(it)[1] if piece == "{}" else piece)
        else:
            toks = [v]
        for t in toks:
            if isinstance(t, tuple) and t[0] == "rec":
                n = zi(st.ghost["written"])
                ex.oblige(st, "the next record of the database is written, on a new line",
                          z3.And(zi(st.ghost["half"]) == 0, d.at(n) == t[1], n < d.D, n < limit))
                st.ghost["half"] = 1
            elif t == "\n":
                ex.oblige(st, "a line ends after a record", zi(st.ghost["half"]) == 1)
                st.ghost["half"] = 0
                st.ghost["written"] = i_add(st.ghost["written"], 1)
            elif t == "":
                continue
            else:
                raise Unsupported(f"text {t!r} on the output")
        st.ghost["synced"] = 0
    appm.Texts(ex, on_text)

    def cands(ex, ctx_, H, mods, k):
        out = appm.int_cands(mods, H, ["written", "lp"]) + appm.step_cands(ctx_, mods, H)
        for c, v in (("half", 0), ("half", 1), ("io", 0), ("malformed", 0)):
            out.append(lambda s, k, c=c, v=v: zi(s.ghost[c]) == v)
        out.append(lambda s, k: zi(s.ghost["written"]) <= limit)
        out.append(lambda s, k: zi(s.ghost["written"]) <= (L if mode == "t2b" else d.D))
        out.append(lambda s, k: zi(s.ghost["lp"]) <= L)
        out.append(lambda s, k: zi(s.ghost["lp"]) == z3.If(k <= L, k, L))
        return out
    ex.cand_gens.append(cands)

    m, f = ctx.find(ex, r"^(void )?convert\(")
    out = ex.run_fn(m, f, [cli], st)
    s = out.st
    total = L if mode == "t2b" else d.D
    ex.oblige(s, "exactly the first limit records are converted, or all if there are fewer",
              zi(s.ghost["written"]) == z3.If(limit < total, limit, total))
    ex.oblige(s, "the last line is complete", zi(s.ghost["half"]) == 0)
    if mode == "b2t":
        b = [k for k in s.ghost if k.startswith("stream:") and s.ghost[k] == dst]
        ex.oblige(s, "a failing output is not passed over", z3.And(
            zi(s.ghost["synced"]) == 1, *[zi(s.ghost["bad:" + k[7:]]) == 0 for k in b]))
    else:
        ex.oblige(s, "a failing output is not passed over", zi(s.ghost["pushed"]) == 1)
    ex.oblige(s, "no malformed line was passed over", zi(s.ghost["malformed"]) == 0)
    for x in out.excs:
        ex.oblige(x, "an error is only reported for a failing file, a malformed line or an output that exists", z3.Or(
            zi(x.ghost["io"]) == 1, zi(x.ghost["malformed"]) == 1,
            z3.And(force == 0, z3.BoolVal(not std_out), streams.exists_fact("output"), zi(x.ghost["created"]) == 0)))
    ctx.cover(ex, s, "end")


TARGETS = [Target(f"convert<{k}> {m}, {'standard input' if si else 'a file'} to {'standard output' if so else 'a file'}",
                  ["convert"], convert, kind=k, mode=m, std_in=si, std_out=so)
           for k in ("sha1", "ntlm") for m in ("t2b", "b2t") for si in (False, True) for so in (False, True)
           if not (m == "b2t" and si)]
