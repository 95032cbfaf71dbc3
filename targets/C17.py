"""C17: the duplicate finder reports exactly the records that agree with the record before in the leading bits."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from . import dbm, appm, mains

UNITS = {"dupes": ("/verif/harness/dupes.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["flat_file::database: its contracts, proved in C04; pawned_pw::to_string: its contract, proved in C02",
               "fmt::format substitutes the arguments it is given for the fields of its format text, and operator<< writes the text"]
LINE = re.compile(r"^\{:016X\} [^{}]*\{\}[^{}]*\n$")


def run_search(ctx, kind):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"run_search<{kind}>")
    st = State()
    d = dbm.DBM(ctx, ex, st, kind, place="run_search")
    cli = ex.new_obj(st, "cli", 64, content=CellC())
    appm.named_string(ex, st, Ptr(cli, 0), "db")
    bits = z3.BitVec("bits", 32)
    st.assume(z3.And(z3.UGE(bits, 32), z3.ULE(bits, 64)))     # what the option's range check enforces
    pb = ex.run_fn(*ctx.find(ex, r"^acc_cli_bits\("), [Ptr(cli, 0)], st).val
    ex.store(st, pb, bits, IntT(32))
    appm.Opens(ctx, ex, [(d, "db")])

    def pfx(i):
        return z3.LShR(z3.Extract(8 * N - 1, 8 * N - 64, d.key(i)), z3.ZeroExt(32, z3.BitVecVal(64, 32) - bits))
    seq = appm.Seq(ex, "dupes", lambda i: z3.And(i >= 1, pfx(i) == pfx(i - 1)), lambda i: z3.Concat(pfx(i), d.at(i)))
    seq.start(st)

    def on_text(ex, st, os, v):
        if isinstance(v, appm.Fmt) and any(t == 13 and isinstance(a, tuple) and a[0] == "rec" for t, a in v.args):
            if not LINE.match(v.text) or len(v.args) != 2 or v.args[0][0] not in (3, 4):
                raise Unsupported(f"report line {v.text!r}")
            if not (isinstance(os, Ptr) and os.obj is not None and os.obj.name.endswith("_ZSt4cout")):
                raise Unsupported("report line not on standard output")
            seq.emit(st, z3.Concat(to_bv(v.args[0][1], 64), v.args[1][1][1]),
                     "the line reports the next record that agrees with the one before, and its prefix")
        elif isinstance(v, tuple) or v is None:
            raise Unsupported("record or unknown text printed in another way")
    appm.Texts(ex, on_text)

    def cands(ex, ctx_, H, mods, k):
        return appm.seq_cands(seq, mods, H) + appm.cell_cands(ex, ctx_, H, mods, {
            8: [lambda v, kk: z3.Implies(kk >= 1, to_bv(v, 64) == pfx(kk - 1))],
            1: [appm.flag_cands, appm.nflag_cands]})
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, rf"^(void )?run_search<hibp::pawned_pw<{N}u|^_Z10run_searchI.*pawned_pwILj{N}E")
    out = ex.run_fn(m, f, [Ptr(cli, 0)], st)
    seq.done(out.st, d.D, "every record that agrees with the one before is reported")
    for x in out.excs:
        ex.oblige(x, "only a file that cannot be opened or read makes it throw", x.exc[0] in (lib.FAILURE, dbm.RT))
    ctx.cover(ex, out.st, "end")


TARGETS = [Target(f"run_search<{k}>", ["dupes"], run_search, kind=k) for k in ("sha1", "ntlm")]
TARGETS.append(Target("main of hibp-dupes", ["dupes"], mains.reading_main, tool="dupes"))
