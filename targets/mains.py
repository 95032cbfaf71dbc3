"""the main() functions of the tools that write files, over a contract for the command-line parser: which options stop the
tool, and which files it touches in what order."""
import re
import z3
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import dbm, appm

PARSE_ERROR = "_ZTIN3CLI10ParseErrorE"


def flag(st, name):
    return z3.BitVec(name, 1)


class Main:
    """strings / bools / numbers: option name -> accessor of the field; fixed: options whose value does not vary"""

    def __init__(self, ctx, ex, st, strings, bools, numbers):
        self.ctx, self.ex = ctx, ex
        self.opt = {}
        self.cli = None
        self.strings, self.bools, self.numbers = strings, bools, numbers
        C = [(r"^CLI::App::App\(", nop), (r"^CLI::App::~App\(", nop), (r"^define_options\(CLI::App&", self.define),
             (r"^CLI::App::parse\(int", self.parse), (r"^CLI::App::exit\(", self.exit),
             (r"^std::runtime_error::runtime_error\(", nop)]
        ex.contracts += [(re.compile(r), h) for r, h in C]
        for nm in strings:
            self.opt[nm] = z3.Bool(f"given({nm})")
        for nm in bools:
            self.opt[nm] = z3.Bool(f"option({nm})")
        for nm in numbers:
            self.opt[nm] = ex.fresh(st, 64, nm)

    def acc(self, st, nm, *a):
        return self.ex.run_fn(*self.ctx.find(self.ex, rf"^{nm}\b"), list(a), st).val

    def define(self, ex, st, args, dem):
        self.cli = args[1]
        return None

    def parse(self, ex, st, args, dem):
        """any combination of options, or a command line that is refused"""
        if self.cli is None:
            raise Unsupported("options are defined elsewhere")
        bad = lib.fork_throw(ex, st, PARSE_ERROR)
        bad.ghost["parsed"] = 0
        st.ghost["parsed"] = 1
        env = st.env
        for nm, a in self.strings.items():
            p = self.acc(st, a, self.cli)
            n = ex.fresh(st, 64, nm + ".len")
            st.assume(z3.And(n < 1 << 40, (n >= 1) == self.opt[nm]))
            o = appm.str_new(ex, st, p, n, Base(fresh_name(nm), 8), nm)
            appm.tag(st, o, nm)
        for nm, a in self.bools.items():
            ex.store(st, self.acc(st, a, self.cli), z3.If(self.opt[nm], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), IntT(8))
        for nm, a in self.numbers.items():
            ex.store(st, self.acc(st, a, self.cli), self.opt[nm], IntT(64))
        st.env = env
        return Out(st, None, [bad])

    def exit(self, ex, st, args, dem):
        return ex.fresh(st, 32, "cli.exit")


def work(m, name, refused, opts=None):
    """contract of the function that does the work: it may only be reached with options that go together"""
    def h(ex, st, args, dem):
        ex.oblige(st, "contradictory options are refused before any file is touched", z3.Not(refused))
        if opts is not None:
            opts(ex, st, args, dem)
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, lib.FAILURE)]
        for b in bad + [st]:
            b.ghost["touched"] = 1
        for b in bad:
            b.ghost["io"] = 1
        return Out(st, None, bad)
    return h


def finish(ex, out, refused, exists=None):
    s = out.st
    if out.excs:
        for x in out.excs:
            ex.oblige(x, "every error ends in an error status", z3.BoolVal(False))
    code = zi(norm(out.val)) if not is_c(out.val) else z3.IntVal(out.val)
    ok = z3.And(zi(s.ghost["parsed"]) == 1, z3.Not(refused), zi(s.ghost["io"]) == 0)
    if exists is not None:
        ok = z3.And(ok, z3.Not(exists))
        ex.oblige(s, "a run that would overwrite an existing file ends with an error", z3.Implies(
            z3.And(zi(s.ghost["parsed"]) == 1, exists), z3.And(code != 0, zi(s.ghost["touched"]) == 0)))
    ex.oblige(s, "contradictory options end with an error", z3.Implies(
        z3.And(zi(s.ghost["parsed"]) == 1, refused), z3.And(code != 0, zi(s.ghost["touched"]) == 0)))
    ex.oblige(s, "an error ends in an error status", z3.Implies(z3.And(zi(s.ghost["parsed"]) == 1, zi(s.ghost["io"]) == 1), code != 0))
    ex.oblige(s, "options that go together are not refused", z3.Implies(ok, z3.And(code == 0, zi(s.ghost["touched"]) == 1)))


def convert_main(ctx):
    ex = ctx.executor("main of hibp-convert")
    st = State()
    m = Main(ctx, ex, st, {"output": "acc_cli_out", "input": "acc_cli_in"},
             {"force": "acc_cli_force", "stdin": "acc_cli_stdin", "stdout": "acc_cli_stdout", "ntlm": "acc_cli_ntlm",
              "t2b": "acc_cli_t2b", "b2t": "acc_cli_b2t"}, {"limit": "acc_cli_limit"})
    o = m.opt
    refused = z3.Or(o["t2b"] == o["b2t"], o["input"] == o["stdin"], o["output"] == o["stdout"], z3.And(o["b2t"], o["stdin"]))
    st.ghost.update({"touched": 0, "io": 0, "parsed": 0})
    appm.Texts(ex, lambda *a: None)
    lib.install_exceptions(ex)
    ex.contracts.append((re.compile(r"^convert\("), work(m, "convert", refused)))
    run(ctx, ex, st, refused)


def topn_main(ctx):
    ex = ctx.executor("main of hibp-topn")
    st = State()
    m = Main(ctx, ex, st, {"output": "acc_cli_out", "input": "acc_cli_in"},
             {"force": "acc_cli_force", "stdout": "acc_cli_stdout", "ntlm": "acc_cli_ntlm", "sha1t64": "acc_cli_t64"},
             {"topn": "acc_cli_topn"})
    o = m.opt
    refused = z3.Or(o["output"] == o["stdout"], z3.And(o["ntlm"], o["sha1t64"]))
    st.ghost.update({"touched": 0, "io": 0, "parsed": 0})
    appm.Texts(ex, lambda *a: None)
    lib.install_exceptions(ex)

    def kind(ex, st, args, dem):
        n = int(re.search(r"pawned_pwILj(\d+)E|pawned_pw<(\d+)u", dem).group(1) or re.search(r"pawned_pw<(\d+)u", dem).group(1))
        ex.oblige(st, "the kind of records is the one asked for",
                  {16: o["ntlm"], 8: o["sha1t64"], 20: z3.Not(z3.Or(o["ntlm"], o["sha1t64"]))}[n])
    ex.contracts.append((re.compile(r"^void build_topn<|^_Z10build_topnI"), work(m, "build_topn", refused, kind)))
    run(ctx, ex, st, refused)


def run(ctx, ex, st, refused, exists=None):
    argv = Ptr(ex.new_obj(st, "argv", 64, content=CellC()), 0)
    m, f = ctx.find(ex, r"^app_main\(int")
    out = ex.run_fn(m, f, [ex.fresh(st, 32, "argc"), argv], st)
    finish(ex, out, refused, exists)
    ctx.cover(ex, out.st, "end")


def output_stream(ctx, app):
    """get_output_stream: gives a stream on the named file, and only on a new file unless overwriting was asked for"""
    ex = ctx.executor(f"get_output_stream of hibp-{app}")
    st = State()
    st.ghost.update({"io": 0, "created": 0})
    force = z3.BitVec("force", 1)

    def on_create(ex, st, nm, mode):
        ex.oblige(st, "the only file that is created is the output that was named", z3.BoolVal(nm == "output"))
        ex.oblige(st, "an existing file is only overwritten when that was asked for", z3.Or(force == 1, z3.Not(streams.exists_fact("output"))))
        st.ghost["created"] = 1
    streams = appm.Streams(ex, st, on_create)
    appm.Texts(ex, lambda *a: None)
    appm.Opens(ctx, ex, [])
    ex.contracts.append((re.compile(r"^std::runtime_error::runtime_error\("), nop))
    nm = Ptr(ex.new_obj(st, "output", 32, content=CellC()), 0)
    appm.named_string(ex, st, nm, "output")
    ret = Ptr(ex.new_obj(st, "ofstream", 512, content=CellC()), 0)
    m, f = ctx.find(ex, r"^get_output_stream\(")
    out = ex.run_fn(m, f, [ret, nm, force == 1], st)
    s = out.st
    ex.oblige(s, "the stream is the one of the output that was named", z3.BoolVal(s.ghost.get(f"stream:{ret.obj.id}") == "output"))
    ex.oblige(s, "the stream has not failed", zi(s.ghost[f"bad:{ret.obj.id}"]) == 0)
    for x in out.excs:
        ex.oblige(x, "an error is only reported for a failing file or an output that exists", z3.Or(
            zi(x.ghost["io"]) == 1, z3.And(force == 0, streams.exists_fact("output"), zi(x.ghost["created"]) == 0)))
    ctx.cover(ex, s, "end")


FILES = ("the only file that is created", "an existing file is only overwritten", "the output starts out empty")


def only_files(fn):
    """the target with nothing but the obligations about the files it creates"""
    def run(ctx, **kw):
        try:
            fn(ctx, **kw)
        finally:
            for ex in ctx.exs:
                ex.obs = [o for o in ex.obs if o.name.startswith(FILES)]
                ex.folded = 0
    return run


def download_main(ctx, prop):
    """main of hibp-download.  prop C18: options and files; prop C15: where a resumed download continues"""
    ex = ctx.executor("main of hibp-download")
    st = State()
    m = Main(ctx, ex, st, {"output": "acc_cli_out"},
             {"force": "acc_cli_force", "resume": "acc_cli_resume", "txt": "acc_cli_txt", "ntlm": "acc_cli_ntlm",
              "sha1t64": "acc_cli_t64", "testing": "acc_cli_testing"}, {"limit": "acc_cli_limit", "parallel": "acc_cli_parallel"})
    o = m.opt
    st.assume(o["output"])          # required by the parser
    refused = z3.Or(z3.And(o["txt"], o["resume"]), z3.And(o["force"], o["resume"]), z3.And(o["ntlm"], o["sha1t64"]), o["parallel"] == 0)
    st.ghost.update({"touched": 0, "io": 0, "parsed": 0, "trimmed": 0, "opened": 0, "ran": 0, "nothing": 0, "pushed": 1, "synced": 1, "written": 0})
    last = z3.Int("last")

    def touch(st, what):
        st.ghost["touched"] = 1
        if prop == "C18":
            ex.oblige(st, "contradictory options are refused before any file is touched", z3.Not(refused))

    def kind_of(dem):
        return int(re.search(r"pawned_pwILj(\d+)E|pawned_pw<(\d+)u", dem).group(1) or re.search(r"pawned_pw<(\d+)u", dem).group(1))

    def right_kind(st, n):
        ex.oblige(st, "the kind of records is the one asked for",
                  {16: o["ntlm"], 8: o["sha1t64"], 20: z3.Not(z3.Or(o["ntlm"], o["sha1t64"]))}[n])

    def last_prefix(ex, st, args, dem):
        """trims the file to whole ranges and gives the last one, or an error"""
        if appm.str_origin(ex, st, args[0]) != "output":
            raise Unsupported("resume of another file")
        touch(st, "trim")
        if prop == "C18":
            ex.oblige(st, "the existing file is only changed when resuming was asked for", o["resume"])
        if prop == "C15":
            right_kind(st, kind_of(dem))
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        st.assume(z3.And(last >= 0, last < 1 << 40))
        st.ghost["trimmed"] = 1
        return Out(st, last, [bad])
    ex.contracts.append((re.compile(r"^(unsigned long )?hibp::dnl::get_last_prefix<|^_ZN4hibp3dnl15get_last_prefixI"), last_prefix))

    def on_create(ex, st, nm, mode):
        touch(st, "open")
        ex.oblige(st, "the only file that is opened for writing is the output that was named", z3.BoolVal(nm == "output"))
        trunc = z3.BoolVal(not mode & 1 and (not mode & 8 or bool(mode & 32))) if is_c(mode) else z3.And(
            to_bv(mode, 32) & 1 == 0, z3.Or(to_bv(mode, 32) & 8 == 0, to_bv(mode, 32) & 32 != 0))
        if prop == "C18":
            ex.oblige(st, "an existing file is only overwritten when that was asked for",
                      z3.Or(o["force"], z3.Not(trunc), z3.Not(streams.exists_fact("output"))))
            ex.oblige(st, "an existing file is only added to when resuming was asked for",
                      z3.Or(o["force"], o["resume"], z3.Not(streams.exists_fact("output"))))
        else:
            ex.oblige(st, "a resumed download adds to the file", z3.Implies(o["resume"], z3.And(
                z3.Not(trunc), (to_bv(mode, 32) if not is_c(mode) else z3.BitVecVal(mode, 32)) & 1 != 0, zi(st.ghost["trimmed"]) == 1)))
            ex.oblige(st, "a new download starts with an empty file", z3.Implies(z3.Not(o["resume"]), trunc))
        st.ghost["opened"] = 1
    streams = appm.Streams(ex, st, on_create)

    def on_text(ex, st, os, v):
        if prop != "C13" or streams.name(st, os) != "output":
            return
        if "toks" not in st.ghost:
            raise Unsupported("text on the output")
        t = ("line",) if v == "LINE" else ("text", v) if isinstance(v, str) else None
        if t is None:
            raise Unsupported("text on the output")
        st.ghost["toks"] = appm.Boxed(st.ghost["toks"].v + (t,))
    appm.Texts(ex, on_text)
    appm.Opens(ctx, ex, [])

    def on_open(ex, st, os):
        if prop == "C15":
            ex.oblige(st, "records go to the output that was named", z3.BoolVal(streams.name(st, os) == "output"))
        return "output"
    w = appm.Writers(ex, lambda *a: None, on_open)
    ctor = w.ctor

    def ctor_kind(ex, st, args, dem):
        if prop == "C15":
            right_kind(st, kind_of(dem))
        return ctor(ex, st, args, dem)
    ex.contracts.insert(0, (re.compile(r"^flat_file::stream_writer<hibp::pawned_pw<(\d+)u> ?>::stream_writer\(std::(ostream|basic_ostream<[^&]*)&, unsigned long\)"), ctor_kind))

    def handed(ex, st, fn):
        """what the function given to run() does with a line"""
        s = st.fork()
        line = Ptr(ex.new_obj(s, "line", 32, content=CellC()), 0)
        appm.named_string(ex, s, line, "LINE")
        s.ghost["toks"] = appm.Boxed(())
        s.ghost["linep"] = appm.Boxed(line)
        inv = ex.load(s, ex.padd(fn, 24), PTR)
        if not isinstance(inv, FnPtr):
            raise Unsupported("function handed to run()")
        env = st.env
        mm = next(m for m in ex.modules if m.has_fn(inv.name))
        out = ex.run_fn(mm, inv.name, [fn, line], s)
        want = (("line",), ("text", "\n"))
        t = out.st.ghost["toks"].v
        ex.oblige(out.st, "every line is written once, as it is, as a record or with a line end", z3.Or(
            z3.And(o["txt"], z3.BoolVal(t == want)), z3.And(z3.Not(o["txt"]), z3.BoolVal(t == (("record",),)))))
        for x in out.excs:
            ex.oblige(x, "a line is only refused when it is malformed or the file fails", z3.Or(zi(x.ghost["io"]) == 1, BAD))
        st.env = env
        st.ghost["pushed"], st.ghost["synced"] = 0, 0

    BAD = z3.Bool("malformed")
    SPELLED = z3.Function("SPELLED", z3.IntSort(), z3.BitVecSort(192))
    if prop == "C13":
        def line_record(ex, st, args, dem):
            n = int(re.search(r"pawned_pw<(\d+)u", dem).group(1)) + 4
            if appm.str_origin(ex, st, args[1]) != "LINE":
                raise Unsupported("record made from another text")
            right_kind(st, n - 4)
            bad = lib.fork_throw(ex, st, dbm.RT, BAD)
            st.assume(z3.Not(BAD))
            ex.store(st, args[0], z3.Extract(8 * n - 1, 0, SPELLED(n)), IntT(8 * n))
            return Out(st, None, [bad])
        ex.contracts.append((re.compile(r"^hibp::pawned_pw<\d+u>::pawned_pw\(std::(__cxx11::basic_string<|basic_string_view<)"), line_record))

        def on_record(ex, st, where, v):
            if "toks" not in st.ghost:
                raise Unsupported("record written outside a line handler")
            ex.oblige(st, "the record is the one that the line spells", v == z3.Extract(v.size() - 1, 0, SPELLED(v.size() // 8)))
            st.ghost["toks"] = appm.Boxed(st.ghost["toks"].v + (("record",),))
        w.on = on_record

        def os_write(ex, st, args, dem):
            if streams.name(st, args[0]) != "output" or "toks" not in st.ghost:
                raise Unsupported("write to a stream")
            p, n = args[1], norm(args[2])
            t = None
            if is_c(n):
                t = ("text", appm.literal(ex, st, p, n))
            elif isinstance(p, Ptr) and appm.origin(ex, st, p) == "LINE":
                ex.oblige(st, "the whole line is written", z3.And(zi(p.off) == 0, zi(n) == zi(ex.load(st, ex.padd(st.ghost["linep"].v, 8), IntT(64)))))
                t = ("line",)
            if t is None or t[-1] is None:
                raise Unsupported("bytes written to a stream")
            bad = lib.fork_throw(ex, st, lib.FAILURE)
            bad.ghost["io"] = 1
            st.ghost["toks"] = appm.Boxed(st.ghost["toks"].v + (t,))
            return Out(st, args[0], [bad])
        ex.contracts.append((re.compile(r"^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::write\("), os_write))

    def run_(ex, st, args, dem):
        start, testing = args[-2], args[-1]
        ex.oblige(st, "the output is open before the download starts", zi(st.ghost["opened"]) == 1)
        if prop == "C15":
            ex.oblige(st, "the download starts at range 0, or at the range behind the last one of the file",
                      zi(norm(start)) == z3.If(o["resume"], last + 1, z3.IntVal(0)))
            ex.oblige(st, "the ranges come from the service that was asked for", (zb(testing) if not z3.is_bv(testing) else testing & 1 != 0) == o["testing"])
        st.ghost["ran"] = 1
        if prop == "C13":
            handed(ex, st, args[0])
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        return Out(st, None, [bad])
    ex.contracts.append((re.compile(r"^hibp::dnl::run\(std::function<"), run_))

    argv = Ptr(ex.new_obj(st, "argv", 64, content=CellC()), 0)
    mm, f = ctx.find(ex, r"^app_main\(int")
    out = ex.run_fn(mm, f, [ex.fresh(st, 32, "argc"), argv], st)
    s = out.st
    for x in out.excs:
        ex.oblige(x, "every error ends in an error status", z3.BoolVal(False))
    code = zi(norm(out.val))
    g = lambda n: zi(s.ghost[n])
    parsed, io, touched, ran = g("parsed") == 1, g("io") == 1, g("touched"), g("ran")
    if prop == "C18":
        stop = z3.Or(refused, z3.And(streams.exists_fact("output"), z3.Not(o["force"]), z3.Not(o["resume"])))
        ex.oblige(s, "a run that would overwrite, or has contradictory options, ends with an error and touches nothing",
                  z3.Implies(z3.And(parsed, stop), z3.And(code != 0, touched == 0)))
    else:
        stop = z3.Or(refused, z3.And(streams.exists_fact("output"), z3.Not(o["force"]), z3.Not(o["resume"])),
                     z3.And(o["resume"], o["limit"] <= last + 1))
        ex.oblige(s, "nothing is downloaded when the file has all the ranges already", z3.Implies(
            z3.And(parsed, o["resume"], g("trimmed") == 1, o["limit"] <= last + 1), z3.And(code != 0, ran == 0, g("opened") == 0)))
        ex.oblige(s, "otherwise the download is run", z3.Implies(z3.And(parsed, z3.Not(io), z3.Not(stop)), z3.And(code == 0, ran == 1)))
    if prop == "C13":
        bad = [zi(s.ghost["bad:" + k[7:]]) == 0 for k in s.ghost if k.startswith("stream:") and s.ghost[k] == "output"]
        ex.oblige(s, "a failing output is not passed over", z3.Implies(z3.And(parsed, ran == 1, code == 0), z3.And(
            *bad, z3.If(o["txt"], g("synced") == 1, g("pushed") == 1))))
    ex.oblige(s, "an error ends in an error status", z3.Implies(z3.And(parsed, io), code != 0))
    ctx.cover(ex, s, "end")


def tool_main(ctx, tool, strings, bools, worker, check, bits=False):
    """main of a tool that only reads: it does its work once, for the kind of records asked for, and an error in that ends in
    an error status"""
    ex = ctx.executor(f"main of hibp-{tool}")
    st = State()
    m = Main(ctx, ex, st, strings, bools, {})
    o = m.opt
    st.ghost.update({"io": 0, "parsed": 0, "done": 0})
    if bits:
        own = m.parse

        def parse(ex, st, args, dem):
            env = st.env
            ex.store(st, m.acc(st, "acc_cli_bits", m.cli), z3.BitVec("bits", 32), IntT(32))
            st.env = env
            return own(ex, st, args, dem)
        ex.contracts.insert(0, (re.compile(r"^CLI::App::parse\(int"), parse))
    lib.install_path(ex)
    lib.install_exceptions(ex)

    def path_ctor(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if v is None:
            raise Unsupported("path")
        appm.named_string(ex, st, args[0], v)
    P = r"^std::filesystem::__cxx11::path"
    ex.contracts = [(re.compile(P + r"::path<std::"), path_ctor), (re.compile(P + r"::path\(std::__cxx11::basic_string"), path_ctor)] + ex.contracts

    def work_(ex, st, args, dem):
        n = int(re.search(r"pawned_pwILj(\d+)E|pawned_pw<(\d+)u?>", dem).group(1) or re.search(r"pawned_pw<(\d+)u?>", dem).group(1))
        t64 = o.get("sha1t64", z3.BoolVal(False))
        ex.oblige(st, "the kind of records is the one asked for", z3.Implies(z3.Not(z3.And(o["ntlm"], t64)),
                  {16: o["ntlm"], 8: t64, 20: z3.Not(z3.Or(o["ntlm"], t64))}[n]))
        ex.oblige(st, "it is done once", zi(st.ghost["done"]) == 0)
        check(ex, st, args, m)
        ctx.cover(ex, st, "the work")       # where one of these does not hold, what comes after says nothing
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, lib.FAILURE, "_ZTISt9bad_alloc")]
        for b in bad:
            b.ghost["io"] = 1
        st.ghost["done"] = 1
        return Out(st, None, bad)
    ex.contracts.insert(0, (re.compile(worker), work_))
    appm.Texts(ex, lambda *a: None)
    argv = Ptr(ex.new_obj(st, "argv", 64, content=CellC()), 0)
    out = ex.run_fn(*ctx.find(ex, r"^app_main\(int"), [ex.fresh(st, 32, "argc"), argv], st)
    for x in out.excs:
        ex.oblige(x, "every error ends in an error status", z3.BoolVal(False))
    s = out.st
    code = zi(norm(out.val)) if not is_c(out.val) else z3.IntVal(out.val)
    ok = zi(s.ghost["parsed"]) == 1
    ex.oblige(s, "an error ends in an error status", z3.Implies(z3.And(ok, zi(s.ghost["io"]) == 1), code != 0))
    ex.oblige(s, "without an error the work is done", z3.Implies(z3.And(ok, zi(s.ghost["io"]) == 0), z3.And(code == 0, zi(s.ghost["done"]) == 1)))
    ctx.cover(ex, s, "end")


def same_text(ex, st, p, name, what):
    v = appm.str_origin(ex, st, p)
    if v is None:
        raise Unsupported("unknown text")
    ex.oblige(st, what, z3.BoolVal(v == name))


def search_main(ctx):
    def check(ex, st, args, m):
        if len(args) != 1 or not isinstance(args[0], Ptr) or args[0].obj is not m.cli.obj or not is_c(args[0].off) or args[0].off != m.cli.off:
            raise Unsupported("options that are handed on")
        env = st.env
        for nm, a in m.strings.items():
            same_text(ex, st, m.acc(st, a, m.cli), nm, "the options are handed on as they were given")
        for nm, a in m.bools.items():
            v = to_bv(ex.load(st, m.acc(st, a, m.cli), IntT(8)), 8)
            ex.oblige(st, "the options are handed on as they were given", (v != 0) == m.opt[nm])
        ex.oblige(st, "the options are handed on as they were given", to_bv(ex.load(st, m.acc(st, "acc_cli_bits", m.cli), IntT(32)), 32) == z3.BitVec("bits", 32))
        st.env = env
    S = {"search": ({"query": "acc_cli_query", "db": "acc_cli_in"}, {"toc": "acc_cli_toc", "hash": "acc_cli_hash", "ntlm": "acc_cli_ntlm", "sha1t64": "acc_cli_t64"}),
         "dupes": ({"db": "acc_cli_in"}, {"ntlm": "acc_cli_ntlm"})}
    tool = ctx.target.kw["tool"] if "tool" in ctx.target.kw else "search"
    tool_main(ctx, tool, *S[tool], r"^(void )?run_search<|^_Z10run_searchI", check, bits=True)


def reading_main(ctx, tool):
    search_main(ctx)


def diff_main(ctx):
    def check(ex, st, args, m):
        if len(args) != 3:
            raise Unsupported("arguments of run_diff")
        same_text(ex, st, args[0], "old", "the first database is the old one")
        same_text(ex, st, args[1], "new", "the second database is the new one")
        if not appm.global_named(args[2], "_ZSt4cout"):
            raise Unsupported("another stream")
    tool_main(ctx, "diff", {"old": "acc_cli_old", "new": "acc_cli_new"}, {"ntlm": "acc_cli_ntlm"},
              r"hibp::diffutils::run_diff<|^_ZN4hibp9diffutils8run_diffI", check)
