"""C15: resuming an interrupted download."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop, str_parts, view_node
from . import mains, appm, dbm, glue

UNITS = {"requests": ("/verif/harness/requests.cpp", ["-I/verif/harness"], "c++"),
         "download": ("/verif/harness/download.cpp", ["-I/verif/harness"], "c++"),
         "resume": ("/verif/harness/resume.cpp", ["-I/verif/harness", "-DNO_WRITER"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::filesystem::file_size and resize_file report and set the length of the named file, or throw",
               "std::string: substr, find_last_of, operator+ and operator== as documented; std::from_chars reads a number in base 16",
               "std::find returns the first equal element in iteration order, or the end",
               "the server's answer for a range consists of lines, each a hash without its first five digits, ':' and a count (as C14 hands them on)",
               "record text and parsing as proved in C02, reading records as proved in C04"]
STR = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
NPOS = (1 << 64) - 1


def last_prefix(ctx, kind):
    ex = ctx.executor(f"get_last_prefix<{kind}>")
    st = State()
    st.ghost.update({"io": 0, "bad": 0, "got": 0})
    db = dbm.DBM(ctx, ex, st, kind, place=0)
    dbm.use_ranks(ex, db.N)
    rec, SFX, HL = db.rec, 2 * db.N - 5, {"sha1": 35, "ntlm": 27, "t64": 35}[kind]
    N = db.D
    F, n = ex.fresh(st, 64, "filesize"), ex.fresh(st, 64, "body.len")
    st.assume(z3.And(N >= (0 if ex.safety == "wild" else 1), F >= rec * N, F < rec * N + rec, n < 1 << 40))
    st.ghost["fs"] = F
    fs = lambda s: zi(s.ghost["fs"])
    name = Ptr(ex.new_obj(st, "filename", 32, content=CellC()), 0)
    appm.named_string(ex, st, name, "FILE")
    testing = ex.fresh(st, 8, "testing")
    PN, T, FH = ex.fresh(st, 64, "range"), z3.Int("T"), z3.Int("first.hash")
    last = db.at(N - 1)
    st.assume(z3.And(PN < 1 << 20, T >= -1, T < N))
    LASTC = z3.Function("last.char", z3.IntSort(), z3.IntSort(), z3.IntSort())
    E = z3.Function("same.text", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    rlen = ex.fresh(st, 64, "record text")
    st.assume(z3.And(rlen >= 2 * db.N + 2, rlen < 100))

    def last_of(ch, frm):
        r = LASTC(ch, frm)
        st0.assume(z3.Or(r == NPOS, z3.And(r >= 0, r < n, r <= frm)))
        return r
    st0 = st
    C = last_of(z3.IntVal(58), z3.IntVal(NPOS))
    NL = last_of(z3.IntVal(10), C)
    LS = z3.If(NL == NPOS, z3.IntVal(0), NL + 1)
    wf = z3.And(C != NPOS, C - LS == HL)
    zmin = lambda a, b: z3.If(a < b, a, b)
    complete = E(LS, zmin(z3.IntVal(SFX), n - LS), z3.IntVal(5), z3.IntVal(SFX))

    # ---- files
    def fname(ex, st, p):
        if appm.str_origin(ex, st, p) != "FILE":
            raise Unsupported("another file")

    def fails(st, guard=True):
        bad = lib.fork_throw(ex, st, dbm.RT, guard)
        bad.ghost["io"] = 1
        return bad

    def file_size(ex, st, args, dem):
        fname(ex, st, args[0])
        return Out(st, fs(st), [fails(st)])

    def resize(ex, st, args, dem):
        fname(ex, st, args[0])
        bad = fails(st)
        ex.oblige(st, "the file is only ever cut, never extended", zi(norm(args[1])) <= fs(st))
        st.ghost["fs"] = zi(norm(args[1]))
        return Out(st, None, [bad])

    def open_db(ex, st, args, dem):
        fname(ex, st, args[1])
        whole = fs(st) % rec == 0
        bad = [fails(st), fails(st, z3.Not(whole))]
        st.assume(whole)
        ex.oblige(st, "the file is opened once the incomplete record at its end is off", fs(st) <= rec * N)
        if db.this is None:
            ex.oblige(st, "no complete record is lost", fs(st) == rec * N)
            db.put(st, args[0])
            ex.dbs[args[0].obj.id] = db
        return Out(st, None, bad)

    def assign(ex, st, args, dem):
        ex.dbs.clear()
        return args[0]
    opens = appm.Opens(ctx, ex, [])
    ex.contracts = [(re.compile(r"^std::filesystem::file_size\("), file_size), (re.compile(r"^std::filesystem::resize_file\("), resize),
                    (re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::database\(std::filesystem"), open_db),
                    (re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::operator="), assign)] + ex.contracts

    # ---- texts
    def on_text(ex, st, s, v):
        if isinstance(v, tuple) and v[0] == "rec":
            ex.oblige(st, "the text is that of the last record", ex.rank(z3.Extract(8 * db.N - 1, 0, v[1])) == db.key(N - 1))
            st.ghost[f"ss:{s.obj.id}"] = i_add(st.ghost.get(f"ss:{s.obj.id}", 0), 1)
    appm.Texts(ex, on_text)
    SS = r"^std::(__cxx11::)?basic_%sstringstream<char, std::char_traits<char>, std::allocator<char> ?>::"

    def text(ex, st, p, m, val, what):
        from irv.models import str_new
        o = str_new(ex, st, p, m, Base(fresh_name(what), 8), what)
        appm.tag(st, o, val)

    def ss_str(ex, st, args, dem):
        base = {o.id: o for o in [args[1].obj]}
        if const_of(st.ghost.get(f"ss:{args[1].obj.id}", 0)) != 1:
            raise Unsupported("what was written to the stream")
        text(ex, st, args[0], rlen, ("sub", "REC", z3.IntVal(0), rlen), "record")
        return None

    def sub_of(ex, st, p):
        v = appm.str_origin(ex, st, p)
        return v if isinstance(v, tuple) and v[0] == "sub" else None

    def substr(ex, st, args, dem):
        v = sub_of(ex, st, args[1])
        if v is None:
            raise Unsupported("part of an unknown text")
        pos, cnt, m = zi(norm(args[2])), zi(norm(args[3])), v[3]
        bad = lib.fork_throw(ex, st, "_ZTISt12out_of_range", pos > m)
        bad.ghost["bad"] = z3.If(wf, z3.IntVal(0), z3.IntVal(1))
        st.assume(pos <= m)
        ln = z3.simplify(zmin(cnt, m - pos))
        for c in (SFX, 5, 2 * db.N):
            if ex.solver.valid(st.pc, ln == c, 3.0):
                ln = z3.IntVal(c)
                break
        text(ex, st, args[0], ln, ("sub", v[1], z3.simplify(v[2] + pos), ln), "part")
        return Out(st, None, [bad])

    def find_last(ex, st, args, dem):
        v = sub_of(ex, st, args[0])
        ch = const_of(args[1])
        if v is None or v[1] != "BODY" or ch is None or not ex.solver.valid(st.pc, z3.And(v[2] == 0, v[3] == n), 3.0):
            raise Unsupported("find_last_of")
        r = LASTC(z3.IntVal(ch & 255), zi(norm(args[2])))
        st.assume(z3.Or(r == NPOS, z3.And(r >= 0, r < n, r <= zi(norm(args[2])))))
        return r

    def equal(ex, st, args, dem):
        a, b = sub_of(ex, st, args[0]), sub_of(ex, st, args[1])
        if a is None or b is None or {a[1], b[1]} != {"BODY", "REC"}:
            raise Unsupported("comparison of texts")
        a, b = (a, b) if a[1] == "BODY" else (b, a)
        r = E(a[2], a[3], b[2], b[3])
        st.assume(z3.Implies(r, a[3] == b[3]))
        # whatever happens with an answer that is not one, only the real question is answered for one that is
        ex.oblige(st, "the last hash of the answer is compared with that of the last record",
                  z3.Implies(wf, z3.And(a[2] == LS, a[3] == SFX, b[2] == 5, b[3] == SFX)))
        return z3.Not(r) if "operator!=" in dem else r

    def plus(ex, st, args, dem):
        a, b = sub_of(ex, st, args[1]), sub_of(ex, st, args[2])
        if a is None or b is None:
            raise Unsupported("texts put together")
        text(ex, st, args[0], a[3] + b[3], ("cat", a, b), "cat")
        return None

    def url(ex, st, args, dem):
        v = sub_of(ex, st, args[1])
        if v is None or v[1] != "REC":
            raise Unsupported("range asked for")
        ex.oblige(st, "the range of the last record is asked for", z3.And(v[2] == 0, v[3] == 5))
        t = args[2]
        ex.oblige(st, "from the server that is meant", (t if not is_c(t) and z3.is_bool(t) else zi(norm(t)) != 0) == (testing == 1))
        appm.named_string(ex, st, args[0], "URL")
        return None

    def get(ex, st, args, dem):
        if appm.str_origin(ex, st, args[1]) != "URL":
            raise Unsupported("URL")
        bad = fails(st)
        text(ex, st, args[0], n, ("sub", "BODY", z3.IntVal(0), n), "body")
        return Out(st, None, [bad])

    def head5(v, ln):
        if isinstance(v, tuple) and v[0] == "cat":
            return z3.And(zi(ln) == 5, head5(v[1], v[1][3]))
        if isinstance(v, tuple) and v[0] == "sub" and v[1] == "REC":
            return z3.And(v[2] == 0, zi(ln) == 5, v[3] >= 5)
        raise Unsupported("number read from a text")

    def from_chars(ex, st, args, dem):
        a, b = args[0], args[1]
        base = const_of(args[3])
        v = appm.origin(ex, st, a)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj):
            raise Unsupported("from_chars")
        lib.range_ok(ex, st, a, i_sub(b.off, a.off))
        ex.oblige(st, "the number of the range is read", z3.And(head5(v, i_sub(b.off, a.off)), z3.BoolVal(base == 16)))
        ex.store(st, args[2], PN, IntT(64))
        return Agg([b, 0])

    def parse(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if not (isinstance(v, tuple) and v[0] == "cat" and v[1][1] == "REC" and v[2][1] == "BODY"):
            raise Unsupported("record from another text")
        ex.oblige(st, "the first hash of the answer is looked for", z3.Implies(wf, z3.And(
            v[1][2] == 0, v[1][3] == 5, v[2][2] == 0, v[2][3] == SFX)))
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["bad"] = 1
        r = z3.BitVec(fresh_name("needle"), 8 * rec)
        ex.store(st, args[0], r, IntT(8 * rec))
        st.assume(ex.rank(z3.Extract(8 * db.N - 1, 0, r)) == FH)
        return Out(st, None, [bad])

    def pos_of(ex, st, it):
        d = ex.load(st, it, PTR)
        if dbm.find_db(ex, d) is not db:
            raise Unsupported("iterator")
        return zi(ex.load(st, ex.padd(it, 8), IntT(64)))

    def find(ex, st, args, dem):
        ret, a, b, val = args
        if not ex.solver.valid(st.pc, z3.And(pos_of(ex, st, a) == N, pos_of(ex, st, b) == 0), 3.0):
            raise Unsupported("part of the file that is searched")
        ex.oblige(st, "the first hash of the answer is looked for in the file", dbm.hash_of(ex, st, val, db.N) == FH)
        bad = fails(st)
        size = ctx.find  # the iterator is copied, then moved
        for off, n_ in iter_cells(ex, st, a):
            ex.store(st, ex.padd(ret, off), ex.load(st, ex.padd(a, off), PTR if n_ == "p" else IntT(n_ * 8)), PTR if n_ == "p" else IntT(n_ * 8))
        ex.store(st, ex.padd(ret, 8), T + 1, IntT(64))
        return Out(st, None, [bad])

    def iter_cells(ex, st, it):
        c = st.mem[it.obj.id]
        out = []
        for o, (w, v) in c.c.items():
            if it.off <= o:
                out.append((o - it.off, "p" if isinstance(v, (Ptr, PtrU)) else w))
        return out
    ex.contracts = [(re.compile(SS % "[io]?" + r"basic_[io]?stringstream\("), nop), (re.compile(SS % "[io]?" + r"~basic_[io]?stringstream\("), nop),
                    (re.compile(SS % "[io]?" + r"str\(\) const"), ss_str), (re.compile(STR + r"substr\("), substr),
                    (re.compile(STR + r"(find_last_of|rfind)\(char, unsigned long\)"), find_last),
                    (re.compile(r"^(bool )?std::operator[!=]= ?<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string<[^,]*, [^,]*, [^,]*&, std::__cxx11::basic_string"), equal),
                    (re.compile(r"^std::(__cxx11::)?basic_string<char.*> std::operator\+ ?<char, std::char_traits<char>, std::allocator<char> ?>"
                                r"\(std::__cxx11::basic_string<[^&]*&&?, std::__cxx11::basic_string<[^&]*&&?\)"), plus),
                    (re.compile(r"^(std::.* )?hibp::url(<|\[)|^_ZN4hibp3urlI"), url), (re.compile(r"^hibp::dnl::curl_sync_get(\[abi:cxx11\])?\("), get),
                    (re.compile(r"^std::enable_if<.*std::from_chars<unsigned"), from_chars),
                    (re.compile(r"^hibp::pawned_pw<\d+u>::pawned_pw\(std::__cxx11::basic_string"), parse),
                    (re.compile(r"^std::reverse_iterator<.*> std::find<std::reverse_iterator<"), find)] + ex.contracts
    m, f = ctx.find(ex, rf"^(unsigned long )?hibp::dnl::get_last_prefix<{re.escape(db.T)} ?>|^_ZN4hibp3dnl15get_last_prefixI.*9pawned_pwILj{db.N}E")
    out = ex.run_fn(m, f, [name, testing == 1], st)
    v = zi(norm(out.val))
    a, b = out.st.fork(), out.st.fork()
    a.assume(z3.And(wf, complete))
    b.assume(z3.And(wf, z3.Not(complete)))
    ex.oblige(a, "a complete last range is kept whole and the next one follows", z3.And(v == PN, fs(a) == rec * N))
    ex.oblige(b, "an incomplete last range is taken off from its first record on", z3.And(T >= 0, fs(b) == rec * T))
    ex.oblige(b, "and is the next one", v == (PN - 1) % (1 << 64))
    ctx.cover(ex, a, "complete last range")
    ctx.cover(ex, b, "incomplete last range")
    for x in out.excs:
        ex.oblige(x, "it only fails when something else failed or the position cannot be found",
                  z3.Or(zi(x.ghost["io"]) == 1, zi(x.ghost["bad"]) == 1, z3.Not(wf), z3.And(z3.Not(complete), T == -1)))
        ex.oblige(x, "no complete record is lost then", z3.Or(fs(x) >= rec * N, zi(x.ghost["io"]) == 1))


def boundary(ctx):
    """what is left of a prefix of a complete download ends at a range boundary, the one before the next range"""
    ex = ctx.executor("a resumed download continues at a range boundary")
    st = State()
    S, L, j, N, T, p, v, cut = (z3.Int(x) for x in ("first.of.range", "range.len", "j", "N", "T", "p", "result", "left"))
    R = z3.Function("hash", z3.IntSort(), z3.IntSort())     # of the records of the complete download
    # the file has N >= 1 whole records; the last of them is the j-th (from 0) of range p, which has L records from S on
    st.assume(z3.And(S >= 0, L >= 1, j >= 0, j < L, N == S + j + 1, p >= 0))
    # the hashes of a download differ: used for the last record of the file and of the range, and for T and S
    st.assume(z3.And(z3.Implies(R(N - 1) == R(S + L - 1), N - 1 == S + L - 1), z3.Implies(R(T) == R(S), T == S)))
    complete = R(N - 1) == R(S + L - 1)
    st.assume(z3.And(T >= -1, T < N))
    st.assume(z3.If(T == -1, z3.BoolVal(True), R(T) == R(S)))
    # T is the last record of the file with the hash of the first of the range: one at S or later, which is in the file
    st.assume(T >= S)
    st.assume(z3.If(complete, z3.And(v == p, cut == N), z3.And(v == p - 1, cut == T)))
    start = v + 1
    ex.oblige(st, "the file holds exactly the ranges before the one that follows",
              z3.Or(z3.And(start == p, cut == S), z3.And(start == p + 1, cut == S + L)))
    ctx.cover(ex, st, "end")


TARGETS = [Target("main of hibp-download: where a resumed download continues", ["download"], mains.download_main, prop="C15")]
TARGETS += [Target(f"get_last_prefix<{k}>", ["resume"], last_prefix, kind=k) for k in ("sha1", "ntlm", "t64")]
TARGETS += [Target("a resumed download continues at a range boundary", [], boundary)]
TARGETS += [Target("curl_sync_get", ["requests"], glue.sync_get)]
