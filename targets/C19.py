"""C19: the server answers every check with the count stored for the hash, or -1."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop, str_parts, str_new, view_node
from . import dbm, appm, mains

UNITS = {"server": ("/verif/harness/server.cpp", ["-I/verif/harness", "-I/verif/harness/fake_restinio"], "c++"),
         "server_main": ("/verif/harness/server_main.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = ["RESTinio: a router calls the handler of a route with the request and its parameters; a response is what was put into it "
           "(harness/fake_restinio states the interface that is assumed)"]
ASSUMPTIONS = ["flat_file::database, operator<=>: their contracts, proved in C04, C01; toc_search: C07; is_valid_hash: C03; "
               "pawned_pw(text): C02; ntlm(): C12", "SHA1 (external library): a function of the text",
               "--perf-test is not given (it makes the answers wrong on purpose)"]
STR = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"


def is_hex(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))


def hex_val(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


def from_chars16(ex, st, args, dem):
    """std::from_chars on at most two characters, base 16"""
    first, last, out = args[0], args[1], args[2]
    base = args[3] if len(args) > 3 else 10
    n = const_of(ex.psub(st, last, first)) if hasattr(ex, "psub") else None
    if n is None:
        if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.obj is last.obj):
            raise Unsupported("range of from_chars")
        n = const_of(z3.simplify(zi(i_sub(last.off, first.off))))
    if n is None or n > 2 or not (is_c(base) and base == 16):
        raise Unsupported("from_chars of another shape")
    cs = [to_bv(ex.load(st, ex.padd(first, i), IntT(8)), 8) for i in range(n)]
    if n == 0:
        return Agg([first, 22])
    ok0 = is_hex(cs[0])
    both = z3.And(ok0, is_hex(cs[1])) if n == 2 else z3.BoolVal(False)
    old = to_bv(ex.load(st, out, IntT(8)), 8)
    v1 = hex_val(cs[0])
    v = z3.If(both, v1 * 16 + hex_val(cs[1]), z3.If(ok0, v1, old)) if n == 2 else z3.If(ok0, v1, old)
    ex.store(st, out, v, IntT(8))
    used = z3.If(both, z3.IntVal(2), z3.If(ok0, z3.IntVal(1), z3.IntVal(0)))
    return Agg([ex.padd(first, used), z3.If(ok0, z3.BitVecVal(0, 32), z3.BitVecVal(22, 32))])


def decode(ctx):
    """the text is decoded: %XY with two hexadecimal digits stands for one character, everything else for itself"""
    ex = ctx.executor("percent_decode")
    st = State()
    text = Ptr(ex.new_obj(st, "text", 32, content=CellC()), 0)
    appm.named_string(ex, st, text, "encoded")
    d, n = str_parts(ex, st, text)
    node = view_node(ex, st, d, n)
    ret = Ptr(ex.new_obj(st, "ret", 32, content=CellC()), 0)
    st.ghost["pos"] = 0

    def at(i):
        return to_bv(node.read(zi(i), ex), 8)

    def code(p):
        return z3.And(at(p) == ord("%"), p + 2 < zi(n), is_hex(at(p + 1)), is_hex(at(p + 2)))

    def put(ex, st, c):
        p = zi(st.ghost["pos"])
        ex.oblige(st, "nothing is added beyond the end of the text", p < zi(n))
        ex.oblige(st, "the character added is the next one of the decoded text",
                  to_bv(c, 8) == z3.If(code(p), hex_val(at(p + 1)) * 16 + hex_val(at(p + 2)), at(p)))
        st.ghost["pos"] = p + z3.If(code(p), z3.IntVal(3), z3.IntVal(1))

    def mine(p):
        if not (isinstance(p, Ptr) and p.obj is ret.obj and is_c(p.off) and p.off == 0):
            raise Unsupported("another string is built")

    def add_char(ex, st, args, dem):
        mine(args[0])
        put(ex, st, args[1])
        bad = lib.fork_throw(ex, st, "_ZTISt9bad_alloc")
        return Out(st, args[0], [bad])

    def append_n(ex, st, args, dem):
        mine(args[0])
        if not (is_c(args[1]) and args[1] == 1):
            raise Unsupported("append of several characters")
        put(ex, st, args[2])
        return Out(st, args[0], [lib.fork_throw(ex, st, "_ZTISt9bad_alloc")])

    def ctor(ex, st, args, dem):
        mine(args[0])
        return None

    def refuse(ex, st, args, dem):
        raise Unsupported(f"no contract for {dem[:120]}")
    C = [(STR + r"(operator\+=|push_back)\(char\)", add_char), (STR + r"append\(unsigned long, char\)", append_n),
         (STR + r"basic_string\(\)", ctor), (STR + r"~basic_string\(\)", nop),
         (STR + r"reserve\(", nop), (r"std::from_chars<unsigned char", from_chars16),
         (STR + r"(append|operator\+=|operator=|assign|insert|erase|replace|resize|clear|pop_back|basic_string|substr|swap)[(<]", refuse)]
    ex.contracts += [(re.compile(r), h) for r, h in C]

    def cands(ex, ctx_, H, mods, k):
        out = appm.int_cands(mods, H, ["pos"])
        out.append(lambda s, k: z3.And(zi(s.ghost["pos"]) >= 0, zi(s.ghost["pos"]) <= zi(n)))
        return out
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, r"^decode[\[(]|^decode\(")
    out = ex.run_fn(m, f, [ret, text], st)
    ex.oblige(out.st, "the whole text is decoded", zi(out.st.ghost["pos"]) == zi(n))
    for x in out.excs:
        ex.oblige(x, "only memory can run out", x.exc[0] == "_ZTISt9bad_alloc")
    ctx.cover(ex, out.st, "end")



FORMATS = {"plain": None, "sha1": "sha1", "ntlm": "ntlm", "sha1t64": "t64", "other": None}
FILES = {"sha1": "acc_cli_sha1", "ntlm": "acc_cli_ntlm", "t64": "acc_cli_t64"}
JSON = re.compile(r'^\{\{ ?"?count"? ?: ?\{\} ?\}\}\n?$')
TEXT = re.compile(r"^\{\}\n?$")


def serve(ctx, requests, kinds, toc):
    """the answer to the last of some requests, the earlier ones having been served by the same thread"""
    ex = ctx.executor(f"requests {', '.join(requests)}")
    st = State()

    def acc(nm, *a):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}\b"), list(a), st).val
    bits = z3.BitVec("bits", 32)
    st.assume(z3.And(z3.UGE(bits, 15), z3.ULE(bits, 25)))
    ex.store(st, acc("acc_cli_bits"), bits, IntT(32))
    ex.store(st, acc("acc_cli_json"), z3.ZeroExt(7, z3.BitVec("json", 1)), IntT(8))
    JS = z3.BitVec("json", 1) == 1
    ex.store(st, acc("acc_cli_toc"), 1 if toc else 0, IntT(8))
    ex.store(st, acc("acc_cli_perf"), 0, IntT(8))
    names, have = {}, {}
    for k in dbm.KINDS:
        p = Ptr(ex.new_obj(st, "name", 32, content=CellC()), 0)
        n = ex.fresh(st, 64, k + ".name.len") if k in kinds else 0
        if k in kinds:
            st.assume(n < 1 << 40)
        o = str_new(ex, st, p, n, Base(fresh_name(k + ".name"), 8), "name")
        appm.tag(st, o, k + " db")
        names[k], have[k] = p, zi(n) >= 1
    D, K, LB = {}, {}, {}
    for k in kinds:
        d = D[k] = dbm.DBM(ctx, ex, st, k, file=f"FILE_{k}", name=f"db_{k}", place="serve")
        K[k] = [z3.BitVec(f"hash_{k}_{i}", 8 * d.N) for i in range(len(requests))]
        LB[k] = [d.lower(st, q) for q in K[k]]
        ex.loop_specs.append(lower_bound_of(ex, d))
    VALID = [z3.Bool(f"hash.valid.{i}") for i in range(len(requests))]

    def now(st):
        return st.ghost["n"] - 1
    st.ghost.update({"io": 0, "n": 0, "fmt": "", "done": 0, "status": 0, "form": 0, "value": 0, "used": 0})
    appm.Opens(ctx, ex, [(d, k + " db") for k, d in D.items()], again=True)
    IO, RT = lib.FAILURE, dbm.RT
    # ---- ownership: what requests served by different threads share is not written
    st.ghost["once"] = 0
    SHARED = set()

    def on_store(st, q, c):
        g = q.obj.meta[0] if q.obj.kind == "global" else None
        if g is not None and not g.tls and st.ghost["n"] and not st.ghost["once"]:
            ex.oblige(st, "memory shared between threads is not written", False, c)
    ex.on_store = on_store

    def acquire(ex, st, args, dem):
        st.ghost["once"] += 1
        return ex.models["__cxa_guard_acquire"](ex, st, args, dem)

    def release(ex, st, args, dem):
        ex.models["__cxa_guard_release"](ex, st, args, dem)
        st.ghost["once"] -= 1
    own_open = ex.contracts.pop([i for i, (r, h) in enumerate(ex.contracts) if "::database\\(std" in r.pattern][0])[1]

    def open_(ex, st, args, dem):
        if not st.ghost["n"] or st.ghost["once"]:
            SHARED.add(args[0].obj.id)
        return own_open(ex, st, args, dem)

    def mine(ex, st, p):
        for c, q in ex.ptr_alts(p):
            if q.obj is not None and q.obj.id in SHARED:
                ex.oblige(st, "a database is used by one thread only", False, c)

    def get(ex, st, args, dem):
        mine(ex, st, args[0])
        return dbm.get_record(ex, st, args, dem)

    def image(st, k):
        N = dbm.KINDS[k][2]
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, K[k][now(st)]) for i in range(N)])

    def kind_of(dem):
        for k, (T, rec, N) in dbm.KINDS.items():
            if T in dem or f"pawned_pwILj{N}E" in dem:
                return k
        raise Unsupported("kind of record")

    def hashed(st):
        return FORMATS.get(st.ghost["fmt"])

    # ---- the request
    PW = [Base(f"PASSWORD_{i}", 8) for i in range(len(requests))]
    LEN = [z3.Int(f"password.len.{i}") for i in range(len(requests))]

    OTHER = Base("FORMAT", 8)

    def next_(ex, st, args, dem):
        route = appm.literal(ex, st, args[0], args[0].obj.size - args[0].off)
        if route is None or route.split("\0")[0] != "/check/:format/:password":
            raise Unsupported("route")
        i = st.ghost["n"]
        if i == len(requests):
            return 0
        st.ghost.update({"n": i + 1, "fmt": requests[i], "done": 0, "status": 0, "form": 0, "value": 0, "io": 0, "used": 0})
        return 1

    def end(ex, st, args, dem):
        ex.oblige(st, "every request gets one answer", zi(st.ghost["done"]) == 1)
        return None

    def other(ex, st, args, dem):
        st.ghost.update({"fmt": "no such route", "done": 0, "status": 0, "form": 0, "value": 0, "io": 0})
        return None

    def param(ex, st, args, dem):
        this, n, p = args[:3]
        nm = appm.literal(ex, st, p, norm(n))
        if nm == "format":
            f = st.ghost["fmt"]
            if f != "other":
                o = ex.new_obj(st, "format", len(f), content=ArrC(1, text_of(f)))
                return Agg([len(f), Ptr(o, 0)])
            ln, T = z3.Int(f"format.len.{now(st)}"), OTHER
            st.assume(z3.And(ln >= 0, ln < 1 << 40))
            for g in FORMATS:
                if g != "other":
                    st.assume(z3.Not(z3.And(ln == len(g), *[to_bv(T.read(z3.IntVal(j), ex), 8) == ord(c) for j, c in enumerate(g)])))
            ex.skolem_idx += [z3.IntVal(j) for j in range(7)]
            o = ex.new_obj(st, "format", ln, content=ArrC(1, T))
            return Agg([ln, Ptr(o, 0)])
        if nm == "password":
            ln = LEN[now(st)]
            st.assume(z3.And(ln >= 0, ln < 1 << 40))
            o = ex.new_obj(st, "password", ln, content=ArrC(1, PW[now(st)]))
            return Agg([ln, Ptr(o, 0)])
        raise Unsupported("parameter of the route")

    # ---- the response
    JSON_, TEXT_, MESSAGE, UNKNOWN, IDX = 1, 2, 3, 4, {k: i + 1 for i, k in enumerate(kinds)}

    def create(ex, st, args, dem):
        st.ghost.update({"status": norm(args[1]), "form": 0, "value": 0})
        return 0

    def form_of(ex, st, F):
        if F is None:
            return UNKNOWN, z3.BitVecVal(0, 64)
        if isinstance(F, appm.Fmt) and len(F.args) == 1 and F.args[0][0] in TYPES32:
            form = JSON_ if JSON.match(F.text) else TEXT_ if TEXT.match(F.text) else MESSAGE
            if form != MESSAGE:
                t, v = F.args[0]
                v = to_bv(v, TYPES32[t])
                if TYPES32[t] == 64:
                    ex.oblige(st, "the count fits", v == z3.SignExt(32, z3.Extract(31, 0, v)))
                    v = z3.Extract(31, 0, v)
                return form, z3.ZeroExt(32, v)
        return MESSAGE, z3.BitVecVal(0, 64)

    def body(ex, st, args, dem):
        d, n = str_parts(ex, st, args[1])
        alts = ex.ptr_alts(d)
        if len(alts) == 1:
            form, value = form_of(ex, st, str_value(ex, st, args[1]))
        else:
            form, value = z3.IntVal(UNKNOWN), z3.BitVecVal(0, 64)
            for c, q in alts:
                if ex.solver.feasible(st.pc, c):
                    x, v = form_of(ex, st, appm.origin(ex, st, q))
                    form, value = z3.If(zb(c), x, form), z3.If(zb(c), v, value)
        st.ghost.update({"form": form, "value": value})
        return args[0]

    def done(ex, st, args, dem):
        g = st.ghost
        s, form, used, f = zi(norm(g["status"])), zi(g["form"]), zi(g["used"]), g["fmt"]
        g["done"] = i_add(g["done"], 1)
        err = s >= 400
        k = hashed(st)
        # an error is only right when there is a reason for it
        why = [zi(g["io"]) == 1]
        if f == "plain":
            why.append(z3.Not(z3.Or(*have.values())))
        elif k is not None:
            why += [z3.Not(have[k]), z3.Not(VALID[now(st)])]
        else:
            why.append(z3.BoolVal(True))
        ex.oblige(st, "an error status is only given for a missing database, a malformed hash, an unknown format or a failing file",
                  z3.Implies(err, z3.Or(*why)))
        ex.oblige(st, "an answer that is no error has the status 200", z3.Implies(z3.Not(err), s == 200))
        if f not in FORMATS or f == "other":
            ex.oblige(st, "a count is only given for a known format", err)
            return 0
        if k is not None:
            ex.oblige(st, "a count is only given for a well-formed hash", z3.Or(err, VALID[now(st)]))
            ex.oblige(st, "the answer comes from the database of that kind", z3.Or(err, used == IDX[k]))
        if not ex.suppress and ex.solver.feasible(st.pc, z3.And(z3.Not(err), form == UNKNOWN)):
            raise Unsupported("text of an answer")
        ex.oblige(st, "the answer is a count", z3.Or(err, form == JSON_, form == TEXT_))
        ex.oblige(st, "a JSON answer is given exactly when asked for", z3.Or(err, (form == JSON_) == JS))
        for q, d in D.items():
            lb = LB[q][now(st)]
            present = z3.And(lb < d.D, d.key(lb) == K[q][now(st)])
            want = z3.If(present, dbm.cnt(d.at(lb), d.N), z3.BitVecVal(0xffffffff, 32))
            ex.skolem_idx += [lb, lb - 1]
            ex.oblige(st, "the answer is the count stored for the hash, or -1", z3.Implies(
                z3.And(z3.Not(err), used == IDX[q]), to_bv(g["value"], 64) == z3.ZeroExt(32, want)))
        return 0

    # ---- what the handlers rely on
    def the_text(ex, st, p, want):
        v = str_value(ex, st, p)
        if v is None or isinstance(v, appm.Fmt):
            raise Unsupported("unknown text is looked up")
        ex.oblige(st, "it is the password of the request that is looked up", z3.BoolVal(v == want))

    def str_value(ex, st, p):
        v = appm.str_origin(ex, st, p)
        if v is None:
            d, n = str_parts(ex, st, p)
            c = st.mem.get(d.obj.id) if isinstance(d, Ptr) and d.obj is not None else None
            node = appm.text_node(c.node) if isinstance(c, ArrC) else None
            while isinstance(node, CopyN) or isinstance(node, StoreN):
                if isinstance(node, StoreN):
                    node = node.prev
                    continue
                i = [i for i, w in enumerate(PW) if node.src is w]
                if i and ex.solver.valid(st.pc, z3.And(zi(n) == LEN[i[0]], zi(node.lo) == 0, zi(node.n) == zi(n), zi(node.slo) == 0), 3.0):
                    return ("password", i[0])
                break
            i = [i for i, w in enumerate(PW) if node is w]
            if i and ex.solver.valid(st.pc, zi(n) == LEN[i[0]], 3.0):
                return ("password", i[0])
        return v

    def percent(ex, st, args, dem):
        the_text(ex, st, args[1], ("password", now(st)))
        appm.opaque_str(ex, st, args[0], ("decoded", now(st)))
        return None

    def is_valid(ex, st, args, dem):
        the_text(ex, st, args[0], ("password", now(st)))
        ex.oblige(st, "a hash is checked against the length of its kind", z3.BoolVal(kind_of(dem) == hashed(st)))
        return VALID[now(st)]

    def sha1(ex, st, args, dem):
        the_text(ex, st, args[2], ("decoded", now(st)))
        appm.opaque_str(ex, st, args[0], ("sha1", now(st)))
        return None

    def pw_ctor(ex, st, args, dem):
        v = str_value(ex, st, args[1])
        k = kind_of(dem)
        if v is None or isinstance(v, appm.Fmt):
            raise Unsupported("record from unknown text")
        if k not in kinds:
            ex.oblige(st, "only a record of a kind with a database is built", z3.BoolVal(False))
            return None
        if v == ("sha1", now(st)):
            ex.oblige(st, "the digest is taken for a plain text", z3.BoolVal(st.ghost["fmt"] == "plain" and k != "ntlm"))
        else:
            ex.oblige(st, "the hash looked up is that of the request", z3.BoolVal(v == ("password", now(st)) and hashed(st) == k))
            ex.oblige(st, "a record is only built from a valid hash", VALID[now(st)])
        st.ghost["used"] = IDX[k]
        ex.store(st, args[0], z3.Concat(z3.BitVec(fresh_name("needle.count"), 32), image(st, k)), IntT(8 * D[k].rec))
        return None

    def ntlm(ex, st, args, dem):
        the_text(ex, st, args[0], ("decoded", now(st)))
        ex.oblige(st, "the NTLM hash is taken for a plain text", z3.BoolVal(st.ghost["fmt"] == "plain"))
        if "ntlm" not in kinds:
            ex.oblige(st, "only a record of a kind with a database is built", z3.BoolVal(False))
            return Agg([0, 0])
        st.ghost["used"] = IDX["ntlm"]
        k = image(st, "ntlm")
        return Agg([z3.Extract(63, 0, k), z3.Extract(127, 64, k)])

    def looked(st, d):
        return [x for x in D if D[x] is d][0]

    def toc_search(ex, st, args, dem):
        byval = len(args) == 3
        ret = Ptr(ex.new_obj(st, "opt", 64, content=CellC()), 0) if byval else args[0]
        db, needle, b = args[-3:]
        mine(ex, st, db)
        d = dbm.find_db(ex, db, st)
        if d is None:
            raise Unsupported("search through another database")
        k = looked(st, d)
        ex.oblige(st, "the table is used with the bits it was built for", z3.And(z3.BoolVal(toc), to_bv(b, 32) == bits))
        ex.oblige(st, "the hash of the request is looked up", dbm.hash_of(ex, st, needle, d.N) == K[k][now(st)])
        bad = lib.fork_throw(ex, st, IO)
        bad.ghost["io"] = 1
        v, _ = dbm.sym_record(ex, st, d.rec, fresh_name("toc.hit"))
        ex.store(st, v, d.at(LB[k][now(st)]), IntT(8 * d.rec))
        ex.skolem_idx += [LB[k][now(st)]]
        env = st.env
        st = ex.run_fn(*ctx.find(ex, rf"^opt_set_{k}\("), [ret, v, z3.And(LB[k][now(st)] < d.D, d.key(LB[k][now(st)]) == K[k][now(st)])], st).st
        st.env = env
        if byval:
            return Out(st, Agg([ex.load(st, ret, IntT(64)), ex.load(st, ex.padd(ret, 8), IntT(64))]), [bad])
        return Out(st, None, [bad])
    def plus(ex, st, args, dem):
        appm.opaque_str(ex, st, args[0], ("text",))
        return None

    def text_ctor(ex, st, args, dem):
        appm.opaque_str(ex, st, args[0], ("text",))
        return None
    C = [(r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::basic_string<std::allocator<char> ?>\(char const\*", text_ctor),
         (r"^__cxa_guard_acquire$", acquire), (r"^__cxa_guard_(release|abort)$", release),
         (r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::database\(std::filesystem", open_),
         (r"^restinio::irv_next\(", next_), (r"^restinio::irv_end\(", end), (r"^restinio::irv_other\(", other),
         (r"^restinio::router::route_params_t::operator\[\]\(", param),
         (r"^restinio::request_t::create_response\(", create), (r"^restinio::response_t::set_body\(", body),
         (r"^restinio::response_t::done\(", done),
         (r"^restinio::response_t::(append_header|connection_\w+)\(", lambda ex, st, args, dem: args[0]),
         (r"^hibp::srv::percent_decode\(", percent), (r"hibp::is_valid_hash<|^_ZN4hibp13is_valid_hashI", is_valid),
         (r"^SHA1::operator\(\)\(", sha1), (r"^SHA1::SHA1\(|^SHA1::~SHA1\(", nop),
         (r"^hibp::pawned_pw<\d+u>::pawned_pw\(std::(__cxx11::basic_string<|basic_string_view<)", pw_ctor),
         (r"^hibp::ntlm\(", ntlm), (r"^_ZN4hibp10toc_searchI|hibp::toc_search<", toc_search),
         (r"std::operator\+ ?<char, std::char_traits<char>", plus), (r"^__cxa_thread_atexit", lambda ex, st, args, dem: 0)]
    ex.contracts += [(re.compile(r), h) for r, h in C]
    ex.contracts.insert(0, (re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::get_record\("), get))
    appm.Texts(ex, lambda ex, st, os, v: None)
    m, f = ctx.find(ex, r"^serve\(")
    out = ex.run_fn(m, f, [names["sha1"], names["ntlm"], names["t64"]], st)
    for x in out.excs:
        ex.oblige(x, "no exception leaves the handler", zi(x.ghost["done"]) < 0)
    ctx.cover(ex, out.st, "end")


def server_main(ctx):
    """before anything is served, every database given is opened and, if asked for, its table built with the bits given"""
    ex = ctx.executor("main of hibp-server")
    st = State()
    names = {"sha1": "acc_cli_sha1", "ntlm": "acc_cli_ntlm", "t64": "acc_cli_t64"}
    m = mains.Main(ctx, ex, st, names, {"toc": "acc_cli_toc"}, {})
    o = m.opt
    bits = z3.BitVec("toc_bits", 32)
    own_parse = m.parse

    def parse(ex, st, args, dem):
        env = st.env
        ex.store(st, m.acc(st, "acc_cli_bits", m.cli), bits, IntT(32))
        st.env = env
        return own_parse(ex, st, args, dem)
    ex.contracts.insert(0, (re.compile(r"^CLI::App::parse\(int"), parse))
    st.ghost.update({"io": 0, "parsed": 0, "served": 0})
    D = {k: dbm.DBM(ctx, ex, st, k, file=f"FILE_{k}", name=f"db_{k}", place="main") for k in names}
    for k in names:
        st.ghost["open " + k] = st.ghost["table " + k] = 0
    opens = appm.Opens(ctx, ex, [(D[k], k) for k in names], again=True)
    own_open = ex.contracts.pop([i for i, (r, h) in enumerate(ex.contracts) if "::database\\(std" in r.pattern][0])[1]

    def open_(ex, st, args, dem):
        out = own_open(ex, st, args, dem)
        st.ghost["open " + appm.str_origin(ex, st, args[1])] = 1
        return out
    ex.contracts.append((re.compile(r"^flat_file::database<hibp::pawned_pw<\d+u> ?>::database\(std::filesystem"), open_))

    def toc_build(ex, st, args, dem):
        k = [k for k, (T, rec, N) in dbm.KINDS.items() if T in dem or f"pawned_pwILj{N}E" in dem][0]
        nm = appm.str_origin(ex, st, args[0])
        if nm is None:
            raise Unsupported("name of a database")
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, lib.FAILURE)]
        for b in bad:
            b.ghost["io"] = 1
        ex.oblige(st, "a table is built with the bits given", to_bv(args[1], 32) == bits)
        if nm == k:
            st.ghost["table " + k] = 1
        else:
            ex.oblige(st, "a table is built for the kind of records of its file", z3.BoolVal(False))
        return Out(st, None, bad)

    def run_server(ex, st, args, dem):
        g = st.ghost
        ex.oblige(st, "a server without a database is not started", z3.Or(*[o[k] for k in names]))
        ex.oblige(st, "a server is not started after an error", zi(g["io"]) == 0)
        for k in names:
            ex.oblige(st, "every database given can be opened", z3.Implies(o[k], zi(g["open " + k]) == 1))
            ex.oblige(st, "the table of every database given is built", z3.Implies(z3.And(o[k], o["toc"]), zi(g["table " + k]) == 1))
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT,)]
        for b in bad + [st]:
            b.ghost["served"] = 1
        bad[0].ghost["io"] = 1
        return Out(st, None, bad)
    ex.contracts += [(re.compile(r"toc_build<|^_ZN4hibp9toc_buildI"), toc_build),
                     (re.compile(r"^hibp::srv::run_server\("), run_server)]
    appm.Texts(ex, lambda *a: None)
    m_, f = ctx.find(ex, r"^app_main\(")
    argv = ex.new_obj(st, "argv", 8 * 4, content=CellC())
    out = ex.run_fn(m_, f, [ex.fresh(st, 32, "argc"), Ptr(argv, 0)], st)
    for x in out.excs:
        ex.oblige(x, "every error ends in an error status", z3.BoolVal(False))
    s = out.st
    code = zi(norm(out.val)) if not is_c(out.val) else z3.IntVal(out.val)
    parsed = zi(s.ghost["parsed"]) == 1
    ex.oblige(s, "an error ends in an error status", z3.Implies(z3.And(parsed, zi(s.ghost["io"]) == 1), code != 0))
    ex.oblige(s, "a server is started when it can be", z3.Implies(
        z3.And(parsed, zi(s.ghost["io"]) == 0, z3.Or(*[o[k] for k in names])), zi(s.ghost["served"]) == 1))
    ctx.cover(ex, s, "end")


TYPES32 = {1: 32, 3: 64}


def text_of(s):
    n = Base(fresh_name("lit"), 8)
    for i, c in enumerate(s):
        n = StoreN(n, i, ord(c))
    return n


def lower_bound_of(ex, d):
    s = dbm.lower_bound_spec(ex, d)
    s.fn = re.compile(rf"std::__lower_bound<flat_file::database<hibp::pawned_pw<{d.N}u>")
    return s


TARGETS = [Target("percent_decode", ["server"], decode), Target("main", ["server_main"], server_main)]
for _f in FORMATS:
    for _t in (False, True):
        _k = ("sha1", "ntlm", "t64") if _f in ("plain", "other") else (FORMATS[_f],)
        if not (_f == "other" and _t):
            TARGETS.append(Target(f"check/{_f} {'through a table' if _t else 'directly'}", ["server"], serve, requests=(_f,), kinds=_k, toc=_t))
    for _g in ("other", _f):
        if not (_f == _g == "other"):
            TARGETS.append(Target(f"check/{_f} after a request for {_g}", ["server"], serve, requests=(_g, _f), kinds=_k, toc=True))
