"""C06: the search over the whole database."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from . import dbm, appm, mains

UNITS = {"flatd": dbm.HARNESS}
TRUSTED = []
ASSUMPTIONS = []


def lower_bound(ctx, kind):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"lower_bound<{kind}>")
    st = State()
    d = dbm.DBM(ctx, ex, st, kind)
    needle, v = dbm.sym_record(ex, st, rec, "needle")
    k = dbm.key(v, N)
    LB = d.lower(st, k)
    a, b = ex.fresh(st, 64, "a"), ex.fresh(st, 64, "b")
    st.assume(z3.And(a <= b, b <= d.D, a < 1 << 50))
    ex.skolem_idx += [a, b, b - 1]
    ex.loop_specs.append(dbm.lower_bound_spec(ex, d))
    m, f = ctx.find(ex, rf"^lb_{kind}\(")
    out = ex.run_fn(m, f, [d.this, a, d.this, b, needle], st)
    r = zi(out.val.f[1])
    ex.skolem_idx += [r, r - 1]
    ex.oblige(out.st, "the result is within the range", z3.And(r >= a, r <= b))
    ex.oblige(out.st, "the result is the first record of the range not below the needle",
              r == z3.If(LB < a, a, z3.If(LB > b, b, LB)))
    for x in out.excs:
        ex.oblige(x, "only a failing read makes it throw", x.exc[0] == lib.FAILURE)
    ctx.cover(ex, out.st, "end")


TARGETS = [Target(f"std::lower_bound over database<{k}>", ["flatd"], lower_bound, kind=k) for k in dbm.KINDS]


# ---------------------------------------------------------------- the search tool
UNITS["search"] = ("/verif/harness/search.cpp", [], "c++")
ASSUMPTIONS += ["toc_build, toc_search: their contracts (C07, C08); is_valid_hash: C03; pawned_pw(text): C02; ntlm(): C12",
                "SHA1 (external library): a function of the text"]


def run_search(ctx, kind, toc, hashed):
    T, rec, N = dbm.KINDS[kind]
    ex = ctx.executor(f"run_search<{kind}>{' toc' if toc else ''} {'hash' if hashed else 'plain'}")
    st = State()
    d = dbm.DBM(ctx, ex, st, kind, place="run_search")

    def acc(nm, *a, s=None):
        return ex.run_fn(*ctx.find(ex, rf"^{nm}\b"), list(a), s or st).val
    cli = Ptr(ex.new_obj(st, "cli", acc("acc_cli_size"), content=CellC()), 0)
    appm.named_string(ex, st, acc("acc_cli_in", cli), "db")
    appm.named_string(ex, st, acc("acc_cli_query", cli), "query")
    bits = z3.BitVec("bits", 32)
    st.assume(z3.And(z3.UGE(bits, 15), z3.ULE(bits, 25)))
    ex.store(st, acc("acc_cli_bits", cli), bits, IntT(32))
    for nm, v in (("toc", toc), ("hash", hashed), ("ntlm", kind == "ntlm"), ("t64", kind == "t64")):
        ex.store(st, acc("acc_cli_" + nm, cli), 1 if v else 0, IntT(8))
    st.ghost.update({"io": 0, "shown": 0, "said": 0, "tocbits": z3.BitVecVal(0, 32)})
    appm.Opens(ctx, ex, [(d, "db")])
    # the hash of the query: what its text spells, or its digest
    K = z3.BitVec("query.hash", 8 * N)
    VALID = z3.Bool("query.valid")
    LB = d.lower(st, K)
    present = z3.And(LB < d.D, d.key(LB) == K)

    def image(k):
        """the bytes of a hash as they lie in memory"""
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, k) for i in range(N)])

    def the_query(ex, st, p):
        v = appm.str_origin(ex, st, p)
        if v is None:
            raise Unsupported("unknown text used as the query")
        ex.oblige(st, "it is the query that is looked up", z3.BoolVal(v == "query"))

    def is_valid(ex, st, args, dem):
        the_query(ex, st, args[0])
        return VALID

    def sha1(ex, st, args, dem):
        the_query(ex, st, args[2])
        appm.opaque_str(ex, st, args[0], ("sha1", "query"))
        return None

    def pw_ctor(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[1])
        if v != ("sha1", "query"):
            the_query(ex, st, args[1])
        ex.oblige(st, "the query is taken as a hash exactly when it was given as one",
                  z3.BoolVal((v == "query") == hashed and (hashed or kind != "ntlm")))
        if v == "query":
            ex.oblige(st, "a record is only built from a valid hash", VALID)
        cnt = z3.BitVec(fresh_name("needle.count"), 32)
        ex.store(st, args[0], z3.Concat(cnt, image(K)), IntT(8 * rec))
        return None

    def ntlm(ex, st, args, dem):
        the_query(ex, st, args[0])
        ex.oblige(st, "the query is hashed with the hash of its kind", z3.BoolVal(kind == "ntlm" and not hashed))
        k = image(K)
        return Agg([z3.Extract(63, 0, k), z3.Extract(127, 64, k)])

    def toc_build(ex, st, args, dem):
        v = appm.str_origin(ex, st, args[0])
        if v is None:
            raise Unsupported("table of an unknown file")
        ex.oblige(st, "the table is built for the database that is searched", z3.BoolVal(v == "db"))
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        st.ghost["tocbits"] = to_bv(args[1], 32)
        return Out(st, None, [bad])

    def toc_search(ex, st, args, dem):
        byval = len(args) == 3
        ret = Ptr(ex.new_obj(st, "opt", 64, content=CellC()), 0) if byval else args[0]
        db, needle, b = args[-3:]
        if dbm.find_db(ex, db) is not d:
            raise Unsupported("search through another database")
        ex.oblige(st, "the table that is searched was built for these bits", z3.And(st.ghost["tocbits"] == to_bv(b, 32), to_bv(b, 32) == bits))
        ex.oblige(st, "the hash of the query is looked up", dbm.hash_of(ex, st, needle, N) == K)
        bad = lib.fork_throw(ex, st, lib.FAILURE)
        bad.ghost["io"] = 1
        v, _ = dbm.sym_record(ex, st, rec, fresh_name("toc.hit"))
        ex.store(st, v, d.at(LB), IntT(8 * rec))
        ex.skolem_idx += [LB]
        env = st.env
        st = ex.run_fn(*ctx.find(ex, rf"^opt_set_{kind}\("), [ret, v, present], st).st
        st.env = env
        if byval:
            return Out(st, Agg([ex.load(st, ret, IntT(64)), ex.load(st, ex.padd(ret, 8), IntT(64))]), [bad])
        return Out(st, None, [bad])
    ex.contracts += [(re.compile(r"hibp::is_valid_hash<|^_ZN4hibp13is_valid_hashI"), is_valid),
                     (re.compile(r"^SHA1::operator\(\)\("), sha1),
                     (re.compile(rf"^hibp::pawned_pw<{N}u>::pawned_pw\(std::(__cxx11::basic_string<|basic_string_view<)"), pw_ctor),
                     (re.compile(r"^hibp::ntlm\("), ntlm),
                     (re.compile(r"^_ZN4hibp9toc_buildI|hibp::toc_build<"), toc_build),
                     (re.compile(r"^_ZN4hibp10toc_searchI|hibp::toc_search<"), toc_search)]

    def on_text(ex, st, os, v):
        if not appm.global_named(os, "_ZSt4cout"):
            return
        if v is None or isinstance(v, tuple) and v[0] != "rec":
            raise Unsupported("unknown text on standard output")
        if isinstance(v, appm.Fmt):
            recs = [a for t, a in v.args if isinstance(a, tuple) and a[0] == "rec"]
        else:
            recs = [v] if isinstance(v, tuple) and v[0] == "rec" else []
        for r in recs:
            n = zi(st.ghost["shown"])
            ex.oblige(st, "the needle shown is the hash of the query; the record shown is the one stored",
                      z3.Or(z3.And(n == 0, dbm.key(r[1], N) == K), z3.And(n == 1, present, r[1] == d.at(LB))))
            st.ghost["shown"] = i_add(n, 1)
        text = v if isinstance(v, str) else v.text if isinstance(v, appm.Fmt) else ""
        if "not found" in text:
            ex.oblige(st, "not found is only said when it is absent", z3.Not(present))
            st.ghost["said"] = i_add(st.ghost["said"], 1)
    appm.Texts(ex, on_text)
    ex.models["std::chrono::_V2::system_clock::now"] = now
    ex.loop_specs.append(dbm.lower_bound_spec(ex, d))
    m, f = ctx.find(ex, rf"^(void )?run_search<hibp::pawned_pw<{N}u|^_Z10run_searchI.*pawned_pwILj{N}E")
    out = ex.run_fn(m, f, [cli], st)
    s = out.st
    ex.skolem_idx += [LB, LB - 1]
    ex.oblige(s, "the record is shown exactly when it is present", zi(s.ghost["shown"]) == z3.If(present, z3.IntVal(2), z3.IntVal(1)))
    ex.oblige(s, "otherwise it is reported as not found", zi(s.ghost["said"]) == z3.If(present, z3.IntVal(0), z3.IntVal(1)))
    if hashed:
        ex.oblige(s, "a malformed hash gets no answer", VALID)
    for x in out.excs:
        ex.oblige(x, "an error is only reported for a failing file or a malformed hash",
                  z3.Or(zi(x.ghost["io"]) == 1, z3.And(z3.BoolVal(hashed), z3.Not(VALID))))
    s2 = s.fork()
    s2.assume(present)
    ctx.cover(ex, s2, "found")
    s2 = s.fork()
    s2.assume(z3.Not(present))
    ctx.cover(ex, s2, "not found")


def now(ex, st, args, dem):
    t = ex.fresh(st, 64, "now")
    st.assume(t < 1 << 62)
    return t


TARGETS += [Target(f"run_search<{k}> {'through a table' if t else 'directly'}, {'hash' if h else 'plain text'}", ["search"],
                   run_search, kind=k, toc=t, hashed=h) for k in dbm.KINDS for t in (False, True) for h in (False, True)]
TARGETS.append(Target("main of hibp-search", ["search"], mains.reading_main, tool="search"))
