"""C14: what is requested, and which answers are handed on."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop, str_parts, view_node, m_what
from . import appm, dbm, glue
from .C13 import acc

UNITS = {"requests": ("/verif/harness/requests.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["libcurl: a transfer added to the multi handle is reported done exactly once, with the private pointer and status code of "
               "that transfer; the write callback gets the body's bytes in order, size is 1; curl_easy_init, setopt and add_handle succeed",
               "std::unordered_map: insert adds a key unless it is there, extract and erase take it out, size counts",
               "allocation does not fail"]
MAP = r"^.*std::unordered_map<unsigned long, std::unique_ptr<hibp::dnl::download.*>::"
UP = r"std::unique_ptr<hibp::dnl::download, std::default_delete<hibp::dnl::download> ?>"
VEC = rf"^.*std::vector<{UP}, std::allocator<{UP} ?> ?>::"


TUNING = {237, 19, 20, 155, 13, 156, 78, 10102, 10018, 84, 99, 41}     # options that do not change what is requested or kept


class Slots:
    """the map of ranges being downloaded: how many there are, and one of them (or the one being added) in full"""

    def __init__(self, ctx, ex, st):
        self.ctx, self.ex = ctx, ex
        A = self.A = lambda nm, *a, st=st: acc(ctx, ex, st, nm, *a)
        self.k = {n: const_of(A(n)) for n in ("k_done", "k_ok", "k_private", "k_code", "k_opt_private", "k_opt_wf", "k_opt_wd", "k_opt_url")}
        self.map = None
        self.node = self.dl = None
        self.multi = Ptr(ex.new_obj(st, "multi", 8, content=CellC()), 0)
        ex.store(st, A("acc_multi"), self.multi, PTR)
        self.next, self.limit, self.par = A("acc_next_index"), A("acc_limit"), A("acc_parallel")
        lib.install_exceptions(ex)
        appm.Texts(ex, lambda *a: None)
        ex.contracts = [(re.compile(r"^hibp::dnl::thread_logger::log\("), nop), (re.compile(r"^curl_(easy|multi)_strerror$"), m_what)] + ex.contracts

    def close(self):
        """the map is only known through its contracts"""
        self.ex.contracts.append((re.compile(MAP), refuse))

    def is_map(self, p):
        if self.map is None:
            self.map = p.obj
        if p.obj is not self.map:
            raise Unsupported("another map")

    def a_download(self, st, name="dl"):
        """one download in its slot"""
        ex, A = self.ex, self.A
        d = self.dl = Ptr(ex.new_obj(st, name, A("acc_dl_size", st=st), "heap", content=CellC()), 0)
        self.index = ex.fresh(st, 64, "index")
        ex.store(st, A("acc_dl_index", d, st=st), self.index, IntT(64))
        appm.named_string(ex, st, A("acc_dl_prefix", d, st=st), "PREFIX")
        self.easy = Ptr(ex.new_obj(st, "easy", 8, content=CellC()), 0)
        ex.store(st, A("acc_dl_easy", d, st=st), self.easy, PTR)
        self.n = ex.fresh(st, 64, "received")
        st.assume(self.n < 1 << 40)
        self.body = Base("BODY", 8)
        self.bo = ex.new_obj(st, "buffer", 1 << 41, "heap", content=ArrC(1, self.body))
        self.vec = A("acc_dl_buffer", d, st=st)
        for off, v in ((0, Ptr(self.bo, 0)), (8, Ptr(self.bo, self.n)), (16, Ptr(self.bo, 1 << 41))):
            ex.store(st, ex.padd(self.vec, off), v, PTR)
        self.rl = A("acc_dl_retries", d, st=st)
        self.retries = ex.fresh(st, 32, "retries_left")
        st.assume(self.retries <= z3.IntVal(const_of(A("acc_max_retries", st=st))))
        ex.store(st, self.rl, self.retries, IntT(32))
        self.node = Ptr(ex.new_obj(st, "slot", 24, "heap", content=CellC()), 0)
        ex.store(st, self.node, Ptr(None, 0), PTR)
        ex.store(st, ex.padd(self.node, 8), self.index, IntT(64))
        ex.store(st, ex.padd(self.node, 16), d, PTR)
        return d

    def kept(self, st):
        """the bytes received are the ones that were there"""
        ex = self.ex
        b, e = ex.load(st, self.vec, PTR), ex.load(st, ex.padd(self.vec, 8), PTR)
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj and b.obj is not None):
            raise Unsupported("vector of received bytes")
        ex.oblige(st, "all bytes of the answer are kept", i_sub(e.off, b.off) == self.n)
        i = ex.fresh(st, 64, "any")
        s = st.fork()
        s.assume(i < self.n)
        if s.pc.dead or not ex.solver.feasible(s.pc):
            return
        ex.oblige(s, "the bytes of the answer are as received", to_bv(ex.load(s, ex.padd(b, i), IntT(8)), 8) == to_bv(self.body.read(zi(i), ex), 8))

    def size(self, st):
        b, e = self.ex.load(st, self.vec, PTR), self.ex.load(st, self.ex.padd(self.vec, 8), PTR)
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj):
            raise Unsupported("vector of received bytes")
        return zi(i_sub(e.off, b.off))


def refuse(ex, st, args, dem):
    raise Unsupported(f"no contract for {dem[:120]}")


def points(ex, p, obj):
    """p is a pointer to the start of obj"""
    if is_c(p):
        return z3.BoolVal(p == 0 and obj is None)
    if not isinstance(p, (Ptr, PtrU)):
        raise Unsupported("pointer")
    return z3.Or(*[z3.And(zb(c), zi(q.off) == 0) for c, q in ex.ptr_alts(p) if q.obj is obj])


def done_msg(ctx):
    ex = ctx.executor("process_curl_done_msg", int_widths=(32, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    A, k = sl.A, sl.k
    dl = sl.a_download(st)
    msg = Ptr(ex.new_obj(st, "CURLMsg", A("acc_msg_size"), content=CellC()), 0)
    ex.store(st, A("acc_msg_easy", msg), sl.easy, PTR)
    res = ex.fresh(st, 32, "result")
    ex.store(st, A("acc_msg_result", msg), res, IntT(32))
    ex.store(st, A("acc_msg_kind", msg), k["k_done"], IntT(32))
    code = ex.fresh(st, 64, "status")
    out_vec = Ptr(ex.new_obj(st, "batch", 24, content=CellC()), 0)
    st.ghost.update({"slot": 1, "multi": 1, "clean": 0, "batch": 0})
    g = lambda s, n: zi(s.ghost[n])

    def getinfo(ex, st, args, dem):
        what = const_of(args[1])
        ex.oblige(st, "asks about the transfer that is done", points(ex, args[0], sl.easy.obj))
        ex.oblige(st, "the handle has not been given back yet", g(st, "clean") == 0)
        if what == k["k_private"]:
            ex.store(st, args[2], dl, PTR)
        elif what == k["k_code"]:
            ex.store(st, args[2], code, IntT(64))
        else:
            raise Unsupported("curl_easy_getinfo")
        return 0

    def handle(st, h):
        ex.oblige(st, "acts on the transfer that is done", points(ex, h, sl.easy.obj))

    def remove(ex, st, args, dem):
        handle(st, args[1])
        ex.oblige(st, "the handle has not been given back yet", g(st, "clean") == 0)
        st.ghost["multi"] = 0
        return 0

    def add(ex, st, args, dem):
        handle(st, args[1])
        ex.oblige(st, "a transfer is only started again after it has been taken out", z3.And(g(st, "multi") == 0, g(st, "clean") == 0))
        ex.oblige(st, "no byte of a failed attempt is left when it starts again", sl.size(st) == 0)
        st.ghost["multi"] = 1
        return 0

    def cleanup(ex, st, args, dem):
        handle(st, args[0])
        ex.oblige(st, "a handle is given back once, after it was taken out", z3.And(g(st, "multi") == 0, g(st, "clean") == 0))
        st.ghost["clean"] = 1
        return None
    ex.contracts += [(re.compile(r"^curl_easy_getinfo$"), getinfo), (re.compile(r"^curl_multi_remove_handle$"), remove),
                     (re.compile(r"^curl_multi_add_handle$"), add), (re.compile(r"^curl_easy_cleanup$"), cleanup)]

    def key_is(st, v):
        ex.oblige(st, "the slot of this range", zi(norm(v)) == sl.index)

    def extract(ex, st, args, dem):
        sl.is_map(args[1])
        if isinstance(args[2], Ptr) and "const&)" in dem:
            key_is(st, ex.load(st, args[2], IntT(64)))
        elif args[2] is not sl.node and not (isinstance(args[2], Ptr) and args[2].obj is sl.node.obj):
            raise Unsupported("extract")
        ex.oblige(st, "the range is in its slot", g(st, "slot") == 1)
        st.ghost["slot"] = 0
        for off, v in ((0, sl.node), (8, ex.padd(sl.node, 8)), (16, ex.padd(sl.node, 16))):
            ex.store(st, ex.padd(args[0], off), v, PTR)
        return None

    def find(ex, st, args, dem):
        sl.is_map(args[0])
        key_is(st, ex.load(st, args[1], IntT(64)))
        ex.oblige(st, "the range is in its slot", g(st, "slot") == 1)
        return ex.padd(sl.node, 16) if "::at(" in dem or "operator[]" in dem else sl.node

    def erase(ex, st, args, dem):
        sl.is_map(args[0])
        if isinstance(args[1], Ptr) and args[1].obj is sl.node.obj:
            ret = Ptr(None, 0)
        elif "unsigned long const&)" in dem:
            key_is(st, ex.load(st, args[1], IntT(64)))
            ret = 1
        else:
            raise Unsupported("erase")
        ex.oblige(st, "the range is in its slot", g(st, "slot") == 1)
        st.ghost["slot"] = 0
        p = ex.load(st, ex.padd(sl.node, 16), PTR)
        ex.oblige(st, "an answer is not thrown away", points(ex, p, None))
        return ret

    def emplace(ex, st, args, dem):
        if not (isinstance(args[0], Ptr) and args[0].obj is out_vec.obj):
            raise Unsupported("another batch")
        p = ex.load(st, args[1], PTR)
        ex.oblige(st, "the range that is done is handed on", points(ex, p, dl.obj))
        ex.store(st, args[1], Ptr(None, 0), PTR)
        st.ghost["batch"] = i_add(st.ghost["batch"], 1)
        return args[1]
    ex.contracts += [(re.compile(MAP + r"extract\("), extract), (re.compile(MAP + r"(find|at|operator\[\])\("), find), (re.compile(MAP + r"erase\("), erase),
                     (re.compile(r"^std::_Node_handle(_common)?<.*>::~_Node_handle(_common)?\("), nop),
                     (re.compile(VEC + r"(emplace_back<.*>|push_back)\("), emplace)]
    sl.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::req::process_curl_done_msg\("), [msg, out_vec], st)
    good = z3.And(res == k["k_ok"], code == 200)
    s = out.st
    if s is not None and not s.pc.dead:
        ok, bad = s.fork(), s.fork()
        ok.assume(good)
        if ex.solver.feasible(ok.pc):
            ex.oblige(ok, "a complete answer is handed on once, and its slot is free again",
                      z3.And(g(ok, "batch") == 1, g(ok, "slot") == 0))
            sl.kept(ok)
            e = ex.load(ok, A("acc_dl_easy", dl, st=ok), PTR)
            ex.oblige(ok, "a handle that was given back is not used again", z3.Or(g(ok, "clean") == 0, points(ex, e, None)))
            ctx.cover(ex, ok, "complete answer")
        bad.assume(z3.Not(good))
        ex.oblige(bad, "only complete answers are handed on", z3.And(g(bad, "batch") == 0, g(bad, "slot") == 1))
        ex.oblige(bad, "a failed attempt is made again", z3.And(g(bad, "multi") == 1, g(bad, "clean") == 0))
        ex.oblige(bad, "a failed attempt is only made again while there are attempts left", sl.retries > 0)
        ex.oblige(bad, "a failed attempt uses up one of the attempts left", zi(norm(ex.load(bad, sl.rl, IntT(32)))) == sl.retries - 1)
        ex.oblige(bad, "no byte of a failed attempt is left", sl.size(bad) == 0)
        ctx.cover(ex, bad, "failed attempt")
    for x in out.excs:
        ex.oblige(x, "the download only fails when an attempt failed and none is left", z3.And(z3.Not(good), sl.retries == 0))
        ex.oblige(x, "nothing is handed on then", g(x, "batch") == 0)


def received(ctx):
    """write_data_curl_cb: the bytes go to the end of what was received"""
    ex = ctx.executor("write_data_curl_cb", int_widths=(32, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    dl = sl.a_download(st)
    n = ex.fresh(st, 64, "nmemb")
    st.assume(n < 1 << 40)
    data = Base("data", 8)
    src = Ptr(ex.new_obj(st, "data", n, content=ArrC(1, data)), 0)
    st.ghost["pos"] = 0
    V = r"^.*std::vector<char, std::allocator<char> ?>::"

    def own(p):
        if not (isinstance(p, Ptr) and p.obj is sl.vec.obj and p.off == sl.vec.off):
            raise Unsupported("another vector")

    def put(st, p, cnt):
        if not (isinstance(p, Ptr) and p.obj is src.obj):
            ex.oblige(st, "what is received is kept", False)
            return
        ex.oblige(st, "the next bytes received are kept", zi(p.off) == zi(st.ghost["pos"]))
        st.ghost["pos"] = i_add(st.ghost["pos"], cnt)

    def push_back(ex, st, args, dem):
        own(args[0])
        p = args[1]
        if isinstance(p, Ptr) and p.obj is not src.obj:
            v = to_bv(ex.load(st, p, IntT(8)), 8)
            ex.oblige(st, "the next byte received is kept", z3.And(zi(st.ghost["pos"]) < n, v == to_bv(data.read(zi(st.ghost["pos"]), ex), 8)))
            st.ghost["pos"] = i_add(st.ghost["pos"], 1)
            return None
        put(st, p, 1)
        return p

    def insert(ex, st, args, dem):
        own(args[0])
        at, a, b = args[1:4]
        if not (isinstance(at, Ptr) and at.obj is sl.bo and isinstance(b, Ptr) and isinstance(a, Ptr)):
            raise Unsupported("insert")
        ex.oblige(st, "what is received goes to the end", zi(at.off) == sl.n)
        put(st, a, i_sub(b.off, a.off))
        return at
    ex.contracts += [(re.compile(V + r"(push_back|emplace_back<.*>)\("), push_back), (re.compile(V + r"(insert<char( const)?\*.*>|_M_range_insert<.*>)\("), insert)]

    def cands(ex, ctx_, H, mods, k):
        return [lambda s, k: zi(s.ghost["pos"]) == k]
    ex.cand_gens.append(cands)
    out = ex.run_fn(*ctx.find(ex, r"^(unsigned long )?hibp::dnl::req::write_data_curl_cb\("), [src, 1, n, dl], st)
    s = out.st
    ex.oblige(s, "all bytes received are kept", zi(s.ghost["pos"]) == n)
    ex.oblige(s, "and curl is told so", zi(norm(out.val)) == n)
    sl.kept(s)
    ex.oblige(s, "nothing else of the download changes", z3.And(zi(norm(ex.load(s, sl.rl, IntT(32)))) == sl.retries, zi(norm(ex.load(s, sl.A("acc_dl_index", dl, st=s), IntT(64)))) == sl.index))
    ctx.cover(ex, s, "end")


def messages(ctx):
    """process_curl_messages: every transfer that is done is dealt with, and what it gave is passed on whole"""
    ex = ctx.executor("process_curl_messages", int_widths=(32, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    A, k = sl.A, sl.k
    msg = Ptr(ex.new_obj(st, "CURLMsg", A("acc_msg_size"), content=CellC()), 0)
    kind = A("acc_msg_kind", msg)
    st.ghost.update({"open": 0, "drained": 0, "batch": 0, "free": 0, "enq": 0, "stop": 0, "failed": 0, "alive": 0})
    g = lambda s, n: zi(s.ghost[n])

    def info_read(ex, st, args, dem):
        ex.oblige(st, "a transfer that is done is dealt with before the next is asked for", g(st, "open") == 0)
        more, done = ex.fresh(st, 64, "more"), ex.fresh(st, 64, "done")
        st.assume(z3.And(more <= 1, done <= 1))
        st.ghost["drained"] = 1 - more
        st.ghost["open"] = z3.If(z3.And(more == 1, done == 1), z3.IntVal(1), z3.IntVal(0))
        kv = ex.fresh(st, 32, "kind")
        st.assume((done == 1) == (kv == k["k_done"]))
        ex.store(st, kind, kv, IntT(32))
        left = ex.fresh(st, 32, "pending")
        st.assume(z3.Implies(more == 0, left == 0))
        ex.store(st, args[1], left, IntT(32))
        return PtrU([(more == 1, msg), (more != 1, Ptr(None, 0))])

    def done(ex, st, args, dem):
        ex.oblige(st, "only transfers that are done are dealt with", z3.And(g(st, "open") == 1, points(ex, args[0], msg.obj)))
        own(args[1])
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["failed"] = 1
        ok = ex.fresh(st, 64, "complete")
        st.assume(ok <= 1)
        st.ghost["open"] = 0
        st.ghost["batch"] = g(st, "batch") + ok
        st.ghost["free"] = z3.If(ok == 1, z3.IntVal(1), g(st, "free"))
        st.assume(g(st, "batch") < 1 << 50)
        return Out(st, None, [bad])

    def vec_new(ex, st, args, dem):
        ex.oblige(st, "no answer is lost with its batch", g(st, "batch") == 0)
        sl.batch = args[0].obj
        return None

    def vec_del(ex, st, args, dem):
        ex.oblige(st, "no answer is lost with its batch", z3.Or(g(st, "batch") == 0, g(st, "failed") == 1))
        return None

    def own(p):
        if not (isinstance(p, Ptr) and p.obj is sl.batch):
            raise Unsupported("another batch")

    def empty(ex, st, args, dem):
        own(args[0])
        return g(st, "batch") == 0

    def size(ex, st, args, dem):
        own(args[0])
        return g(st, "batch")

    def enqueue(ex, st, args, dem):
        own(args[0])
        st.ghost["batch"] = 0
        return None

    def fill(ex, st, args, dem):
        st.ghost["free"] = 0
        return None

    def stop(ex, st, args, dem):
        v = ex.fresh(st, 64, "stop")
        st.assume(v <= 1)
        st.ghost["stop"] = v
        return v == 1
    ex.contracts = [(re.compile(r"^curl_multi_info_read$"), info_read), (re.compile(r"^(void )?hibp::dnl::req::process_curl_done_msg\("), done),
                    (re.compile(VEC + r"vector\(\)"), vec_new), (re.compile(VEC + r"~vector\("), vec_del), (re.compile(VEC + r"empty\("), empty),
                    (re.compile(VEC + r"size\("), size), (re.compile(r"^(void )?hibp::dnl::enqueue_downloads_for_writing\("), enqueue),
                    (re.compile(r"^(void )?hibp::dnl::req::fill_download_queue\("), fill), (re.compile(r"^std::stop_token::stop_requested\("), stop),
                    (re.compile(VEC), refuse)] + ex.contracts

    def cands(ex, ctx_, H, mods, k):
        out = [lambda s, k, n=n, v=v: g(s, n) == v for n in ("open", "failed", "drained", "free", "stop") for v in (0, 1)]
        return out + [lambda s, k: g(s, "batch") >= 0]
    ex.cand_gens.append(cands)
    sl.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::req::process_curl_messages\("), [], st)
    s = out.st
    ex.oblige(s, "every transfer that is done is dealt with", z3.And(g(s, "drained") == 1, g(s, "open") == 0))
    ex.oblige(s, "every complete answer is passed on", g(s, "batch") == 0)
    ex.oblige(s, "free slots are filled again", g(s, "free") == 0)
    for x in out.excs:
        ex.oblige(x, "only a failed download or a stop ends it", z3.Or(g(x, "failed") == 1, g(x, "stop") == 1))
    ctx.cover(ex, s, "end")


def counters(sl, ex, st):
    """next range, limit and the number of slots in use, within what the callers establish"""
    n0, lim, par, c = (ex.fresh(st, 64, x) for x in ("next", "limit", "parallel_max", "slots"))
    st.assume(z3.And(n0 <= lim, lim <= 1 << 20, par >= 1, c <= par))
    for p, v in ((sl.next, n0), (sl.limit, lim), (sl.par, par)):
        ex.store(st, p, v, IntT(64))
    st.ghost.update({"slots": c, "added": 0})
    return n0, lim, par, c


def fill(ctx):
    ex = ctx.executor("fill_download_queue")
    st = State()
    sl = Slots(ctx, ex, st)
    n0, lim, par, c = counters(sl, ex, st)
    g = lambda s, n: zi(s.ghost[n])

    def add(ex, st, args, dem):
        ex.oblige(st, "never more requests than configured", g(st, "slots") < par)
        ex.oblige(st, "the next range is requested", zi(norm(args[0])) == n0 + g(st, "added"))
        ex.oblige(st, "no range beyond the limit is requested", zi(norm(args[0])) < lim)
        st.ghost["slots"] = g(st, "slots") + 1
        st.ghost["added"] = g(st, "added") + 1
        return None

    def size(ex, st, args, dem):
        sl.is_map(args[0])
        return g(st, "slots")
    ex.contracts = [(re.compile(r"^(void )?hibp::dnl::req::add_download\("), add), (re.compile(MAP + r"size\("), size),
                    (re.compile(MAP + r"empty\("), lambda e, s, a, d: g(s, "slots") == 0)] + ex.contracts

    def cands(ex, ctx_, H, mods, k):
        nx = lambda s: zi(ex.load(s.fork(), sl.next, IntT(64)))
        out = [lambda s, k: g(s, "added") == k, lambda s, k: g(s, "slots") == c + k, lambda s, k: g(s, "slots") <= par,
               lambda s, k: nx(s) == n0 + g(s, "added"), lambda s, k: nx(s) <= lim, lambda s, k: n0 + k <= lim]
        return out + appm.step_cands(ctx_, mods, H)
    ex.cand_gens.append(cands)
    sl.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::req::fill_download_queue\("), [], st)
    s = out.st
    nx = zi(ex.load(s, sl.next, IntT(64)))
    ex.oblige(s, "the next range to request is the one after those requested", nx == n0 + g(s, "added"))
    ex.oblige(s, "as many as configured are requested, or all", z3.Or(g(s, "slots") == par, nx == lim))
    for x in out.excs:
        ex.oblige(x, "does not fail", False)
    ctx.cover(ex, s, "end")


def event_loop(ctx):
    ex = ctx.executor("run_event_loop", int_widths=(8, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    n0, lim, par, c = counters(sl, ex, st)
    start = ex.fresh(st, 64, "start")
    testing = ex.fresh(st, 8, "testing")
    st.assume(z3.And(start <= lim, testing <= 1, c == 0))
    st.ghost.update({"filled": 0, "ran": 0, "fin": 0})
    g = lambda s, n: zi(s.ghost[n])

    def fill(ex, st, args, dem):
        ex.oblige(st, "the first requests start at the first range", z3.And(zi(ex.load(st, sl.next, IntT(64))) == start, g(st, "ran") == 0))
        ex.oblige(st, "the limit is left alone", zi(ex.load(st, sl.limit, IntT(64))) == lim)
        st.ghost["filled"] = 1
        return None

    def dispatch(ex, st, args, dem):
        ex.oblige(st, "requests are made before the events are waited for", g(st, "filled") == 1)
        st.ghost["ran"] = 1
        return ex.fresh(st, 32, "dispatch")

    def fin(ex, st, args, dem):
        ex.oblige(st, "the end is announced once all is done", z3.And(g(st, "ran") == 1, g(st, "fin") == 0))
        st.ghost["fin"] = 1
        return None
    ex.contracts = [(re.compile(r"^(void )?hibp::dnl::req::fill_download_queue\("), fill), (re.compile(r"^event_base_(dispatch|loop)$"), dispatch),
                    (re.compile(r"^(void )?hibp::dnl::finished_downloads\("), fin), (re.compile(r"^std::stop_token::(operator=|stop_token|~stop_token)"), nop)] + ex.contracts
    tok = Ptr(ex.new_obj(st, "stoken", 8, content=CellC()), 0)
    sl.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::run_event_loop\("), [start, testing == 1, tok], st)
    ex.oblige(out.st, "the end is announced", g(out.st, "fin") == 1)
    ctx.cover(ex, out.st, "end")


def new_download(ctx):
    """a new download: nothing received, five more attempts, the range number as text"""
    ex = ctx.executor("download(index)", int_widths=(32, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    A = sl.A
    i = ex.fresh(st, 64, "index")
    st.assume(i < 1 << 20)
    p = Ptr(ex.new_obj(st, "dl", A("acc_dl_size"), "heap", content=CellC()), 0)
    out = ex.run_fn(*ctx.find(ex, r"^mk_download\("), [p, i], st)
    s = out.st
    sl.vec = A("acc_dl_buffer", p, st=s)
    ex.oblige(s, "it is for this range", zi(ex.load(s, A("acc_dl_index", p, st=s), IntT(64))) == i)
    ex.oblige(s, "it is tried again at most five times", zi(norm(ex.load(s, A("acc_dl_retries", p, st=s), IntT(32)))) <= 5)
    ex.oblige(s, "nothing has been received", sl.size(s) == 0)
    o = appm.str_origin(ex, s, A("acc_dl_prefix", p, st=s))
    if not isinstance(o, appm.Fmt) or o.text not in ("{:05X}", "{0:05X}") or len(o.args) != 1:
        raise Unsupported(f"prefix {o}")
    ex.oblige(s, "the range number is that of this range", zi(norm(o.args[0][1])) == i)
    ctx.cover(ex, s, "end")


def add_download(ctx):
    """add_download(index): one request, for this range, whose answer goes to this range's download"""
    ex = ctx.executor("add_download", int_widths=(8, 32, 64))
    st = State()
    sl = Slots(ctx, ex, st)
    A, k = sl.A, sl.k
    i = ex.fresh(st, 64, "index")
    st.assume(i < 1 << 20)
    ntlm, testing = ex.fresh(st, 8, "ntlm"), ex.fresh(st, 8, "testing")
    st.assume(z3.And(ntlm <= 1, testing <= 1))
    for nm, v in (("acc_ntlm", ntlm), ("acc_req_testing", testing)):
        ex.store(st, A(nm), v, IntT(8))
    easy = Ptr(ex.new_obj(st, "easy", 8, content=CellC()), 0)
    st.ghost.update({"slot": 0, "made": 0, "multi": 0, "private": 0, "wd": 0, "wf": 0, "url": 0})
    g = lambda s, n: zi(s.ghost[n])
    sl.node = Ptr(ex.new_obj(st, "slot", 24, "heap", content=CellC()), 0)
    is_dl = lambda st, p: points(ex, p, getattr(sl, "dlobj", 0))

    def insert(ex, st, args, dem):
        sl.is_map(args[0])
        if len(args) == 2:
            key, own = ex.load(st, args[1], IntT(64)), ex.padd(args[1], 8)
        else:
            key, own = ex.load(st, args[1], IntT(64)), args[2]
        p = ex.load(st, own, PTR)
        if not (isinstance(p, Ptr) and p.obj is not None):
            raise Unsupported("insert")
        ex.oblige(st, "the slot is that of the range", zi(norm(key)) == i)
        ex.oblige(st, "the download is that of the range", zi(norm(ex.load(st, A("acc_dl_index", p, st=st), IntT(64)))) == i)
        ex.oblige(st, "one slot per range", g(st, "slot") == 0)
        sl.dlobj = p.obj
        ex.store(st, own, Ptr(None, 0), PTR)
        ex.store(st, sl.node, Ptr(None, 0), PTR)
        ex.store(st, ex.padd(sl.node, 8), key, IntT(64))
        ex.store(st, ex.padd(sl.node, 16), p, PTR)
        st.ghost["slot"] = 1
        return Agg([sl.node, 1])

    def url(ex, st, args, dem):
        o = appm.str_origin(ex, st, args[1])
        if not isinstance(o, appm.Fmt) or o.text not in ("{:05X}", "{0:05X}") or len(o.args) != 1:
            raise Unsupported(f"prefix {o}")
        same = z3.And(zi(norm(o.args[0][1])) == i, flag(args[2]) == (ntlm == 1), flag(args[3]) == (testing == 1))
        appm.named_string(ex, st, args[0], "URL")
        st.ghost["urlok"] = z3.If(same, z3.IntVal(1), z3.IntVal(0))
        return None

    def flag(v):
        if not is_c(v) and z3.is_bool(v):
            return v
        return z3.BoolVal(bool(v)) if is_c(v) else zi(norm(v)) != 0

    def init(ex, st, args, dem):
        ex.oblige(st, "one request per range", g(st, "made") == 0)
        st.ghost["made"] = 1
        return easy

    def setopt(ex, st, args, dem):
        ex.oblige(st, "options are those of the new request", z3.And(points(ex, args[0], easy.obj), g(st, "multi") == 0))
        what, v = const_of(args[1]), args[2]
        if what == k["k_opt_private"]:
            st.ghost["private"] = z3.If(is_dl(st, v), z3.IntVal(1), z3.IntVal(0))
        elif what == k["k_opt_wd"]:
            st.ghost["wd"] = z3.If(is_dl(st, v), z3.IntVal(1), z3.IntVal(0))
        elif what == k["k_opt_wf"]:
            if not isinstance(v, FnPtr):
                raise Unsupported("write function")
            st.ghost["wf"] = int(v.name == ctx.find(ex, r"^(unsigned long )?hibp::dnl::req::write_data_curl_cb\(")[1])
        elif what == k["k_opt_url"]:
            if appm.origin(ex, st, v) != "URL":
                raise Unsupported("URL")
            st.ghost["url"] = st.ghost["urlok"]
        elif what not in TUNING:
            raise Unsupported(f"option {what}")
        return 0

    def add(ex, st, args, dem):
        ex.oblige(st, "the request is made once", z3.And(points(ex, args[1], easy.obj), g(st, "multi") == 0))
        for n, t in (("private", "the finished transfer is found to be that of this range"), ("wd", "what is received goes to this range"),
                     ("wf", "what is received is kept"), ("url", "the address is that of this range")):
            ex.oblige(st, t, g(st, n) == 1)
        st.ghost["multi"] = 1
        return 0
    ex.contracts = [(re.compile(r"^hibp::url(\[abi:cxx11\])?\("), url), (re.compile(MAP + r"(insert(<.*>)?|emplace<.*>|try_emplace<.*>)\("), insert),
                    (re.compile(r"^curl_easy_init$"), init), (re.compile(r"^curl_easy_setopt$"), setopt), (re.compile(r"^curl_multi_add_handle$"), add)] + ex.contracts
    sl.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::req::add_download\("), [i], st)
    s = out.st
    ex.oblige(s, "the range is requested", z3.And(g(s, "multi") == 1, g(s, "slot") == 1))
    e = ex.load(s, A("acc_dl_easy", Ptr(sl.dlobj, 0), st=s), PTR)
    ex.oblige(s, "the download knows its request", points(ex, e, easy.obj))
    for x in out.excs:
        ex.oblige(x, "does not fail", False)
    ctx.cover(ex, s, "end")


def history(ctx):
    """whatever happens in whatever order: each range up to the limit is handed on exactly once (from the contracts above)"""
    ex = ctx.executor("every range is handed on exactly once")
    st = State()
    I = z3.Int
    start, lim, par, nx, slots, i = (I(n) for n in ("start", "limit", "parallel", "next", "slots", "i"))
    sl, h = I("in.slot"), I("handed.on")
    inv = lambda nx, slots, sl, h: z3.And(start <= nx, nx <= lim, slots <= par, slots >= sl, sl >= 0, h >= 0,
                                          sl + h == z3.If(z3.And(start <= i, i < nx), 1, 0))
    st.assume(z3.And(0 <= start, start <= lim, par >= 1))
    s0 = st.fork()
    ex.oblige(s0, "at the start", inv(start, I("zero") * 0, z3.IntVal(0), z3.IntVal(0)))
    st.assume(inv(nx, slots, sl, h))
    a = st.fork()
    a.assume(z3.And(slots < par, nx < lim))
    ex.oblige(a, "a range to be requested is not in a slot yet", z3.Implies(i == nx, sl == 0))
    ex.oblige(a, "a range is requested", inv(nx + 1, slots + 1, z3.If(i == nx, 1, sl), h))
    d = st.fork()
    x = I("done")
    d.assume(z3.And(slots >= 1, z3.Implies(x == i, sl == 1), z3.Implies(z3.And(x != i, sl == 1), slots >= 2)))
    ex.oblige(d, "an answer is complete", inv(nx, slots - 1, z3.If(i == x, 0, sl), z3.If(i == x, h + 1, h)))
    e = st.fork()
    e.assume(z3.And(slots == 0, z3.Or(slots == par, nx == lim)))
    ex.oblige(e, "at the end every range has been handed on once", z3.Implies(z3.And(start <= i, i < lim), h == 1))
    ctx.cover(ex, e, "end")


TARGETS = [Target("process_curl_done_msg", ["requests"], done_msg), Target("write_data_curl_cb", ["requests"], received),
           Target("process_curl_messages", ["requests"], messages), Target("fill_download_queue", ["requests"], fill),
           Target("run_event_loop", ["requests"], event_loop), Target("add_download", ["requests"], add_download), Target("download(index)", ["requests"], new_download),
           Target("every range is handed on exactly once", [], history)]
TARGETS += [Target("start_timeout_curl_cb", ["requests"], glue.timer), Target("curl_perform_event_cb and timeout_event_cb", ["requests"], glue.event),
            Target("init_curl_and_events", ["requests"], glue.init)]
TARGETS += [Target(f"handle_socket_curl_cb ({t})", ["requests"], glue.socket, has=h) for t, h in (("new socket", False), ("known socket", True))]
ASSUMPTIONS += glue.ASSUMPTIONS
