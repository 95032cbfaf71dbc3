"""what ties libcurl and libevent together (src/dnl/requests.cpp), and a single request (curl_sync_get)"""
import re
import z3
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import appm, dbm


def rq():
    from . import C14
    return C14


K = ("k_in", "k_out", "k_inout", "k_remove", "k_read", "k_write", "k_persist", "k_sel_in", "k_sel_out", "k_timeout", "k_m_socket", "k_m_timer")
ASSUMPTIONS = ["libevent: event_new makes an event that is not watched, event_assign changes one that is not watched, event_add watches it, event_del "
               "stops that, and a watched event calls its function with its argument",
               "libcurl: the socket function is called with the pointer last given to curl_multi_assign for that socket, or null (also again after "
               "CURL_POLL_REMOVE), and the timer function with the time to wait, or -1",
               "libcurl: curl_easy_perform hands the body to the write function in order and returns CURLE_OK when it is complete"]


class Glue:
    def __init__(self, ctx, name, widths=(8, 16, 32, 64)):
        C14 = rq()
        self.ctx, self.C14 = ctx, C14
        ex = self.ex = ctx.executor(name, int_widths=widths)
        st = self.st = State()
        sl = self.sl = C14.Slots(ctx, ex, st)
        self.A = sl.A
        self.k = {n: const_of(sl.A(n)) for n in K}
        self.k = {n: v - (1 << 32) if isinstance(v, int) and v >= 1 << 31 else v for n, v in self.k.items()}
        self.base = self.handle("event_base")
        self.timer = self.handle("timer")
        ex.store(st, self.A("acc_ebase"), self.base, PTR)
        ex.store(st, self.A("acc_timeout"), self.timer, PTR)

    def handle(self, name):
        return Ptr(self.ex.new_obj(self.st, name, 8, content=CellC()), 0)

    def fn(self, rx):
        return self.ctx.find(self.ex, rx)

    def is_fn(self, v, rx):
        if not isinstance(v, FnPtr):
            raise Unsupported("function pointer")
        return z3.BoolVal(v.name == self.fn(rx)[1])

    def add(self, *cs):
        self.ex.contracts = [(re.compile(a), b) for a, b in cs] + self.ex.contracts

    def is_(self, st, what, p, h):
        self.ex.oblige(st, what, self.C14.points(self.ex, p, h.obj))


g = lambda s, n: zi(s.ghost[n])
NS = r"^(void |int |unsigned long |char )?hibp::dnl::"


def timer(ctx):
    """start_timeout_curl_cb: the timer is set for the time that curl asked for"""
    G = Glue(ctx, "start_timeout_curl_cb")
    ex, st, A = G.ex, G.st, G.A
    ms = z3.BitVec("ms", 64)
    st.ghost.update({"set": 0, "us": 0, "was": ex.fresh(st, 8, "was")})
    st.assume(g(st, "was") <= 1)
    st.ghost["set"] = st.ghost["was"]

    def dele(ex, st, args, dem):
        G.is_(st, "the timer", args[0], G.timer)
        st.ghost["set"] = 0
        return 0

    def add(ex, st, args, dem):
        G.is_(st, "the timer", args[0], G.timer)
        sec, us = [to_bv(ex.load(st, A(n, args[1], st=st), IntT(64)), 64) for n in ("acc_tv_sec", "acc_tv_usec")]
        is_time = lambda t: z3.And(us == z3.SRem(t, z3.BitVecVal(1000, 64)) * 1000, sec == t / z3.BitVecVal(1000, 64))
        ex.oblige(st, "the time is the one that curl asked for, at most 1 ms for none", z3.Or(is_time(ms), z3.And(ms == 0, is_time(z3.BitVecVal(1, 64)))))
        ex.oblige(st, "no time is waited for when curl wants none", ms >= 0)
        st.ghost["set"] = 1
        return 0
    G.add((r"^event_del$", dele), (r"^event_add$", add))
    G.sl.close()
    out = ex.run_fn(*G.fn(NS + r"req::start_timeout_curl_cb\("), [Ptr(None, 0), ms, Ptr(None, 0)], st)
    s = out.st
    ex.oblige(s, "curl is told that it worked", zi(norm(out.val)) == 0)
    ex.oblige(s, "the timer runs if and only if curl wants to wait", (g(s, "set") == 1) == (ms >= 0))
    for x in out.excs:
        ex.oblige(x, "does not fail", False)
    ctx.cover(ex, s, "end")


def socket(ctx, has):
    """handle_socket_curl_cb: the socket is watched for what curl asked for, until curl no longer wants that"""
    G = Glue(ctx, "handle_socket_curl_cb")
    ex, st, A, k = G.ex, G.st, G.A, G.k
    fd, action = ex.fresh(st, 32, "socket"), ex.fresh(st, 32, "action")
    st.assume(fd < 1 << 31)
    E = G.handle("event")
    st.ghost.update({"freed": 0, "gone": 0, "watched": 0, "flags": 0, "made": 0, "fn": 0, "fd": 0, "assigned": 0, "ctx": None, "arg": None, "told": None})
    C = None
    if has:
        C = Ptr(ex.new_obj(st, "context", A("acc_ctx_size"), "heap", content=CellC()), 0)
        ex.store(st, A("acc_ctx_event", C), E, PTR)
        ex.store(st, A("acc_ctx_fd", C), fd, IntT(32))
        w = ex.fresh(st, 8, "was")
        st.assume(w <= 1)
        st.ghost.update({"watched": w, "made": 1})

    def mine(st, p):
        G.is_(st, "the event of this socket", p, E)
        ex.oblige(st, "an event is not used after it is given back", g(st, "freed") == 0)

    def new(ex, st, args, dem):
        G.is_(st, "events are those of the loop", args[0], G.base)
        ex.oblige(st, "one event per socket", g(st, "made") == 0)
        st.ghost["made"] = 1
        return E

    def dele(ex, st, args, dem):
        mine(st, args[0])
        st.ghost["watched"] = 0
        return 0

    def assign(ex, st, args, dem):
        mine(st, args[0])
        G.is_(st, "events are those of the loop", args[1], G.base)
        ex.oblige(st, "an event that is watched is not changed", g(st, "watched") == 0)
        st.ghost["fd"] = z3.If(zi(norm(args[2])) == fd, z3.IntVal(1), z3.IntVal(0))
        st.ghost["flags"] = z3.BV2Int(z3.Extract(15, 0, to_bv(args[3], 16) if not is_c(args[3]) else z3.BitVecVal(args[3] & 0xffff, 16)))
        st.ghost["fn"] = z3.If(G.is_fn(args[4], NS + r"req::curl_perform_event_cb\("), z3.IntVal(1), z3.IntVal(0))
        st.ghost["arg"] = appm.Boxed(args[5])
        return 0

    def add(ex, st, args, dem):
        mine(st, args[0])
        if not (isinstance(args[1], Ptr) and args[1].obj is None):
            raise Unsupported("event with a time")
        st.ghost["watched"] = 1
        return 0

    def free(ex, st, args, dem):
        mine(st, args[0])
        st.ghost["freed"], st.ghost["watched"] = 1, 0
        return None

    def tell(ex, st, args, dem):
        G.is_(st, "curl's own handle", args[0], G.sl.multi)
        ex.oblige(st, "curl is told about this socket", zi(norm(args[1])) == fd)
        st.ghost["told"] = appm.Boxed(args[2])
        return 0
    G.add((r"^event_new$", new), (r"^event_del$", dele), (r"^event_assign$", assign), (r"^event_add$", add), (r"^event_free$", free), (r"^curl_multi_assign$", tell))
    G.sl.close()
    F = G.fn(NS + r"req::handle_socket_curl_cb\(")
    null = Ptr(None, 0)
    for kind in ("k_in", "k_out", "k_inout", "k_remove", None):
        s = st.fork()
        if kind:
            s.assume(action == k[kind])
        else:
            s.assume(z3.And(*[action != k[n] for n in ("k_in", "k_out", "k_inout", "k_remove")]))
        out = ex.run_fn(*F, [null, fd, k[kind] if kind else action, null, C or null], s)
        o = out.st
        if kind is None:
            if o is not None and not o.pc.dead:
                ex.oblige(o, "an unknown request is an error", False)
            continue
        for x in out.excs:
            ex.oblige(x, "does not fail", False)
        ex.oblige(o, "curl is told that it worked", zi(norm(out.val)) == 0)
        if kind == "k_remove":
            ex.oblige(o, "a socket that curl no longer wants is not watched", g(o, "watched") == 0)
            ex.oblige(o, "its event is given back", g(o, "freed") == g(o, "made"))
        else:
            want = {"k_in": k["k_read"], "k_out": k["k_write"], "k_inout": k["k_read"] | k["k_write"]}[kind] | k["k_persist"]
            ex.oblige(o, "the socket is watched for what curl asked for", z3.And(g(o, "watched") == 1, g(o, "freed") == 0, g(o, "made") == 1, g(o, "fd") == 1,
                      g(o, "flags") == want))
            ex.oblige(o, "what happens on it is handed to curl", g(o, "fn") == 1)
            t, a = o.ghost["told"], o.ghost["arg"]
            if not isinstance(t, appm.Boxed) and has:
                t = appm.Boxed(C)                   # curl has it already
            if not isinstance(t, appm.Boxed) or not isinstance(a, appm.Boxed) or not isinstance(t.v, Ptr) or not isinstance(a.v, Ptr):
                raise Unsupported("context")
            ex.oblige(o, "curl and the event have the same context", z3.BoolVal(t.v.obj is a.v.obj and const_of(t.v.off) == 0 and const_of(a.v.off) == 0))
            if t.v.obj is None:
                raise Unsupported("context")
            ex.oblige(o, "which knows the event", G.C14.points(ex, ex.load(o, A("acc_ctx_event", t.v, st=o), PTR), E.obj))
            ex.oblige(o, "and the socket", zi(norm(ex.load(o, A("acc_ctx_fd", t.v, st=o), IntT(32)))) == fd)
        ctx.cover(ex, o, kind)


def event(ctx):
    """curl_perform_event_cb and timeout_event_cb: curl is told what happened, and what it has finished is taken over"""
    G = Glue(ctx, "curl_perform_event_cb")
    ex, st, A, k = G.ex, G.st, G.A, G.k
    fd, ev = ex.fresh(st, 32, "socket"), z3.BitVec("event", 16)
    st.assume(fd < 1 << 31)
    C = Ptr(ex.new_obj(st, "context", A("acc_ctx_size"), "heap", content=CellC()), 0)
    ex.store(st, A("acc_ctx_fd", C), fd, IntT(32))
    st.ghost.update({"act": 0, "done": 0})
    timed = [False]

    def act(ex, st, args, dem):
        G.is_(st, "curl's own handle", args[0], G.sl.multi)
        ex.oblige(st, "curl is told once", g(st, "act") == 0)
        s, f = to_bv(args[1], 32), to_bv(args[2], 32)
        if timed[0]:
            ex.oblige(st, "curl is told that the time is over", z3.And(s == z3.BitVecVal(k["k_timeout"], 32), f == 0))
        else:
            bit = lambda c, m: z3.If(z3.Extract(15, 0, z3.BitVecVal(k[c], 32)) & ev != 0, z3.BitVecVal(k[m], 32), z3.BitVecVal(0, 32))
            ex.oblige(st, "curl is told what happened on this socket", z3.And(z3.BV2Int(s) == fd, f == bit("k_read", "k_sel_in") | bit("k_write", "k_sel_out")))
        st.ghost["act"] = 1
        return 0

    def done(ex, st, args, dem):
        ex.oblige(st, "what curl has finished is taken over after it was told", g(st, "act") == 1)
        bad = lib.fork_throw(ex, st, dbm.RT)
        st.ghost["done"] = 1
        return Out(st, None, [bad])
    G.add((r"^curl_multi_socket_action$", act), (NS + r"req::process_curl_messages\(", done))
    G.sl.close()
    for rx, args, t in ((r"req::curl_perform_event_cb\(", [fd, ev, C], False), (r"req::timeout_event_cb\(", [ex.fresh(st, 32, "fd"), ev, Ptr(None, 0)], True)):
        timed[0] = t
        out = ex.run_fn(*G.fn(NS + rx), args, st.fork())
        ex.oblige(out.st, "what curl has finished is taken over", g(out.st, "done") == 1)
        ctx.cover(ex, out.st, rx)


def init(ctx):
    """init_curl_and_events: curl uses the functions above"""
    G = Glue(ctx, "init_curl_and_events")
    ex, st, A, k = G.ex, G.st, G.A, G.k
    st.ghost.update({"global": 0, "sock": 0, "time": 0, "tm": 0})
    nb, nt, nm = G.handle("new_base"), G.handle("new_timer"), G.handle("new_multi")
    res = ex.fresh(st, 32, "global_init")

    def ginit(ex, st, args, dem):
        st.ghost["global"] = 1
        return res

    def timer_new(ex, st, args, dem):
        G.is_(st, "the timer is one of the new loop", args[0], nb)
        st.ghost["tm"] = z3.If(G.is_fn(args[3], NS + r"req::timeout_event_cb\("), z3.IntVal(1), z3.IntVal(0))
        return nt

    def opt(ex, st, args, dem):
        G.is_(st, "options are those of the new handle", args[0], nm)
        w = const_of(args[1])
        if w == k["k_m_socket"]:
            st.ghost["sock"] = z3.If(G.is_fn(args[2], NS + r"req::handle_socket_curl_cb\("), z3.IntVal(1), z3.IntVal(0))
        elif w == k["k_m_timer"]:
            st.ghost["time"] = z3.If(G.is_fn(args[2], NS + r"req::start_timeout_curl_cb\("), z3.IntVal(1), z3.IntVal(0))
        elif w not in (3, 6, 7, 8, 13, 16):          # pipelining and limits on connections
            raise Unsupported(f"option {w}")
        return 0

    def first(p):
        def h(ex, st, args, dem):
            ex.oblige(st, "curl is set up first", g(st, "global") == 1)
            return p
        return h
    G.add((r"^curl_global_init$", ginit), (r"^event_base_new$", first(nb)), (r"^event_new$", timer_new), (r"^curl_multi_init$", first(nm)), (r"^curl_multi_setopt$", opt))
    G.sl.close()
    out = ex.run_fn(*G.fn(NS + r"init_curl_and_events\("), [], st)
    s = out.st
    ex.oblige(s, "curl that cannot be set up is an error", res == 0)
    for n, t in (("sock", "curl's sockets are watched"), ("time", "curl's time is kept"), ("tm", "curl is told when the time is over")):
        ex.oblige(s, t, g(s, n) == 1)
    for a, p in (("acc_ebase", nb), ("acc_timeout", nt), ("acc_multi", nm)):
        ex.oblige(s, "the new handles are the ones used", G.C14.points(ex, ex.load(s, A(a, st=s), PTR), p.obj))
    for x in out.excs:
        ex.oblige(x, "only fails when curl cannot be set up", res != 0)
    ctx.cover(ex, s, "end")


def sync_get(ctx):
    """curl_sync_get: the body of a transfer that is complete, else an error"""
    G = Glue(ctx, "curl_sync_get")
    ex, st, A, k = G.ex, G.st, G.A, G.k
    k = {**k, **G.sl.k}
    easy = G.handle("easy")
    url = Ptr(ex.new_obj(st, "url", 32, content=CellC()), 0)
    appm.named_string(ex, st, url, "URL")
    st.ghost.update({"made": 0, "clean": 0, "url": 0, "wf": None, "wd": None, "ran": 0})
    res = ex.fresh(st, 32, "result")

    def own(st, p):
        G.is_(st, "the request that was made", p, easy)
        ex.oblige(st, "the request is not used after it is given back", z3.And(g(st, "made") == 1, g(st, "clean") == 0))

    def new(ex, st, args, dem):
        ex.oblige(st, "one request", g(st, "made") == 0)
        st.ghost["made"] = 1
        return easy

    def opt(ex, st, args, dem):
        own(st, args[0])
        w, v = const_of(args[1]), args[2]
        if w == k["k_opt_url"]:
            if appm.origin(ex, st, v) != "URL":
                raise Unsupported("URL")
            st.ghost["url"] = 1
        elif w == k["k_opt_wf"]:
            st.ghost["wf"] = appm.Boxed(v)
        elif w == k["k_opt_wd"]:
            st.ghost["wd"] = appm.Boxed(v)
        elif w not in G.C14.TUNING:
            raise Unsupported(f"option {w}")
        return 0

    def append(ex, st, args, dem):
        to = st.ghost.get("to")
        if to is None:
            return NotImplemented
        if not (isinstance(args[0], Ptr) and args[0].obj is to.v.obj and const_of(args[0].off) == const_of(to.v.off)):
            raise Unsupported("another string")
        if len(args) == 2:          # a view
            p, n = ex.load(st, ex.padd(args[1], 8), PTR), ex.load(st, args[1], IntT(64))
        else:
            p, n = args[1], args[2]
        src, m = st.ghost["chunk"].v
        ex.oblige(st, "the bytes received are added", z3.And(G.C14.points(ex, p, src.obj), zi(norm(n)) == m, g(st, "added") == 0))
        st.ghost["added"] = 1
        return args[0]

    def perform(ex, st, args, dem):
        own(st, args[0])
        wf, wd = st.ghost["wf"], st.ghost["wd"]
        if not isinstance(wf, appm.Boxed) or not isinstance(wd, appm.Boxed) or not isinstance(wf.v, FnPtr) or not isinstance(wd.v, Ptr):
            raise Unsupported("what is received")
        ex.oblige(st, "the address is the one asked for", g(st, "url") == 1)
        env = st.env
        s = st.fork()
        m = ex.fresh(s, 64, "nmemb")
        s.assume(m < 1 << 40)
        src = Ptr(ex.new_obj(s, "chunk", m, content=ArrC(1, Base("chunk", 8))), 0)
        s.ghost.update({"to": appm.Boxed(wd.v), "chunk": appm.Boxed((src, m)), "added": 0})
        o = ex.run_fn(*(G.named(wf.v.name)), [src, 1, m, wd.v], s)
        ex.oblige(o.st, "what is received is kept", g(o.st, "added") == 1)
        ex.oblige(o.st, "and curl is told so", zi(norm(o.val)) == m)
        st.env = env
        appm.named_string(ex, st, wd.v, "BODY")
        st.ghost["ran"] = 1
        return res

    def cleanup(ex, st, args, dem):
        own(st, args[0])
        st.ghost["clean"] = 1
        return None
    S2 = r"^(std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?> ?& ?)?std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
    G.add((S2 + r"(append|operator\+=)", append), (r"^curl_easy_init$", new), (r"^curl_easy_setopt$", opt), (r"^curl_easy_perform$", perform), (r"^curl_easy_cleanup$", cleanup))
    G.named = lambda n: (next(m for m in ex.modules if m.has_fn(n)), n)
    ret = Ptr(ex.new_obj(st, "answer", 32, content=CellC()), 0)
    out = ex.run_fn(*G.fn(r"^(std::.* )?hibp::dnl::curl_sync_get(\[abi:cxx11\])?\("), [ret, url], st)
    s = out.st
    v = appm.str_origin(ex, s, ret)
    if v is None:
        raise Unsupported("the answer")
    ex.oblige(s, "the answer is the body that was received", z3.And(z3.BoolVal(v == "BODY"), g(s, "ran") == 1))
    ex.oblige(s, "of a transfer that is complete", res == k["k_ok"])
    ex.oblige(s, "the request is given back", g(s, "clean") == 1)
    for x in out.excs:
        ex.oblige(x, "fails only when the transfer failed", z3.And(g(x, "ran") == 1, res != k["k_ok"], g(x, "clean") == 1))
    ctx.cover(ex, s, "end")
