"""C13: order and content of a download."""
import re
import z3
from irv.targets import Target
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop, Boxed, str_set, str_new, str_parts, view_node
from . import mains, appm, dbm, runner

UNITS = {"download": ("/verif/harness/download.cpp", ["-I/verif/harness"], "c++"),
         "queuemgt": ("/verif/harness/queuemgt.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = []
ASSUMPTIONS = ["std::getline over a std::stringstream delivers the lines of the text it was made from, in order",
               "std::string::find_last_not_of gives the position of the last other character, or npos"]
SS = r"^std::(__cxx11::)?basic_%sstringstream<char, std::char_traits<char>, std::allocator<char> ?>::"
STR = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"


def acc(ctx, ex, st, nm, *a):
    env = st.env
    v = ex.run_fn(*ctx.find(ex, rf"^{nm}\b"), list(a), st).val
    st.env = env
    return v


def write_fn(ctx, ex, st, handler):
    """a std::function object that calls handler(ex, st, line)"""
    o = ex.new_obj(st, "write_fn", 32, content=CellC({16: (8, FnPtr("irv.manager")), 24: (8, FnPtr("irv.line"))}))

    def call(ex, st, args, dem):
        return handler(ex, st, args[1])
    ex.models["irv.line"] = call
    return Ptr(o, 0)


def write_lines(ctx):
    ex = ctx.executor("write_lines")
    st = State()
    A = lambda nm, *a: acc(ctx, ex, st, nm, *a)
    dl = Ptr(ex.new_obj(st, "download", A("acc_dl_size"), content=CellC()), 0)
    appm.named_string(ex, st, A("acc_dl_prefix", dl), "PREFIX")
    body = Base("BODY", 8)
    n = ex.fresh(st, 64, "body.len")
    st.assume(n < 1 << 50)
    bo = ex.new_obj(st, "body", n, "heap", content=ArrC(1, body))
    bv = A("acc_dl_buffer", dl)
    for off, v in ((0, Ptr(bo, 0)), (8, Ptr(bo, n)), (16, Ptr(bo, n))):
        ex.store(st, ex.padd(bv, off), v, PTR)
    st.ghost.update({"io": 0, "lp": 0, "made": 0, "badline": 0})
    L = ex.fresh(st, 64, "lines")
    st.assume(L < 1 << 50)
    RL = z3.Function("rawlen", z3.IntSort(), z3.IntSort())     # length of line j
    TL = z3.Function("len", z3.IntSort(), z3.IntSort())        # ... without the carriage returns at its end

    def on_getline(ex, st, nm, s):
        if nm != "BODY":
            raise Unsupported("lines of another stream")
        lp = zi(st.ghost["lp"])
        ok = lp < L
        st.assume(z3.And(TL(lp) >= 0, TL(lp) <= RL(lp), RL(lp) < 1 << 40))
        m = ex.fresh(st, 64, "line.len")
        st.assume(z3.Implies(ok, m == RL(lp)))
        st.assume(z3.Implies(z3.Not(ok), m == 0))
        str_set(ex, st, s, m, Base(fresh_name("line"), 8))
        appm.tag(st, str_parts(ex, st, s)[0].obj, ("line", z3.If(ok, lp, z3.IntVal(-1))))
        st.ghost["lp"] = z3.If(ok, lp + 1, lp)
        return ok
    streams = appm.Streams(ex, st, None, on_getline)
    appm.Texts(ex, lambda *a: None)

    def ss_ctor(ex, st, args, dem):
        d, m = str_parts(ex, st, args[1])
        node = view_node(ex, st, d, m)
        ex.oblige(st, "the lines are those of the whole answer", zi(m) == n)
        if node is not body:
            i = ex.fresh(st, 64, "any")
            ex.oblige(st, "the lines are those of the answer", z3.Implies(i < n, to_bv(node.read(zi(i), ex), 8) == to_bv(body.read(zi(i), ex), 8)))
        streams.setup(st, args[0], "BODY")
        st.ghost[f"bad:{args[0].obj.id}"] = 0
        st.ghost["made"] = i_add(st.ghost["made"], 1)
        return None
    ex.contracts = [(re.compile(SS % "i?" + r"basic_i?stringstream\(std::__cxx11::basic_string<"), ss_ctor),
                    (re.compile(SS % "i?" + r"~basic_i?stringstream\("), nop),
                    (re.compile(r"^hibp::dnl::thread_logger::log\("), nop)] + ex.contracts

    def line_of(ex, st, p):
        v = appm.str_origin(ex, st, p)
        return v if isinstance(v, tuple) and v[0] in ("line", "stripped") else None

    def find_last_not_of(ex, st, args, dem):
        v = line_of(ex, st, args[0])
        if v is None or const_of(args[1]) != 13 or v[0] != "line":
            raise Unsupported("find_last_not_of")
        t = TL(v[1])
        ex.oblige(st, "line ends are stripped off a line", z3.And(v[1] >= 0, zi(norm(args[2])) == (1 << 64) - 1))
        return z3.If(t == 0, z3.IntVal((1 << 64) - 1), t - 1)

    def erase(ex, st, args, dem):
        v = line_of(ex, st, args[0])
        d, m = str_parts(ex, st, args[0])
        p, c = zi(norm(args[1])), zi(norm(args[2]))
        if v is None or v[0] != "line" or not ex.solver.valid(st.pc, c == (1 << 64) - 1, 3.0):
            raise Unsupported("erase")
        bad = lib.fork_throw(ex, st, "_ZTISt12out_of_range", p > zi(m))
        st.assume(p <= zi(m))
        ex.oblige(st, "exactly the carriage returns at the end of a line are taken off", p == TL(v[1]))
        str_set(ex, st, args[0], p, Base(fresh_name("line"), 8))
        appm.tag(st, str_parts(ex, st, args[0])[0].obj, ("stripped", v[1]))
        return Out(st, args[0], [bad])
    ex.contracts += [(re.compile(STR + r"find_last_not_of\(char, unsigned long\) const"), find_last_not_of),
                     (re.compile(STR + r"erase\(unsigned long, unsigned long\)"), erase)]

    def plus(ex, st, args, dem):
        a, b = appm.str_origin(ex, st, args[1]), appm.str_origin(ex, st, args[2])
        n1, n2 = [str_parts(ex, st, x)[1] for x in args[1:3]]
        o = str_new(ex, st, args[0], i_add(n1, n2), Base(fresh_name("cat"), 8), "cat")
        appm.tag(st, o, ("cat", a, b))
        return None
    ex.contracts.append((re.compile(r"^std::(__cxx11::)?basic_string<char.*> std::operator\+ ?<char, std::char_traits<char>, std::allocator<char> ?>"
                                    r"\(std::__cxx11::basic_string<[^&]*&&?, std::__cxx11::basic_string<[^&]*&&?\)"), plus))
    seq = appm.Seq(ex, "written", lambda j: TL(j) > 0, lambda j: j)
    seq.start(st)

    def on_line(ex, st, p):
        v = appm.str_origin(ex, st, p)
        if not (isinstance(v, tuple) and v[0] == "cat" and isinstance(v[2], tuple) and v[2][0] == "stripped"):
            raise Unsupported(f"text that is written {v} {st.mem[str_parts(ex,st,p)[0].obj.id].node} {str_parts(ex,st,p)[0].obj.meta}")
        ex.oblige(st, "a line is written with the range in front", z3.BoolVal(v[1] == "PREFIX"))
        seq.emit(st, v[2][1], "the next non-empty line is written, in order")
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        return Out(st, None, [bad])
    fn = write_fn(ctx, ex, st, on_line)

    def cands(ex, ctx_, H, mods, k):
        out = appm.seq_cands(seq, mods, H) + appm.int_cands(mods, H, ["lp"]) + appm.step_cands(ctx_, mods, H)
        out += [lambda s, k: seq.count(s) == seq.at(zi(s.ghost["lp"])), lambda s, k: zi(s.ghost["lp"]) <= L,
                lambda s, k: zi(s.ghost["io"]) == 0]
        return out
    ex.cand_gens.append(cands)
    m, f = ctx.find(ex, r"^(unsigned long )?hibp::dnl::qmgt::write_lines\(")
    out = ex.run_fn(m, f, [fn, dl], st)
    s = out.st
    seq.done(s, L, "every non-empty line of the answer is written")
    ex.oblige(s, "the answer is gone through once", zi(s.ghost["made"]) == 1)
    for x in out.excs:
        ex.oblige(x, "only a failing output stops the lines", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


class Queues:
    """message queue, processing queue, lock and stop token of queuemgt.cpp at contract level.

    Ghost: lock held, mq = messages waiting, taken = answers of the first message that were taken out, pq = answers in the
    processing queue, topw = the answer on top has been written, stop = a stop was requested.  Other threads act only while the
    lock is free: each time it is taken (or waited for), messages may have been added and the end announced."""

    def __init__(self, ctx, ex, st):
        self.ctx, self.ex = ctx, ex
        A = lambda nm, *a: acc(ctx, ex, st, nm, *a)
        st.ghost.update({"lock": 0, "mq": 0, "taken": 0, "m": 0, "pq": 0, "topw": 0, "stop": 0, "io": 0, "fin": 0, "seen": 0})
        self.fin = A("acc_finished")
        self.dl = Ptr(ex.new_obj(st, "top.download", A("acc_dl_size"), content=CellC()), 0)
        self.idx = A("acc_dl_index", self.dl)
        appm.named_string(ex, st, A("acc_dl_prefix", self.dl), "PREFIX")
        self.top = Ptr(ex.new_obj(st, "top", 8, content=CellC()), 0)
        ex.store(st, self.top, self.dl, PTR)
        self.arr = ex.new_obj(st, "message.items", 1 << 40, "heap", content=ArrC(8, Base("items", 64)))
        self.vec = Ptr(ex.new_obj(st, "message", 24, content=CellC()), 0)
        self.new_top(st)
        self.share(st)
        MQ, PQ = r"^std::queue<std::vector<std::unique_ptr<hibp::dnl::download.*>::", r"std::priority_queue<std::unique_ptr<hibp::dnl::download.*>::"
        L = r"^std::(unique_lock<std::mutex>|lock_guard<std::mutex>)::"
        for r, h in [(MQ + r"empty\(\) const$", self.mq_empty), (MQ + r"front\(\)$", self.mq_front), (MQ + r"pop\(\)$", self.mq_pop),
                     (PQ + r"empty\(\) const$", lambda e, s, a, d: zi(s.ghost["pq"]) == 0), (PQ + r"top\(\) const$", self.pq_top),
                     (PQ + r"size\(\) const$", lambda e, s, a, d: zi(s.ghost["pq"])),
                     (PQ + r"pop\(\)$", self.pq_pop), (PQ + r"(emplace<.*>|push)\(std::unique_ptr<hibp::dnl::download.*&&", self.pq_emplace),
                     (L + r"(unique_lock|lock_guard)\(std::mutex&\)", self.lock), (L + r"lock\(\)", self.lock), (L + r"unlock\(\)", self.unlock),
                     (L + r"~(unique_lock|lock_guard)\(\)", self.release),
                     (r"std::_V2::condition_variable_any::wait<", self.wait),
                     (r"^std::stop_token::(stop_token|~stop_token|operator=)", nop), (r"^std::stop_token::stop_requested\(\) const", self.stop),
                     (r"^hibp::dnl::thread_logger::log\(", nop), (r"^hibp::dnl::qmgt::print_progress\(\)", nop)]:
            ex.contracts.append((re.compile(r), self.same(r, h)))
        self.this = {}

    def close(self):
        """the queues are only known through their contracts"""
        def refuse(ex, st, args, dem):
            raise Unsupported(f"no contract for {dem[:120]}")
        for r in (r"^[^(]*std::queue<std::vector<std::unique_ptr<hibp::dnl::download.*>::", r"^[^(]*std::priority_queue<std::unique_ptr<hibp::dnl::download.*>::"):
            self.ex.contracts.append((re.compile(r), refuse))

    def same(self, r, h):
        """there is one message queue and one processing queue"""
        if "queue<" not in r:
            return h

        def f(ex, st, args, dem):
            if not (isinstance(args[0], Ptr) and self.this.setdefault("std::queue" in r, args[0].obj) is args[0].obj):
                raise Unsupported("another queue")
            return h(ex, st, args, dem)
        return f

    def new_top(self, st):
        t = self.ex.fresh(st, 64, "index")
        st.assume(t < 1 << 62)
        self.ex.store(st, self.idx, t, IntT(64))

    def new_msg(self, st):
        """the first message is looked at for the first time: so many answers are in it"""
        if self.ex.solver.valid(st.pc, zi(st.ghost["seen"]) == 1, 3.0):
            return
        if not self.ex.solver.valid(st.pc, z3.And(zi(st.ghost["seen"]) == 0, zi(st.ghost["taken"]) == 0), 3.0):
            raise Unsupported("which message is first")
        m = self.ex.fresh(st, 64, "items")
        st.assume(m < 1 << 30)
        st.ghost["m"] = m
        st.ghost["seen"] = 1
        self.ex.store(st, self.vec, Ptr(self.arr, 0), PTR)
        self.ex.store(st, self.ex.padd(self.vec, 8), Ptr(self.arr, i_scale(m, 8)), PTR)

    def share(self, st):
        """what other threads may have done while the lock was free"""
        a, f = self.ex.fresh(st, 64, "added"), self.ex.fresh(st, 64, "finished")
        st.assume(z3.And(a < 1 << 50, f <= 1, f >= zi(st.ghost["fin"])))
        st.ghost["mq"] = zi(st.ghost["mq"]) + a
        st.ghost["fin"] = f
        self.ex.store(st, self.fin, z3.If(f == 1, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), IntT(8))

    def held(self, st):
        self.ex.oblige(st, "the message queue is only touched under its lock", zi(st.ghost["lock"]) == 1)

    def lock(self, ex, st, args, dem):
        st.ghost["lock"] = 1
        self.share(st)
        return None

    def unlock(self, ex, st, args, dem):
        ex.oblige(st, "the lock is held when it is given back", zi(st.ghost["lock"]) == 1)
        st.ghost["lock"] = 0
        return None

    def release(self, ex, st, args, dem):
        st.ghost["lock"] = 0
        return None

    def wait(self, ex, st, args, dem):
        ex.oblige(st, "waits with the lock held", zi(st.ghost["lock"]) == 1)
        self.share(st)
        return ex.fresh(st, 8, "woken") != 0

    def stop(self, ex, st, args, dem):
        s = ex.fresh(st, 64, "stop")
        st.assume(z3.And(s <= 1, s >= zi(st.ghost["stop"])))
        st.ghost["stop"] = s
        return s == 1

    def mq_empty(self, ex, st, args, dem):
        self.held(st)
        return zi(st.ghost["mq"]) == 0

    def mq_front(self, ex, st, args, dem):
        self.held(st)
        ex.oblige(st, "a message is there", zi(st.ghost["mq"]) > 0)
        self.new_msg(st)
        return self.vec

    def mq_pop(self, ex, st, args, dem):
        self.held(st)
        ex.oblige(st, "a message is there", zi(st.ghost["mq"]) > 0)
        self.new_msg(st)
        ex.oblige(st, "every answer of a message is taken over before it goes", zi(st.ghost["taken"]) == zi(st.ghost["m"]))
        st.ghost["mq"] = zi(st.ghost["mq"]) - 1
        st.ghost["taken"] = 0
        st.ghost["seen"] = 0
        return None

    def pq_emplace(self, ex, st, args, dem):
        p = args[1]
        if not (isinstance(p, Ptr) and p.obj is self.arr):
            raise Unsupported("answer from elsewhere")
        ex.oblige(st, "the answers of a message are taken over one by one", zi(p.off) == 8 * zi(st.ghost["taken"]))
        ex.oblige(st, "the processing queue is not added to between writing an answer and removing it", zi(st.ghost["topw"]) == 0)
        st.ghost["taken"] = i_add(st.ghost["taken"], 1)
        st.ghost["pq"] = zi(st.ghost["pq"]) + 1
        self.new_top(st)
        return None

    def pq_top(self, ex, st, args, dem):
        ex.oblige(st, "an answer is there", zi(st.ghost["pq"]) > 0)
        return self.top

    def pq_pop(self, ex, st, args, dem):
        ex.oblige(st, "an answer is there", zi(st.ghost["pq"]) > 0)
        ex.oblige(st, "an answer is only removed once it has been written", zi(st.ghost["topw"]) == 1)
        st.ghost["pq"] = zi(st.ghost["pq"]) - 1
        st.ghost["topw"] = 0
        self.new_top(st)
        return None


def service_queue(ctx):
    ex = ctx.executor("service_queue")
    ex.max_unroll = 2
    st = State()
    q = Queues(ctx, ex, st)
    appm.Texts(ex, lambda *a: None)
    start = ex.fresh(st, 64, "start")
    st.assume(start < 1 << 40)
    st.ghost["written"] = 0
    fn = Ptr(ex.new_obj(st, "write_fn", 32, content=CellC()), 0)
    tok = Ptr(ex.new_obj(st, "stoken", 8, content=CellC()), 0)
    # answers in the queue are those not written yet: none of the later ones can have been taken before
    def write(ex, st, args, dem):
        p = args[1]
        if not (isinstance(p, Ptr) and p.obj is q.dl.obj):
            raise Unsupported("writes another answer")
        ex.oblige(st, "the lines go to the function that was given", z3.BoolVal(isinstance(args[0], Ptr) and args[0].obj is fn.obj))
        ex.oblige(st, "an answer is written once", zi(st.ghost["topw"]) == 0)
        ex.oblige(st, "an answer is there", zi(st.ghost["pq"]) > 0)
        ex.oblige(st, "a range is written only after all lower ranges", zi(ex.load(st, q.idx, IntT(64))) == start + zi(st.ghost["written"]))
        bad = lib.fork_throw(ex, st, dbm.RT)
        bad.ghost["io"] = 1
        st.ghost["topw"] = 1
        st.ghost["written"] = i_add(st.ghost["written"], 1)
        st.assume(zi(st.ghost["written"]) < 1 << 50)
        return Out(st, ex.fresh(st, 64, "records"), [bad])
    ex.contracts.append((re.compile(r"^(unsigned long )?hibp::dnl::qmgt::write_lines\("), write))

    def cands(ex, ctx_, H, mods, k):
        out = [lambda s, k: zi(s.ghost["taken"]) == k, lambda s, k: zi(s.ghost["taken"]) == zi(s.ghost["m"])]
        for c, v in (("lock", 0), ("lock", 1), ("topw", 0), ("topw", 1), ("taken", 0), ("seen", 0), ("seen", 1), ("io", 0), ("stop", 0)):
            out.append(lambda s, k, c=c, v=v: zi(s.ghost[c]) == v)
        for c in ("pq", "mq", "taken"):
            out.append(lambda s, k, c=c: zi(s.ghost[c]) >= 0)
        for c in mods.keys():
            if (c[0] == "cell" and c[3] == 8 or c[0] == "env") and is_zi(mods.get(H, c)):
                def f(s, k, c=c):
                    v = mods.get(s, c)
                    return zi(v) == start + zi(s.ghost["written"]) if is_zi(v) or is_c(v) else z3.BoolVal(False)
                out.append(f)
        return out
    ex.cand_gens.append(cands)
    q.close()
    m, f = ctx.find(ex, r"^(void )?hibp::dnl::service_queue\(")
    out = ex.run_fn(m, f, [fn, start, tok], st)
    s = out.st
    g = lambda n: zi(s.ghost[n])
    ex.oblige(s, "unless stopped, it ends when the end was announced and everything is written",
              z3.Or(g("stop") == 1, z3.And(g("fin") == 1, g("mq") == 0, g("pq") == 0)))
    ex.oblige(s, "the lock is given back", g("lock") == 0)
    for x in out.excs:
        ex.oblige(x, "only a failing output stops the writing", zi(x.ghost["io"]) == 1)
    ctx.cover(ex, s, "end")


def enqueue(ctx):
    """a message is added whole, at the end of the message queue, under its lock"""
    ex = ctx.executor("enqueue_downloads_for_writing")
    st = State()
    q = Queues(ctx, ex, st)
    appm.Texts(ex, lambda *a: None)
    st.ghost.update({"added": 0, "told": 0})
    m = ex.fresh(st, 64, "items")
    st.assume(m < 1 << 30)
    ends = (Ptr(q.arr, 0), Ptr(q.arr, i_scale(m, 8)))
    for off, v in zip((0, 8, 16), ends + ends[1:]):
        ex.store(st, ex.padd(q.vec, off), v, PTR)

    def emplace(ex, st, args, dem):
        q.held(st)
        if not (isinstance(args[1], Ptr) and args[1].obj is q.vec.obj):
            raise Unsupported("another message")
        for off, v in zip((0, 8), ends):
            w = ex.load(st, ex.padd(q.vec, off), PTR)
            ex.oblige(st, "all answers of the message are passed on", z3.BoolVal(False) if not (isinstance(w, Ptr) and w.obj is q.arr)
                      else zi(w.off) == zi(v.off))
        st.ghost["added"] = i_add(st.ghost["added"], 1)
        return args[0]

    def notify(ex, st, args, dem):
        st.ghost["told"] = 1
        return None
    ex.contracts += [(re.compile(r"^(decltype\(auto\) |void |auto )?std::queue<std::vector<std::unique_ptr<hibp::dnl::download.*>::(emplace<.*>|push)\(std::vector<"), emplace),
                     (re.compile(r"^std::(_V2::)?condition_variable(_any)?::notify_(one|all)\("), notify)]
    q.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::enqueue_downloads_for_writing\("), [q.vec], st)
    s = out.st
    ex.oblige(s, "the message is added once", zi(s.ghost["added"]) == 1)
    ex.oblige(s, "the writing thread is told", zi(s.ghost["told"]) == 1)
    ex.oblige(s, "the lock is given back", zi(s.ghost["lock"]) == 0)
    ctx.cover(ex, s, "end")


def finished(ctx):
    """the end is announced under the lock, and nothing else happens to the queues"""
    ex = ctx.executor("finished_downloads")
    st = State()
    q = Queues(ctx, ex, st)
    appm.Texts(ex, lambda *a: None)
    st.ghost.update({"told": 0, "set": 0})

    def unlock(ex, st, args, dem):
        st.ghost["set"] = z3.If(to_bv(ex.load(st, q.fin, IntT(8)), 8) == 1, z3.IntVal(1), z3.IntVal(0))
        return (q.release if "~" in dem else q.unlock)(ex, st, args, dem)

    def notify(ex, st, args, dem):
        ex.oblige(st, "the end is set before the writing thread is told", zi(st.ghost["set"]) == 1)
        st.ghost["told"] = 1
        return None
    ex.contracts = [(re.compile(r"^std::(unique_lock<std::mutex>|lock_guard<std::mutex>)::(unlock\(\)|~)"), unlock),
                    (re.compile(r"^std::(_V2::)?condition_variable(_any)?::notify_(one|all)\("), notify)] + ex.contracts
    q.close()
    out = ex.run_fn(*ctx.find(ex, r"^(void )?hibp::dnl::finished_downloads\("), [], st)
    s = out.st
    ex.oblige(s, "the end is announced", zi(s.ghost["set"]) == 1)
    ex.oblige(s, "the writing thread is told", zi(s.ghost["told"]) == 1)
    ex.oblige(s, "the lock is given back", zi(s.ghost["lock"]) == 0)
    ctx.cover(ex, s, "end")


def order(ctx):
    """the processing queue puts the answer with the smallest index on top"""
    ex = ctx.executor("order of the processing queue")
    st = State()
    A = lambda nm, *a: acc(ctx, ex, st, nm, *a)
    idx, ps = [], []
    for nm in "ab":
        d = Ptr(ex.new_obj(st, nm, A("acc_dl_size"), content=CellC()), 0)
        v = ex.fresh(st, 64, nm + ".index")
        ex.store(st, A("acc_dl_index", d), v, IntT(64))
        u = Ptr(ex.new_obj(st, nm + ".ptr", 8, content=CellC()), 0)
        ex.store(st, u, d, PTR)
        idx.append(v)
        ps.append(u)
    out = ex.run_fn(*ctx.find(ex, r"^cmp_queue\("), ps, st)
    ex.oblige(out.st, "a goes below b exactly when its index is higher", b_iff(out.val, idx[0] > idx[1]))
    ctx.cover(ex, out.st, "end")


TARGETS = [Target("main of hibp-download: what becomes of a line", ["download"], mains.download_main, prop="C13"),
           Target("write_lines", ["queuemgt"], write_lines), Target("service_queue", ["queuemgt"], service_queue),
           Target("enqueue_downloads_for_writing", ["queuemgt"], enqueue), Target("finished_downloads", ["queuemgt"], finished),
           Target("order of the processing queue", ["queuemgt"], order)]
TARGETS += [Target("run", ["queuemgt"], runner.run)]
ASSUMPTIONS += runner.ASSUMPTIONS
