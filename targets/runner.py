"""run (src/dnl/queuemgt.cpp): the two threads of a download, and what becomes of an error in either"""
import re
import z3
from irv.exec import State, Out
from irv.mem import *
from irv.val import *
from irv.irparse import IntT, PTR
from irv import lib
from irv.models import norm, nop
from . import appm, dbm

ASSUMPTIONS = ["std::jthread runs its function once, to the end, between its constructor and its destructor, which waits for that; what the two "
               "threads of run share is under contract in service_queue and the functions that hand over to it",
               "std::current_exception, std::exception_ptr and std::rethrow_exception as documented; errors are std::exceptions",
               "std::stop_source: a stop that is requested is seen through the tokens made from it"]
N = r"^(void |bool )?hibp::dnl::"


def run(ctx):
    ex = ctx.executor("run", int_widths=(8, 32, 64))
    st = State()
    lib.install_exceptions(ex)
    appm.Texts(ex, lambda *a: None)
    start, testing = ex.fresh(st, 64, "start"), ex.fresh(st, 8, "testing")
    st.assume(testing <= 1)
    W = Ptr(ex.new_obj(st, "write_fn", 32, content=CellC()), 0)
    st.ghost.update({k: 0 for k in ("init", "reqs", "queue", "failr", "failq", "closed", "joined", "shown")})
    st.ghost.update({"stops": 0})
    g = lambda s, n: zi(s.ghost[n])
    sources, names = [], Ptr(ex.new_obj(st, "thread name", 32, content=CellC()), 0)
    seen = {}

    def bump(s, n, by=1):
        s.ghost[n] = i_add(s.ghost[n], by)

    def fails(st, n=None):
        bad = [lib.fork_throw(ex, st, t) for t in (dbm.RT, "_ZTISt9bad_alloc", lib.FAILURE)]
        for b in bad:
            if n:
                b.ghost[n] = 1
        return bad

    def init(ex, st, args, dem):
        ex.oblige(st, "set up once", g(st, "init") == 0)
        bad = fails(st, "failinit")
        st.ghost["init"] = 1
        return Out(st, None, bad)

    def source(ex, st, args, dem):
        if args[0].obj not in sources:
            sources.append(args[0].obj)
        st.ghost[f"stop:{args[0].obj.id}"] = 0
        return None

    def token(ex, st, args, dem):
        seen[args[0].obj.id] = args[1].obj
        return None

    def copy_token(ex, st, args, dem):
        if args[1].obj.id not in seen:
            raise Unsupported("stop token")
        seen[args[0].obj.id] = seen[args[1].obj.id]
        return None

    def stop(ex, st, args, dem):
        if args[0].obj not in sources:
            raise Unsupported("stop source")
        st.ghost[f"stop:{args[0].obj.id}"] = 1
        return 1

    def src(p):
        if not isinstance(p, Ptr) or p.obj.id not in seen:
            raise Unsupported("stop token")
        return seen[p.obj.id]

    def loop(ex, st, args, dem):
        ex.oblige(st, "requests start at the first range that is wanted, from the service that is wanted", z3.And(
            zi(norm(args[0])) == start, (zi(norm(args[1])) != 0 if not (not is_c(args[1]) and z3.is_bool(args[1])) else args[1]) == (testing == 1)))
        ex.oblige(st, "requests are made once, when all is set up", z3.And(g(st, "init") == 1, g(st, "reqs") == 0, g(st, "closed") == 0))
        ctx.req_src = src(args[2])
        bump(st, "reqs")
        return Out(st, None, fails(st, "failr"))

    def service(ex, st, args, dem):
        if not (isinstance(args[0], Ptr) and args[0].obj is W.obj):
            raise Unsupported("write function")
        ex.oblige(st, "writing starts with the first range that is wanted", zi(norm(args[1])) == start)
        ex.oblige(st, "the queue is served once", z3.And(g(st, "queue") == 0, g(st, "closed") == 0))
        ctx.que_src = src(args[2])
        bump(st, "queue")
        return Out(st, None, fails(st, "failq"))

    def thread(ex, st, args, dem):
        m = re.search(r"jthread<(.*?)(, , void|, void)?>\(", dem)
        lam = re.match(r"^(?:.*::)?jthread<(.+?), ?,? ?void>\(", dem)
        name = lam.group(1) if lam else None
        if name is None:
            raise Unsupported("thread " + dem[:100])
        hits = [(mo, k) for mo in ex.modules for k, d in mo.demangled.items() if mo.has_fn(k) and d.startswith(name + "::operator()(")]
        if len(hits) != 1:
            raise Unsupported("thread function")
        env = st.env
        o = ex.run_fn(*hits[0], [args[1]], st)
        for x in o.excs:
            ex.oblige(x, "no error leaves a thread", False)
        o.st.env = env
        return Out(o.st, None, [])

    def join(ex, st, args, dem):
        bump(st, "joined")
        return None

    def current(ex, st, args, dem):
        o = Ptr(ex.new_obj(st, "error", 64, "heap", content=CellC()), 0)
        ex.store(st, args[0], o, PTR)
        return None

    def copy(ex, st, args, dem):
        ex.store(st, args[0], ex.load(st, args[1], PTR), PTR)
        return None

    def move(ex, st, args, dem):
        ex.store(st, args[0], ex.load(st, args[1], PTR), PTR)
        ex.store(st, args[1], Ptr(None, 0), PTR)
        return None

    def rethrow(ex, st, args, dem):
        ex.oblige(st, "an error is only looked at when both threads have ended", g(st, "joined") == 2)
        p = ex.load(st, args[0], PTR)
        ex.oblige(st, "there is an error", z3.Not(nul(p)))
        bump(st, "shown")
        st.exc = (dbm.RT, NULL)
        return Out(None, None, [st])

    def nul(p):
        return z3.Or(*[z3.And(zb(c), z3.BoolVal(q.obj is None)) for c, q in ex.ptr_alts(p)])

    def close(ex, st, args, dem):
        ex.oblige(st, "all is given back once, when both threads have ended", z3.And(g(st, "joined") == 2, g(st, "closed") == 0, g(st, "init") == 1))
        ex.oblige(st, "after an error the requests that are left are given up as well", z3.Implies(z3.Or(g(st, "failr") == 1, g(st, "failq") == 1), z3.BoolVal("cleanup" in dem)))
        st.ghost["closed"] = 1
        return None

    def name(ex, st, args, dem):
        return names

    def set_name(ex, st, args, dem):
        if not (isinstance(args[0], Ptr) and args[0].obj is names.obj):
            return NotImplemented
        return args[0]
    appm.named_string(ex, st, names, "NAME")
    st.ghost["failinit"] = 0
    EP = r"^(bool |void )?std::__exception_ptr::exception_ptr::"
    S = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
    ex.contracts = [(re.compile(a), b) for a, b in (
        (N + r"init_curl_and_events\(", init), (N + r"run_event_loop\(", loop), (N + r"service_queue\(", service),
        (N + r"(curl_and_event_cleanup|shutdown_curl_and_events)\(", close), (N + r"thread_logger::log\(", nop),
        (r"^std::jthread::jthread<", thread), (r"^std::jthread::~jthread", join), (r"^std::jthread::get_id", lambda ex, st, a, d: ex.fresh(st, 64, "id")),
        (r"^std::thread::id::id\(", nop), (r"^std::stop_source::stop_source\(\)", source), (r"^std::stop_source::~", nop),
        (r"^std::stop_source::get_token", token), (r"^std::stop_source::request_stop", stop), (r"^std::stop_token::stop_token\(std::stop_token", copy_token),
        (r"^std::stop_token::~", nop), (r"^std::current_exception\(", current), (r"^std::rethrow_exception\(", rethrow),
        (EP + r"exception_ptr\(std::__exception_ptr::exception_ptr const&\)", copy), (EP + r"exception_ptr\(std::__exception_ptr::exception_ptr&&\)", move),
        (EP + r"_M_(addref|release)\(", nop), (r"^std::chrono::_V2::(system|steady)_clock::now\(", lambda ex, st, a, d: ex.fresh(st, 64, "now")),
        (r"^.*std::unordered_map<std::thread::id.*::(operator\[\]|at)\(", name), (S + r"(operator=|assign)\(", set_name))] + ex.contracts
    out = ex.run_fn(*ctx.find(ex, N + r"run\("), [W, start, testing == 1], st)
    s = out.st
    failed = lambda s: z3.Or(g(s, "failr") == 1, g(s, "failq") == 1)
    ex.oblige(s, "both threads did their work, without an error", z3.And(g(s, "reqs") == 1, g(s, "queue") == 1, z3.Not(failed(s)), g(s, "joined") == 2, g(s, "closed") == 1))
    for x in out.excs:
        ex.oblige(x, "it only fails when all could not be set up, or a thread failed, and then all is given back", z3.Or(
            g(x, "failinit") == 1, z3.And(failed(x), g(x, "closed") == 1, g(x, "joined") == 2)))
        rs, qs = getattr(ctx, "req_src", None), getattr(ctx, "que_src", None)
        if rs is None or qs is None or f"stop:{rs.id}" not in x.ghost:
            continue
        ex.oblige(x, "an error in one thread stops the other one", z3.And(
            z3.Implies(g(x, "failr") == 1, g(x, f"stop:{qs.id}") == 1), z3.Implies(g(x, "failq") == 1, g(x, f"stop:{rs.id}") == 1)))
    ctx.cover(ex, s, "no error")
    if not out.excs:
        ex.oblige(s, "an error in a thread is passed on", False)
