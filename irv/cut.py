"""Cutting a loop with an inductive invariant: havoc what the body modifies, assume, execute once, re-establish.

Automatic part: linear induction cells (v = v0 + c*k over a ghost iteration count k) and order facts harvested from the
branch conditions of the body, filtered Houdini-style.  Contract files add invariants over ghost and memory state."""
import os
import z3
from .val import *
from .mem import *
from .exec import State, PC

DEBUG = bool(os.environ.get("IRV_CANDS"))


class LoopCtx:
    """what an invariant callback may look at"""

    def __init__(self, ex, fr, L, entry):
        self.ex, self.fr, self.L, self.entry = ex, fr, L, entry
        self.k = None
        self.at_entry = False

    def local(self, st, name):
        """current value cell of a named local (alloca); only used for library functions"""
        p = st.env.get(name)
        return p


def cut_loop(ex, fr, L, entry, spec):
    key = f"{fr.dem[:120]}#loop{L.idx}"
    ctx = LoopCtx(ex, fr, L, entry)
    if spec is not None and spec.entry:
        spec.entry(ex, entry, ctx)
    M = Mods()
    lin_cells = {}
    # --- discover what the body modifies
    if ex.cand_gens:
        entry = materialise(ex, fr, L, entry, ctx, spec)
        ctx.entry = entry
    mark = fresh_mark()

    def retire():
        ex.solver.retire(mark, fresh_mark())
    for _ in range(12):
        retire()
        H = havoc(ex, entry, M, None, {}, ctx, spec)
        if spec is not None and spec.inv:
            ctx.at_entry = False
            for nm, f in spec.inv(ex, H, ctx):
                H.assume(f)
        B, _ = run_body(ex, fr, L, H, suppress=True)
        if B is None:
            break
        if not M.update(ex, H, B, ctx):
            break
    else:
        raise Unsupported(f"modified set of {key} does not stabilise")
    # --- linear induction cells
    k = z3.Int(fresh_name("iter"))
    if B is not None:
        for c in M.keys():
            h, b = M.get(H, c), M.get(B, c)
            ho, bo = offv(h), offv(b)
            if ho is None or bo is None or is_c(ho):
                continue
            d = lin_diff(ho, bo) if is_zi(ho) or is_zi(bo) else None
            if d is not None and d != 0:
                lin_cells[c] = -d
    ctx.k = k
    cands = []
    # --- candidate order facts
    stable = False
    for rnd in range(40):
        retire()
        H = havoc(ex, entry, M, k, lin_cells, ctx, spec)
        H.assume(k >= 0)
        hs = M.symbols(H)
        inst = []
        for f in cands:
            H.assume(f(H, k))
        if spec is not None and spec.inv:
            for nm, f in spec.inv(ex, H, ctx):
                H.assume(f)
        outer, ex.atoms = ex.atoms, []
        B, _ = run_body(ex, fr, L, H, suppress=True)
        atoms, ex.atoms = ex.atoms, outer
        if B is None:
            stable = True
            break
        if rnd == 0:
            cands = harvest(ex, atoms, M, H, k, lin_cells, entry)
            # initial validity
            E0 = entry
            for gen in ex.cand_gens:
                cands += gen(ex, ctx, H, M, k)
            if DEBUG:
                for f in cands:
                    r = zb(f(E0, z3.IntVal(0)))
                    print("cand0", ex.solver.valid(E0.pc, r, 3.0, ex.gave_up), str(z3.simplify(r))[:300].replace(chr(10), " "), flush=True)
            cands = [f for f in cands if ex.solver.valid(E0.pc, zb(f(E0, z3.IntVal(0))), 3.0, ex.gave_up)]
            if not cands:
                stable = True
                break
            continue
        if DEBUG:
            for f in cands:
                r = zb(f(B, k + 1))
                if os.environ["IRV_CANDS"] == "2" and not ex.solver.valid(B.pc, r, 3.0, ex.gave_up):
                    print(r, "\n=== PC", B.pc.facts(), "\n==AX", ex.solver.axioms)
                print("cand", rnd, ex.solver.valid(B.pc, r, 3.0, ex.gave_up), str(z3.simplify(r))[:300].replace(chr(10), " "), flush=True)
        keep = [f for f in cands if ex.solver.valid(B.pc, zb(f(B, k + 1)), 3.0, ex.gave_up)]
        if len(keep) == len(cands):
            stable = True
            break
        cands = keep
        if not cands:
            stable = True
            break
    if not stable:
        cands = []
    retire()
    # --- entry obligations
    if spec is not None and spec.inv:
        ctx.at_entry = True
        k0, ctx.k = ctx.k, z3.IntVal(0)
        for nm, f in spec.inv(ex, entry, ctx):
            ex.oblige(entry, "invariant-init", f, name=f"invariant-init:{nm}@{fr.base}#loop{L.idx}")
        ctx.k = k0
        ctx.at_entry = False
    nonneg(ex, M, entry, key)
    # --- final run
    H = havoc(ex, entry, M, k, lin_cells, ctx, spec)
    H.assume(k >= 0)
    for f in cands:
        H.assume(f(H, k))
    if spec is not None and spec.inv:
        for nm, f in spec.inv(ex, H, ctx):
            H.assume(f)
    ex.cutdepth += 1
    ex.cuts[key] = ex.cuts.get(key, 0) + 1
    B, exits = run_body(ex, fr, L, H, suppress=False)
    if B is not None:
        ctx.k = k + 1
        if spec is not None and spec.back:
            spec.back(ex, B, ctx)
        for c in M.keys():
            pass
        if spec is not None and spec.inv:
            for nm, f in spec.inv(ex, B, ctx):
                ex.oblige(B, "invariant-step", f, name=f"invariant-step:{nm}@{fr.base}#loop{L.idx}")
        ctx.k = k
        nonneg(ex, M, B, key)
        # frame: nothing outside M may have changed
        M2 = Mods(M)
        if M2.update(ex, H, B, ctx):
            raise Unsupported(f"late modification in {key}")
        for c, d in lin_cells.items():
            h, b = M.get(H, c), M.get(B, c)
            dd = lin_diff(offv(b), offv(h))
            if dd != d:
                ex.oblige(B, "induction", i_eq(offv(b), i_add(offv(h), d)), name=f"induction@{fr.base}#loop{L.idx}")
    return exits


def materialise(ex, fr, L, entry, ctx, spec):
    """give cells that the body writes but the code before the loop leaves uninitialised an arbitrary value, so that an
    invariant can speak about them"""
    H = entry.fork()
    if spec is not None and spec.inv:
        ctx.at_entry = False
        for nm, f in spec.inv(ex, H, ctx):
            H.assume(f)
    B, _ = run_body(ex, fr, L, H, suppress=True)
    if B is None:
        return entry
    entry = entry.fork()
    for oid, bc in B.mem.items():
        hc = entry.mem.get(oid)
        if not isinstance(hc, CellC) or not isinstance(bc, CellC):
            continue
        nc = None
        for o, (n, v) in bc.c.items():
            if o in hc.c or ex._covered(hc.c, o, n) or not is_num(v) or n not in (1, 2, 4, 8):
                continue
            if any(x < o + n and o < x + m for x, (m, _) in hc.c.items()):
                continue
            nc = nc or dict(hc.c)
            nc[o] = (n, ex.fresh(entry, 8 * n, "uninit", as_int=is_zi(v) and not is_b2i(v)))
        if nc:
            entry.mem[oid] = CellC(nc)
    return entry


def nonneg(ex, M, st, key):
    """ghost counters are taken to be >= 0 at the head of a loop"""
    if ex.suppress:
        return
    for c in M.keys():
        v = M.get(st, c) if c[0] == "ghost" else None
        if is_c(v) and not isinstance(v, bool) and v < 0 or is_zi(v) and not ex.solver.valid(st.pc, v >= 0, 5.0):
            raise Unsupported(f"ghost {c[1]} may be negative in {key}")


def is_b2i(v):
    return isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT


def offv(v):
    if isinstance(v, Ptr):
        return v.off
    if is_zi(v) or (is_c(v) and not isinstance(v, bool)):
        return v
    return None


def run_body(ex, fr, L, H, suppress):
    if suppress:
        ex.suppress += 1
    nob, nret, nexc = len(ex.obs), len(fr.rets), len(fr.excs)
    try:
        res = ex.exec_scope(fr, L, {L.header: [(None, H.fork())]})
    finally:
        if suppress:
            ex.suppress -= 1
    if suppress:
        # a trial: what leaves the function from here is seen again in the final run
        del ex.obs[nob:], fr.rets[nret:], fr.excs[nexc:]
    back = res.pop(L.header, [])
    exits = []
    for tgt, l in res.items():
        exits += [(p, tgt, s) for p, s in l]
    if not back:
        return None, exits
    ex.phis(fr, L.header, back)
    ss = ex.join(fr, [s for _, s in back])
    if len(ss) != 1:
        raise Unsupported("exceptional states at back edge")
    return ss[0], exits


class Mods:
    """modified locations: ('cell',obj,off,n) ('arr',obj) ('size',objid) ('ghost',key) ('env',name)"""

    def __init__(self, other=None):
        self.d = dict(other.d) if other else {}

    def keys(self):
        return list(self.d)

    def update(self, ex, H, B, ctx):
        ch = False
        for oid, hc in H.mem.items():
            bc = B.mem.get(oid)
            if bc is None or bc is hc:
                continue
            if isinstance(hc, CellC) and isinstance(bc, CellC):
                for o, (n, v) in bc.c.items():
                    h = hc.c.get(o)
                    if h is not None and h[0] == n and same(h[1], v):
                        continue
                    if h is None and not ex._covered(hc.c, o, n):
                        continue      # defined inside the body only
                    if h is None or h[0] != n:
                        # different granularity: treat every overlapped header cell as modified
                        for oo, (nn, vv) in hc.c.items():
                            if oo < o + n and o < oo + nn:
                                ch |= self.add(("cell", oid, oo, nn), vv)
                        continue
                    ch |= self.add(("cell", oid, o, n), v)
                for o, (n, v) in hc.c.items():
                    if o not in bc.c:
                        ch |= self.add(("cell", oid, o, n), v)
            elif isinstance(hc, ArrC) and isinstance(bc, ArrC):
                if hc.node is not bc.node:
                    ch |= self.add(("arr", oid), bc)
            else:
                raise Unsupported("content kind changes in loop")
        for oid in set(H.osize) | set(B.osize):
            if oid in H.mem or oid in H.osize:
                a, b = H.osize.get(oid), B.osize.get(oid)
                if a is not b and not (is_num(a) and is_num(b) and same(a, b)):
                    ch |= self.add(("size", oid), b)
        for g in set(H.ghost) | set(B.ghost):
            a, b = H.ghost.get(g), B.ghost.get(g)
            if a is not b and not same(a, b):
                ch |= self.add(("ghost", g), b)
        for o, d in B.dead.items():
            if o in H.mem and o not in H.dead:
                raise Unsupported("object of the enclosing scope freed in loop")
        for nme, v in B.env.items():
            if nme in H.env and not same(H.env[nme], v):
                ch |= self.add(("env", nme), v)
        return ch

    def add(self, k, v):
        if k in self.d:
            # the same location, but a pointer into another object
            o = self.d[k]
            if isinstance(o, (Ptr, PtrU)) and isinstance(v, (Ptr, PtrU)):
                alts, new = alts_of(o), alts_of(v)
                more = [x for x in new if all(x[1].obj is not y[1].obj for y in alts)]
                if more and all(isinstance(x[1], Ptr) for x in alts + new):
                    self.d[k] = PtrU(alts + more)
                    return True
            return False
        self.d[k] = v
        return True

    def get(self, st, c):
        if c[0] == "cell":
            cc = st.mem.get(c[1])
            h = cc.c.get(c[2]) if isinstance(cc, CellC) else None
            return h[1] if h and h[0] == c[3] else None
        if c[0] == "ghost":
            return st.ghost.get(c[1])
        if c[0] == "size":
            return st.osize.get(c[1])
        if c[0] == "env":
            return st.env.get(c[1])
        return None

    def symbols(self, st):
        return {c: self.get(st, c) for c in self.d}


def alts_of(p):
    return list(p.alts) if isinstance(p, PtrU) else [(True, p)]


def same(a, b):
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return True
        if is_zi(a) and is_zi(b):
            return lin_diff(a, b) == 0
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and same(a.off, b.off)
    if isinstance(a, PtrU) and isinstance(b, PtrU):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.lanes) == len(b.lanes) and all(same(x, y) for x, y in zip(a.lanes, b.lanes))
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same(a.p, b.p)
    if isinstance(a, Flo) and isinstance(b, Flo):
        return True
    if a is UNDEF and b is UNDEF:
        return True
    if isinstance(a, (tuple, str)) and isinstance(b, (tuple, str)):
        return a == b
    return False


def havoc_val(ex, st, v0, vb, n, name, k, step):
    """fresh value of the same kind"""
    if step is not None and k is not None:
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, i_add(v0.off, step * k))
        return i_add(v0, step * k)
    if isinstance(v0, Ptr):
        alts = [vb] if isinstance(vb, Ptr) else [p for _, p in vb.alts] if isinstance(vb, PtrU) else [None]
        objs = []
        for p in [v0] + alts:
            if p is None or isinstance(p, FnPtr):
                raise Unsupported(f"loop-modified pointer {name}")
            if all(p.obj is not o for o in objs):
                objs.append(p.obj)
        if len(objs) > 1 and any(o is None for o in objs):
            return havoc_val(ex, st, PtrU([(True, v0)]), vb, n, name, k, step)
        if len(objs) > 1:
            raise Unsupported(f"loop-modified pointer {name} into several objects")
        o = z3.Int(fresh_name("hoff"))
        c = st.mem.get(v0.obj.id) if v0.obj is not None else None
        if k is None and isinstance(c, ArrC) and c.stride > 1:
            # discovery only: the final run uses the step found here, or an arbitrary offset
            o = i_add(v0.off, i_scale(o, c.stride))
        return Ptr(v0.obj, o)
    if isinstance(v0, PtrU):
        objs = []
        alts = v0.alts + (vb.alts if isinstance(vb, PtrU) else [(True, vb)] if isinstance(vb, Ptr) else [])
        for _, p in alts:
            if not isinstance(p, Ptr):
                raise Unsupported("loop-modified function pointer")
            if all(p.obj is not o for o in objs):
                objs.append(p.obj)
        out, rest = [], True
        for i, o in enumerate(objs):
            off = z3.Int(fresh_name("hoff")) if o is not None else 0
            if i == len(objs) - 1:
                g = rest
            else:
                b = z3.Bool(fresh_name("halt"))
                g = b_and(rest, b)
                rest = b_and(rest, z3.Not(b))
            out.append((g, Ptr(o, off)))
        return PtrU(out)
    if isinstance(v0, Flo):
        return Flo()
    if isinstance(v0, bool) or isinstance(v0, z3.BoolRef):
        return z3.Bool(fresh_name(name))
    if hasattr(v0, "havoc"):
        return v0.havoc(ex, st)
    if is_num(v0) and is_num(vb):
        w = 8 * n if n else 64
        as_int = is_zi(v0) or is_zi(vb) or (w in ex.int_widths and not is_bv(v0) and not is_bv(vb))
        if (is_bv(v0) or is_c(v0)) and is_b2i(vb) or is_bv(v0) and not is_zi(vb):
            as_int = False
        return ex.fresh(st, w, name, as_int=as_int)
    if isinstance(v0, Node):
        return Base("hghost", v0.bits if hasattr(v0, "bits") else 8)
    if isinstance(v0, Vec):
        return Vec([z3.BitVec(fresh_name(name), 8 * n // len(v0.lanes)) for _ in v0.lanes])
    if isinstance(v0, PInt) or v0 is UNDEF:
        return UNDEF
    raise Unsupported(f"havoc of {v0!r}")


def havoc(ex, entry, M, k, lin_cells, ctx, spec):
    H = entry.fork()
    for c, vb in M.d.items():
        step = lin_cells.get(c)
        if c[0] == "cell":
            cc = H.mem[c[1]]
            h = cc.c.get(c[2])
            if h is None or h[0] != c[3]:
                nc = {o: x for o, x in cc.c.items() if not (o < c[2] + c[3] and c[2] < o + x[0])}
                H.mem[c[1]] = CellC(nc)
                continue
            if h[1] is UNDEF:
                continue
            nc = dict(cc.c)
            nc[c[2]] = (c[3], havoc_val(ex, H, h[1], vb, c[3], "h", k, step))
            H.mem[c[1]] = CellC(nc)
        elif c[0] == "arr":
            a = H.mem[c[1]]
            if spec is not None and spec.havoc:
                r = spec.havoc(ex, H, ctx, c[1], a)
                if r is not None:
                    H.mem[c[1]] = r
                    continue
            H.mem[c[1]] = ArrC(a.stride, Base("harr", 8 * a.stride, a.is_int), a.is_int)
        elif c[0] == "size":
            H.osize[c[1]] = ex.fresh(H, 64, "hsize")
        elif c[0] == "ghost":
            g = entry.ghost.get(c[1])
            if g is None:
                H.ghost.pop(c[1], None)
                continue
            H.ghost[c[1]] = z3.BitVec(fresh_name("g"), g.size()) if isinstance(g, z3.BitVecRef) else havoc_val(ex, H, g, vb, 8, "g", k, step)
        elif c[0] == "env":
            v0 = entry.env[c[1]]
            t = ctx.fr.types.get(c[1])
            n = None
            from .irparse import IntT
            if isinstance(t, IntT):
                n = (t.w + 7) // 8
            H.env[c[1]] = havoc_val(ex, H, v0, vb, n, "e", k, step)
    return H


def harvest(ex, atoms, M, H, k, lin_cells, entry):
    """order facts between terms over the header state: returns functions (state, k) -> Bool"""
    syms = {}
    for c in M.keys():
        v = M.get(H, c)
        o = offv(v)
        if o is not None and is_zi(o) and z3.is_const(o) and o.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            syms[c] = o
    hset = {o.get_id() for o in syms.values()} | {k.get_id()}
    out, seen = [], set()

    def mk(e):
        def f(st, kk):
            sub = [(k, kk)]
            for c, o in syms.items():
                v = offv(M.get(st, c))
                if v is None:
                    return z3.BoolVal(False)
                sub.append((o, zi(v)))
            return z3.substitute(e, sub)
        return f

    known = known_consts(entry, H)

    def ok(e):
        # only header symbols and values that exist before the loop
        return consts_in(e) <= known | hset

    def add(e):
        e = zb(e)
        if e.get_id() not in seen and not z3.is_true(e) and not z3.is_false(e):
            seen.add(e.get_id())
            out.append(mk(e))
            keepalive.append(e)
    keepalive = []
    for a in atoms:
        for x in flatten(a):
            if not z3.is_app(x) or x.num_args() != 2 or not is_zi(x.arg(0)):
                continue
            kd = x.decl().kind()
            if kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                continue
            p, q = x.arg(0), x.arg(1)
            if not ok(x):
                continue
            if not (consts_in(x) & hset):
                continue
            add(p <= q)
            add(p >= q)
    # monotone non-linear symbols
    for c, o in syms.items():
        v0 = offv(M.get(entry, c))
        if v0 is not None and not str(v0).startswith("uninit"):
            add(o >= zi(v0))
            add(o <= zi(v0))
            for c2, o2 in syms.items():
                if c2 != c and c < c2 if type(c) == type(c2) and str(c) < str(c2) else False:
                    w0 = offv(M.get(entry, c2))
                    if w0 is not None and not str(w0).startswith("uninit"):
                        add(o - zi(v0) == o2 - zi(w0))
    return out


def flatten(a):
    st, out = [a], []
    n = 0
    while st and n < 200:
        x = st.pop()
        n += 1
        if is_c(x):
            continue
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            st += x.children()
        elif kd == z3.Z3_OP_ITE and isinstance(x, z3.BoolRef):
            st += x.children()
        elif kd == z3.Z3_OP_EQ and isinstance(x.arg(0), z3.BoolRef):
            st += x.children()
        else:
            out.append(x)
    return out


def consts_in(e, cache={}):
    h = cache.get(e.get_id())
    if h is not None and h[0].eq(e):
        return h[1]
    if len(cache) > 200000:
        cache.clear()
    top = e
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(-1)
            st += x.children()
    cache[top.get_id()] = (top, out)
    return out


def known_consts(entry, H):
    """constants appearing in the entry state: path facts and integer cells"""
    out = set()
    p = entry.pc
    while p.parent is not None:
        out |= consts_in(p.fact)
        p = p.parent
    for c in entry.mem.values():
        if isinstance(c, CellC):
            for n, v in c.c.values():
                o = offv(v)
                if o is not None and is_zi(o):
                    out |= consts_in(o)
    for v in list(entry.ghost.values()) + list(entry.env.values()) + list(entry.osize.values()):
        o = offv(v)
        if o is not None and is_zi(o):
            out |= consts_in(o)
    return out
