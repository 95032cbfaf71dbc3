"""Verification-condition generator: symbolic execution of LLVM IR with state merging, contracts and loop cuts."""
import random
import re
import sys
import time
import z3
from .val import *
from .mem import *
from .solve import PC, Solver, common
from .irparse import (IntT, PtrT, FloatT, VoidT, ArrT, VecT, StructT, MetaT, layout, size_align, PTR)
from .names import basename
from . import canon

sys.setrecursionlimit(100000)


class Budget(Unsupported):
    pass


class State:
    __slots__ = ("pc", "mem", "osize", "dead", "ghost", "exc", "env")

    def __init__(self):
        self.pc = PC()
        self.mem, self.osize, self.dead, self.ghost = {}, {}, {}, {}
        self.exc = None
        self.env = {}

    def fork(self):
        s = State.__new__(State)
        s.pc, s.exc = self.pc, self.exc
        s.mem, s.osize, s.dead, s.ghost, s.env = (dict(self.mem), dict(self.osize), dict(self.dead),
                                                  dict(self.ghost), dict(self.env))
        return s

    def assume(self, f):
        self.pc = self.pc.add(f)


class Out:
    """outcome of a call: at most one merged normal state, exceptional states by type"""
    __slots__ = ("st", "val", "excs")

    def __init__(self, st, val=None, excs=()):
        self.st, self.val, self.excs = st, val, list(excs)


class Ob:
    __slots__ = ("name", "kind", "status", "t", "backend", "model", "cut", "info")

    def __init__(self, name, kind, status, t, backend, model=None, cut=False, info=None):
        self.name, self.kind, self.status, self.t, self.backend = name, kind, status, t, backend
        self.model, self.cut, self.info = model, cut, info


class Loop:
    __slots__ = ("header", "blocks", "parent", "idx")


class CFG:
    def __init__(self, fn):
        self.fn = fn
        entry = fn.order[0]
        seen, post = set(), []
        stack = [(entry, iter(fn.blocks[entry].succ))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in fn.blocks[b].succ:
                preds[s].append(b)
        self.preds = preds
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        for b in self.rpo:
            for s in fn.blocks[b].succ:
                if self.pos[s] <= self.pos[b]:
                    if not self.dominates(s, b):
                        raise Unsupported(f"irreducible control flow in {fn.name}")
                    L = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L:
                            L.add(x)
                            work += preds[x]
        self.loops = {}
        for i, h in enumerate(sorted(loops, key=lambda h: self.pos[h])):
            l = Loop()
            l.header, l.blocks, l.parent, l.idx = h, loops[h], None, i
            self.loops[h] = l
        # blocks all of whose paths end in unreachable / resume
        self.noret = set()
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                if b in self.noret:
                    continue
                t = fn.blocks[b].ins[-1].op
                if t in ("unreachable", "resume") or (fn.blocks[b].succ and
                                                      all(s in self.noret for s in fn.blocks[b].succ)):
                    self.noret.add(b)
                    ch = True

    def _inter(self, idom, a, b):
        while a != b:
            while self.pos[a] > self.pos[b]:
                a = idom[a]
            while self.pos[b] > self.pos[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n


class Frame:
    def __init__(self, fn, mod, dem):
        self.fn, self.mod, self.dem, self.base = fn, mod, dem, basename(dem)
        self.types = {}
        self.rets, self.excs = [], []
        self.exit_decided = {}
        self.allocas = []


class LoopSpec:
    """inductive invariant supplied by a contract file for the idx-th loop (RPO order) of functions matching fn"""

    def __init__(self, fn, inv=None, idx=None, havoc=None, unroll=None, entry=None, back=None):
        self.fn, self.inv, self.idx, self.havoc, self.unroll = re.compile(fn), inv, idx, havoc, unroll
        self.entry, self.back = entry, back


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def first_cond(t):
    """an outermost condition in a term"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return x.arg(0)
        todo += x.children()
    return None


# obligations that are about memory and other undefined behaviour, or about ending by a signal
SAFETY = {"bounds", "cttz-zero", "division-by-zero", "double-free", "free-of-interior", "from_chars-range", "invalid-free",
          "library-precondition", "llvm.assume", "null-deref", "pointer-difference", "shift-range", "signed-overflow", "terminate",
          "to_chars-capacity", "trap", "unreachable", "use-after-free", "wild-deref", "write-to-const",
          "the comparator is a strict weak order", "every error ends in an error status"}


class Executor:
    def __init__(self, modules, name="?", timeout=20.0, deadline=None, int_widths=(64,)):
        self.canon = False
        self.int_loads = False   # 64-bit loads of vectors become numbers
        self.modules = modules
        self.name = name
        self.solver = Solver(deadline)
        self.timeout = timeout
        self.deadline = deadline
        self.int_widths = set(int_widths)
        self.contracts = []      # (compiled regex on demangled name, handler)
        self.models = {}         # basename -> handler
        self.remodels = []       # (compiled regex on basename, handler)
        self.loop_specs = []
        self.on_store = None
        self.after_store = None
        self.cand_gens = []      # callbacks proposing candidate loop invariants (checked Houdini-style)
        self.obs = []
        self.suppress = 0
        self.safety = None
        self.open = []
        self.giveups = 0      # candidate invariants the solver could neither prove nor refute
        self.cutdepth = 0        # >0 once states depend on a loop cut
        self.gobjs = {}
        self.symtab = {}
        for m in modules:
            for n in m._defs:
                self.symtab.setdefault(n, m)
        self.depth = 0
        self.executed = {}       # demangled -> count (functions whose body was executed)
        self.assumed = {}        # contract / model name -> count
        self.cuts = {}
        self.loops_met = set()
        self.typeids = {}
        self.alloc_stride = None  # hook(ex, frame, size) -> stride
        self.frames = []
        self.atoms = None
        self.folded = 0
        self.max_unroll = 300
        self.trace = False
        self.ninstr = 0
        self.covered = set()

    # ------------------------------------------------------------ obligations

    def loc(self, fr=None, ins=None):
        for f, i in reversed(self.frames):
            l = f.mod.line_of(i.dbg) if i is not None else None
            if l and "/repo/" in self._abspath(l, f):
                return self._abspath(l, f).split("/repo/")[1] + f"({f.base})"
        if self.frames:
            f, i = self.frames[-1]
            return f"{f.base}"
        return "?"

    def _abspath(self, l, f):
        return l if l.startswith("/") else "/repo/" + l.lstrip("./")

    def gave_up(self, goal):
        self.giveups += 1

    def oblige(self, st, kind, goal, guard=True, name=None, info=None):
        ctxonly = self.safety is not None and kind not in SAFETY
        if ctxonly and self.safety == "wild" and kind not in ("invariant-init", "invariant-step", "induction"):
            return True                      # neither checked nor assumed
        goal = b_implies(guard, goal)
        if is_c(goal) and goal:
            self.folded += not self.suppress
            return True
        if not is_c(goal) and z3.is_true(goal):
            self.folded += not self.suppress
            return True
        if st.pc.dead:
            return True
        if self.suppress:
            st.assume(goal)
            return True
        nm = name or f"{kind}@{self.loc()}"
        t0 = time.time()
        if self.canon and canon.prove_eq(goal, st.pc.facts()):
            self.obs.append(Ob(nm, kind, "discharged", time.time() - t0, "congruence+z3", None, self.cutdepth > 0, info))
            self.solver.stats["congruence"] = self.solver.stats.get("congruence", 0) + 1
            return True
        if self.canon and z3.is_eq(goal) and z3.is_bv(goal.arg(0)):
            cex = canon.counterexample(goal, st.pc.facts(), random.Random(1))
            if cex:
                r, m = self.solver.check(st.pc, cex, self.timeout, want_model=True)
                if r == "sat" and ctxonly:
                    self.open.append(nm)
                if r == "sat" and not self.giveups and not self.open:
                    self.obs.append(Ob(nm, kind, "refuted", time.time() - t0, "evaluation+z3", m, self.cutdepth > 0, info))
                    return False
        r, m = self.solver.check(st.pc, [b_not(goal)], self.timeout, want_model=True)
        dt = time.time() - t0
        status = {"unsat": "discharged", "sat": "refuted", "unknown": "unknown"}[r]
        if status == "refuted" and self.giveups:
            # an invariant may be missing for want of solver time
            status, m = "unknown", None
        if status == "refuted" and self.open:
            status, m = "unknown", None      # what follows an open obligation of another property is not reported
        if ctxonly and status != "discharged":
            self.open.append(nm)
        self.obs.append(Ob(nm, kind, status, dt, self.solver.last, m if r == "sat" else None, self.cutdepth > 0, info))
        if self.trace and status != "discharged":
            print("   OB", status, nm, f"{dt:.2f}s")
        st.assume(goal)
        return r == "unsat"

    # ------------------------------------------------------------ fresh values

    def fresh(self, st, w, name="v", as_int=None):
        if w == 1:
            return z3.Bool(fresh_name(name))
        if as_int if as_int is not None else (w in self.int_widths):
            x = z3.Int(fresh_name(name))
            st.assume(z3.And(x >= 0, x < (1 << w)))
            return x
        return z3.BitVec(fresh_name(name), w)

    def fresh_of_type(self, st, t, name="undef"):
        if isinstance(t, IntT):
            return self.fresh(st, t.w, name, as_int=(t.w in self.int_widths))
        if isinstance(t, PtrT):
            return Ptr(Obj("invalid", 0, "invalid"), 0)
        if isinstance(t, FloatT):
            return Flo()
        if isinstance(t, VecT):
            return Vec([self.fresh_of_type(st, t.e, name) for _ in range(t.n)])
        if isinstance(t, StructT):
            return Agg([self.fresh_of_type(st, f, name) for f in t.fields])
        if isinstance(t, ArrT):
            return Agg([self.fresh_of_type(st, t.e, name) for _ in range(t.n)])
        raise Unsupported(f"fresh of {t!r}")

    # ------------------------------------------------------------ objects

    def new_obj(self, st, name, size, kind="heap", stride=None, content=None):
        o = Obj(name, size, kind, stride)
        if content is not None:
            st.mem[o.id] = content
        elif stride or not is_c(size):
            st.mem[o.id] = ArrC(stride or 1, Base(name, 8 * (stride or 1)))
        else:
            st.mem[o.id] = CellC()
        return o

    def size_of(self, st, o):
        return st.osize.get(o.id, o.size)

    def gobj(self, st, name):
        o = self.gobjs.get(name)
        if o is None:
            g, mod = None, None
            for m in self.modules:
                gg = m.glob(name)
                if gg is not None and (g is None or gg.init is not None):
                    g, mod = gg, m
                    if gg.init is not None:
                        break
            if g is None:
                raise Unsupported(f"unknown global {name}")
            if g.init and g.init[0] == "alias":
                v = g.init[1]
                return self.gobj(st, v[1])
            try:
                sz = size_align(g.type)[0]
            except Exception:
                sz = 1 << 20
            o = Obj("@" + name, sz, "global", ro=g.const)
            o.meta = (g, mod)
            self.gobjs[name] = o
        return o

    def content(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            if o.kind == "global":
                g, mod = o.meta
                init = g.init
                if init is None or init[0] == "undef":
                    c = CellC()
                elif init[0] == "bytes":
                    c = ArrC(1, BytesN(init[1]))
                elif init[0] == "zero":
                    c = CellC(self._zero_cells(o.size))
                elif (init[0] == "agg" and isinstance(g.type, ArrT) and isinstance(g.type.e, IntT)
                      and all(e[0] == "i" for e in init[1]) and len(init[1]) > 16):
                    s = size_align(g.type.e)[0]
                    data = b"".join(int(e[1]).to_bytes(s, "little") for e in init[1])
                    c = ArrC(1, BytesN(data))
                else:
                    cells = {}
                    self._init_cells(st, cells, 0, init, g.type)
                    c = CellC(cells)
                st.mem[o.id] = c
            else:
                raise Unsupported(f"no content for {o!r}")
        return c

    def _zero_cells(self, n):
        cells, off = {}, 0
        if n > 65536:
            raise Unsupported("huge zero object")
        while off < n:
            k = 8 if n - off >= 8 else 4 if n - off >= 4 else 1
            cells[off] = (k, 0)
            off += k
        return cells

    def _init_cells(self, st, cells, off, v, t):
        k = v[0]
        if k == "zero" or k == "undef" or k == "null":
            n = size_align(t)[0]
            for o, c in self._zero_cells(n).items():
                cells[off + o] = c
        elif k == "bytes":
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, b)
        elif k == "agg":
            if isinstance(t, StructT):
                offs = layout(t)[0]
                for o, e, ft in zip(offs, v[1], t.fields):
                    self._init_cells(st, cells, off + o, e, ft)
            else:
                s = size_align(t.e)[0]
                for i, e in enumerate(v[1]):
                    self._init_cells(st, cells, off + i * s, e, t.e)
        else:
            cells[off] = (size_align(t)[0], self.const(st, v))

    # ------------------------------------------------------------ memory access

    def ptr_alts(self, p):
        if isinstance(p, Ptr):
            return [(True, p)]
        if isinstance(p, PtrU):
            return p.alts
        if isinstance(p, FnPtr):
            raise Unsupported("data access through function pointer")
        raise Unsupported(f"access through {p!r}")

    def bounds(self, st, p, n, guard=True, what="access"):
        if p.obj is None:
            self.oblige(st, "null-deref", False, guard)
            return False
        if p.obj.kind == "invalid":
            self.oblige(st, "wild-deref", False, guard)
            return False
        d = st.dead.get(p.obj.id)
        if d is not None:
            self.oblige(st, "use-after-free", b_not(d), guard)
        sz = self.size_of(st, p.obj)
        if sz is None:
            return True
        self.oblige(st, "bounds", b_and(i_le(0, p.off), i_le(i_add(p.off, n), sz)), guard,
                    info=f"{what} of {n} bytes at offset {p.off} of {p.obj.name} (size {sz})")
        return True

    def load(self, st, p, t):
        if isinstance(t, StructT):
            offs = layout(t)[0]
            return Agg([self.load(st, self.padd(p, o), f) for o, f in zip(offs, t.fields)])
        if isinstance(t, ArrT):
            s = size_align(t.e)[0]
            return Agg([self.load(st, self.padd(p, i * s), t.e) for i in range(t.n)])
        n = size_align(t)[0] if not isinstance(t, IntT) else (t.w + 7) // 8
        res = None
        alts = self.ptr_alts(p)
        for c, q in alts:
            if len(alts) > 1 and not self.solver.feasible(st.pc, c):
                continue
            if not self.bounds(st, q, n, c, "read"):
                v = self.fresh_of_type(st, t, "bad")
            else:
                v = self._load1(st, q, n, t)
            res = v if res is None else self.merge_val(st, c, v, res, t)
        if res is None:
            res = self.fresh_of_type(st, t, "bad")
        return res

    def padd(self, p, k):
        if isinstance(p, Ptr):
            return Ptr(p.obj, i_add(p.off, k)) if not (is_c(k) and k == 0) else p
        if isinstance(p, PtrU):
            return PtrU([(c, self.padd(q, k)) for c, q in p.alts])
        raise Unsupported(f"offset from {p!r}")

    def _load1(self, st, p, n, t):
        raw = self.read_bytes(st, p, n, t)
        return self.from_raw(st, raw, n, t)

    def from_raw(self, st, raw, n, t):
        if raw is UNDEF:
            return self.fresh_of_type(st, t)
        if isinstance(t, PtrT):
            if isinstance(raw, (Ptr, PtrU, FnPtr)):
                return raw
            if isinstance(raw, PInt):
                return raw.p
            if is_c(raw):
                if raw == 0:
                    return NULL
                return Ptr(Obj("invalid", 0, "invalid"), raw)
            return Ptr(Obj("invalid", 0, "invalid"), 0)
        if isinstance(t, FloatT):
            return raw if isinstance(raw, Flo) else Flo()
        if isinstance(t, VecT):
            if isinstance(raw, Vec) and len(raw.lanes) == t.n:
                return raw
            if isinstance(raw, Vec):
                raw = vec_to_bv(raw, 8 * n)
            return self.bv_to_vec(raw, t)
        if isinstance(raw, Vec):
            raw = vec_to_bv(raw, 8 * n)
        if isinstance(t, IntT):
            if self.int_loads and is_bv(raw) and t.w in self.int_widths and t.w == 8 * n and n > 1:
                raw = to_zi(self.prune(st, raw), t.w)
                if z3.is_app(raw) and raw.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(raw.arg(1)):
                    raw = self.mod(st, raw.arg(0), raw.arg(1).as_long())
            if isinstance(raw, (Ptr, PtrU, FnPtr)):
                return PInt(raw)
            if isinstance(raw, Flo):
                return self.fresh_of_type(st, t)
            if t.w == 8 * n:
                return raw
            if isinstance(raw, PInt):
                raise Unsupported("narrow load of pointer")
            return self.trunc(raw, 8 * n, t.w)
        raise Unsupported(f"load of {t!r}")

    def bv_to_vec(self, raw, t):
        lw = t.e.w
        if is_zi(raw):
            raw = to_bv(raw, lw * t.n)
        ls = []
        for i in range(t.n):
            x = bv_extract(raw, lw * (i + 1) - 1, lw * i)
            if lw == 1:
                x = bool(x) if is_c(x) else (x == 1)
            ls.append(x)
        return Vec(ls)

    def read_bytes(self, st, p, n, t=None):
        """raw value of n bytes at p (bounds already obliged)"""
        c = self.content(st, p.obj)
        off = p.off
        if not is_c(off):
            k = const_of(off)
            if k is not None:
                off = k
        if isinstance(c, CellC):
            if is_c(off):
                return self._cell_read(st, p.obj, c, off, n)
            return self._cell_read_sym(st, p.obj, c, off, n, t)
        return self._arr_read(st, c, off, n)

    def _cell_read(self, st, o, c, off, n):
        h = c.c.get(off)
        if h is not None and h[0] == n:
            return h[1]
        parts = []  # least significant first
        pos, end = off, off + n
        undef = True
        while pos < end:
            cell, co = c.c.get(pos), pos
            if cell is None:
                for back in range(1, 64):
                    x = c.c.get(pos - back)
                    if x is not None:
                        if x[0] > back:
                            cell, co = x, pos - back
                        break
            if cell is None:
                v = z3.BitVec(fresh_name("uninit"), 8)
                nc = dict(c.c)
                nc[pos] = (1, v)
                c = CellC(nc)
                st.mem[o.id] = c
                parts.append((v, 8))
                pos += 1
                continue
            undef = False
            k = min(co + cell[0], end) - pos
            x = sub_bytes(cell[1], cell[0], pos - co, k)
            if x is UNDEF:
                x = z3.BitVec(fresh_name("uninit"), 8 * k)
            parts.append((x, 8 * k))
            pos += k
        if len(parts) == 1:
            return parts[0][0]
        return bv_concat(parts[::-1])

    def _cell_read_sym(self, st, o, c, off, n, t):
        sz = self.size_of(st, o)
        if not is_c(sz) or sz > 4096:
            raise Unsupported(f"symbolic offset into cell object {o!r}")
        cands = self._sym_cands(st, off, n, sz)
        res = None
        for k in cands:
            raw = self._cell_read(st, o, self.content(st, o), k, n)
            v = raw
            res = v if res is None else self.merge_val(st, i_eq(off, k), v, res, IntT(8 * n) if t is None or isinstance(t, VecT) else t)
        if res is None:
            return UNDEF
        return res

    def _sym_cands(self, st, off, n, sz):
        step = n
        ta, ca = lin(off)
        from math import gcd
        g = 0
        for _, cc in ta.values():
            g = gcd(g, cc)
        step = g or 1
        first = ca % step
        cands = [k for k in range(first, sz - n + 1, step)]
        if len(cands) > 300:
            raise Unsupported(f"too many candidate offsets ({len(cands)})")
        return cands

    def _split(self, st, c, off):
        """offset -> (element index, byte remainder) for an element array"""
        s = c.stride
        if s == 1:
            return off, 0
        r = i_divexact(off, s)
        if r is not None:
            return r
        # solver-assisted: find constant remainder
        for rem in range(s):
            if self.solver.valid(st.pc, zi(off) % s == rem):
                q = z3.Int(fresh_name("q"))
                st.assume(zi(off) == s * q + rem)
                return q, rem
        raise Unsupported("offset not aligned to element size")

    def _arr_elem(self, st, c, q):
        v = c.node.read(q, self)
        return v

    def _arr_read(self, st, c, off, n):
        s = c.stride
        q, r = self._split(st, c, off)
        if r == 0 and n == s:
            return self._arr_elem(st, c, q)
        parts, pos, left = [], r, n
        while left:
            k = min(s - pos, left)
            e = self._arr_elem(st, c, q)
            parts.append((sub_bytes(e, s, pos, k), 8 * k))
            left -= k
            pos = 0
            q = i_add(q, 1)
        return bv_concat(parts[::-1])

    def store(self, st, p, v, t):
        if isinstance(t, StructT):
            if v is UNDEF:
                return
            offs = layout(t)[0]
            for o, f, x in zip(offs, t.fields, v.f):
                self.store(st, self.padd(p, o), x, f)
            return
        if isinstance(t, ArrT):
            if v is UNDEF:
                return
            s = size_align(t.e)[0]
            for i, x in enumerate(v.f):
                self.store(st, self.padd(p, i * s), x, t.e)
            return
        if isinstance(t, IntT):
            n = (t.w + 7) // 8
            if t.w != 8 * n and v is not UNDEF:
                v = self.zext(v, t.w, 8 * n)
        else:
            n = size_align(t)[0]
        alts = self.ptr_alts(p)
        for c, q in alts:
            if len(alts) > 1 and not self.solver.feasible(st.pc, c):
                continue
            if not self.bounds(st, q, n, c, "write"):
                continue
            if q.obj.ro:
                self.oblige(st, "write-to-const", False, c)
                continue
            if self.on_store is not None:
                self.on_store(st, q, c)
            x = v
            if not (is_c(c) and c):
                old = self._load1(st, q, n, t)
                x = self.merge_val(st, c, v, old, t)
            self.write_bytes(st, q, n, x, t)
            if self.after_store is not None:
                self.after_store(st, q)

    def write_bytes(self, st, p, n, v, t=None):
        o = p.obj
        c = self.content(st, o)
        off = p.off
        if not is_c(off):
            k = const_of(off)
            if k is not None:
                off = k
        if isinstance(c, CellC):
            if is_c(off):
                st.mem[o.id] = self._cell_write(c, off, n, v)
                return
            sz = self.size_of(st, o)
            if not is_c(sz) or sz > 4096:
                raise Unsupported("symbolic store into cell object")
            for k in self._sym_cands(st, off, n, sz):
                c = self.content(st, o)
                old = self._cell_read(st, o, c, k, n)
                tt = t if t is not None else IntT(8 * n)
                if isinstance(tt, PtrT) and not isinstance(old, (Ptr, PtrU, FnPtr)):
                    old = self.from_raw(st, old, n, tt)
                x = self.merge_val(st, i_eq(off, k), v, old, tt)
                st.mem[o.id] = self._cell_write(self.content(st, o), k, n, x)
            return
        s = c.stride
        q, r = self._split(st, c, off)
        node = c.node
        if isinstance(v, Vec):
            v = vec_to_bv(v, 8 * n)
        if r == 0 and n == s:
            if not is_num(v):
                if v is UNDEF:
                    v = z3.BitVec(fresh_name("undef"), 8 * n)
                else:
                    raise Unsupported(f"store of {v!r} into element array")
            if c.is_int:
                v = to_zi(v, 8 * s)
            elif is_zi(v):
                v = to_bv(v, 8 * s)
            st.mem[o.id] = ArrC(s, StoreN(node, q, v), c.is_int)
            return
        if v is UNDEF:
            v = z3.BitVec(fresh_name("undef"), 8 * n)
        if not is_num(v):
            raise Unsupported(f"store of {v!r} into element array")
        if is_zi(v):
            v = to_bv(v, 8 * n)
        pos, done = r, 0
        while done < n:
            k = min(s - pos, n - done)
            piece = bv_extract(v, 8 * (done + k) - 1, 8 * done)
            if k == s:
                e = piece
            else:
                old = node.read(q, self)
                if is_zi(old):
                    old = to_bv(old, 8 * s)
                ps = []
                if pos + k < s:
                    ps.append((bv_extract(old, 8 * s - 1, 8 * (pos + k)), 8 * (s - pos - k)))
                ps.append((piece, 8 * k))
                if pos:
                    ps.append((bv_extract(old, 8 * pos - 1, 0), 8 * pos))
                e = bv_concat(ps)
            if is_c(e):
                e = z3.BitVecVal(e, 8 * s)
            node = StoreN(node, q, e)
            done += k
            pos = 0
            q = i_add(q, 1)
        st.mem[o.id] = ArrC(s, node, c.is_int)

    def _cell_write(self, c, off, n, v):
        nc = dict(c.c)
        if nc.get(off, (0,))[0] != n:
            end = off + n
            # cells overlapping on the left
            for back in range(1, 64):
                x = nc.get(off - back)
                if x is not None:
                    if x[0] > back:
                        co = off - back
                        del nc[co]
                        self._put_piece(nc, co, x, 0, back)
                        if x[0] > back + n:
                            self._put_piece(nc, end, x, back + n, x[0] - back - n)
                    break
            for o in range(off, end):
                x = nc.get(o)
                if x is not None:
                    del nc[o]
                    if o + x[0] > end:
                        self._put_piece(nc, end, x, end - o, o + x[0] - end)
        nc[off] = (n, v)
        return CellC(nc)

    def _put_piece(self, nc, off, x, lo, k):
        try:
            nc[off] = (k, sub_bytes(x[1], x[0], lo, k))
        except Unsupported:
            nc[off] = (k, UNDEF)

    # ------------------------------------------------------------ bulk memory

    def memcpy(self, st, d, s, n):
        self.memcpy1(st, d, s, n)
        if self.after_store is not None and isinstance(d, Ptr):
            self.after_store(st, d)

    def memcpy1(self, st, d, s, n):
        n0 = const_of(n) if is_num(n) else None
        if n0 is not None:
            n = n0
        else:
            n = to_zi(n, 64)
        if is_c(n) and n == 0:
            return
        if isinstance(d, PtrU) or isinstance(s, PtrU):
            if not is_c(n) or n > 256:
                raise Unsupported("memcpy through pointer union")
            v = [self.load(st, self.padd(s, i), IntT(8)) for i in range(n)]
            for i in range(n):
                self.store(st, self.padd(d, i), v[i], IntT(8))
            return
        g = True if is_c(n) else (zi(n) > 0)
        for p, w in ((s, "memcpy read"), (d, "memcpy write")):
            if p.obj is None or p.obj.kind == "invalid":
                self.oblige(st, "null-deref", False, g)
                return
            dd = st.dead.get(p.obj.id)
            if dd is not None:
                self.oblige(st, "use-after-free", b_not(dd), g)
            sz = self.size_of(st, p.obj)
            if sz is not None:
                self.oblige(st, "bounds", b_and(i_le(0, p.off), i_le(i_add(p.off, n), sz)), g,
                            info=f"{w} of {n} bytes at {p.off} of {p.obj.name} (size {sz})")
        if d.obj.ro:
            self.oblige(st, "write-to-const", False, g)
            return
        sc, dc = self.content(st, s.obj), self.content(st, d.obj)
        so, do = s.off, d.off
        so = const_of(so) if const_of(so) is not None else so
        do = const_of(do) if const_of(do) is not None else do
        if isinstance(sc, CellC) and isinstance(dc, CellC) and is_c(n) and is_c(so) and is_c(do):
            pieces = []
            pos, end = so, so + n
            while pos < end:
                x = sc.c.get(pos)
                if x is not None and pos + x[0] <= end:
                    pieces.append((pos - so, x[0], x[1]))
                    pos += x[0]
                    continue
                co = None
                if x is not None:
                    co = pos
                else:
                    for back in range(1, 64):
                        y = sc.c.get(pos - back)
                        if y is not None:
                            if y[0] > back:
                                co, x = pos - back, y
                            break
                if co is None:
                    pos += 1
                    continue
                k = min(co + x[0], end) - pos
                pieces.append((pos - so, k, sub_bytes(x[1], x[0], pos - co, k)))
                pos += k
            # clear destination range, then write
            c = self._cell_write(dc, do, n, UNDEF) if n <= 63 else self._cell_clear(dc, do, n)
            nc = dict(c.c)
            nc.pop(do, None) if n <= 63 else None
            for o, k, v in pieces:
                nc[do + o] = (k, v)
            st.mem[d.obj.id] = CellC(nc)
            return
        if isinstance(sc, ArrC) and isinstance(dc, ArrC):
            if sc.stride == dc.stride or (is_c(n) is False):
                if sc.stride != dc.stride:
                    # re-view a never-written object with the other stride when possible
                    if isinstance(dc.node, Base) and not dc.node.reads:
                        dc = ArrC(sc.stride, Base(d.obj.name, 8 * sc.stride, sc.is_int), sc.is_int)
                    else:
                        raise Unsupported(f"copy between strides {sc.stride} and {dc.stride}")
                q1, r1 = self._split(st, sc, so)
                q2, r2 = self._split(st, dc, do)
                k = i_divexact(n, sc.stride)
                if k is None:
                    k = self._split(st, sc, n)
                if r1 == 0 and r2 == 0 and k[1] == 0:
                    st.mem[d.obj.id] = ArrC(dc.stride, CopyN(dc.node, q2, k[0], sc.node, q1), dc.is_int)
                    return
        if is_c(n) and n <= 4096:
            # piecewise through the larger common granule
            g = 1
            for cc in (sc, dc):
                if isinstance(cc, ArrC):
                    g = max(g, cc.stride)
            if n % g or (g > 1 and not (self._aligned(st, sc, so) and self._aligned(st, dc, do))):
                g = n if n <= 64 else 1
            vals = []
            for i in range(0, n, g):
                vals.append(self.read_bytes(st, Ptr(s.obj, i_add(s.off, i)), g))
            for j, i in enumerate(range(0, n, g)):
                self.write_bytes(st, Ptr(d.obj, i_add(d.off, i)), g, vals[j])
            return
        if isinstance(dc, CellC) and is_c(do) and is_c(self.size_of(st, d.obj)) and self.size_of(st, d.obj) <= 256:
            # symbolic length into a small object: byte-wise conditional copy
            lim = self.size_of(st, d.obj) - do
            vals = []
            for i in range(lim):
                c = i_lt(i, n)
                old = self._cell_read(st, d.obj, self.content(st, d.obj), do + i, 1)
                if is_c(c) and not c:
                    vals.append(old)
                    continue
                new = self.read_bytes(st, Ptr(s.obj, i_add(s.off, i)), 1)
                vals.append(merge_num(c, new, old, 8))
            for i, v in enumerate(vals):
                st.mem[d.obj.id] = self._cell_write(self.content(st, d.obj), do + i, 1, v)
            return
        if isinstance(dc, ArrC) and isinstance(sc, CellC) and dc.stride == 1 and is_c(self.size_of(st, s.obj)):
            node = dc.node
            base = d.off
            lim = self.size_of(st, s.obj)
            if is_c(so):
                if lim - so > 256:
                    raise Unsupported("symbolic copy out of a large cell object")
                vals = [self._cell_read(st, s.obj, self.content(st, s.obj), so + i, 1) for i in range(lim - so)]

                def f(i, vals=vals):
                    r = z3.BitVecVal(0, 8)
                    for k, v in enumerate(vals):
                        r = merge_num(i_eq(i, k), v, r, 8)
                    return to_bv(r, 8)
                st.mem[d.obj.id] = ArrC(1, CopyN(node, base, n, FnNode(f, 8), 0))
                return
        raise Unsupported(f"memcpy of {n} from {s!r} to {d!r}")

    def _aligned(self, st, c, off):
        if isinstance(c, CellC):
            return True
        r = i_divexact(off, c.stride)
        return r is not None and r[1] == 0

    def _cell_clear(self, c, off, n):
        nc = {}
        for o, x in c.c.items():
            if o + x[0] <= off or o >= off + n:
                nc[o] = x
            else:
                if o < off:
                    self._put_piece(nc, o, x, 0, off - o)
                if o + x[0] > off + n:
                    self._put_piece(nc, off + n, x, off + n - o, o + x[0] - off - n)
        return CellC(nc)

    def memset(self, st, d, v, n):
        n0 = const_of(n) if is_num(n) else None
        n = n0 if n0 is not None else to_zi(n, 64)
        if is_c(n) and n == 0:
            return
        if not isinstance(d, Ptr):
            raise Unsupported("memset through pointer union")
        g = True if is_c(n) else (zi(n) > 0)
        if d.obj is None:
            self.oblige(st, "null-deref", False, g)
            return
        self.bounds(st, d, n, g, "memset")
        c = self.content(st, d.obj)
        vc = const_of(v)
        if isinstance(c, CellC):
            if not is_c(n) or not is_c(d.off):
                raise Unsupported("symbolic memset of a cell object")
            c = self._cell_clear(c, d.off, n)
            nc = dict(c.c)
            off, end = d.off, d.off + n
            while off < end:
                k = 8 if (end - off >= 8 and off % 8 == 0) else 4 if (end - off >= 4 and off % 4 == 0) else 1
                if vc is not None:
                    nc[off] = (k, int.from_bytes(bytes([vc]) * k, "little"))
                else:
                    k = 1
                    nc[off] = (1, v)
                off += k
            st.mem[d.obj.id] = CellC(nc)
            return
        q, r = self._split(st, c, d.off)
        k = i_divexact(n, c.stride)
        if r or k is None or k[1]:
            if is_c(n) and n <= 4096 and vc is not None:
                return self.write_bytes(st, d, n, int.from_bytes(bytes([vc]) * n, "little"))
            raise Unsupported("unaligned memset")
        e = int.from_bytes(bytes([vc]) * c.stride, "little") if vc is not None else None
        if e is None:
            if c.stride != 1:
                raise Unsupported("memset value")
            e = v
        ev = e if c.is_int else to_bv(e, 8 * c.stride)
        st.mem[d.obj.id] = ArrC(c.stride, FillN(c.node, q, k[0], ev), c.is_int)

    # ------------------------------------------------------------ merging

    def merge_val(self, st, c, a, b, t=None, w=None):
        """if c then a else b"""
        if a is b:
            return a
        if is_c(c):
            return a if c else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Agg) and isinstance(b, Agg):
            ts = (t.fields if isinstance(t, StructT) else [t.e] * len(a.f)) if t is not None else [None] * len(a.f)
            return Agg([self.merge_val(st, c, x, y, tt) for x, y, tt in zip(a.f, b.f, ts)])
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.lanes) == len(b.lanes):
            et = t.e if isinstance(t, VecT) else None
            return Vec([self.merge_val(st, c, x, y, et) for x, y in zip(a.lanes, b.lanes)])
        if isinstance(a, Flo) or isinstance(b, Flo):
            return Flo()
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt):
                return PInt(self.merge_val(st, c, a.p, b.p, PTR))
            if is_c(a) and a == 0:
                return PInt(self.merge_val(st, c, NULL, b.p, PTR))
            if is_c(b) and b == 0:
                return PInt(self.merge_val(st, c, a.p, NULL, PTR))
            raise Unsupported("merge of pointer and integer")
        pa, pb = isinstance(a, (Ptr, PtrU, FnPtr)), isinstance(b, (Ptr, PtrU, FnPtr))
        if pa or pb:
            if not pa:
                if is_c(a) and a == 0:
                    a = NULL
                else:
                    raise Unsupported("merge of pointer and integer")
            if not pb:
                if is_c(b) and b == 0:
                    b = NULL
                else:
                    raise Unsupported("merge of pointer and integer")
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if is_c(a.off) and is_c(b.off) and a.off == b.off:
                    return a
                if not is_c(a.off) and not is_c(b.off) and a.off.eq(b.off):
                    return a
                return Ptr(a.obj, z3.If(c, zi(a.off), zi(b.off)))
            alts = []
            for cc, lst in ((c, self._alts(a)), (b_not(c), self._alts(b))):
                for g, p in lst:
                    gg = b_and(cc, g)
                    for i, (g0, p0) in enumerate(alts):
                        if (isinstance(p0, Ptr) and isinstance(p, Ptr) and p0.obj is p.obj and
                                is_c(p0.off) and is_c(p.off) and p0.off == p.off):
                            alts[i] = (b_or(g0, gg), p0)
                            break
                    else:
                        alts.append((gg, p))
            if len(alts) == 1:
                return alts[0][1]
            return PtrU(alts)
        if w is None:
            if is_bv(a):
                w = a.size()
            elif is_bv(b):
                w = b.size()
            elif isinstance(t, IntT):
                w = t.w
            elif isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
                w = 1
            elif is_zi(a) or is_zi(b):
                w = 64
            elif is_c(a) and is_c(b) and a == b:
                return a
            elif t is None:
                raise Unsupported("merge of constants of unknown width")
            else:
                raise Unsupported(f"merge at type {t!r}")
        if isinstance(a, z3.BoolRef) and w != 1:
            a = self.zext(a, 1, w)
        if isinstance(b, z3.BoolRef) and w != 1:
            b = self.zext(b, 1, w)
        return merge_num(c, a, b, w)

    def _alts(self, p):
        if isinstance(p, PtrU):
            return p.alts
        return [(True, p)]

    def merge_states(self, fr, sts):
        cur = sts[0]
        for s in sts[1:]:
            cur = self.merge2(fr, cur, s)
        return cur

    def merge2(self, fr, a, b):
        if a.pc.dead:
            return b
        if b.pc.dead:
            return a
        anc = common(a.pc, b.pc)
        ra, rb = a.pc.facts(anc), b.pc.facts(anc)
        c = None
        if ra and rb:
            x, y = ra[0], rb[0]
            if z3.is_not(y) and y.arg(0).eq(x):
                c = x
                ra, rb = ra[1:], rb[1:]
            elif z3.is_not(x) and x.arg(0).eq(y):
                c = x
                ra, rb = ra[1:], rb[1:]
        if c is None:
            c = z3.Bool(fresh_name("path"))
        s = State.__new__(State)
        s.exc = a.exc if a.exc == b.exc else (None if a.exc is None or b.exc is None else
                                              ((a.exc[0] if a.exc[0] == b.exc[0] else None), a.exc[1]))
        pc = anc
        for f in ra:
            pc = pc.add(z3.Implies(c, f))
        nc = z3.Not(c)
        for f in rb:
            pc = pc.add(z3.Implies(nc, f))
        s.pc = pc
        # memory
        mem = {}
        for k, va in a.mem.items():
            vb = b.mem.get(k)
            if vb is None or vb is va:
                mem[k] = va
            else:
                mem[k] = self.merge_content(s, c, va, vb, a, b, k)
        for k, vb in b.mem.items():
            if k not in mem:
                mem[k] = vb
        s.mem = mem
        os_ = dict(b.osize)
        for k, v in a.osize.items():
            if k in b.osize:
                w = b.osize[k]
                os_[k] = v if v is w or (is_c(v) and is_c(w) and v == w) else z3.If(c, zi(v), zi(w))
            else:
                os_[k] = v  # object sizes only change through models that set both
        s.osize = os_
        dd = {}
        for k in set(a.dead) | set(b.dead):
            x, y = a.dead.get(k, False), b.dead.get(k, False)
            dd[k] = b_ite(c, x, y)
        s.dead = dd
        gh = {}
        for k in set(a.ghost) | set(b.ghost):
            if k in a.ghost and k in b.ghost:
                x, y = a.ghost[k], b.ghost[k]
                gh[k] = x if x is y else self.merge_ghost(s, c, x, y, k)
            else:
                gh[k] = a.ghost.get(k, b.ghost.get(k))
        s.ghost = gh
        env = {}
        for k, va in a.env.items():
            if k in b.env:
                vb = b.env[k]
                if va is vb:
                    env[k] = va
                else:
                    try:
                        env[k] = self.merge_val(s, c, va, vb, fr.types.get(k) if fr else None)
                    except Unsupported:
                        pass
        s.env = env
        return s

    def merge_ghost(self, s, c, x, y, k):
        if hasattr(x, "merge"):
            return x.merge(self, s, c, y)
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, z3.BoolRef):
            return b_ite(c, x, y)
        if isinstance(x, z3.BitVecRef) and isinstance(y, z3.BitVecRef) and x.size() == y.size():
            return z3.If(c, x, y)
        if is_num(x) and is_num(y):
            return merge_num(c, x, y, 64)
        if isinstance(x, Node):
            return IteN(c, x, y)
        if x == y:
            return x
        if k.startswith("stream:") and isinstance(x, str) and isinstance(y, str):
            return x if x == y else "mixed"
        raise Unsupported(f"merge of ghost {k}")

    def merge_content(self, s, c, x, y, a, b, oid):
        if isinstance(x, ArrC) and isinstance(y, ArrC):
            if x.stride != y.stride:
                raise Unsupported("merge of different strides")
            if x.node is y.node:
                return x
            return ArrC(x.stride, IteN(c, x.node, y.node), x.is_int or y.is_int)
        if isinstance(x, CellC) and isinstance(y, CellC):
            out = {}
            xs, ys = x.c, y.c
            for o, (n, v) in xs.items():
                h = ys.get(o)
                if h is not None and h[0] == n:
                    if v is h[1]:
                        out[o] = (n, v)
                    else:
                        try:
                            out[o] = (n, self.merge_val(s, c, v, h[1], None, None if not is_num(v) or not is_num(h[1])
                                                        else 8 * n))
                        except Unsupported:
                            out[o] = (n, UNDEF)
                elif h is None and not self._covered(ys, o, n):
                    out[o] = (n, v)  # undefined on the other side
                else:
                    self._merge_split(out, s, c, xs, ys, o, n)
            for o, (n, v) in ys.items():
                if o in out or o in xs:
                    continue
                if not self._covered(xs, o, n):
                    out[o] = (n, v)
                else:
                    self._merge_split(out, s, c, xs, ys, o, n)
            return CellC(out)
        raise Unsupported("merge of cell and array contents")

    def _covered(self, cells, o, n):
        for k in range(o - 63, o + n):
            h = cells.get(k)
            if h is not None and k + h[0] > o:
                return True
        return False

    def _merge_split(self, out, s, c, xs, ys, o, n):
        def byte(cells, i):
            for back in range(0, 64):
                h = cells.get(i - back)
                if h is not None:
                    if h[0] > back:
                        try:
                            return sub_bytes(h[1], h[0], back, 1)
                        except Unsupported:
                            return UNDEF
                    return UNDEF
            return UNDEF
        for i in range(o, o + n):
            if any(i - back in out and out[i - back][0] > back for back in range(0, 64)):
                continue
            a, b = byte(xs, i), byte(ys, i)
            out[i] = (1, self.merge_val(s, c, a, b, None, 8) if a is not UNDEF or b is not UNDEF else UNDEF)

    # ------------------------------------------------------------ integer operations

    def zext(self, v, w, to):
        if w == to:
            return v
        if w == 1:
            if is_c(v):
                return int(v)
            if to == 1:
                return v
            return z3.If(v, z3.BitVecVal(1, to), z3.BitVecVal(0, to))
        if is_c(v) or is_zi(v):
            return v
        if isinstance(v, PInt):
            return v
        if ite_leaves(v) is not None:
            return ite_map(v, lambda x: x, lambda c, a, b: z3.If(c, to_bv(a, to), to_bv(b, to)))
        return z3.ZeroExt(to - w, v)

    def sext(self, st, v, w, to):
        if w == to:
            return v
        if w == 1:
            if is_c(v):
                return mask(to) if v else 0
            return z3.If(v, z3.BitVecVal(mask(to), to), z3.BitVecVal(0, to))
        if is_c(v):
            return sgn(v, w) & mask(to)
        if is_zi(v):
            s = self.signed(st, v, w)
            if s is v:
                return v
            if is_c(s):
                return s & mask(to)
            return z3.If(zi(s) < 0, zi(s) + (1 << to), zi(s))
        if ite_leaves(v) is not None:
            return ite_map(v, lambda x: sgn(x, w) & mask(to), lambda c, a, b: z3.If(c, to_bv(a, to), to_bv(b, to)))
        if v.decl().kind() == z3.Z3_OP_ZERO_EXT:
            return z3.ZeroExt(to - v.arg(0).size(), v.arg(0))
        return z3.SignExt(to - w, v)

    def trunc(self, v, w, to):
        if w == to:
            return v
        if is_c(v):
            r = int(v) & mask(to)
            return bool(r) if to == 1 else r
        if is_zi(v):
            if to == 1:
                return z3.Not(v % 2 == 0)
            return v if False else self._trunc_int(v, w, to)
        if isinstance(v, z3.BoolRef):
            raise Unsupported("trunc of bool")
        l = ite_leaves(v)
        if to == 1:
            if l is not None:
                return ite_map(v, lambda x: bool(x & 1), b_ite)
            return z3.Extract(0, 0, v) == 1
        if l is not None:
            return ite_map(v, lambda x: x & mask(to), lambda c, a, b: z3.If(c, to_bv(a, to), to_bv(b, to)))
        return bv_extract(v, to - 1, 0)

    def _trunc_int(self, v, w, to):
        st = self.cur
        if st is not None and self.solver.valid(st.pc, zi(v) < (1 << to), 1.0):
            r = v
        else:
            r = zi(v) % (1 << to)
        if to in self.int_widths or to >= 32:
            return r
        return z3.Int2BV(zi(r), to)

    def signed(self, st, v, w):
        """mathematical signed value of an integer"""
        if is_c(v):
            return sgn(v, w)
        if is_bv(v):
            if ite_leaves(v) is not None:
                return ite_map(v, lambda x: sgn(x, w), lambda c, a, b: z3.If(c, zi(a), zi(b)))
            k = v.decl().kind()
            if k == z3.Z3_OP_ZERO_EXT:
                return to_zi(v.arg(0), v.arg(0).size())
            return z3.BV2Int(v, True)
        if isinstance(v, PInt):
            raise Unsupported("signed view of a pointer")
        # Int
        l = ite_leaves(v)
        if l is not None:
            return ite_map(v, lambda x: sgn(x, w), lambda c, a, b: z3.If(c, zi(a), zi(b)))
        # pattern: wrapped signed value  If(s<0, s+2^w, s)
        if is_ite(v):
            cnd, a, b = v.children()
            d = lin_diff(a, b)
            if d == (1 << w) and z3.is_app(cnd) and cnd.decl().kind() == z3.Z3_OP_LT and const_of(cnd.arg(1)) == 0 \
                    and lin_diff(cnd.arg(0), b) == 0:
                return b
        half = 1 << (w - 1)
        if self.solver.valid(st.pc, v < half, 1.0):
            return v
        if self.solver.valid(st.pc, v >= half, 1.0):
            return i_add(v, -(1 << w))
        return z3.If(v >= half, v - (1 << w), v)

    def from_signed(self, st, s, w):
        if is_c(s):
            return s & mask(w)
        if self.solver.valid(st.pc, zi(s) >= 0, 1.0):
            return s
        return z3.If(zi(s) < 0, zi(s) + (1 << w), zi(s))

    def wrap(self, st, r, w, lo=None, hi=None):
        """reduce a mathematical integer in (-2^w, 2^(w+1)) modulo 2^w"""
        if is_c(r):
            return r & mask(w)
        if self.solver.valid(st.pc, z3.And(r >= 0, r < (1 << w)), 1.0):
            return r
        return z3.If(r >= (1 << w), r - (1 << w), z3.If(r < 0, r + (1 << w), r))

    def binop(self, st, op, a, b, w, flags=()):
        if isinstance(a, Vec) or isinstance(b, Vec):
            raise Unsupported("vector binop")
        if a is UNDEF:
            a = self.fresh(st, w, "undef")
        if b is UNDEF:
            b = self.fresh(st, w, "undef")
        if w == 1:
            return self.bool_binop(op, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pint_binop(st, op, a, b, w)
        if is_c(a) and is_c(b):
            return self.const_binop(st, op, int(a), int(b), w, flags)
        useint = is_zi(a) or is_zi(b)
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, a, b, w)
        if op in ("shl", "lshr", "ashr"):
            return self.shift(st, op, a, b, w, flags)
        if not useint:
            if w in self.int_widths and w >= 64 and False:
                useint = True
        if useint:
            return self.int_arith(st, op, to_zi(a, w), to_zi(b, w), a, b, w, flags)
        a, b = to_bv(a, w), to_bv(b, w)
        if op == "add":
            if "nsw" in flags and not self.suppress:
                self.oblige(st, "signed-overflow", z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
            return self.bvadd(a, b, w)
        if op == "sub":
            if "nsw" in flags and not self.suppress:
                self.oblige(st, "signed-overflow", z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            return self.bvadd(a, z3.BitVecVal((-const_of(b)) & mask(w), w), w) if const_of(b) is not None else (
                0 if a.eq(b) else a - b)
        if op == "mul":
            if "nsw" in flags and not self.suppress:
                self.oblige(st, "signed-overflow", z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
            return a * b
        self.oblige(st, "division-by-zero", b_not(n_eq(b, 0, w)))
        if op == "udiv":
            return z3.UDiv(a, b)
        if op == "urem":
            return z3.URem(a, b)
        self.oblige(st, "signed-overflow", z3.Not(z3.And(a == (1 << (w - 1)), b == mask(w))))
        if op == "sdiv":
            return a / b
        return z3.SRem(a, b)

    def bvadd(self, a, b, w):
        """a+b folding constants: (x + c1) + c2"""
        if const_of(a) is not None:
            a, b = b, a
        cb = const_of(b)
        if cb is not None:
            if cb == 0:
                return a
            l = ite_leaves(a)
            if l is not None:
                return ite_map(a, lambda x: (x + cb) & mask(w), lambda c, p, q: z3.If(c, to_bv(p, w), to_bv(q, w)))
            if a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2:
                x, y = a.arg(0), a.arg(1)
                if const_of(y) is not None:
                    s = (const_of(y) + cb) & mask(w)
                    return x if s == 0 else x + z3.BitVecVal(s, w)
        return a + b

    def const_binop(self, st, op, a, b, w, flags):
        m = mask(w)
        if op == "add":
            if "nsw" in flags:
                self.oblige(st, "signed-overflow", -(1 << (w - 1)) <= sgn(a, w) + sgn(b, w) < (1 << (w - 1)))
            return (a + b) & m
        if op == "sub":
            if "nsw" in flags:
                self.oblige(st, "signed-overflow", -(1 << (w - 1)) <= sgn(a, w) - sgn(b, w) < (1 << (w - 1)))
            return (a - b) & m
        if op == "mul":
            if "nsw" in flags:
                self.oblige(st, "signed-overflow", -(1 << (w - 1)) <= sgn(a, w) * sgn(b, w) < (1 << (w - 1)))
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            self.oblige(st, "shift-range", b < w)
            if b >= w:
                return 0
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            return (sgn(a, w) >> b) & m
        if b == 0:
            self.oblige(st, "division-by-zero", False)
            return 0
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & m
        return (x - q * y) & m

    def int_arith(self, st, op, a, b, a0, b0, w, flags):
        if op in ("add", "sub"):
            if "nsw" in flags:
                sa, sb = self.signed(st, a, w), self.signed(st, b, w)
                r = i_add(sa, sb) if op == "add" else i_sub(sa, sb)
                self.oblige(st, "signed-overflow", b_and(i_le(-(1 << (w - 1)), r), i_lt(r, 1 << (w - 1))))
                return self.from_signed(st, r, w)
            if is_c(b) and b >> (w - 1):
                b = b - (1 << w)
            if is_c(a) and a >> (w - 1):
                a = a - (1 << w)
            r = i_add(a, b) if op == "add" else i_sub(a, b)
            return self.wrap(st, r, w)
        if op == "mul":
            if not is_c(a) and not is_c(b):
                # nonlinear: keep exact when no overflow
                r = zi(a) * zi(b)
                if self.solver.valid(st.pc, r < (1 << w), 2.0):
                    return r
                return r % (1 << w)
            if is_c(a):
                a, b = b, a
            if "nsw" in flags:
                sa, k = self.signed(st, a, w), sgn(b, w)
                r = i_scale(sa, k)
                self.oblige(st, "signed-overflow", b_and(i_le(-(1 << (w - 1)), r), i_lt(r, 1 << (w - 1))))
                return self.from_signed(st, r, w)
            r = i_scale(a, b)
            if self.solver.valid(st.pc, zi(r) < (1 << w), 1.0):
                return r
            if b >> (w - 1):  # negative factor
                return zi(i_scale(a, b - (1 << w))) % (1 << w)
            return zi(r) % (1 << w)
        self.oblige(st, "division-by-zero", b_not(i_eq(b, 0)))
        if op == "udiv":
            if is_c(b):
                q = i_divexact(a, b)
                if q is not None and q[1] == 0:
                    return q[0]
            return self.idiv(st, a, b)
        if op == "urem":
            if is_c(b):
                q = i_divexact(a, b)
                if q is not None:
                    return q[1]
            return zi(a) % zi(b)
        sa, sb = self.signed(st, a, w), self.signed(st, b, w)
        if is_c(sb) and sb > 0:
            q = i_divexact(sa, sb)
            if op == "sdiv" and q is not None and (q[1] == 0):
                return self.from_signed(st, q[0], w)
            if self.solver.valid(st.pc, zi(sa) >= 0, 1.0):
                return self.idiv(st, sa, sb) if op == "sdiv" else zi(sa) % sb
            if op == "sdiv":
                return self.from_signed(st, z3.If(zi(sa) >= 0, zi(sa) / sb, -((-zi(sa)) / sb)), w)
        if self.solver.valid(st.pc, z3.And(zi(sa) >= 0, zi(sb) > 0), 1.0):
            return zi(sa) / zi(sb) if op == "sdiv" else zi(sa) % zi(sb)
        raise Unsupported(f"signed {op} of exact integers")

    def idiv(self, st, a, b):
        return zi(a) / zi(b)

    def prune(self, st, v):
        """v without the conditions the path decides"""
        while True:
            c = first_cond(v)
            if c is None:
                return v
            for val in (True, False):
                if self.solver.valid(st.pc, c if val else z3.Not(c), 1.0):
                    v = z3.simplify(z3.substitute(v, (c, z3.BoolVal(val))))
                    break
            else:
                return v

    def cases(self, st, v, lim=64):
        """[(state, term)]: the conditions in v decided one way or the other, one state per way"""
        out, todo = [], [(st, v)]
        while todo:
            s, t = todo.pop()
            c = first_cond(t)
            if c is None or len(out) + len(todo) > lim:
                out.append((s, t))
                continue
            for val in (True, False):
                if self.solver.valid(s.pc, c if val else z3.Not(c), 2.0):
                    todo.append((s, z3.simplify(z3.substitute(t, (c, z3.BoolVal(val))))))
                    break
            else:
                for val in (True, False):
                    s2 = s.fork()
                    s2.assume(c if val else z3.Not(c))
                    todo.append((s2, z3.simplify(z3.substitute(t, (c, z3.BoolVal(val))))))
        return out

    def mod(self, st, a, m):
        """a mod m, without the multiples of m in a"""
        for _ in range(6):
            ts, c = lin(a)
            ns, again = {}, False
            parts = c % m
            for k, (t, f) in ts.items():
                if f % m == 0:
                    continue
                if t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() * f % m == 0:
                    again = True
                    t = t.arg(0)
                parts = i_add(parts, i_scale(t, f % m))
            a = parts
            if not again:
                break
        rest, c = a, c % m
        for r in ([rest] if is_c(rest) else [rest, i_sub(rest, m)] if c else [rest]):
            if is_c(r):
                return r % m
            if self.solver.valid(st.pc, z3.And(r >= 0, r < m), 1.0):
                return r
        return zi(rest) % m

    def bitop(self, st, op, a, b, w):
        if is_c(a):
            a, b = b, a
        if is_c(b):
            b = int(b)
            if op == "and":
                if b == 0:
                    return 0
                if b == mask(w):
                    return a
                if is_zi(a):
                    k = b.bit_length()
                    if b == mask(k):
                        return self.mod(st, a, 1 << k)
                    lowz = (b & -b).bit_length() - 1
                    if b == (mask(w) >> lowz) << lowz:
                        return zi(a) - zi(a) % (1 << lowz)
                    if b == 1 << lowz:   # single bit
                        return ((zi(a) / (1 << lowz)) % 2) * (1 << lowz)
            else:
                if b == 0:
                    return a
                if op == "or" and b == mask(w):
                    return b
                if op == "xor" and b == mask(w) and is_zi(a):
                    return i_sub(mask(w), a)
            l = ite_leaves(a)
            if l is not None and is_bv(a):
                f = {"and": lambda x: x & b, "or": lambda x: x | b, "xor": lambda x: x ^ b}[op]
                return ite_map(a, f, lambda c, p, q: z3.If(c, to_bv(p, w), to_bv(q, w)))
        if is_zi(a) or is_zi(b):
            x, y = to_bv(a, w), to_bv(b, w)
            r = x & y if op == "and" else x | y if op == "or" else x ^ y
            return to_zi(r, w)
        a, b = to_bv(a, w), to_bv(b, w)
        if op == "and":
            return a & b
        if op == "or":
            # disjoint or of shifted pieces is left to the solver
            return a | b
        return a ^ b

    def shift(self, st, op, a, b, w, flags):
        if not is_c(b):
            c = const_of(b)
            if c is not None:
                b = c
        if is_c(b):
            self.oblige(st, "shift-range", b < w)
            if b >= w:
                return 0
            if b == 0:
                return a
            if is_zi(a):
                if op == "shl":
                    r = i_scale(a, 1 << b)
                    if self.solver.valid(st.pc, zi(r) < (1 << w), 1.0):
                        return r
                    return zi(r) % (1 << w)
                if op == "lshr":
                    return zi(a) / (1 << b)
                sa = self.signed(st, a, w)
                return self.from_signed(st, zi(sa) / (1 << b), w)
            a = to_bv(a, w)
            if op == "shl":
                return bv_concat([(bv_extract(a, w - 1 - b, 0), w - b), (0, b)])
            if op == "lshr":
                return bv_concat([(0, b), (bv_extract(a, w - 1, b), w - b)])
            return a >> b
        self.oblige(st, "shift-range", i_lt(to_zi(b, w), w) if is_zi(b) else z3.ULT(to_bv(b, w), w))
        if is_zi(a) or is_zi(b):
            # symbolic shift amount: case split over the amounts
            if op == "shl" and is_c(a):
                r = 0
                bb = to_zi(b, w)
                for e, v in getattr(self, "pow2", ()):
                    # v stands for 2^e (a target's own assumption, weaker than the equation)
                    if e.eq(zi(bb)) and self.solver.valid(st.pc, v * int(a) < 1 << w, 1.0):
                        return v if int(a) == 1 else v * int(a)
                res = z3.IntVal(0)
                for k in range(w - 1, -1, -1):
                    res = z3.If(zi(bb) == k, z3.IntVal((int(a) << k) & mask(w)), res)
                return res
            x, y = to_bv(a, w), to_bv(b, w)
            r = x << y if op == "shl" else z3.LShR(x, y) if op == "lshr" else x >> y
            return to_zi(r, w) if w in self.int_widths else r
        x, y = to_bv(a, w), to_bv(b, w)
        return x << y if op == "shl" else z3.LShR(x, y) if op == "lshr" else x >> y

    def bool_binop(self, op, a, b):
        if op == "and" or op == "mul":
            return b_and(a, b)
        if op == "or":
            return b_or(a, b)
        if op in ("xor", "add", "sub"):
            return b_not(b_iff(a, b))
        raise Unsupported(f"i1 {op}")

    def pint_binop(self, st, op, a, b, w):
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p, b.p
            aa, bb = self._alts(pa), self._alts(pb)
            res = None
            for c1, p in aa:
                for c2, q in bb:
                    c = b_and(c1, c2)
                    if len(aa) * len(bb) > 1 and not self.solver.feasible(st.pc, c):
                        continue
                    if p.obj is not q.obj:
                        if self.suppress:
                            continue
                        self.oblige(st, "pointer-difference", False, c)
                        continue
                    d = self.from_signed(st, i_sub(p.off, q.off), w)
                    res = d if res is None else merge_num(c, d, res, w)
            if res is None:
                raise Unsupported("difference of pointers into different objects")
            return res
        if op == "and" and is_c(b):
            # alignment test of a pointer
            return self.fresh(st, w, "paddr")
        if op in ("add", "sub") and isinstance(a, PInt) and is_num(b):
            s = self.signed(st, b, w)
            return PInt(self.padd(a.p, s if op == "add" else i_scale(s, -1)))
        return self.fresh(st, w, "paddr")

    def icmp(self, st, p, a, b, t):
        if isinstance(t, VecT):
            return Vec([self.icmp(st, p, x, y, t.e) for x, y in zip(a.lanes, b.lanes)])
        if a is UNDEF or b is UNDEF:
            return z3.Bool(fresh_name("undef"))
        if isinstance(t, PtrT) or isinstance(a, (PInt, Ptr, PtrU)) or isinstance(b, (PInt, Ptr, PtrU)):
            return self.pcmp(st, p, a, b)
        w = t.w
        if w == 1:
            e = b_iff(a, b)
            return e if p == "eq" else b_not(e) if p == "ne" else self._boolcmp(p, a, b)
        if p == "eq":
            return n_eq(a, b, w)
        if p == "ne":
            return b_not(n_eq(a, b, w))
        if is_c(a) and is_c(b):
            if p[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]
        # leaves
        for x, y, flip in ((a, b, False), (b, a, True)):
            if is_c(y) and not is_c(x):
                l = ite_leaves(x)
                if l is not None:
                    yy = sgn(y, w) if p[0] == "s" else y

                    def f(v):
                        vv = sgn(v, w) if p[0] == "s" else v
                        u, z = (yy, vv) if flip else (vv, yy)
                        return {"gt": u > z, "ge": u >= z, "lt": u < z, "le": u <= z}[p[1:]]
                    return ite_map(x, f, b_ite)
        if is_zi(a) or is_zi(b):
            if p[0] == "s":
                a, b = self.signed(st, a, w), self.signed(st, b, w)
            else:
                a, b = to_zi(a, w), to_zi(b, w)
            return {"gt": lambda: i_lt(b, a), "ge": lambda: i_le(b, a), "lt": lambda: i_lt(a, b),
                    "le": lambda: i_le(a, b)}[p[1:]]()
        a, b = to_bv(a, w), to_bv(b, w)
        # zext compare: drop to unsigned narrow compare
        if p[0] == "s" and a.decl().kind() == z3.Z3_OP_ZERO_EXT and (
                b.decl().kind() == z3.Z3_OP_ZERO_EXT or (const_of(b) is not None and const_of(b) < 1 << (w - 1))):
            p = "u" + p[1:]
        return {"ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE,
                "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y, "slt": lambda x, y: x < y,
                "sle": lambda x, y: x <= y}[p](a, b)

    def _boolcmp(self, p, a, b):
        if p in ("ult", "sgt"):
            return b_and(b_not(a), b)
        if p in ("ugt", "slt"):
            return b_and(a, b_not(b))
        if p in ("ule", "sge"):
            return b_or(b_not(a), b)
        return b_or(a, b_not(b))

    def pcmp(self, st, p, a, b):
        def norm(x):
            if isinstance(x, PInt):
                x = x.p
            if is_c(x):
                return NULL if x == 0 else Ptr(Obj("invalid", 0, "invalid"), x)
            return x
        a, b = norm(a), norm(b)
        if is_num(a) or is_num(b):
            return z3.Bool(fresh_name("pcmp"))
        res = None
        aa, bb = self._alts(a), self._alts(b)
        for c1, x in aa:
            for c2, y in bb:
                r = self._pcmp1(st, p, x, y)
                c = b_and(c1, c2)
                res = r if res is None else b_ite(c, r, res)
        return res

    def _pcmp1(self, st, p, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            same = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return same if p == "eq" else (not same)
        if p in ("eq", "ne"):
            if x.obj is y.obj:
                e = i_eq(x.off, y.off)
            else:
                e = False
            return e if p == "eq" else b_not(e)
        if x.obj is y.obj:
            a, b = x.off, y.off
            return {"gt": lambda: i_lt(b, a), "ge": lambda: i_le(b, a), "lt": lambda: i_lt(a, b),
                    "le": lambda: i_le(a, b)}[p[1:]]()
        if x.obj is None or y.obj is None:
            lt = x.obj is None
            return lt if p[1:] in ("lt", "le") else not lt
        # unrelated objects: unspecified but consistent order
        key = tuple(sorted((x.obj.id, y.obj.id)))
        bv = z3.Bool(f"ord_{key[0]}_{key[1]}")
        r = bv if x.obj.id < y.obj.id else z3.Not(bv)   # x below y
        return r if p[1:] in ("lt", "le") else b_not(r)

    # ------------------------------------------------------------ operands

    def const(self, st, v):
        k = v[0]
        if k == "i":
            if isinstance(v[2], IntT) and v[2].w == 1:
                return bool(v[1])
            return v[1]
        if k == "g":
            return self.global_ptr(st, v[1])
        if k == "null":
            return NULL
        if k == "undef":
            t = v[2]
            if isinstance(t, VecT):
                return Vec([UNDEF] * t.n)
            if isinstance(t, StructT):
                return Agg([self.const(st, ("undef", None, f)) for f in t.fields])
            if isinstance(t, ArrT):
                return Agg([self.const(st, ("undef", None, t.e)) for _ in range(t.n)])
            return UNDEF
        if k == "zero":
            return self.zero(v[2])
        if k == "f":
            return Flo(v[1])
        if k == "bytes":
            return Agg(list(v[1]))
        if k == "agg":
            xs = [self.const(st, e) for e in v[1]]
            return Vec(xs) if isinstance(v[2], VecT) else Agg(xs)
        if k == "gep":
            base = self.const(st, v[2][0])
            return self.gep(st, v[1], base, [self.const(st, i) for i in v[2][1:]], [i[2] for i in v[2][1:]])
        if k == "cast":
            op, x, tt = v[1], v[2], v[3]
            xv = self.const(st, x)
            if op == "ptrtoint":
                return PInt(xv) if xv is not NULL else 0
            if op == "inttoptr":
                return xv.p if isinstance(xv, PInt) else (NULL if xv == 0 else Ptr(Obj("invalid", 0, "invalid"), 0))
            if op == "bitcast":
                return xv
        if k == "meta":
            return None
        raise Unsupported(f"constant {k}")

    def zero(self, t):
        if isinstance(t, IntT):
            return False if t.w == 1 else 0
        if isinstance(t, PtrT):
            return NULL
        if isinstance(t, FloatT):
            return Flo("0")
        if isinstance(t, VecT):
            return Vec([self.zero(t.e)] * t.n)
        if isinstance(t, StructT):
            return Agg([self.zero(f) for f in t.fields])
        if isinstance(t, ArrT):
            return Agg([self.zero(t.e) for _ in range(t.n)])
        raise Unsupported(f"zero of {t!r}")

    def global_ptr(self, st, name):
        if name in self.symtab or any(name in m.decls for m in self.modules):
            return FnPtr(name)
        for m in self.modules:
            g = m.glob(name)
            if g is not None and g.init is not None and g.init[0] == "alias":
                tgt = g.init[1]
                if tgt[0] == "g" and (tgt[1] in self.symtab):
                    return FnPtr(tgt[1])
        return Ptr(self.gobj(st, name), 0)

    def op(self, st, v):
        if v[0] == "l":
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported(f"value %{v[1]} lost at merge")
        return self.const(st, v)

    def gep(self, st, t, base, idx, ityps):
        off = 0
        cur = t
        for j, (i, it) in enumerate(zip(idx, ityps)):
            if j == 0:
                s = size_align(cur)[0]
                off = i_add(off, i_scale(self.idx_val(st, i, it), s))
            elif isinstance(cur, StructT):
                off = i_add(off, layout(cur)[0][i])
                cur = cur.fields[i]
            elif isinstance(cur, (ArrT, VecT)):
                cur = cur.e
                off = i_add(off, i_scale(self.idx_val(st, i, it), size_align(cur)[0]))
            else:
                raise Unsupported("gep")
        if is_c(off) and off == 0:
            return base
        if isinstance(base, FnPtr):
            raise Unsupported("gep on function")
        return self.padd(base, off)

    def idx_val(self, st, i, it):
        if i is UNDEF:
            raise Unsupported("undef index")
        if isinstance(i, PInt):
            raise Unsupported("pointer index")
        return self.signed(st, i, it.w)

    # ------------------------------------------------------------ running functions

    def find(self, name):
        m = self.symtab.get(name)
        if m is None:
            for mm in self.modules:
                g = mm.glob(name) if name in mm._globs else None
                if g is not None and g.init is not None and g.init[0] == "alias":
                    return self.find(g.init[1][1])
        return (m, name) if m else None

    def dem(self, name):
        for m in self.modules:
            d = m.demangled.get(name)
            if d:
                return d
        f = self.find(name)     # constructor aliases
        if f is not None and f[1] != name:
            return self.dem(f[1])
        return name

    def call(self, st, name, args, ins=None, fr=None, argts=None):
        """-> Out"""
        dem = self.dem(name)
        for rx, h in self.contracts:
            if rx.search(dem):
                r = h(self, st, args, dem)
                if r is not NotImplemented:
                    self.assumed[("contract", rx.pattern)] = self.assumed.get(("contract", rx.pattern), 0) + 1
                    return r if isinstance(r, Out) else Out(st, r)
        base = basename(dem)
        h = self.models.get(base) or self.models.get(name)
        if h is None:
            for rx, hh in self.remodels:
                if rx.search(base):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, args, dem)
            if r is not NotImplemented:
                self.assumed[("model", base)] = self.assumed.get(("model", base), 0) + 1
                return r if isinstance(r, Out) else Out(st, r)
        f = self.find(name)
        if f is None:
            raise Unsupported(f"call to undefined function {dem}")
        return self.run_fn(f[0], f[1], args, st)

    def run_fn(self, mod, name, args, st, keep_allocas=False):
        fn = mod.fn(name)
        if fn.cfg is None:
            fn.cfg = CFG(fn)
        dem = mod.demangled.get(name, name)
        self.executed[dem] = self.executed.get(dem, 0) + 1
        if self.trace and self.depth < getattr(self, "trace_depth", 6):
            print("  " * self.depth + dem[:140])
        self.depth += 1
        if self.depth > 150:
            raise Unsupported(f"call depth in {dem}")
        fr = Frame(fn, mod, dem)
        saved = st.env
        st.env = {}
        for (t, pn, info), a in zip(fn.params, args):
            if "byval" in info and isinstance(a, Ptr):
                sz = size_align(info["byval"])[0]
                o = self.new_obj(st, f"{fr.base}.byval", sz, "stack", content=CellC())
                self.memcpy(st, Ptr(o, 0), a, sz)
                a = Ptr(o, 0)
                fr.allocas.append(o)
            st.env[pn] = a
            fr.types[pn] = t
        self.frames.append((fr, None))
        try:
            left = self.exec_scope(fr, None, {fn.order[0]: [(None, st)]})
            assert not left
        finally:
            self.frames.pop()
            self.depth -= 1
        out = Out(None)
        if fr.rets:
            if len(fr.rets) > 1:
                for s, v in fr.rets:
                    s.env = {"$ret": v} if v is not None else {}
                fr.types["$ret"] = fn.ret
                s = self.merge_states(fr, [s for s, _ in fr.rets])
                v = s.env.get("$ret")
                if v is None and not isinstance(fn.ret, VoidT):
                    raise Unsupported("return values do not merge")
            else:
                s, v = fr.rets[0]
            s.env = saved
            self._drop(fr, s)
            out.st, out.val = s, v
        by = {}
        for s in fr.excs:
            by.setdefault(s.exc[0] if s.exc else None, []).append(s)
        for k, l in by.items():
            for s in l:
                s.env = {}
            s = self.merge_states(fr, l)
            s.env = saved
            self._drop(fr, s)
            out.excs.append(s)
        return out

    def _drop(self, fr, s):
        for o in fr.allocas:
            s.mem.pop(o.id, None)
            s.dead.pop(o.id, None)

    # blocks -------------------------------------------------------

    def exec_scope(self, fr, loop, incoming):
        """execute the blocks of a scope (whole function or one loop iteration); returns edges leaving the scope"""
        cfg = fr.fn.cfg
        blocks = loop.blocks if loop else None
        pending = {b: list(l) for b, l in incoming.items()}
        out = {}
        start = loop.header if loop else fr.fn.order[0]
        order = cfg.rpo
        i = cfg.pos[start]
        n = len(order)
        first = True
        while i < n:
            b = order[i]
            i += 1
            if blocks is not None and b not in blocks:
                continue
            inc = pending.pop(b, None)
            if not inc:
                continue
            inc = [(p, s) for p, s in inc if not s.pc.dead]
            if not inc:
                continue
            sub = cfg.loops.get(b)
            if sub is not None and sub is not loop:
                edges = self.exec_loop(fr, sub, inc)
            else:
                self.phis(fr, b, inc)
                st = self.join(fr, [s for _, s in inc])
                edges = []
                for s in st:
                    edges += self.exec_block(fr, b, s)
            for pred, tgt, s in edges:
                if s.pc.dead:
                    continue
                if blocks is not None and (tgt not in blocks or tgt == loop.header):
                    out.setdefault(tgt, []).append((pred, s))
                else:
                    pending.setdefault(tgt, []).append((pred, s))
        return out

    def join(self, fr, sts):
        """merge states; exceptional states of different types stay apart"""
        if len(sts) == 1:
            return sts
        by = {}
        for s in sts:
            by.setdefault(s.exc[0] if s.exc else None, []).append(s)
        return [self.merge_states(fr, l) for l in by.values()]

    def phis(self, fr, b, inc):
        ins = fr.fn.blocks[b].ins
        if ins[0].op != "phi":
            return
        for pred, s in inc:
            if pred is None:
                continue  # already evaluated
            vals = []
            for I in ins:
                if I.op != "phi":
                    break
                t, l = I.a
                for v, lab in l:
                    if lab == pred:
                        vals.append((I.res, self.op(s, v), t))
                        break
                else:
                    raise Unsupported("phi without incoming edge")
            for r, v, t in vals:
                if v is UNDEF and not isinstance(t, (StructT, ArrT)):
                    v = self.fresh_of_type(s, t)
                s.env[r] = v
                fr.types[r] = t

    def exec_block(self, fr, b, st):
        """-> list of (pred, target, state)"""
        self.covered.add((fr.dem, b))
        blk = fr.fn.blocks[b]
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        for I in blk.ins:
            op = I.op
            if op == "phi":
                continue
            self.ninstr += 1
            self.frames[-1] = (fr, I)
            self.cur = st
            h = getattr(self, "i_" + op, None)
            if h is None and op in BINOPS:
                h = self.i_binop
            if op in ("br", "switch", "ret", "unreachable", "resume", "invoke"):
                return h(fr, b, st, I)
            if op == "call":
                r = self.i_call(fr, st, I)
                if r is None:
                    return []
                st = r
                continue
            if h is None:
                raise Unsupported(f"instruction {I.text}")
            v = h(fr, st, I)
            if I.res is not None:
                st.env[I.res] = v
        raise Unsupported("block without terminator")

    # loops --------------------------------------------------------

    def loop_spec(self, fr, L):
        for s in self.loop_specs:
            if s.fn.search(fr.dem) and (s.idx is None or s.idx == L.idx):
                return s
        return None

    def exec_loop(self, fr, L, inc):
        spec = self.loop_spec(fr, L)
        self.loops_met.add(f"{fr.dem[:120]}#loop{L.idx}")
        self.phis(fr, L.header, inc)
        sts = self.join(fr, [s for _, s in inc])
        if len(sts) != 1:
            raise Unsupported("exceptional states at loop header")
        entry = sts[0]
        exits = []
        if spec is None or spec.inv is None:
            cap = spec.unroll if spec and spec.unroll else self.max_unroll
            nob, nfold = len(self.obs), self.folded
            cur = entry.fork()
            it = 0
            cutnow = False
            while True:
                key = (id(fr), L.header)
                fr.exit_decided[key] = 0
                fr.exit_open = getattr(fr, "exit_open", {})
                fr.exit_open[key] = 0
                self.cur_loops = getattr(self, "cur_loops", [])
                self.cur_loops.append((fr, L))
                try:
                    res = self.exec_scope(fr, L, {L.header: [(None, cur)]})
                finally:
                    self.cur_loops.pop()
                back = res.pop(L.header, [])
                for tgt, l in res.items():
                    exits += [(p, tgt, s) for p, s in l]
                it += 1
                if not back:
                    return exits
                if fr.exit_open[key] and not fr.exit_decided[key] and not (spec and spec.unroll):
                    cutnow = True
                    break
                if it >= cap:
                    if spec and spec.unroll:
                        raise Unsupported(f"loop in {fr.base} exceeds {cap} iterations")
                    cutnow = True
                    break
                self.phis(fr, L.header, back)
                ss = self.join(fr, [s for _, s in back])
                if len(ss) != 1:
                    raise Unsupported("exceptional states at back edge")
                cur = ss[0]
            if not cutnow:
                return exits
            del self.obs[nob:]
            self.folded = nfold
        return self.exec_cut(fr, L, entry, spec)

    def exec_cut(self, fr, L, entry, spec):
        from .cut import cut_loop
        return cut_loop(self, fr, L, entry, spec)

    # terminators --------------------------------------------------

    def note_exit(self, fr, st, b, taken, nottaken, decided):
        for f, L in getattr(self, "cur_loops", []):
            if f is not fr or b not in L.blocks:
                continue
            outs = [t for t in (taken, nottaken) if t not in L.blocks]
            if not outs or all(t in fr.fn.cfg.noret for t in outs):
                continue
            key = (id(fr), L.header)
            if decided:
                fr.exit_decided[key] = fr.exit_decided.get(key, 0) + 1
            else:
                fr.exit_open[key] = fr.exit_open.get(key, 0) + 1

    def i_br(self, fr, b, st, I):
        if len(I.a) == 1:
            return [(b, I.a[0], st)]
        c = self.op(st, I.a[0])
        x, y = I.a[1], I.a[2]
        if c is UNDEF:
            c = z3.Bool(fresh_name("undef"))
        if not is_c(c):
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if x == y:
            return [(b, x, st)]
        if is_c(c):
            self.note_exit(fr, st, b, x, y, True)
            return [(b, x if c else y, st)]
        if self.atoms is not None:
            self.atoms.append(c)
        # blocks that can only abort: keep the obligation-free side cheap
        ft = self.solver.feasible(st.pc, c)
        ff = self.solver.feasible(st.pc, b_not(c))
        self.note_exit(fr, st, b, x, y, not (ft and ff))
        if ft and not ff:
            st.assume(c)
            return [(b, x, st)]
        if ff and not ft:
            st.assume(b_not(c))
            return [(b, y, st)]
        if not ft and not ff:
            return []
        s2 = st.fork()
        st.assume(c)
        s2.assume(b_not(c))
        return [(b, x, st), (b, y, s2)]

    def i_switch(self, fr, b, st, I):
        v = self.op(st, I.a[0])
        w = I.a[0][-1].w
        out = []
        rest = []
        for cv, tgt in I.a[2]:
            c = n_eq(v, cv[1], w)
            if is_c(c):
                if c:
                    return [(b, tgt, st)]
                continue
            rest.append((c, tgt))
        neg = []
        for c, tgt in rest:
            cc = b_and(*(neg + [c]))
            if self.solver.feasible(st.pc, cc):
                s2 = st.fork()
                s2.assume(cc)
                out.append((b, tgt, s2))
            neg.append(b_not(c))
        d = b_and(*neg)
        if self.solver.feasible(st.pc, d):
            st.assume(d)
            out.append((b, I.a[1], st))
        return out

    def i_ret(self, fr, b, st, I):
        v = None if I.a is None else self.op(st, I.a)
        fr.rets.append((st, v))
        return []

    def i_unreachable(self, fr, b, st, I):
        self.oblige(st, "unreachable", False)
        return []

    def i_resume(self, fr, b, st, I):
        fr.excs.append(st)
        return []

    def i_invoke(self, fr, b, st, I):
        out = self.do_call(fr, st, I)
        edges = []
        if out.st is not None and not out.st.pc.dead:
            if I.res is not None:
                out.st.env[I.res] = self.retval(out, I)
                fr.types[I.res] = I.a["ret"]
            edges.append((b, I.a["normal"], out.st))
        for s in out.excs:
            if not s.pc.dead:
                edges.append((b, I.a["unwind"], s))
        return edges

    def i_call(self, fr, st, I):
        out = self.do_call(fr, st, I)
        for s in out.excs:
            if not s.pc.dead:
                fr.excs.append(s)
        if out.st is None or out.st.pc.dead:
            return None
        if I.res is not None:
            out.st.env[I.res] = self.retval(out, I)
            fr.types[I.res] = I.a["ret"]
        self.cur = out.st
        return out.st

    def retval(self, out, I):
        v = out.val
        if v is None:
            return self.fresh_of_type(out.st, I.a["ret"], "ret")
        return v

    def do_call(self, fr, st, I):
        cal = I.a["callee"]
        if cal[0] == "asm":
            raise Unsupported("inline assembly")
        args = []
        for a in I.a["args"]:
            if a[0] == "byval":
                p = self.op(st, a[1])
                sz = size_align(a[2])[0]
                o = self.new_obj(st, "byval", sz, "stack", content=CellC())
                self.memcpy(st, Ptr(o, 0), p, sz)
                args.append(Ptr(o, 0))
            elif a[0] == "meta":
                args.append(None)
            else:
                args.append(self.op(st, a))
        if cal[0] == "g":
            f = FnPtr(cal[1])
        else:
            f = self.op(st, cal)
        if not isinstance(f, FnPtr):
            h = getattr(self, "indirect", None)
            if h is not None:
                r = h(self, st, f, args, I)
                return r if isinstance(r, Out) else Out(st, r)
            raise Unsupported(f"indirect call through {f!r}")
        if f.name.startswith("llvm."):
            return Out(st, self.intrinsic(fr, st, f.name, args, I))
        env, types = st.env, fr.types
        out = self.call(st, f.name, args, I, fr)
        self.frames[-1] = (fr, I)
        return out

    # plain instructions --------------------------------------------

    def i_alloca(self, fr, st, I):
        t, cnt = I.a
        n = size_align(t)[0]
        if cnt is not None:
            k = self.op(st, cnt)
            if not is_c(k):
                raise Unsupported("variable-size alloca")
            n *= k
        o = Obj(f"{fr.base}:%{I.res}", n, "stack")
        st.mem[o.id] = CellC()
        fr.allocas.append(o)
        fr.types[I.res] = PTR
        return Ptr(o, 0)

    def i_load(self, fr, st, I):
        t, pv = I.a
        fr.types[I.res] = t
        return self.load(st, self.op(st, pv), t)

    def i_store(self, fr, st, I):
        v, pv = I.a
        self.store(st, self.op(st, pv), self.op(st, v), v[-1])

    def i_getelementptr(self, fr, st, I):
        t, ops, inb = I.a
        fr.types[I.res] = PTR
        base = self.op(st, ops[0])
        if base is UNDEF:
            raise Unsupported("gep on undef")
        return self.gep(st, t, base, [self.op(st, o) for o in ops[1:]], [o[-1] for o in ops[1:]])

    def i_binop(self, fr, st, I):
        x, y, fl = I.a
        t = x[-1]
        fr.types[I.res] = t
        a, b = self.op(st, x), self.op(st, y)
        if isinstance(t, VecT):
            return Vec([self.binop(st, I.op, p, q, t.e.w, ()) for p, q in zip(a.lanes, b.lanes)])
        return self.binop(st, I.op, a, b, t.w, fl)

    def _float(self, fr, st, I):
        fr.types[I.res] = I.a[0][-1]
        return Flo()

    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = i_fneg = _float

    def i_icmp(self, fr, st, I):
        p, x, y = I.a
        t = x[-1]
        fr.types[I.res] = VecT(t.n, IntT(1)) if isinstance(t, VecT) else IntT(1)
        return self.icmp(st, p, self.op(st, x), self.op(st, y), t)

    def i_fcmp(self, fr, st, I):
        fr.types[I.res] = IntT(1)
        return z3.Bool(fresh_name("fcmp"))

    def i_zext(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        if isinstance(t, VecT):
            return Vec([self.zext(l, v[-1].e.w, t.e.w) for l in x.lanes])
        if x is UNDEF:
            return self.fresh_of_type(st, t)
        return self.zext(x, v[-1].w, t.w)

    def i_sext(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        if isinstance(t, VecT):
            return Vec([self.sext(st, l, v[-1].e.w, t.e.w) for l in x.lanes])
        if x is UNDEF:
            return self.fresh_of_type(st, t)
        return self.sext(st, x, v[-1].w, t.w)

    def i_trunc(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        if isinstance(t, VecT):
            return Vec([self.trunc(l, v[-1].e.w, t.e.w) for l in x.lanes])
        if x is UNDEF:
            return self.fresh_of_type(st, t)
        if isinstance(x, PInt):
            return self.fresh_of_type(st, t, "paddr")
        return self.trunc(x, v[-1].w, t.w)

    def i_ptrtoint(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        if isinstance(x, Ptr) and x.obj is None and is_c(x.off):
            return x.off
        return PInt(x)

    def i_inttoptr(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        if isinstance(x, PInt):
            return x.p
        if is_c(x) and x == 0:
            return NULL
        return Ptr(Obj("invalid", 0, "invalid"), 0)

    def i_bitcast(self, fr, st, I):
        v, t = I.a
        fr.types[I.res] = t
        x = self.op(st, v)
        ft = v[-1]
        bits = 8 * size_align(ft)[0] if not isinstance(ft, VecT) else ft.n * ft.e.w
        if isinstance(ft, VecT) and isinstance(t, VecT):
            if ft.e.w == t.e.w:
                return x
            return self.bv_to_vec(vec_to_bv(x, bits), t)
        if isinstance(ft, VecT) and isinstance(t, IntT):
            return vec_to_bv(x, bits)
        if isinstance(t, VecT) and isinstance(ft, IntT):
            return self.bv_to_vec(x, t)
        return x

    def _f2i(self, fr, st, I):
        fr.types[I.res] = I.a[1]
        return self.fresh_of_type(st, I.a[1], "f2i")

    def _2f(self, fr, st, I):
        fr.types[I.res] = I.a[1]
        return Flo()

    i_fptoui = i_fptosi = _f2i
    i_uitofp = i_sitofp = i_fpext = i_fptrunc = _2f

    def i_select(self, fr, st, I):
        c, x, y = I.a
        t = x[-1]
        fr.types[I.res] = t
        cv = self.op(st, c)
        a, b = self.op(st, x), self.op(st, y)
        if isinstance(cv, Vec):
            return Vec([self.merge_val(st, l, p, q, t.e) for l, p, q in zip(cv.lanes, a.lanes, b.lanes)])
        if is_c(cv):
            return a if cv else b
        return self.merge_val(st, cv, a, b, t)

    def i_freeze(self, fr, st, I):
        fr.types[I.res] = I.a[0][-1]
        v = self.op(st, I.a[0])
        return self.fresh_of_type(st, I.a[0][-1]) if v is UNDEF else v

    def i_extractvalue(self, fr, st, I):
        v, idx = I.a
        x, t = self.op(st, v), v[-1]
        for i in idx:
            x = x.f[i]
            t = t.fields[i] if isinstance(t, StructT) else t.e
        fr.types[I.res] = t
        return x

    def i_insertvalue(self, fr, st, I):
        v, w, idx = I.a
        fr.types[I.res] = v[-1]

        def ins(x, t, idx):
            if not idx:
                return self.op(st, w)
            if x is UNDEF:
                n = len(t.fields) if isinstance(t, StructT) else t.n
                x = Agg([UNDEF] * n)
            f = list(x.f)
            f[idx[0]] = ins(f[idx[0]], t.fields[idx[0]] if isinstance(t, StructT) else t.e, idx[1:])
            return Agg(f)
        return ins(self.op(st, v), v[-1], idx)

    def i_extractelement(self, fr, st, I):
        v, i = I.a
        fr.types[I.res] = v[-1].e
        k = self.op(st, i)
        x = self.op(st, v)
        if not is_c(k):
            raise Unsupported("symbolic lane")
        return x.lanes[k]

    def i_insertelement(self, fr, st, I):
        v, w, i = I.a
        fr.types[I.res] = v[-1]
        k = self.op(st, i)
        x = list(self.op(st, v).lanes)
        x[k] = self.op(st, w)
        return Vec(x)

    def i_shufflevector(self, fr, st, I):
        v, w, m = I.a
        x, y = self.op(st, v).lanes, self.op(st, w).lanes
        mm = self.op(st, m)
        t = m[-1]
        fr.types[I.res] = VecT(t.n, v[-1].e)
        allx = list(x) + list(y)
        return Vec([UNDEF if k is UNDEF else allx[k] for k in mm.lanes])

    # exceptions ----------------------------------------------------

    HIER = {
        "_ZTISt13runtime_error": ["_ZTISt9exception"],
        "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt12domain_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
        "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
        "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
        "_ZTISt9bad_alloc": ["_ZTISt9exception"],
        "_ZTINSt8ios_base7failureB5cxx11E": ["_ZTISt12system_error", "_ZTISt13runtime_error", "_ZTISt9exception"],
        "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ["_ZTISt12system_error", "_ZTISt13runtime_error",
                                                           "_ZTISt9exception"],
        "_ZTIN3fmt2v912format_errorE": ["_ZTISt13runtime_error", "_ZTISt9exception"],
        "_ZTIN3CLI10ParseErrorE": ["_ZTIN3CLI5ErrorE", "_ZTISt13runtime_error", "_ZTISt9exception"],
    }

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def i_landingpad(self, fr, st, I):
        t, cleanup, cl = I.a
        fr.types[I.res] = t
        ty, p = st.exc if st.exc else (None, NULL)
        sel = 0
        if ty is None:
            sel = z3.BitVec(fresh_name("sel"), 32)
            return Agg([p, sel])
        for w, v in cl:
            if w == "filter":
                continue
            if v[0] == "null":
                sel = self.typeid("any")
                break
            nm = v[1]
            if nm == ty or nm in self.HIER.get(ty, ()):
                sel = self.typeid(nm)
                break
        return Agg([p, sel])

    def throw(self, st, tyname, ptr=NULL):
        st.exc = (tyname, ptr)
        return Out(None, None, [st])

    # intrinsics ----------------------------------------------------

    def intrinsic(self, fr, st, n, args, I):
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.donothing", "llvm.prefetch",
                         "llvm.invariant")):
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if n.startswith("llvm.memset"):
            self.memset(st, args[0], args[1], args[2])
            return None
        if n == "llvm.trap" or n.startswith("llvm.ubsantrap"):
            self.oblige(st, "trap", False)
            return None
        if n.startswith("llvm.threadlocal.address"):
            return args[0]
        if n.startswith("llvm.expect"):
            return args[0]
        if n == "llvm.assume":
            self.oblige(st, "llvm.assume", args[0])
            return None
        if n.startswith("llvm.eh.typeid.for"):
            v = args[0]
            if isinstance(v, Ptr) and v.obj is not None:
                return self.typeid(v.obj.name[1:])
            return self.typeid("any")
        if n.startswith("llvm.is.constant"):
            return False
        if n.startswith("llvm.objectsize"):
            return mask(64)
        if n.startswith("llvm.stacksave"):
            return NULL
        if n.startswith("llvm.stackrestore"):
            return None
        t = I.a["ret"]
        if n.startswith("llvm.bswap"):
            return self.bswap(args[0], t.w)
        if n.startswith(("llvm.fshl", "llvm.fshr")):
            w = t.w
            k = const_of(args[2])
            if k is None:
                raise Unsupported("symbolic funnel shift")
            k %= w
            if "fshr" in n:
                k = (w - k) % w if k else w
                if k == w:
                    return args[1]
            if k == 0:
                return args[0]
            a, b = to_bv(args[0], w), to_bv(args[1], w)
            return bv_concat([(bv_extract(a, w - 1 - k, 0), w - k), (bv_extract(b, w - 1, w - k), k)])
        if n.startswith("llvm.cttz"):
            w = t.w
            x = to_bv(args[0], w)
            if const_of(args[0]) is not None:
                c = const_of(args[0])
                return w if c == 0 else (c & -c).bit_length() - 1
            self.oblige(st, "cttz-zero", b_not(n_eq(x, 0, w))) if (len(args) > 1 and args[1] is True) else None
            r = z3.BitVecVal(w, w)
            for k in range(w - 1, -1, -1):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k, w), r)
            return r
        if n.startswith("llvm.ctlz"):
            w = t.w
            c = const_of(args[0])
            if c is not None:
                return w - c.bit_length()
            if is_zi(args[0]):
                r = z3.IntVal(0)
                x = args[0]
                r = z3.IntVal(w)
                for k in range(w):
                    r = z3.If(zi(x) >= (1 << k), z3.IntVal(w - 1 - k), r)
                return r
            x = to_bv(args[0], w)
            r = z3.BitVecVal(w, w)
            for k in range(w):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
            return r
        m = re.match(r"llvm\.([us])(max|min)\.", n)
        if m:
            a, b = args[:2]
            c = self.icmp(st, ("u" if m.group(1) == "u" else "s") + ("gt" if m.group(2) == "max" else "lt"), a, b, t)
            return merge_num(c, a, b, t.w)
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            a, b = args[:2]
            if m.group(1) == "u" and (is_zi(a) or is_zi(b) or (is_c(a) and is_c(b))):
                x, y = to_zi(a, w), to_zi(b, w)
                r = {"add": lambda: i_add(x, y), "sub": lambda: i_sub(x, y),
                     "mul": lambda: i_scale(x, y) if is_c(y) else i_scale(y, x) if is_c(x) else zi(x) * zi(y)}[m.group(2)]()
                ov = b_or(i_lt(r, 0), i_le(1 << w, r))
                if is_c(ov):
                    return Agg([r & mask(w) if is_c(r) else (r if not ov else zi(r) % (1 << w)), ov])
                if self.solver.valid(st.pc, b_not(ov), 1.0):
                    return Agg([r, False])
                return Agg([zi(r) % (1 << w), ov])
            raise Unsupported(n)
        if n.startswith("llvm.x86.sse2.pmovmskb") or n.startswith("llvm.x86.avx2.pmovmskb"):
            return self.movmsk(args[0])
        if n.startswith("llvm.abs"):
            a = args[0]
            c = self.icmp(st, "slt", a, 0, t)
            return merge_num(c, self.binop(st, "sub", 0, a, t.w), a, t.w)
        if n.startswith(("llvm.ceil", "llvm.floor", "llvm.fabs", "llvm.log2", "llvm.pow", "llvm.round", "llvm.fmuladd",
                         "llvm.trunc", "llvm.rint")):
            return Flo()
        raise Unsupported(f"intrinsic {n}")

    def movmsk(self, v):
        bits = []
        for l in v.lanes:
            w = 8
            if is_c(l):
                bits.append((l >> 7) & 1)
                continue
            ls = ite_leaves(l)
            if ls is not None:
                b = ite_map(l, lambda x: bool(x >> 7), b_ite)
                bits.append(b)
            else:
                bits.append(z3.Extract(7, 7, l) == 1)
        ps = []
        for b in reversed(bits):
            if is_c(b):
                ps.append((int(b), 1))
            else:
                ps.append((z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1))
        r = bv_concat(ps)
        n = len(v.lanes)
        return r if n == 32 else (self.zext(r, n, 32))

    def bswap(self, v, w):
        if is_c(v):
            return int.from_bytes(int(v).to_bytes(w // 8, "little"), "big")
        if is_zi(v):
            v = to_bv(v, w)
        return bv_concat([(bv_extract(v, 8 * i + 7, 8 * i), 8) for i in range(w // 8)])
