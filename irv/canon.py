"""Equality of large bit-vector terms by congruence.

Both terms are brought into a canonical form bottom-up: bitwise operations over the same atoms become truth tables, sums
become multisets modulo 2^w, opposite shifts become rotations.  Every rewriting of one node is a lemma over fresh atoms that
z3 checks (once per shape); the conclusion then only rests on those lemmas and congruence."""
import z3

MAXATOMS = 6


class Canon:
    def __init__(self):
        self.tab = {}      # canonical key -> id
        self.keys = []     # id -> key
        self.width = []
        self.memo = {}     # z3 ast id -> (ast, id)
        self.lemmas = {}
        self.queries = 0
        self.alive = []

    def mk(self, key, w):
        i = self.tab.get((key, w))
        if i is None:
            i = self.tab[(key, w)] = len(self.keys)
            self.keys.append(key)
            self.width.append(w)
        return i

    # ---- what a canonical class stands for, over atoms
    def atoms(self, i):
        k = self.keys[i]
        if k[0] == "shift":
            return [k[2]]
        if k[0] == "tt":
            return list(k[2])
        if k[0] == "sum":
            return [a for a, _ in k[2]]
        if k[0] == "const":
            return []
        return [i]

    def expand(self, i, env):
        """term of class i with its atoms (or i itself) replaced by variables"""
        k, w = self.keys[i], self.width[i]
        if i in env:
            return env[i]
        if k[0] == "const":
            return z3.BitVecVal(k[1], w)
        if k[0] == "tt":
            tt, at = k[1], k[2]
            r = z3.BitVecVal(0, w)
            for m in range(1 << len(at)):
                if tt >> m & 1:
                    t = z3.BitVecVal((1 << w) - 1, w)
                    for j, a in enumerate(at):
                        x = self.expand(a, env)
                        t = t & (x if m >> j & 1 else ~x)
                    r = r | t
            return r
        if k[0] == "sum":
            r = z3.BitVecVal(k[1], w)
            for a, c in k[2]:
                r = r + self.expand(a, env) * z3.BitVecVal(c, w)
            return r
        if k[0] == "shift":      # ("shift", dir, x, s)
            x = self.expand(k[2], env)
            s = z3.BitVecVal(k[3], w)
            return x << s if k[1] == "l" else z3.LShR(x, s) if k[1] == "r" else z3.RotateLeft(x, k[3])
        env[i] = z3.BitVec(f"a{i}", w)
        return env[i]

    def lemma(self, build, kids, res, w):
        """op(kids) == class res, for all values of the atoms below"""
        if any(k is None for k in kids):
            return True
        # shape: canonical keys with atoms renamed
        ren = {}
        rat = set(self.atoms(res)) if self.keys[res][0] != "shift" else {self.keys[res][2]}

        def shape(i, top=True):
            k = self.keys[i]
            if i in rat:
                return ("atom", ren.setdefault(i, len(ren)), self.width[i])
            if k[0] == "const":
                return k + (self.width[i],)
            if k[0] == "tt":
                return ("tt", k[1], tuple(ren.setdefault(a, len(ren)) for a in k[2]), self.width[i])
            if k[0] == "sum":
                return ("sum", k[1], tuple((ren.setdefault(a, len(ren)), c) for a, c in k[2]), self.width[i])
            if k[0] == "shift":
                return k[:2] + (ren.setdefault(k[2], len(ren)), k[3], self.width[i])
            return ("atom", ren.setdefault(i, len(ren)), self.width[i])
        key = (build.key, tuple(shape(k) for k in kids), shape(res))
        if key in self.lemmas:
            return self.lemmas[key]
        env = {a: z3.BitVec(f"a{a}", self.width[a]) for a in rat}
        # atoms become variables unless they are what is being rewritten
        def ex(i):
            k = self.keys[i]
            if i in env:
                return env[i]
            if k[0] == "tt":
                for a in k[2]:
                    env.setdefault(a, z3.BitVec(f"a{a}", self.width[a]))
            elif k[0] == "sum":
                for a, _ in k[2]:
                    env.setdefault(a, z3.BitVec(f"a{a}", self.width[a]))
            elif k[0] == "shift":
                env.setdefault(k[2], z3.BitVec(f"a{k[2]}", self.width[k[2]]))
            return self.expand(i, env)
        ks = [ex(k) for k in kids]
        r = ex(res)
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(build(*ks) != r)
        self.queries += 1
        ok = s.check() == z3.unsat
        self.lemmas[key] = ok
        return ok

    # ---- canonical forms
    def bitwise(self, fn, kids, w):
        at = []
        for k in kids:
            for a in (self.keys[k][2] if self.keys[k][0] == "tt" else [] if self.keys[k][0] == "const" and self.keys[k][1] in (0, (1 << w) - 1) else [k]):
                if a not in at:
                    at.append(a)
        at.sort()
        if len(at) > MAXATOMS:
            return None
        tt = 0
        for m in range(1 << len(at)):
            val = {a: m >> j & 1 for j, a in enumerate(at)}

            def ev(k):
                kk = self.keys[k]
                if kk[0] == "tt":
                    x = 0
                    for j, a in enumerate(kk[2]):
                        x |= val[a] << j
                    return kk[1] >> x & 1
                if kk[0] == "const" and kk[1] in (0, (1 << w) - 1):
                    return kk[1] & 1
                return val[k]
            if fn([ev(k) for k in kids]):
                tt |= 1 << m
        return self.mk_tt(tt, at, w)

    def mk_tt(self, tt, at, w):
        # drop atoms the table does not depend on
        j = 0
        while j < len(at):
            dep = any((tt >> m & 1) != (tt >> (m ^ (1 << j)) & 1) for m in range(1 << len(at)))
            if dep:
                j += 1
                continue
            nt, x = 0, 0
            for m in range(1 << len(at)):
                if not m >> j & 1:
                    nt |= (tt >> m & 1) << x
                    x += 1
            tt, at = nt, at[:j] + at[j + 1:]
        if not at:
            return self.mk(("const", (1 << w) - 1 if tt else 0), w)
        if len(at) == 1 and tt == 2:
            return at[0]
        return self.mk(("tt", tt, tuple(at)), w)

    def summing(self, kids, coefs, w):
        c, m = 0, {}
        for k, f in zip(kids, coefs):
            kk = self.keys[k]
            if kk[0] == "const":
                c += f * kk[1]
            elif kk[0] == "sum":
                c += f * kk[1]
                for a, g in kk[2]:
                    m[a] = m.get(a, 0) + f * g
            else:
                m[k] = m.get(k, 0) + f
        M = (1 << w) - 1
        ts = tuple(sorted((a, g & M) for a, g in m.items() if g & M))
        c &= M
        if not ts:
            return self.mk(("const", c), w)
        if c == 0 and len(ts) == 1 and ts[0][1] == 1:
            return ts[0][0]
        return self.mk(("sum", c, ts), w)

    def of(self, t):
        """class of a z3 bit-vector term"""
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo:
                stack.pop()
                continue
            kids = [c for c in x.children() if z3.is_bv(c)]
            todo = [c for c in kids if c.get_id() not in self.memo]
            # shift patterns look through extract/concat
            if todo:
                stack += todo
                continue
            stack.pop()
            self.memo[x.get_id()] = (x, self.node(x))
        return self.memo[t.get_id()][1]

    def cls(self, t):
        return self.memo[t.get_id()][1]

    def norm(self, c):
        n = z3.simplify(c, som=True)
        self.alive.append(n)
        return n.get_id()

    def opaque(self, x):
        ks = tuple(self.cls(c) if z3.is_bv(c) else ("ast", self.norm(c)) for c in x.children())
        d = x.decl()
        if not ks:
            return self.mk(("leaf", x.get_id()), x.size())
        return self.mk(("op", d.kind(), d.name(), tuple(map(str, d.params())), ks), x.size())

    def node(self, x):
        w = x.size()
        if z3.is_bv_value(x):
            return self.mk(("const", x.as_long()), w)
        k = x.decl().kind()
        kids = [self.cls(c) for c in x.children()] if all(z3.is_bv(c) for c in x.children()) else None
        if kids is None or not kids:
            return self.opaque(x)
        r = build = None
        if k in BITS:
            f = BITS[k]
            # fold n-ary
            build = lambda *a: x.decl()(*a) if len(a) <= 2 else None
            acc = kids[0]
            if len(kids) == 1:
                r = self.bitwise(lambda v: not v[0], [acc], w)
                if r is not None and not self.lemma(B(("not",), lambda a: ~a), [acc], r, w):
                    r = None
                return r if r is not None else self.opaque(x)
            for c in kids[1:]:
                n = self.rot(k, acc, c, w)
                if n is None:
                    n = self.bitwise(f, [acc, c], w)
                if n is None or not self.lemma(B(("bit", k), OPS[k]), [acc, c], n, w):
                    return self.opaque(x)
                acc = n
            return acc
        if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB:
            cs = [1] + [1 if k == z3.Z3_OP_BADD else -1] * (len(kids) - 1)
            r = self.summing(kids, cs, w)

            def add(*a):
                s = a[0]
                for y in a[1:]:
                    s = s + y if k == z3.Z3_OP_BADD else s - y
                return s
            if self.lemma(B(("add", k), add), kids, r, w):
                return r
            return self.opaque(x)
        if k == z3.Z3_OP_BMUL and len(kids) == 2 and any(self.keys[c][0] == "const" for c in kids):
            i = 0 if self.keys[kids[0]][0] == "const" else 1
            r = self.summing([kids[1 - i]], [self.keys[kids[i]][1]], w)
            if self.lemma(B(("mul",), lambda a, b: a * b), kids, r, w):
                return r
        if k == z3.Z3_OP_ZERO_EXT:
            a = x.arg(0)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_EXTRACT and a.arg(0).size() == w and a.params() == [w - 1, w - a.size()]:
                return self.shift(self.of_sub(a.arg(0)), "r", w - a.size(), w)   # zero extension of the top bits
        if k == z3.Z3_OP_CONCAT:
            r = self.shift_of(x, w)
            if r is not None:
                return r
            parts = []      # concatenation is associative
            for c in kids:
                parts += self.keys[c][1] if self.keys[c][0] == "cat" else [c]
            return self.mk(("cat", tuple(parts)), w)
        if k == z3.Z3_OP_ROTATE_LEFT or k == z3.Z3_OP_ROTATE_RIGHT:
            s = x.params()[0] % w
            return self.shift(kids[0], "rot", s if k == z3.Z3_OP_ROTATE_LEFT else (w - s) % w, w)
        if k in (z3.Z3_OP_EXT_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_RIGHT) and self.keys[kids[1]][0] == "const":
            s = self.keys[kids[1]][1] % w
            return self.shift(kids[0], "rot", s if k == z3.Z3_OP_EXT_ROTATE_LEFT else (w - s) % w, w)
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and self.keys[kids[1]][0] == "const":
            return self.shift(kids[0], "l" if k == z3.Z3_OP_BSHL else "r", self.keys[kids[1]][1], w)
        return self.opaque(x)

    def shift(self, c, d, s, w):
        if s == 0:
            return c
        if s >= w:
            return self.mk(("const", 0), w)
        return self.mk(("shift", d, c, s), w)

    def shift_of(self, x, w):
        """concat(extract(w-1-s,0,y),0:s) is y<<s; concat(0:s, extract(w-1,s,y)) is y>>s; both pieces: rotation"""
        ch = x.children()
        if len(ch) != 2:
            return None
        a, b = ch

        def ext(t):
            return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_EXTRACT and t.arg(0).size() == w
        r = term = None
        if ext(a) and z3.is_bv_value(b) and b.as_long() == 0 and a.params() == [w - 1 - b.size(), 0]:
            y, r = a.arg(0), ("l", b.size())
        elif ext(b) and z3.is_bv_value(a) and a.as_long() == 0 and b.params() == [w - 1, a.size()]:
            y, r = b.arg(0), ("r", a.size())
        elif ext(a) and ext(b) and a.arg(0).eq(b.arg(0)) and a.params()[1] == 0 and b.params() == [w - 1, w - b.size()]:
            y, r = a.arg(0), ("rot", b.size())
        if r is None:
            return None
        c = self.of_sub(y)
        n = self.shift(c, r[0], r[1], w)

        def f(v):
            return z3.substitute(x, (y, v))
        v = z3.BitVec("v", w)
        s = z3.Solver()
        d, k = r
        rhs = v << k if d == "l" else z3.LShR(v, k) if d == "r" else z3.RotateLeft(v, k)
        key = ("sh", w, r)
        if key not in self.lemmas:
            s.add(f(v) != rhs)
            self.queries += 1
            self.lemmas[key] = s.check() == z3.unsat
        return n if self.lemmas[key] else None

    def of_sub(self, y):
        if y.get_id() not in self.memo:
            sub = Canon.of
            sub(self, y)
        return self.cls(y)

    def rot(self, k, a, b, w):
        """(x << s) op (x >> (w-s)), op one of or, xor: rotation"""
        if k not in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            return None
        ka, kb = self.keys[a], self.keys[b]
        if ka[0] != "shift" or kb[0] != "shift" or ka[2] != kb[2]:
            return None
        if ka[1] == "r":
            ka, kb = kb, ka
        if ka[1] == "l" and kb[1] == "r" and ka[3] + kb[3] == w:
            return self.mk(("shift", "rot", ka[2], ka[3]), w)
        return None

    def equal(self, a, b):
        return self.of(a) == self.of(b)


class B:
    """a function to build a term, with a key for caching lemmas"""

    def __init__(self, key, f):
        self.key, self.f = key, f

    def __call__(self, *a):
        return self.f(*a)


BITS = {z3.Z3_OP_BAND: lambda v: v[0] & v[1], z3.Z3_OP_BOR: lambda v: v[0] | v[1], z3.Z3_OP_BXOR: lambda v: v[0] ^ v[1],
        z3.Z3_OP_BNOT: lambda v: 1 - v[0]}
OPS = {z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BXOR: lambda a, b: a ^ b}


def subst(goal, facts):
    sub = []
    for f in facts:
        if z3.is_eq(f) and z3.is_bv(f.arg(0)):
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not a.eq(b):
                    sub.append((a, b))
                    break
    return z3.substitute(goal, *sub) if sub else goal


def counterexample(goal, facts, rng):
    """random values for the bit-vector leaves under which the equation fails: a list of equations, or None"""
    g = subst(goal, facts)
    leaves, seen, todo = [], set(), [g]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bv(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            leaves.append(x)
        else:
            todo += x.children()
    for _ in range(4):
        vals = [(x, z3.BitVecVal(rng.getrandbits(x.size()), x.size())) for x in leaves]
        r = z3.simplify(z3.substitute(g, *vals))
        if z3.is_false(r):
            return [x == v for x, v in vals]
    return None


def prove_eq(goal, facts=(), cache={}):
    """goal is an equality of bit-vectors that holds by congruence, checked rewriting and the equations among the facts?"""
    if not (z3.is_eq(goal) and z3.is_bv(goal.arg(0))):
        return False
    goal = subst(goal, facts)
    c = cache.get("c")
    if c is None:
        c = cache["c"] = Canon()
    return c.equal(goal.arg(0), goal.arg(1))
