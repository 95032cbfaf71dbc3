"""Parser for the textual LLVM IR that clang 18 emits (the subset its front end produces at -O0).

Functions are parsed on demand: a module with thousands of functions costs only a scan."""
import re
import subprocess

# ---------------------------------------------------------------- types


class Type:
    pass


class IntT(Type):
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return f"i{self.w}"

    def __eq__(self, o):
        return isinstance(o, IntT) and o.w == self.w

    def __hash__(self):
        return hash(("i", self.w))


class PtrT(Type):
    def __repr__(self):
        return "ptr"

    def __eq__(self, o):
        return isinstance(o, PtrT)

    def __hash__(self):
        return hash("ptr")


class FloatT(Type):
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k


class VoidT(Type):
    def __repr__(self):
        return "void"


class MetaT(Type):
    def __repr__(self):
        return "metadata"


class ArrT(Type):
    def __init__(self, n, e):
        self.n, self.e = n, e

    def __repr__(self):
        return f"[{self.n} x {self.e}]"


class VecT(Type):
    def __init__(self, n, e):
        self.n, self.e = n, e

    def __repr__(self):
        return f"<{self.n} x {self.e}>"


class StructT(Type):
    def __init__(self, fields, packed=False, name=None):
        self.fields, self.packed, self.name = fields, packed, name
        self._lay = None

    def __repr__(self):
        return self.name or "{" + ", ".join(map(repr, self.fields or [])) + "}"


class FnT(Type):
    def __init__(self, ret, args, va):
        self.ret, self.args, self.va = ret, args, va


PTR = PtrT()
VOID = VoidT()


def align_up(n, a):
    return (n + a - 1) // a * a


def size_align(t):
    """(alloc size, ABI alignment) on x86-64."""
    if isinstance(t, IntT):
        n = (t.w + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        return align_up(n, a), a
    if isinstance(t, PtrT):
        return 8, 8
    if isinstance(t, FloatT):
        return {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16), "fp128": (16, 16), "half": (2, 2)}[t.k]
    if isinstance(t, ArrT):
        s, a = size_align(t.e)
        return s * t.n, a
    if isinstance(t, VecT):
        if isinstance(t.e, IntT):
            s = (t.n * t.e.w + 7) // 8
        else:
            s = t.n * size_align(t.e)[0]
        a = 1
        while a < s:
            a *= 2
        return align_up(s, a), a
    if isinstance(t, StructT):
        return layout(t)[1:]
    raise ParseError(f"size of {t!r}")


def layout(t):
    """(field offsets, size, align)"""
    if t._lay is None:
        if t.fields is None:
            raise ParseError(f"size of opaque type {t!r}")
        off, al, offs = 0, 1, []
        for f in t.fields:
            s, a = size_align(f)
            if t.packed:
                a = 1
            off = align_up(off, a)
            offs.append(off)
            off += s
            al = max(al, a)
        t._lay = (offs, align_up(off, al), al)
    return t._lay


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- lexer

TOK = re.compile(
    r"""\s*(?:
     (?P<str>c?"(?:[^"\\]|\\.)*")
   | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
   | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
   | (?P<meta>!(?:[-a-zA-Z$._][-a-zA-Z$._0-9]*|[0-9]+)?)
   | (?P<attr>\#[0-9]+)
   | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
   | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
   | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
   )""",
    re.X,
)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ";":
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            if s[i:].lstrip().startswith(";"):
                i += len(s[i:]) - len(s[i:].lstrip())
                continue
            raise ParseError("lex: " + s[i : i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def unq(name):
    """identifier without sigil and quotes"""
    b = name[1:]
    if b.startswith('"'):
        b = b[1:-1]
        b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), b)
    return b


class TS:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError(f"expected {s!r}, got {self.peek()!r} in {' '.join(x[1] for x in self.t)[:200]}")

    # ---- types
    def type(self):
        t = self.type0()
        while True:
            if self.peek() == "(" :  # function type
                self.next()
                args, va = [], False
                while not self.accept(")"):
                    if self.accept("..."):
                        va = True
                    else:
                        args.append(self.type())
                        self.skip_param_attrs()
                    self.accept(",")
                t = FnT(t, args, va)
            elif self.peek() == "*":
                self.next()
                t = PTR
            else:
                return t

    def type0(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                return IntT(int(v[1:]))
            if v == "ptr":
                if self.accept("addrspace"):
                    self.expect("(")
                    self.next()
                    self.expect(")")
                return PTR
            if v == "void":
                return VOID
            if v in ("float", "double", "x86_fp80", "fp128", "half"):
                return FloatT(v)
            if v in ("metadata", "label", "token"):
                return MetaT()
            if v == "opaque":
                return StructT(None)
        if k == "lid":
            return self.mod.named_type(unq(v))
        if v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            return ArrT(n, e)
        if v == "{":
            return StructT(self._fields("}"))
        if v == "<":
            if self.peek() == "{":
                self.next()
                f = self._fields("}")
                self.expect(">")
                return StructT(f, packed=True)
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            return VecT(n, e)
        raise ParseError(f"type: {v!r}")

    def _fields(self, close):
        f = []
        while not self.accept(close):
            f.append(self.type())
            self.accept(",")
        return f

    def is_type_start(self):
        k, v = self.kind(), self.peek()
        if k == "lid":
            return True
        if k == "word":
            return (v[0] == "i" and v[1:].isdigit()) or v in (
                "ptr", "void", "float", "double", "x86_fp80", "fp128", "half", "metadata", "label", "token")
        return v in ("[", "{", "<")

    PARAM_ATTRS = {
        "noundef", "nonnull", "signext", "zeroext", "inreg", "nocapture", "noalias", "readonly", "readnone",
        "writeonly", "returned", "nofree", "immarg", "swiftself", "nest", "writable", "dead_on_unwind", "noinline",
        "allocptr", "allocalign", "inrange",
    }

    def skip_param_attrs(self):
        info = {}
        while True:
            v = self.peek()
            if v in self.PARAM_ATTRS:
                self.next()
                info[v] = True
            elif v == "align":
                self.next()
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif v in ("dereferenceable", "dereferenceable_or_null", "captures", "range"):
                self.next()
                self.skip_parens()
            elif v in ("sret", "byval", "elementtype", "byref", "preallocated", "inalloca"):
                self.next()
                self.expect("(")
                info[v] = self.type()
                self.expect(")")
            elif self.kind() == "str" and self.peek()[0] == '"':
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return info

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()
            d += v == "("
            d -= v == ")"

    # ---- values;  returned as ('kind', ...)
    def typed_value(self):
        t = self.type()
        self.skip_param_attrs()
        return self.value(t)

    def value(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == "lid":
            return ("l", unq(v), t)
        if k == "gid":
            return ("g", unq(v), t)
        if k == "num":
            if isinstance(t, FloatT):
                return ("f", v, t)
            if v.startswith("0x"):
                return ("i", int(v, 16), t)
            return ("i", int(v) & ((1 << t.w) - 1), t)
        if k == "meta":
            if self.peek() == "(":
                self.skip_parens()
            return ("meta", v, t)
        if k == "word":
            if v in ("true", "false"):
                return ("i", int(v == "true"), t)
            if v == "null":
                return ("null", None, t)
            if v in ("undef", "poison"):
                return ("undef", None, t)
            if v in ("zeroinitializer", "none"):
                return ("zero", None, t)
            if v == "getelementptr":
                while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                    w = self.next()
                    if w == "inrange" and self.peek() == "(":
                        self.skip_parens()
                self.expect("(")
                st = self.type()
                self.expect(",")
                ops = []
                while True:
                    self.accept("inrange")
                    ops.append(self.typed_value())
                    if not self.accept(","):
                        break
                self.expect(")")
                return ("gep", st, ops, t)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.expect("(")
                o = self.typed_value()
                self.expect("to")
                tt = self.type()
                self.expect(")")
                return ("cast", v, o, tt)
            if v in ("sub", "add", "mul", "xor", "and", "or", "shl", "lshr", "ashr"):
                while self.peek() in ("nsw", "nuw"):
                    self.next()
                self.expect("(")
                a = self.typed_value()
                self.expect(",")
                b = self.typed_value()
                self.expect(")")
                return ("bin", v, a, b, t)
            if v == "asm":
                while self.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                    self.next()
                a = self.next()
                self.expect(",")
                self.next()
                return ("asm", a, t)
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.value(t)
        if k == "str" and v.startswith("c"):
            return ("bytes", cstr(v[2:-1]), t)
        if v == "{" or (v == "<" and self.peek() == "{"):
            packed = v == "<"
            if packed:
                self.next()
            el = []
            while not self.accept("}"):
                el.append(self.typed_value())
                self.accept(",")
            if packed:
                self.expect(">")
            return ("agg", el, t)
        if v in ("[", "<"):
            close = "]" if v == "[" else ">"
            el = []
            while not self.accept(close):
                el.append(self.typed_value())
                self.accept(",")
            return ("agg", el, t)
        raise ParseError(f"value: {v!r} of type {t!r}: {' '.join(x[1] for x in self.t)[:160]}")


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1 : i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- module


class Instr:
    __slots__ = ("op", "res", "a", "dbg", "text")

    def __init__(self, op, res, a, dbg, text):
        self.op, self.res, self.a, self.dbg, self.text = op, res, a, dbg, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "ins", "succ")

    def __init__(self, name):
        self.name, self.ins, self.succ = name, [], []


class Function:
    def __init__(self, name, ret, params, blocks, order, dbg):
        self.name, self.ret, self.params, self.blocks, self.order = name, ret, params, blocks, order
        self.dbg = dbg
        self.cfg = None


class Global:
    def __init__(self, name, const, type_, init):
        self.name, self.const, self.type, self.init = name, const, type_, init
        self.tls = False


class Module:
    def __init__(self, text, path="?"):
        self.path = path
        self.types = {}
        self._typedefs = {}
        self._defs = {}  # name -> (start,end) of text
        self.decls = set()
        self._globs = {}
        self._fn = {}
        self._gl = {}
        self._md = {}
        self.aliases = {}
        self.text = text
        self._scan()
        self.demangled = demangle(list(self._defs) + list(self.decls))

    def _scan(self):
        text = self.text
        lines = text.split("\n")
        self.lines = lines
        i = 0
        gname = re.compile(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
        while i < len(lines):
            l = lines[i]
            if l.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                j = i
                while lines[j] != "}":
                    j += 1
                self._defs[unq("@" + m.group(1))] = (i, j)
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add(unq("@" + m.group(1)))
            elif l.startswith("@"):
                m = gname.match(l)
                self._globs[unq("@" + m.group(1))] = l
            elif l.startswith("%"):
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    self._typedefs[unq(m.group(1))] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"^!([0-9]+) = (.*)$", l)
                if m:
                    self._md[m.group(1)] = m.group(2)
            i += 1

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = StructT(None, name="%" + name)
            self.types[name] = t
            d = self._typedefs.get(name)
            if d and d != "opaque":
                b = TS(lex(d), self).type()
                t.fields, t.packed = b.fields, b.packed
        return t

    def has_fn(self, name):
        return name in self._defs

    def fn_text(self, name):
        i, j = self._defs[name]
        return "\n".join(self.lines[i:j + 1])

    def line_of(self, dbg):
        """'file:line' for a !dbg id"""
        if dbg is None:
            return None
        d = self._md.get(dbg)
        if not d:
            return None
        m = re.search(r"DILocation\(line: (\d+).*?scope: !(\d+)", d)
        if not m:
            m = re.search(r"DISubprogram\(.*?file: !(\d+), line: (\d+)", d)
            if not m:
                return None
            return f"{self._difile(m.group(1))}:{m.group(2)}"
        scope = self._md.get(m.group(2), "")
        f = re.search(r"file: !(\d+)", scope)
        return f"{self._difile(f.group(1)) if f else '?'}:{m.group(1)}"

    def _difile(self, i):
        m = re.search(r'filename: "([^"]*)"', self._md.get(i, ""))
        return m.group(1) if m else "?"

    def glob(self, name):
        g = self._gl.get(name)
        if g is None:
            l = self._globs.get(name)
            if l is None:
                return None
            ts = TS(lex(l), self)
            ts.next()
            ts.expect("=")
            const = tls = False
            ext = False
            while True:
                v = ts.peek()
                if v == "alias":
                    ts.next()
                    ts.type()
                    ts.expect(",")
                    val = ts.typed_value()
                    g = Global(name, True, None, ("alias", val))
                    self._gl[name] = g
                    return g
                if v in ("constant", "global"):
                    const = v == "constant"
                    ts.next()
                    break
                if v in ("external", "extern_weak"):
                    ext = True
                ts.next()
                tls = tls or v == "thread_local"
                if v == "thread_local" and ts.peek() == "(":
                    ts.skip_parens()
            t = ts.type()
            init = None if ext else ts.value(t)
            g = Global(name, const, t, init)
            g.tls = tls
            self._gl[name] = g
        return g

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            a, b = self._defs[name]
            f = self._parse_fn(name, self.lines[a : b + 1])
            self._fn[name] = f
        return f

    def _parse_fn(self, name, lines):
        ts = TS(lex(lines[0]), self)
        ts.expect("define")
        SK = {"linkonce_odr", "dso_local", "internal", "weak_odr", "available_externally", "hidden", "noundef",
              "nonnull", "zeroext", "signext", "weak", "private", "noalias", "protected", "linkonce", "common",
              "fastcc", "ccc"}
        while True:
            v = ts.peek()
            if v in SK:
                ts.next()
            elif v in ("dereferenceable", "dereferenceable_or_null"):
                ts.next()
                ts.skip_parens()
            elif v == "align":
                ts.next()
                ts.next()
            else:
                break
        ret = ts.type0()
        ts.next()  # name
        ts.expect("(")
        params = []
        n = 0
        while not ts.accept(")"):
            if ts.accept("..."):
                continue
            t = ts.type()
            info = ts.skip_param_attrs()
            if ts.kind() == "lid":
                pn = unq(ts.next())
            else:
                pn = str(n)
            n += 1
            params.append((t, pn, info))
            ts.accept(",")
        m = re.search(r"!dbg !(\d+)", lines[0])
        dbg = m.group(1) if m else None
        blocks, order = {}, []
        cur = None
        i = 1
        body = lines[1:-1]
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            if not l.startswith(" "):
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if not m:
                    raise ParseError("label: " + l)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = unq("%" + nm)
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
                continue
            # continuation lines
            if s.startswith("switch"):
                while not s.rstrip().split(", !dbg")[0].rstrip().endswith("]"):
                    s += " " + body[k].strip()
                    k += 1
            while k < len(body) and re.match(r"^\s{10}(to label|cleanup|catch|filter|unwind)", body[k]):
                s += " " + body[k].strip()
                k += 1
            if cur is None:
                cur = Block(str(n))  # implicit entry label
                blocks[cur.name] = cur
                order.append(cur.name)
            cur.ins.append(self._parse_ins(s))
        for b in blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == "invoke":
                b.succ = [t.a["normal"], t.a["unwind"]]
            else:
                b.succ = []
        return Function(name, ret, params, blocks, order, dbg)

    def _parse_ins(self, s):
        text = s
        dbg = None
        m = re.search(r", !dbg !(\d+)", s)
        if m:
            dbg = m.group(1)
            s = s[: m.start()] + s[m.end():]
        s = re.sub(r", !(?:llvm\.loop|srcloc|tbaa|nosanitize|heapallocsite|range|nonnull|noundef|prof|align)( ![0-9]+)?", "", s)
        toks = lex(s)
        ts = TS(toks, self)
        res = None
        if ts.kind() == "lid" and ts.peek(1) == "=":
            res = unq(ts.next())
            ts.next()
        op = ts.next()
        if op in ("tail", "musttail", "notail"):
            op = ts.next()
        a = None
        if op == "alloca":
            if ts.accept("inalloca"):
                pass
            t = ts.type()
            cnt = None
            if ts.accept(",") and ts.peek() != "align":
                cnt = ts.typed_value()
            a = (t, cnt)
        elif op == "load":
            while ts.peek() in ("atomic", "volatile"):
                ts.next()
            t = ts.type()
            ts.expect(",")
            a = (t, ts.typed_value())
        elif op == "store":
            while ts.peek() in ("atomic", "volatile"):
                ts.next()
            v = ts.typed_value()
            ts.expect(",")
            a = (v, ts.typed_value())
        elif op == "getelementptr":
            inb = False
            while ts.peek() in ("inbounds", "nuw", "nusw"):
                inb = True
                ts.next()
            t = ts.type()
            ops = []
            while ts.accept(","):
                ops.append(ts.typed_value())
            a = (t, ops, inb)
        elif op in ("call", "invoke"):
            FM = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"}
            while ts.peek() in FM:
                ts.next()
            while True:
                v = ts.peek()
                if v in ("noundef", "nonnull", "zeroext", "signext", "noalias", "inreg"):
                    ts.next()
                elif v in ("dereferenceable", "dereferenceable_or_null"):
                    ts.next()
                    ts.skip_parens()
                elif v == "align":
                    ts.next()
                    ts.next()
                else:
                    break
            rt = ts.type0()
            if ts.peek() == "(":  # explicit function type (varargs)
                ts.i -= 0
                ts.skip_parens()
            callee = ts.value(PTR)
            args = []
            if callee[0] == "asm" and ts.peek() != "(":
                pass
            ts.expect("(")
            while not ts.accept(")"):
                t = ts.type()
                info = ts.skip_param_attrs()
                if isinstance(t, MetaT):
                    # skip to next , or ) at depth 0
                    d = 0
                    while not (d == 0 and ts.peek() in (",", ")")):
                        w = ts.next()
                        d += w in ("(", "{")
                        d -= w in (")", "}")
                    args.append(("meta", None, t))
                else:
                    v = ts.value(t)
                    if "byval" in info:
                        v = ("byval", v, info["byval"])
                    args.append(v)
                ts.accept(",")
            a = {"ret": rt, "callee": callee, "args": args}
            if op == "invoke":
                while ts.peek() != "to":
                    ts.next()
                ts.next()
                ts.expect("label")
                a["normal"] = unq(ts.next())
                ts.expect("unwind")
                ts.expect("label")
                a["unwind"] = unq(ts.next())
        elif op == "br":
            if ts.peek() == "label":
                ts.next()
                a = (unq(ts.next()),)
            else:
                c = ts.typed_value()
                ts.expect(",")
                ts.expect("label")
                x = unq(ts.next())
                ts.expect(",")
                ts.expect("label")
                y = unq(ts.next())
                a = (c, x, y)
        elif op == "switch":
            c = ts.typed_value()
            ts.expect(",")
            ts.expect("label")
            d = unq(ts.next())
            ts.expect("[")
            cs = []
            while not ts.accept("]"):
                v = ts.typed_value()
                ts.expect(",")
                ts.expect("label")
                cs.append((v, unq(ts.next())))
            a = (c, d, cs)
        elif op == "ret":
            t = ts.type()
            a = None if isinstance(t, VoidT) else ts.value(t)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                    "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while ts.peek() in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "contract"):
                fl.add(ts.next())
            x = ts.typed_value()
            ts.expect(",")
            y = ts.value(x[-1])
            a = (x, y, fl)
        elif op == "fneg":
            a = (ts.typed_value(),)
        elif op in ("icmp", "fcmp"):
            p = ts.next()
            x = ts.typed_value()
            ts.expect(",")
            a = (p, x, ts.value(x[-1]))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptosi",
                    "fptoui", "fpext", "fptrunc", "addrspacecast"):
            while ts.peek() in ("nneg", "nuw", "nsw"):
                ts.next()
            v = ts.typed_value()
            ts.expect("to")
            a = (v, ts.type())
        elif op == "phi":
            t = ts.type()
            inc = []
            while True:
                ts.expect("[")
                v = ts.value(t)
                ts.expect(",")
                l = unq(ts.next())
                ts.expect("]")
                inc.append((v, l))
                if not ts.accept(","):
                    break
            a = (t, inc)
        elif op == "select":
            c = ts.typed_value()
            ts.expect(",")
            x = ts.typed_value()
            ts.expect(",")
            a = (c, x, ts.typed_value())
        elif op == "extractvalue":
            v = ts.typed_value()
            idx = []
            while ts.accept(","):
                idx.append(int(ts.next()))
            a = (v, idx)
        elif op == "insertvalue":
            v = ts.typed_value()
            ts.expect(",")
            w = ts.typed_value()
            idx = []
            while ts.accept(","):
                idx.append(int(ts.next()))
            a = (v, w, idx)
        elif op == "landingpad":
            t = ts.type()
            cl = []
            cleanup = False
            while ts.peek() is not None:
                w = ts.next()
                if w == "cleanup":
                    cleanup = True
                elif w in ("catch", "filter"):
                    cl.append((w, ts.typed_value()))
            a = (t, cleanup, cl)
        elif op == "resume":
            a = (ts.typed_value(),)
        elif op == "unreachable":
            a = ()
        elif op == "freeze":
            a = (ts.typed_value(),)
        elif op == "extractelement":
            v = ts.typed_value()
            ts.expect(",")
            a = (v, ts.typed_value())
        elif op == "insertelement":
            v = ts.typed_value()
            ts.expect(",")
            w = ts.typed_value()
            ts.expect(",")
            a = (v, w, ts.typed_value())
        elif op == "shufflevector":
            v = ts.typed_value()
            ts.expect(",")
            w = ts.typed_value()
            ts.expect(",")
            a = (v, w, ts.typed_value())
        else:
            a = ("raw",)
        return Instr(op, res, a, dbg, text)


def demangle(names):
    if not names:
        return {}
    p = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))
