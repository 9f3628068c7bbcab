"""Parser for the textual LLVM 18 IR that clang emits at -O0 (opaque pointers).

The parser is deliberately strict: anything it does not know raises
Unsupported, so that an unexpected construct can never be silently skipped.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    pass


class IntTy(Ty):
    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return "i%d" % self.w

    def __eq__(self, o):
        return isinstance(o, IntTy) and o.w == self.w

    def __hash__(self):
        return hash(("i", self.w))


class PtrTy(Ty):
    def __repr__(self):
        return "ptr"

    def __eq__(self, o):
        return isinstance(o, PtrTy)

    def __hash__(self):
        return 7


class VoidTy(Ty):
    def __repr__(self):
        return "void"


class FloatTy(Ty):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class ArrTy(Ty):
    def __init__(self, n, e):
        self.n, self.e = n, e

    def __repr__(self):
        return "[%d x %r]" % (self.n, self.e)


class StructTy(Ty):
    def __init__(self, name, fields=None, packed=False):
        self.name, self.fields, self.packed = name, fields, packed

    def __repr__(self):
        return self.name or "{anon}"


class LabelTy(Ty):
    pass


class FnTy(Ty):
    def __init__(self, ret, args, va):
        self.ret, self.args, self.va = ret, args, va


PTR = PtrTy()
I1, I8, I32, I64 = IntTy(1), IntTy(8), IntTy(32), IntTy(64)

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<meta>!(?:[-A-Za-z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_$][-A-Za-z$._0-9]*)
 | (?P<p>[=,(){}\[\]<>*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i:i + 40])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("expected %s got %s" % (v, self.t[self.i:self.i + 6]))

    def done(self):
        return self.i >= len(self.t)

    # -- types
    def type(self):
        k, v = self.next()
        if k == "id":
            if re.fullmatch(r"i\d+", v):
                t = IntTy(int(v[1:]))
            elif v == "ptr":
                t = PTR
            elif v == "void":
                t = VoidTy()
            elif v in ("float", "double", "x86_fp80"):
                t = FloatTy(v)
            elif v == "label":
                t = LabelTy()
            elif v == "metadata":
                t = LabelTy()
            else:
                raise Unsupported("type " + v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ArrTy(n, e)
        elif k == "loc":
            t = self.mod.struct(v)
        elif v == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if not self.accept(","):
                        break
                self.expect("}")
            t = StructTy(None, fs)
        elif v == "<" and self.peek()[1] == "{":
            self.next()
            fs = []
            while True:
                fs.append(self.type())
                if not self.accept(","):
                    break
            self.expect("}")
            self.expect(">")
            t = StructTy(None, fs, True)
        else:
            raise Unsupported("type token %r" % (v,))
        # function type  "i32 (ptr, ...)"
        while self.peek()[1] == "(" and not isinstance(t, LabelTy) and self._fnty():
            self.next()
            a, va = [], False
            if not self.accept(")"):
                while True:
                    if self.peek()[0] == "dots":
                        self.next()
                        va = True
                    else:
                        a.append(self.type())
                    if not self.accept(","):
                        break
                self.expect(")")
            t = FnTy(t, a, va)
        return t

    def _fnty(self):
        # only in "call <ret> (<args>...) @f(...)": the paren directly follows a type
        k, v = self.peek(1)
        if v == ")" or k == "dots":
            return True
        return k == "id" and (re.fullmatch(r"i\d+|ptr|double", v) is not None)

    ATTRS = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly",
             "immarg", "returned", "inreg", "dso_local", "noreturn", "nounwind", "allocptr", "allocalign",
             "local_unnamed_addr", "unnamed_addr", "internal", "private", "global", "constant", "external",
             "common", "hidden", "weak", "readnone", "mustprogress", "captures"}

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "id" and v in self.ATTRS:
                self.next()
            elif k == "id" and v in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval"):
                self.next()
                if self.peek()[1] == "(":
                    d = 0
                    while True:
                        w = self.next()[1]
                        if w == "(":
                            d += 1
                        elif w == ")":
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            else:
                return

    # -- values: ('loc',name) ('glo',name) ('int',v) ('null',) ('undef',) ('zero',) ('str',bytes) ('agg',[..]) ('cgep',..)
    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("loc", v[1:].strip('"'))
        if k == "glo":
            return ("glo", v[1:].strip('"'))
        if k == "num":
            if isinstance(ty, FloatTy):
                return ("float", v)
            return ("int", int(v))
        if k == "id":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "getelementptr":
                while self.peek()[1] in ("inbounds", "nuw", "nusw"):
                    self.next()
                self.expect("(")
                t = self.type()
                self.expect(",")
                ops = [self.tv()]
                while self.accept(","):
                    ops.append(self.tv())
                self.expect(")")
                return ("cgep", t, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
                self.expect("(")
                tv = self.tv()
                self.expect("to")
                t = self.type()
                self.expect(")")
                return ("ccast", v, tv, t)
            if v in ("sub", "add"):
                while self.peek()[1] in ("nsw", "nuw"):
                    self.next()
                self.expect("(")
                a = self.tv()
                self.expect(",")
                b = self.tv()
                self.expect(")")
                return ("cbin", v, a, b)
        if k == "str":
            return ("str", unescape(v))
        if v == "[" or v == "{":
            close = "]" if v == "[" else "}"
            els = []
            if not self.accept(close):
                while True:
                    els.append(self.tv())
                    if not self.accept(","):
                        break
                self.expect(close)
            return ("agg", els)
        if v == "<":
            self.expect("{")
            els = []
            while True:
                els.append(self.tv())
                if not self.accept(","):
                    break
            self.expect("}")
            self.expect(">")
            return ("agg", els)
        if k == "meta":
            return ("meta",)
        raise Unsupported("value %r %r" % (k, v))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def unescape(s):
    assert s.startswith('c"')
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ("op", "res", "d", "line", "text")

    def __init__(self, op, res, d, line, text):
        self.op, self.res, self.d, self.line, self.text = op, res, d, line, text

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []

    def succs(self):
        t = self.ins[-1]
        if t.op == "br":
            return [t.d["t"]] if t.d["c"] is None else [t.d["t"], t.d["f"]]
        if t.op == "switch":
            return [t.d["default"]] + [b for _, b in t.d["cases"]]
        return []


class Fn:
    def __init__(self, name):
        self.name, self.params, self.ret, self.blocks, self.order = name, [], None, {}, []
        self.va = False
        self.line = None

    def loops(self):
        """natural loop headers in program order -> {header: set(blocks)}"""
        order = {b: i for i, b in enumerate(self.order)}
        # dominators (simple iterative)
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.blocks[b].succs():
                preds[s].append(b)
        reach, st = set(), [self.order[0]]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.blocks[b].succs())
        nodes = [b for b in self.order if b in reach]
        dom = {b: set(nodes) for b in nodes}
        dom[nodes[0]] = {nodes[0]}
        ch = True
        while ch:
            ch = False
            for b in nodes[1:]:
                ps = [p for p in preds[b] if p in reach]
                d = set.intersection(*[dom[p] for p in ps]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in nodes:
            for s in self.blocks[b].succs():
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
                elif order[s] <= order[b] and s not in dom[b]:
                    pass
        self.reach = reach
        return dict(sorted(loops.items(), key=lambda kv: order[kv[0]]))


class Module:
    def __init__(self):
        self.structs, self.globals, self.fns, self.decls = {}, {}, {}, {}
        self.lines = {}

    def struct(self, name):
        if name not in self.structs:
            self.structs[name] = StructTy(name)
        return self.structs[name]

    # -- layout (x86-64)
    def align(self, t):
        if isinstance(t, IntTy):
            return min(8, max(1, 1 << ((t.w + 7) // 8 - 1).bit_length())) if t.w > 8 else 1
        if isinstance(t, PtrTy):
            return 8
        if isinstance(t, FloatTy):
            return {"float": 4, "double": 8, "x86_fp80": 16}[t.n]
        if isinstance(t, ArrTy):
            return self.align(t.e)
        if isinstance(t, StructTy):
            if t.fields is None:
                raise Unsupported("opaque struct " + str(t.name))
            return 1 if t.packed else max([self.align(f) for f in t.fields] + [1])
        raise Unsupported("align %r" % t)

    def size(self, t):
        if isinstance(t, IntTy):
            a = self.align(t)
            return -(-((t.w + 7) // 8) // a) * a
        if isinstance(t, PtrTy):
            return 8
        if isinstance(t, FloatTy):
            return {"float": 4, "double": 8, "x86_fp80": 16}[t.n]
        if isinstance(t, ArrTy):
            return t.n * self.size(t.e)
        if isinstance(t, StructTy):
            offs, tot = self.offsets(t)
            return tot
        raise Unsupported("size %r" % t)

    def offsets(self, t):
        if t.fields is None:
            raise Unsupported("opaque struct " + str(t.name))
        o, offs = 0, []
        for f in t.fields:
            if not t.packed:
                a = self.align(f)
                o = -(-o // a) * a
            offs.append(o)
            o += self.size(f)
        if not t.packed:
            a = self.align(t)
            o = -(-o // a) * a
        return offs, o


FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "inbounds"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}
BINS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv"}


def strip_meta(line):
    # drop ", !dbg !12" / ", !llvm.loop !4" / " #5" suffixes, return (text, dbgid)
    dbg = None
    m = re.search(r", !dbg !(\d+)", line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r"(,\s*![A-Za-z_.]+ ![0-9]+)+\s*$", "", line)
    return line, dbg


def parse_ins(mod, raw):
    text, dbg = strip_meta(raw)
    res = None
    m = re.match(r'\s*%("[^"]*"|[-A-Za-z$._0-9]+) = ', text)
    if m:
        res = m.group(1).strip('"')
        text2 = text[m.end():]
    else:
        text2 = text
    p = P(tokenize(text2), mod)
    op = p.next()[1]
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    d = {}
    if op in BINS or op in ("icmp", "fcmp"):
        fl = set()
        if op in ("icmp", "fcmp"):
            d["pred"] = p.next()[1]
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        d["fl"] = fl
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        d.update(ty=t, a=a, b=b)
    elif op == "fneg":
        d["tv"] = p.tv()
    elif op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        tv = p.tv()
        p.expect("to")
        d.update(tv=tv, to=p.type())
    elif op == "alloca":
        t = p.type()
        n = None
        while p.accept(","):
            if p.peek()[1] == "align":
                p.next()
                p.next()
            else:
                n = p.tv()
        d.update(ty=t, n=n)
    elif op == "load":
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        d.update(ty=t, ptr=p.tv())
    elif op == "store":
        p.accept("volatile")
        v = p.tv()
        p.expect(",")
        d.update(v=v, ptr=p.tv())
    elif op == "getelementptr":
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        p.expect(",")
        ops = [p.tv()]
        while p.accept(","):
            ops.append(p.tv())
        d.update(ty=t, ops=ops)
    elif op == "br":
        if p.peek()[1] == "label":
            p.next()
            d.update(c=None, t=p.next()[1][1:].strip('"'))
        else:
            c = p.tv()
            p.expect(",")
            p.expect("label")
            t = p.next()[1][1:].strip('"')
            p.expect(",")
            p.expect("label")
            d.update(c=c, t=t, f=p.next()[1][1:].strip('"'))
    elif op == "ret":
        t = p.type()
        d["v"] = None if isinstance(t, VoidTy) else (t, p.value(t))
    elif op == "unreachable":
        pass
    elif op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = p.next()[1][1:].strip('"')
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        d.update(ty=t, inc=inc)
    elif op == "select":
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        d.update(c=c, a=a, b=p.tv())
    elif op == "call":
        p.skip_attrs()
        t = p.type()
        if isinstance(t, FnTy):
            t = t.ret
        k, v = p.next()
        if k not in ("glo", "loc"):
            raise Unsupported("callee " + str(v))
        d["callee"] = (k, v[1:].strip('"'))
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                p.skip_attrs()
                args.append((at, p.value(at)))
                if not p.accept(","):
                    break
            p.expect(")")
        d.update(args=args, ty=t)
    elif op in ("extractvalue", "insertvalue"):
        a = p.tv()
        rest = []
        if op == "insertvalue":
            p.expect(",")
            d["v"] = p.tv()
        while p.accept(","):
            rest.append(int(p.next()[1]))
        d.update(a=a, ix=rest)
    elif op == "freeze":
        d["tv"] = p.tv()
    else:
        raise Unsupported("instruction " + op)
    return Ins(op, res, d, dbg, raw)


def parse(text, only=None):
    mod = Module()
    lines = text.split("\n")
    # join switch instructions spanning several lines
    i = 0
    cur = None
    bl = None
    struct_lines, glob_lines = [], []
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", text, re.M):
        mod.lines[int(m.group(1))] = int(m.group(2))
    for m in re.finditer(r"^(%[^ ]+) = type (.*)$", text, re.M):
        struct_lines.append((m.group(1), m.group(2)))
    for n, body in struct_lines:
        s = mod.struct(n.replace('"', ''))
    for n, body in struct_lines:
        s = mod.struct(n.replace('"', ''))
        if body.strip() == "opaque":
            continue
        p = P(tokenize(body), mod)
        t = p.type()
        s.fields, s.packed = t.fields, t.packed
    while i < len(lines):
        ln = lines[i]
        i += 1
        if cur is None:
            if ln.startswith("@"):
                try:
                    m = re.match(r'@("[^"]*"|[-A-Za-z$._0-9]+) = (.*)$', ln)
                    p = P(tokenize(strip_meta(m.group(2))[0]), mod)
                    const = False
                    ext = False
                    while True:
                        k, v = p.peek()
                        if v in ("global", "constant"):
                            const = v == "constant"
                            p.next()
                            break
                        if v in ("external",):
                            ext = True
                        p.next()
                    t = p.type()
                    init = None if ext else p.value(t)
                    mod.globals[m.group(1).strip('"')] = (t, init, const)
                except Unsupported as e:
                    mod.globals[m.group(1).strip('"')] = (None, None, False)
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                mod.decls[m.group(1).strip('"')] = ln
            elif ln.startswith("define"):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                fn = Fn(name)
                fn.internal = " internal " in ln
                # params
                j = m.end()
                depth, k = 1, j
                while depth:
                    if ln[k] == "(":
                        depth += 1
                    elif ln[k] == ")":
                        depth -= 1
                    k += 1
                ps = ln[j:k - 1]
                fn.bad = None
                try:
                    pp = P(tokenize(ps), mod)
                    while not pp.done():
                        if pp.peek()[0] == "dots":
                            pp.next()
                            fn.va = True
                            break
                        t = pp.type()
                        pp.skip_attrs()
                        nm = pp.next()[1][1:].strip('"')
                        fn.params.append((nm, t))
                        pp.accept(",")
                    rt = P(tokenize(ln[len("define"):m.start()]), mod)
                    rt.skip_attrs()
                    fn.ret = rt.type()
                except Unsupported as e:
                    fn.bad = str(e)
                mm = re.search(r"!dbg !(\d+)", ln)
                cur, bl = fn, None
        else:
            if ln.startswith("}"):
                mod.fns[cur.name] = cur
                cur = None
                continue
            s = ln.strip()
            if not s:
                continue
            m = re.match(r'^("[^"]*"|[-A-Za-z$._0-9]+):', ln)
            if m:
                bl = Block(m.group(1).strip('"'))
                cur.blocks[bl.name] = bl
                cur.order.append(bl.name)
                continue
            if bl is None:
                bl = Block("entry")
                cur.blocks["entry"] = bl
                cur.order.append("entry")
            if s.startswith("switch "):
                full = s
                while "]" not in full:
                    full += " " + lines[i].strip()
                    i += 1
                full, dbg = strip_meta(full)
                m = re.match(r"switch (i\d+) (\S+), label %(\S+) \[(.*)\]", full)
                w = IntTy(int(m.group(1)[1:]))
                p = P(tokenize(m.group(2)), mod)
                v = p.value(w)
                cases = [(int(a), b) for a, b in re.findall(r"i\d+ (-?\d+), label %([^\s\]]+)", m.group(4))]
                bl.ins.append(Ins("switch", None, dict(ty=w, v=v, default=m.group(3), cases=cases), dbg, s))
                continue
            if "llvm.dbg." in s or s.startswith("call void @llvm.lifetime") or "#dbg_" in s:
                continue
            try:
                bl.ins.append(parse_ins(mod, ln))
            except Unsupported as e:
                cur.bad = str(e) + " in: " + s
                if s.startswith(("br ", "ret ", "switch ", "unreachable")):
                    raise
                bl.ins.append(Ins("bad", None, dict(why=str(e)), None, ln))
    return mod
