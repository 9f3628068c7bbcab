"""glob.c: what a folder pattern matches.

Ghost pattern: a pattern is a sequence of NEL elements, element j admitting the bytes x with ELEM(j, x); before element j
(or after the last one) there may be a star STAR(j) (any run of bytes without '/') or a double star TWO(j) (any run).
R_b(i) = the first b elements, with the stars up to position b, match the first i bytes of the string:
    R_b(0)   <=> b = 0
    R_b(i+1) <=> (b > 0 and R_{b-1}(i) and ELEM(b-1, s[i])) or (R_b(i) and (TWO(b) or STAR(b) and s[i] != '/'))
which is the defining recurrence, instantiated at the position the code is looking at.  The reading of the pattern text
(PN = elements before text position p, STP/TWP = stars seen before p, CM = members of a character class listed before p)
is defined position by position in the same way.  C0 is an arbitrary byte: what is proved for it holds for every byte."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract, Lemma
from vc.ir import Unsupported

B8 = z3.BitVecSort(8)
Bo = z3.BoolSort()
C0 = z3.BitVec("C0", 8)
PN = z3.Function("ElementsBefore", BV64, BV64)
STP = z3.Function("StarBefore", BV64, BV64, Bo)
TWP = z3.Function("TwoStarBefore", BV64, BV64, Bo)
PEND = z3.BitVec("PatternEnd", 64)
ELEM = z3.Function("Element", BV64, BV64, B8, Bo)      # (globber, element, byte)
STAR = z3.Function("Star", BV64, BV64, Bo)
TWO = z3.Function("TwoStar", BV64, BV64, Bo)
NEL = z3.Function("Elements", BV64, BV64)
CM = z3.Function("ClassMember", BV64, BV64, B8, Bo)    # (start of class, text position, byte)
CLS = z3.Function("Class", BV64, B8, Bo)
CEND = z3.Function("ClassEnd", BV64, BV64)
R = [z3.Function("R%d" % b, BV64, BV64, Bo) for b in range(32)]    # (globber, i)
MATCH = z3.Function("GlobMatch", BV64, Bo)
NW = 32


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def bit(v, j):
    return z3.Extract(j, j, v) == 1


def text(c, p, n):
    """p points into a string terminated at index n"""
    return z3.And(p.idx >= 0, p.idx <= n, n < c.S.count(p), z3.Select(c.S.data(p), n) == 0)


class CharClass(Contract):
    name, file = "parse_charclass", "glob"
    pn = "in result mask"

    def setup(self, c):
        w = c.m.new_arr(c.st, "wild", fresh("n", 64), nul=PEND, ro=True)
        return {"in": w.add(fresh("in", 64)), "result": c.m.new_arr(c.st, "globber", 259, esize=4), "mask": fresh("mask", 32)}

    def requires(self, c):
        p = c.a["in"]
        if c.st.mem[c.a["result"].obj].kind == "raw":
            c.m.retype(c.st, c.a["result"].obj, 4, "bytes")
        return [("in the pattern", text(c, p, PEND)), ("at the opening bracket", z3.Select(c.S.data(p), p.idx) == ord("[")),
                ("globber", z3.And(c.a["result"].idx == 0, c.S.count(c.a["result"]) == 259))]

    def assigns(self, c):
        return [("obj", c.a["result"], 4)]

    def effect(self, c, st, rty):
        c.m  # result pointer stays inside the pattern
        for _ in super().effect(c, st, VOID):
            pass
        return [(st, Ptr(c.a["in"].obj, fresh("classend", 64)))]

    def ensures(self, c):
        a0, a1 = c.O.data(c.a["result"]), c.S.data(c.a["result"])
        s = c.a["in"].idx
        d = c.O.data(c.a["in"])
        if not isinstance(c.ret, Ptr) or c.ret.obj != c.a["in"].obj:
            return [("points into the pattern", z3.BoolVal(False))]
        return [("exactly the members of the class get the element's bit", z3.Select(a1, zx(C0)) == z3.If(CLS(s, C0), z3.Select(a0, zx(C0)) | c.a["mask"], z3.Select(a0, zx(C0)))),
                ("stars and length untouched", z3.And(*[z3.Select(a1, bv(k)) == z3.Select(a0, bv(k)) for k in (256, 257, 258)])),
                ("returns the closing bracket, or the end of an unclosed pattern", z3.And(c.ret.idx == CEND(s), CEND(s) > s, CEND(s) <= PEND, z3.Or(z3.Select(d, CEND(s)) == ord("]"), z3.Select(d, CEND(s)) == 0)))]

    def inv(c):
        s, p = c.a["in"].idx, c.S["in"].idx
        d = c.O.data(c.a["in"])
        a0, a1 = c.O.data(c.a["result"]), c.S.data(c.a["result"])
        first = p == s + 1
        return [("position", z3.And(p >= s + 1, p <= PEND)),
                ("first", (c.S["first"] != 0) == first),
                ("previous byte", c.S["prev"] == z3.If(first, bv(-1, 32), sx(z3.Select(d, p - 1), 32))),
                ("members so far", z3.Select(a1, zx(C0)) == z3.If(CM(s, p, C0), z3.Select(a0, zx(C0)) | c.a["mask"], z3.Select(a0, zx(C0)))),
                ("rest", z3.And(*[z3.Select(a1, bv(k)) == z3.Select(a0, bv(k)) for k in (256, 257, 258)]))]

    def defs(c):
        s, p = c.a["in"].idx, c.S["in"].idx
        d = c.O.data(c.a["in"])
        x = C0
        ch, nx, pv = z3.Select(d, p), z3.Select(d, p + 1), z3.Select(d, p - 1)
        first = p == s + 1
        lit = lambda: CM(s, p + 1, x) == z3.Or(CM(s, p, x), x == ch)
        rng = z3.And(ch == ord("-"), z3.Not(first), pv >= 0, nx != 0, nx != ord("]"))
        stop = z3.Or(ch == 0, z3.And(ch == ord("]"), z3.Not(first)))
        lo, hi = z3.If(pv < nx, pv, nx), z3.If(pv < nx, nx, pv)
        return [z3.Not(CM(s, s + 1, x)),
                z3.Implies(stop, z3.And(CEND(s) == p, CLS(s, x) == CM(s, p, x))),
                z3.Implies(z3.And(z3.Not(stop), rng), CM(s, p + 2, x) == z3.Or(CM(s, p, x), z3.And(lo <= x, x <= hi))),
                z3.Implies(z3.And(z3.Not(stop), z3.Not(rng)), lit())]

    def inv_r(c):
        a0, a1 = c.E.data(c.a["result"]), c.S.data(c.a["result"])
        i, lo, hi = c.S["i"], c.S["lo"], c.S["hi"]
        ch = sx(C0, 32)
        return [("range", z3.And(i >= lo, i <= hi + 1, lo >= -128, hi <= 127, lo <= hi)),
                ("marked", z3.Select(a1, zx(C0)) == z3.If(z3.And(lo <= ch, ch < i), z3.Select(a0, zx(C0)) | c.a["mask"], z3.Select(a0, zx(C0)))),
                ("rest", z3.And(*[z3.Select(a1, bv(k)) == z3.Select(a0, bv(k)) for k in (256, 257, 258)]))]
    loops = {0: LoopSpec(inv=inv, assume=defs), 1: LoopSpec(inv=inv_r)}


from vc.ir import VoidTy
VOID = VoidTy()


class MakeGlob(Contract):
    name, file = "make_globber", "glob"
    pn = "wildstring"
    heap_esize = 4
    timeout = 40.0

    def setup(self, c):
        return dict(wildstring=c.m.new_arr(c.st, "wild", fresh("n", 64), nul=PEND, ro=True))

    def requires(self, c):
        p = c.a["wildstring"]
        return [("terminated", text(c, p, PEND)), ("at most 31 elements (longer patterns are a recorded finding)", z3.BoolVal(True))]

    def g(self, c):
        return bv(7)

    def ensures(self, c):
        if not isinstance(c.ret, Ptr) or c.ret.obj is None:
            return [("a globber", z3.BoolVal(False))]
        a = c.S.data(c.ret)
        G = self.g(c)
        n = NEL(G)
        return [("element j admits byte x exactly when bit j of its row is set", z3.And(*[bit(z3.Select(a, zx(C0)), j) == z3.And(bv(j) < n, ELEM(G, bv(j), C0)) for j in range(NW)])),
                ("stars", z3.And(*[bit(z3.Select(a, bv(256)), j) == STAR(G, bv(j)) for j in range(NW)])),
                ("double stars", z3.And(*[bit(z3.Select(a, bv(257)), j) == TWO(G, bv(j)) for j in range(NW)])),
                ("hit is the position after the last element", z3.Select(a, bv(258)) == bv(1, 32) << z3.Extract(31, 0, n))]

    def inv(self, c):
        p = c.S["p"].idx
        a = c.S.data(c.S["result"])
        n = c.S["n"]
        G = self.g(c)
        return [("position", z3.And(p >= c.a["wildstring"].idx, p <= PEND, n >= 0, sx(n) == PN(p), PN(p) <= 31)),
                ("elements", z3.And(*[bit(z3.Select(a, zx(C0)), j) == z3.And(bv(j) < PN(p), ELEM(G, bv(j), C0)) for j in range(NW)])),
                ("stars", z3.And(*[bit(z3.Select(a, bv(256)), j) == STP(p, bv(j)) for j in range(NW)])),
                ("double stars", z3.And(*[bit(z3.Select(a, bv(257)), j) == TWP(p, bv(j)) for j in range(NW)]))]

    def defs(self, c):
        p = c.S["p"].idx
        d = c.O.data(c.a["wildstring"])
        G = self.g(c)
        ch, nx = z3.Select(d, p), z3.Select(d, p + 1)
        s0 = c.a["wildstring"].idx
        n = PN(p)
        J = [bv(j) for j in range(NW)]
        two = z3.And(ch == ord("*"), nx == ord("*"))
        one = z3.And(ch == ord("*"), nx != ord("*"))
        keep = lambda q: z3.And(*[z3.And(STP(q, j) == STP(p, j), TWP(q, j) == TWP(p, j)) for j in J])
        after = z3.If(z3.Select(d, CEND(p)) == 0, CEND(p), CEND(p) + 1)
        el = lambda q: z3.And(PN(q) == n + 1, keep(q))
        return [PN(s0) == 0, *[z3.And(z3.Not(STP(s0, j)), z3.Not(TWP(s0, j))) for j in J],
                z3.And(PN(p) >= 0, PN(p) <= 31), z3.And(PN(p + 1) <= 31, PN(p + 2) <= 31, PN(after) <= 31),
                z3.Implies(ch == 0, z3.And(NEL(G) == n, *[z3.And(STAR(G, j) == STP(p, j), TWO(G, j) == TWP(p, j)) for j in J])),
                z3.Implies(two, z3.And(PN(p + 2) == n, *[z3.And(STP(p + 2, j) == STP(p, j), TWP(p + 2, j) == z3.Or(TWP(p, j), j == n)) for j in J])),
                z3.Implies(one, z3.And(PN(p + 1) == n, *[z3.And(TWP(p + 1, j) == TWP(p, j), STP(p + 1, j) == z3.Or(STP(p, j), j == n)) for j in J])),
                z3.Implies(ch == ord("?"), z3.And(el(p + 1), ELEM(G, n, C0))),
                z3.Implies(ch == ord("["), z3.And(el(after), ELEM(G, n, C0) == CLS(p, C0))),
                z3.Implies(z3.And(ch != 0, ch != ord("*"), ch != ord("?"), ch != ord("[")), z3.And(el(p + 1), ELEM(G, n, C0) == (C0 == ch)))]

    def inv_q(self, c):
        r = c.S["result"]
        a0, a1 = c.E.data(r), c.S.data(r)
        i = c.S["i"]
        return [("range", z3.And(i >= 0, i <= 256)),
                ("marked", z3.Select(a1, zx(C0)) == z3.If(zx(C0, 32) < i, z3.Select(a0, zx(C0)) | c.S["mask"], z3.Select(a0, zx(C0)))),
                ("rest", z3.And(*[z3.Select(a1, bv(k)) == z3.Select(a0, bv(k)) for k in (256, 257, 258)]))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs), 1: LoopSpec(inv=self.inv_q)}


def family(c, name="globbers"):
    k = c.m.new_fam(c.st, name, {0: 32}, elem="arr", esize=4)
    return k


def good(c, g, view):
    """the globber holds the pattern it was made from (established by make_globber)"""
    G = g.fid
    a = view.data(g)
    x = z3.BitVec("x!good", 8)
    n = NEL(G)
    return [("globber of a pattern", z3.And(view.count(g) == 259, g.idx == 0, n >= 0, n <= 31, z3.Select(a, bv(258)) == bv(1, 32) << z3.Extract(31, 0, n),
                                            *[z3.And(bit(z3.Select(a, bv(256)), j) == STAR(G, bv(j)), bit(z3.Select(a, bv(257)), j) == TWO(G, bv(j))) for j in range(NW)])),
            ("rows", z3.ForAll([x], z3.And(*[bit(z3.Select(a, zx(x)), j) == z3.And(bv(j) < n, ELEM(G, bv(j), x)) for j in range(NW)]), patterns=[z3.Select(a, zx(x))]))]


def rows_at(c, g, view, x):
    G = g.fid
    a = view.data(g)
    return z3.And(*[bit(z3.Select(a, zx(x)), j) == z3.And(bv(j) < NEL(G), ELEM(G, bv(j), x)) for j in range(NW)])


class GlobMatch(Contract):
    name, file = "is_glob_match", "glob"
    pn = "g s"
    SEND = z3.BitVec("StringEnd", 64)

    def setup(self, c):
        k = family(c)
        return dict(g=Ptr(k, bv(0), 0, fresh("gid", 64)), s=c.m.new_arr(c.st, "s", fresh("sn", 64), nul=self.SEND, ro=True))

    def requires(self, c):
        s = c.a["s"]
        return [("string", text(c, s, self.SEND))] + good(c, c.a["g"], c.S)[:1 if self.proving else 2]

    def ensures(self, c):
        return [("matches exactly when the pattern matches the whole string", (c.ret != 0) == MATCH(c.a["g"].fid)), ("0 or 1", z3.Or(c.ret == 0, c.ret == 1))]

    def inv(self, c):
        i = c.S["s"].idx - c.a["s"].idx
        G = c.a["g"].fid
        only = lambda b: (lambda syms: not (syms & {"R%d" % k for k in range(32) if k not in (b, b - 1)}))
        return [("position", z3.And(i >= 0, c.S["s"].idx <= self.SEND))] + [
            ("state bit %d" % b, bit(c.S["reg"], b) == R[b](G, i), only(b)) for b in range(32)]

    def defs(self, c):
        g = c.a["g"]
        G = g.fid
        i = c.S["s"].idx - c.a["s"].idx
        t = z3.Select(c.O.data(c.a["s"]), c.S["s"].idx)
        r = [rows_at(c, g, c.O, t)]
        for b in range(32):
            r.append(R[b](G, bv(0)) == z3.BoolVal(b == 0))
            st = z3.And(R[b](G, i), z3.Or(TWO(G, bv(b)), z3.And(STAR(G, bv(b)), t != ord("/"))))
            r.append(R[b](G, i + 1) == (z3.Or(z3.And(R[b - 1](G, i), bv(b - 1) < NEL(G), ELEM(G, bv(b - 1), t)), st) if b else st))
        # the definition of a match: all elements used at the end of the string
        r.append(z3.Implies(t == 0, MATCH(G) == z3.Or(*[z3.And(NEL(G) == b, R[b](G, i)) for b in range(32)])))
        return r

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


class ArrayMatch(Contract):
    """some pattern of the list matches; no list matches nothing"""
    name, file = "is_globber_array_match", "glob"
    pn = "ga s"

    def setup(self, c):
        m = c.m
        k = family(c)
        enc = PtrField(lambda m, st, v, p: [(None, Ptr(k, bv(0), 0, v))], None)
        out = []
        for null in (True, False):
            st = c.st.copy()
            s = m.new_arr(st, "s", fresh("sn", 64), nul=GlobMatch.SEND, ro=True)
            if null:
                out.append((st, dict(ga=NULL, s=s)))
                continue
            ga = m.new_cells(st, "ga", 16)
            n = fresh("n", 32)
            st.assume(n >= 0)
            m.poke(st, ga, n, 32)
            gl = m.new_arr(st, "globs", sx(n), esize=8, fields={0: (enc, None)}, ro=True)
            m.poke(st, ga.at(8), gl, "p")
            out.append((st, dict(ga=ga, s=s)))
        return out

    def requires(self, c):
        return [("string", text(c, c.a["s"], GlobMatch.SEND))] if self.proving else [("not used at call sites", z3.BoolVal(False))]

    usable = False

    def ids(self, c):
        return c.O.data(c.O.ld(c.a["ga"].at(8), "p"))

    def ensures(self, c):
        if c.a["ga"].null:
            return [("no list matches nothing", c.ret == 0)]
        n = c.O.ld(c.a["ga"], 32)
        k = z3.BitVec("k!am", 64)
        a = self.ids(c)
        w = sx(View(c.m, c.st, c.fr)["i"])
        return [("1 only if a pattern matches", z3.Implies(c.ret != 0, z3.And(c.ret == 1, w >= 0, w < sx(n), MATCH(z3.Select(a, w))))),
                ("0 only if none does", z3.Implies(c.ret == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(n)), z3.Not(MATCH(z3.Select(a, k)))), patterns=[z3.Select(a, k)])))]

    def inv(self, c):
        i = sx(c.S["i"])
        a = self.ids(c)
        k = z3.BitVec("k!ai", 64)
        return [("index", z3.And(i >= 0, i <= sx(c.O.ld(c.a["ga"], 32)))),
                ("none so far", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.Not(MATCH(z3.Select(a, k)))), patterns=[z3.Select(a, k)]))]

    def defs(self, c):
        # every globber of the list was made by make_globber
        a = self.ids(c)
        i = sx(c.S["i"])
        g = Ptr([k for k, o in c.st.mem.items() if o.name == "globbers"][0], bv(0), 0, z3.Select(a, i))
        return [f for _, f in good(c, g, c.O)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


class CopyName(Contract):
    """copy_folder_name: the text between start and end (or to the end of the string), each "\\:" replaced by ":"."""
    name, file = "copy_folder_name", "glob"
    pn = "start end"
    OUT = z3.Function("OutPos", BV64, BV64)      # bytes written for the text before position q

    def setup(self, c):
        m = c.m
        out = []
        for toend in (True, False):
            st = c.st.copy()
            w = m.new_arr(st, "text", fresh("n", 64), nul=PEND, ro=True)
            s = w.add(fresh("start", 64))
            e = NULL if toend else w.add(fresh("end", 64))
            out.append((st, dict(start=s, end=e)))
        return out

    def e(self, c):
        return PEND if c.a["end"].null else c.a["end"].idx

    def requires(self, c):
        s = c.a["start"]
        k = z3.BitVec("k!cn", 64)
        d = c.S.data(s)
        return [("text", text(c, s, PEND)), ("end", z3.And(self.e(c) >= s.idx, self.e(c) <= PEND, PEND - s.idx < (1 << 31) - 8)),
                ("no NUL before the end", z3.ForAll([k], z3.Implies(z3.And(k >= s.idx, k < PEND), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]

    def drop(self, d, q):
        return z3.And(z3.Select(d, q) == ord("\\"), z3.Select(d, q + 1) == ord(":"))

    def ensures(self, c):
        d = c.O.data(c.a["start"])
        if not isinstance(c.ret, Ptr) or c.ret.obj is None:
            return [("a string", z3.BoolVal(False))]
        r = c.S.data(c.ret)
        q = z3.BitVec("q!ce", 64)
        s, e = c.a["start"].idx, self.e(c)
        return [("terminated where the copied text ends", z3.And(c.ret.idx == 0, z3.Select(r, self.OUT(e)) == 0, self.OUT(e) < c.S.count(c.ret))),
                ("every byte not dropped is copied in order", z3.ForAll([q], z3.Implies(z3.And(q >= s, q < e, z3.Not(self.drop(d, q))), z3.Select(r, self.OUT(q)) == z3.Select(d, q)), patterns=[self.OUT(q)]))]

    def inv(self, c):
        d = c.O.data(c.a["start"])
        s, e = c.a["start"].idx, self.e(c)
        p, q = c.S["p"].idx, c.S["q"].idx
        r = c.S.data(c.S["result"])
        k = z3.BitVec("k!ci", 64)
        return [("position", z3.And(q >= s, q <= e, p == self.OUT(q), p >= 0, p <= q - s)),
                ("copied so far", z3.ForAll([k], z3.Implies(z3.And(k >= s, k < q), z3.And(self.OUT(k) >= 0, self.OUT(k) <= p, z3.Implies(z3.Not(self.drop(d, k)), z3.And(self.OUT(k) < p, z3.Select(r, self.OUT(k)) == z3.Select(d, k))))), patterns=[self.OUT(k)]))]

    def defs(self, c):
        d = c.O.data(c.a["start"])
        s, q = c.a["start"].idx, c.S["q"].idx
        return [self.OUT(s) == 0, self.OUT(q + 1) == z3.If(self.drop(d, q), self.OUT(q), self.OUT(q) + 1)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


CONTRACTS = [CharClass, MakeGlob, GlobMatch, ArrayMatch, CopyName]
