"""search.c substring and word matching against the edit-distance definition.

Ghost pattern: length PLEN and bytes P[0..30]; ghost edit distances D_j(start,i) =
edit distance between the first j pattern bytes and the best substring of the token at
`start` that ends after i token bytes (D_0 = 0).  DA_j is the same for a match that must
begin at the start of the token, without errors.  Their defining recurrence is
instantiated at the position the code is looking at."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract, Lemma
from vc.ir import Unsupported
from contracts import postings

W = 31
B8 = z3.BitVecSort(8)
PLEN = z3.BitVec("PLEN", 64)
P = [z3.BitVec("P%d" % j, 8) for j in range(W)]
# MU[j](e, s, i): the first j pattern bytes match, with at most e errors, some substring of token s ending after i bytes
MU = [z3.Function("M%d" % j, BV64, BV64, BV64, z3.BoolSort()) for j in range(W + 1)]
MA = [z3.Function("MA%d" % j, BV64, BV64, BV64, z3.BoolSort()) for j in range(W + 1)]
HIT = z3.Function("Hit", BV64, z3.BitVecSort(32), BV64, BV64, z3.BoolSort())       # (errors, anchored, start, i)
FZ = z3.Function("Match", BV64, z3.BitVecSort(32), BV64, z3.BoolSort())            # (errors, anchored, start)
WIT = z3.Function("MatchEnd", BV64, z3.BitVecSort(32), BV64, BV64)
TLEN = z3.Function("TokLen", BV64, BV64)                                       # strlen of the token at start


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def pat_ok():
    return z3.And(PLEN >= 1, PLEN <= W)


def vector_ok(a):
    """a[c] has bit j clear exactly where pattern byte j is c"""
    c = z3.BitVec("c!vec", 8)
    row = z3.Select(a, zx(c))
    body = [(z3.Extract(j, j, row) == 0) == z3.And(bv(j) < PLEN, P[j] == c) for j in range(W)]
    return z3.ForAll([c], z3.And(*body), patterns=[z3.Select(a, zx(c))])


def vector_at(a, t):
    row = z3.Select(a, zx(t))
    return z3.And(*[(z3.Extract(j, j, row) == 0) == z3.And(bv(j) < PLEN, P[j] == t) for j in range(W)])


ALLD = [{"M%d" % j, "MA%d" % j} for j in range(W + 1)]


def only(j):
    """hypotheses about pattern prefix lengths j-1 and j only"""
    bad = set().union(*[ALLD[k] | {"P%d" % (k - 1)} for k in range(1, W + 1) if k not in (j, j - 1)])
    return lambda syms: not (syms & bad)


def Mval(j, anch, e, s, i):
    if j == 0:
        return z3.Or(z3.Not(anch), i == 0)
    return z3.If(anch, MA[j](e, s, i), MU[j](e, s, i))


def d_init(s, es):
    """before any token byte, a prefix of length j costs j deletions"""
    return [z3.And(MU[j](e, s, bv(0)) == (bv(j) <= e), MA[j](e, s, bv(0)) == (bv(j) <= e)) for j in range(1, W + 1) for e in es]


def d_step(s, i, t, es, anchored=False):
    """defining recurrence of M at (e, i+1): same byte, or one error less and a substitution, deletion or insertion"""
    r = []
    for F, anch in ((MU, z3.BoolVal(False)), (MA, z3.BoolVal(True)))[:2 if anchored else 1]:
        for j in range(1, W + 1):
            f = (lambda e, k: Mval(0, anch, e, s, k)) if j == 1 else (lambda e, k, F=F, j=j: F[j - 1](e, s, k))
            same = z3.And(bv(j - 1) < PLEN, P[j - 1] == t)
            for e in es:
                r.append(simp(F[j](e, s, i + 1) == z3.Or(z3.And(same, f(e, i)),
                                                         z3.And(e >= 1, z3.Or(f(e - 1, i), f(e - 1, i + 1), F[j](e - 1, s, i))))))
                if not z3.is_bv_value(e) or e.as_long() >= 1:
                    # instance of lemma fuzzy-match-monotone
                    r.append(z3.Implies(z3.And(e >= 1, F[j](e - 1, s, i + 1)), F[j](e, s, i + 1)))
    return r


def DL(anch, e, s, i):
    r = Mval(W, anch, e, s, i)
    for j in range(1, W):
        r = z3.If(PLEN == j, Mval(j, anch, e, s, i), r)
    return r


def hit_def(d, anch, s, i):
    return HIT(d, anch, s, i) == DL(anch != 0, d, s, i)


def fz_def(d, anch, s):
    """Match <=> some end position hits; no end position hits otherwise"""
    i = z3.BitVec("i!fz", 64)
    w = WIT(d, anch, s)
    return z3.And(z3.Implies(FZ(d, anch, s), z3.And(w >= 1, w <= TLEN(s), HIT(d, anch, s, w))),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 1, i <= TLEN(s), HIT(d, anch, s, i)), FZ(d, anch, s)), patterns=[HIT(d, anch, s, i)]))


def tok_ok(data, s, cnt):
    k = z3.BitVec("k!tok", 64)
    n = TLEN(s)
    return z3.And(s >= 0, s < cnt, n >= 0, n < cnt - s, z3.Select(data, s + n) == 0,
                  z3.ForAll([k], z3.Implies(z3.And(k >= s, k < s + n), z3.Select(data, k) != 0), patterns=[z3.Select(data, k)]))


class BuildVector(Contract):
    name, file = "build_match_vector", "search"
    pn = "substring a hit"

    def setup(self, c):
        n = fresh("n", 64)
        s = c.m.new_arr(c.st, "substring", n, nul=PLEN)
        a = c.m.new_arr(c.st, "a", 256, esize=8)
        h = c.m.new_cells(c.st, "hit", 8)
        return dict(substring=s, a=a, hit=h)

    def requires(self, c):
        s = c.a["substring"]
        d = c.S.data(s)
        k = z3.BitVec("k!bv", 64)
        return [("pattern is the string", z3.And(PLEN >= 0, PLEN < (1 << 31), PLEN < c.S.count(s) - s.idx, s.idx >= 0, z3.Select(d, s.idx + PLEN) == 0,
                                                 *[z3.Implies(bv(j) < PLEN, z3.Select(d, s.idx + j) == P[j]) for j in range(W)])),
                ("no earlier NUL", z3.ForAll([k], z3.Implies(z3.And(k >= s.idx, k < s.idx + PLEN), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]

    def assigns(self, c):
        return [("obj", c.a["a"], 8), ("cell", c.a["hit"], 8)]

    def ensures(self, c):
        a, h = c.S.data(c.a["a"]), c.S.ld(c.a["hit"], 64)
        return [("returns only for patterns of 1 to 31 characters", pat_ok()),
                ("bit j of a[c] is clear exactly when pattern[j] is c", vector_ok(a)),
                ("hit selects the last pattern position", h == ~(bv(1) << (PLEN - 1)))]

    def _inv(c):
        s = c.a["substring"]
        i, p = c.S["i"], c.S["p"]
        d, a = c.S.data(s), c.S.data(c.a["a"])
        ch = z3.BitVec("c!bvi", 8)
        row = z3.Select(a, zx(ch))
        body = [(z3.Extract(j, j, row) == 0) == z3.And(bv(j, 32) < i, P[j] == ch) for j in range(W)]
        return [("position", z3.And(i >= 0, pat_ok(), sx(c.S["len"]) == PLEN, sx(i) <= PLEN, p.idx == s.idx + sx(i))),
                ("bits so far", z3.ForAll([ch], z3.And(*body), patterns=[z3.Select(a, zx(ch))]))]
    loops = {0: LoopSpec(inv=_inv)}


def match_setup(c):
    m, st = c.m, c.st
    n = fresh("dbn", 64)
    db = m.new_arr(st, "db", n, ro=True)
    tok = db.add(fresh("tok", 64))
    a = m.new_arr(st, "a", 256, esize=8)
    return dict(a=a, hit=fresh("hit", 64), left_anchor=fresh("left_anchor", 32), token=tok)


class SubMatch(Contract):
    file = "search"
    pn = "a hit left_anchor token"
    D = 0

    def setup(self, c):
        return match_setup(c)

    def d(self, c):
        return bv(self.D)

    def anch(self, c):
        return c.a["left_anchor"] != 0

    def la(self, c):
        return c.a["left_anchor"]

    def applies(self, c):
        # with errors allowed, the left anchor is not specified
        return z3.BoolVal(True) if self.D == 0 else c.a["left_anchor"] == 0

    def requires(self, c):
        t = c.a["token"]
        a = c.S.data(c.a["a"])
        return [("pattern of 1 to 31 characters", pat_ok()),
                ("a is the pattern's bit vector table", vector_ok(a)),
                ("hit is the pattern's last position", c.a["hit"] == ~(bv(1) << (PLEN - 1))),
                ("token is a terminated string", tok_ok(c.S.data(t), t.idx, c.S.count(t)))]

    def ensures(self, c):
        return [("hit exactly when the pattern occurs with at most %s errors" % (self.D if self.D is not None else "max_errors"),
                 z3.Implies(self.applies(c), (c.ret != 0) == FZ(self.d(c), self.la(c), c.a["token"].idx))),
                ("returns 0 or 1", z3.Or(c.ret == 0, c.ret == 1))]

    def es(self, c):
        return [bv(e) for e in range(self.D + 1)]

    def rows(self, c):
        return [c.S["r%d" % d] for d in range(self.D + 1)]

    def position(self, c):
        t, p = c.a["token"], c.S["p"]
        return p.idx - t.idx

    def inv_common(self, c):
        t, p = c.a["token"], c.S["p"]
        s = t.idx
        i = p.idx - s
        anch = self.anch(c)
        k = z3.BitVec("k!sm", 64)
        d = self.d(c)
        return [("position", z3.And(i >= 0, i <= TLEN(s))),
                ("no hit so far", z3.And(c.S["got_hit"] == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 1, k <= i), z3.Implies(self.applies(c), z3.Not(HIT(d, self.la(c), s, k)))), patterns=[HIT(d, self.la(c), s, k)]))),
                ("anchor", z3.And(c.S["anchor1"] == z3.If(anch, bv(1), bv(0)), c.S["anchor"] == z3.If(z3.And(anch, i != 0), bv(1), bv(0))))]

    def inv(self, c):
        t, p = c.a["token"], c.S["p"]
        s = t.idx
        i = p.idx - s
        anch = self.anch(c)
        r = []
        rows = self.rows(c)
        for j in range(1, W + 1):
            r.append(("r bit %d is clear exactly when distance %d fits" % (j - 1, j),
                      z3.Implies(self.applies(c), z3.And(*[(z3.Extract(j - 1, j - 1, rows[e]) == 0) == Mval(j, anch, bv(e), s, i) for e in range(len(rows))])), only(j)))
        return r + self.inv_common(c)

    def defs(self, c):
        s = c.a["token"].idx
        i = self.position(c)
        t = z3.Select(c.S.data(c.a["token"]), s + i)
        return d_init(s, self.es(c)) + d_step(s, i, t, self.es(c), self.D == 0) + [hit_def(self.d(c), self.la(c), s, i + 1), fz_def(self.d(c), self.la(c), s),
                                              vector_at(c.O.data(c.a["a"]), t)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


class Sub0(SubMatch):
    name, D = "substring_match_0", 0


class Sub1(SubMatch):
    name, D = "substring_match_1", 1


class Sub2(SubMatch):
    name, D = "substring_match_2", 2


class Sub3(SubMatch):
    name, D = "substring_match_3", 3


class SubG(SubMatch):
    name, D = "substring_match_general", None
    pn = "a hit left_anchor token max_errors r nr"

    def setup(self, c):
        r = match_setup(c)
        me = r["max_errors"] = fresh("max_errors", 32)
        c.st.assume(me >= 0)
        r["r"] = c.m.new_arr(c.st, "r", sx(me) + 1, esize=8)
        r["nr"] = c.m.new_arr(c.st, "nr", sx(me) + 1, esize=8)
        return r

    def d(self, c):
        return sx(c.a["max_errors"])

    def requires(self, c):
        me = c.a["max_errors"]
        if c.a["r"].null or c.a["nr"].null:
            return [("work arrays allocated", z3.BoolVal(False))]
        for x in (c.a["r"], c.a["nr"]):
            if c.st.mem[x.obj].kind == "raw":
                c.m.retype(c.st, x.obj, 8, "bytes")
        return super().requires(c) + [("error count in range", z3.And(me >= 0, me < 0x7fffffff)),
                                      ("work arrays large enough", z3.And(c.a["r"].idx == 0, c.a["nr"].idx == 0, c.S.count(c.a["r"]) >= sx(me) + 1, c.S.count(c.a["nr"]) >= sx(me) + 1))]

    def assigns(self, c):
        return [("obj", c.a["r"], 8), ("obj", c.a["nr"], 8)]

    def applies(self, c):
        return c.a["left_anchor"] == 0

    def all_rows(self, c, arr, hi, s, i, nm):
        e = z3.BitVec("e!" + nm, 64)
        row = z3.Select(arr, e)
        return [("%s row bit %d" % (nm, j - 1), z3.Implies(self.applies(c), z3.ForAll([e], z3.Implies(z3.And(e >= 0, e <= hi), (z3.Extract(j - 1, j - 1, row) == 0) == MU[j](e, s, i)), patterns=[row])), only(j))
                for j in range(1, W + 1)]

    def inv_init(self, c):
        j, s = c.S["j"], c.a["token"].idx
        arr = c.S.data(c.a["r"])
        me = c.a["max_errors"]
        e = z3.BitVec("e!ii", 64)
        row = z3.Select(arr, e)
        body = z3.And(*[(z3.Extract(b - 1, b - 1, row) == 0) == (bv(b) <= e) for b in range(1, W + 1)])
        return [("range", z3.And(j >= 1, j <= me + 1, c.S["anchor"] == 0, c.S["anchor1"] == z3.If(self.anch(c), bv(1), bv(0)))),
                ("rows", z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < sx(j)), body), patterns=[row]))]

    def inv(self, c):
        s, i = c.a["token"].idx, self.position(c)
        return self.all_rows(c, c.S.data(c.a["r"]), self.d(c), s, i, "old") + self.inv_common(c)

    def inv_in(self, c):
        s, i = c.a["token"].idx, self.position(c)
        d = c.S["d"]
        me = c.a["max_errors"]
        no = z3.BoolVal(False)
        cb = lambda b: z3.Extract(b - 1, b - 1, c.S["compo"]) == 0
        t = z3.Select(c.S.data(c.a["token"]), s + i)
        return [("position", z3.And(i >= 0, i < TLEN(s), c.S["idx"] == zx(t, 32), d >= 1, d <= me + 1)),
                ] + self.all_rows(c, c.S.data(c.a["nr"]), sx(d) - 1, s, i + 1, "new") + [
                ("intersection bit %d" % (b - 1), z3.Implies(self.applies(c), cb(b) == MU[b](sx(d) - 1, s, i + 1)), only(b)) for b in range(1, W + 1)]

    def es(self, c):
        return [bv(0), sx(c.S["d"]) if c.S.has("d") else bv(0)]

    def defs_in(self, c):
        return self.defs(c)

    def defs0(self, c):
        e = z3.BitVec("e!di", 64)
        return [z3.ForAll([e], MU[j](e, c.a["token"].idx, bv(0)) == (bv(j) <= e), patterns=[MU[j](e, c.a["token"].idx, bv(0))]) for j in range(1, W + 1)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv_init, assume=self.defs0), 1: LoopSpec(inv=self.inv, assume=self.defs), 2: LoopSpec(inv=self.inv_in, assume=self.defs_in)}


class Monotone(Lemma):
    """a match with at most e-1 errors is a match with at most e errors: induction over the token position i and,
    inside, over the pattern position j, from the defining recurrence"""
    name = "fuzzy-match-monotone"

    def goals(self):
        B = z3.BoolSort()
        # M at (j, i), (j-1, i), (j-1, i+1) and (j, i+1) as functions of e; `same` = byte equality at (j, i)
        Mji, Mdi, Mdn, Mjn = [z3.Function(n, BV64, B) for n in ("M_j_i", "M_j1_i", "M_j1_n", "M_j_n")]
        same = z3.Bool("same")
        e, x, j = z3.BitVecs("e x j", 64)

        def mono(F):
            return z3.ForAll([x], z3.Implies(z3.And(x >= 1, F(x - 1)), F(x)), patterns=[F(x - 1)])

        def mono_at(F, k):
            return z3.Implies(z3.And(k >= 1, F(k - 1)), F(k))
        rec = lambda k: Mjn(k) == z3.Or(z3.And(same, Mdi(k)), z3.And(k >= 1, z3.Or(Mdi(k - 1), Mdn(k - 1), Mji(k - 1))))
        hyp = [e >= 1, rec(e), rec(e - 1)] + [mono_at(F, k) for F in (Mji, Mdi, Mdn) for k in (e, e - 1)]
        return [("row 0", [e >= 1, j >= 1], z3.Implies(j <= e - 1, j <= e)),
                ("column 0 is constant (always or never)", [z3.Bool("c")], z3.Implies(z3.Bool("c"), z3.Bool("c"))),
                ("row i+1 from row i and column j-1", hyp, z3.Implies(Mjn(e - 1), Mjn(e)))]


CONTRACTS = [BuildVector, Sub0, Sub1, Sub2, Sub3, SubG]
LEMMAS = [Monotone]
