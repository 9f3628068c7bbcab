"""search.c: size and flag conditions, result order"""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract
from contracts.rdb import *
from contracts.tables import marked

B = z3.BoolSort()
I32 = z3.BitVecSort(32)
# ---- sizes -------------------------------------------------------------------------------------------------------
SZ = z3.Function("SizeOf", BV64, BV64, I32)          # value of bytes [lo,hi) of the size expression
X0, XLEN, DASH = z3.BitVecs("X0 XLEN DASH", 64)      # first byte used, its length, position of the first '-' (or -1)
HS, HE = z3.Bools("HasLow HasHigh")
LO, HI = z3.BitVecs("Low High", 32)


def sscanf_ld(m, st, args, rty, line):
    """sscanf(x, "%ld%n", &v, &n): either fails, or gives some value and a position inside the string"""
    m.assumptions.add("libc:sscanf")
    from vc import libc
    f = libc.concrete_str(m, st, args[1])
    if f != b"%ld%n":
        raise NotImplementedError
    (st, ln), = libc._strlen(m, st, [args[0]], None, line)
    bad = st.copy()
    v, n = z3.BitVec("scanned", 64), z3.BitVec("used", 32)
    st.assume(sx(n) <= ln, n > 0)
    m._store(st, args[2], v, 64, line)
    m._store(st, args[3], n, 32, line)
    st.ghost["scan"] = (v, n)
    bad.ghost["scan"] = None
    r = fresh("sscanf", 32)
    bad.assume(r != 1)
    return [(st, bv(1, 32)), (bad, r)]


class ParseSize(Contract):
    name, file = "parse_size_expr", "search"
    pn = "x"
    externs = {"sscanf": sscanf_ld, "__isoc99_sscanf": sscanf_ld, "__isoc23_sscanf": sscanf_ld}

    def setup(self, c):
        x = c.m.new_arr(c.st, "x", fresh("xn", 64), nul=fresh("xl", 64))
        return dict(x=x)

    def requires(self, c):
        x = c.a["x"]
        o = c.st.mem[x.obj]
        k = z3.BitVec("k!ps", 64)
        if self.proving:
            return [("string", z3.And(x.idx == 0, o.nul >= 0, o.nul < o.count, z3.Select(c.S.data(x), o.nul) == 0)),
                    ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < o.nul), z3.Select(c.S.data(x), k) != 0), patterns=[z3.Select(c.S.data(x), k)]))]
        return []

    def ensures(self, c):
        x = c.a["x"]
        if not self.proving:
            return []
        s = c.g.get("scan")
        if s is None:
            return [("no number: no constraint", z3.BoolVal(True))]
        v, n = s
        ch = z3.Select(c.O.data(x), x.idx + sx(n))
        W = 96
        is_ = lambda a: z3.Or(ch == ord(a), ch == ord(a.upper()))
        sc = z3.If(is_("k"), bv(1024, W), z3.If(is_("m"), bv(1 << 20, W), bv(1, W)))
        val = z3.SignExt(W - 64, v) * sc
        r = z3.SignExt(W - 32, c.ret)
        big, small = bv((1 << 31) - 1, W), bv(-(1 << 31), W)
        return [("value times 1, 1024 or 1048576", z3.Implies(z3.And(val <= big, val >= small), r == val)),
                ("too large saturates", z3.Implies(val > big, r == big)), ("too small saturates", z3.Implies(val < small, r <= bv(-(1 << 31) + (1 << 20), W)))]

    def effect(self, c, st, rty):
        """at the call in parse_size_range: the string passed is one of the parts of the size expression"""
        x = c.a["x"]
        r = fresh("size", 32)
        e = c.m.cur_args["size_expr"]
        if x.obj == e.obj:
            st.assume(r == SZ(simp(x.idx), X0 + XLEN))
            return [(st, r)]
        d, s = c.O.data(x), c.O.data(e)
        k, q = z3.BitVecs("k!pe q!pe", 64)
        for lo, hi in ((X0, DASH), (DASH + 1, X0 + XLEN)):
            n = simp(hi - lo)
            st.assume(z3.Implies(z3.And(n >= 0, n < c.O.count(x) - x.idx, z3.Select(d, x.idx + n) == 0,
                                        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(d, x.idx + k) == z3.Select(s, lo + k)), patterns=[z3.Select(s, lo + k)])), r == SZ(lo, hi)))
        return [(st, r)]


class ParseRange(Contract):
    name, file = "parse_size_range", "search"
    pn = "size_expr has_start start has_end end"

    def setup(self, c):
        e = c.m.new_arr(c.st, "size_expr", fresh("en", 64), nul=X0 + XLEN)
        return dict(size_expr=e, **{n: c.m.new_cells(c.st, n, 4) for n in ("has_start", "start", "has_end", "end")})

    def requires(self, c):
        e = c.a["size_expr"]
        d = c.S.data(e)
        k = z3.BitVec("k!pr", 64)
        in_ = z3.And(k >= X0, k < X0 + XLEN)
        return [("string", z3.And(XLEN >= 0, XLEN < (1 << 30), e.idx >= 0, e.idx < (1 << 40), z3.Or(X0 == e.idx, X0 == e.idx + 1), X0 + XLEN < c.S.count(e), z3.Select(d, X0 + XLEN) == 0,
                                  (X0 == e.idx + 1) == (z3.Select(d, e.idx) == ord(":")))),
                ("no NUL inside", z3.ForAll([k], z3.Implies(in_, z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])),
                ("first dash", z3.And(z3.Or(DASH == -1, z3.And(DASH >= X0, DASH < X0 + XLEN, z3.Select(d, DASH) == ord("-"))),
                                      z3.ForAll([k], z3.Implies(z3.And(in_, z3.Or(DASH == -1, k < DASH)), z3.Select(d, k) != ord("-")), patterns=[z3.Select(d, k)]))),
                ("what the parts are called", z3.And(HS == z3.And(DASH != -1, DASH > X0), HE == z3.Or(DASH == -1, DASH + 1 < X0 + XLEN),
                                                     LO == SZ(X0, DASH), HI == z3.If(DASH == -1, SZ(e.idx, X0 + XLEN), SZ(DASH + 1, X0 + XLEN))))]

    def assigns(self, c):
        return [("cell", c.a[n], 4) for n in ("has_start", "start", "has_end", "end")]

    def ensures(self, c):
        g = lambda n: c.S.ld(c.a[n], 32)
        return [("a lower bound exactly when something precedes the dash", (g("has_start") != 0) == HS),
                ("an upper bound exactly when something follows it or there is no dash", (g("has_end") != 0) == HE),
                ("lower bound", z3.Implies(HS, g("start") == LO)), ("upper bound", z3.Implies(HE, g("end") == HI))]

    def _copy(src):
        def inv(c):
            e = c.a["size_expr"]
            p, q = c.S["p"], c.S["q"]
            lo = X0 if src == 0 else DASH + 1
            d = c.S.data(p)
            s = c.S.data(e)
            k = z3.BitVec("k!cp%d" % src, 64)
            hi = DASH if src == 0 else X0 + XLEN
            return [("position", z3.And(p.idx == q.idx - lo, q.idx >= lo, q.idx <= hi, c.S.count(p) == hi - lo + 1)),
                    ("copied so far", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p.idx), z3.Select(d, k) == z3.Select(s, lo + k)), patterns=[z3.Select(s, lo + k), z3.Select(d, k)]))]
        return inv
    loops = {0: LoopSpec(inv=_copy(0)), 1: LoopSpec(inv=_copy(1))}


class FindSize(Contract):
    name, file = "find_size_matches_in_table", "search"
    pn = "db size_expr hits"

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        e = c.m.new_arr(c.st, "size_expr", fresh("en", 64), nul=X0 + XLEN)
        return dict(db=db, size_expr=e, hits=c.m.new_arr(c.st, "hits", sx(n)))

    def requires(self, c):
        return ParseRange.requires(self, c)

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    SEL = z3.Function("SizeSelected", BV64, B)

    def sel(self, c, q):
        return self.SEL(q)

    def defs(self, c):
        """definition of SizeSelected, instantiated at the message the loop looks at"""
        i = sx(c.S["i"])
        return [self.SEL(i) == self.sel_def(c, i)]

    def sel_def(self, c, q):
        s = z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "size_table")), q)
        both = z3.And(HS, HE)
        lo = z3.If(z3.And(both, LO > HI), HI, LO)
        hi = z3.If(z3.And(both, LO > HI), LO, HI)
        return z3.And(z3.Implies(HS, z3.UGT(s, lo)), z3.Implies(HE, z3.ULT(s, hi)))

    # a negative bound cannot be written ("-" separates the two), so it is not constrained
    def ok(self, c):
        return z3.And(z3.Implies(HS, LO >= 0), z3.Implies(HE, HI >= 0))

    def ensures(self, c):
        h = c.a["hits"]
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        return [("exactly the messages larger than the low and smaller than the high bound are marked",
                 z3.Implies(self.ok(c), marked(c.O.data(h), c.S.data(h), n, lambda q: self.sel(c, q), "fs")))]

    def inv(self, c):
        h, i = c.a["hits"], c.S["i"]
        n = c.O.f(c.a["db"], "read_db", "n_msgs")
        hs, he, lo, hi = c.S["has_start"] != 0, c.S["has_end"] != 0, c.S["start"], c.S["end"]
        both = z3.And(HS, HE)
        return [("index", z3.And(i >= 0, i <= n)),
                ("bounds", z3.And(hs == HS, he == HE, z3.Implies(z3.And(HS, z3.Not(HE)), lo == LO), z3.Implies(z3.And(HE, z3.Not(HS)), hi == HI),
                                  z3.Implies(z3.And(both, LO > HI), z3.And(lo == HI, hi == LO)), z3.Implies(z3.And(both, LO <= HI), z3.And(lo == LO, hi == HI)))),
                ("marks so far", z3.Implies(self.ok(c), marked(c.O.data(h), c.S.data(h), sx(n), lambda q: z3.And(q < sx(i), self.sel(c, q)), "fi")))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


# ---- flags -------------------------------------------------------------------------------------------------------
# state of the flag expression after k characters: negate pending; wanted/unwanted for s, r, f
FN = z3.Function("Negate", BV64, B)
FW = {x: z3.Function("Want_" + x, BV64, B) for x in "srf"}
FU = {x: z3.Function("Unwanted_" + x, BV64, B) for x in "srf"}
ELEN = z3.BitVec("ELEN", 64)


class FindFlag(Contract):
    name, file = "find_flag_matches_in_table", "search"
    pn = "db flag_expr hits"
    BITS = {"s": 8, "r": 16, "f": 32}
    max_paths = 20000

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        e = c.m.new_arr(c.st, "flag_expr", fresh("en", 64), nul=ELEN)
        return dict(db=db, flag_expr=e, hits=c.m.new_arr(c.st, "hits", sx(n)))

    def requires(self, c):
        e = c.a["flag_expr"]
        d = c.S.data(e)
        k = z3.BitVec("k!ff", 64)
        return [("string", z3.And(ELEN >= 0, e.idx == 0, ELEN < c.S.count(e), z3.Select(d, ELEN) == 0)),
                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ELEN), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    SEL = z3.Function("FlagSelected", BV64, B)

    def sel(self, c, q):
        return self.SEL(q)

    def defs1(self, c):
        i = sx(c.S["i"])
        return [self.SEL(i) == self.sel_def(c, i)]

    def sel_def(self, c, q):
        f = z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "msg_type_and_flags")), q)
        r = []
        for x, b in self.BITS.items():
            on = (f & bv(b, 8)) != 0
            r += [z3.Implies(FW[x](ELEN), on), z3.Implies(FU[x](ELEN), z3.Not(on))]
        return z3.And(*r)

    def ensures(self, c):
        h = c.a["hits"]
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        return [("exactly the messages with all wanted and no unwanted flag are marked", marked(c.O.data(h), c.S.data(h), n, lambda q: self.sel(c, q), "fl"))]

    LOC = {"s": "seen", "r": "replied", "f": "flagged"}

    def inv0(self, c):
        k = c.S["p"].idx
        b = lambda v: z3.Or(v == 0, v == 1)
        r = [("position", z3.And(k >= 0, k <= ELEN, (c.S["negate"] != 0) == FN(k), b(c.S["negate"])))]
        for x, n in self.LOC.items():
            p, ng = c.S["pos_" + n], c.S["neg_" + n]
            r.append((n, z3.And((p != 0) == FW[x](k), (ng != 0) == FU[x](k))))
        return r

    def defs0(self, c):
        k = c.S["p"].idx
        ch = z3.Select(c.O.data(c.a["flag_expr"]), k)
        is_ = lambda x: z3.Or(ch == ord(x), ch == ord(x.upper()))
        r = [z3.Not(FN(bv(0)))] + [z3.Not(F[x](bv(0))) for F in (FW, FU) for x in "srf"]
        any_ = z3.Or(*[is_(x) for x in "srf"])
        # what a character does; an unknown character is reported and has no effect
        r.append(FN(k + 1) == z3.If(ch == ord("-"), True, z3.If(any_, False, FN(k))))
        for x in "srf":
            r.append(FW[x](k + 1) == z3.Or(FW[x](k), z3.And(is_(x), z3.Not(FN(k)))))
            r.append(FU[x](k + 1) == z3.Or(FU[x](k), z3.And(is_(x), FN(k))))
        return r

    def inv1(self, c):
        h, i = c.a["hits"], c.S["i"]
        n = c.O.f(c.a["db"], "read_db", "n_msgs")
        r = [("index", z3.And(i >= 0, i <= n))]
        for x, nm in self.LOC.items():
            r.append((nm, z3.And((c.S["pos_" + nm] != 0) == FW[x](ELEN), (c.S["neg_" + nm] != 0) == FU[x](ELEN))))
        r.append(("marks so far", marked(c.O.data(h), c.S.data(h), sx(n), lambda q: z3.And(q < sx(i), self.sel(c, q)), "f1")))
        return r

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv0, assume=self.defs0), 1: LoopSpec(inv=self.inv1, assume=self.defs1)}


class GetFlags(Contract):
    name, file = "get_flags_from_file", "search"
    pn = "db idx is_seen is_replied is_flagged"

    def setup(self, c):
        return dict(db=new_db(c), idx=fresh("idx", 32), **{n: c.m.new_cells(c.st, n, 4) for n in ("is_seen", "is_replied", "is_flagged")})

    def requires(self, c):
        return [("message exists", z3.And(c.a["idx"] >= 0, c.a["idx"] < c.S.f(c.a["db"], "read_db", "n_msgs")))]

    def assigns(self, c):
        return [("cell", c.a[n], 4) for n in ("is_seen", "is_replied", "is_flagged")]

    def ensures(self, c):
        f = z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "msg_type_and_flags")), sx(c.a["idx"]))
        return [(n, c.S.ld(c.a[n], 32) == z3.If((f & bv(b, 8)) != 0, bv(1, 32), bv(0, 32))) for n, b in (("is_seen", 8), ("is_replied", 16), ("is_flagged", 32))]


CONTRACTS = [ParseSize, ParseRange, FindSize, FindFlag, GetFlags]
SUPPORT = []


class DateCmp(Contract):
    name, file = "db_date_cmp", "search"
    pn = "va vb"

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        self.db = db
        self.ix = fresh("a", 32), fresh("b", 32)
        r = c.m.new_arr(c.st, "results", fresh("rn", 64), esize=4)
        g = c.m.global_ptr(c.st, c.m.program.modules["search"], "qsortdb")
        c.m.poke(c.st, g, db, "p")
        return dict(va=r.add(fresh("i", 64)), vb=r.add(fresh("j", 64)))

    def val(self, c, p):
        return z3.Select(c.O.data(c.a[p]), c.a[p].idx)

    def requires(self, c):
        n = c.S.f(self.db, "read_db", "n_msgs")
        r = []
        for p in ("va", "vb"):
            v = z3.Select(c.S.data(c.a[p]), c.a[p].idx)
            r.append((p, z3.And(c.a[p].idx >= 0, c.a[p].idx < c.S.count(c.a[p]), v >= 0, v < n)))
        return r

    def ensures(self, c):
        d = c.O.data(c.O.f(self.db, "read_db", "date_table"))
        a, b = [z3.Select(d, sx(self.val(c, p))) for p in ("va", "vb")]
        return [("negative exactly when the first is older", (c.ret < 0) == z3.ULT(a, b)), ("positive exactly when the first is newer", (c.ret > 0) == z3.UGT(a, b))]


CONTRACTS = [ParseSize, ParseRange, FindSize, FindFlag, GetFlags, DateCmp]
