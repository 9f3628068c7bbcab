"""dates.c: what period a date expression means"""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract
from vc.ir import Unsupported
from vc import libc
from contracts.rdb import *
from contracts.tables import marked

I32 = z3.BitVecSort(32)
YF = z3.Function("YearFix", I32, I32)
MN = z3.Function("MonthAt", BV64, I32)             # month name at a position of the expression: 1..12, 0 none
TYPE = z3.Function("DateType", BV64, BV64, I32)    # kind of the expression in [first,last)
NDIG = z3.Function("Digits", BV64, BV64, BV64)     # number of digits at the start of [first,last)
VAL = z3.Function("Value", BV64, BV64, I32)        # decimal value of n digits at a position
MK = z3.Function("mktime", *([I32] * 6 + [BV64]))  # y m d H M S
NOW = z3.BitVec("NOW", 64)
LT = {f: z3.Function("localtime_" + f, BV64, I32) for f in ("year", "mon", "mday")}
TYPES = ["DS_FAILURE", "DS_D", "DS_Y", "DS_YYMMDD", "DS_SCALED", "DS_M", "DS_DM", "DS_MD", "DS_YM", "DS_MY", "DS_YMD", "DS_DMY"]


def ds(c, n):
    return c.m.fields_db.get("__enum", {}).get(n, TYPES.index(n))


I = lambda v: bv(v, 32)
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def year_fix(y):
    """two-digit years are 1970..2069, anything larger is a full year"""
    return z3.If(y > 100, y - 1900, z3.If(y < 70, y + 100, y))


def last_day(mon, y):
    Y = y + 1900
    leap = z3.And(z3.SRem(Y, I(4)) == 0, z3.Or(z3.SRem(Y, I(100)) != 0, z3.SRem(Y, I(400)) == 0))
    r = I(31)
    for k, d in enumerate(DAYS):
        r = z3.If(mon == k, z3.If(leap, I(29), I(28)) if k == 1 else I(d), r)
    return r


class YearFix(Contract):
    name, file, pn = "year_fix", "dates", "y"

    def setup(self, c):
        return dict(y=fresh("y", 32))

    def requires(self, c):
        return [("from a date expression", z3.And(c.a["y"] >= 0, c.a["y"] < 100000000))]

    def ensures(self, c):
        # 100 itself is neither a two digit year nor one mail can be dated in
        return [("year", z3.Implies(c.a["y"] != 100, c.ret == year_fix(c.a["y"]))), ("range", z3.And(c.ret >= -1900, c.ret < 100000000))]


class LastDay(Contract):
    globals_init = {"last_day.days": "init"}     # a static table nothing else can name
    name, file, pn = "last_day", "dates", "mon y"

    def setup(self, c):
        return dict(mon=fresh("mon", 32), y=fresh("y", 32))

    def requires(self, c):
        return [("month", z3.And(c.a["mon"] >= 0, c.a["mon"] < 12)), ("year", z3.And(c.a["y"] >= -1900, c.a["y"] < 100000000))]

    def ensures(self, c):
        return [("Gregorian month length", z3.Implies(c.a["y"] >= 0, c.ret == last_day(c.a["mon"], c.a["y"])))]


def tm(c, name, st=None):
    p = c.m.new_cells(st or c.st, name, c.m.field("tm", "__size")[0])
    v = View(c.m, st or c.st)
    for f in ("sec", "min", "hour", "mday", "mon", "year", "wday", "yday", "isdst"):
        v.set(p, "tm", "tm_" + f, fresh(name + "." + f, 32))
    return p


def tmf(v, p, f):
    return v.f(p, "tm", "tm_" + f)


def tm_ok(v, p):
    y, m, d = [tmf(v, p, f) for f in ("year", "mon", "mday")]
    return z3.And(y > -1900, y < 1000000, m >= 0, m < 12, d >= 1, d <= 31)


class SetDay(Contract):
    name, file, pn = "set_day", "dates", "x y"

    def setup(self, c):
        return dict(x=tm(c, "x"), y=fresh("y", 32))

    def requires(self, c):
        return [("a date", tm_ok(c.S, c.a["x"]))]

    def assigns(self, c):
        return [("cell", c.a["x"].at(c.m.field("tm", "tm_" + f)[0]), 4) for f in ("year", "mon", "mday")]

    def ensures(self, c):
        y, m, d = spec_day([tmf(c.O, c.a["x"], f) for f in ("year", "mon", "mday")], c.a["y"])
        n = [tmf(c.S, c.a["x"], f) for f in ("year", "mon", "mday")]
        return [("most recent such day of the month", z3.And(n[0] == y, n[1] == m, n[2] == d))]


def spec_day(old, v):
    y, m, d = old
    prev = v > d
    return z3.If(z3.And(prev, m == 0), y - 1, y), z3.If(prev, z3.If(m == 0, I(11), m - 1), m), v


class IsLater(Contract):
    name, file, pn = "is_later_dm", "dates", "x m d"

    def setup(self, c):
        return dict(x=tm(c, "x"), m=fresh("m", 32), d=fresh("d", 32))

    def requires(self, c):
        return [("a date", tm_ok(c.S, c.a["x"])), ("month", z3.And(c.a["m"] >= 1, c.a["m"] <= 12))]

    def ensures(self, c):
        x = c.a["x"]
        return [("later in the year than x", (c.ret != 0) == later([tmf(c.O, x, f) for f in ("year", "mon", "mday")], c.a["m"], c.a["d"]))]


def later(old, m, d):
    return z3.Or(old[1] < m - 1, z3.And(old[1] == m - 1, old[2] < d))


MONTHS = "jan feb mar apr may jun jul aug sep oct nov dec".split()


def month_at(d, i):
    r = I(0)
    for k, n in reversed(list(enumerate(MONTHS))):
        eq = z3.And(*[z3.Or(z3.Select(d, i + j) == ord(ch), z3.Select(d, i + j) == ord(ch.upper())) for j, ch in enumerate(n)])
        r = z3.If(eq, I(k + 1), r)
    return r


class MatchMonth(Contract):
    name, file, pn = "match_month", "dates", "p"
    max_paths = 20000

    def setup(self, c):
        p = c.m.new_arr(c.st, "p", fresh("n", 64), nul=fresh("nul", 64))
        return dict(p=p)

    def requires(self, c):
        p = c.a["p"]
        return [("three characters", z3.And(p.idx >= 0, p.idx + 3 < c.S.count(p), *[z3.Select(c.S.data(p), p.idx + j) != 0 for j in range(3)]))]

    def ensures(self, c):
        p = c.a["p"]
        if not self.proving:
            return [("month", z3.And(c.ret == MN(p.idx), c.ret >= 0, c.ret <= 12))]     # MN(i) names month_at(expression, i)
        return [("month by its English abbreviation", c.ret == month_at(c.O.data(p), p.idx))]


RUN = z3.Function("ScannerState", BV64, BV64, I32)      # after k characters from a position; negative = no match
NEXT = z3.Function("datescan_next_state", I32, I32, I32)
TOK = z3.Array("datescan_char2tok", BV64, z3.BitVecSort(16))
ATTR = z3.Array("datescan_attr", BV64, I32)


def t_next(m, st, args, rty, line):
    m.assumptions.add("generated: datescan_next_state is a function of state and character class (its language: lemma date-kinds)")
    r = NEXT(args[0], args[1])
    return [(st, r)]


def _pin(term, w, n):
    def f(m, st, o):
        o.kind, o.count, o.esize, o.fields, o.cells, o.size = "arr", n, w // 8, {0: (w, term)}, None, None
    return f


class Discover(Contract):
    """which kind of date expression it is: the automaton's verdict on exactly the characters of [first,last)"""
    name, file, pn = "discover_type", "dates", "first last"
    externs = {"datescan_next_state": t_next}
    NST = z3.BitVec("ScannerStates", 64)
    globals_init = {"datescan_char2tok": _pin(TOK, 16, bv(256)), "datescan_attr": _pin(ATTR, 32, NST)}

    def setup(self, c):
        x = c.m.new_arr(c.st, "expr", fresh("n", 64))
        return dict(first=x.add(fresh("f", 64)), last=x.add(fresh("l", 64)))

    def fl(self, c):
        return c.a["first"].idx, c.a["last"].idx

    def requires(self, c):
        f, l = self.fl(c)
        return [("range", z3.And(f >= 0, l >= f, l <= c.S.count(c.a["first"])))]

    def ensures(self, c):
        f, l = self.fl(c)
        if not self.proving:
            return [("kind", z3.And(c.ret == TYPE(f, l), z3.Or(*[c.ret == ds(c, n) for n in TYPES])))]
        s = RUN(f, l - f)
        return [("the automaton's verdict", c.ret == z3.If(s < 0, I(ds(c, "DS_FAILURE")), z3.Select(ATTR, sx(s))))]

    def inv(self, c):
        f, l = self.fl(c)
        k = c.S["p"].idx - f
        return [("position", z3.And(k >= 0, k <= l - f, c.S["current_state"] == RUN(f, k), RUN(f, k) >= 0))]

    def defs(self, c):
        f, l = self.fl(c)
        k = c.S["p"].idx - f
        q = z3.BitVec("q!run", 64)
        s = RUN(f, k)
        n = NEXT(s, sx(z3.Select(TOK, zx(z3.Select(c.O.data(c.a["first"]), f + k))), 32))
        # the run of the automaton; it never leaves the failure state; its states index datescan_attr
        return [RUN(f, bv(0)) == 0, z3.Implies(s >= 0, RUN(f, k + 1) == n), sx(s) < self.NST, self.NST > 0, self.NST < (1 << 31),
                z3.Implies(z3.And(k >= 0, k < l - f, n < 0), RUN(f, l - f) < 0)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


def isdig(ch):
    return z3.And(z3.UGE(ch, ord("0")), z3.ULE(ch, ord("9")))


def t_time(m, st, args, rty, line):
    m.assumptions.add("libc:time")
    st.assume(NOW >= 0, NOW < (1 << 40))
    m._store(st, args[0], NOW, 64, line)
    return [(st, NOW)]


def t_localtime(m, st, args, rty, line):
    m.assumptions.add("libc:localtime")
    (st, t), = m._load(st, args[0], 64, line)
    p = m.new_cells(st, "localtime-result", m.field("tm", "__size")[0])
    v = View(m, st)
    for f in ("year", "mon", "mday"):
        v.set(p, "tm", "tm_" + f, LT[f](t))
    y, mo, d = [LT[f](t) for f in ("year", "mon", "mday")]
    st.assume(y > -1900, y < 1000000, mo >= 0, mo < 12, d >= 1, d <= 31)
    return [(st, p)]


CAL = z3.Function("RealDate", I32, I32, I32, z3.BoolSort())
# year, month, day scan_date_expr makes of [first,last) and a default date, for the start and the end of a period
DATE = {(e, x): z3.Function("Date_%s_%s" % (e, x), BV64, BV64, I32, I32, I32, I32) for e in ("start", "end") for x in ("year", "mon", "mday")}


def t_mktime(m, st, args, rty, line):
    m.assumptions.add("libc:mktime")
    v = View(m, st)
    g = lambda f: v.f(args[0], "tm", "tm_" + f)
    r = MK(g("year"), g("mon"), g("mday"), g("hour"), g("min"), g("sec"))
    lim = 1 << 55
    st.assume(r >= -lim, r <= lim)
    # mktime normalises its argument
    old = [g(f) for f in ("year", "mon", "mday")]
    ok = tm_ok(v, args[0])
    for f in ("sec", "min", "hour", "mday", "mon", "year", "wday", "yday", "isdst"):
        n = fresh("norm_" + f, 32)
        if f in ("mday", "mon", "year"):
            # a real calendar date stays what it is
            st.assume(z3.Implies(z3.And(ok, CAL(*old)), n == g(f)))
        v.set(args[0], "tm", "tm_" + f, n)
    st.ghost["mk:" + st.mem[args[0].obj].name] = tuple(v.f(args[0], "tm", "tm_" + f) for f in ("year", "mon", "mday", "hour", "min", "sec"))
    st.assume(tm_ok(v, args[0]))
    return [(st, r)]


EXT = {"time": t_time, "localtime": t_localtime, "mktime": t_mktime}


class ScanExpr(Contract):
    name, file, pn = "scan_date_expr", "dates", "first last start end"
    externs = EXT
    max_paths = 20000
    parts = 3

    def setup(self, c):
        m = c.m
        out = []
        for s, e in ((1, 1), (0, 1), (1, 0)):
            st = c.st.copy()
            x = m.new_arr(st, "expr", fresh("n", 64), nul=fresh("nul", 64))
            f, l = fresh("first", 64), fresh("last", 64)
            a = dict(first=Ptr(x.obj, f), last=Ptr(x.obj, l), start=NULL, end=NULL)
            if s:
                a["start"] = tm(c, "start", st)
            if e:
                a["end"] = tm(c, "end", st)
            out.append((st, a))
        return out

    def fl(self, c):
        return c.a["first"].idx, c.a["last"].idx

    def shape(self, c, v):
        """what each kind of expression looks like (lemma date-kinds over the generated automaton)"""
        f, l = self.fl(c)
        d = v.data(c.a["first"])
        t = TYPE(f, l)
        n1 = NDIG(f, l)
        p2 = f + n1
        n3 = NDIG(p2 + 3, l)
        ty = lambda *ns: z3.Or(*[t == ds(c, n) for n in ns])
        return [z3.And(n1 >= 0, n1 <= l - f),
                z3.Implies(ty("DS_SCALED"), z3.And(n1 >= 1, n1 == l - f - 1)),
                z3.Implies(ty("DS_D", "DS_Y", "DS_YYMMDD"), z3.And(n1 == l - f, n1 >= 1, n1 <= 8)),
                z3.Implies(ty("DS_D"), n1 <= 2), z3.Implies(ty("DS_Y"), z3.Or(n1 == 2, n1 == 4)), z3.Implies(ty("DS_YYMMDD"), n1 >= 6),
                z3.Implies(ty("DS_M", "DS_MD", "DS_MY"), n1 == 0),
                z3.Implies(ty("DS_M", "DS_DM", "DS_YM"), n3 == 0),
                z3.Implies(ty("DS_DM", "DS_DMY", "DS_YMD", "DS_YM"), z3.And(n1 >= 1, n1 <= 4)),
                z3.Implies(ty("DS_M", "DS_MD", "DS_MY", "DS_DM", "DS_DMY", "DS_YMD", "DS_YM"),
                           z3.And(n3 >= 0, n3 <= 4, p2 + 3 + n3 == l, *[z3.And(z3.Select(d, p2 + j) != 0, z3.Not(isdig(z3.Select(d, p2 + j)))) for j in range(3)]))]

    def requires(self, c):
        f, l = self.fl(c)
        d = c.S.data(c.a["first"])
        k = z3.BitVec("k!se", 64)
        r = [("range", z3.And(f >= 0, l >= f, l < c.S.count(c.a["first"]), l - f < (1 << 30), c.S.count(c.a["first"]) < (1 << 46)))]
        if self.proving:
            r += [("expression %d" % i, x) for i, x in enumerate(self.shape(c, c.S))]
        for n in ("start", "end"):
            if not c.a[n].null:
                r.append((n + " is a date", tm_ok(c.S, c.a[n])))
        return r

    ALLF = ("sec", "min", "hour", "mday", "mon", "year", "wday", "yday", "isdst")

    def assigns(self, c):
        if self.proving:
            return [("obj", c.a[n]) for n in ("start", "end") if not c.a[n].null]
        return [("cell", c.a[n].at(c.m.field("tm", "tm_" + f)[0]), 4) for n in ("start", "end") if not c.a[n].null for f in self.ALLF]

    def want(self, c, old, end, fl=None):
        f, l = fl or self.fl(c)
        t = TYPE(f, l)
        n1 = NDIG(f, l)
        p2 = f + n1
        v1, v3 = VAL(f, n1), VAL(p2 + 3, NDIG(p2 + 3, l))
        m2 = MN(p2)
        y, m, dd = old
        L = lambda mm, yy: last_day(mm, yy) if end else I(1)
        dm = lambda day: (z3.If(later(old, m2, day), y - 1, y), m2 - 1, day)
        ym = z3.If(m2 - 1 > m, y - 1, y)
        return {"DS_D": spec_day(old, v1),
                "DS_Y": (year_fix(v1), I(11 if end else 0), I(31 if end else 1)),
                "DS_YYMMDD": (year_fix(v1 / I(10000)), z3.SRem(v1 / I(100), I(100)) - 1, z3.SRem(v1, I(100))),
                "DS_M": (ym, m2 - 1, L(m2 - 1, ym)),
                "DS_DM": dm(v1), "DS_MD": dm(v3),
                "DS_DMY": (year_fix(v3), m2 - 1, v1), "DS_YMD": (year_fix(v1), m2 - 1, v3),
                "DS_MY": (year_fix(v3), m2 - 1, L(m2 - 1, year_fix(v3))), "DS_YM": (year_fix(v1), m2 - 1, L(m2 - 1, year_fix(v1)))}

    def ensures(self, c):
        f, l = self.fl(c)
        t = TYPE(f, l)
        r = []
        ok = c.ret == 0
        d = c.O.data(c.a["first"])
        n1 = NDIG(f, l)
        m2 = MN(f + n1)
        withm = ("DS_M", "DS_DM", "DS_MD", "DS_DMY", "DS_YMD", "DS_MY", "DS_YM")
        is_ = lambda n: t == ds(c, n)
        for e in ("start", "end"):
            if c.a[e].null:
                continue
            old = [tmf(c.O, c.a[e], x) for x in ("year", "mon", "mday")]
            new = [tmf(c.S, c.a[e], x) for x in ("year", "mon", "mday")]
            if not self.proving:
                r.append(("%s date" % e, z3.Implies(z3.And(ok, z3.Not(is_("DS_SCALED"))), z3.And(*[a == DATE[e, x](f, l, *old) for a, x in zip(new, ("year", "mon", "mday"))]))))
            for n, w in self.want(c, old, e == "end").items() if self.proving else ():
                yr = w[0] if n in ("DS_D", "DS_M", "DS_DM", "DS_MD") else None
                guard = z3.And(w[0] >= 0, z3.BoolVal(True) if yr is not None else self.y100(c, n))    # 1900 or later
                r.append(("%s of a %s expression" % (e, n[3:]), z3.Implies(z3.And(ok, is_(n), guard), z3.And(*[a == b for a, b in zip(new, w)]))))
            r.append(("time of day of %s kept" % e, z3.Implies(z3.And(ok, z3.Not(is_("DS_SCALED"))), z3.And(*[tmf(c.O, c.a[e], x) == tmf(c.S, c.a[e], x) for x in ("hour", "min", "sec")]))))
            v = SV(f, n1)
            unit = z3.Select(d, f + n1)
            for u, _ in UNITS:
                r.append(("%s of a relative expression in %s" % (e, u), z3.Implies(z3.And(ok, is_("DS_SCALED"), unit == ord(u)),
                                                                                  z3.And(*[new[i] == LT[x](NOW - AGO[u](f, n1)) for i, x in enumerate(("year", "mon", "mday"))]))))
        good = z3.And(t != ds(c, "DS_FAILURE"), z3.Implies(z3.Or(*[is_(n) for n in withm]), m2 != 0),
                      z3.Implies(is_("DS_SCALED"), z3.Or(*[z3.Select(d, f + n1) == ord(x) for x in "dwmy"])))
        r.append(("understood exactly when it is a date expression", ok == good))
        return r

    def y100(self, c, n, fl=None):
        f, l = fl or self.fl(c)
        n1 = NDIG(f, l)
        v1, v3 = VAL(f, n1), VAL(f + n1 + 3, NDIG(f + n1 + 3, l))
        y = {"DS_Y": v1, "DS_YYMMDD": v1 / I(10000), "DS_DMY": v3, "DS_MY": v3, "DS_YMD": v1, "DS_YM": v1}[n]
        return y != 100

    def digs(self, c, lo, p):
        """definition of Digits (the longest run of digits from lo), instantiated at p and at its end"""
        f, l = self.fl(c)
        d = c.O.data(c.a["first"])
        n = NDIG(lo, l)
        k = p - lo
        return [z3.Or(k == n, k < n, n < k), z3.Implies(z3.And(lo >= f, lo <= l), z3.And(n >= 0, n <= l - lo, z3.Implies(z3.And(p >= lo, p < lo + n), isdig(z3.Select(d, p))),
                                                            z3.Implies(n < l - lo, z3.Not(isdig(z3.Select(d, lo + n))))))]

    # loops: 0 scaled digits, 1 first number, 2 second number
    def inv0(self, c):
        f, l = self.fl(c)
        k = c.S["p"].idx - f
        return [("position", z3.And(k >= 0, k <= NDIG(f, l), c.S["v"] == SV(f, k), c.S["v"] >= 0, c.S["v"] <= 99999))]

    def defs0(self, c):
        f, l = self.fl(c)
        k = c.S["p"].idx - f
        dg = zx(z3.Select(c.O.data(c.a["first"]), f + k)) - ord("0")
        nx = SV(f, k) * 10 + dg
        # AGO[u](f, k) is SV(f, k) units of u in seconds; SV(f, k) is v here
        return [AGO[u](f, k) == c.S["v"] * bv(s) for u, s in UNITS] + self.digs(c, f, f + k) + [SV(f, bv(0)) == 0, SV(f, k + 1) == z3.If(nx > 99999, bv(99999), nx)]

    def num(self, c, lo, v):
        f, l = self.fl(c)
        k = c.S["p#1"].idx - lo
        n = NDIG(lo, l)
        cap = I(0)
        pw = 1
        bounds = []
        for i in range(9):
            bounds.append(z3.Implies(k == i, z3.And(v >= 0, v < pw)))
            pw *= 10
        return [("number", z3.And(k >= 0, k <= n, n <= 8, v == VAL(lo, k), *bounds))]

    def vdef(self, c, lo):
        k = c.S["p#1"].idx - lo
        dg = zx(z3.Select(c.O.data(c.a["first"]), lo + k), 32) - ord("0")
        return self.digs(c, lo, lo + k) + [VAL(lo, bv(0)) == 0, VAL(lo, k + 1) == VAL(lo, k) * 10 + dg]

    def inv1(self, c):
        return self.num(c, self.fl(c)[0], c.S["v1"]) + [("rest", z3.And(c.S["v3"] == 0, c.S["m2"] == 0))]

    def defs1(self, c):
        return self.vdef(c, self.fl(c)[0])

    def inv2(self, c):
        f, l = self.fl(c)
        n1 = NDIG(f, l)
        lo = f + n1 + 3
        only1 = n1 == l - f
        k = c.S["p#1"].idx
        d = c.O.data(c.a["first"])
        return [("first number", z3.And(c.S["v1"] == VAL(f, n1), n1 <= 8, *[z3.Implies(n1 == i, z3.And(c.S["v1"] >= 0, c.S["v1"] < 10 ** i)) for i in range(9)])),
                ("no month", z3.Implies(only1, z3.And(k == l, c.S["v3"] == 0, c.S["m2"] == 0))),
                ("month", z3.Implies(z3.Not(only1), z3.And(c.S["m2"] == MN(f + n1), c.S["m2"] != 0)))] + [
                (n, z3.Implies(z3.Not(only1), x)) for n, x in self.num(c, lo, c.S["v3"])]

    def defs2(self, c):
        f, l = self.fl(c)
        return self.vdef(c, f + NDIG(f, l) + 3)

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv0, assume=self.defs0), 1: LoopSpec(inv=self.inv1, assume=self.defs1), 2: LoopSpec(inv=self.inv2, assume=self.defs2)}


UNITS = (("d", 86400), ("w", 7 * 86400), ("m", 30 * 86400), ("y", 365 * 86400))
AGO = {u: z3.Function("Ago_" + u, BV64, BV64, BV64) for u, _ in UNITS}
SV = z3.Function("ScaledValue", BV64, BV64, BV64)

HY, SLEN = z3.BitVecs("Hyphen StrLen", 64)


class ScanString(Contract):
    """the period a date argument means; relative ends are covered through scan_date_expr only"""
    name, file, pn = "scan_date_string", "dates", "in start has_start end has_end"
    externs = EXT
    E = ScanExpr()

    def setup(self, c):
        x = c.m.new_arr(c.st, "in", fresh("n", 64), nul=SLEN)
        return {"in": x, "start": c.m.new_cells(c.st, "start", 8), "end": c.m.new_cells(c.st, "end", 8),
                "has_start": c.m.new_cells(c.st, "has_start", 4), "has_end": c.m.new_cells(c.st, "has_end", 4)}

    def requires(self, c):
        x = c.a["in"]
        if not self.proving:
            return []
        d = c.S.data(x)
        k = z3.BitVec("k!ss", 64)
        return [("string", z3.And(x.idx == 0, SLEN >= 0, SLEN < (1 << 30), SLEN < c.S.count(x), c.S.count(x) < (1 << 46), z3.Select(d, SLEN) == 0)),
                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < SLEN), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])),
                ("first hyphen", z3.And(z3.Or(HY == -1, z3.And(HY >= 0, HY < SLEN, z3.Select(d, HY) == ord("-"))),
                                        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < SLEN, z3.Or(HY == -1, k < HY)), z3.Select(d, k) != ord("-")), patterns=[z3.Select(d, k)])))]

    def assigns(self, c):
        return [("cell", c.a["start"], 8), ("cell", c.a["end"], 8), ("cell", c.a["has_start"], 4), ("cell", c.a["has_end"], 4)]

    def effect(self, c, st, rty):
        r = fresh("scan_date_string", 32)
        c.m.poke(st, c.a["start"], RS, 64)
        c.m.poke(st, c.a["end"], RE, 64)
        for n, x in (("has_start", RHS), ("has_end", RHE)):
            c.m.poke(st, c.a[n], fresh(n, 32), 32)
            st.assume((View(c.m, st).ld(c.a[n], 32) != 0) == x)
        return [(st, r)]

    def ensures(self, c):
        if not self.proving:
            return []       # effect() names the range it returns
        g = lambda n, w: c.S.ld(c.a[n], w)
        ok = c.ret == 0
        today = [LT[x](NOW) for x in ("year", "mon", "mday")]
        r = [("has a start", z3.Implies(ok, (g("has_start", 32) != 0) == z3.Or(HY == -1, HY > 0))),
             ("has an end", z3.Implies(ok, (g("has_end", 32) != 0) == z3.Or(HY == -1, HY + 1 < SLEN)))]
        z = bv(0)
        noon = [I(0)] * 3
        night = [I(23), I(59), I(59)]
        ended = c.g.get("mk:end_tm")
        cases = [("period", "start", HY == -1, (z, SLEN), today, noon, 1), ("period", "end", HY == -1, (z, SLEN), today, night, 0),
                 ("range", "end", z3.And(HY >= 0, HY + 1 < SLEN), (HY + 1, SLEN), today, night, 0),
                 ("open range", "start", z3.And(HY > 0, HY + 1 == SLEN), (z, HY), today, noon, 0)]
        if ended is not None:
            cases.append(("range", "start", z3.And(HY > 0, HY + 1 < SLEN), (z, HY), ended[:3], ended[3:], 0))
        for nm, e, cond, fl, old, tod, minus in cases:
            w = [DATE[e, x](fl[0], fl[1], *old) for x in ("year", "mon", "mday")]
            r.append(("%s of a %s" % (e, nm), z3.Implies(z3.And(ok, cond, TYPE(*fl) != ds(c, "DS_SCALED")), g(e, 64) == MK(*(w + list(tod))) - minus)))
        return r

    def inv(c):
        x = c.a["in"]
        p = c.S["nullchar"].idx
        return [("position", z3.And(p >= 0, p <= SLEN))]
    loops = {0: LoopSpec(inv=inv)}


RS, RE = z3.BitVecs("RangeStart RangeEnd", 64)
RHS, RHE = z3.Bools("HasStart HasEnd")


class FindDate(Contract):
    name, file, pn = "find_date_matches_in_table", "search", "db date_expr hits"
    SEL = z3.Function("DateSelected", BV64, z3.BoolSort())

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        return dict(db=db, date_expr=c.m.new_arr(c.st, "date_expr", fresh("en", 64)), hits=c.m.new_arr(c.st, "hits", sx(n)))

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    def defs(self, c):
        """definition of DateSelected at the message the loop looks at: after the start and before the end, the ends in either order"""
        i = sx(c.S["i"])
        d = zx(z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "date_table")), i))
        sw = z3.And(RHS, RHE, RS > RE)
        lo, hi = z3.If(sw, RE, RS), z3.If(sw, RS, RE)
        return [self.SEL(i) == z3.And(z3.Implies(RHS, d > lo), z3.Implies(RHE, d < hi))]

    def ensures(self, c):
        h = c.a["hits"]
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        return [("exactly the messages dated inside the range are marked", marked(c.O.data(h), c.S.data(h), n, lambda q: self.SEL(q), "fd"))]

    def inv(self, c):
        h, i = c.a["hits"], c.S["i"]
        n = c.O.f(c.a["db"], "read_db", "n_msgs")
        hs, he, lo, hi = c.S["has_start"] != 0, c.S["has_end"] != 0, c.S["start"], c.S["end"]
        both = z3.And(RHS, RHE)
        return [("index", z3.And(i >= 0, i <= n)),
                ("bounds", z3.And(hs == RHS, he == RHE, z3.Implies(z3.And(RHS, z3.Not(RHE)), lo == RS), z3.Implies(z3.And(RHE, z3.Not(RHS)), hi == RE),
                                  z3.Implies(z3.And(both, RS > RE), z3.And(lo == RE, hi == RS)), z3.Implies(z3.And(both, RS <= RE), z3.And(lo == RS, hi == RE)))),
                ("marks so far", marked(c.O.data(h), c.S.data(h), sx(n), lambda q: z3.And(q < sx(i), self.SEL(q)), "fi"))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


CONTRACTS = [Discover, YearFix, LastDay, SetDay, IsLater, MatchMonth, ScanExpr, ScanString, FindDate]
SUPPORT = []
