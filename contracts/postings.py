"""Posting lists: tok.c encoder and reader.c decoder against one byte-level
specification of the list format."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract, Lemma
from vc.ir import Unsupported

VMAX = 63 << 24        # the encoder's range: larger increments would collide with the 0xff terminator


def zx(b, w=64):
    return z3.ZeroExt(w - 8, b)


# ---- the format (specification) -------------------------------------------
def dlen(d, p):
    b = z3.Select(d, p)
    return z3.If(z3.ULT(b, 0x80), bv(1), z3.If(z3.ULT(b, 0xc0), bv(2), bv(4)))


def dval(d, p):
    """32-bit increment stored at p"""
    b0, b1, b2, b3 = [zx(z3.Select(d, p + k), 32) for k in range(4)]
    return z3.If(z3.ULT(b0, 0x80), b0,
                 z3.If(z3.ULT(b0, 0xc0), ((b0 & 0x7f) << 8) | b1,
                       ((b0 & 0x3f) << 24) | (b1 << 16) | (b2 << 8) | b3))


def readable(d, p, end):
    """a complete, non-terminator entry starts at p and ends at or before `end`"""
    return z3.And(p < end, z3.Select(d, p) != 0xff, p + dlen(d, p) <= end)


def same_outside(d0, d1, lo, hi, cnt):
    k = z3.BitVec("k!so", 64)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cnt, z3.Or(k < lo, k >= hi)), z3.Select(d1, k) == z3.Select(d0, k)),
                     patterns=[z3.Select(d1, k)])


def sx(v):
    return z3.SignExt(64 - v.size(), v)


class InsertValue(Contract):
    name, file = "insert_value", "tok"
    pn = "x val"

    def setup(self, c):
        n = fresh("size", 64)
        p = c.m.new_arr(c.st, "buf", n)
        return dict(x=p.add(fresh("off", 64)), val=fresh("val", 32))

    def requires(self, c):
        x, v = c.a["x"], c.a["val"]
        return [("value in range", z3.And(v >= 0, v < VMAX)),
                ("four bytes of room", z3.And(x.idx >= 0, x.idx <= c.S.count(x) - 4))]

    def assigns(self, c):
        return [("obj", c.a["x"])]

    def ensures(self, c):
        x, v = c.a["x"], c.a["val"]
        d0, d1 = c.O.data(x), c.S.data(x)
        i = x.idx
        return [("length written is the entry's length", sx(c.ret) == dlen(d1, i)),
                ("entry decodes to the value", dval(d1, i) == v),
                ("first byte is not the terminator", z3.Select(d1, i) != 0xff),
                ("other bytes unchanged", same_outside(d0, d1, i, i + sx(c.ret), c.S.count(x)))]


def matches_obj(c, name="m", null=False, st=None):
    m, st = c.m, st or c.st
    p = m.new_cells(st, name, 24)
    v = View(m, st)
    n, mx, hi = fresh("n", 32), fresh("max", 32), fresh("highest", 64)
    v.set(p, "matches", "n", n)
    v.set(p, "matches", "max", mx)
    v.set(p, "matches", "highest", hi)
    if null:
        v.set(p, "matches", "msginfo", NULL)
        st.assume(mx == 0)
    else:
        b = m.new_arr(st, "msginfo", sx(mx))
        v.set(p, "matches", "msginfo", b)
        st.assume(mx >= 16)
    return p


def rep(v, p):
    n, mx, hi = v.f(p, "matches", "n"), v.f(p, "matches", "max"), v.f(p, "matches", "highest")
    return [("0 <= n <= max", z3.And(n >= 0, n <= mx)),
            ("max below 2^29", mx < (1 << 29)),
            ("highest is a message number", z3.And(hi >= 0, hi < VMAX)),
            ]


class InsertIndex(Contract):
    """appending message number idx to a list whose last number is `highest`"""
    name, file = "insert_index_on_encoding", "tok"
    pn = "m idx"

    def setup(self, c):
        return dict(m=matches_obj(c), idx=fresh("idx", 32))

    def requires(self, c):
        p = c.a["m"]
        n, hi, idx = c.S.f(p, "matches", "n"), c.S.f(p, "matches", "highest"), c.a["idx"]
        b = c.S.f(p, "matches", "msginfo")
        if b.null:
            return [("buffer allocated", z3.BoolVal(False))]
        return rep(c.S, p) + [
            ("room for one entry", sx(n) + 4 <= c.S.count(b)),
            ("numbers arrive in order", z3.And(idx >= 0, idx < VMAX, z3.Implies(n != 0, sx(idx) >= hi)))]

    def assigns(self, c):
        p = c.a["m"]
        f = c.m.field
        return [("cell", p.at(f("matches", "n")[0]), 4), ("cell", p.at(f("matches", "highest")[0]), 8),
                ("obj", c.O.f(p, "matches", "msginfo"))]

    def ensures(self, c):
        p, idx = c.a["m"], c.a["idx"]
        n0, n1 = sx(c.O.f(p, "matches", "n")), sx(c.S.f(p, "matches", "n"))
        h0, h1 = c.O.f(p, "matches", "highest"), c.S.f(p, "matches", "highest")
        b = c.S.f(p, "matches", "msginfo")
        d0, d1 = c.O.data(b), c.S.data(b)
        base = z3.If(n0 == 0, bv(0), h0)
        new = z3.Or(n0 == 0, sx(idx) > h0)
        return [("an already present number adds nothing", z3.Implies(z3.Not(new), n1 == n0)),
                ("a new number appends exactly one entry", z3.Implies(new, n1 == n0 + dlen(d1, n0))),
                ("the entry holds the increment", z3.Implies(new, z3.And(sx(dval(d1, n0)) == sx(idx) - base, z3.Select(d1, n0) != 0xff))),
                ("highest is the number just added", h1 == sx(idx)),
                ("earlier entries untouched", same_outside(d0, d1, n0, n1, c.S.count(b))),
                ("still within the buffer", n1 <= c.S.count(b))]


class CheckEnlarge(Contract):
    """afterwards there is room for one more entry and the list is unchanged"""
    name, file = "check_and_enlarge_encoding", "tok"
    pn = "m"
    usable = False     # loop-free: callers inline it

    def setup(self, c):
        s2 = c.st.copy()
        import vc.engine as E
        c2 = E.Ctx()
        c2.m, c2.st = c.m, s2
        a1 = dict(m=matches_obj(c, null=False))
        a2 = dict(m=matches_obj(c2, null=True, st=s2))
        return [(c.st, a1), (s2, a2)]

    def requires(self, c):
        return rep(c.S, c.a["m"])

    def assigns(self, c):
        p = c.a["m"]
        b = c.O.f(p, "matches", "msginfo")
        f = c.m.field
        r = [("cell", p.at(f("matches", "max")[0]), 4), ("cell", p.at(f("matches", "msginfo")[0]), 8)]
        if not b.null:
            r.append(("any", b))
        return r

    def ensures(self, c):
        p = c.a["m"]
        n, mx = c.S.f(p, "matches", "n"), c.S.f(p, "matches", "max")
        b0, b1 = c.O.f(p, "matches", "msginfo"), c.S.f(p, "matches", "msginfo")
        if b1.null:
            return [("a buffer is allocated", z3.BoolVal(False))]
        o = c.st.mem[b1.obj]
        size = o.size if o.kind in ("raw", "cells") else o.count
        size = bv(size) if isinstance(size, int) else size
        r = [("room for one more entry", n + 4 <= mx),
             ("max is the size of the buffer", z3.And(sx(mx) <= size, b1.idx == 0)),
             ("max stays at least 16", mx >= 16)]
        if not b0.null:
            d0, d1 = c.O.data(b0), c.S.data(b1)
            k = z3.BitVec("k!ce", 64)
            r.append(("list bytes preserved", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(n)), z3.Select(d0, k) == z3.Select(d1, k)), patterns=[z3.Select(d1, k)])))
        return r


def ilr_obj(c, data=None):
    m, st = c.m, c.st
    sz = fresh("dbsize", 64)
    d = data or m.new_arr(st, "db", sz, ro=True)
    p = m.new_cells(st, "ilr", 24)
    v = View(m, st)
    v.set(p, "int_list_reader", "accumulator", fresh("acc", 32))
    v.set(p, "int_list_reader", "pos", d.add(fresh("pos", 64)))
    v.set(p, "int_list_reader", "end", d.add(fresh("end", 64)))
    return p


def ilr(v, p):
    return (v.f(p, "int_list_reader", "accumulator"), v.f(p, "int_list_reader", "pos"), v.f(p, "int_list_reader", "end"))


class ListRead(Contract):
    name, file = "int_list_reader_read", "reader"
    pn = "ilr result"

    def setup(self, c):
        r = c.m.new_cells(c.st, "result", 4)
        c.m.poke(c.st, r, fresh("res0", 32), 32)
        return dict(ilr=ilr_obj(c), result=r)

    def requires(self, c):
        acc, pos, end = ilr(c.S, c.a["ilr"])
        if pos.null or end.null:
            if pos.null and end.null:
                return [("empty list", z3.And(pos.idx == 0, end.idx == 0))]
            return [("same object", z3.BoolVal(False))]
        return [("pos >= 0", z3.And(pos.idx >= 0, pos.idx <= bv(1 << 48))), ("end inside the data", z3.And(end.idx >= 0, end.idx <= c.S.count(end)))]

    def assigns(self, c):
        f, p = c.m.field, c.a["ilr"]
        return [("cell", p.at(f("int_list_reader", "accumulator")[0]), 4), ("pidx", p.at(f("int_list_reader", "pos")[0])),
                ("cell", c.a["result"], 4)]

    def ensures(self, c):
        p = c.a["ilr"]
        a0, p0, e0 = ilr(c.O, p)
        a1, p1, e1 = ilr(c.S, p)
        if p0.null:
            return [("nothing to read", z3.And(c.ret == 0, a1 == a0))]
        d = c.O.data(p0)
        ok = readable(d, p0.idx, e0.idx)
        res = c.S.ld(c.a["result"], 32)
        return [("reads an entry exactly when a complete one is there", (c.ret != 0) == ok),
                ("returns 0 or 1", z3.Or(c.ret == 0, c.ret == 1)),
                ("yields the running sum", z3.Implies(c.ret != 0, z3.And(res == a0 + dval(d, p0.idx), a1 == res))),
                ("advances past exactly that entry", z3.Implies(c.ret != 0, p1.idx == p0.idx + dlen(d, p0.idx))),
                ("otherwise nothing changes", z3.Implies(c.ret == 0, z3.And(a1 == a0, p1.idx == p0.idx, res == (c.O.ld(c.a["result"], 32)))))]


_R = z3.Function("Reach", BV64, z3.BoolSort())
_A = z3.Function("Acc", BV64, z3.BitVecSort(32))


class ListCopy(Contract):
    """int_list_reader_copy: the copy holds exactly the entries up to the terminator"""
    name, file = "int_list_reader_copy", "reader"
    pn = "ilr out"

    def setup(self, c):
        out = c.m.new_cells(c.st, "out", 24)
        v = View(c.m, c.st)
        return dict(ilr=ilr_obj(c), out=out)

    def requires(self, c):
        acc, pos, end = ilr(c.S, c.a["ilr"])
        d = c.S.data(pos)
        return [("reader inside the data", z3.And(pos.idx >= 0, end.idx >= 0, end.idx <= c.S.count(end), pos.idx <= end.idx)),
                ("database below 2 GiB / 1.5", end.idx <= bv(0x50000000)),
                ("fresh reader", acc == 0),
                # definition of 'positions reached by reading entries one after another' and their running sums
                ("def-reach", z3.And(_R(pos.idx), _A(pos.idx) == acc))]

    def assigns(self, c):
        f, p, o = c.m.field, c.a["ilr"], c.a["out"]
        return [("cell", p, 24), ("cell", o, 24)]

    def ensures(self, c):
        p, out = c.a["ilr"], c.a["out"]
        a0, p0, e0 = ilr(c.O, p)
        a1, p1, e1 = ilr(c.S, p)
        d = c.O.data(p0)
        n, mx, hi, b = [c.S.f(out, "matches", x) for x in ("n", "max", "highest", "msginfo")]
        nd = c.S.data(b)
        k = z3.BitVec("k!lc", 64)
        return [("stops where no further entry can be read", z3.And(_R(p1.idx), z3.Not(readable(d, p1.idx, e0.idx)))),
                ("copied length", sx(n) == p1.idx - p0.idx),
                ("bytes copied", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(n)), z3.Select(nd, k) == z3.Select(d, p0.idx + k)), patterns=[z3.Select(nd, k)])),
                ("highest is the last number of the list", z3.Implies(n > 0, z3.Extract(31, 0, hi) == _A(p1.idx))),
                ("highest of an empty list is 0", z3.Implies(n == 0, hi == 0)),
                ("room", z3.And(mx >= 16, mx >= n, b.idx == 0, sx(mx) <= c.S.count(b)))]

    def _inv(c):
        a, pos, end = ilr(c.S, c.a["ilr"])
        a0, p0, e0 = ilr(c.O, c.a["ilr"])
        r = [("inside", z3.And(pos.idx >= p0.idx, pos.idx <= e0.idx, end.idx == e0.idx)),
             ("on an entry boundary", _R(pos.idx)),
             ("accumulated", _A(pos.idx) == a)]
        r.append(("last number", z3.If(pos.idx > p0.idx, c.S["index"] == a, c.S["index"] == 0)))
        return r

    def _def(c):
        # definition of the ghost functions, instantiated at the current position:
        # Reach = positions reached by reading entries one after another, Acc = running sums there
        a, pos, end = ilr(c.S, c.a["ilr"])
        q, d, e = pos.idx, c.S.data(pos), end.idx
        return [z3.Implies(z3.And(_R(q), readable(d, q, e)),
                           z3.And(_R(q + dlen(d, q)), _A(q + dlen(d, q)) == _A(q) + dval(d, q)))]
    loops = {0: LoopSpec(inv=_inv, assume=_def)}


class ReaderInit(Contract):
    name, file = "read_db_int_list_reader_init", "reader"
    pn = "ilr db start_offset"
    usable = False

    def setup(self, c):
        m, st = c.m, c.st
        db = m.new_cells(st, "db", m.field("read_db", "__size")[0])
        ln = fresh("len", 32)
        data = m.new_arr(st, "data", sx(ln), ro=True)
        st.assume(ln >= 0)
        v = View(m, st)
        v.set(db, "read_db", "data", data)
        v.set(db, "read_db", "len", ln)
        p = m.new_cells(st, "ilr", 24)
        return dict(ilr=p, db=db, start_offset=fresh("off", 32))

    def assigns(self, c):
        return [("cell", c.a["ilr"], 24)]

    def ensures(self, c):
        a, p, e = ilr(c.S, c.a["ilr"])
        data = c.O.f(c.a["db"], "read_db", "data")
        if p.obj != data.obj or e.obj != data.obj:
            return [("points into the database", z3.BoolVal(False))]
        return [("starts at the offset with sum 0", z3.And(a == 0, p.idx == z3.ZeroExt(32, c.a["start_offset"]))),
                ("ends at the end of the file", e.idx == sx(c.O.f(c.a["db"], "read_db", "len")))]


class MatchesInit(Contract):
    name, file = "matches_int_list_reader_init", "reader"
    pn = "ilr m"
    usable = False

    def setup(self, c):
        p = c.m.new_cells(c.st, "ilr", 24)
        return dict(ilr=p, m=matches_obj(c))

    def requires(self, c):
        return rep(c.S, c.a["m"])

    def assigns(self, c):
        return [("cell", c.a["ilr"], 24)]

    def ensures(self, c):
        a, p, e = ilr(c.S, c.a["ilr"])
        b, n = c.O.f(c.a["m"], "matches", "msginfo"), c.O.f(c.a["m"], "matches", "n")
        if p.obj != b.obj or e.obj != b.obj:
            return [("points into the list", z3.BoolVal(False))]
        return [("whole list, sum 0", z3.And(a == 0, p.idx == b.idx, e.idx == b.idx + sx(n)))]


class ListRoundTrip(Lemma):
    """By induction over the insertions: if bytes [0,n) hold entries V0..V(L-1) at positions P0..PL=n with running sums
    equal to the numbers inserted, then after one more insertion (contract of insert_index_on_encoding) they hold the
    same entries plus the new number; and the reader (contract of int_list_reader_read) started at Pk with sum V(k-1)
    yields V(k) and P(k+1), stopping exactly at n."""
    name = "posting-list-round-trip"

    def goals(self):
        A = z3.ArraySort(BV64, z3.BitVecSort(8))
        d0, d1 = z3.Consts("d0 d1", A)
        P = z3.Const("P", z3.ArraySort(BV64, BV64))
        V = z3.Const("V", z3.ArraySort(BV64, BV64))
        L, n0, n1, h0, idx, cnt = z3.BitVecs("L n0 n1 h0 idx cnt", 64)
        k, j = z3.BitVecs("k j", 64)

        def Rep(d, n, P, V, L, h):
            prev = z3.If(k == 0, bv(0), z3.Select(V, k - 1))
            return [L >= 0, L <= n, z3.Select(P, bv(0)) == 0, z3.Select(P, L) == n,
                    z3.Implies(L > 0, z3.Select(V, L - 1) == h), (L == 0) == (n == 0),
                    z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L), z3.And(
                        z3.Select(P, k) >= 0, z3.Select(P, k) < n, z3.Select(P, k + 1) == z3.Select(P, k) + dlen(d, z3.Select(P, k)),
                        z3.Select(P, k + 1) <= n,
                        z3.Select(d, z3.Select(P, k)) != 0xff,
                        sx(dval(d, z3.Select(P, k))) == z3.Select(V, k) - prev,
                        z3.Select(V, k) >= 0, z3.Select(V, k) < VMAX, z3.Select(V, k) >= prev)), patterns=[z3.Select(P, k)])]
        rng = [n0 >= 0, n0 < (1 << 29), n1 <= cnt, cnt < (1 << 31), idx >= 0, idx < VMAX, h0 >= 0, h0 < VMAX]
        new = z3.Or(n0 == 0, idx > h0)
        base = z3.If(n0 == 0, bv(0), h0)
        post = [n1 == n0 + dlen(d1, n0), sx(dval(d1, n0)) == idx - base, z3.Select(d1, n0) != 0xff,
                same_outside(d0, d1, n0, n1, cnt), z3.Or(n0 == 0, idx >= h0)]
        P2, V2, L2 = z3.Store(P, L + 1, n1), z3.Store(V, L, idx), L + 1
        hyp = Rep(d0, n0, P, V, L, h0) + rng + [new] + post
        out = []
        for i, g in enumerate(Rep(d1, n1, P2, V2, L2, idx)):
            if z3.is_quantifier(g):
                # skolemise and split old / new entry
                kk = z3.BitVec("kk", 64)
                body = z3.substitute_vars(g.body(), kk)
                inst = []
                for q in hyp:
                    if z3.is_quantifier(q) and q.num_patterns() > 0 and "P" in str(q.pattern(0)):
                        inst.append(z3.substitute_vars(q.body(), kk))
                so = []
                for dd in range(4):
                    so.append(z3.Implies(z3.And(z3.Select(P, kk) + dd < n0, z3.Select(P, kk) + dd >= 0), z3.Select(d1, z3.Select(P, kk) + dd) == z3.Select(d0, z3.Select(P, kk) + dd)))
                body_prev = z3.Implies(kk > 0, z3.BoolVal(True))
                qf = [h for h in hyp if not z3.is_quantifier(h)]
                out.append(("insert keeps entry k (k<L)", qf + inst + so + [kk >= 0, kk < L, body_prev], body))
                out.append(("insert adds entry L", hyp + [kk == L], body))
            else:
                out.append(("insert keeps representation %d" % i, hyp, g))
        # reader step
        pos, acc = z3.BitVecs("pos acc", 64)
        hyp = Rep(d0, n0, P, V, L, h0) + rng + [j >= 0, j < L, pos == z3.Select(P, j), acc == z3.If(j == 0, bv(0), z3.Select(V, j - 1))]
        for q in list(hyp):
            if z3.is_quantifier(q):
                hyp.append(z3.substitute_vars(q.body(), j))
        out.append(("reader finds entry j", hyp, readable(d0, pos, n0)))
        out.append(("reader yields number j", hyp, acc + sx(dval(d0, pos)) == z3.Select(V, j)))
        out.append(("reader moves to entry j+1", hyp, pos + dlen(d0, pos) == z3.Select(P, j + 1)))
        out.append(("reader stops at the end", Rep(d0, n0, P, V, L, h0) + rng + [pos == z3.Select(P, L)], z3.Not(readable(d0, pos, n0))))
        return out


CONTRACTS = [InsertValue, InsertIndex, CheckEnlarge, ListRead, ListCopy, ReaderInit, MatchesInit]
LEMMAS = [ListRoundTrip]
