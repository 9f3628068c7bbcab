"""db.c, mbox.c: what 'mairix -p' does to the word tables, the lists, the messages and the mboxes.

ALIVE(i) says that message i is kept, RK(i) counts the kept ones below i: that is the new number of a kept message.
I0, J0 are arbitrary slots or messages, K0 an arbitrary position of a list.  A loop invariant proved for arbitrary I0 and J0
holds for every pair of slots, so it is also used at the slots a loop looks at (stated in its `assume`)."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract, Lemma
from vc.ir import Unsupported
from contracts import postings, toks
from contracts.toks import Table, TXT, HASHOF, I0, J0, sx, zx, slot, probe, unique, home, dist

BV32, Bo = z3.BitVecSort(32), z3.BoolSort()
ALIVE = z3.Function("Kept", BV32, Bo)
RK = z3.Function("KeptBelow", BV32, BV32)
ITEM = z3.Function("OldItem", BV64, BV32)
LEN = z3.BitVec("OldLength", 64)
LN = z3.Function("KeptAmongFirst", BV64, BV64)
LIVE = z3.Function("NamesKeptMessage", BV64, BV64, Bo)      # word, list
NM = z3.BitVec("Messages", 32)


def rk_def(i):
    return RK(i + 1) == RK(i) + z3.If(ALIVE(i), bv(1, 32), bv(0, 32))


class Ranks(Lemma):
    """new numbers of kept messages keep their order and never exceed the old ones: induction over the message number"""
    name = "new-numbers"

    def goals(self):
        a, b = z3.BitVecs("a b", 32)
        rng = [a >= 0, b >= a, b < (1 << 30)]
        inc = lambda b: z3.Implies(z3.And(a < b, ALIVE(a)), RK(a) < RK(b))
        mon = lambda b: z3.And(RK(a) <= RK(b), RK(a) >= 0, RK(b) <= b)
        return [("not above the old number", [RK(bv(0, 32)) == 0], RK(bv(0, 32)) <= 0),
                ("step", rng + [rk_def(b), rk_def(a), RK(a) <= a, mon(b), inc(b)], z3.And(mon(b + 1), inc(b + 1))),
                ("base", rng + [a == b, RK(a) >= 0, RK(a) <= a], mon(a))]


def rank_facts(a, b):
    """for a < b"""
    return z3.Implies(z3.And(a >= 0, a < b, b <= NM), z3.And(z3.Implies(ALIVE(a), RK(a) < RK(b)), RK(a) <= RK(b), RK(a) >= 0, RK(a) <= a, RK(b) <= b, RK(b) - RK(a) <= b - a))


class Recode(Contract):
    """the new list holds the new numbers of exactly the kept messages of the old list, in order"""
    name, file, pn = "recode_encoding", "db", "m new_idx"

    def read(m, st, args, rty, line):
        p, out = args
        v = View(m, st)
        acc, pos, end = postings.ilr(v, p)
        k = st.ghost["k"]
        # either the reader was started as matches_int_list_reader_init does
        ok = z3.And(z3.BoolVal(pos.obj == m.oldbuf and end.obj == m.oldbuf), end.idx == sx(m.oldn))
        m.check(st, "reads the old list", z3.And(ok, z3.Implies(k == 0, z3.And(pos.idx == 0, acc == 0))) if pos.obj is not None and end.obj is not None else False, "protocol", line)
        m.check(st, "the old list is still there", z3.BoolVal(not st.mem[m.oldbuf].freed), "memory", line)
        s2 = st.copy()
        s2.assume(k >= LEN)
        x = ITEM(k)
        st.assume(k < LEN, x >= 0, x < NM)
        m.poke(st, out, x, 32)
        m.poke(st, p.at(m.field("int_list_reader", "accumulator")[0]), x, 32)
        m.poke(st, p.at(m.field("int_list_reader", "pos")[0]), Ptr(m.oldbuf, fresh("pos", 64)), "p")
        st.ghost["k"] = k + 1
        return [(st, bv(1, 32)), (s2, bv(0, 32))]
    read.priority = True

    def insert(m, st, args, rty, line):
        p, idx = args
        v = View(m, st)
        k, q = st.ghost["k"], st.ghost["put"]
        x = ITEM(k - 1)
        m.check(st, "the new number of the kept message just read", z3.And(z3.BoolVal(p.obj == m.mobj), k > 0, ALIVE(x), idx == RK(x)), "protocol", line)
        n, hi, mx = [v.f(p, "matches", f) for f in ("n", "highest", "max")]
        b = v.f(p, "matches", "msginfo")
        if b.null or b.obj == m.oldbuf:
            m.check(st, "a buffer of its own", False, "protocol", line)
            return []
        cnt = st.ghost["cap"]
        # contract of insert_index_on_encoding
        m.check(st, "room for one entry", z3.And(n >= 0, sx(n) + 4 <= cnt), "protocol", line)
        m.check(st, "numbers arrive in order", z3.And(idx >= 0, z3.Implies(n != 0, sx(idx) >= hi)), "protocol", line)
        n1 = fresh("n", 32)
        new = z3.Or(n == 0, sx(idx) > hi)
        m.check(st, "each number is entered", new, "protocol", line)
        st.assume(n1 > n, n1 <= n + 4)
        v.set(p, "matches", "n", n1)
        v.set(p, "matches", "highest", sx(idx))
        st.ghost["put"] = q + 1
        return [(st, None)]
    insert.priority = True

    def enlarge(m, st, args, rty, line):
        p = args[0]
        v = View(m, st)
        n, mx = v.f(p, "matches", "n"), v.f(p, "matches", "max")
        b = v.f(p, "matches", "msginfo")
        if b.null or b.obj == m.oldbuf:
            m.check(st, "a buffer of its own", False, "protocol", line)
            return []
        cnt = st.ghost["cap"]
        # contract of check_and_enlarge_encoding
        m.check(st, "the list fits its buffer", z3.And(z3.BoolVal(p.obj == m.mobj), n >= 0, n <= mx, sx(mx) <= cnt, mx >= 16), "protocol", line)
        mx1 = fresh("max", 32)
        st.assume(mx1 >= 16, n + 4 <= mx1, mx1 < (1 << 30), n < (1 << 29))
        v.set(p, "matches", "max", mx1)
        st.ghost["cap"] = sx(mx1)        # the buffer, moved or not; nobody else points to it
        return [(st, None)]
    enlarge.priority = True

    def alloc(m, st, args, rty, line):
        st.ghost["cap"] = args[-1]
        return [(st, m.new_arr(st, "msginfo'", args[-1]))]
    externs = {"safe_malloc": alloc, "int_list_reader_read": read, "insert_index_on_encoding": insert, "check_and_enlarge_encoding": enlarge}

    def setup(self, c):
        m, st = c.m, c.st
        p = postings.matches_obj(c)
        v = View(m, st)
        m.oldbuf, m.mobj, m.oldn = v.f(p, "matches", "msginfo").obj, p.obj, v.f(p, "matches", "n")
        st.ghost["k"] = st.ghost["put"] = st.ghost["cap"] = bv(0)
        st.assume(NM >= 0, NM < (1 << 28), LEN >= 0, LEN < (1 << 40))
        k = z3.BitVec("k!ni", 64)
        A = z3.Const("NewIdx", z3.ArraySort(BV64, BV32))
        t = m.new_arr(st, "new_idx", sx(NM), 4, fields={0: (32, A)}, ro=True)
        return dict(m=p, new_idx=t)

    def requires(self, c):
        k = z3.BitVec("k!ni", 64)
        A = c.S.data(c.a["new_idx"])
        i = z3.Extract(31, 0, k)
        return postings.rep(c.S, c.a["m"]) + [("the new numbers", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(NM)), z3.Select(A, k) == z3.If(ALIVE(i), RK(i), bv(-1, 32))), patterns=[z3.Select(A, k)]))]

    def assigns(self, c):
        return [("any", c.a["m"]), ("any", c.O.f(c.a["m"], "matches", "msginfo"))]

    def ensures(self, c):
        v, p = c.S, c.a["m"]
        n, mx = v.f(p, "matches", "n"), v.f(p, "matches", "max")
        b = v.f(p, "matches", "msginfo")
        o, cnt = c.st.mem[b.obj], c.g["cap"]
        return [("the whole list is read", c.g["k"] == LEN), ("every kept message is entered", c.g["put"] == LN(LEN)), ("empty exactly when no message of it is kept", (n == 0) == (LN(LEN) == 0)),
                ("the list fits its buffer", z3.And(n >= 0, n <= mx, sx(mx) <= cnt, z3.BoolVal(not o.freed)))]

    def inv(self, c):
        v, p = c.S, c.a["m"]
        n, mx, hi = [v.f(p, "matches", f) for f in ("n", "max", "highest")]
        b = v.f(p, "matches", "msginfo")
        k, q = c.g["k"], c.g["put"]
        cnt = c.g["cap"]
        acc, pos, end = postings.ilr(c.S, c.S.lptr("ilr"))
        last = ITEM(k - 1)
        fresh_ = z3.And(z3.BoolVal(pos.obj == c.m.oldbuf and end.obj == c.m.oldbuf), end.idx == sx(c.m.oldn), z3.Implies(k == 0, z3.And(pos.idx == 0, acc == 0)))
        return [("position", z3.And(k >= 0, k <= LEN, q == LN(k), q >= 0, q <= k, fresh_)), ("entered so far", z3.And((n == 0) == (q == 0), n >= 0, n <= mx, mx >= 16, sx(mx) <= cnt)),
                ("highest", z3.Implies(n != 0, z3.And(k > 0, hi >= 0, hi < sx(RK(last + 1)))))]

    def defs(self, c):
        k = c.g["k"]
        x, y = ITEM(k), ITEM(k - 1)
        r = [LN(bv(0)) == 0, LN(k + 1) == LN(k) + z3.If(ALIVE(x), bv(1), bv(0)), rk_def(x), rk_def(y), RK(bv(0, 32)) == 0]
        # numbers of a list increase; new numbers keep the order
        r += [z3.Implies(z3.And(k > 0, k < LEN), z3.And(y >= 0, y < x, x < NM)), rank_facts(y, x), rank_facts(x, x + 1), rank_facts(y, y + 1), rank_facts(y + 1, x)]
        return r

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


CONTRACTS = [Recode]
LEMMAS = [Ranks]


CHOOSE = z3.Function("SlotOf", z3.ArraySort(BV64, BV64), BV64, BV64)     # some slot that holds the word, if there is one
O0 = toks.O0


class RecodeTable(Table):
    """words of no kept message disappear, every other word stays (once) and is found again"""
    name, file, pn = "recode_toktable", "db", "table new_idx"
    two = False
    timeout = 30.0

    def live(self, f):
        l = LIVE(f, bv(0))
        return z3.Or(l, LIVE(f, bv(1))) if self.two else l

    def recode(m, st, args, rty, line):
        con = m.con
        p, ni = args
        if not isinstance(p, Ptr) or p.obj != m.tokfam or p.sub not in m.lists:
            m.check(st, "recodes a list of the table", False, "protocol", line)
            return []
        m.check(st, "with the new numbers", z3.And(z3.BoolVal(ni.obj == m.cur_args["new_idx"].obj), ni.idx == 0), "protocol", line)
        ch = m.lists.index(p.sub)
        key = "times%d" % ch
        st.ghost[key] = z3.If(p.fid == m.f0, st.ghost[key] + 1, st.ghost[key])
        n = fresh("n", 32)
        st.assume(n >= 0, (n == 0) == z3.Not(LIVE(p.fid, bv(ch))))
        View(m, st).set(p, "matches", "n", n)
        return [(st, None)]
    recode.priority = True

    def drop(m, st, args, rty, line):
        con = m.con
        p = args[0]
        if not isinstance(p, Ptr) or p.obj != m.tokfam:
            m.check(st, "a word of the table is freed", False, "protocol", line)
            return []
        m.check(st, "only words of no kept message are dropped", z3.Not(con.live(p.fid)), "protocol", line)
        st.ghost["dropped"] = st.ghost["dropped"] + 1
        return [(st, None)]
    drop.priority = True
    externs = {"recode_encoding": recode, "free_token": drop, "free_token2": drop}

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        self.family(c)
        o = st.w(m.tokfam)
        no = m.field("matches", "n")[0]
        m.lists = [m.m0] + ([m.m1] if self.two else [])
        for x in m.lists:
            o.fields[x + no] = (32, z3.Const("TokN%d" % x, z3.ArraySort(BV64, BV32)))
        t = self.table(c, False)
        ni = m.new_arr(st, "new_idx", fresh("nn", 64), 4, ro=True)
        g = st.ghost
        g["dropped"] = g["times0"] = g["times1"] = bv(0, 32)
        m.f0 = z3.Select(View(m, st).data(View(m, st).f(t, self.tt(), "tokens")), zx(I0))
        m.t1 = {}
        return dict(table=t, new_idx=ni)

    def F0(self, c):
        return c.m.f0

    def requires(self, c):
        t, size, mask, n = self.get(c.S, c)
        return [("count", z3.And(n >= 0, n <= size))]

    def assigns(self, c):
        return [("cell", c.a["table"].at(c.m.field(self.tt(), "n")[0]), 4), ("any", c.m.tokfam), ("any", c.O.f(c.a["table"], self.tt(), "tokens"))]

    def where(self, t, mask, f, w=None):
        """definition of SlotOf at the slot w"""
        return z3.Implies(z3.And(z3.ULE(w, zx(mask)), z3.Select(t, w) == f), z3.And(z3.ULE(CHOOSE(t, f), zx(mask)), z3.Select(t, CHOOSE(t, f)) == f))

    def there(self, t, mask, f):
        w = CHOOSE(t, f)
        return z3.And(z3.ULE(w, zx(mask)), z3.Select(t, w) == f)

    def ensures(self, c):
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        f0 = self.F0(c)
        # instances of the definition of SlotOf, so that the last state can be talked about
        fi = z3.Select(t, zx(I0))
        ok = slot(I0, mask)
        r = [("every word with a kept message is still in the table", z3.Implies(z3.And(ok, f0 != 0, self.live(f0)), self.there(t, mask, f0))),
             ("no other word is", z3.Implies(z3.And(ok, fi != 0), self.live(fi))),
             ("no word twice", z3.Implies(z3.And(ok, slot(J0, mask)), unique(t, I0, J0))),
             ("every word is found from its home", z3.Implies(z3.And(ok, slot(J0, mask)), probe(t, mask, I0, J0))),
             ("the count is right", n == n0 - c.g["dropped"]),
             ("each list is recoded once", z3.Implies(z3.And(ok, f0 != 0), z3.And(c.g["times0"] == 1, c.g["times1"] == (1 if self.two else 0)))),
             ("same table", z3.And(size == size0, mask == mask0)),
             ("texts and hashes stay", z3.And(*[z3.Select(c.st.mem[c.m.tokfam].fields[x][1], f0) == z3.Select(c.O.st.mem[c.m.tokfam].fields[x][1], f0) for x in (c.m.hoff, c.m.toff)]))]
        return r

    def wf0(self, c, x):
        """the table handed in is well formed: instances at I0, J0, x"""
        t0, size0, mask0, n0 = self.get(c.O, c)
        r = []
        for k in (I0, J0, x):
            f = z3.Select(t0, zx(k))
            r.append(z3.Implies(z3.And(slot(k, mask0), f != 0), self.hash_ok(c.O, c, f)))
        for i, j in ((I0, J0), (I0, x), (J0, x), (x, I0), (x, J0)):
            if i is not j:
                r.append(z3.Implies(z3.And(slot(i, mask0), slot(j, mask0)), z3.And(probe(t0, mask0, i, j), unique(t0, i, j))))
        return r

    def kept(self, c):
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        f0 = self.F0(c)
        tok0, tok1 = c.O.st.mem[c.m.tokfam], c.st.mem[c.m.tokfam]
        return [("shape", z3.And(size == size0, mask == mask0, c.S.f(c.a["table"], self.tt(), "tokens").idx == 0)),
                ("texts and hashes", z3.And(*[tok1.fields[x][1] == tok0.fields[x][1] for x in (c.m.hoff, c.m.toff)]))]

    def inv0(self, c):
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        i, ad = c.S["i"], c.S["any_dead"]
        r = [("index", z3.And(i >= 0, i <= size)), ("count", z3.And(n == n0 - c.g["dropped"], c.g["dropped"] >= 0, c.g["dropped"] <= i))] + self.kept(c)
        for nm, k in (("I", I0), ("J", J0)):
            f0, f = z3.Select(t0, zx(k)), z3.Select(t, zx(k))
            r.append(("slot " + nm, z3.Implies(slot(k, mask), f == z3.If(z3.And(k < i, f0 != 0, z3.Not(self.live(f0))), bv(0), f0))))
            r.append(("nothing dropped " + nm, z3.Implies(z3.And(ad == 0, slot(k, mask)), f == f0)))
        f0 = self.F0(c)
        r.append(("times", z3.And(*[c.g["times%d" % ch] == (z3.If(z3.And(slot(I0, mask), f0 != 0, I0 < i), bv(1, 32), bv(0, 32)) if ch < len(c.m.lists) else 0) for ch in (0, 1)])) if False else
                 ("times", z3.Implies(z3.And(slot(I0, mask), f0 != 0), z3.And(*[c.g["times%d" % ch] == (z3.If(I0 < i, bv(1, 32), bv(0, 32)) if ch < len(c.m.lists) else 0) for ch in (0, 1)]))))
        return r

    def def0(self, c):
        i = c.S["i"]
        t, size, mask, n = self.get(c.S, c)
        t0 = self.get(c.O, c)[0]
        # the invariant at slot i
        return self.wf0(c, i) + [self.where(t, mask, self.F0(c), zx(I0)), z3.Implies(slot(i, mask), z3.Select(t, zx(i)) == z3.Select(t0, zx(i)))]

    def place(self, c):
        """what holds of the table while gaps are closed: at slots I0, J0"""
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        f0, fi = self.F0(c), z3.Select(t, zx(I0))
        ok = slot(I0, mask)
        return self.kept(c) + [("count", n == n0 - c.g["dropped"]),
            ("kept words are there", z3.Implies(z3.And(ok, f0 != 0, self.live(f0)), self.there(t, mask, f0))),
            ("kept words only", z3.Implies(z3.And(ok, fi != 0), z3.And(self.live(fi), self.hash_ok(c.O, c, fi)))), ("no word twice", z3.Implies(z3.And(ok, slot(J0, mask)), unique(t, I0, J0)), lambda s: not s & {"HashOf", "SlotOf", "NamesKeptMessage"}),
            ("times", z3.Implies(z3.And(ok, f0 != 0), z3.And(*[c.g["times%d" % ch] == (1 if ch < len(c.m.lists) else 0) for ch in (0, 1)])))]

    def at(self, c, i):
        """the same (shown for arbitrary slots) at slot i"""
        t, size, mask, n = self.get(c.S, c)
        fi = z3.Select(t, zx(i))
        r = [z3.Implies(z3.And(slot(i, mask), fi != 0), z3.And(self.live(fi), self.hash_ok(c.O, c, fi)))]
        return r + [z3.Implies(z3.And(slot(i, mask), slot(k, mask)), unique(t, i, k)) for k in (I0, J0)]

    def inv1(self, c):
        return self.place(c)

    def def1(self, c):
        t, size, mask, n = self.get(c.S, c)
        # the number of passes is assumed to fit an int
        return [self.where(t, mask, self.F0(c), zx(I0)), c.S["pass"] < (1 << 30)]

    def inv2(self, c):
        t, size, mask, n = self.get(c.S, c)
        i, am = c.S["i#1"], c.S["any_moved"]
        f = z3.Select(t, zx(I0))
        return [("index", z3.And(i >= 0, i <= size))] + self.place(c) + [("reached so far", z3.Implies(z3.And(am == 0, I0 < i, slot(I0, mask), slot(J0, mask)), probe(t, mask, I0, J0)))]

    def def2(self, c):
        return self.at(c, c.S["i#1"])

    def inv3(self, c):
        t, size, mask, n = self.get(c.S, c)
        i, j = c.S["i#1"], c.S["j"]
        f = z3.Select(t, zx(i))
        h = home(f, mask)
        return [("index", z3.And(i >= 0, i < size, slot(j, mask), f != 0))] + [x for x in self.inv2(c) if x[0] != "index"] + [
            ("occupied from the home on", z3.Implies(z3.And(slot(J0, mask), z3.ULT(dist(J0, h, mask), dist(j, h, mask))), z3.Select(t, zx(J0)) != 0))]

    def def3(self, c):
        t, size, mask, n = self.get(c.S, c)
        i, j = c.S["i#1"], c.S["j"]
        f0 = self.F0(c)
        t2 = z3.Store(z3.Store(t, sx(j), z3.Select(t, sx(i))), sx(i), bv(0))
        return self.at(c, i) + [self.where(t2, mask, f0, sx(j)), self.where(t2, mask, f0, CHOOSE(t, f0))]

    def __init__(self):
        super().__init__()
        S = LoopSpec
        self.loops = {0: S(inv=self.inv0, assume=self.def0), 1: S(inv=self.inv1, assume=self.def1), 2: S(inv=self.inv2, assume=self.def2), 3: S(inv=self.inv3, assume=self.def3)}


class RecodeTable2(RecodeTable):
    name = "recode_toktable2"
    two = True


CONTRACTS = [Recode, RecodeTable, RecodeTable2]


# ---------------------------------------------------------------- messages and mboxes
DEAD, MBOX = 0, 2
BALIVE = z3.Function("MboxThere", BV32, Bo)
BRK = z3.Function("MboxesThereBelow", BV32, BV32)
NB = z3.BitVec("Mboxes", 32)
B0 = z3.BitVec("B0", 32)


def brk_def(i):
    return BRK(i + 1) == BRK(i) + z3.If(BALIVE(i), bv(1, 32), bv(0, 32))


def brank_facts(a, b):
    return z3.Implies(z3.And(a >= 0, a < b, b <= NB), z3.And(z3.Implies(BALIVE(a), BRK(a) < BRK(b)), BRK(a) <= BRK(b), BRK(a) >= 0, BRK(a) <= a, BRK(b) <= b, BRK(b) - BRK(a) <= b - a))


TABLES = ["to", "cc", "from", "subject", "body", "attachment_name", "msg_ids"]


class Db(Contract):
    """the message table of a database; messages are seen field by field"""
    file = "db"

    def db(self, c):
        m, st = c.m, c.st
        F = m.field
        db = m.new_cells(st, "db", F("database", "__size")[0])
        v = View(m, st)
        st.assume(NM >= 0, NM < (1 << 28), NB >= 0, NB < (1 << 26))
        v.set(db, "database", "n_msgs", NM)
        v.set(db, "database", "max_msgs", fresh("max", 32))
        v.set(db, "database", "n_mboxen", NB)
        v.set(db, "database", "max_mboxen", fresh("maxb", 32))
        fl = {0: 32, 8: 64, 16: 64, 24: 64, 32: 64, 40: 32, 44: 32, 48: 64}
        m.msgs = m.new_arr(st, "msgs", sx(NM), F("msgpath", "__size")[0], fields=fl)
        m.types = m.new_arr(st, "type", sx(NM), 4)
        v.set(db, "database", "msgs", m.msgs)
        v.set(db, "database", "type", m.types)
        for t in TABLES:
            v.set(db, "database", t, m.new_cells(st, t, 24))
        m.dbobj = db
        return db

    def msg(self, v, i):
        o = v.st.mem[v.m.msgs.obj]
        return {k: z3.Select(t, sx(i)) for k, (w, t) in o.fields.items()}

    def typ(self, v, i):
        return z3.Select(v.data(v.m.types), sx(i))

    def same(self, a, b):
        return z3.And(*[a[k] == b[k] for k in a])

    def inst(self, c, i):
        t = self.typ(c.O, i)
        return [z3.Implies(z3.And(i >= 0, i < NM), z3.And(ALIVE(i) == (t != DEAD), t >= 0, t <= 3)), rk_def(i)]


class Cull(Db):
    """every kept message moves, unchanged, to its new number; all word tables are recoded with these numbers"""
    name, pn = "cull_dead_messages", "db do_integrity_checks"

    def recode(m, st, args, rty, line):
        t, ni = args
        v = View(m, st)
        bit = None
        for k, n in enumerate(TABLES):
            p = v.f(m.dbobj, "database", n)
            if p.obj == t.obj:
                bit = k
        if bit is None or t.obj is None:
            m.check(st, "a table of the database", False, "protocol", line)
            return []
        g = st.ghost
        b = bv(1 << bit, 32)
        m.check(st, "each table once", g["done"] & b == 0, "protocol", line)
        g["done"] = simp(g["done"] | b)
        A = v.data(ni)
        m.check(st, "with the new number of every message", z3.And(ni.idx == 0, z3.Implies(z3.And(I0 >= 0, I0 < NM), z3.Select(A, sx(I0)) == z3.If(ALIVE(I0), RK(I0), bv(-1, 32)))), "protocol", line)
        return [(st, None)]

    def boxes(m, st, args, rty, line):
        v = View(m, st)
        m.check(st, "mboxes are culled after the messages", z3.And(v.f(m.dbobj, "database", "n_msgs") == RK(NM), st.ghost["done"] == 0x7f), "protocol", line)
        st.ghost["boxes"] = z3.BoolVal(True)
        return [(st, None)]

    def nothing(m, st, args, rty, line):
        return [(st, None)]
    recode.priority = boxes.priority = nothing.priority = True

    def alloc(m, st, args, rty, line):
        return [(st, m.new_arr(st, "new_idx", m._exact_div(simp(args[-1]), 4), 4))]
    externs = {"recode_toktable": recode, "recode_toktable2": recode, "cull_dead_mboxen": boxes, "check_database_integrity": nothing, "safe_malloc": alloc}

    def setup(self, c):
        db = self.db(c)
        c.st.ghost["done"], c.st.ghost["boxes"] = bv(0, 32), z3.BoolVal(False)
        return dict(db=db, do_integrity_checks=fresh("chk", 32))

    def assigns(self, c):
        return [("any", c.a["db"]), ("any", c.m.msgs), ("any", c.m.types)]

    def moved(self, c, i):
        """kept message I0, when below i, is at its new place"""
        r = RK(I0)
        return z3.Implies(z3.And(I0 >= 0, I0 < i, ALIVE(I0)), z3.And(self.same(self.msg(c.S, r), self.msg(c.O, I0)), self.typ(c.S, r) == self.typ(c.O, I0)))

    def ensures(self, c):
        return [("number of messages", c.S.f(c.a["db"], "database", "n_msgs") == RK(NM)), ("every kept message is at its new number, unchanged", self.moved(c, NM)),
                ("all tables are recoded", c.g["done"] == 0x7f), ("mboxes are culled", c.g["boxes"]), ("says whether there were dead ones", (c.ret != 0) == (RK(NM) < NM)),
                ("same arrays", z3.BoolVal(c.S.f(c.a["db"], "database", "msgs").obj == c.m.msgs.obj and c.S.f(c.a["db"], "database", "type").obj == c.m.types.obj))]

    def inv1(self, c):
        i, j, ac = c.S["i"], c.S["j"], c.S["any_culled"]
        A = c.S.data(c.S["new_idx"])
        return [("numbers", z3.And(i >= 0, i <= NM, j == RK(i), j >= 0, j <= i, (ac != 0) == (j < i))),
                ("so far", z3.Implies(z3.And(I0 >= 0, I0 < i), z3.Select(A, sx(I0)) == z3.If(ALIVE(I0), RK(I0), bv(-1, 32))))]

    def defs(self, c):
        i = c.S["i"]
        return self.inst(c, i) + [RK(bv(0, 32)) == 0] + self.inst(c, I0) + [rank_facts(I0, i), rank_facts(i, I0), rank_facts(bv(0, 32), i)]

    def inv2(self, c):
        i, j = c.S["i"], c.S["j"]
        return [("numbers", z3.And(i >= 0, i <= NM, j == RK(i), j >= 0, j <= i, (c.S["any_culled"] != 0) == (RK(NM) < NM))), ("moved so far", self.moved(c, i)),
                ("the others are in place", z3.Implies(z3.And(I0 >= i, I0 < NM), z3.And(self.same(self.msg(c.S, I0), self.msg(c.O, I0)), self.typ(c.S, I0) == self.typ(c.O, I0))))]

    def defs2(self, c):
        i = c.S["i"]
        # the invariant at i
        return self.defs(c) + [z3.Implies(z3.And(i >= 0, i < NM), z3.And(self.same(self.msg(c.S, i), self.msg(c.O, i)), self.typ(c.S, i) == self.typ(c.O, i)))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv1, assume=self.defs), 1: LoopSpec(inv=self.inv2, assume=self.defs2)}


class CullBoxes(Db):
    """mboxes that are gone leave the table, the others stay unchanged, and every mbox message names its mbox again"""
    name, file, pn = "cull_dead_mboxen", "mbox", "db"

    def alloc(m, st, args, rty, line):
        n = simp(args[-1])
        try:
            p = m.new_arr(st, "newtab", m._exact_div(n, m.bsize), m.bsize, fields=m.bfields(fresh_only=True))
        except Unsupported:
            p = m.new_arr(st, "old_to_new", m._exact_div(n, 4), 4)
        return [(st, p)]
    externs = {"safe_malloc": alloc}

    def setup(self, c):
        db = self.db(c)
        m, st = c.m, c.st
        F = m.field
        m.bsize = F("mbox", "__size")[0]
        pk = m.new_fam(st, "paths", {0: 8}, elem="arr")
        pf = pk.obj if isinstance(pk, Ptr) else pk

        def dec(m_, s, v, p):
            return [(v == 0, NULL), (v != 0, Ptr(pf, bv(0), 0, v))]

        def enc(m_, s, v, p):
            return bv(0) if v.null else v.fid
        widths = {8: 64, 16: 64, 24: 64, 32: 64, 40: 64, 48: 64, 56: 32, 60: 32, 64: 32, 68: 32, 72: 64, 80: 64, 88: 64}
        codec = PtrField(dec, enc)
        m.bfields = lambda fresh_only=False: {0: (codec, fresh("bpath", z3.ArraySort(BV64, BV64))), **widths}
        m.boxes = m.new_arr(st, "mboxen", sx(NB), m.bsize, fields=m.bfields())
        View(m, st).set(db, "database", "mboxen", m.boxes)
        return dict(db=db)

    def assigns(self, c):
        return [("any", c.a["db"]), ("any", c.m.msgs), ("any", c.m.boxes)]

    def box(self, v, p, i):
        o = v.st.mem[p.obj]
        return {k: z3.Select(t, sx(i)) for k, (w, t) in o.fields.items()}

    def fidx(self, v, i):
        return z3.Extract(31, 0, self.msg(v, i)[8])

    def binst(self, c, i):
        return [z3.Implies(z3.And(i >= 0, i < NB), BALIVE(i) == (self.box(c.O, c.m.boxes, i)[0] != 0)), brk_def(i)]

    def minst(self, c, i):
        """precondition: an mbox message names an mbox that is there"""
        f = self.fidx(c.O, i)
        return z3.Implies(z3.And(i >= 0, i < NM, self.typ(c.O, i) == MBOX), z3.And(f >= 0, f < NB, BALIVE(f)))

    def renumbered(self, c, i, upto):
        a, b = self.msg(c.S, i), self.msg(c.O, i)
        new = z3.Concat(z3.Extract(63, 32, b[8]), BRK(z3.Extract(31, 0, b[8])))
        return z3.Implies(z3.And(i >= 0, i < NM), z3.And(*[a[k] == b[k] for k in a if k != 8], a[8] == z3.If(z3.And(i < upto, self.typ(c.O, i) == MBOX), new, b[8])))

    def facts(self, c):
        f = self.fidx(c.O, I0)
        return [BRK(bv(0, 32)) == 0, brank_facts(f, NB), brank_facts(B0, NB)]

    def copied(self, c, p, i):
        return z3.Implies(z3.And(B0 >= 0, B0 < i, BALIVE(B0)), self.same(self.box(c.S, p, BRK(B0)), self.box(c.O, c.m.boxes, B0)))

    def ensures(self, c):
        p = c.S.f(c.a["db"], "database", "mboxen")
        return [("number of mboxes", c.S.f(c.a["db"], "database", "n_mboxen") == BRK(NB)), ("every mbox that is there is kept unchanged", self.copied(c, p, NB)),
                ("every message names its mbox", self.renumbered(c, I0, NM))]

    def inv0(self, c):
        i, a = c.S["i"], c.S["n_alive"]
        return [("count", z3.And(i >= 0, i <= NB, a == BRK(i), a >= 0, a <= i))]

    def def0(self, c):
        i = c.S["i"]
        return self.facts(c) + self.binst(c, i) + self.binst(c, B0) + [brank_facts(i, NB), brank_facts(bv(0, 32), i), self.minst(c, I0)]

    def inv1(self, c):
        i, j = c.S["i"], c.S["j"]
        f = self.fidx(c.O, I0)
        O = c.S.data(c.S["old_to_new"])
        return [("numbers", z3.And(i >= 0, i <= NB, j == BRK(i), j >= 0, j <= i)), ("copied so far", self.copied(c, c.S["newtab"], i)),
                ("new numbers", z3.And(*[z3.Implies(z3.And(x >= 0, x < i), z3.Select(O, sx(x)) == z3.If(BALIVE(x), BRK(x), bv(-1, 32))) for x in (B0, f)]))]

    def def1(self, c):
        i = c.S["i"]
        f = self.fidx(c.O, I0)
        return self.def0(c) + [brank_facts(B0, i), brank_facts(f, i), brank_facts(i, NB)] + self.binst(c, f)

    def inv2(self, c):
        i = c.S["i"]
        f = self.fidx(c.O, I0)
        O = c.S.data(c.S["old_to_new"])
        return [("index", z3.And(i >= 0, i <= NM)), ("renumbered so far", self.renumbered(c, I0, i)),
                ("new numbers", z3.Implies(z3.And(f >= 0, f < NB), z3.Select(O, sx(f)) == z3.If(BALIVE(f), BRK(f), bv(-1, 32))))]

    def def2(self, c):
        i = c.S["i"]
        O = c.S.data(c.S["old_to_new"])
        f = self.fidx(c.O, i)
        # what is shown for arbitrary messages and mboxes, at message i and its mbox
        return [self.minst(c, i), self.minst(c, I0), self.renumbered(c, i, i), brank_facts(f, NB), BRK(bv(0, 32)) == 0,
                z3.Implies(z3.And(f >= 0, f < NB), z3.Select(O, sx(f)) == z3.If(BALIVE(f), BRK(f), bv(-1, 32)))]

    def __init__(self):
        super().__init__()
        S = LoopSpec
        self.loops = {0: S(inv=self.inv0, assume=self.def0), 1: S(inv=self.inv1, assume=self.def1), 2: S(inv=self.inv2, assume=self.def2)}


CONTRACTS = [Recode, RecodeTable, RecodeTable2, Cull, CullBoxes]
