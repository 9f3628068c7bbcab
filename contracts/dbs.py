"""db.c: threads, lookups, flags, message-ids.

The lists of the message-id table are abstract here (the bytes are the subject of C01): token m lists ITEM(m, 0), ITEM(m, 1),
... ITEM(m, LEN(m)-1).  CLASS is any labelling of messages that is constant on every such list: two messages that no chain of
shared ids connects have labellings that tell them apart, so `same thread implies same label, for every such labelling` is
`no two unconnected messages in one thread`."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract, Lemma
from vc.ir import Unsupported

BV32, Bo = z3.BitVecSort(32), z3.BoolSort()
ARR = z3.ArraySort(BV64, BV32)
ROOT = z3.Function("Root", ARR, BV32, BV32)
LEN = z3.Function("ListLength", BV64, BV32)
ITEM = z3.Function("ListItem", BV64, BV32, BV32)
CLASS = z3.Function("Label", BV32, BV32)
TC = z3.Function("ListLabel", BV64, BV32)
HAS = z3.Function("HasToken", BV64, Bo)
FL = z3.Function("Flattened", ARR, BV32, ARR)
NUM = z3.Function("Numbered", ARR, ARR, BV32, ARR)
RANK = z3.Function("BasesBelow", BV32, BV32)
M0 = z3.BitVec("M0", 64)
KA, KB = z3.BitVecs("KA KB", 32)
I0, J0 = z3.BitVecs("I0 J0", 32)


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def get(A, i):
    return z3.Select(A, sx(i))


def wf(A, n, tag, cls=True):
    k = z3.BitVec("k!" + tag, 64)
    v = z3.Select(A, k)
    body = z3.And(v >= 0, sx(v) <= k)
    if cls:
        body = z3.And(body, CLASS(v) == CLASS(z3.Extract(31, 0, k)))
    pat = dict(patterns=[v]) if A.num_args() == 0 else {}
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(n)), body), **pat)


def root_def(A, i):
    return ROOT(A, i) == z3.If(get(A, i) == i, i, ROOT(A, get(A, i)))


class RootLink(Lemma):
    """making root r point to the smaller root b gives everything under r the root b and leaves the rest alone: induction
    over the message number, every pointer going down"""
    name = "union-by-linking"

    def goals(self):
        A = z3.Const("A", ARR)
        i, r, b = z3.BitVecs("i r b", 32)
        B = z3.Store(A, sx(r), b)
        claim = lambda x: ROOT(B, x) == z3.If(ROOT(A, x) == r, b, ROOT(A, x))
        y = get(A, i)
        hyp = [i >= 0, r >= 0, b >= 0, b < r, y >= 0, y <= i, get(A, r) == r, get(A, b) == b, root_def(A, i), root_def(B, i), root_def(B, b), root_def(A, r), root_def(A, b)]
        return [("from the smaller message it points to", hyp + [z3.Implies(y < i, claim(y))], claim(i))]


def link_lemma(A, r, b, i):
    return z3.Implies(z3.And(r >= 0, b >= 0, b < r, get(A, r) == r, get(A, b) == b, i >= 0),
                      ROOT(z3.Store(A, sx(r), b), i) == z3.If(ROOT(A, i) == r, b, ROOT(A, i)))


class RootFacts(Lemma):
    """where every message points to itself or to an earlier one of its label, its root is an earlier one of its label that
    points to itself"""
    name = "roots"

    def goals(self):
        A = z3.Const("A", ARR)
        i = z3.BitVec("i", 32)
        y = get(A, i)
        facts = lambda k: z3.And(ROOT(A, k) >= 0, ROOT(A, k) <= k, get(A, ROOT(A, k)) == ROOT(A, k), CLASS(ROOT(A, k)) == CLASS(k), ROOT(A, ROOT(A, k)) == ROOT(A, k))
        return [("from the message it points to", [i >= 0, y >= 0, y <= i, CLASS(y) == CLASS(i), root_def(A, i), z3.Implies(y < i, facts(y))], facts(i))]


class StoreSequence(Lemma):
    """what the arrays built by one store per index hold"""
    name = "store-sequences"

    def goals(self):
        A, T = z3.Const("A", ARR), z3.Const("T", ARR)
        i, k = z3.BitVecs("i k", 32)
        sel = lambda i: z3.Implies(z3.And(k >= 0, i >= 0), get(FL(A, i), k) == z3.If(k < i, ROOT(A, k), get(A, k)))
        num = lambda i: z3.Implies(z3.And(k >= 0, i >= 0), get(NUM(T, A, i), k) == z3.If(k < i, RANK(ROOT(A, k)), get(T, k)))
        z = bv(0, 32)
        ok = [i >= 0, i < (1 << 30)]
        return [("flattened: start", [FL(A, z) == A], sel(z)), ("flattened: step", ok + [FL(A, i + 1) == z3.Store(FL(A, i), sx(i), ROOT(A, i)), sel(i)], sel(i + 1)),
                ("numbered: start", [NUM(T, A, z) == T], num(z)), ("numbered: step", ok + [NUM(T, A, i + 1) == z3.Store(NUM(T, A, i), sx(i), RANK(ROOT(A, i))), num(i)], num(i + 1))]


class FindBase(Contract):
    name, file, pn = "find_base", "db", "table index"

    def setup(self, c):
        n = fresh("n", 32)
        c.st.assume(n >= 0)
        t = c.m.new_arr(c.st, "table", sx(n), 4)
        return dict(table=t, index=fresh("index", 32))

    def requires(self, c):
        t, i = c.a["table"], c.a["index"]
        n = z3.Extract(31, 0, c.S.count(t))
        return [("a message", z3.And(i >= 0, sx(i) < c.S.count(t), t.idx == 0, c.S.count(t) < (1 << 31))), ("every message points to itself or to an earlier one with its label", wf(c.S.data(t), n, "fb"))]

    def ensures(self, c):
        A, i, r = c.O.data(c.a["table"]), c.a["index"], c.ret
        return [("the root", z3.And(r == ROOT(A, i), get(A, r) == r, r >= 0, r <= i)), ("of the same label", CLASS(r) == CLASS(i))]

    def inv(self, c):
        A, i, a = c.O.data(c.a["table"]), c.a["index"], c.S["a"]
        return [("on the way", z3.And(a >= 0, a <= i, ROOT(A, i) == ROOT(A, a), CLASS(a) == CLASS(i)))]

    def defs(self, c):
        return [root_def(c.O.data(c.a["table"]), c.S["a"])]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs, dec=lambda c: sx(c.S["a"]))}


class Threading(Contract):
    """messages get the same thread number exactly when a chain of shared message-ids connects them"""
    name, file, pn = "find_threading", "db", "db"
    timeout = 30.0

    def alloc(m, st, args, rty, line):
        n = args[-1]
        p = m.new_arr(st, "ix", m._exact_div(simp(n), 4) if hasattr(m, "_exact_div") and False else sx(m.np), 4)
        m.check(st, "one entry per message", n == sx(m.np) * 4, "memory", line)
        return [(st, p)]

    def init(m, st, args, rty, line):
        t = args[1]
        m.check(st, "the list of all messages of this id", z3.BoolVal(t.obj == m.tokfam and t.sub == m.m0), "protocol", line)
        st.ghost["list"], st.ghost["k"] = t.fid, bv(0, 32)
        st.assume(LEN(t.fid) >= 0)
        return [(st, None)]

    def read(m, st, args, rty, line):
        t, k = st.ghost["list"], st.ghost["k"]
        s2 = st.copy()
        s2.assume(k >= LEN(t))
        x = ITEM(t, k)
        st.assume(k < LEN(t), k >= 0, x >= 0, x < m.np, CLASS(x) == TC(t))
        m.poke(st, args[1], x, 32)
        st.ghost["k"] = k + 1
        return [(st, bv(1, 32)), (s2, bv(0, 32))]

    def free(m, st, args, rty, line):
        return [(st, None)]
    read.priority = init.priority = True
    externs = {"safe_malloc": alloc, "matches_int_list_reader_init": init, "int_list_reader_read": read}

    def setup(self, c):
        m, st = c.m, c.st
        F = m.field
        db = m.new_cells(st, "db", F("database", "__size")[0])
        tt = m.new_cells(st, "msg_ids", F("toktable2", "__size")[0])
        np, sm = fresh("np", 32), fresh("sm", 32)
        st.assume(np >= 0, np < (1 << 29), sm >= 0, sm < (1 << 29))
        m.np = np
        m.m0 = F("token2", "match0")[0]
        k = m.new_fam(st, "tokens", {m.m0: 64}, esize=F("token2", "__size")[0])
        m.tokfam = k.obj if isinstance(k, Ptr) else k

        def dec(m_, s, v, p):
            return [(z3.Not(HAS(p.idx)), NULL), (HAS(p.idx), Ptr(m.tokfam, None, 0, p.idx))]

        def enc(m_, s, v, p):
            raise Unsupported("token table changed")
        toks = m.new_arr(st, "slots", sx(sm), 8, fields={0: (PtrField(dec, enc), fresh("slots", z3.ArraySort(BV64, BV64)))}, ro=True)
        v = View(m, st)
        v.set(tt, "toktable2", "size", sm)
        v.set(tt, "toktable2", "tokens", toks)
        v.set(db, "database", "n_msgs", np)
        v.set(db, "database", "msg_ids", tt)
        ms = F("msgpath", "__size")[0]
        msgs = m.new_arr(st, "msgs", sx(np), ms, fields={F("msgpath", "tid")[0]: 32})
        v.set(db, "database", "msgs", msgs)
        m.msgs, m.tidoff = msgs, F("msgpath", "tid")[0]
        st.ghost["list"], st.ghost["k"] = bv(0), bv(0, 32)
        st.ghost["A1"] = st.ghost["T0"] = z3.Const("noarray", ARR)
        st.assume(I0 >= 0, I0 < np, J0 >= 0, J0 < np, M0 >= 0, M0 < sx(sm), HAS(M0), KA >= 0, KB >= 0, KA < LEN(M0), KB < LEN(M0))
        for K in (KA, KB):
            st.assume(ITEM(M0, K) >= 0, ITEM(M0, K) < np)
        return dict(db=db)

    def tid(self, v):
        return v.data(v.m.msgs, v.m.tidoff) if False else v.st.mem[v.m.msgs.obj].fields[v.m.tidoff][1]

    def assigns(self, c):
        return [("any", c.m.msgs)]

    def ensures(self, c):
        t = self.tid(c.S)
        a, b = ITEM(M0, KA), ITEM(M0, KB)
        return [("messages that share an id are in one thread", get(t, a) == get(t, b)),
                ("messages that nothing connects are in different threads", z3.Implies(get(t, I0) == get(t, J0), CLASS(I0) == CLASS(J0))),
                ("thread numbers are small", z3.And(get(t, I0) >= 0, get(t, I0) <= I0))]

    def ix(self, c):
        return c.S.data(c.S["ix"])

    def together(self, A):
        return ROOT(A, ITEM(M0, KA)) == ROOT(A, ITEM(M0, KB))

    def inv_init(self, c):
        A, i = self.ix(c), c.S["i"]
        k = z3.BitVec("k!ti", 64)
        pat = dict(patterns=[z3.Select(A, k)]) if A.num_args() == 0 else {}
        return [("range", z3.And(i >= 0, i <= c.m.np)), ("alone", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sx(i)), sx(z3.Select(A, k)) == k), **pat))]

    def inv_tok(self, c):
        A, mm = self.ix(c), c.S["m"]
        return [("range", z3.And(mm >= 0, sx(mm) <= c.S.count(c.O.f(c.S.f(c.a["db"], "database", "msg_ids"), "toktable2", "tokens")))),
                ("pointers", wf(A, c.m.np, "tt")), ("done ids are together", z3.Implies(M0 < sx(mm), self.together(A)))]

    def inv_list(self, c):
        A, mm, first, nb = self.ix(c), c.S["m"], c.S["first"], c.S["new_base"]
        k, lst = c.g["k"], c.g["list"]
        a, b = ITEM(M0, KA), ITEM(M0, KB)
        return [("list", z3.And(lst == sx(mm), k >= 0, k <= LEN(lst), z3.Or(first == 0, first == 1), (first == 1) == (k == 0), sx(mm) < c.S.count(c.O.f(c.S.f(c.a["db"], "database", "msg_ids"), "toktable2", "tokens")), mm >= 0)),
                ("base", z3.If(k == 0, nb == -1, z3.And(nb >= 0, nb < c.m.np, get(A, nb) == nb, CLASS(nb) == TC(lst)))),
                ("pointers", wf(A, c.m.np, "tl")), ("done ids are together", z3.Implies(M0 < sx(mm), self.together(A))),
                ("this list so far", z3.Implies(M0 == sx(mm), z3.And(z3.Implies(KA < k, ROOT(A, a) == nb), z3.Implies(KB < k, ROOT(A, b) == nb))))]

    def def_list(self, c):
        A, nb = self.ix(c), c.S["new_base"]
        cur = ITEM(c.g["list"], c.g["k"])
        ob = ROOT(A, cur)
        r = []
        for x in (ITEM(M0, KA), ITEM(M0, KB), cur):
            r += [link_lemma(A, nb, ob, x), link_lemma(A, ob, nb, x)]
        return r + [root_def(A, nb), root_def(A, ob)]

    # the array while it is flattened and the numbers while they are given out, as the results of single stores; what
    # a store sequence holds at a place (FLsel, NUMsel) and what a root is (rootfacts) are inductions, see the lemmas
    def FLsel(self, A1, i, k):
        return z3.Implies(z3.And(k >= 0, i >= 0), get(FL(A1, i), k) == z3.If(k < i, ROOT(A1, k), get(A1, k)))

    def rootfacts(self, c, A1, k):
        r = ROOT(A1, k)
        return z3.Implies(z3.And(k >= 0, k < c.m.np), z3.And(r >= 0, r <= k, get(A1, r) == r, CLASS(r) == CLASS(k), ROOT(A1, r) == r, root_def(A1, k)))

    def inv_flat(self, c):
        A, i = self.ix(c), c.S["i"]
        c.g["A1"] = A1 = c.E.data(c.E["ix"])
        return [("range", z3.And(i >= 0, i <= c.m.np)), ("flat so far", A == FL(A1, i))]

    def def_flat(self, c):
        A1, i = c.E.data(c.E["ix"]), c.S["i"]
        x = get(A1, i)
        return [FL(A1, bv(0, 32)) == A1, FL(A1, i + 1) == z3.Store(FL(A1, i), sx(i), ROOT(A1, i)), z3.Implies(z3.And(i >= 0, i < c.m.np), z3.And(x >= 0, x <= i)),
                self.rootfacts(c, A1, i), self.rootfacts(c, A1, x), self.FLsel(A1, i, i), self.FLsel(A1, i, x)]

    def points(self):
        return [I0, J0, ITEM(M0, KA), ITEM(M0, KB)]

    def inv_num(self, c):
        A, i, t, nx = self.ix(c), c.S["i"], self.tid(c.S), c.S["next_tid"]
        T0 = self.tid(c.E)
        c.g["T0"] = T0
        A1 = c.g["A1"]
        r = [("range", z3.And(i >= 0, i <= c.m.np, nx == RANK(i), nx >= 0, nx <= i)), ("flat", A == FL(A1, c.m.np)), ("numbers so far", t == NUM(T0, A1, i))]
        for x in (I0, J0):
            rt = ROOT(A1, x)
            r.append(("ranks grow", z3.Implies(rt < i, z3.And(RANK(rt) < RANK(i), RANK(rt) >= 0, RANK(rt) <= rt))))
        a, b = ROOT(A1, I0), ROOT(A1, J0)
        r += [("ranks differ", z3.And(z3.Implies(z3.And(a < b, b < i), RANK(a) < RANK(b)), z3.Implies(z3.And(b < a, a < i), RANK(b) < RANK(a))))]
        return r

    def NUMsel(self, T0, A1, i, k):
        return z3.Implies(z3.And(k >= 0, i >= 0), get(NUM(T0, A1, i), k) == z3.If(k < i, RANK(ROOT(A1, k)), get(T0, k)))

    def def_num(self, c):
        A1, i, T0 = c.g["A1"], c.S["i"], self.tid(c.E)
        np = c.m.np
        rt = ROOT(A1, i)
        r = [RANK(bv(0, 32)) == 0, RANK(i + 1) == RANK(i) + z3.If(rt == i, bv(1, 32), bv(0, 32)), NUM(T0, A1, bv(0, 32)) == T0,
             NUM(T0, A1, i + 1) == z3.Store(NUM(T0, A1, i), sx(i), RANK(rt)), self.FLsel(A1, np, i), self.rootfacts(c, A1, i), self.NUMsel(T0, A1, i, rt)]
        for x in self.points():
            r += [self.rootfacts(c, A1, x), self.NUMsel(T0, A1, i, x)]
        return r

    def __init__(self):
        super().__init__()
        S = LoopSpec
        self.loops = {0: S(inv=self.inv_init), 1: S(inv=self.inv_tok), 2: S(inv=self.inv_list, assume=self.def_list),
                      3: S(inv=self.inv_flat, assume=self.def_flat), 4: S(inv=self.inv_num, assume=self.def_num)}


THREADS = [FindBase, Threading]
LEMMAS = [RootLink, RootFacts, StoreSequence]
CONTRACTS = THREADS
