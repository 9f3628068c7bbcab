"""search.c: which messages a word or substring marks, on a well-formed database"""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract, Lemma
from vc.ir import Unsupported
from contracts import postings
from contracts.rdb import *
from contracts import matching as M
from contracts.matching import PLEN, P, FZ, TLEN, W, tok_ok

ANY = z3.Function("AnyHit", BV64, BV64, BV64, z3.BoolSort())   # (kind, message, number of tokens considered)
KLEN = z3.BitVec("KLEN", 64)
EQ = z3.Function("TokenIsKey", BV64, z3.BoolSort())


def marked(h0, h1, n, pred, nm):
    """hits[m] becomes 1 where pred(m), and is unchanged elsewhere"""
    q = z3.BitVec("q!" + nm, 64)
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(h1, q) == z3.If(pred(q), bv(1, 8), z3.Select(h0, q))), patterns=[z3.Select(h1, q)])


class MarkHits(Contract):
    name, file = "mark_hits_in_table", "search"
    pn = "db tt hit_tok hits"
    two, enc = False, "enc_offsets"

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        return dict(db=db, tt=new_table(c, "tt", self.two), hit_tok=fresh("hit_tok", 32), hits=c.m.new_arr(c.st, "hits", sx(n)))

    def off(self, c):
        e = c.O.f(c.a["tt"], "toktable2_db" if self.two else "toktable_db", self.enc)
        return zx(z3.Select(c.O.data(e), sx(c.a["hit_tok"])))

    def requires(self, c):
        db = c.a["db"]
        n = c.S.f(db, "read_db", "n_msgs")
        tn = c.S.f(c.a["tt"], "toktable2_db" if self.two else "toktable_db", "n")
        e = c.S.f(c.a["tt"], "toktable2_db" if self.two else "toktable_db", self.enc)
        off = zx(z3.Select(c.S.data(e), sx(c.a["hit_tok"])))
        h = c.a["hits"]
        return [("token number inside the table", z3.And(c.a["hit_tok"] >= 0, z3.ULT(c.a["hit_tok"], tn))),
                ("hits has one byte per message", z3.And(h.idx == 0, c.S.count(h) >= sx(n))),
                ("list numbers are messages of this database", list_valid(off, n))]

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    def ensures(self, c):
        h = c.a["hits"]
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        off = self.off(c)
        return [("exactly the listed messages are marked", marked(c.O.data(h), c.S.data(h), n, lambda q: IN(off, q), "mh"))]

    def inv(self, c):
        h, n = c.a["hits"], sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        a, pos, end = postings.ilr(c.S, c.S.lptr("ilr"))
        off = self.off(c)
        k = IDX(off, pos.idx)
        q = z3.BitVec("q!mi", 64)
        h0, h1 = c.O.data(h), c.S.data(h)
        d = data_of(c, c.a["db"], c.O)
        return [("reader", z3.And(k >= 0, k <= NENT(off), pos.idx == POS(off, k), a == SUM(off, k), end.idx == d[2], pos.idx >= 0, pos.idx <= z3.If(off > d[2], off, d[2]))),
                ("marks so far", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(
                    z3.Or(z3.Select(h1, q) == z3.Select(h0, q), z3.And(z3.Select(h1, q) == 1, IN(off, q))),
                    z3.Implies(z3.And(IN(off, q), WK(off, q) < k), z3.Select(h1, q) == 1))), patterns=[z3.Select(h1, q)]))]

    def defs(self, c):
        d = data_of(c, c.a["db"], c.O)
        a, pos, end = postings.ilr(c.S, c.S.lptr("ilr"))
        off = self.off(c)
        return list_defs(d[1], d[2], off, IDX(off, pos.idx)) + in_defs(off)

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


class MarkHits2(MarkHits):
    name = "mark_hits_in_table2"
    two, enc = True, "enc1_offsets"


class GetToken(Contract):
    """get_db_token: the string at that offset if it is terminated inside the file, otherwise nothing; never reads outside"""
    name, file = "get_db_token", "reader"
    pn = "db token_offset"

    def setup(self, c):
        return dict(db=new_db(c), token_offset=fresh("off", 32))

    def requires(self, c):
        # at a call site the data of any database will do
        return [("length known", c.S.f(c.a["db"], "read_db", "len") >= 0),
                ("data has that length", c.S.count(c.S.f(c.a["db"], "read_db", "data")) == sx(c.S.f(c.a["db"], "read_db", "len")))]

    def ensures(self, c):
        p, d, n = data_of(c, c.a["db"], c.O)
        s = zx(c.a["token_offset"])
        k = z3.BitVec("k!gt", 64)
        if c.ret.null:
            return [("no terminator before the end", z3.ForAll([k], z3.Implies(z3.And(k >= s, k < n), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]
        if c.ret.obj != p.obj:
            return [("points into the file", z3.BoolVal(False))]
        w = View(c.m, c.st, c.fr)["p"].idx - 1 if getattr(c, "fr", None) is not None else None
        r = [("points at the token", c.ret.idx == s)]
        if w is not None:
            r.append(("terminated inside the file", z3.And(w >= s, w < n, z3.Select(d, w) == 0)))
        return r

    def effect(self, c, st, rty):
        p, d, n = data_of(c, c.a["db"], c.O)
        s = zx(c.a["token_offset"])
        k = z3.BitVec("k!ge", 64)
        st2 = st.copy()
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= s, k < n), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))
        w = fresh("nulpos", 64)
        st2.assume(w >= s, w < n, z3.Select(d, w) == 0)
        return [(st, NULL), (st2, Ptr(p.obj, s))]

    def inv(c):
        p, d, n = data_of(c, c.a["db"], c.O)
        s = zx(c.a["token_offset"])
        k = z3.BitVec("k!gi", 64)
        q = c.S["p"].idx
        return [("position", z3.And(q >= s, z3.Or(q <= n, q == s))),
                ("no terminator so far", z3.ForAll([k], z3.Implies(z3.And(k >= s, k < q), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]
    loops = {0: LoopSpec(inv=inv)}


class TableLoop(Contract):
    """common part: for every token of the table that matches, mark the messages of its list"""
    file = "search"
    two = False
    tab = "toktable_db"
    enc = "enc_offsets"
    kind = 0

    def n(self, c):
        return sx(c.O.f(c.a["db"], "read_db", "n_msgs"))

    def tok(self, c, t, view=None):
        v = view or c.O
        return zx(z3.Select(v.data(v.f(c.a["tt"], self.tab, "tok_offsets")), t))

    def lst(self, c, t, view=None):
        v = view or c.O
        return zx(z3.Select(v.data(v.f(c.a["tt"], self.tab, self.enc)), t))

    def tn(self, c, view=None):
        v = view or c.O
        return zx(v.f(c.a["tt"], self.tab, "n"))

    def valid(self, c):
        db = c.a["db"]
        p, d, ln = data_of(c, db)
        t, k = z3.BitVecs("t!v k!v", 64)
        n = c.S.f(db, "read_db", "n_msgs")
        tt = self.tok(c, t, c.S)
        l = self.lst(c, t, c.S)
        inr = z3.And(t >= 0, t < self.tn(c, c.S))
        h = c.a["hits"]
        return [("hits has one byte per message", z3.And(h.idx == 0, c.S.count(h) >= sx(n))),
                ("fewer than 2^31 tokens", self.tn(c, c.S) < (1 << 31))] + ([] if self.proving else [
                ("tokens are terminated inside the file", z3.ForAll([t], z3.Implies(inr, z3.And(tt >= 0, TLEN(tt) >= 0, TLEN(tt) < ln - tt, z3.Select(d, tt + TLEN(tt)) == 0)), patterns=[TLEN(tt)])),
                ("and start there", z3.ForAll([t, k], z3.Implies(z3.And(inr, k >= tt, k < tt + TLEN(tt)), z3.Select(d, k) != 0), patterns=[z3.MultiPattern(TLEN(tt), z3.Select(d, k))])),
                ("lists name messages of this database", z3.ForAll([t, k], z3.Implies(z3.And(inr, k >= 0, k < NENT(l)), z3.And(SUM(l, k + 1) >= 0, SUM(l, k + 1) < n)), patterns=[z3.MultiPattern(SUM(l, k + 1), TLEN(tt))]))])

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    def any(self, c, q, t):
        return ANY(bv(self.kind), q, t)

    def ensures(self, c):
        h = c.a["hits"]
        return [("exactly the messages listed for a matching token are marked",
                 z3.Implies(self.spec(c), marked(c.O.data(h), c.S.data(h), self.n(c), lambda q: self.any(c, q, self.tn(c)), "ta")))]

    def spec(self, c):
        return z3.BoolVal(True)

    def inv(self, c):
        h, i = c.a["hits"], c.S["i"]
        return [("index", z3.And(i >= 0, sx(i) <= self.tn(c))),
                ("marks so far", z3.Implies(self.spec(c), marked(c.O.data(h), c.S.data(h), self.n(c), lambda q: self.any(c, q, sx(i)), "ti")))] + self.extra(c)

    def extra(self, c):
        return []

    def hit(self, c, t):
        raise NotImplementedError

    def defs(self, c):
        i = sx(c.S["i"])
        q = z3.BitVec("q!td", 64)
        A = lambda t: self.any(c, q, t)
        # definition: AnyHit over the first t tokens
        return [z3.ForAll([q], z3.And(z3.Not(A(bv(0))), A(i + 1) == z3.Or(A(i), z3.And(self.hit(c, i), IN(self.lst(c, i), q)))), patterns=[A(i + 1), A(i)]),
                z3.ForAll([q], z3.Not(A(bv(0))), patterns=[A(bv(0))]),
                TLEN(self.tok(c, i)) == TLEN(self.tok(c, i)), self.inst(c, i)]

    def inst(self, c, i):
        """instance of the well-formedness precondition at token i"""
        p, d, ln = data_of(c, c.a["db"], c.O)
        tt, l = self.tok(c, i), self.lst(c, i)
        k = z3.BitVec("k!ins", 64)
        n = c.O.f(c.a["db"], "read_db", "n_msgs")
        return z3.Implies(z3.And(i >= 0, i < self.tn(c)), z3.And(tok_ok(d, tt, ln), list_valid(l, n)))

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


class MatchSub(TableLoop):
    name = "match_substring_in_table"
    pn = "db tt substring max_errors left_anchor hits"
    kind = 1
    dry_all = False
    max_paths = 20000
    timeout = 40.0

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        cnt = fresh("slen", 64)
        return dict(db=db, tt=new_table(c, "tt"), substring=c.m.new_arr(c.st, "substring", cnt, nul=PLEN),
                    max_errors=fresh("max_errors", 32), left_anchor=fresh("left_anchor", 32), hits=c.m.new_arr(c.st, "hits", sx(n)))

    def requires(self, c):
        bvec = M.BuildVector()
        return self.valid(c) + bvec.requires(c) + [("error count in range", z3.And(c.a["max_errors"] >= 0, c.a["max_errors"] < 0x7fffffff))]

    def spec(self, c):
        return z3.Or(c.a["max_errors"] == 0, c.a["left_anchor"] == 0)

    def hit(self, c, t):
        return FZ(sx(c.a["max_errors"]), c.a["left_anchor"], self.tok(c, t))

    def extra(self, c):
        r = c.S["r"]
        me = c.a["max_errors"]
        a = c.S.data(c.S["a"]) if isinstance(c.S["a"], Ptr) else None
        hit = c.S["hit"]
        return [("vector", z3.And(M.pat_ok(), hit == ~(bv(1) << (PLEN - 1)), M.vector_ok(a))),
                ("work arrays", z3.Implies(me > 3, z3.BoolVal(not (r.null or c.S["nr"].null))))]


class MatchStr(TableLoop):
    name = "match_string_in_table"
    pn = "db tt key hits"
    kind = 2
    timeout = 40.0

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        key = c.m.new_arr(c.st, "key", fresh("kn", 64), nul=KLEN)
        return dict(db=db, tt=new_table(c, "tt", self.two), key=key, hits=c.m.new_arr(c.st, "hits", sx(n)))

    def requires(self, c):
        key = c.a["key"]
        d = c.S.data(key)
        k = z3.BitVec("k!key", 64)
        return self.valid(c) + [("key is a string of length KLEN", z3.And(key.idx == 0, KLEN >= 0, KLEN < c.S.count(key), z3.Select(d, KLEN) == 0)),
                                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < KLEN), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]

    def hit(self, c, t):
        return EQ(self.tok(c, t))

    def strcmp(self, m, st, args, rty, line):
        """strcmp(key, token) is zero exactly when the token is the key (EQ names string equality with the key)"""
        m.assumptions.add("libc:strcmp")
        k, t = args
        if k.null or t.null:
            m.check(st, "null-deref(strcmp)", False, "memory", line)
            return []
        key, dd = m.cur_args["key"], m.old_view.f(m.cur_args["db"], "read_db", "data")
        if k.obj == dd.obj:
            k, t = t, k
        if k.obj != key.obj or t.obj != dd.obj:
            raise Unsupported("strcmp of something else")
        d = m.arr_term(st, t)
        m.check(st, "terminated-string(strcmp)", z3.And(k.idx == 0, t.idx >= 0, TLEN(t.idx) >= 0, TLEN(t.idx) < m.old_view.count(dd) - t.idx, z3.Select(d, t.idx + TLEN(t.idx)) == 0), "memory", line)
        r = fresh("strcmp", 32)
        st.assume((r == 0) == EQ(t.idx))
        return [(st, r)]

    def __init__(self):
        super().__init__()
        self.externs = {"strcmp": self.strcmp}


class MatchStr2(MatchStr):
    name = "match_string_in_table2"
    two, tab, enc = True, "toktable2_db", "enc1_offsets"


PDEAD = z3.Function("PathDead", BV64, z3.BoolSort())
PHIT = z3.Function("PathHit", BV64, z3.BoolSort())


def le32(d, p):
    return z3.Concat(*[z3.Select(d, p + k) for k in (3, 2, 1, 0)])


class MatchPaths(Contract):
    """each live message whose path (or whose mbox's path) matches is marked; others keep their mark, dead ones never have one"""
    name, file = "match_substring_in_paths", "search"
    pn = "db substring max_errors left_anchor hits"
    max_paths = 20000
    dry_all = False
    timeout = 40.0

    def setup(self, c):
        db = new_db(c)
        n = c.m.peek(c.st, db.at(c.m.field("read_db", "n_msgs")[0]), 32)
        return dict(db=db, substring=c.m.new_arr(c.st, "substring", fresh("slen", 64), nul=PLEN), max_errors=fresh("max_errors", 32),
                    left_anchor=fresh("left_anchor", 32), hits=c.m.new_arr(c.st, "hits", sx(n)))

    def typ(self, c, i):
        return z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "msg_type_and_flags")), i) & 7

    def off(self, c, i):
        return zx(z3.Select(c.O.data(c.O.f(c.a["db"], "read_db", "path_offsets")), i))

    def mb(self, c, i):
        p, d, n = data_of(c, c.a["db"], c.O)
        return le32(d, self.off(c, i))

    def mpath(self, c, i):
        bp = c.O.data(c.O.f(c.a["db"], "read_db", "mbox_paths_table"))
        return zx(z3.Select(bp, zx(self.mb(c, i))))

    def ok(self, c, i):
        """well-formedness of message i"""
        p, d, n = data_of(c, c.a["db"], c.O)
        t = self.typ(c, i)
        return z3.And(z3.ULE(t, 3), z3.Implies(z3.And(t != 0, t != 2), tok_ok(d, self.off(c, i), n)), z3.Implies(t == 2, tok_ok(d, self.mpath(c, i), n)),
                      z3.Implies(t == 2, z3.And(self.off(c, i) + 8 <= n, z3.ULT(self.mb(c, i), c.O.f(c.a["db"], "read_db", "n_mboxen")), c.O.f(c.a["db"], "read_db", "n_mboxen") >= 0)))

    def requires(self, c):
        h = c.a["hits"]
        n = sx(c.S.f(c.a["db"], "read_db", "n_msgs"))
        r = M.BuildVector().requires(c) + [("hits has one byte per message", z3.And(h.idx == 0, c.S.count(h) >= n)),
                                           ("error count in range", z3.And(c.a["max_errors"] >= 0, c.a["max_errors"] < 0x7fffffff))]
        if self.proving:
            return r
        i = z3.BitVec("i!mp", 64)
        return r + [("every message's path is a string inside the file", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), self.ok(c, i))))]

    def assigns(self, c):
        return [("obj", c.a["hits"])]

    def new(self, c, i, h0):
        # PathDead(i), PathHit(i): defined pointwise (see defs) by the message's type and path
        return z3.If(PDEAD(i), bv(0, 8), z3.Select(h0, i) | z3.If(PHIT(i), bv(1, 8), bv(0, 8)))

    def spec(self, c):
        return z3.Or(c.a["max_errors"] == 0, c.a["left_anchor"] == 0)

    def upto(self, c, i, nm):
        h = c.a["hits"]
        h0, h1 = c.O.data(h), c.S.data(h)
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        q = z3.BitVec("q!" + nm, 64)
        return z3.Implies(self.spec(c), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(h1, q) == z3.If(q < i, self.new(c, q, h0), z3.Select(h0, q))), patterns=[z3.Select(h1, q)]))

    def ensures(self, c):
        n = sx(c.O.f(c.a["db"], "read_db", "n_msgs"))
        return [("marked exactly when the path matches (or marked already)", self.upto(c, n, "mp"))]

    def inv(self, c):
        i = c.S["i"]
        r, me = c.S["r"], c.a["max_errors"]
        n = c.O.f(c.a["db"], "read_db", "n_msgs")
        return [("index", z3.And(i >= 0, i <= n)), ("marks so far", self.upto(c, sx(i), "mi")),
                ("vector", z3.And(M.pat_ok(), c.S["hit"] == ~(bv(1) << (PLEN - 1)), M.vector_ok(c.S.data(c.S["a"])))),
                ("work arrays", z3.Implies(me > 3, z3.BoolVal(not (r.null or c.S["nr"].null))))]

    def defs(self, c):
        # instance of the well-formedness precondition at message i
        i = sx(c.S["i"])
        f = lambda s: FZ(sx(c.a["max_errors"]), c.a["left_anchor"], s)
        t = self.typ(c, i)
        rng = z3.And(i >= 0, i < sx(c.O.f(c.a["db"], "read_db", "n_msgs")))
        return [z3.Implies(rng, x) if not z3.is_implies(x) else z3.Implies(z3.And(rng, x.arg(0)), x.arg(1)) for x in self.ok(c, i).children()] + [
                PDEAD(i) == (t == 0), z3.Implies(t == 2, PHIT(i) == f(self.mpath(c, i))), z3.Implies(t != 2, PHIT(i) == f(self.off(c, i)))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


CONTRACTS = [MarkHits, MarkHits2, GetToken, MatchSub, MatchStr, MatchStr2, MatchPaths]
SUPPORT = [c for c in postings.CONTRACTS] + M.CONTRACTS
