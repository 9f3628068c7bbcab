"""tok.c: the open-addressing table of words.

A token is a number (0: empty slot); TXT names its text, HASHOF the hash of a text.  I0 and J0 are arbitrary slots, O0 is
an arbitrary slot before growing: what is proved for them holds for every slot.  A table is well formed when
  - a slot is reached from the home of its token over occupied slots only (PROBE),
  - a token's stored hash is the hash of its text,
  - no two slots hold tokens of the same text (UNIQUE).
The proofs use this at the slots they look at (instances of the precondition, stated in loop `assume`)."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract
from vc.ir import Unsupported

Bo = z3.BoolSort()
TXT = z3.Function("TextOf", BV64, BV64)
HASHOF = z3.Function("HashOf", BV64, z3.BitVecSort(32))
KEY = z3.BitVec("KEY", 64)                 # the text being added
LCF = z3.BitVec("LcText", 64)              # the copy made of it
NEW = z3.BitVec("NewToken", 64)
TEXTOF = z3.Function("TextPtr", BV64, BV64)
SRC = z3.Function("Source", BV64, BV64)    # new slot -> old slot
POS = z3.Function("Place", BV64, BV64)     # old slot -> new slot
I0, J0, O0 = z3.BitVecs("I0 J0 O0", 32)
P0 = z3.BitVec("P0", 64)
END = z3.BitVec("TextEnd", 64)
MAXSIZE = 1 << 29


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def T32(v):
    return z3.Extract(31, 0, v)


def home(f, mask):
    return HASHOF(TXT(f)) & mask


def dist(j, h, mask):
    return (j - h) & mask


def probe(t, mask, i, j):
    """slots between the home of slot i's token and slot i are occupied, in particular j"""
    f = z3.Select(t, zx(i))
    return z3.Implies(z3.And(f != 0, z3.ULT(dist(j, home(f, mask), mask), dist(i, home(f, mask), mask))), z3.Select(t, zx(j)) != 0)


def unique(t, i, j):
    a, b = z3.Select(t, zx(i)), z3.Select(t, zx(j))
    return z3.Implies(z3.And(a != 0, b != 0, TXT(a) == TXT(b)), i == j)


def slot(i, mask):
    return z3.ULE(i, mask)


class Table(Contract):
    file = "tok"
    two = False
    dry_all = True

    def s(self):
        return "token2" if self.two else "token"

    def tt(self):
        return "toktable2" if self.two else "toktable"

    def family(self, c):
        m, st = c.m, c.st
        tx = m.new_fam(st, "texts", {0: 8}, elem="arr", esize=1)
        tx = tx.obj if isinstance(tx, Ptr) else tx

        def dec(m_, s, v, p):
            v = simp(v)
            if z3.is_bv_value(v):
                return [(None, NULL if v.as_long() == 0 else Ptr(tx, bv(0), 0, v))]
            return [(v == 0, NULL), (v != 0, Ptr(tx, bv(0), 0, v))]

        def enc(m_, s, val, p):
            if val.null:
                return bv(0)
            if val.obj == getattr(m_, "lc", None):
                m_.check(s, "the token keeps the start of its text", val.idx == 0, "protocol", None)
                return LCF
            if val.obj == tx:
                return val.fid
            raise Unsupported("text pointer to something else")
        off = lambda f: m.field(self.s(), f)[0]
        toff = m.field(self.s(), "text")[0]
        hoff = m.field(self.s(), "hashval")[0]
        size = m.field(self.s(), "__size")[0]
        m0 = m.field(self.s(), "match0")[0]
        fields = {toff: (PtrField(dec, enc), z3.Const("TokText", z3.ArraySort(BV64, BV64))), hoff: (64, z3.Const("TokHash", z3.ArraySort(BV64, BV64))), m0: 64}
        if self.two:
            fields[m.field(self.s(), "match1")[0]] = 64
        tk = m.new_fam(st, "tokens", fields, esize=size)
        tk = tk.obj if isinstance(tk, Ptr) else tk
        m.tokfam, m.hoff, m.toff, m.m0 = tk, hoff, toff, m0
        m.m1 = m.field(self.s(), "match1")[0] if self.two else None

        def dect(m_, s, v, p):
            v = simp(v)
            if z3.is_bv_value(v):
                return [(None, NULL if v.as_long() == 0 else Ptr(tk, None, 0, v))]
            return [(v == 0, NULL), (v != 0, Ptr(tk, None, 0, v))]

        def enct(m_, s, val, p):
            if val.null:
                return bv(0)
            if val.obj != tk:
                raise Unsupported("slot of something else")
            return val.fid
        m.slotenc = PtrField(dect, enct)

    def table(self, c, empty):
        m, st = c.m, c.st
        t = m.new_cells(st, "table", m.field(self.tt(), "__size")[0])
        v = View(m, st)
        size = bv(0, 32) if empty else fresh("size", 32)
        mask = fresh("mask", 32) if empty else size - 1
        v.set(t, self.tt(), "size", size)
        v.set(t, self.tt(), "mask", simp(mask))
        v.set(t, self.tt(), "n", bv(0, 32) if empty else fresh("n", 32))
        v.set(t, self.tt(), "hwm", bv(0, 32) if empty else fresh("hwm", 32))
        if empty:
            v.set(t, self.tt(), "tokens", NULL)
        else:
            st.assume(size >= 1024, size <= MAXSIZE, size & (size - 1) == 0)
            v.set(t, self.tt(), "tokens", m.new_arr(st, "slots", zx(size), esize=8, fields={0: (m.slotenc, None)}))
        return t

    def get(self, v, c):
        """slots term, size, mask, n"""
        t = c.a["table"]
        p = v.f(t, self.tt(), "tokens")
        return (None if p.null else v.data(p)), v.f(t, self.tt(), "size"), v.f(t, self.tt(), "mask"), v.f(t, self.tt(), "n")

    def hash_ok(self, v, c, f):
        o = v.st.mem[v.m.tokfam]
        return z3.Select(o.fields[v.m.hoff][1], f) == zx(HASHOF(TXT(f)))


def alloc_slots(m, st, args, rty, line):
    n = m._exact_div(simp(args[2]), 8)
    return [(st, m.new_arr(st, "slots'", n, esize=8, fields={0: (m.slotenc, None)}))]


class Enlarge(Table):
    """every token of the old table is in the new one exactly once, at a place where it is found again"""
    name = "enlarge_toktable"
    pn = "table"
    externs = {"safe_malloc": alloc_slots}

    def setup(self, c):
        self.family(c)
        out = []
        base = c.st
        for empty in (True, False):
            c.st = base.copy()
            out.append((c.st, dict(table=self.table(c, empty))))
        c.st = base
        return out

    def requires(self, c):
        return []

    def shape(self, c):
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        return z3.And(size >= 1024, size <= 2 * MAXSIZE, size & (size - 1) == 0, mask == size - 1, n == n0, c.S.f(c.a["table"], self.tt(), "hwm") < size, c.S.f(c.a["table"], self.tt(), "hwm") > 0)

    def facts(self, c, i, j, o):
        """the new table at new slots i, j and old slot o"""
        t, size, mask, n = self.get(c.S, c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        fi = z3.Select(t, zx(i))
        r = [("every token is found by probing from its home", z3.Implies(z3.And(slot(i, mask), slot(j, mask)), probe(t, mask, i, j)))]
        if t0 is None:
            return r + [("empty", z3.Implies(slot(i, mask), fi == 0))]
        p = POS(zx(o))
        return r + [("nothing that was not there", z3.Implies(z3.And(slot(i, mask), fi != 0), z3.And(z3.ULE(T32(SRC(zx(i))), mask0), SRC(zx(i)) == zx(T32(SRC(zx(i)))), fi == z3.Select(t0, SRC(zx(i))), POS(SRC(zx(i))) == zx(i)))),
                    ("no token is lost", z3.Implies(z3.And(slot(o, mask0), z3.Select(t0, zx(o)) != 0), z3.And(z3.ULE(p, zx(mask)), z3.Select(t, p) == z3.Select(t0, zx(o)), SRC(p) == zx(o))))]

    def ensures(self, c):
        r = [("shape", self.shape(c))]
        return r + self.facts(c, I0, J0, O0)

    def effect(self, c, st, rty):
        m = c.m
        v = View(m, st)
        size0 = c.O.f(c.a["table"], self.tt(), "size")
        size = fresh("size", 32)
        st.assume(size == z3.If(size0 == 0, bv(1024, 32), size0 + size0))
        v.set(c.a["table"], self.tt(), "size", size)
        v.set(c.a["table"], self.tt(), "mask", size - 1)
        v.set(c.a["table"], self.tt(), "hwm", fresh("hwm", 32))
        v.set(c.a["table"], self.tt(), "tokens", m.new_arr(st, "slots'", zx(size), esize=8, fields={0: (m.slotenc, None)}))
        return [(st, None)]

    def assigns(self, c):
        r = [("any", c.a["table"])]
        p = c.O.f(c.a["table"], self.tt(), "tokens")
        return r + ([] if p.null else [("any", p)])

    def new(self, c):
        p = c.S.f(c.a["table"], self.tt(), "tokens")
        return c.S.data(p), c.S.count(p)

    def inv_clear(self, c):
        t, cnt = self.new(c)
        i = c.S["i#%d" % (0 if c.O.f(c.a["table"], self.tt(), "tokens").null else 1)]
        size = c.S.f(c.a["table"], self.tt(), "size")
        return [("index", z3.And(i >= 0, i <= size, cnt == zx(size))), ("cleared so far", z3.And(*[z3.Implies(z3.And(slot(k, size - 1), k < i), z3.Select(t, zx(k)) == 0) for k in (I0, J0)]))]

    def mid(self, c, i):
        t, cnt = self.new(c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        size, mask = c.S.f(c.a["table"], self.tt(), "size"), c.S.f(c.a["table"], self.tt(), "mask")
        r = [("index", z3.And(i >= 0, i <= size0, cnt == zx(size), c.S["old_size"] == size0, c.S.data(c.S["old_tokens"]) == t0)),
             ("reachable", z3.Implies(z3.And(slot(I0, mask), slot(J0, mask)), probe(t, mask, I0, J0)))]
        for nm, k in (("I", I0), ("J", J0)):
            f = z3.Select(t, zx(k))
            s = SRC(zx(k))
            r.append(("nothing new " + nm, z3.Implies(z3.And(slot(k, mask), f != 0), z3.And(s >= 0, s < zx(i), f == z3.Select(t0, s), POS(s) == zx(k)))))
        p = POS(zx(O0))
        f = z3.Select(t0, zx(O0))
        r.append(("nothing lost", z3.Implies(z3.And(slot(O0, mask0), O0 < i, f != 0), z3.And(z3.ULE(p, zx(mask)), z3.Select(t, p) == f, SRC(p) == zx(O0)))))
        return r

    def inv_move(self, c):
        return self.mid(c, c.S["i#1"])

    def inv_probe(self, c):
        t, cnt = self.new(c)
        t0, size0, mask0, n0 = self.get(c.O, c)
        i, x = c.S["i#1"], c.S["new_index"]
        size, mask = c.S.f(c.a["table"], self.tt(), "size"), c.S.f(c.a["table"], self.tt(), "mask")
        f = z3.Select(t0, zx(i))
        h = home(f, mask)
        r = [("index", z3.And(i >= 0, i < size0, f != 0, z3.ULE(x, zx(mask))))]
        for nm, k in (("I", I0), ("J", J0)):
            r.append(("occupied behind " + nm, z3.Implies(z3.And(slot(k, mask), z3.ULT(dist(k, h, mask), dist(T32(x), h, mask))), z3.Select(t, zx(k)) != 0)))
        return r + [("kept: " + n, g) for n, g in self.mid(c, i)]

    def def_move(self, c):
        t0 = self.get(c.O, c)[0]
        f = z3.Select(t0, zx(c.S["i#1"]))
        return [z3.Implies(f != 0, self.hash_ok(c.O, c, f))]

    def def_probe(self, c):
        t, cnt = self.new(c)
        i, x = c.S["i#1"], c.S["new_index"]
        # definition: the slot a token is put into
        return self.def_move(c) + [z3.Implies(z3.Select(t, x) == 0, z3.And(SRC(x) == zx(i), POS(zx(i)) == x))]

    def __init__(self):
        super().__init__()
        L = LoopSpec
        self.loops = {0: L(inv=self.inv_clear), 1: L(inv=self.inv_clear), 2: L(inv=self.inv_move, assume=self.def_move), 3: L(inv=self.inv_probe, assume=self.def_probe)}


class Enlarge2(Enlarge):
    name = "enlarge_toktable2"
    two = True


class Add(Table):
    """the message is recorded once under exactly this word; a word is entered only if it is not in the table"""
    name = "add_token_in_file"
    pn = "file_index hash_key tok_text table"

    def setup(self, c):
        self.family(c)
        m = c.m
        m.con = self
        out = []
        tx = m.new_arr(c.st, "tok_text", fresh("tn", 64), nul=END, ro=True)
        m.orig = c.st.mem[tx.obj].fields[0][1]
        base = c.st
        for empty in (True, False):
            c.st = base.copy()
            d = dict(file_index=fresh("file_index", 32), hash_key=fresh("hash_key", 32), tok_text=tx, table=self.table(c, empty))
            if self.two:
                d["add_to_chain1"] = fresh("add_to_chain1", 32)
            g = c.st.ghost
            g["added"], g["new"], g["token"], g["enlarged"] = bv(0, 32), z3.BoolVal(False), bv(0), bv(0)
            g["added1"], g["hashed"] = bv(0, 32), z3.BoolVal(False)
            out.append((c.st, d))
        c.st = base
        return out

    def requires(self, c):
        d = c.S.data(c.a["tok_text"])
        k = z3.BitVec("k!tk", 64)
        t, size, mask, n = self.get(c.S, c)
        hwm = c.S.f(c.a["table"], self.tt(), "hwm")
        return [("a string", z3.And(c.a["tok_text"].idx == 0, END >= 0, END < c.S.count(c.a["tok_text"]), END < (1 << 31), z3.Select(d, END) == 0)),
                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < END), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])),
                ("count", z3.And(n >= 0, n <= hwm, hwm <= size)), ("a new token is none of the table", z3.And(NEW != 0, TXT(NEW) == KEY, LCF != 0, TEXTID(LCF) == KEY))]

    def lower(self, x):
        return z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)

    def hashfn(m, st, args, rty, line):
        con = m.con
        p, n, k = args
        d = m.arr_term(st, p)
        m.lc = p.obj
        m.check(st, "the word is looked up in lower case", z3.And(p.idx == 0, z3.Implies(z3.And(P0 >= 0, P0 <= END), z3.Select(d, P0) == con.lower(z3.Select(m.orig, P0)))), "protocol", line)
        m.check(st, "hashed as a whole, with the key of the database", z3.And(zx(n) == END, k == m.cur_args["hash_key"]), "protocol", line)
        m.assumptions.add("hash.c: hashfn depends on nothing but the bytes, the length and the key")
        st.ghost["hashed"] = z3.BoolVal(True)
        m.lcterm = d
        return [(st, HASHOF(KEY))]

    def strcmp(m, st, args, rty, line):
        m.assumptions.add("libc:strcmp")
        a, b = args
        if a.null or b.null:
            m.check(st, "null-deref(strcmp)", False, "memory", line)
            return []
        fam = [x for x in (a, b) if isinstance(x, Ptr) and x.obj is not None and st.mem[x.obj].name == "texts"]
        lc = [x for x in (a, b) if isinstance(x, Ptr) and x.obj is not None and x.obj == getattr(m, "lc", None)]
        if len(fam) != 1 or len(lc) != 1:
            raise Unsupported("strcmp of something else")
        if not z3.eq(m.arr_term(st, lc[0]), m.lcterm):
            raise Unsupported("the text changed after hashing")
        m.check(st, "compares the word with the text of the token", lc[0].idx == 0, "protocol", line)
        r = fresh("strcmp", 32)
        st.assume((r == 0) == (TEXTID(fam[0].fid) == KEY))
        return [(st, r)]

    def new_token(m, st, args, rty, line):
        m.check(st, "one token is made", z3.Not(st.ghost["new"]), "protocol", line)
        st.ghost["new"] = z3.BoolVal(True)
        return [(st, Ptr(m.tokfam, None, 0, NEW))]

    def enlarge_list(m, st, args, rty, line):
        if not isinstance(args[0], Ptr) or args[0].obj != m.tokfam:
            m.check(st, "a list of the table is enlarged", False, "protocol", line)
            return []
        st.ghost["enlarged"] = which(m, args[0])
        return [(st, None)]

    def insert(m, st, args, rty, line):
        p, idx = args
        if not isinstance(p, Ptr) or p.obj != m.tokfam or p.sub not in (m.m0, m.m1):
            m.check(st, "records in a list of the table", False, "protocol", line)
            return []
        m.check(st, "there is room in the list", st.ghost["enlarged"] == which(m, p), "protocol", line)
        m.check(st, "the message itself is recorded", idx == m.cur_args["file_index"], "protocol", line)
        st.ghost["enlarged"] = bv(0)
        if p.sub == m.m0:
            st.ghost["added"] = simp(st.ghost["added"] + 1)
            st.ghost["token"] = p.fid
        else:
            st.ghost["added1"] = simp(st.ghost["added1"] + 1)
            m.check(st, "in both lists of the same word", z3.And(st.ghost["added"] == 1, st.ghost["token"] == p.fid), "protocol", line)
        return [(st, None)]

    externs = {"hashfn": hashfn, "strcmp": strcmp, "new_token": new_token, "new_token2": new_token, "check_and_enlarge_encoding": enlarge_list, "insert_index_on_encoding": insert}

    def assigns(self, c):
        r = [("any", c.a["table"]), ("any", c.m.tokfam)]
        p = c.O.f(c.a["table"], self.tt(), "tokens")
        return r + ([] if p.null else [("any", p)])

    def text_ok(self, v, f):
        """the text pointer of token f leads to its text"""
        o = v.st.mem[v.m.tokfam]
        x = z3.Select(o.fields[v.m.toff][1], f)
        return z3.And(TEXTID(x) == TXT(f), x != 0)

    def ensures(self, c):
        t, size, mask, n = self.get(c.S, c)
        if t is None:
            return [("a table", z3.BoolVal(False))]
        n0 = self.get(c.O, c)[3]
        g = c.g
        x = View(c.m, c.st, c.fr)["index"]
        f = z3.Select(t, zx(x))
        new = g["new"]
        r = [("the message is recorded exactly once", g["added"] == 1),
             ("under this word, which is in the table", z3.And(slot(x, mask), f == g["token"], TXT(f) == KEY, f != 0)),
             ("its text and hash are stored", z3.And(self.hash_ok(c.S, c, f), self.text_ok(c.S, f))),
             ("the count is right", n == z3.If(new, n0 + 1, n0)),
             ("a known word is not entered again", z3.Implies(z3.And(slot(I0, mask), z3.Select(t, zx(I0)) != 0, TXT(z3.Select(t, zx(I0))) == KEY), I0 == x)),
             ("every token is still found", z3.Implies(z3.And(slot(I0, mask), slot(J0, mask)), probe(t, mask, I0, J0))),
             ("other slots are as before", z3.Implies(z3.And(slot(I0, mask), I0 != x), z3.Select(t, zx(I0)) == z3.Select(self.before(c), zx(I0))))]
        if self.two:
            r.append(("the second list only where asked for", g["added1"] == z3.If(c.a["add_to_chain1"] != 0, bv(1, 32), bv(0, 32))))
        return r

    def before(self, c):
        """the slots before the entry was made: of the table handed in, or of the enlarged one"""
        p = c.S.f(c.a["table"], self.tt(), "tokens")
        t = c.S.data(p)
        while z3.is_store(t):
            t = t.arg(0)
        return t

    def inv_lower(self, c):
        p, lc = c.S["p"], c.S["lc_tok_text"]
        i = p.idx
        d = c.S.data(lc)
        k = z3.BitVec("k!lc", 64)
        d0 = c.O.data(c.a["tok_text"])
        return [("position", z3.And(z3.BoolVal(p.obj == lc.obj), i >= 0, i <= END, lc.idx == 0, END < c.S.count(lc))),
                ("lower case so far", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= END), z3.Select(d, k) == z3.If(k < i, self.lower(z3.Select(d0, k)), z3.Select(d0, k))), **(dict(patterns=[z3.Select(d, k)]) if d.num_args() == 0 else {})))]

    def inv_probe(self, c):
        t, size, mask, n = self.get(c.S, c)
        x = c.S["index"]
        h = HASHOF(KEY) & mask
        r = [("index", slot(x, mask))]
        for nm, k in (("I", I0), ("J", J0)):
            f = z3.Select(t, zx(k))
            r.append(("passed over " + nm, z3.Implies(z3.And(slot(k, mask), z3.ULT(dist(k, h, mask), dist(x, h, mask))), z3.And(f != 0, TXT(f) != KEY))))
        return r

    def def_probe(self, c):
        """instances of well-formedness of the table (as handed in, or as enlarge_toktable made it)"""
        t, size, mask, n = self.get(c.S, c)
        x = c.S["index"]
        r = []
        for k in (I0, J0, x):
            f = z3.Select(t, zx(k))
            r.append(z3.Implies(z3.And(slot(k, mask), f != 0), z3.And(self.hash_ok(c.S, c, f), self.text_ok(c.S, f), f != NEW)))
        for i, j in ((I0, J0), (I0, x), (J0, x)):
            r.append(z3.Implies(z3.And(slot(i, mask), slot(j, mask)), z3.And(probe(t, mask, i, j), unique(t, i, j))))
        return r

    def __init__(self):
        super().__init__()
        L = LoopSpec
        self.loops = {0: L(inv=self.inv_lower), 1: L(inv=self.inv_probe, assume=self.def_probe)}


TEXTID = z3.Function("TextAt", BV64, BV64)


def which(m, p):
    return simp(p.fid * 2 + (1 if p.sub == m.m1 else 0) + 1)


class Add2(Add):
    name = "add_token2_in_file"
    pn = "file_index hash_key tok_text table add_to_chain1"
    two = True


CONTRACTS = [Enlarge, Enlarge2, Add, Add2]
