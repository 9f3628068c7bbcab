"""db.c: how text is cut into words.

P0 is an arbitrary position of the text: what is proved for it holds for every position."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract
from vc.ir import Unsupported

END = z3.BitVec("TextEnd", 64)
P0 = z3.BitVec("P0", 64)
TAG = z3.Function("InsideTag", BV64, z3.BoolSort())     # position is inside an HTML tag (between '<' and the next '>')
ONE = z3.BitVecVal(1, 8)


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def rng(x, a, b):
    return z3.And(z3.UGE(x, ord(a)), z3.ULE(x, ord(b)))


def word_char(x, mask):
    """letters, digits and '_'; with mask 2 also the characters of addresses"""
    w = z3.Or(rng(x, "0", "9"), rng(x, "A", "Z"), rng(x, "a", "z"), x == ord("_"))
    return z3.Or(w, z3.And(mask == 2, z3.Or(*[x == ord(k) for k in "+-.@"])))


class CharValid(Contract):
    name, file, pn = "char_valid_p", "db", "x mask"
    globals_init = {"special_table": "init"}

    def setup(self, c):
        return dict(x=fresh("x", 8), mask=fresh("mask", 32))

    def requires(self, c):
        return [("a mask in use", z3.Or(c.a["mask"] == 1, c.a["mask"] == 2))]

    def ensures(self, c):
        return [("word character", (c.ret != 0) == word_char(c.a["x"], c.a["mask"]))]


class Tokenise(Contract):
    name, file = "tokenise_string", "db"
    pn = "file_index hash_key table data match_mask"
    html = False

    def mask(self, c):
        return c.a["match_mask"] if not self.html else bv(1, 32)

    def setup(self, c):
        m, st = c.m, c.st
        r = dict(file_index=fresh("file_index", 32), hash_key=fresh("hash_key", 32), table=m.new_cells(st, "toktable", m.field("toktable", "__size")[0]),
                 data=m.new_arr(st, "data", fresh("n", 64), nul=END))
        if not self.html:
            r["match_mask"] = fresh("match_mask", 32)
        m.con = self
        m.orig = st.mem[r["data"].obj].fields[0][1]
        m.mask = r.get("match_mask", bv(1, 32))
        st.ghost["reported"] = bv(0, 32)       # how often position P0 was part of a reported word
        st.ghost["upto"] = bv(0)               # end of the last reported word
        return r

    def requires(self, c):
        p, d = c.a["data"], c.S.data(c.a["data"])
        k = z3.BitVec("k!tr", 64)
        return [("a string", z3.And(p.idx == 0, END >= 0, END < c.S.count(p), z3.Select(d, END) == 0)),
                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < END), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])),
                ("P0", z3.And(P0 >= 0, P0 < END))] + ([] if self.html else [("a mask in use", z3.Or(c.a["match_mask"] == 1, c.a["match_mask"] == 2))])

    def wordpos(self, d, i, mask):
        w = word_char(z3.Select(d, i), mask)
        return z3.And(z3.Not(TAG(i)), w) if self.html else w

    def add(m, st, args, rty, line):
        con = m.con
        fi, hk, t, tab = args
        a = m.cur_args
        if not isinstance(t, Ptr) or t.obj != a["data"].obj:
            m.check(st, "words come from the text", False, "protocol", line)
            return [(st, None)]
        d = m.arr_term(st, t)
        s = t.idx
        e = fresh("wordend", 64)
        k = z3.BitVec("k!tw", 64)
        V = lambda i: con.wordpos(m.orig, i, m.mask)
        # the end of the text handed over: its first NUL
        st.assume(e >= s, e <= END, z3.Select(d, e) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))
        m.check(st, "the word's message and table", z3.And(fi == a["file_index"], hk == a["hash_key"], z3.BoolVal(tab.obj == a["table"].obj)), "protocol", line)
        m.check(st, "inside the text, behind the previous word", z3.And(s >= st.ghost["upto"], s < e), "protocol", line)
        m.check(st, "spelt as in the text", z3.Implies(z3.And(P0 >= s, P0 < e), z3.Select(d, P0) == z3.Select(m.orig, P0)), "protocol", line)
        m.check(st, "nothing but word characters", z3.Implies(z3.And(P0 >= s, P0 < e), V(P0)), "protocol", line)
        m.check(st, "maximal to the left", z3.Or(s == 0, z3.Not(V(s - 1))), "protocol", line)
        m.check(st, "maximal to the right", z3.Or(e == END, z3.Not(V(e))), "protocol", line)
        st.ghost["reported"] = simp(st.ghost["reported"] + z3.If(z3.And(P0 >= s, P0 < e), bv(1, 32), bv(0, 32)))
        st.ghost["upto"] = e
        return [(st, None)]
    externs = {"add_token_in_file": add}

    def assigns(self, c):
        return [("obj", c.a["data"]), ("any", c.a["table"])]

    def ensures(self, c):
        d0 = c.O.data(c.a["data"])
        return [("every word character belongs to exactly one reported word", c.g["reported"] == z3.If(self.wordpos(d0, P0, self.mask(c)), bv(1, 32), bv(0, 32))),
                ("the text is left as it was", z3.Select(c.S.data(c.a["data"]), P0) == z3.Select(d0, P0))]

    def one(self, c, upto):
        d0 = c.O.data(c.a["data"])
        return c.g["reported"] == z3.If(z3.And(P0 < upto, self.wordpos(d0, P0, self.mask(c))), bv(1, 32), bv(0, 32))

    def inv0(self, c):
        s = c.S["ss"].idx
        d0 = c.O.data(c.a["data"])
        return [("position", z3.And(s >= 0, s <= END, c.g["upto"] >= 0, c.g["upto"] <= s)),
                ("reported so far", self.one(c, s)),
                ("no word runs on", z3.Or(s == 0, z3.Not(self.wordpos(d0, s, self.mask(c))))),
                ("text", c.S.data(c.a["data"]) == d0)]

    def inv1(self, c):
        s = c.S["ss"].idx
        d0 = c.O.data(c.a["data"])
        r = [("position", z3.And(s >= 0, s <= END, c.g["upto"] >= 0, c.g["upto"] <= s)),
             ("reported so far", self.one(c, s)),
             ("outside a word", z3.Or(s == 0, z3.Not(self.wordpos(d0, s - 1, self.mask(c))), z3.Not(self.wordpos(d0, s, self.mask(c))))),
             ("text", c.S.data(c.a["data"]) == d0)]
        if self.html:
            r.append(("outside a tag, or at its end", z3.Or(z3.Not(TAG(s)), z3.Select(d0, s) == ord(">"), s == END)))
        return r

    def inv_tag(self, c):
        s = c.S["ss"].idx
        d0 = c.O.data(c.a["data"])
        return [("position", z3.And(s > 0, s <= END, c.g["upto"] >= 0, c.g["upto"] < s)), ("reported so far", self.one(c, s)),
                ("inside a tag", TAG(s)), ("behind no word", z3.Not(self.wordpos(d0, s - 1, self.mask(c)))),
                ("text", c.S.data(c.a["data"]) == d0)]

    def inv2(self, c):
        s, e = c.S["ss"].idx, c.S["es"].idx
        d0 = c.O.data(c.a["data"])
        k = z3.BitVec("k!t2", 64)
        r = [("position", z3.And(s >= 0, s < e, e <= END)),
             ("inside a word", z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), self.wordpos(d0, k, self.mask(c))), patterns=[z3.Select(d0, k)])),
             ("text", c.S.data(c.a["data"]) == d0)]
        if self.html:
            r.append(("outside a tag", z3.Not(TAG(e))))
        return r

    def defs(self, var):
        def f(c):
            if not self.html:
                return []
            s = c.S[var].idx
            d0 = c.O.data(c.a["data"])
            ch = z3.Select(d0, s)
            return [z3.Not(TAG(bv(0))), TAG(s + 1) == z3.If(TAG(s), ch != ord(">"), ch == ord("<"))]
        return f

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv0, assume=self.defs("ss")), 1: LoopSpec(inv=self.inv1, assume=self.defs("ss")), 2: LoopSpec(inv=self.inv2, assume=self.defs("es"))}


class TokeniseHtml(Tokenise):
    name = "tokenise_html_string"
    pn = "file_index hash_key table data"
    html = True

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv0h, assume=self.defs("ss")), 1: LoopSpec(inv=self.inv1, assume=self.defs("ss")),
                      2: LoopSpec(inv=self.inv_tag, assume=self.defs("ss")), 3: LoopSpec(inv=self.inv2, assume=self.defs("es"))}

    def inv0h(self, c):
        return self.inv0(c) + [("outside a tag", z3.Not(TAG(c.S["ss"].idx)))]


CONTRACTS = [CharValid, Tokenise, TokeniseHtml]
