"""mbox.c: where messages of an mbox begin and end, and which of the known ones are still there.

P0 is an arbitrary position of the file: what is proved for it holds for every position."""
import z3
from vc.engine import Ptr, NULL, FnPtr, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract
from vc.ir import Unsupported

BV32, BV8 = z3.BitVecSort(32), z3.BitVecSort(8)
Bo = z3.BoolSort()
L = z3.BitVec("FileLength", 64)
P0 = z3.BitVec("P0", 64)
J0 = z3.BitVec("J0", 64)
NEXT = z3.Function("NextState", BV32, BV32, BV32)
PASS = z3.Function("StatePasses", BV32, Bo)
ACC = z3.Function("Accepts", BV64, BV32, Bo)       # reading from a position in a state reaches a passing state
CTOK = z3.Const("CharToken", z3.ArraySort(BV64, z3.BitVecSort(16)))
ATTR = z3.Const("StateAttr", z3.ArraySort(BV64, BV32))


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def at(d, p, s):
    return z3.And(*[z3.Select(d, p + i) == ch for i, ch in enumerate(s)])


DATE = z3.Function("GoodSeparator", BV64, Bo)      # what follows the space of 'From ' is an address and a date


def new_file(c):
    c.st.assume(L >= 0, L < (1 << 40))
    return c.m.new_arr(c.st, "file", L, ro=True)


class LooksFrom(Contract):
    name, file, pn = "looks_like_from_separator", "mbox", "n va len verbose"

    def next_state(m, st, args, rty, line):
        return [(st, NEXT(args[0], args[1]))]

    def tok(m, st, o):
        o.kind, o.count, o.esize, o.fields, o.cells, o.size = "arr", bv(256), 2, {0: (16, CTOK)}, None, None

    def attr(m, st, o):
        o.kind, o.count, o.esize, o.fields, o.cells, o.size = "arr", bv(1 << 20), 4, {0: (32, ATTR)}, None, None
    externs = {"fromcheck_next_state": next_state}
    globals_init = {"fromcheck_char2tok": tok, "fromcheck_attr": attr}

    def setup(self, c):
        n = fresh("n", 64)
        return dict(n=n, va=new_file(c), len=L, verbose=fresh("verbose", 32))

    def requires(self, c):
        return [("inside the file", z3.And(c.a["n"] >= 0, c.a["n"] < c.a["len"], c.a["va"].idx == 0, c.a["len"] <= c.S.count(c.a["va"])))]

    def ensures(self, c):
        n = c.a["n"]
        return [("accepts what the automaton accepts", (c.ret != 0) == (ACC(n + 1, bv(0, 32)) if self.proving else DATE(n)))]

    def inv(self, c):
        n, s, n0 = c.S["n"], c.S["current_state"], c.a["n"]
        return [("position", z3.And(n > n0, n <= L)), ("state", z3.And(s >= 0, s < (1 << 20), c.S["result"] == 0)), ("accepts from here", ACC(n0 + 1, bv(0, 32)) == ACC(n, s))]

    def defs(self, c):
        n, s = c.S["n"], c.S["current_state"]
        t = z3.Select(CTOK, zx(z3.Select(c.O.data(c.a["va"]), n)))
        x = NEXT(s, sx(t, 32))
        return [ACC(n, s) == z3.And(n < L, x >= 0, z3.Or(z3.Select(ATTR, sx(x)) == 0, ACC(n + 1, x))), z3.And(x >= -1, x < (1 << 20))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


def fromtab_term():
    t = z3.K(BV64, bv(0xff, 8))
    for i, ch in enumerate(b"\nFrom "):
        t = z3.Store(t, bv(ch), bv(0xff & ~(1 << i), 8))
    return t


def mmdftab_term():
    t = z3.K(BV64, bv(0, 64))
    for ch, v in ((10, 0xf11111), (1, 0x054320)):
        t = z3.Store(t, bv(ch), bv(v, 64))
    return t


def table(term, w):
    def f(m, st, o):
        o.kind, o.count, o.esize, o.fields, o.cells, o.size = "arr", bv(256), w // 8, {0: (w, term)}, None, None
    return f


class FindFrom(Contract):
    """the first separator at or behind n: 'From ' at the start of a line (n itself is one), with a good date"""
    name, file, pn = "find_next_from", "mbox", "n va len"
    globals_init = {"fromtab": table(fromtab_term(), 8)}

    def setup(self, c):
        return dict(n=fresh("n", 64), va=new_file(c), len=L)

    def requires(self, c):
        r = [] if self.proving or not self.globals_init else [("tables set up", c.g["tabs"])]
        return r + [("inside the file", z3.And(c.a["n"] >= 0, c.a["n"] < (1 << 41), c.a["va"].idx == 0, c.a["len"] == L, L <= c.S.count(c.a["va"])))]

    def retval(self, c, st, rty):
        return self.FIND(c.a["n"])

    FIND = z3.Function("NextFromLine", BV64, BV64)

    def sep(self, c, q):
        d, n0 = c.O.data(c.a["va"]), c.a["n"]
        return z3.And(q >= n0, q <= L - 5, at(d, q, b"From "), z3.Or(q == n0, z3.Select(d, q - 1) == 10), DATE(q + 4))

    def ensures(self, c):
        n0, r = c.a["n"], c.ret
        if not self.proving:       # what a caller needs (the rest is in the name of the value)
            return [("inside the file", z3.Or(r == -1, z3.And(r >= n0, r <= L - 5)))]
        return [("a separator", z3.Or(r == -1, self.sep(c, r))), ("the first one", z3.Implies(z3.Or(r == -1, P0 < r), z3.Not(self.sep(c, P0))))]

    def inv(self, c):
        n, n0, d = c.S["n"], c.a["n"], c.O.data(c.a["va"])
        return [("position", z3.And(n >= n0, z3.Or(n <= L, n == n0), z3.Implies(n != n0, z3.And(n < L, n >= n0 + 4, z3.Select(d, n) == 32, z3.Not(DATE(n)))))),
                ("none so far", z3.Implies(P0 < n - 4, z3.Not(self.sep(c, P0))))]

    def inv2(self, c):
        n, n0, d, reg = c.S["n"], c.a["n"], c.O.data(c.a["va"]), c.S["reg"]
        s = b"\nFrom"
        bits = []
        for j in range(5):
            run = []
            for i in range(j + 1):
                p = n - 1 - j + i
                run.append(p == n0 - 1 if i == 0 else p >= n0)
                if i:
                    run.append(z3.Select(d, p) == s[i])
            first = z3.Or(n - 1 - j == n0 - 1, z3.And(n - 1 - j >= n0, z3.Select(d, n - 1 - j) == 10))
            rest = [z3.And(n - j - 1 + i >= n0, z3.Select(d, n - 1 - j + i) == s[i]) for i in range(1, j + 1)]
            bits.append((z3.Extract(j, j, reg) == 0) == z3.And(first, *rest))
        again = z3.And(n != n0, n < L, z3.Select(d, n) == 32, z3.Not(DATE(n)), z3.Extract(4, 4, reg) == 1)
        return [("position", z3.And(n >= n0, z3.Or(n <= L, n == n0), c.S["hit"] == ~32)), ("what was just read", z3.Or(again, z3.And(*bits))),
                ("none so far", z3.Implies(z3.And(P0 < n - 4), z3.Not(self.sep(c, P0))))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv), 1: LoopSpec(inv=self.inv2)}


class NextLine(Contract):
    """the start of the next line, or -1 when the file ends before it"""
    name, file, pn = "start_of_next_line", "mbox", "n va len"
    FIND = z3.Function("NextLine", BV64, BV64)
    retval = FindFrom.retval

    def setup(self, c):
        return dict(n=fresh("n", 64), va=new_file(c), len=L)

    def requires(self, c):
        return [("inside the file", z3.And(c.a["n"] >= 0, c.a["n"] < c.a["len"], c.a["va"].idx == 0, c.a["len"] <= c.S.count(c.a["va"])))]

    def ensures(self, c):
        n0, r, d = c.a["n"], c.ret, c.O.data(c.a["va"])
        if not self.proving:
            return [("inside the file", z3.Or(r == -1, z3.And(r > n0, r < L)))]
        return [("behind a newline", z3.Or(r == -1, z3.And(r > n0, r < L, z3.Select(d, r - 1) == 10))),
                ("the first one", z3.Implies(z3.And(P0 >= n0, P0 < z3.If(r == -1, L - 1, r - 1)), z3.Select(d, P0) != 10))]

    def inv(self, c):
        n, n0, d = c.S["n"], c.a["n"], c.O.data(c.a["va"])
        return [("position", z3.And(n >= n0, n < L)), ("no newline so far", z3.Implies(z3.And(P0 >= n0, P0 < n), z3.Select(d, P0) != 10))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


SEPM = b"\1\1\1\1\n"


class FindMmdf(Contract):
    name, file, pn = "find_next_mmdfsep", "mbox", "n va len"
    globals_init = {"mmdftab": table(mmdftab_term(), 64)}
    setup, requires, retval = FindFrom.setup, FindFrom.requires, FindFrom.retval
    FIND = z3.Function("NextMmdfLine", BV64, BV64)

    def sep(self, c, q):
        d, n0 = c.O.data(c.a["va"]), c.a["n"]
        return z3.And(q >= n0, q <= L - 5, at(d, q, SEPM), z3.Or(q == n0, z3.Select(d, q - 1) == 10))

    ensures = FindFrom.ensures

    def inv(self, c):
        n, n0, d, s = c.S["n"], c.a["n"], c.O.data(c.a["va"]), c.S["state"]
        w = b"\n\1\1\1\1"
        cases = []
        for j in range(5):
            first = z3.Or(n - 1 - j == n0 - 1, z3.And(n - 1 - j >= n0, z3.Select(d, n - 1 - j) == 10))
            rest = [z3.And(n - j - 1 + i >= n0, z3.Select(d, n - 1 - j + i) == w[i]) for i in range(1, j + 1)]
            cases.append((s == j + 1) == z3.And(first, *rest))
        return [("position", z3.And(n >= n0, z3.Or(n <= L, n == n0), s >= 0, s <= 5)), ("what was just read", z3.And(*cases)), ("none so far", z3.Implies(P0 < n - 4, z3.Not(self.sep(c, P0))))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class SkipMmdf(Contract):
    name, file, pn = "skip_mmdfsep", "mbox", "n va len"
    setup, requires, retval = FindFrom.setup, FindFrom.requires, FindFrom.retval
    FIND = z3.Function("BehindSecond", BV64, BV64)

    def ensures(self, c):
        n, r, d = c.a["n"], c.ret, c.O.data(c.a["va"])
        if not self.proving:
            return [("inside the file", z3.Or(r == -1, z3.And(r == n + 5, r <= L)))]
        ok = z3.And(n <= L - 5, at(d, n, SEPM))
        return [("behind the second separator", z3.Implies(ok, r == n + 5)), ("or nothing", z3.Implies(z3.Not(ok), r == -1))]


class InitTabs(Contract):
    name, file, pn = "init_scantabs", "mbox", ""

    def setup(self, c):
        return {}

    def assigns(self, c):
        return [("any", self.g(c.m, c.st, n)) for n in ("fromtab", "mmdftab", "scantabs_inited")]

    def g(self, m, st, n):
        return m.global_ptr(st, m.program.modules["mbox"], n)

    def effect(self, c, st, rty):
        st.ghost["tabs"] = z3.BoolVal(True)
        c.m.poke(st, self.g(c.m, st, "scantabs_inited"), fresh("inited", 32), 32)
        return [(st, None)]

    def ensures(self, c):
        r = [] 
        if not self.proving:
            return r
        for n, t, w in (("fromtab", fromtab_term(), 8), ("mmdftab", mmdftab_term(), 64)):
            p = self.g(c.m, c.st, n)
            for i in range(256):
                if n == "fromtab" or i in (1, 10):
                    r.append(("%s[%d]" % (n, i), c.m.peek(c.st, p.at(i * w // 8) if c.st.mem[p.obj].kind == "cells" else Ptr(p.obj, bv(i)), w) == z3.Select(t, bv(i))))
        return r + [("marked as done", c.m.peek(c.st, self.g(c.m, c.st, "scantabs_inited"), 32) != 0)]


K0 = z3.BitVec("K0", 64)
SEPK = z3.Function("Separator", BV64, BV64)        # of message number k of the new ones
COUNT = z3.BitVec("Messages", 64)


class Build(Contract):
    """message k of the new ones runs from behind its separator to the next separator or the end of the file"""
    name, file, pn = "build_new_message_list", "mbox", "mb va len n_messages"
    max_paths = 20000
    parts = 4

    def zero(m, st, o):
        o.cells[0] = (4, bv(0, 32))

    def alloc(m, st, args, rty, line):
        con = m.con
        k = st.ghost["n"]
        st.ghost["n"] = k + 1
        o = st.w(m.nodes)
        o.alive = z3.Store(o.alive, k, z3.BoolVal(True))
        return [(st, Ptr(m.nodes, None, 0, k))]
    externs = {"safe_malloc": alloc}
    globals_init = {"verbose": zero}

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        F = m.field
        mb = m.new_cells(st, "mb", F("mbox", "__size")[0])
        N = fresh("N", 32)
        st.assume(N >= 0)
        v = View(m, st)
        v.set(mb, "mbox", "n_old_msgs_valid", N)
        v.set(mb, "mbox", "start", m.new_arr(st, "start", sx(N), 8))
        v.set(mb, "mbox", "len", m.new_arr(st, "len", sx(N), 8))
        v.set(mb, "mbox", "path", m.new_arr(st, "path", fresh("np", 64), nul=fresh("pe", 64)))
        noff, ns = F("message_list", "next")[0], F("message_list", "__size")[0]

        def dec(m_, s, val, p):
            val = simp(val)
            return [(val == -1, NULL), (val != -1, Ptr(m.nodes, None, 0, val))]

        def enc(m_, s, val, p):
            if val.null:
                return bv(-1)
            if val.obj != m.nodes:
                raise Unsupported("next of something else")
            return val.fid
        k = m.new_fam(st, "nodes", {noff: (PtrField(dec, enc), z3.Const("NodeNext", z3.ArraySort(BV64, BV64))), F("message_list", "start")[0]: 64, F("message_list", "len")[0]: 64}, esize=ns)
        m.nodes = k.obj if isinstance(k, Ptr) else k
        m.noff, m.soff, m.loff = noff, F("message_list", "start")[0], F("message_list", "len")[0]
        st.ghost["n"] = bv(0)
        # the tables are set up exactly when scantabs_inited says so (only init_scantabs writes either)
        si = m.global_ptr(st, m.program.modules["mbox"], "scantabs_inited")
        st.ghost["tabs"] = m.peek(st, si, 32) != 0
        va = new_file(c)
        d = m.arr_term(st, va)
        args = dict(mb=mb, va=va, len=L, n_messages=m.new_cells(st, "n_messages", 4))
        out = []
        for old in (N == 0, N > 0):
            for mm in (True, False):
                s2 = st.copy()
                k = z3.And(L > 10, at(d, 0, SEPM))
                s2.assume(old, k if mm else z3.Not(k))
                out.append((s2, args))
        return out

    def old(self, c, v=None):
        v = v or c.O
        N = v.f(c.a["mb"], "mbox", "n_old_msgs_valid")
        s, l = v.f(c.a["mb"], "mbox", "start"), v.f(c.a["mb"], "mbox", "len")
        return N, z3.Select(v.data(s), sx(N) - 1), z3.Select(v.data(l), sx(N) - 1)

    def requires(self, c):
        N, s, l = self.old(c, c.S)
        return [("known messages inside the file", z3.Implies(N > 0, z3.And(s >= 0, s <= L, l >= 0, l <= L - s))), ("size", z3.And(c.a["va"].idx == 0, c.S.count(c.a["va"]) == L))]

    def kind(self, c):
        d = c.O.data(c.a["va"])
        return z3.And(L > 10, at(d, 0, SEPM))

    def fns(self, c):
        K = self.kind(c)
        find = lambda n: z3.If(K, FindMmdf.FIND(n), FindFrom.FIND(n))
        start = lambda n: z3.If(K, SkipMmdf.FIND(n), NextLine.FIND(n))
        return K, find, start, z3.If(K, bv(5), bv(0))

    def first(self, c):
        K, find, start, w = self.fns(c)
        N, s, l = self.old(c)
        return find(z3.If(N == 0, bv(0), s + l + w))

    def node(self, c, k):
        o = c.st.mem[c.m.nodes]
        g = lambda off: z3.Select(o.fields[off][1], k)
        return g(c.m.noff), g(c.m.soff), g(c.m.loff)

    def good(self, c, k):
        """fields of node k"""
        K, find, start, w = self.fns(c)
        nx, s, l = self.node(c, k)
        e = find(s)
        return z3.And(s == start(SEPK(k)), s != -1, l == z3.If(e == -1, L, e) - s, SEPK(k) != -1)

    def assigns(self, c):
        return [("cell", c.a["n_messages"], 4), ("any", c.m.nodes), ("any", c.m.gkeys.get("scantabs_inited")), ("any", c.m.gkeys.get("fromtab")), ("any", c.m.gkeys.get("mmdftab"))]

    def ensures(self, c):
        n = c.g["n"]
        nx, s, l = self.node(c, K0)
        K, find, start, w = self.fns(c)
        r = [("number of messages", z3.And(sx(c.S.ld(c.a["n_messages"], 32)) == n)), ("all messages", n == COUNT)]
        if c.ret.null:
            return r + [("empty list", n == 0)]
        return r + [("the list begins with the first", z3.BoolVal(c.ret.obj == c.m.nodes) if c.ret.fid is None else z3.And(c.ret.fid == 0, n > 0)),
                    ("every message", z3.Implies(z3.And(K0 >= 0, K0 < n), z3.And(self.good(c, K0), nx == z3.If(K0 == n - 1, bv(-1), K0 + 1))))]

    def inv(self, c):
        n, sf = c.g["n"], c.S["start_from"]
        K, find, start, w = self.fns(c)
        nx, s, l = self.node(c, K0)
        h, r = c.S["here"], c.S["result"]
        ptr = z3.BoolVal(r.null and h.null)
        if not r.null and not h.null:
            ptr = z3.And(n > 0, r.fid == 0, h.fid == n - 1)
        else:
            ptr = z3.And(ptr, n == 0)
        return [("count", z3.And(n >= 0, n < (1 << 31) - 1, sx(c.S.ld(c.a["n_messages"], 32)) == z3.SignExt(32, z3.Extract(31, 0, n)))), ("ends of the list", ptr),
                ("next separator", z3.And(SEPK(n) == sf, sf >= -1, sf <= L, z3.Or(K, sf == -1, sf <= L - 5))),
                ("messages so far", z3.Implies(z3.And(K0 >= 0, K0 < n), z3.And(self.good(c, K0), nx == z3.If(K0 == n - 1, bv(-1), K0 + 1))))]

    def defs(self, c):
        n = c.g["n"]
        K, find, start, w = self.fns(c)
        sp = SEPK(n)
        s = start(sp)
        return [SEPK(bv(0)) == self.first(c), z3.Implies(z3.Or(sp == -1, s == -1), COUNT == n),
                z3.Implies(z3.And(sp != -1, s != -1), SEPK(n + 1) == find(s) + w),
                # the precondition of many messages
                z3.Implies(z3.And(sp != -1, s != -1), n < (1 << 31) - 2)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs)}


SPLIT = [LooksFrom, FindFrom, NextLine, FindMmdf, SkipMmdf, InitTabs, Build]


# ---------------------------------------------------------------- which messages are still there
SAME = z3.Function("SameChecksum", BV32, Bo)       # the bytes at the recorded place have the recorded checksum
SUMAT = z3.Function("ChecksumOf", BV64, BV64, BV64)
I0 = z3.BitVec("I0", 32)


def known_mbox(c):
    m, st = c.m, c.st
    F = m.field
    mb = m.new_cells(st, "mb", F("mbox", "__size")[0])
    n = fresh("n_msgs", 32)
    st.assume(n >= 0, n < (1 << 30))
    v = View(m, st)
    v.set(mb, "mbox", "n_msgs", n)
    v.set(mb, "mbox", "start", m.new_arr(st, "start", sx(n), 8))
    v.set(mb, "mbox", "len", m.new_arr(st, "len", sx(n), 8))
    sums = m.new_arr(st, "check_all", sx(n) * 16, 1)
    v.set(mb, "mbox", "check_all", sums)
    return mb


class Intact(Contract):
    name, file, pn = "message_is_intact", "mbox", "mb idx va len"

    def checksum(m, st, args, rty, line):
        c = m.con
        va, ln, out = args
        s, l = m.place
        m.check(st, "checksum of the bytes of the message", z3.And(va.idx == s, ln == l, z3.BoolVal(va.obj == m.vaobj)), "protocol", line)
        st.ghost["sum"] = z3.BoolVal(True)
        m.csum = out.obj
        return [(st, None)]

    def memcmp(m, st, args, rty, line):
        a, b, n = args
        m.check(st, "whole recorded checksum of the message", z3.And(n == 16, a.idx == sx(m.idx) * 16, z3.BoolVal(a.obj == m.sums and b.obj == m.csum), st.ghost["sum"]) if getattr(m, "csum", None) is not None else False, "protocol", line)
        r = fresh("memcmp", 32)
        st.assume((r == 0) == SAME(m.idx))
        return [(st, r)]
    externs = {"memcmp": memcmp, "compute_checksum": checksum}
    memcmp.priority = checksum.priority = True

    def setup(self, c):
        mb = known_mbox(c)
        v = View(c.m, c.st)
        idx = fresh("idx", 32)
        va = new_file(c)
        c.m.con, c.m.idx, c.m.vaobj, c.m.sums = self, idx, va.obj, v.f(mb, "mbox", "check_all").obj
        c.m.place = tuple(z3.Select(v.data(v.f(mb, "mbox", k)), sx(idx)) for k in ("start", "len"))
        c.st.ghost["sum"] = z3.BoolVal(False)
        return dict(mb=mb, idx=idx, va=va, len=L)

    def place(self, c):
        return tuple(z3.Select(c.O.data(c.O.f(c.a["mb"], "mbox", k)), sx(c.a["idx"])) for k in ("start", "len"))

    def requires(self, c):
        i = c.a["idx"]
        n = c.S.f(c.a["mb"], "mbox", "n_msgs")
        r = [("a known message", z3.And(i >= 0, i < n)), ("the whole file", z3.And(c.a["va"].idx == 0, c.a["len"] == L, L <= c.S.count(c.a["va"])))]
        if self.proving:
            s, l = self.place(c)
            r.append(("recorded places are sizes of files", z3.And(s >= 0, s < (1 << 62), l >= 0, l < (1 << 62))))
        return r

    INT = z3.Function("IsIntact", BV32, Bo)

    def ensures(self, c):
        if not self.proving:
            return [("intact", (c.ret != 0) == self.INT(c.a["idx"]))]
        s, l = self.place(c)
        return [("intact exactly when it lies in the file with the same bytes", (c.ret != 0) == z3.And(s + l <= L, SAME(c.a["idx"])))]


class NumIntact(Contract):
    """the messages below the result are kept: all of them when the last one is intact; none when the first is not; otherwise
    the result is a border between an intact message and one that is not"""
    name, file, pn = "find_number_intact", "mbox", "mb va len"

    def setup(self, c):
        return dict(mb=known_mbox(c), va=new_file(c), len=L)

    def requires(self, c):
        return [("the whole file", z3.And(c.a["va"].idx == 0, c.a["len"] == L, L <= c.S.count(c.a["va"])))]

    def ensures(self, c):
        n, r, I = c.O.f(c.a["mb"], "mbox", "n_msgs"), c.ret, Intact.INT
        return [("in range", z3.And(r >= 0, r <= n)), ("all when the last one is intact", z3.Implies(z3.And(n > 0, I(n - 1)), r == n)),
                ("none when the first and the last are gone", z3.Implies(z3.And(n > 0, z3.Not(I(n - 1)), z3.Not(I(bv(0, 32)))), r == 0)),
                ("the last kept one is intact", z3.Implies(r > 0, I(r - 1))), ("the first dropped one is not", z3.Implies(r < n, z3.Not(I(r))))]

    def inv(self, c):
        n, l, h, I = c.O.f(c.a["mb"], "mbox", "n_msgs"), c.S["l"], c.S["h"], Intact.INT
        return [("borders", z3.And(l >= 0, l < h, h <= n, I(l), z3.Implies(h < n, z3.Not(I(h))), z3.Not(I(n - 1)), I(bv(0, 32))))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, dec=lambda c: sx(c.S["h"]) - sx(c.S["l"]))}


CMP = z3.Function("CompareWithKey", BV64, BV32)     # strcmp(path of entry number i, key)


class LookupMbox(Contract):
    """the table is sorted, so entries before the key compare below it"""
    name, file, pn = "lookup_extant_mbox", "mbox", "sorted_mboxen n_extant key"

    def strcmp(m, st, args, rty, line):
        a, b = args
        m.check(st, "an entry is compared with the key", z3.BoolVal(a.obj == m.pathfam and b.obj == m.key), "protocol", line)
        return [(st, CMP(a.fid))]
    strcmp.priority = True
    externs = {"strcmp": strcmp}

    def setup(self, c):
        m, st = c.m, c.st
        F = m.field
        size = F("extant_mbox", "__size")[0]
        poff = F("extant_mbox", "full_path")[0]
        n = fresh("n", 32)
        st.assume(n >= 0, n < (1 << 30))
        pk = m.new_fam(st, "paths", {0: 8}, elem="arr")
        m.pathfam = pk.obj if isinstance(pk, Ptr) else pk

        def dec(m_, s, v, p):
            return [(None, Ptr(m.pathfam, bv(0), 0, p.idx))]

        def enc(m_, s, v, p):
            raise Unsupported("table changed")
        t = m.new_arr(st, "table", sx(n), size, fields={poff: (PtrField(dec, enc), fresh("tp", z3.ArraySort(BV64, BV64)))}, ro=True)
        key = m.new_arr(st, "key", fresh("nk", 64), nul=fresh("ke", 64))
        m.key = key.obj
        return dict(sorted_mboxen=t, n_extant=n, key=key)

    def order(self, a, b):
        """sorted: what compares above the key is above, what is below is below; equal entries are excluded (no duplicates)"""
        return z3.And(z3.Implies(z3.And(a < b, CMP(a) >= 0), CMP(b) > 0), z3.Implies(z3.And(a < b, CMP(b) <= 0), CMP(a) < 0))

    def ensures(self, c):
        r, n = c.ret, c.a["n_extant"]
        return [("an entry of that name", z3.Or(r == -1, z3.And(r >= 0, r < n, CMP(sx(r)) == 0))),
                ("nothing only when there is none", z3.Implies(z3.And(r == -1, I0 >= 0, I0 < n), CMP(sx(I0)) != 0))]

    def inv(self, c):
        n, l, h, mm = c.a["n_extant"], c.S["l"], c.S["h"], c.S["m"]
        i = z3.And(I0 >= 0, I0 < n)
        return [("borders", z3.And(l >= 0, l <= h, h <= n, z3.Implies(l == h, z3.And(n == 0, mm == -1)))),
                ("outside the borders nothing is equal", z3.Implies(z3.And(i, z3.Or(I0 < l, I0 >= h)), CMP(sx(I0)) != 0)),
                ("below", z3.Or(l == 0, z3.And(CMP(sx(l)) < 0)))]

    def defs(self, c):
        l, h = c.S["l"], c.S["h"]
        mid = sx((l + h) >> 1)
        return [self.order(mid, sx(I0)), self.order(sx(I0), mid)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv, assume=self.defs, dec=lambda c: sx(c.S["h"]) - sx(c.S["l"]))}


KEPT = [Intact, NumIntact, LookupMbox]
CONTRACTS = SPLIT + KEPT
