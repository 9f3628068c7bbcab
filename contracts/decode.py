"""rfc822.c: undoing transfer encodings.

The input is in[0..N).  K0 is an arbitrary position of the output: what is proved for it holds for every position.
The meaning of an encoding is given position by position: OUT(q) bytes come from the text before q, byte number k is
BYTE(k), TOTAL is their number.  These are defined only at the places the code is looking at, from the rules of RFC 2045
(quoted-printable, base64) and of uuencode, not from the tables of the program."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract
from vc.ir import Unsupported
from vc import libc

N = z3.BitVec("InputLength", 64)
K0 = z3.BitVec("K0", 64)
OUT = z3.Function("OutBefore", BV64, BV64)
BYTE = z3.Function("OutByte", BV64, z3.BitVecSort(8))
TOTAL = z3.BitVec("OutTotal", 64)
WSNL = z3.Function("OnlySpaceBeforeNewline", BV64, z3.BoolSort())
NLAT = z3.Function("NextNewline", BV64, BV64)
NC = z3.Function("InGroup", BV64, z3.BitVecSort(32))
EQS = z3.Function("Equals", BV64, z3.BitVecSort(32))
SYM = z3.Function("Sextet", BV64, z3.BitVecSort(32), z3.BitVecSort(32))
LEFT = z3.Function("LineRest", BV64, z3.BitVecSort(32))
P0 = z3.BitVec("P0", 64)


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def rng(x, a, b):
    return z3.And(z3.UGE(x, ord(a)), z3.ULE(x, ord(b)))


def is_space(x):
    return z3.Or(x == 32, z3.And(z3.UGE(x, 9), z3.ULE(x, 13)))


def is_hex(x):
    return z3.Or(rng(x, "0", "9"), rng(x, "a", "f"), rng(x, "A", "F"))


def hexval(x):
    return z3.If(rng(x, "0", "9"), x - 48, z3.If(rng(x, "a", "f"), x - 87, z3.If(rng(x, "A", "F"), x - 55, bv(0, 8))))


class HexVal(Contract):
    name, file, pn = "hex_to_val", "rfc822", "x"

    def setup(self, c):
        return dict(x=fresh("x", 8))

    def ensures(self, c):
        return [("value of a hexadecimal digit", c.ret == zx(hexval(c.a["x"]), 32))]


class WsNl(Contract):
    name, file, pn = "looking_at_ws_then_newline", "rfc822", "start end"

    def setup(self, c):
        p = c.m.new_arr(c.st, "text", N, ro=True)
        return dict(start=p.add(fresh("start", 64)), end=p.add(N))

    def requires(self, c):
        s, e = c.a["start"].idx, c.a["end"].idx
        return [("range", z3.And(s >= 0, s <= e, e == N, N <= c.S.count(c.a["start"])))]

    def effect(self, c, st, rty):
        st2 = st.copy()
        s = c.a["start"].idx
        st.assume(WSNL(s), NLAT(s) >= s, NLAT(s) < N)
        st2.assume(z3.Not(WSNL(s)))
        return [(st, Ptr(c.a["start"].obj, NLAT(s))), (st2, NULL)]

    def ensures(self, c):
        s = c.a["start"].idx
        if c.ret.null:
            return [("nothing only when there is none", z3.Not(WSNL(s)))]
        return [("a newline behind nothing but white space", z3.And(WSNL(s), c.ret.idx == NLAT(s), NLAT(s) >= s, NLAT(s) < N, z3.BoolVal(c.ret.obj == c.a["start"].obj)))]

    def inv(c):
        s, r = c.a["start"].idx, c.S["result"].idx
        return [("position", z3.And(r >= s, r <= N)), ("white space so far", z3.And(WSNL(s) == WSNL(r), z3.Implies(WSNL(r), NLAT(s) == NLAT(r))))]

    def defs(c):
        r = c.S["result"].idx
        x = z3.Select(c.O.data(c.a["start"]), r)
        return [WSNL(r) == z3.And(r < N, z3.Or(x == 10, z3.And(is_space(x), WSNL(r + 1)))),
                z3.Implies(x == 10, NLAT(r) == r), z3.Implies(x != 10, NLAT(r) == NLAT(r + 1))]
    loops = {0: LoopSpec(inv=inv, assume=defs)}


def cstr(c, s):
    p = c.m.new_cells(c.st, "enc", len(s) + 1)
    for i, ch in enumerate(s.encode() + b"\0"):
        c.st.mem[p.obj].cells[i] = (1, bv(ch, 8))
    return p


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64T = z3.Const("Base64Table", z3.ArraySort(BV64, z3.BitVecSort(32)))
EQT = z3.Const("EqualTable", z3.ArraySort(BV64, z3.BitVecSort(8)))


def tabulated(name, term, w, spec):
    """a table whose entries were all compared with their meaning is known through that meaning at the entries looked at
    (def_b64); a table that differs is taken as it is"""
    def f(m, st, o):
        mod = m.program.modules["rfc822"]
        t, init, cst = mod.globals[name]
        m._init(st, mod, o, 0, t, init)
        n = w // 8
        val = lambda i: simp(o.cells[i * n][1]).as_signed_long() if i * n in o.cells else 0
        if o.size == 256 * n and all(val(i) == spec(i) for i in range(256)):
            m.tables_ok.add(name)
            o.kind, o.count, o.esize, o.fields, o.cells, o.size = "arr", bv(256), n, {0: (w, term)}, None, None
    return f


class Unencode(Contract):
    name, file = "unencode_data", "rfc822"
    pn = "src input input_len enc output_len"
    globals_init = {"base64_table": tabulated("base64_table", B64T, 32, lambda i: ALPHA.index(chr(i)) if chr(i) in ALPHA else 0 if i == 61 else -1),
                    "equal_table": tabulated("equal_table", EQT, 8, lambda i: int(i == 61))}
    ENC = [(None, "id"), ("7bit", "id"), (" 7-BIT", "id"), ("7 bit", "id"), ("8bit", "id"), ("8-bit", "id"), ("8 bit", "id"), ("binary", "id"),
           ("quoted-printable", "qp"), (" Quoted-Printable; x", "qp"), ("base64", "b64"), ("BASE64", "b64"), ("x-uuencode", "uu"), ("X-UUencode", "uu"), ("frobnicate", "none")]
    parts = 4
    dry_all = True

    def src(m, st, args, rty, line):
        return [(st, m.new_arr(st, "format_msg_src", fresh("n", 64), ro=True))]
    externs = {"format_msg_src": src}

    def setup(self, c):
        c.m.con = self
        c.m.tables_ok = set()
        out = []
        for e, k in self.ENC:
            d = dict(src=c.m.new_cells(c.st, "msg_src", c.m.field("msg_src", "__size")[0]), input=c.m.new_arr(c.st, "input", N, ro=True),
                     input_len=fresh("input_len", 32), enc=NULL if e is None else cstr(c, e), output_len=c.m.new_cells(c.st, "output_len", 4))
            c.st.ghost["kind"] = z3.StringVal(k)
            out.append((c.st.copy(), d))
        # longest first
        return sorted(out, key=lambda x: str(x[0].ghost["kind"]))

    def kind(self, c):
        return c.st.ghost["kind"].as_string()

    def requires(self, c):
        return [("length", z3.And(c.a["input_len"] >= 0, sx(c.a["input_len"]) == N, c.a["input_len"] < 0x7fffffff)), ("K0", K0 >= 0)]

    def assigns(self, c):
        return [("obj", c.a["output_len"])]

    def ensures(self, c):
        k = self.kind(c)
        if not isinstance(c.ret, Ptr) or c.ret.null:
            return [("returns a buffer", z3.BoolVal(False))]
        n = sx(c.S.ld(c.a["output_len"], 32))
        res = c.S.data(c.ret)
        din = c.O.data(c.a["input"])
        r = [("terminated", z3.Select(res, n) == 0), ("whole buffer", c.ret.idx == 0)]
        if k == "id":
            return r + [("as long as the input", n == N), ("every byte", z3.Implies(K0 < N, z3.Select(res, K0) == z3.Select(din, K0)))]
        if k == "none":
            return r + [("nothing", n == 0)]
        return r + [("number of decoded bytes", n == TOTAL), ("every decoded byte", z3.Implies(K0 < n, z3.Select(res, K0) == BYTE(K0)))]

    def io(self, c, k=""):
        res = c.S.data(c.S["result"])
        return c.S["q" + k].idx, c.S["p" + k].idx, c.O.data(c.a["input"]), res, c.S.count(c.S["result"])

    def so_far(self, c, k=""):
        q, p, d, res, cnt = self.io(c, k)
        return [("so far", z3.Implies(K0 < p, z3.Select(res, K0) == BYTE(K0))), ("buffer", z3.And(cnt == N + 1, z3.BoolVal(c.S["p" + k].obj == c.S["result"].obj)))]

    # --- quoted-printable
    def inv_qp(self, c):
        q, p, d, res, cnt = self.io(c)
        return [("position", z3.And(q >= 0, q <= N, p >= 0, p <= q, p == OUT(q)))] + self.so_far(c)

    def def_qp(self, c):
        q, p, d, res, cnt = self.io(c)
        x = z3.Select(d, q)
        soft = WSNL(q + 1)
        h, l = z3.Select(d, q + 1), z3.Select(d, q + 2)
        esc = z3.And(q < N, x == ord("="), z3.Not(soft))
        return [OUT(bv(0)) == 0,
                z3.Implies(q >= N, TOTAL == OUT(q)),
                z3.Implies(z3.And(q < N, x != ord("=")), z3.And(OUT(q + 1) == OUT(q) + 1, BYTE(OUT(q)) == x)),
                z3.Implies(z3.And(q < N, x == ord("="), soft), OUT(NLAT(q + 1) + 1) == OUT(q)),
                z3.Implies(z3.And(esc, N - q < 3), TOTAL == OUT(q)),
                z3.Implies(z3.And(esc, N - q >= 3), z3.And(OUT(q + 3) == OUT(q) + 1, BYTE(OUT(q)) == hexval(h) * 16 + hexval(l)))]

    # --- base64
    def val(self, x):
        x32 = zx(x, 32)
        return z3.If(rng(x, "A", "Z"), x32 - 65, z3.If(rng(x, "a", "z"), x32 - 71, z3.If(rng(x, "0", "9"), x32 + 4, z3.If(x == ord("+"), bv(62, 32), z3.If(x == ord("/"), bv(63, 32), bv(0, 32))))))

    def alpha(self, x):
        return z3.Or(rng(x, "A", "Z"), rng(x, "a", "z"), rng(x, "0", "9"), x == ord("+"), x == ord("/"), x == ord("="))

    def inv_b64(self, c):
        q, p, d, res, cnt = self.io(c, "#1")
        nc, reg, eq = c.S["nc"], c.S["reg"], c.S["eq"]
        g = OUT(q)
        s = lambda k: SYM(g, bv(k, 32))
        six = z3.And(*[z3.Implies(nc > k, z3.And(s(k) >= 0, s(k) < 64)) for k in range(3)])
        return [("position", z3.And(q >= 0, q <= N, p == g, g >= 0, g <= q - sx(nc), nc == NC(q), nc >= 0, nc < 4)),
                ("padding", z3.And(eq == EQS(q), eq >= 0, eq <= nc)),
                ("sextets", six), ("bounded", z3.And(reg >= 0, reg < (1 << 18))),
                ("register", reg == z3.If(nc == 0, bv(0, 32), z3.If(nc == 1, s(0), z3.If(nc == 2, s(0) * 64 + s(1), s(0) * 4096 + s(1) * 64 + s(2)))))] + self.so_far(c, "#1")

    def def_b64(self, c):
        q, p, d, res, cnt = self.io(c, "#1")
        x = z3.Select(d, q)
        g, n, e = OUT(q), NC(q), EQS(q)
        a = self.alpha(x)
        e1 = EQS(q + 1)
        full = z3.And(q < N, a, n == 3)
        v = [SYM(g, bv(k, 32)) for k in range(4)]
        b8 = lambda t: z3.Extract(7, 0, t)
        o = g
        cnt_ = z3.If(e1 == 0, bv(3), z3.If(e1 == 1, bv(2), bv(1)))
        # what the tables were found to say, at this byte
        return [z3.Select(B64T, zx(x)) == z3.If(a, self.val(x), bv(-1, 32)), z3.Select(EQT, zx(x)) == z3.If(x == ord("="), bv(1, 8), bv(0, 8)),
                OUT(bv(0)) == 0, NC(bv(0)) == 0, EQS(bv(0)) == 0,
                e1 == e + z3.If(x == ord("="), bv(1, 32), bv(0, 32)),
                z3.Implies(z3.And(q < N, z3.Not(a)), z3.And(OUT(q + 1) == g, NC(q + 1) == n)),
                z3.Implies(z3.And(q < N, a), z3.And(SYM(g, n) == self.val(x), OUT(q + 1) == z3.If(n == 3, g + 3, g), NC(q + 1) == z3.If(n == 3, bv(0, 32), n + 1))),
                z3.Implies(full, z3.And(BYTE(o) == b8(v[0] * 4 + z3.LShR(v[1], 4)),
                                        z3.Implies(e1 < 2, BYTE(o + 1) == b8(v[1] * 16 + z3.LShR(v[2], 2))),
                                        z3.Implies(e1 < 1, BYTE(o + 2) == b8(v[2] * 64 + v[3])))),
                z3.Implies(z3.And(full, e1 > 0), TOTAL == o + cnt_),
                z3.Implies(q >= N, TOTAL == o)]

    # --- uuencode
    def begins(self, d, b):
        return z3.And(*[z3.Select(d, b + i) == ch for i, ch in enumerate(b"begin ")])

    def inv_begin(self, c):
        q, d = c.S["q#2"].idx, c.O.data(c.a["input"])
        return [("position", z3.And(q >= 0, z3.Or(q == 0, q <= N - 6))), ("no 'begin ' before", z3.Implies(z3.And(P0 >= 0, P0 < q), z3.Not(self.begins(d, P0))))]

    def inv_eol(self, c):
        q, d = c.S["q#2"].idx, c.O.data(c.a["input"])
        e = c.E["q#2"].idx - 6
        return [("position", z3.And(q >= e + 6, z3.Or(q <= N, q == e + 6))), ("behind the first 'begin '", z3.And(e >= 0, z3.Or(e >= N - 6, self.begins(d, e)), z3.Implies(z3.And(P0 >= 0, P0 < e), z3.Not(self.begins(d, P0))))),
                ("none so far", OUT(q) == 0)]

    def def_eol(self, c):
        q, d = c.S["q#2"].idx, c.O.data(c.a["input"])
        return [OUT(c.E["q#2"].idx) == 0, z3.Implies(z3.And(q < N, z3.Select(d, q) != 10), OUT(q + 1) == OUT(q))]

    def dec(self, x):
        return (zx(x, 32) - 32) & 63

    def inv_lines(self, c):
        q, p, d, res, cnt = self.io(c, "#2")
        return [("position", z3.And(q >= 0, p >= 0, z3.Or(p <= q, p == 0), p <= N, p == OUT(q), z3.Or(q >= N, z3.Select(d, q) == 10)))] + self.so_far(c, "#2")

    def def_lines(self, c):
        q, p, d, res, cnt = self.io(c, "#2")
        ln = self.dec(z3.Select(d, q + 1))
        return [z3.Implies(z3.Or(q >= N, q + 1 >= N), TOTAL == OUT(q)), z3.Implies(z3.And(q + 1 < N, ln == 0), TOTAL == OUT(q)),
                z3.Implies(z3.And(q + 1 < N, ln != 0), z3.And(OUT(q + 2) == OUT(q), LEFT(q + 2) == ln))]

    def inv_group(self, c):
        q, p, d, res, cnt = self.io(c, "#2")
        ln = c.S["len"]
        return [("position", z3.And(q >= 0, q <= N, p >= 0, p <= q, p == OUT(q), ln == LEFT(q), ln > -3, ln < 64))] + self.so_far(c, "#2")

    def def_group(self, c):
        q, p, d, res, cnt = self.io(c, "#2")
        x = [self.dec(z3.Select(d, q + k)) for k in range(4)]
        b8 = lambda t: z3.Extract(7, 0, t)
        ln = LEFT(q)
        o = OUT(q)
        return [z3.Implies(z3.And(ln > 0, N - q >= 4), z3.And(LEFT(q + 4) == ln - 3, OUT(q + 4) == o + z3.If(ln >= 3, bv(3), sx(ln)),
                BYTE(o) == b8(x[0] * 4 + z3.LShR(x[1], 4)), z3.Implies(ln >= 2, BYTE(o + 1) == b8(x[1] * 16 + z3.LShR(x[2], 2))), z3.Implies(ln >= 3, BYTE(o + 2) == b8(x[2] * 64 + x[3]))))]

    def inv_skip(self, c):
        q, p, d, res, cnt = self.io(c, "#2")
        return [("position", z3.And(q >= 0, q <= N, p <= q, p == OUT(q)))]

    def def_skip(self, c):
        q, d = c.S["q#2"].idx, c.O.data(c.a["input"])
        return [z3.Implies(z3.And(q < N, z3.Select(d, q) != 10), OUT(q + 1) == OUT(q))]

    def __init__(self):
        super().__init__()
        L = LoopSpec
        self.loops = {0: L(inv=self.inv_qp, assume=self.def_qp), 1: L(inv=self.inv_b64, assume=self.def_b64), 2: L(inv=self.inv_begin), 3: L(inv=self.inv_eol, assume=self.def_eol),
                      4: L(inv=self.inv_lines, assume=self.def_lines), 5: L(inv=self.inv_group, assume=self.def_group), 6: L(inv=self.inv_skip, assume=self.def_skip)}


CONTRACTS = [HexVal, WsNl, Unencode]
