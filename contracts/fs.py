"""System-call protocols: what a function may do to the file system.

Strings that name files are followed by a ghost value (a z3 string): strcpy, strcat and sprintf update it, so that a
contract can say which path is unlinked or opened in terms of the directory and the entry name, whatever they are.
Every system call is nondeterministic.  The calls that change files carry obligations (kind 'protocol')."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, Obj
from vc.contract import Contract
from vc.ir import Unsupported, IntTy, VoidTy
from vc import libc

T, F = z3.BoolVal(True), z3.BoolVal(False)
STR = z3.StringSort()
DEC = z3.Function("Decimal", z3.BitVecSort(32), STR)
SV = z3.StringVal


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def sc(*xs):
    xs = [SV(x) if isinstance(x, str) else x for x in xs]
    flat = []
    for x in xs:
        flat += x.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [x]
    return simp(z3.Concat(*flat)) if len(flat) > 1 else flat[0]


def name_of(m, st, p):
    """ghost string at p"""
    c = libc.concrete_str(m, st, p)
    if c is not None:
        if p.obj is not None and p.sub == 0:
            st.ghost["s:%d" % p.obj] = SV(c.decode("latin1"))     # stays known when the bytes become symbolic
        return SV(c.decode("latin1"))
    if p.obj is None:
        return fresh_str("null")
    i = simp(p.idx)
    k = "s:%d" % p.obj
    base = m.str_base.get(p.obj, 0)
    if z3.is_bv_value(i) and i.as_long() + p.sub == base and k in st.ghost:
        return st.ghost[k]
    return fresh_str("text")


def fresh_str(n):
    return z3.FreshConst(STR, n)


def set_name(m, st, p, term):
    i = simp(p.idx)
    if z3.is_bv_value(i) and i.as_long() + p.sub == m.str_base.get(p.obj, 0):
        st.ghost["s:%d" % p.obj] = term
    else:
        st.ghost["s:%d" % p.obj] = fresh_str("text")


def new_string(c, name, st=None, maxlen=None, ro=True):
    """a string argument: bytes, its terminator and its ghost value"""
    m, st = c.m, st or c.st
    n = fresh(name + ".len", 64)
    p = m.new_arr(st, name, fresh(name + ".size", 64), nul=n, ro=ro)
    o = st.mem[p.obj]
    st.assume(n >= 0, n < o.count, z3.Select(o.fields[0][1], n) == 0)
    if maxlen:
        st.assume(n <= maxlen)
    g = z3.Const("g:" + name, STR)
    st.ghost["s:%d" % p.obj] = g
    return p, g, n


def strcpy(m, st, args, rty, line):
    v = name_of(m, st, args[1])
    r = libc.MODELS["strcpy"](m, st, args, rty, line)
    for s, _ in r:
        set_name(m, s, args[0], v)
    return r


def strcat(m, st, args, rty, line):
    d, s = args
    m.assumptions.add("libc:strcat")
    a, b = name_of(m, st, d), name_of(m, st, s)
    (st, n), = libc.MODELS["strlen"](m, st, [d], None, line)
    (st, k), = libc.MODELS["strlen"](m, st, [s], None, line)
    p, o, t, i, cnt = libc.bytes_of(m, st, d)
    libc.MODELS["memcpy"](m, st, [Ptr(p.obj, simp(p.idx + n), p.sub, p.fid), s, simp(k + 1)], None, line)
    if st.mem[p.obj].kind == "arr":
        st.w(p.obj).nul = simp(i + n + k)
    set_name(m, st, d, sc(a, b))
    return [(st, d)]


def pieces(m, st, fmt, vals, line):
    """(ghost string, length) of a formatted text"""
    f = fmt.decode("latin1")
    out, total, i, lit = [], bv(0), 0, ""
    while i < len(f):
        if f[i] == "%" and f[i + 1] == "%":
            lit += "%"
            total = total + 1
            i += 2
        elif f[i] == "%":
            if lit:
                out.append(SV(lit))
                lit = ""
            v = vals.pop(0)
            if f[i + 1] == "s":
                out.append(name_of(m, st, v))
                (st, n), = libc.MODELS["strlen"](m, st, [v], None, line)
                total = total + n
            elif f[i + 1] == "d":
                out.append(DEC(v))
                n = fresh("digits", 64)
                st.assume(n >= 1, n <= z3.If(v < 0, bv(11), bv(10)))
                total = total + n
            else:
                raise Unsupported("format " + f)
            i += 2
        else:
            lit += f[i]
            total = total + 1
            i += 1
    if lit:
        out.append(SV(lit))
    return (sc(*out) if out else SV("")), total


def sprintf(m, st, args, rty, line):
    m.assumptions.add("libc:sprintf")
    fmt = libc.concrete_str(m, st, args[1])
    if fmt is None:
        raise Unsupported("sprintf with unknown format")
    g, total = pieces(m, st, fmt, list(args[2:]), line)
    p, o, t, ix, cnt = libc.bytes_of(m, st, args[0])
    m.check(st, "in-bounds(sprintf)", z3.And(ix >= 0, ix <= cnt, total < cnt - ix), "memory", line)
    nm = fresh("sprintf", t.sort())
    st.assume(z3.Select(nm, ix + total) == 0)
    libc.set_bytes(m, st, args[0], nm)
    st.w(p.obj).nul = simp(ix + total)
    set_name(m, st, args[0], g)
    return [(st, fresh("sprintf.ret", 32))]


# ---- output streams: a ghost string of what was written
def emit(m, st, f, g):
    k = "out:%d" % f.obj
    if k not in st.ghost:
        st.ghost[k] = SV("")
    st.ghost[k] = sc(st.ghost[k], g)


BYTES = z3.Function("Bytes", BV64, BV64, STR)     # data from an index, of a length
IDXDUMMY = None


def fprintf(m, st, args, rty, line):
    if not getattr(m, "outfile", None) or args[0].obj != m.outfile:
        return [(st, fresh("fprintf", 32))]
    fmt = libc.concrete_str(m, st, args[1])
    if fmt is None:
        raise Unsupported("fprintf with unknown format")
    g, _ = pieces(m, st, fmt, list(args[2:]), line)
    emit(m, st, args[0], g)
    return [(st, fresh("fprintf", 32))]


def fputs(m, st, args, rty, line):
    if getattr(m, "outfile", None) == args[1].obj:
        emit(m, st, args[1], name_of(m, st, args[0]))
    return [(st, fresh("fputs", 32))]


def fputc(m, st, args, rty, line):
    if getattr(m, "outfile", None) == args[1].obj:
        c = simp(args[0])
        emit(m, st, args[1], SV(chr(c.as_long() & 255)) if z3.is_bv_value(c) else fresh_str("char"))
    return [(st, fresh("fputc", 32))]


def fwrite(m, st, args, rty, line):
    p, size, n, f = args
    if getattr(m, "outfile", None) != f.obj:
        return [(st, fresh("fwrite", 64))]
    tot = simp(size * n)
    if not p.null:
        q, o, t, i, cnt = libc.bytes_of(m, st, p)
        m.check(st, "in-bounds(fwrite)", z3.And(tot >= 0, i >= 0, i <= cnt, tot <= cnt - i), "memory", line)
        emit(m, st, f, BYTES(i, tot) if not (z3.is_bv_value(tot) and tot.as_long() == 0) else SV(""))
    else:
        m.check(st, "fwrite of nothing", tot == 0, "memory", line)
    return [(st, fresh("fwrite", 64))]


# ---- directories
def dir_setup(c, st=None):
    m, st = c.m, st or c.st
    m.str_base = getattr(m, "str_base", {})
    off = m.field("dirent", "d_name")[0]
    size = m.field("dirent", "__size")[0]
    d = m.new_arr(st, "dirent", size)
    m.dirent, m.dname = d.obj, off
    m.str_base[d.obj] = off
    st.ghost["pending"] = F
    st.ghost["looked"] = T
    st.ghost["mode"] = fresh("mode", 32)
    st.ghost["statof"] = fresh_str("statof")
    m.dirobj = m.new_cells(st, "DIR", 8)


def opendir(m, st, args, rty, line):
    s2 = st.copy()
    s2.ghost["dir"] = name_of(m, s2, args[0])
    return [(st, NULL), (s2, m.dirobj)]


def readdir(m, st, args, rty, line):
    f = getattr(m, "at_readdir", None)
    if f:
        f(m, st, line)
    s2 = st.copy()
    o = s2.w(m.dirent)
    t = fresh("dirent", o.fields[0][1].sort())
    n = fresh("nameend", 64)
    o.fields[0] = (8, t)
    o.nul = n
    # a directory entry has a name of 1 to NAME_MAX bytes
    s2.assume(n >= m.dname + 1, n <= m.dname + 255, z3.Select(t, n) == 0)
    k = z3.BitVec("k!dn", 64)
    s2.assume(z3.ForAll([k], z3.Implies(z3.And(k >= m.dname, k < n), z3.Select(t, k) != 0), patterns=[z3.Select(t, k)]))
    s2.ghost["s:%d" % m.dirent] = fresh_str("entry")
    s2.ghost["looked"] = F
    s2.ghost["pending"] = F
    return [(st, NULL), (s2, Ptr(m.dirent))]


def lstat(m, st, args, rty, line):
    s2 = st.copy()
    r = fresh("lstat", 32)
    st.assume(r < 0)
    st.ghost["looked"] = T
    mode = fresh("mode", 32)
    View(m, s2).set(args[1], "stat", "st_mode", mode)
    s2.ghost["mode"] = mode
    s2.ghost["statof"] = name_of(m, s2, args[0])
    s2.ghost["looked"] = T
    s2.ghost["pending"] = result_like(mode)
    return [(st, r), (s2, bv(0, 32))]


def result_like(mode):
    t = mode & 0xf000
    return z3.Or(t == 0xa000, t == 0x8000)


def closedir(m, st, args, rty, line):
    return [(st, fresh("closedir", 32))]


PATHS = dict(strcpy=strcpy, strcat=strcat, sprintf=sprintf)
DIRS = dict(PATHS, opendir=opendir, readdir=readdir, lstat=lstat, closedir=closedir)
OUT = dict(PATHS, fprintf=fprintf, fputs=fputs, fputc=fputc, fwrite=fwrite)


class ValidMh(Contract):
    """an MH message name: digits, possibly followed by one final dot, not empty"""
    name, file = "valid_mh_filename_p", "dirscan"
    pn = "x"
    END = z3.BitVec("NameEnd", 64)
    VALID = z3.Function("IsMhName", BV64, z3.ArraySort(BV64, z3.BitVecSort(8)), z3.BoolSort())

    def setup(self, c):
        return dict(x=c.m.new_arr(c.st, "x", fresh("n", 64), nul=self.END, ro=True))

    def requires(self, c):
        p = c.a["x"]
        if not self.proving:
            o = c.st.mem[p.obj]
            return [("terminated", z3.And(o.nul >= p.idx, o.nul < o.count, z3.Select(c.S.data(p), o.nul) == 0))]
        return [("terminated", z3.And(p.idx >= 0, p.idx <= self.END, self.END < c.S.count(p), z3.Select(c.S.data(p), self.END) == 0))]

    def spec(self, d, s, e):
        k = z3.BitVec("k!mh", 64)
        dig = z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), z3.And(z3.UGE(z3.Select(d, k), 48), z3.ULE(z3.Select(d, k), 57))), patterns=[z3.Select(d, k)])
        return z3.And(e >= s, dig, z3.Or(z3.And(z3.Select(d, e) == 0, e > s), z3.And(z3.Select(d, e) == ord("."), z3.Select(d, e + 1) == 0)))

    def ensures(self, c):
        p = c.a["x"]
        d, s = c.O.data(p), p.idx
        if not self.proving:
            return [("valid name", (c.ret != 0) == self.VALID(s, d))]
        e = View(c.m, c.st, c.fr)["p"]
        e = e.idx if isinstance(e, Ptr) else s       # not set for the empty name
        bad = z3.Or(z3.And(z3.Select(d, e) == 0, e == s),
                    z3.And(z3.Select(d, e) != 0, z3.Not(z3.And(z3.UGE(z3.Select(d, e), 48), z3.ULE(z3.Select(d, e), 57))), z3.Not(z3.And(z3.Select(d, e) == ord("."), z3.Select(d, e + 1) == 0))))
        k = z3.BitVec("k!mj", 64)
        e = z3.If(z3.Select(d, s) == 0, s, e)
        dig = z3.ForAll([k], z3.Implies(z3.And(k >= s, k < e), z3.And(z3.UGE(z3.Select(d, k), 48), z3.ULE(z3.Select(d, k), 57))), patterns=[z3.Select(d, k)])
        return [("accepts only digits with an optional final dot", z3.Implies(c.ret != 0, self.spec(d, s, e))),
                ("rejects only other names", z3.Implies(c.ret == 0, z3.And(dig, z3.Or(z3.Select(d, s) == 0, bad))))]

    def inv(self, c):
        p, d = c.a["x"], c.O.data(c.a["x"])
        e = c.S["p"].idx
        k = z3.BitVec("k!mi", 64)
        return [("position", z3.And(e >= p.idx, e <= self.END, z3.Select(d, p.idx) != 0)),
                ("digits so far", z3.ForAll([k], z3.Implies(z3.And(k >= p.idx, k < e), z3.And(z3.UGE(z3.Select(d, k), 48), z3.ULE(z3.Select(d, k), 57))), patterns=[z3.Select(d, k)]))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class Clear(Contract):
    file = "search"

    def base(self, m):
        raise NotImplementedError

    def unlink(m, st, args, rty, line):
        con = m.con
        want = sc(con.dirname(m), "/", st.ghost["s:%d" % m.dirent])
        got = name_of(m, st, args[0])
        m.check(st, "only an entry of the match folder is removed", got == want, "protocol", line)
        m.check(st, "only after lstat() showed that it is a link or a regular file", z3.And(st.ghost["statof"] == got, result_like(st.ghost["mode"])), "protocol", line)
        con.extra_unlink(m, st, line)
        st.ghost["pending"] = F
        return [(st, fresh("unlink", 32))]

    def extra_unlink(self, m, st, line):
        pass

    def at_readdir(self, m, st, line):
        m.check(st, "every earlier result is removed", z3.Not(st.ghost["pending"]), "protocol", line)
        m.check(st, "every entry that could be one is looked at", self.seen(m, st), "protocol", line)

    def seen(self, m, st):
        return st.ghost["looked"]

    externs = dict(DIRS, unlink=unlink)

    def inv(self, c):
        return [("nothing pending", z3.And(z3.Not(c.g["pending"]), self.seen(c.m, c.st)))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}

    def prep(self, c):
        c.m.con = self
        c.m.at_readdir = self.at_readdir
        dir_setup(c)

    def assigns(self, c):
        return [("any", c.m.dirent)]


class ClearMaildir(Clear):
    name, pn = "clear_maildir_subfolder", "path subdir"

    def setup(self, c):
        self.prep(c)
        p, self.g1, _ = new_string(c, "path", maxlen=1 << 20)
        s, self.g2, _ = new_string(c, "subdir", maxlen=1 << 20)
        return dict(path=p, subdir=s)

    def dirname(self, m):
        return sc(self.g1, "/", self.g2)


class ClearMh(Clear):
    name, pn = "clear_mh_folder", "path"

    def setup(self, c):
        self.prep(c)
        p, self.g1, _ = new_string(c, "path", maxlen=1 << 20)
        return dict(path=p)

    def dirname(self, m):
        return self.g1

    def valid(self, m, st):
        t = st.mem[m.dirent].fields[0][1]
        return ValidMh.VALID(bv(m.dname), t)

    def extra_unlink(self, m, st, line):
        m.check(st, "only a numeric name", self.valid(m, st), "protocol", line)

    def seen(self, m, st):
        return z3.Or(st.ghost["looked"], z3.Not(self.valid(m, st)))


class ClearMbox(Contract):
    name, file, pn = "clear_mbox_folder", "search", "path"

    def unlink(m, st, args, rty, line):
        m.check(st, "only the match mbox itself is removed", name_of(m, st, args[0]) == z3.Const("g:path", STR), "protocol", line)
        return [(st, fresh("unlink", 32))]
    externs = dict(PATHS, unlink=unlink)

    def setup(self, c):
        c.m.str_base = {}
        return dict(path=new_string(c, "path")[0])


class MkMaildir(Contract):
    """DIR/new/123456789.N.mairix or DIR/cur/..., with the flag letters in order after ':2,'"""
    name, file = "mk_maildir_path", "search"
    pn = "token output_dir is_in_new is_seen is_replied is_flagged"
    externs = PATHS

    def setup(self, c):
        c.m.str_base = {}
        d, self.g, n = new_string(c, "output_dir", maxlen=1 << 20)
        r = dict(output_dir=d)
        for k in "token is_in_new is_seen is_replied is_flagged".split():
            r[k] = fresh(k, 32)
        return r

    def ensures(self, c):
        if not isinstance(c.ret, Ptr) or c.ret.null:
            return [("a path", F)]
        b = lambda k: c.a[k] != 0
        opt = lambda k, s: z3.If(b(k), SV(s), SV(""))
        want = lambda *x: sc(self.g, *x)
        got = name_of(c.m, c.st, c.ret)
        r = []
        for new in (True, False):
            for s in (True, False):
                for rp in (True, False):
                    for fl in (True, False):
                        cond = z3.And(b("is_in_new") == new, b("is_seen") == s, b("is_replied") == rp, b("is_flagged") == fl)
                        suffix = (":2," if s or rp or fl else "") + ("F" if fl else "") + ("R" if rp else "") + ("S" if s else "")
                        r.append(("name of a %s message with flags '%s'" % ("new" if new else "cur", suffix), z3.Implies(cond, got == sc(self.g, "/new/" if new else "/cur/", "123456789.", DEC(c.a["token"]), ".mairix", suffix))))
        return r


class MkMh(Contract):
    name, file = "mk_mh_path", "search"
    pn = "token output_dir"
    externs = PATHS

    def setup(self, c):
        c.m.str_base = {}
        d, self.g, n = new_string(c, "output_dir", maxlen=1 << 20)
        return dict(token=fresh("token", 32), output_dir=d)

    def requires(self, c):
        return [("a message number", z3.And(c.a["token"] >= 0, c.a["token"] < 0x7fffffff))]

    def ensures(self, c):
        if not isinstance(c.ret, Ptr) or c.ret.null:
            return [("a path", F)]
        return [("DIR/N+1", name_of(c.m, c.st, c.ret) == sc(self.g, "/", DEC(c.a["token"] + 1)))]


class NewP(Contract):
    """a path whose last directory is 'new'"""
    name, file, pn = "looks_like_maildir_new_p", "search", "p"
    END = z3.BitVec("PathEnd", 64)

    def setup(self, c):
        return dict(p=c.m.new_arr(c.st, "p", fresh("n", 64), nul=self.END, ro=True))

    def requires(self, c):
        p, d = c.a["p"], c.S.data(c.a["p"])
        k = z3.BitVec("k!np", 64)
        return [("string", z3.And(p.idx == 0, self.END >= 0, self.END < c.S.count(p), z3.Select(d, self.END) == 0)),
                ("no NUL before", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.END), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))]

    def ensures(self, c):
        d = c.O.data(c.a["p"])
        v = View(c.m, c.st, c.fr)
        k = z3.BitVec("k!ne", 64)
        j = z3.BitVec("J0", 64)          # arbitrary position
        slash = lambda x: z3.Select(d, x) == ord("/")
        # the last slash is at j, "/new" stands before it (and something before that)
        new = lambda x: z3.And(x >= 5, slash(x - 4), z3.Select(d, x - 3) == ord("n"), z3.Select(d, x - 2) == ord("e"), z3.Select(d, x - 1) == ord("w"), slash(x))
        last = lambda x: z3.And(x < self.END, z3.ForAll([k], z3.Implies(z3.And(k > x, k < self.END), z3.Not(slash(k))), patterns=[z3.Select(d, k)]))
        s2 = v["s2"].idx
        return [("says so only for DIR/new/NAME", z3.Implies(c.ret != 0, z3.And(new(s2), last(s2)))),
                ("and for every DIR/new/NAME", z3.Implies(z3.And(j >= 0, j < self.END, new(j), last(j)), c.ret != 0))]

    def inv0(self, c):
        k = z3.BitVec("k!n0", 64)
        s = c.S["s2"].idx
        return [("scan", z3.And(s >= 0, s <= self.END))]

    def inv1(self, c):
        d = c.O.data(c.a["p"])
        s = c.S["s2"].idx
        k = z3.BitVec("k!n1", 64)
        return [("no slash behind", z3.And(s >= 0, s <= self.END, z3.ForAll([k], z3.Implies(z3.And(k > s, k <= self.END), z3.Select(d, k) != ord("/")), patterns=[z3.Select(d, k)])))]

    def inv2(self, c):
        d = c.O.data(c.a["p"])
        s, s2 = c.S["s1"].idx, c.S["s2"].idx
        k = z3.BitVec("k!n2", 64)
        return [("no slash between", z3.And(s >= 0, s < s2, s2 <= self.END, z3.Select(d, s2) == ord("/"), z3.ForAll([k], z3.Implies(z3.And(k > s, k < s2), z3.Select(d, k) != ord("/")), patterns=[z3.Select(d, k)]),
                                            z3.ForAll([k], z3.Implies(z3.And(k > s2, k <= self.END), z3.Select(d, k) != ord("/")), patterns=[z3.Select(d, k)])))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv0), 1: LoopSpec(inv=self.inv1), 2: LoopSpec(inv=self.inv2)}


class Terminate(Contract):
    """after a message, just as many newlines as an empty line needs"""
    name, file, pn = "mbox_terminate", "search", "data len out"
    externs = OUT

    def setup(self, c):
        c.m.str_base = {}
        ln = fresh("len", 32)
        c.st.assume(ln >= 0)
        d = c.m.new_arr(c.st, "data", sx(ln), ro=True)
        f = c.m.new_cells(c.st, "FILE", 216)
        c.m.outfile = f.obj
        c.st.ghost["out:%d" % f.obj] = SV("")
        return dict(data=d, len=ln, out=f)

    def requires(self, c):
        return []

    def ensures(self, c):
        n = sx(c.a["len"])
        d = c.O.data(c.a["data"])
        w = c.st.ghost["out:%d" % c.a["out"].obj]
        nl = lambda k: z3.Select(d, n - k) == 10
        return [("nothing but newlines", z3.Or(w == SV(""), w == SV("\n"), w == SV("\n\n"))),
                ("a message ending in an empty line gets none", z3.Implies(z3.And(n >= 2, nl(1), nl(2)), w == SV(""))),
                ("one ending in a line end gets one", z3.Implies(z3.Or(n == 0, z3.And(n >= 2, nl(1), z3.Not(nl(2)))), w == SV("\n"))),
                ("one ending within a line gets two", z3.Implies(z3.And(n >= 2, z3.Not(nl(1))), w == SV("\n\n"))),
                ("a single byte is followed by a line end", z3.Implies(z3.And(n == 1, z3.Not(nl(1))), w != SV("")))]


class RemoveOther(Contract):
    """directory_exists_remove_other: removes nothing but a non-directory that stands where the match folder should be"""
    name, file, pn = "directory_exists_remove_other", "search", "name"

    def stat(m, st, args, rty, line):
        s2 = st.copy()
        r = fresh("stat", 32)
        st.assume(r < 0)
        st.ghost["exists"] = F
        mode = fresh("mode", 32)
        View(m, s2).set(args[1], "stat", "st_mode", mode)
        s2.ghost["exists"], s2.ghost["isdir"] = T, (mode & 0xf000) == 0x4000
        return [(st, r), (s2, bv(0, 32))]

    def unlink(m, st, args, rty, line):
        m.check(st, "only the path itself", name_of(m, st, args[0]) == z3.Const("g:name", STR), "protocol", line)
        m.check(st, "never a directory", z3.And(st.ghost.get("exists", F), z3.Not(st.ghost.get("isdir", T))), "protocol", line)
        return [(st, fresh("unlink", 32))]
    externs = dict(PATHS, stat=stat, unlink=unlink)

    def setup(self, c):
        c.m.str_base = {}
        return dict(name=new_string(c, "name")[0])

    def ensures(self, c):
        return [("true exactly for a directory", (c.ret != 0) == z3.And(c.st.ghost.get("exists", F), c.st.ghost.get("isdir", F)))]


CLEARING = [ValidMh, ClearMaildir, ClearMh, ClearMbox, RemoveOther]
NAMING = [MkMaildir, MkMh, NewP, Terminate]
CONTRACTS = CLEARING + NAMING
