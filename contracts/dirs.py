"""mbox.c and dirscan.c: which folders an entry of a folder list names, and which files are messages.

What stat() says about a path, whether the omit patterns match it and how an entry of a directory is to be treated are
arbitrary functions of the path."""
import z3
from vc.engine import Ptr, NULL, FnPtr, bv, fresh, simp, BV64, LoopSpec, View
from vc.contract import Contract
from vc.ir import Unsupported
from vc import libc
from contracts import fs
from contracts.fs import T, F, STR, SV, sc, sx, name_of, new_string, ValidMh, fresh_str

BV32, Bo = z3.BitVecSort(32), z3.BoolSort()
OMIT = z3.Function("Omitted", STR, Bo)            # an omit pattern matches the part below the base directory
OK = z3.Function("StatWorks", STR, Bo)
MODE = z3.Function("ModeOfPath", STR, BV32)
FLT = z3.Function("IsFolder", STR, BV32)
SCR = z3.Function("Treatment", STR, BV32)         # of a directory entry, given what its directory is
MHNAME = z3.Function("IsMhMessageName", STR, Bo)    # valid_mh_filename_p, proved in ValidMh
GM = z3.Function("WildcardMatches", STR, Bo)
PROCESS, IGNORE, FINISH = 0, 1, 2
REG, DIR, FMT = 0x8000, 0x4000, 0xf000


def isreg(mode):
    return mode & FMT == REG


def isdir(mode):
    return mode & FMT == DIR


def stat(m, st, args, rty, line):
    x = name_of(m, st, args[0])
    s2 = st.copy()
    st.assume(z3.Not(OK(x)))
    s2.assume(OK(x))
    View(m, s2).set(args[1], "stat", "st_mode", MODE(x))
    s2.ghost["sb:%d" % args[1].obj] = x
    return [(st, bv(-1, 32)), (s2, bv(0, 32))]


def omit(m, st, args, rty, line):
    ga, s = args
    a = m.cur_args
    b = m.con.base_len(a)
    m.check(st, "the omit patterns are matched against the part below the base directory", z3.And(z3.BoolVal(ga.obj == a["omit_globs"].obj and not s.null), s.idx == b), "protocol", line)
    r = fresh("omitted", 32)
    st.assume((r != 0) == OMIT(name_of(m, st, Ptr(s.obj, bv(0), s.sub, s.fid))))
    return [(st, r)]


for f in (stat, omit):
    f.priority = True


def method_setup(c):
    m, st = c.m, c.st
    me = m.new_cells(st, "methods", 16)
    m.poke(st, me, FnPtr("FILTER"), "p")
    m.poke(st, me.at(8), FnPtr("TREAT"), "p")
    return me


def filt(m, st, args, rty, line):
    p, sb = args
    a = m.cur_args
    m.check(st, "asks about the path itself, with what stat() said of it", z3.BoolVal(p.obj == a["path"].obj and simp(p.idx).eq(bv(0)) and sb.obj == a["sb"].obj), "protocol", line)
    return [(st, FLT(name_of(m, st, p)))]


class AppendShallow(Contract):
    """a path joins the list exactly when it is a folder of the kind looked for and not omitted"""
    name, file = "append_shallow", "mbox"
    pn = "path base_len sb list methods omit_globs"
    usable = False
    externs = dict(fs.PATHS, FILTER=filt, is_globber_array_match=omit)

    def base_len(self, a):
        return sx(a["base_len"])

    def setup(self, c):
        m = c.m
        m.con = self
        m.str_base = {}
        self.size = m.field("string_list", "__size")[0]
        self.o = {k: m.field("string_list", k)[0] for k in ("next", "prev", "data")}
        out = []
        base = c.st
        for empty in (True, False):
            st = base.copy()
            c.st = st
            p, _, n = new_string(c, "path", st, maxlen=1 << 20)
            b = fresh("base_len", 32)
            st.assume(b >= 0, sx(b) <= n)
            me = method_setup(c)
            li = m.new_cells(st, "list", self.size)
            la = li if empty else m.new_cells(st, "last", self.size)
            m.poke(st, li.at(self.o["prev"]), la, "p")
            if empty:
                m.poke(st, li.at(self.o["next"]), li, "p")
            else:
                m.poke(st, li.at(self.o["next"]), la, "p")
                m.poke(st, la.at(self.o["next"]), li, "p")
                m.poke(st, la.at(self.o["prev"]), li, "p")
            out.append((st, dict(path=p, base_len=b, sb=m.new_cells(st, "sb", m.field("stat", "__size")[0]), list=li, methods=me, omit_globs=m.new_cells(st, "omit", 16))))
        c.st = base
        return out

    def assigns(self, c):
        r = [("any", c.a["list"])]
        la = c.O.ld(c.a["list"].at(self.o["prev"]), "p")
        return r + [("any", la)]

    def ensures(self, c):
        g = z3.Const("g:path", STR)
        li = c.a["list"]
        at = lambda v, p, k: v.ld(p.at(self.o[k]), "p")
        la = at(c.O, li, "prev")
        nn = at(c.S, li, "prev")
        new = nn.obj not in (li.obj, la.obj)
        same = lambda x, y: z3.BoolVal(x.obj == y.obj and simp(x.idx).eq(simp(y.idx)) and x.sub == y.sub)
        yes = z3.And(FLT(g) != 0, z3.Not(OMIT(g)))
        r = [("says whether it joined", c.ret == z3.If(yes, bv(1, 32), bv(0, 32))), ("joins exactly when it should", z3.BoolVal(new) == yes)]
        if new:
            d = at(c.S, nn, "data")
            r += [("its own copy of the path", z3.And(z3.BoolVal(d.obj not in (None, c.a["path"].obj)), name_of(c.m, c.st, d) == g)),
                  ("joins at the end", z3.And(same(at(c.S, nn, "next"), li), same(at(c.S, nn, "prev"), la), same(at(c.S, la, "next"), nn)))]
        else:
            r += [("list untouched", z3.And(same(nn, la), same(at(c.S, la, "next"), li)))]
        return r


def entry_setup(c):
    m, st = c.m, c.st
    fs.dir_setup(c)
    st.ghost["s:%d" % m.dirent] = fresh_str("noentry")
    st.ghost["have"], st.ghost["ended"] = F, F
    st.ghost["did_s"], st.ghost["did_d"] = bv(0, 32), bv(0, 32)


def readdir(m, st, args, rty, line):
    m.con.settled(m, st, line)
    (s1, r1), (s2, r2) = fs.readdir(m, st, args, rty, line)
    s1.ghost["ended"], s1.ghost["have"] = T, F
    s2.ghost["ended"], s2.ghost["have"] = F, T
    s2.ghost["did_s"], s2.ghost["did_d"] = bv(0, 32), bv(0, 32)
    return [(s1, r1), (s2, r2)]


def dot(m, st):
    t, d = st.mem[m.dirent].fields[0][1], m.dname
    b = lambda i: z3.Select(t, bv(d + i))
    return z3.And(b(0) == ord("."), z3.Or(b(1) == 0, z3.And(b(1) == ord("."), b(2) == 0)))


def entry(m, st):
    return st.ghost["s:%d" % m.dirent]


class AppendDeep(Contract):
    """a folder tree: the directory itself and every entry below it that is not omitted or to be skipped, each once"""
    name, file = "append_deep", "mbox"
    pn = "path base_len sb list methods omit_globs"
    usable = False
    timeout = 30.0

    def base_len(self, a):
        return sx(a["base_len"])

    def same_args(m, st, args, line):
        a = m.cur_args
        m.check(st, "for the same list, methods and omit patterns", z3.And(args[1] == a["base_len"], *[z3.BoolVal(x.obj == a[k].obj) for x, k in zip(args[3:], ("list", "methods", "omit_globs"))]), "protocol", line)

    def shallow(m, st, args, rty, line):
        a = m.cur_args
        AppendDeep.same_args(m, st, args, line)
        r = fresh("matched", 32)
        if args[0].obj == a["path"].obj:
            m.check(st, "the directory itself, once and first", z3.And(z3.Not(st.ghost["self"]), z3.BoolVal(args[2].obj == a["sb"].obj)), "protocol", line)
            st.ghost["self"] = T
            st.ghost["matched"] = r
            return [(st, r)]
        AppendDeep.below(m, st, args, line)
        st.ghost["did_s"] = simp(st.ghost["did_s"] + 1)
        return [(st, r)]

    def below(m, st, args, line):
        x = name_of(m, st, args[0])
        m.check(st, "the entry's path, with what stat() said of it", z3.And(z3.Not(st.ghost["ended"]), x == m.con.here(m, st), View(m, st).f(args[2], "stat", "st_mode") == MODE(x)), "protocol", line)

    def deep(m, st, args, rty, line):
        AppendDeep.same_args(m, st, args, line)
        AppendDeep.below(m, st, args, line)
        st.ghost["did_d"] = simp(st.ghost["did_d"] + 1)
        return [(st, fresh("any", 32))]

    def treat(m, st, args, rty, line):
        m.check(st, "asks how to treat this entry of this directory", z3.And(args[0] == st.ghost["matched"], z3.BoolVal(args[1].obj == m.dirent)), "protocol", line)
        r = SCR(name_of(m, st, args[1]))
        st.assume(z3.ULE(r, 2))
        return [(st, r)]

    def opendir(m, st, args, rty, line):
        m.check(st, "reads the directory itself", z3.And(z3.BoolVal(args[0].obj == m.cur_args["path"].obj), st.ghost["self"], z3.Not(st.ghost["opened"])), "protocol", line)
        st.ghost["opened"] = T
        return fs.opendir(m, st, args, rty, line)

    def closedir(m, st, args, rty, line):
        con = m.con
        con.settled(m, st, line, last=True)
        m.check(st, "stops early only when told to", z3.Or(st.ghost["ended"], z3.And(con.live(m, st), SCR(entry(m, st)) == FINISH)), "protocol", line)
        return [(st, fresh("closedir", 32))]
    for f in (shallow, deep, readdir, opendir, closedir):
        f.priority = True
    externs = dict(fs.PATHS, append_shallow=shallow, append_deep=deep, TREAT=treat, stat=stat, is_globber_array_match=omit, opendir=opendir, readdir=readdir, closedir=closedir)

    def here(self, m, st):
        return sc(z3.Const("g:path", STR), "/", entry(m, st))

    def live(self, m, st):
        return z3.And(st.ghost["have"], z3.Not(dot(m, st)), z3.Not(OMIT(self.here(m, st))))

    def handled(self, m, st):
        x = self.here(m, st)
        go = z3.And(self.live(m, st), SCR(entry(m, st)) == PROCESS, OK(x))
        one = lambda b: z3.If(b, bv(1, 32), bv(0, 32))
        return z3.Or(z3.Not(st.ghost["have"]), z3.And(st.ghost["did_s"] == one(z3.And(go, isreg(MODE(x)))), st.ghost["did_d"] == one(z3.And(go, isdir(MODE(x))))))

    def settled(self, m, st, line, last=False):
        m.check(st, "every entry is followed exactly when it should be", self.handled(m, st), "protocol", line)
        if not last:
            m.check(st, "nothing is read on when told to finish", z3.Not(z3.And(self.live(m, st), SCR(entry(m, st)) == FINISH)), "protocol", line)

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        m.str_base = {}
        entry_setup(c)
        p, _, n = new_string(c, "path", maxlen=1 << 20)
        b = fresh("base_len", 32)
        st.assume(b >= 0, sx(b) <= n)
        st.ghost["self"], st.ghost["opened"] = F, F
        st.ghost["matched"] = fresh("unmatched", 32)
        sb = m.new_cells(st, "sb", m.field("stat", "__size")[0])
        mode = fresh("mode", 32)
        View(m, st).set(sb, "stat", "st_mode", mode)
        self_mode[0] = mode
        return dict(path=p, base_len=b, sb=sb, list=m.new_cells(st, "list", m.field("string_list", "__size")[0]), methods=method_setup_(self, c), omit_globs=m.new_cells(st, "omit", 16))

    def assigns(self, c):
        return [("any", c.m.dirent)]

    def ensures(self, c):
        mode = c.O.f(c.a["sb"], "stat", "st_mode")
        return [("the directory itself was offered", c.g["self"]), ("directories are read, nothing else", c.g["opened"] == isdir(mode))]

    def inv(self, c):
        return [("entries so far", z3.And(self.handled(c.m, c.st), z3.Not(z3.And(self.live(c.m, c.st), SCR(entry(c.m, c.st)) == FINISH)))),
                ("directory", z3.And(c.g["self"], c.g["opened"]))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


self_mode = [None]


def method_setup_(con, c):
    me = method_setup(c)
    c.m.con = con
    return me


class HandleSingle(Contract):
    """a folder entry without wildcard: the path itself, if it exists"""
    name, file = "handle_single", "mbox"
    pn = "path base_len list append methods omit_globs"
    usable = False

    def base_len(self, a):
        return sx(a["base_len"])

    def append(m, st, args, rty, line):
        a = m.cur_args
        x = m.con.here(m, st)
        got = name_of(m, st, args[0])
        m.check(st, "appends the path, with what stat() said of it", z3.And(got == x, View(m, st).f(args[2], "stat", "st_mode") == MODE(x), m.con.may(m, st)), "protocol", line)
        m.check(st, "for the same list, methods and omit patterns", z3.And(args[1] == a["base_len"], *[z3.BoolVal(q.obj == a[k].obj) for q, k in zip(args[3:], ("list", "methods", "omit_globs"))]), "protocol", line)
        st.ghost["did_s"] = simp(st.ghost["did_s"] + 1)
        return [(st, fresh("any", 32))]
    externs = dict(fs.PATHS, APPEND=append, stat=stat)

    def here(self, m, st):
        return z3.Const("g:path", STR)

    def may(self, m, st):
        return T

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        m.str_base = {}
        st.ghost["did_s"] = bv(0, 32)
        return dict(path=new_string(c, "path", maxlen=1 << 20)[0], base_len=fresh("base_len", 32), list=m.new_cells(st, "list", 24), append=FnPtr("APPEND"), methods=m.new_cells(st, "methods", 16), omit_globs=m.new_cells(st, "omit", 16))

    def ensures(self, c):
        return [("once, if it exists", c.g["did_s"] == z3.If(OK(z3.Const("g:path", STR)), bv(1, 32), bv(0, 32)))]


class HandleWild(Contract):
    """a wildcard: every entry of the directory before it that matches, is not omitted and exists"""
    name, file = "handle_wild", "mbox"
    pn = "path base_len last_comp list append methods omit_globs"
    usable = False
    timeout = 30.0
    PARENT = z3.Const("g:parent", STR)
    LEN = z3.BitVec("PathLen", 64)
    P0 = z3.BitVec("P0", 64)

    def base_len(self, a):
        return sx(a["base_len"])

    def globber(m, st, args, rty, line):
        a = m.cur_args
        m.check(st, "the pattern is the last component", z3.And(z3.BoolVal(args[0].obj == a["path"].obj), args[0].idx == a["last_comp"].idx), "protocol", line)
        g = m.new_cells(st, "globber", 16)
        st.ghost["globber"] = bv(g.obj, 32)
        m.globobj = g.obj
        return [(st, g)]

    def free_globber(m, st, args, rty, line):
        return [(st, None)]

    def match(m, st, args, rty, line):
        m.check(st, "matches the entry's name", z3.BoolVal(args[0].obj == getattr(m, "globobj", None) and args[1].obj == m.dirent), "protocol", line)
        r = fresh("matches", 32)
        st.assume((r != 0) == GM(name_of(m, st, args[1])))
        return [(st, r)]

    def opendir(m, st, args, rty, line):
        a = m.cur_args
        con = HandleWild
        p = args[0]
        cs = libc.concrete_str(m, st, p)
        lc = a["last_comp"].idx
        pd = m.arr_term(st, a["path"])
        if cs is not None:
            ok = z3.And(z3.BoolVal(cs == b"/"), lc == 1)
        else:
            q, o, t, i, cnt = libc.bytes_of(m, st, p)
            ok = z3.And(lc > 1, i == 0, z3.Select(t, lc - 1) == 0, z3.Implies(z3.And(con.P0 >= 0, con.P0 < lc - 1), z3.Select(t, con.P0) == z3.Select(pd, con.P0)))
        m.check(st, "reads the directory before the last component", z3.And(ok, z3.Not(st.ghost["opened"])), "protocol", line)
        st.ghost["opened"] = T
        return fs.opendir(m, st, args, rty, line)

    def copy(m, st, args, rty, line):
        # a text that is what stands before the last component is called so
        a, con, p = m.cur_args, HandleWild, args[1]
        lc, cs = a["last_comp"].idx, libc.concrete_str(m, st, p)
        if cs is None and p.obj not in (None, a["path"].obj, m.dirent):
            q, o, t, i, cnt = libc.bytes_of(m, st, p)
            pd = m.arr_term(st, a["path"])
            same = z3.And(lc > 0, i == 0, z3.Select(t, lc - 1) == 0, z3.Implies(z3.And(con.P0 >= 0, con.P0 < lc - 1), z3.Select(t, con.P0) == z3.Select(pd, con.P0)))
            m.check(st, "the directory's name is what stands before the last component", same, "protocol", line)
            st.ghost["s:%d" % p.obj] = con.PARENT
        return fs.strcpy(m, st, args, rty, line)

    def closedir(m, st, args, rty, line):
        m.con.settled(m, st, line)
        m.check(st, "reads to the end", st.ghost["ended"], "protocol", line)
        return [(st, fresh("closedir", 32))]
    for f in (globber, free_globber, match, opendir, closedir, copy):
        f.priority = True
    externs = dict(fs.PATHS, strcpy=copy, APPEND=HandleSingle.append, stat=stat, is_globber_array_match=omit, make_globber=globber, free_globber=free_globber, is_glob_match=match, opendir=opendir, readdir=readdir, closedir=closedir)

    def here(self, m, st):
        return sc(self.PARENT, "/", entry(m, st))

    def may(self, m, st):
        return z3.Not(st.ghost["ended"])

    def handled(self, m, st):
        x = self.here(m, st)
        go = z3.And(z3.Not(dot(m, st)), GM(entry(m, st)), z3.Not(OMIT(x)), OK(x))
        return z3.Or(z3.Not(st.ghost["have"]), st.ghost["did_s"] == z3.If(go, bv(1, 32), bv(0, 32)))

    def settled(self, m, st, line):
        m.check(st, "every entry is added exactly when it should be", self.handled(m, st), "protocol", line)

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        m.str_base = {}
        entry_setup(c)
        st.ghost["opened"] = F
        n = fresh("lastcomp", 64)
        p = m.new_arr(st, "path", fresh("psize", 64), nul=self.LEN, ro=True)
        return dict(path=p, base_len=fresh("base_len", 32), last_comp=Ptr(p.obj, n), list=m.new_cells(st, "list", 24), append=FnPtr("APPEND"), methods=m.new_cells(st, "methods", 16), omit_globs=m.new_cells(st, "omit", 16))

    def requires(self, c):
        p, d = c.a["path"], c.S.data(c.a["path"])
        n = c.a["last_comp"].idx
        k = z3.BitVec("k!hw", 64)
        return [("a path and its last component", z3.And(n > 0, n <= self.LEN, self.LEN < (1 << 20), self.LEN < c.S.count(p), z3.Select(d, self.LEN) == 0, z3.Select(d, n - 1) == ord("/"))),
                ("no NUL inside", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.LEN), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])),
                ("base", z3.And(c.a["base_len"] >= 0))]

    def assigns(self, c):
        return [("any", c.m.dirent)]

    def ensures(self, c):
        return [("the directory was read", c.g["opened"])]

    def inv(self, c):
        return [("entries so far", self.handled(c.m, c.st)), ("directory", c.g["opened"])]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class Treat(Contract):
    file = "dirscan"
    usable = False

    def setup(self, c):
        c.m.con = self
        return dict(parent=fresh("parent", 32), de_name=c.m.new_arr(c.st, "name", fresh("n", 64), nul=ValidMh.END, ro=True))

    def requires(self, c):
        p, d, e = c.a["de_name"], c.S.data(c.a["de_name"]), ValidMh.END
        k = z3.BitVec("k!tr", 64)
        return [("string", z3.And(e >= 0, e < c.S.count(p), z3.Select(d, e) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < e), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])))]

    def is_(self, c, s):
        d = c.O.data(c.a["de_name"])
        return z3.And(*[z3.Select(d, bv(i)) == ch for i, ch in enumerate(s.encode() + b"\0")])


class TreatMaildir(Treat):
    """what is inside new, cur and tmp of a maildir is not looked at for folders"""
    name, pn = "scrutinize_maildir_entry", "parent de_name"

    def ensures(self, c):
        own = z3.And(c.a["parent"] != 0, z3.Or(self.is_(c, "new"), self.is_(c, "cur"), self.is_(c, "tmp")))
        return [("skips exactly the parts of the maildir itself", c.ret == z3.If(own, bv(IGNORE, 32), bv(PROCESS, 32)))]


class TreatMh(Treat):
    name, pn = "scrutinize_mh_entry", "parent de_name"

    def ensures(self, c):
        return [("skips exactly what is named like a message", c.ret == z3.If(ValidMh.VALID(bv(0), c.O.data(c.a["de_name"])), bv(IGNORE, 32), bv(PROCESS, 32)))]


class TreatMbox(Treat):
    name, pn, file = "scrutinize_mbox_entry", "parent de_name", "mbox"

    def ensures(self, c):
        return [("looks at everything", c.ret == PROCESS)]


class FilterMaildir(Contract):
    """a directory with the three parts of a maildir"""
    name, file, pn = "filter_is_maildir", "dirscan", "path sb"
    usable = False
    externs = dict(fs.PATHS, stat=stat)

    def setup(self, c):
        m, st = c.m, c.st
        m.str_base = {}
        m.con = self
        sb = m.new_cells(st, "sb", m.field("stat", "__size")[0])
        View(m, st).set(sb, "stat", "st_mode", fresh("mode", 32))
        return dict(path=new_string(c, "path", maxlen=1 << 20)[0], sb=sb)

    def child(self, name, kind):
        x = sc(z3.Const("g:path", STR), "/" + name)
        return z3.And(OK(x), kind(MODE(x)))

    def spec(self):
        return z3.And(*[self.child(n, isdir) for n in ("new", "cur", "tmp")])

    def ensures(self, c):
        return [("exactly these", (c.ret != 0) == z3.And(self.want(c), self.spec()))]

    def want(self, c):
        return isdir(c.O.f(c.a["sb"], "stat", "st_mode"))


class ChildFile(Contract):
    """a regular file of that name in the directory"""
    name, file, pn = "has_child_file", "dirscan", "base child"
    externs = dict(fs.PATHS, stat=stat)
    kind = staticmethod(isreg)

    def setup(self, c):
        c.m.str_base = {}
        c.m.con = self
        return dict(base=new_string(c, "base", maxlen=1 << 20)[0], child=new_string(c, "child", maxlen=1 << 10)[0])

    def requires(self, c):
        if self.proving:
            return []
        o = c.st.mem[c.a["base"].obj]
        return [("a short path", o.nul <= 1 << 20 if o.nul is not None else F)]

    def ensures(self, c):
        x = sc(name_of(c.m, c.st, c.a["base"]), "/", name_of(c.m, c.st, c.a["child"]))
        return [("exactly if there is one", (c.ret != 0) == z3.And(OK(x), self.kind(MODE(x))))]


class ChildDir(ChildFile):
    """a directory of that name in the directory"""
    name = "has_child_dir"
    kind = staticmethod(isdir)


class FilterMh(FilterMaildir):
    """a directory with a file that some MH-like mail program keeps there"""
    name = "filter_is_mh"
    max_paths = 6000

    def spec(self):
        return z3.Or(*[self.child(n, isreg) for n in (".xmhcache", ".mh_sequences", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta", "summary", ".mew-summary", "index")])


class FilterFile(FilterMaildir):
    name, file = "filter_is_file", "mbox"

    def spec(self):
        return T

    def want(self, c):
        return isreg(c.O.f(c.a["sb"], "stat", "st_mode"))


class MhMessages(Contract):
    """the messages of an MH folder: the entries named like one, each once"""
    name, file, pn = "get_mh_message_paths", "dirscan", "folder arr"
    timeout = 30.0
    FT = 1

    def add(m, st, args, rty, line):
        x, arr, ft = args
        m.check(st, "adds the entry as a message of an MH folder", z3.And(name_of(m, st, x) == m.con.here(m, st), z3.BoolVal(arr.obj == m.cur_args["arr"].obj), ft == m.con.FT, z3.Not(st.ghost["ended"])), "protocol", line)
        st.ghost["did_s"] = simp(st.ghost["did_s"] + 1)
        return [(st, None)]

    def opendir(m, st, args, rty, line):
        m.check(st, "reads the folder", z3.And(z3.BoolVal(args[0].obj == m.cur_args["folder"].obj), z3.Not(st.ghost["opened"])), "protocol", line)
        st.ghost["opened"] = T
        return fs.opendir(m, st, args, rty, line)
    def valid(m, st, args, rty, line):
        m.check(st, "asks about the entry's name", z3.BoolVal(args[0].obj == m.dirent), "protocol", line)
        r = fresh("valid", 32)
        st.assume((r != 0) == MHNAME(name_of(m, st, args[0])))
        return [(st, r)]
    for f in (add, opendir, valid):
        f.priority = True
    externs = dict(fs.PATHS, valid_mh_filename_p=valid, add_file_to_list=add, opendir=opendir, readdir=readdir, closedir=HandleWild.closedir)

    def here(self, m, st):
        return sc(z3.Const("g:folder", STR), "/", entry(m, st))

    def handled(self, m, st):
        go = z3.And(z3.Not(dot(m, st)), MHNAME(entry(m, st)))
        return z3.Or(z3.Not(st.ghost["have"]), st.ghost["did_s"] == z3.If(go, bv(1, 32), bv(0, 32)))

    def settled(self, m, st, line):
        m.check(st, "every entry is a message exactly when it is named like one", self.handled(m, st), "protocol", line)

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        m.str_base = {}
        entry_setup(c)
        st.ghost["opened"] = F
        return dict(folder=new_string(c, "folder", maxlen=1 << 20)[0], arr=m.new_cells(st, "arr", 24))

    def assigns(self, c):
        return [("any", c.m.dirent)]

    def ensures(self, c):
        return [("the folder was read", c.g["opened"])]

    def inv(self, c):
        return [("entries so far", self.handled(c.m, c.st)), ("directory", c.g["opened"])]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class MaildirMessages(MhMessages):
    """the messages of a maildir: every entry of its new and its cur but . and .., each once"""
    name = "get_maildir_message_paths"
    FT = 0
    globals_init = {"get_maildir_message_paths.subdirs": "init"}

    def opendir(m, st, args, rty, line):
        x = name_of(m, st, args[0])
        g = z3.Const("g:folder", STR)
        new, cur = x == sc(g, "/new"), x == sc(g, "/cur")
        m.check(st, "reads new and cur, each once", z3.And(z3.Or(z3.And(new, z3.Not(st.ghost["new"])), z3.And(cur, z3.Not(st.ghost["cur"]))), z3.Not(st.ghost["reading"])), "protocol", line)
        st.ghost["new"], st.ghost["cur"] = z3.Or(st.ghost["new"], new), z3.Or(st.ghost["cur"], cur)
        st.ghost["where"] = x
        st.ghost["have"] = F
        r = fs.opendir(m, st, args, rty, line)
        for s, d in r:
            if not d.null:
                s.ghost["reading"] = T
        return r

    def closedir(m, st, args, rty, line):
        st.ghost["reading"] = F
        return HandleWild.closedir(m, st, args, rty, line)
    for f in (opendir, closedir):
        f.priority = True
    externs = dict(MhMessages.externs, opendir=opendir, closedir=closedir)

    def here(self, m, st):
        return sc(st.ghost["where"], "/", entry(m, st))

    def handled(self, m, st):
        return z3.Or(z3.Not(st.ghost["have"]), st.ghost["did_s"] == z3.If(dot(m, st), bv(0, 32), bv(1, 32)))

    def setup(self, c):
        r = super().setup(c)
        st = c.st
        st.ghost["new"], st.ghost["cur"], st.ghost["reading"] = F, F, F
        st.ghost["where"] = fresh_str("where")
        return r

    def ensures(self, c):
        return [("new and cur were read", z3.And(c.g["new"], c.g["cur"]))]

    def inv(self, c):
        return [("entries so far", self.handled(c.m, c.st)), ("directory", c.g["reading"])]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(mode="unroll", unroll=3), 1: LoopSpec(inv=self.inv)}


def special(x):
    return z3.Or(*[x == ord(k) for k in "[*?"])


class Scan(Contract):
    """a scan of a string"""
    file = "mbox"
    END = z3.BitVec("ScanEnd", 64)

    def setup(self, c):
        return {self.pn: c.m.new_arr(c.st, "x", fresh("n", 64), nul=self.END, ro=True)}

    def p(self, c):
        return c.a[self.pn]

    def requires(self, c):
        p = self.p(c)
        if not self.proving:
            o = c.st.mem[p.obj]
            return [("string", z3.And(p.idx >= 0, p.idx <= o.nul, o.nul < o.count, z3.Select(c.S.data(p), o.nul) == 0))]
        d = c.S.data(p)
        k = z3.BitVec("k!sr", 64)
        return [("string", z3.And(p.idx >= 0, p.idx <= self.END, self.END < c.S.count(p), z3.Select(d, self.END) == 0,
                                  z3.ForAll([k], z3.Implies(z3.And(k >= p.idx, k < self.END), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])))]

    def first_nul(self, c):
        """the end of the string at a call"""
        p, d = self.p(c), c.O.data(self.p(c))
        if self.proving:
            return self.END, []
        e = z3.BitVec("%s!end%d" % (self.name, p.obj), 64)
        k = z3.BitVec("k!fn", 64)
        return e, [z3.And(e >= p.idx, e <= c.st.mem[p.obj].nul, z3.Select(d, e) == 0), z3.ForAll([k], z3.Implies(z3.And(k >= p.idx, k < e), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)])]

    def none(self, d, lo, hi, f):
        k = z3.BitVec("k!sn", 64)
        return z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Not(f(z3.Select(d, k)))), patterns=[z3.Select(d, k)])


class LastSlash(Scan):
    name, pn = "find_last_slash", "in"

    def effect(self, c, st, rty):
        s2 = st.copy()
        p = self.p(c)
        j = fresh("lastslash", 64)
        s2.ghost["lastslash"] = j
        return [(st, NULL), (s2, Ptr(p.obj, j, p.sub, p.fid))]

    def ensures(self, c):
        p, d = self.p(c), c.O.data(self.p(c))
        e, facts = self.first_nul(c)
        sl = lambda x: x == ord("/")
        if c.ret.null:
            return [("none only if there is none", z3.And(self.none(d, p.idx, e, sl), *facts))]
        j = c.ret.idx
        return [("the last one", z3.And(z3.BoolVal(c.ret.obj == p.obj), j >= p.idx, j < e, z3.Select(d, j) == ord("/"), self.none(d, j + 1, e, sl), *facts))]

    def inv(self, c):
        q, p, d = c.S["p"].idx, self.p(c), c.O.data(self.p(c))
        r = c.S["result"]
        sl = lambda x: x == ord("/")
        ok = self.none(d, p.idx, q, sl) if r.null else z3.And(z3.BoolVal(r.obj == p.obj), r.idx >= p.idx, r.idx < q, z3.Select(d, r.idx) == ord("/"), self.none(d, r.idx + 1, q, sl))
        return [("position", z3.And(q >= p.idx, q <= self.END)), ("last so far", ok)]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class IsWild(Scan):
    name, pn = "is_wild", "x"
    WIT = z3.BitVec("WildAt", 64)

    def ensures(self, c):
        p, d = self.p(c), c.O.data(self.p(c))
        e, facts = self.first_nul(c)
        w = View(c.m, c.st, c.fr)["p"].idx if self.proving else self.WIT
        return [("no only if there is none", z3.Implies(c.ret == 0, self.none(d, p.idx, e, special))),
                ("yes only if there is one", z3.And(z3.Implies(c.ret != 0, z3.And(w >= p.idx, w < e, special(z3.Select(d, w)))), *facts))]

    def inv(self, c):
        q, p, d = c.S["p"].idx, self.p(c), c.O.data(self.p(c))
        return [("none so far", z3.And(q >= p.idx, q <= self.END, self.none(d, p.idx, q, special)))]

    def __init__(self):
        super().__init__()
        self.loops = {0: LoopSpec(inv=self.inv)}


class HandleOne(Contract):
    """an entry of a folder list: below the base directory unless absolute; '...' asks for any depth; wildcards in the last component"""
    name, file = "handle_one_path", "mbox"
    pn = "folder_base path list methods omit_globs"
    usable = False
    timeout = 30.0
    P0 = z3.BitVec("P0", 64)

    def given(m, st, path, base_len, last, lst, app, me, om, wild, line):
        con, a = m.con, m.cur_args
        q, o, d, i, cnt = libc.bytes_of(m, st, path)
        isabs = z3.is_true(st.ghost["isabs"])
        bn, pn = [st.mem[a[k].obj].nul for k in ("folder_base", "path")]
        n = pn if isabs else bn + 1 + pn
        full = st.ghost.get("full")
        E = lambda k: z3.Select(full, k)
        dots = z3.And(n >= 4, *[E(n - q_) == ord(".") for q_ in (1, 2, 3)])
        P0 = con.P0
        ck = lambda t, f: m.check(st, t, f, "protocol", line)
        ck("for the same list, methods and omit patterns", z3.BoolVal(all(x.obj == a[k].obj for x, k in ((lst, "list"), (me, "methods"), (om, "omit_globs")))))
        ck("once", z3.Not(st.ghost["given"]))
        ck("omit patterns apply below the base directory", sx(base_len) == (bv(0) if isabs else bn + 1))
        ck("any depth exactly for '...'", z3.BoolVal(isinstance(app, FnPtr) and app.name in ("append_deep", "append_shallow")))
        if isinstance(app, FnPtr) and app.name == "append_deep":
            ck("any depth only for '...'", n >= 4)
            for q_ in (1, 2, 3):
                ck("any depth only for '...' (%d)" % q_, E(n - q_) == ord("."))
        else:
            ck("any depth for '...'", z3.Not(dots))
        end = n - 3 if isinstance(app, FnPtr) and app.name == "append_deep" else n
        ck("the path ends where it should", z3.And(i == 0, z3.Select(d, end) == 0))
        ck("the path is the entry, below the base directory unless absolute", name_of(m, st, path) == (z3.Const("g:path", STR) if isabs else sc(z3.Const("g:folder_base", STR), "/", z3.Const("g:path", STR))))
        ck("all of it", z3.Implies(z3.And(P0 >= 0, P0 < end), z3.Select(d, P0) == E(P0)))
        D = lambda k: z3.Select(d, k)
        if wild:
            lc = last.idx
            w = IsWild.WIT
            ck("the last component starts behind the last slash", z3.And(z3.BoolVal(last.obj == path.obj), lc > 0, lc <= end, D(lc - 1) == ord("/")))
            ck("the last component has no slash", z3.Implies(z3.And(P0 >= lc, P0 < end), D(P0) != ord("/")))
            ck("wildcard only if the last component has one", z3.And(w >= lc, w < end, special(D(w))))
        else:
            j = st.ghost.get("lastslash")
            if j is None:
                ck("the last slash is known", F)
            else:
                ck("the last slash", z3.And(j >= 0, j < end, D(j) == ord("/"), z3.Implies(z3.And(P0 > j, P0 < end), D(P0) != ord("/"))))
                ck("no wildcard behind the last slash", z3.Implies(z3.And(P0 > j, P0 < end), z3.Not(special(D(P0)))))
        st.ghost["given"] = T

    def wild(m, st, args, rty, line):
        HandleOne.given(m, st, args[0], args[1], args[2], args[3], args[4], args[5], args[6], True, line)
        return [(st, None)]

    def single(m, st, args, rty, line):
        HandleOne.given(m, st, args[0], args[1], None, args[2], args[3], args[4], args[5], False, line)
        return [(st, None)]
    def length(m, st, p):
        """where the string ends: the arguments have no NUL inside, and copies of them neither"""
        c = libc.concrete_str(m, st, p)
        if c is not None:
            return bv(len(c))
        q, o, t, i, cnt = libc.bytes_of(m, st, p)
        if o.lit is not None:
            return bv(len(libc.literal(m, st, p, None)))
        return simp(o.nul - i) if o.nul is not None and simp(i).eq(bv(0)) else None

    def strlen(m, st, args, rty, line):
        n = HandleOne.length(m, st, args[0])
        return [(st, n)] if n is not None else libc.MODELS["strlen"](m, st, args, rty, line)

    def strcpy(m, st, args, rty, line, at=None):
        d, s = args
        n = HandleOne.length(m, st, s)
        if n is None:
            raise Unsupported("copy of an unknown string")
        c0 = libc.concrete_str(m, st, s)
        if c0 is None:
            c0 = libc.literal(m, st, s, None)
        # what the copy consists of is told by its ghost string, its bytes are a string of that length
        v = name_of(m, st, s)
        if at is not None:
            v = sc(name_of(m, st, d), v)
        total = simp((bv(0) if at is None else at) + n)
        p, o, t, i, cnt = libc.bytes_of(m, st, d)
        m.check(st, "in-bounds(strcpy)", z3.And(z3.BoolVal(simp(i).eq(bv(0))), total >= 0, total < cnt), "memory", line)
        nm = fresh("text", t.sort())
        k = z3.BitVec("k!hc", 64)
        st.assume(z3.Select(nm, total) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < total), z3.Select(nm, k) != 0), patterns=[z3.Select(nm, k)]))
        f0 = bv(c0[0] if c0 else 0, 8) if c0 is not None else z3.Select(libc.bytes_of(m, st, s)[2], 0)
        st.assume(z3.Select(nm, bv(0) if at is None else at) == f0)
        if at is not None:
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < at), z3.Select(nm, k) == z3.Select(t, k)), patterns=[z3.Select(nm, k)]))
        libc.set_bytes(m, st, d, nm)
        st.w(p.obj).nul = total
        st.ghost["full"] = nm
        fs.set_name(m, st, d, v)
        return [(st, d)]

    def strcat(m, st, args, rty, line):
        n = HandleOne.length(m, st, args[0])
        if n is None:
            raise Unsupported("copy of an unknown string")
        return HandleOne.strcpy(m, st, args, rty, line, at=n)
    for f in (wild, single, strlen, strcpy, strcat):
        f.priority = True
    externs = dict(strlen=strlen, strcpy=strcpy, strcat=strcat, handle_wild=wild, handle_single=single)

    def setup(self, c):
        out = []
        base = c.st
        for isabs in (True, False):
            c.st = base.copy()
            a = self.setup1(c)
            d0 = z3.Select(c.st.mem[a["path"].obj].fields[0][1], 0)
            c.st.assume((d0 == ord("/")) == z3.BoolVal(isabs))
            c.st.ghost["isabs"] = z3.BoolVal(isabs)
            out.append((c.st, a))
        c.st = base
        return out

    def setup1(self, c):
        m, st = c.m, c.st
        m.con = self
        m.str_base = {}
        st.ghost["given"] = F
        b, _, bn = new_string(c, "folder_base", maxlen=1 << 20)
        p, _, pn = new_string(c, "path", maxlen=1 << 20)
        bd, pd = st.mem[b.obj].fields[0][1], st.mem[p.obj].fields[0][1]
        k = z3.BitVec("k!h1", 64)
        for d, n in ((bd, bn), (pd, pn)):
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(d, k) != 0), patterns=[z3.Select(d, k)]))
        return dict(folder_base=b, path=p, list=m.new_cells(st, "list", 24), methods=m.new_cells(st, "methods", 16), omit_globs=m.new_cells(st, "omit", 16))

    def ensures(self, c):
        return [("the entry was followed", c.g["given"])]


FOLDERS = [AppendShallow, AppendDeep, HandleSingle, HandleWild, TreatMaildir, TreatMh, TreatMbox, ChildFile, ChildDir, FilterMaildir, FilterMh, FilterFile, MhMessages, MaildirMessages, LastSlash, IsWild, HandleOne]
SUPPORT = [ValidMh]
CONTRACTS = FOLDERS
