"""dotlock.c against a file system that may answer anything.

Every system call is nondeterministic; ghost state records what was asked of the file system about the lock file itself
(the object whose name lock_database builds as path + ".lock"):
  linked    link(own file, lock file) succeeded
  two       stat of the own file then showed two links (the link had succeeded although link() said otherwise)
  eexist    link() failed because the lock file exists
  readable  the lock file could be opened
  removed   the lock file was unlinked
A postcondition at every return, and an obligation at every exit(), say when the lock may be taken to be ours."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, Obj
from vc.contract import Contract
from vc.ir import Unsupported, IntTy, VoidTy
from vc import libc

PL = z3.BitVec("PathLen", 64)
T, F = z3.BoolVal(True), z3.BoolVal(False)
EEXIST = 17


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def is_lock(st, p):
    return p.obj is not None and st.ghost.get("lockname") == p.obj


def uname(m, st, args, rty, line):
    r = fresh("uname", 32)
    p, o, t, i, cnt = libc.bytes_of(m, st, args[0])
    NL = fresh("NodeEnd", 64)
    o2 = st.w(p.obj)
    nm = fresh("uts", t.sort())
    o2.fields[0] = (8, nm)
    o2.nul = NL
    st.assume(NL >= 65, NL < 130, z3.Select(nm, NL) == 0)
    return [(st, r)]


def getpwuid(m, st, args, rty, line):
    s2 = st.copy()
    pw = m.new_cells(s2, "passwd", m.field("passwd", "__size")[0])
    nm = m.new_arr(s2, "pw_name", fresh("pwn", 64), ro=True)
    View(m, s2).set(pw, "passwd", "pw_name", nm)
    return [(st, NULL), (s2, pw)]


def sprintf(m, st, args, rty, line):
    fmt = libc.concrete_str(m, st, args[1])
    d = args[0]
    vals = list(args[2:])

    def slen(p):
        (s, n), = libc.MODELS["strlen"](m, st, [p], None, line)
        return n
    if fmt is None:
        raise Unsupported("sprintf with unknown format")
    total, i, first = bv(0), 0, None
    f = fmt.decode()
    while i < len(f):
        if f[i] == "%" and f[i + 1] == "s":
            n = slen(vals.pop(0))
            total = total + n
            i += 2
        elif f[i] == "%" and f[i + 1] == "d":
            v = vals.pop(0)
            n = fresh("digits", 64)
            # at most ten digits, and a sign for negative numbers
            st.assume(n >= 1, n <= z3.If(v < 0, bv(11), bv(10)))
            total = total + n
            i += 2
        elif f[i] == "%":
            raise Unsupported("sprintf " + f)
        else:
            total = total + 1
            i += 1
    p, o, t, ix, cnt = libc.bytes_of(m, st, d)
    m.check(st, "in-bounds(sprintf)", z3.And(ix >= 0, ix + total < cnt), "memory", line)
    nm = fresh("sprintf", t.sort())
    st.assume(z3.Select(nm, ix + total) == 0)
    libc.set_bytes(m, st, d, nm)
    st.w(p.obj).nul = simp(ix + total)
    # the name of the lock file is the database path followed by ".lock"
    if f == "%s.lock" and args[2].obj == getattr(m, "lock_path", None):
        st.ghost["lockname"] = p.obj
    return [(st, fresh("sprintf.ret", 32))]


def link(m, st, args, rty, line):
    if not is_lock(st, args[1]) or is_lock(st, args[0]):
        m.check(st, "link() makes the lock file from another file", False, "protocol", line)
        return []
    s2 = st.copy()
    st.ghost["link"] = T
    st.ghost["own"] = args[0].obj
    s2.ghost["link"] = F
    s2.ghost["own"] = args[0].obj
    e = fresh("errno", 32)
    m.poke(s2, errno(m, s2), e, 32)
    s2.ghost["eexist"] = e == EEXIST
    r = fresh("link", 32)
    s2.assume(r < 0)
    return [(st, bv(0, 32)), (s2, r)]


def errno(m, st):
    k = m.gkeys.get("!errno")
    if k is None:
        k = m.gkeys["!errno"] = m.newkey()
    if k not in st.mem:
        o = Obj("cells", "errno")
        o.size, o.cells = 4, {}
        st.mem[k] = o
    return Ptr(k)


def errno_loc(m, st, args, rty, line):
    return [(st, errno(m, st))]


def stat(m, st, args, rty, line):
    s2 = st.copy()
    r = fresh("stat", 32)
    st.assume(r < 0)
    n = fresh("nlink", 64)
    View(m, s2).set(args[1], "stat", "st_nlink", n)
    if args[0].obj is not None and st.ghost.get("own") == args[0].obj:
        s2.ghost["two"] = n == 2
    return [(st, r), (s2, bv(0, 32))]


def fopen(m, st, args, rty, line):
    s2 = st.copy()
    mode = libc.concrete_str(m, st, args[1])
    m.check(st, "the lock file itself is only ever opened for reading", T if not is_lock(st, args[0]) or mode in (b"r", b"rb") else F, "protocol", line)
    if is_lock(st, args[0]):
        st.ghost["readable"] = F
        s2.ghost["readable"] = T
    f = m.new_cells(s2, "FILE", 216)
    return [(st, NULL), (s2, f)]


def unlink(m, st, args, rty, line):
    if is_lock(st, args[0]):
        # recorded with the condition under which it may happen
        ok = st.ghost.get("may_remove", F)
        m.check(st, "the lock file is removed only when it is ours or --unlock was given", ok, "protocol", line)
        st.ghost["removed"] = T
    return [(st, fresh("unlink", 32))]


def exit_(m, st, args, rty, line):
    m.check(st, "a run that did not get the lock ends with a non-zero status", args[0] != 0, "protocol", line)
    m.check(st, "and does not think it has it", held(m, st) == 0, "protocol", line)
    m.check(st, "a run that got the lock goes on", z3.Not(st.ghost.get("link", F)), "protocol", line)
    return []


def held(m, st):
    k = m.gkeys.get("lock_held")
    if k is None or k not in st.mem:
        return bv(0, 32)
    return m.peek(st, Ptr(k), 32)


def fgets(m, st, args, rty, line):
    s2 = st.copy()
    d, n = args[0], sx(args[1])
    p, o, t, i, cnt = libc.bytes_of(m, s2, d)
    m.check(s2, "in-bounds(fgets)", z3.And(n >= 1, i >= 0, i + n <= cnt), "memory", line)
    nm = fresh("line", t.sort())
    e = fresh("lineend", 64)
    s2.assume(e >= i, e < i + n, z3.Select(nm, e) == 0)
    libc.set_bytes(m, s2, d, nm)
    s2.w(p.obj).nul = e
    return [(st, NULL), (s2, d)]


def strcspn(m, st, args, rty, line):
    (s, n), = libc.MODELS["strlen"](m, st, [args[0]], None, line)
    k = fresh("span", 64)
    st.assume(k >= 0, k <= n)
    return [(st, k)]


def nat32(name):
    def f(m, st, args, rty, line):
        return [(st, fresh(name, 32))]
    return f


def getpid(m, st, args, rty, line):
    v = fresh("pid", 32)
    st.assume(v > 0)
    return [(st, v)]


EXT = dict(uname=uname, getpwuid=getpwuid, sprintf=sprintf, link=link, __errno_location=errno_loc, stat=stat, fopen=fopen, unlink=unlink, exit=exit_,
           fgets=fgets, strcspn=strcspn, getuid=nat32("uid"), getpid=getpid, fclose=nat32("fclose"))


class Lock(Contract):
    name, file = "lock_database", "dotlock"
    pn = "path forced_unlock"
    externs = EXT
    globals_init = {"lock_held": "init", "lock_file_name": "init"}

    def setup(self, c):
        p = c.m.new_arr(c.st, "path", fresh("n", 64), nul=PL, ro=True)
        c.m.lock_path = p.obj
        f = fresh("forced_unlock", 32)
        c.st.ghost["may_remove"] = f != 0
        return dict(path=p, forced_unlock=f)

    def requires(self, c):
        p = c.a["path"]
        return [("path", z3.And(PL >= 0, PL < (1 << 20), PL < c.S.count(p), z3.Select(c.S.data(p), PL) == 0))]

    def ensures(self, c):
        g = c.st.ghost
        if "lockname" not in g or "link" not in g:
            return [("takes the lock by linking a file of its own to the lock file", F)]
        lf = c.S.ld(Ptr(c.m.gkeys["lock_file_name"]), "p")
        own = z3.Or(g["link"], g.get("two", F), z3.And(z3.Not(g["link"]), z3.Not(g.get("eexist", F)), z3.Not(g.get("readable", T))))
        return [("returns only if the link is ours, or there is no lock file and links are not possible", own),
                ("the lock is then on record as held", held(c.m, c.st) != 0),
                ("and the name to remove later is that of the lock file", z3.BoolVal(lf.obj == g["lockname"]) if lf.obj is not None else F)]

    def assigns(self, c):
        return [("any", Ptr(c.m.gkeys[k])) for k in ("lock_held", "lock_file_name") if k in c.m.gkeys]


class Unlock(Contract):
    name, file = "unlock_database", "dotlock"
    pn = ""
    usable = False

    def setup(self, c):
        c.st.ghost["lockname"] = None
        return {}

    def hook_unlink(m, st, args, rty, line):
        k = m.gkeys.get("lock_held")
        h = m.peek(st, Ptr(k), 32) if k in st.mem else bv(0, 32)
        lf = m.peek(st, Ptr(m.gkeys["lock_file_name"]), "p")
        m.check(st, "unlock removes the lock file only while holding the lock", h != 0, "protocol", line)
        m.check(st, "and nothing but the lock file", T if args[0].obj == lf.obj and lf.obj is not None else F, "protocol", line)
        st.ghost["removed"] = T
        return [(st, fresh("unlink", 32))]

    def hook_exit(m, st, args, rty, line):
        return [(st, None)]

    def pin_name(m, st, o):
        a = m.new_arr(st, "lockname", 40, ro=True)
        o.cells[0] = (8, a)
        st.ghost["lockname"] = a.obj
    externs = dict(unlink=hook_unlink, exit=hook_exit)
    globals_init = {"lock_file_name": pin_name}

    def ensures(self, c):
        k = c.m.gkeys.get("lock_held")
        if k is None:
            return [("looks at whether the lock is held", F)]
        return [("a held lock is removed", z3.Implies(c.S.ld(Ptr(k), 32) != 0, c.st.ghost.get("removed", F)))]


class UnlockExit(Unlock):
    """unlock_and_exit: the lock is removed if held, and the process ends with the given status"""
    name = "unlock_and_exit"
    pn = "code"

    def setup(self, c):
        r = super().setup(c)
        code = fresh("code", 32)
        c.m.exit_code = code
        return dict(code=code)

    def hook_exit(m, st, args, rty, line):
        k = m.gkeys.get("lock_held")
        h = m.peek(st, Ptr(k), 32) if k is not None and k in st.mem else None
        m.check(st, "a held lock is removed before the process ends", z3.Implies(h != 0, st.ghost.get("removed", F)) if h is not None else F, "protocol", line)
        m.check(st, "ends with the given status", args[0] == m.exit_code, "protocol", line)
        return []
    externs = dict(unlink=Unlock.externs["unlink"], exit=hook_exit)
    rets = False

    def ensures(self, c):
        return [("does not return", F)]


CONTRACTS = [Lock, Unlock, UnlockExit]
