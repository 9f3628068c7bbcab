"""db.c: an indexing run keeps exactly the unchanged messages, marks the vanished dead, and adds exactly the new files.

I0 is an arbitrary message, E0 an arbitrary entry of the list of files found.  What stat() says about a file is taken to be the
same throughout a run."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, simp, BV64, LoopSpec, View, PtrField
from vc.contract import Contract
from vc.ir import Unsupported
from contracts.toks import sx, zx
from contracts import mboxes
from vc import libc

BV32, Bo = z3.BitVecSort(32), z3.BoolSort()
DEAD, FILE, MBOX, IMAP = 0, 1, 2, 3
I0, E0 = z3.BitVecs("I0 E0", 32)
W0 = z3.BitVec("W0", 32)
LOOK = z3.Function("EntryOf", BV64, BV32, BV32)        # path and type of a message -> number of the entry, or -1
BAD = z3.Function("StatFails", BV64, Bo)
MODE = z3.Function("ModeOf", BV64, BV32)
MT = z3.Function("MtimeOf", BV64, BV64)
SZ = z3.Function("SizeOf", BV64, BV64)
NM = z3.BitVec("Messages", 32)
NE = z3.BitVec("Entries", 32)
NB = z3.BitVec("Mboxes", 32)
KNOWN = z3.Function("EntryKnown", BV32, Bo)            # some kept message is this entry
WIT = z3.Function("MessageOfEntry", BV32, BV32)        # that message
KEPTF = z3.Function("Kept", BV32, Bo)
NEWS = z3.Function("UnknownBelow", BV32, BV32)
REG, DIR, FMT = 0o100000, 0o040000, 0o170000


def isreg(p):
    return z3.And(z3.Not(BAD(p)), MODE(p) & FMT == REG)


class Update(Contract):
    name, file, pn = "update_database", "db", "db sorted_paths n_msgs do_fast_index imapc"
    timeout = 30.0
    max_paths = 20000

    def lookup(m, st, args, rty, line):
        t, n, key, ty = args
        m.check(st, "looks in the list of files found", z3.And(z3.BoolVal(t.obj == m.ents.obj and key.obj == m.pathfam), t.idx == 0, n == NE), "protocol", line)
        if key.obj != m.pathfam:
            return []
        r = LOOK(key.fid, ty)
        st.assume(r >= -1, r < NE)
        e = m.con.ent(View(m, st), r)
        st.assume(z3.Implies(r >= 0, e[m.o_type] == ty))
        return [(st, r)]

    def stat(m, st, args, rty, line):
        p, sb = args
        if p.obj != m.pathfam:
            m.check(st, "looks at a file found", False, "protocol", line)
            return []
        s2 = st.copy()
        s2.assume(BAD(p.fid))
        st.assume(z3.Not(BAD(p.fid)))
        F = m.field
        m.poke(st, sb.at(24), MODE(p.fid), 32)
        m.poke(st, sb.at(88), MT(p.fid), 64)
        m.poke(st, sb.at(48), SZ(p.fid), 64)
        return [(st, bv(0, 32)), (s2, bv(-1, 32))]

    def add(m, st, args, rty, line):
        db, path, mt, sz, ty = args
        con = m.con
        v = View(m, st)
        if path.obj != m.pathfam:
            m.check(st, "adds a file found", False, "protocol", line)
            return []
        p = path.fid
        g = st.ghost
        # path of an entry names the entry: no two entries of one path and type
        m.check(st, "only regular files are added, with what stat says", z3.If(ty == IMAP, z3.And(mt == 0, sz == 0), z3.And(isreg(p), mt == MT(p), z3.Extract(31, 0, sz) == z3.Extract(31, 0, SZ(p)))), "protocol", line)
        g["any"] = z3.BoolVal(True)
        e0 = con.ent(v, E0)
        hit = z3.And(p == e0[m.o_path], ty == e0[m.o_type])
        g["added"] = z3.If(hit, g["added"] + 1, g["added"])
        return [(st, None)]

    def scan(m, st, args, rty, line):
        db, start, imapc = args
        m.check(st, "the messages added are scanned, once", z3.And(start == NM, z3.Not(st.ghost["scanned"])), "protocol", line)
        st.ghost["scanned"] = z3.BoolVal(True)
        return [(st, None)]

    def boxes(m, st, args, rty, line):
        r = fresh("newmbox", 32)
        m.check(st, "mbox messages are added once", z3.Not(st.ghost["boxes"]), "protocol", line)
        st.ghost["boxes"] = z3.BoolVal(True)
        st.ghost["newmbox"] = r != 0
        return [(st, r)]

    def thread(m, st, args, rty, line):
        m.check(st, "threads are found when all messages are there", z3.And(st.ghost["boxes"], z3.Or(z3.Not(st.ghost["any"]), st.ghost["scanned"])), "protocol", line)
        st.ghost["threaded"] = z3.BoolVal(True)
        return [(st, None)]

    def alloc(m, st, args, rty, line):
        return [(st, m.new_arr(st, "marks", args[-1], 1))]

    def free(m, st, args, rty, line):
        if not args[0].null and args[0].obj == m.pathfam:
            return [(st, None)]        # the path of a message marked dead: its entry becomes NULL
        return libc._free(m, st, args, rty, line)
    for f in (lookup, stat, add, scan, boxes, thread, alloc, free):
        f.priority = True
    externs = {"lookup_msgpath": lookup, "stat": stat, "add_msg_path": add, "scan_new_messages": scan, "add_mbox_messages": boxes, "find_threading": thread, "safe_malloc": alloc, "free": free}

    def setup(self, c):
        m, st = c.m, c.st
        m.con = self
        F = m.field
        m.o_path, m.o_type, m.o_size, m.o_mtime = F("msgpath", "src.mpf.path")[0], 0, F("msgpath", "src.mpf.size")[0], F("msgpath", "src.mpf.mtime")[0]
        pk = m.new_fam(st, "paths", {0: 8}, elem="arr")
        m.pathfam = pk.obj if isinstance(pk, Ptr) else pk

        def dec(m_, s, v, p):
            v = simp(v)
            return [(None, Ptr(m.pathfam, bv(0), 0, v))]

        def enc(m_, s, v, p):
            return bv(0) if v.null else v.fid
        codec = PtrField(dec, enc, raw=64)
        A = lambda n: (codec, fresh(n, z3.ArraySort(BV64, BV64)))
        db = m.new_cells(st, "db", F("database", "__size")[0])
        v = View(m, st)
        st.assume(NM >= 0, NM < (1 << 28), NE >= 0, NE < (1 << 28), NB >= 0, NB < (1 << 26))
        size = F("msgpath", "__size")[0]
        m.msgs = m.new_arr(st, "msgs", sx(NM), size, fields={m.o_path: A("mpath"), m.o_size: 64, m.o_mtime: 64})
        m.typearr = m.new_arr(st, "type", sx(NM), 4)
        m.ents = m.new_arr(st, "found", sx(NE), size, fields={m.o_type: 32, m.o_path: A("epath"), m.o_size: 64, m.o_mtime: 64, F("msgpath", "source_ft")[0]: 32})
        bs = F("mbox", "__size")[0]

        def decb(m_, s, v, p):
            return [(v == 0, NULL), (v != 0, Ptr(m.pathfam, bv(0), 0, v))]
        m.o_seen = F("mbox", "n_old_msgs_valid")[0]
        m.boxes = m.new_arr(st, "mboxen", sx(NB), bs, fields={0: (PtrField(decb, enc), fresh("bp", z3.ArraySort(BV64, BV64))), m.o_seen: 32}, ro=True)
        v.set(db, "database", "n_msgs", NM)
        v.set(db, "database", "msgs", m.msgs)
        v.set(db, "database", "type", m.typearr)
        v.set(db, "database", "mboxen", m.boxes)
        v.set(db, "database", "n_mboxen", NB)
        g = st.ghost
        g["any"] = g["scanned"] = g["boxes"] = g["newmbox"] = g["threaded"] = z3.BoolVal(False)
        g["added"] = bv(0, 32)
        return dict(db=db, sorted_paths=m.ents, n_msgs=NE, do_fast_index=fresh("fast", 32), imapc=NULL)

    def requires(self, c):
        return [("an arbitrary message and an arbitrary entry", z3.And(I0 >= 0, z3.Or(NM == 0, I0 < NM), E0 >= 0, z3.Or(NE == 0, E0 < NE)))]

    def assigns(self, c):
        return [("any", c.a["db"]), ("any", c.m.msgs), ("any", c.m.typearr), ("any", c.m.ents)]

    def arr(self, v, p, i):
        o = v.st.mem[p.obj]
        return {k: z3.Select(t, sx(i)) for k, (w, t) in o.fields.items()}

    def ent(self, v, i):
        return self.arr(v, v.m.ents, i)

    def typ(self, v, i):
        return z3.Select(v.data(v.m.typearr), sx(i))

    def keep(self, c, i):
        """an unchanged message: its file is found, with the recorded time and size"""
        m = c.m
        a, t = self.arr(c.O, m.msgs, i), self.typ(c.O, i)
        p = a[m.o_path]
        e = LOOK(p, t)
        q = self.ent(c.O, e)[m.o_path]
        same = z3.And(isreg(q), MT(q) == a[m.o_mtime], z3.Extract(31, 0, SZ(q)) == z3.Extract(31, 0, a[m.o_size]))
        return z3.And(e >= 0, z3.Or(t == IMAP, z3.And(t == FILE, z3.Or(c.a["do_fast_index"] != 0, same))))

    def look(self, c, i):
        return LOOK(self.arr(c.O, c.m.msgs, i)[c.m.o_path], self.typ(c.O, i))

    def valid(self, c, i):
        a = self.arr(c.O, c.m.msgs, i)
        fi, mi = z3.Extract(31, 0, a[c.m.o_path]), z3.Extract(63, 32, a[c.m.o_path])
        b = self.arr(c.O, c.m.boxes, fi)
        return z3.And(b[0] != 0, mi < b[c.m.o_seen])

    def newtype(self, c, i):
        t = self.typ(c.O, i)
        return z3.If(t == MBOX, z3.If(self.valid(c, i), t, bv(DEAD, 32)), z3.If(z3.Or(t == FILE, t == IMAP), z3.If(KEPTF(i), t, bv(DEAD, 32)), t))

    def inst(self, c, i):
        t = self.typ(c.O, i)
        a = self.arr(c.O, c.m.msgs, i)
        fi = z3.Extract(31, 0, a[c.m.o_path])
        e = self.look(c, i)
        return [z3.Implies(z3.And(i >= 0, i < NM), z3.And(t >= 0, t <= 3, KEPTF(i) == self.keep(c, i), z3.Implies(t == MBOX, z3.And(fi >= 0, fi < NB)),
                                                         e >= -1, e < NE, z3.Implies(KEPTF(i), KNOWN(e)), z3.Implies(z3.And(e >= 0, z3.Or(t == FILE, t == IMAP)), self.ent(c.O, e)[c.m.o_type] == t)))]

    def einst(self, c, e):
        w = WIT(e)
        return [z3.Implies(KNOWN(e), z3.And(w >= 0, w < NM, self.look(c, w) == e, KEPTF(w)))] + self.inst(c, w)

    def ensures(self, c):
        g = c.g
        e0 = self.ent(c.O, E0)
        reg = z3.Or(e0[c.m.o_type] == IMAP, isreg(e0[c.m.o_path]))
        return [("every message: kept when unchanged, otherwise dead", z3.Implies(NM > 0, self.typ(c.S, I0) == self.newtype(c, I0))),
                ("every file found is added exactly when no kept message is it", z3.Implies(NE > 0, g["added"] == z3.If(z3.And(z3.Not(KNOWN(E0)), reg), bv(1, 32), bv(0, 32)))),
                ("what was added is scanned", z3.Implies(g["any"], g["scanned"])), ("mboxes are looked at", g["boxes"]),
                ("threads are found again after any addition", z3.Implies(z3.Or(g["any"], g["newmbox"]), g["threaded"])),
                ("any change is reported, so that the database is written", z3.Implies(z3.Or(g["any"], g["newmbox"], z3.And(NM > 0, self.typ(c.S, I0) != self.typ(c.O, I0))), c.ret != 0))]

    def marks(self, c):
        return c.S.data(c.S["file_in_db"]), c.S.data(c.S["file_in_new_list"])

    def common(self, c):
        m = c.m
        o, n = c.O.st.mem[m.ents.obj], c.st.mem[m.ents.obj]
        return [("paths and types of the files found", z3.And(n.fields[m.o_type][1] == o.fields[m.o_type][1], n.fields[m.o_path][1] == o.fields[m.o_path][1]))]

    def mark_facts(self, c, i):
        D, N = self.marks(c)
        e = self.look(c, WIT(E0))
        r = [("kept messages", z3.Implies(z3.And(I0 < i, NM > 0), (z3.Select(N, sx(I0)) != 0) == KEPTF(I0))), ("not looked at yet", z3.Implies(z3.And(I0 >= i, NM > 0), z3.Select(N, sx(I0)) == 0)),
             ("known entries", z3.Implies(z3.And(NE > 0, z3.Select(D, sx(E0)) != 0), KNOWN(E0))),
             ("no known entry is missed", z3.Implies(z3.And(NE > 0, KNOWN(E0), WIT(E0) < i), z3.Select(D, sx(E0)) != 0))]
        return r

    def inv1(self, c):
        i = c.S["i"]
        return [("index", z3.And(i >= 0, i <= NM))] + self.common(c) + self.mark_facts(c, i)

    def defs(self, c):
        i = c.S["i"]
        D, N = self.marks(c)
        return self.inst(c, i) + self.inst(c, I0) + self.einst(c, E0) + [z3.Implies(z3.And(i >= 0, i < NM), z3.Select(N, sx(i)) == 0)]

    def inv2(self, c):
        i = c.S["i"]
        np_ = c.S["n_newly_pruned"]
        return [("index", z3.And(i >= 0, i <= NM, np_ >= 0, np_ <= i, c.S["n_already_dead"] >= 0, c.S["n_already_dead"] <= i - np_, c.S["new_entries_start_at"] == NM))] + self.common(c) + self.mark_facts(c, NM) + [
            ("types so far", z3.Implies(NM > 0, self.typ(c.S, I0) == z3.If(I0 < i, self.newtype(c, I0), self.typ(c.O, I0)))), ("what is pruned is counted", z3.Implies(z3.And(NM > 0, I0 < i, self.typ(c.S, I0) != self.typ(c.O, I0)), np_ > 0))]

    def defs2(self, c):
        i = c.S["i"]
        D, N = self.marks(c)
        # the invariant at i
        a, b = self.arr(c.S, c.m.msgs, i), self.arr(c.O, c.m.msgs, i)
        return self.inst(c, i) + self.inst(c, I0) + self.einst(c, E0) + [z3.Implies(z3.And(i >= 0, i < NM), z3.And((z3.Select(N, sx(i)) != 0) == KEPTF(i), self.typ(c.S, i) == self.typ(c.O, i), a[c.m.o_path] == b[c.m.o_path]))]

    def inv3(self, c):
        i = c.S["i"]
        e0 = self.ent(c.O, E0)
        reg = z3.Or(e0[c.m.o_type] == IMAP, isreg(e0[c.m.o_path]))
        g = c.g
        n = c.S["n_newly_pruned"]
        return [("index", z3.And(i >= 0, i <= NE, n >= 0, c.S["new_entries_start_at"] == NM))] + self.common(c) + self.mark_facts(c, NM) + [
            ("types", z3.Implies(NM > 0, z3.And(self.typ(c.S, I0) == self.newtype(c, I0), z3.Implies(self.typ(c.S, I0) != self.typ(c.O, I0), n > 0)))),
            ("added so far", z3.Implies(NE > 0, g["added"] == z3.If(z3.And(E0 < i, z3.Not(KNOWN(E0)), reg), bv(1, 32), bv(0, 32)))), ("noticed", z3.Implies(g["any"], c.S["any_new"] != 0))]

    def defs3(self, c):
        i = c.S["i"]
        e, e0 = self.ent(c.O, i), self.ent(c.O, E0)
        # every path and type is in the list of files found at most once
        return self.einst(c, E0) + self.inst(c, I0) + [z3.Implies(z3.And(i >= 0, i < NE, NE > 0, e[c.m.o_path] == e0[c.m.o_path], e[c.m.o_type] == e0[c.m.o_type]), i == E0)]

    def __init__(self):
        super().__init__()
        S = LoopSpec
        self.loops = {0: S(inv=self.inv1, assume=self.defs), 1: S(inv=self.inv2, assume=self.defs2), 2: S(inv=self.inv3, assume=self.defs3)}


CMP = mboxes.CMP
TCMP = z3.Function("CompareTypeAndPath", BV64, BV32)


class Lookup(mboxes.LookupMbox):
    """the list is sorted by type and path, so entries before the key compare below it"""
    name, file, pn = "lookup_msgpath", "db", "sorted_paths n_msgs key type"

    def setup(self, c):
        m, st = c.m, c.st
        F = m.field
        size = F("msgpath", "__size")[0]
        poff = F("msgpath", "src.mpf.path")[0]
        n = fresh("n", 32)
        st.assume(n >= 0, n < (1 << 30))
        pk = m.new_fam(st, "paths", {0: 8}, elem="arr")
        m.pathfam = pk.obj if isinstance(pk, Ptr) else pk

        def dec(m_, s, v, p):
            return [(None, Ptr(m.pathfam, bv(0), 0, p.idx))]

        def enc(m_, s, v, p):
            raise Unsupported("list changed")
        t = m.new_arr(st, "list", sx(n), size, fields={poff: (PtrField(dec, enc), fresh("tp", z3.ArraySort(BV64, BV64))), 0: 32}, ro=True)
        m.typearr = st.mem[t.obj].fields[0][1]
        key = m.new_arr(st, "key", fresh("nk", 64), nul=fresh("ke", 64))
        m.key = key.obj
        ty = fresh("type", 32)
        m.ty = ty
        return dict(sorted_paths=t, n_msgs=n, key=key, type=ty)

    def tc(self, c, i):
        t = z3.Select(c.m.typearr, i)
        return z3.If(z3.ULT(t, c.m.ty), bv(-1, 32), z3.If(z3.UGT(t, c.m.ty), bv(1, 32), CMP(i)))

    def order(self, a, b):
        return z3.And(z3.Implies(z3.And(a < b, TCMP(a) >= 0), TCMP(b) > 0), z3.Implies(z3.And(a < b, TCMP(b) <= 0), TCMP(a) < 0))

    def ensures(self, c):
        r, n = c.ret, c.a["n_msgs"]
        i = sx(mboxes.I0)
        return [("an entry of that type and name", z3.Or(r == -1, z3.And(r >= 0, r < n, z3.Select(c.m.typearr, sx(r)) == c.m.ty, CMP(sx(r)) == 0))),
                ("nothing only when there is none", z3.Implies(z3.And(r == -1, mboxes.I0 >= 0, mboxes.I0 < n), z3.Or(z3.Select(c.m.typearr, i) != c.m.ty, CMP(i) != 0)))]

    def inv(self, c):
        n, l, h, mm = c.a["n_msgs"], c.S["l"], c.S["h"], c.S["m"]
        I = mboxes.I0
        i = z3.And(I >= 0, I < n)
        return [("borders", z3.And(l >= 0, l <= h, h <= n, z3.Implies(l == h, z3.And(n == 0, mm == -1)))),
                ("outside the borders nothing is equal", z3.Implies(z3.And(i, z3.Or(I < l, I >= h)), TCMP(sx(I)) != 0)), ("below", z3.Or(l == 0, TCMP(sx(l)) < 0))]

    def defs(self, c):
        l, h = c.S["l"], c.S["h"]
        mid = sx((l + h) >> 1)
        i = sx(mboxes.I0)
        return [self.order(mid, i), self.order(i, mid), TCMP(mid) == self.tc(c, mid), TCMP(i) == self.tc(c, i)]


CONTRACTS = [Update, Lookup]
