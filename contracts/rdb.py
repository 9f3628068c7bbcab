"""The database a search runs on, as the contracts of search.c see it: a read_db whose tables are separate read-only
arrays (in the program they are parts of one mapped file; nothing writes to them, so sharing cannot be observed)."""
import z3
from vc.engine import Ptr, NULL, bv, fresh, BV64, View
from contracts.postings import readable, dlen, dval

IN = z3.Function("InList", BV64, BV64, z3.BoolSort())        # (list offset, message)
WK = z3.Function("EntryOf", BV64, BV64, BV64)                # entry index holding that message
POS = z3.Function("EntryPos", BV64, BV64, BV64)              # (list offset, k) -> byte position of entry k
SUM = z3.Function("EntrySum", BV64, BV64, z3.BitVecSort(32)) # running sum before entry k
IDX = z3.Function("EntryIdx", BV64, BV64, BV64)              # inverse of POS
NENT = z3.Function("ListLen", BV64, BV64)


def sx(v, w=64):
    return z3.SignExt(w - v.size(), v)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def new_db(c, tables=(), st=None):
    """returns (db pointer, {'data':..., 'tt':...})"""
    m, st = c.m, st or c.st
    v = View(m, st)
    db = m.new_cells(st, "db", m.field("read_db", "__size")[0])
    ln, n = fresh("dblen", 32), fresh("n_msgs", 32)
    st.assume(ln >= 0, n >= 0)
    data = m.new_arr(st, "dbdata", sx(ln), ro=True)
    v.set(db, "read_db", "data", data)
    v.set(db, "read_db", "len", ln)
    v.set(db, "read_db", "n_msgs", n)
    flags = m.new_arr(st, "types", sx(n), ro=True)
    v.set(db, "read_db", "msg_type_and_flags", flags)
    for f in ("path_offsets", "mtime_table", "size_table", "date_table", "tid_table"):
        v.set(db, "read_db", f, m.new_arr(st, f, sx(n), esize=4, ro=True))
    nb = fresh("n_mboxen", 32)
    st.assume(nb >= 0)
    v.set(db, "read_db", "n_mboxen", nb)
    for f in ("mbox_paths_table", "mbox_entries_table", "mbox_mtime_table", "mbox_size_table", "mbox_checksum_table"):
        v.set(db, "read_db", f, m.new_arr(st, f, sx(nb), esize=4, ro=True))
    return db


def new_table(c, name, two=False, st=None):
    m, st = c.m, st or c.st
    v = View(m, st)
    sn = "toktable2_db" if two else "toktable_db"
    tt = m.new_cells(st, name, m.field(sn, "__size")[0])
    n = fresh(name + ".n", 32)
    v.set(tt, sn, "n", n)
    for f in ("tok_offsets",) + (("enc0_offsets", "enc1_offsets") if two else ("enc_offsets",)):
        v.set(tt, sn, f, m.new_arr(st, name + "." + f, zx(n), esize=4, ro=True))
    return tt


def data_of(c, db, view=None):
    v = view or c.S
    p = v.f(db, "read_db", "data")
    return p, v.data(p), sx(v.f(db, "read_db", "len"))


def list_defs(d, end, off, k):
    """definition of the entries of the list at `off`, instantiated at entry k"""
    p = POS(off, k)
    return [POS(off, bv(0)) == off, SUM(off, bv(0)) == 0, IDX(off, off) == 0, NENT(off) >= 0,
            z3.Implies(z3.And(k >= 0, k <= NENT(off)), z3.And(
                readable(d, p, end) == (k < NENT(off)),
                POS(off, k + 1) == p + dlen(d, p),
                SUM(off, k + 1) == SUM(off, k) + dval(d, p),
                IDX(off, p + dlen(d, p)) == k + 1))]


def in_defs(off):
    """InList(off, m): some entry k of the list has running sum m"""
    mm, k = z3.BitVecs("m!in k!in", 64)
    return [z3.ForAll([mm], z3.Implies(IN(off, mm), z3.And(WK(off, mm) >= 0, WK(off, mm) < NENT(off), sx(SUM(off, WK(off, mm) + 1)) == mm)), patterns=[IN(off, mm)]),
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NENT(off)), IN(off, sx(SUM(off, k + 1)))), patterns=[SUM(off, k + 1)])]


def list_valid(off, n):
    """every message number in the list is one of the database's n messages"""
    k = z3.BitVec("k!lv", 64)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NENT(off)), z3.And(SUM(off, k + 1) >= 0, SUM(off, k + 1) < n)), patterns=[SUM(off, k + 1)])
