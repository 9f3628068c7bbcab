"""Assumed contracts of the C library functions the verified code calls.
Everything in this file is trusted; the evidence lists the entries used."""
import z3
from .ir import Unsupported, VoidTy, IntTy, PtrTy
from .engine import (Ptr, NULL, Obj, bv, fresh, simp, const, is_const, sconst, BV64, View, IntOfPtr)

MODELS = {}
USED = set()


# how many leading arguments the function reads through
DEREF = {"strcmp": 2, "strcasecmp": 2, "strncmp": 2, "strncasecmp": 2, "strlen": 1, "strcpy": 2, "strcat": 2, "strchr": 1, "strrchr": 1, "strstr": 2,
         "atoi": 1, "memcmp": 2}


def model(*names):
    def deco(f):
        def g(m, st, args, rty, line, _f=f, _n=names[0]):
            m.assumptions.add("libc:" + _n)
            if _n in DEREF:
                for a in args[:DEREF[_n]]:
                    if isinstance(a, Ptr) and a.null:
                        m.check(st, "null-deref(%s)" % _n, False, "memory", line)
                        return []
            return _f(m, st, args, rty, line)
        for n in names:
            MODELS[n] = g
        return f
    return deco


def raw(m, st, size, zero=False, site=None):
    k = m.newkey()
    o = Obj("raw", "heap%d" % k)
    o.size = simp(size)
    o.base = 0 if zero else None
    o.site = site
    st.mem[k] = o
    if not is_const(o.size):
        st.assume(z3.ULE(o.size, bv(1 << 47)))
    return Ptr(k)


@model("malloc")
def _malloc(m, st, args, rty, line):
    return [(st, raw(m, st, args[0], site=line))]


@model("calloc")
def _calloc(m, st, args, rty, line):
    return [(st, raw(m, st, simp(args[0] * args[1]), zero=True))]


@model("realloc")
def _realloc(m, st, args, rty, line):
    p, size = args
    size = simp(size)
    if p.null:
        return [(st, raw(m, st, size))]
    p, o = m.deref(st, p)
    if o.freed:
        m.check(st, "realloc-of-freed", False, "memory", line)
        return []
    k = m.newkey()
    o2 = o.clone()
    o2.name = o.name + "'"
    if o.kind == "arr":
        o2.count = m._exact_div(size, o.esize) if o.esize > 1 else size
        st.assume(z3.ULE(o2.count, bv((1 << 47) // o.esize)))
        for s, (w, t) in o.fields.items():
            if not isinstance(w, int):
                continue
            t2 = fresh(o2.name, t.sort())
            q = z3.BitVec("k!re%d" % k, 64)
            st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < o.count, q < o2.count), z3.Select(t2, q) == z3.Select(t, q)),
                                patterns=[z3.Select(t2, q)]))
            o2.fields[s] = (w, t2)
    elif o.kind == "cells":
        c = const(size)
        if c is None:
            raise Unsupported("realloc of cells")
        o2.size = c
        o2.base = None
    elif o.kind == "raw":
        o2.size = size
    else:
        raise Unsupported("realloc of family member")
    st.mem[k] = o2
    w = st.w(p.obj)
    w.freed = True
    return [(st, Ptr(k))]


@model("free")
def _free(m, st, args, rty, line):
    p = args[0]
    if not p.null:
        p, o = m.deref(st, p)
        if o.kind != "fam":
            if o.freed:
                m.check(st, "double-free:" + o.name, False, "memory", line)
            st.w(p.obj).freed = True
    return [(st, None)]


def bytes_of(m, st, p):
    """(object, array term, index) of a byte pointer"""
    p, o = m.deref(st, p)
    if o.kind == "raw":
        m.retype(st, p.obj, 1, "bytes")
        p, o = m.deref(st, p)
    if o.kind == "cells":
        m._conv_arr(st, p, 1)
        p, o = m.deref(st, p)
    if o.esize != 1:
        raise Unsupported("byte view of %s" % o.name)
    t = o.fields[0][1] if o.kind == "arr" else z3.Select(o.fields[0][1], p.fid)
    cnt = o.count if o.kind == "arr" else z3.Select(o.count, p.fid)
    return p, o, t, simp(p.idx + p.sub), cnt


def set_bytes(m, st, p, t):
    p, o = m.deref(st, p)
    o2 = st.w(p.obj)
    if o.kind == "arr":
        o2.fields[0] = (8, t)
    else:
        o2.fields[0] = (8, z3.Store(o.fields[0][1], p.fid, t))


def concrete_str(m, st, p):
    if p.null:
        return None
    p, o = m.deref(st, p)
    if o.kind != "cells":
        return None
    q = m._norm_cells(o, p)
    if q is None:
        return None
    out = []
    i = q.sub
    while True:
        c = o.cells.get(i)
        if c is None:
            if o.base == 0 and i < o.size:
                return bytes(out)
            return None
        v = c[1]
        if c[0] != 1 or not isinstance(v, z3.BitVecRef) or not is_const(simp(v)):
            return None
        b = simp(v).as_long()
        if b == 0:
            return bytes(out)
        out.append(b)
        i += 1


def nul_check(m, st, p, o, t, i, cnt, line, what):
    if o.freed:
        m.check(st, "use-after-free", False, "memory", line)
    if o.nul is not None:
        n = o.nul if not callable(o.nul) else o.nul(p)
        m.check(st, "terminated-string(%s)" % what, z3.And(i >= 0, i <= n, n < cnt, z3.Select(t, n) == 0), "memory", line)
        return n
    k = z3.BitVec("k!nul", 64)
    m.check(st, "terminated-string(%s)" % what, z3.Exists([k], z3.And(k >= i, i >= 0, k < cnt, z3.Select(t, k) == 0)), "memory", line)
    return None


@model("strlen")
def _strlen(m, st, args, rty, line):
    p = args[0]
    if p.null:
        m.check(st, "null-deref(strlen)", False, "memory", line)
        return []
    c = concrete_str(m, st, p)
    if c is not None:
        return [(st, bv(len(c)))]
    p, o, t, i, cnt = bytes_of(m, st, p)
    lim = nul_check(m, st, p, o, t, i, cnt, line, "strlen")
    n = fresh("strlen", 64)
    k = z3.BitVec("k!len", 64)
    st.assume(n >= 0, n < cnt, i + n < cnt, z3.Select(t, i + n) == 0,
              z3.ForAll([k], z3.Implies(z3.And(k >= i, k < i + n), z3.Select(t, k) != 0), patterns=[z3.Select(t, k)]))
    if lim is not None:
        st.assume(i + n <= lim)
    return [(st, n)]


def literal(m, st, p, c):
    if c is not None:
        return c
    p, o = m.deref(st, p)
    i = simp(p.idx + p.sub) if o.kind == "arr" else None
    if o.kind == "arr" and o.lit is not None and is_const(i) and i.as_long() < len(o.lit) and 0 in o.lit[i.as_long():]:
        return o.lit[i.as_long():o.lit.index(0, i.as_long())]
    return None


def cmp_model(m, st, a, b, line, limit=None, fold=False, nulstop=True, what="strcmp"):
    res = []
    A, B = [], []
    ca, cb = concrete_str(m, st, a), concrete_str(m, st, b)
    pa, oa, ta, ia, na = bytes_of(m, st, a)
    pb, ob, tb, ib, nb = bytes_of(m, st, b)
    if nulstop and limit is None:
        nul_check(m, st, pa, oa, ta, ia, na, line, what)
        nul_check(m, st, pb, ob, tb, ib, nb, line, what)
    low = (lambda x: z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)) if fold else (lambda x: x)
    d = fresh("cmpd", 64)
    r = fresh("cmpr", 32)
    k = z3.BitVec("k!cmp", 64)
    x, y = low(z3.Select(ta, ia + d)), low(z3.Select(tb, ib + d))
    body = low(z3.Select(ta, ia + k)) == low(z3.Select(tb, ib + k))
    if nulstop:
        body = z3.And(body, z3.Select(ta, ia + k) != 0)
    st.assume(d >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), body), patterns=[z3.Select(ta, ia + k)]))
    stop = x != y
    if nulstop:
        stop = z3.Or(stop, z3.Select(ta, ia + d) == 0)
    if limit is not None:
        st.assume(d <= limit, z3.Or(d == limit, stop))
        ne = z3.And(d != limit, x != y)
        lt = z3.And(d != limit, z3.ULT(x, y))
    else:
        st.assume(stop)
        ne, lt = x != y, z3.ULT(x, y)
    st.assume((r != 0) == ne, (r < 0) == lt)
    if nulstop and limit is None:
        # the same once more without quantifiers, against a literal
        for lit, t, i in ((literal(m, st, b, cb), ta, ia), (literal(m, st, a, ca), tb, ib)):
            if lit is not None and len(lit) <= 24:
                st.assume((r == 0) == z3.And(*[low(z3.Select(t, simp(i + q))) == low(bv(ch, 8)) for q, ch in enumerate(lit + b"\0")]))
                break
    st.ghost["cmp:last"] = d
    return r


@model("strcmp")
def _strcmp(m, st, args, rty, line):
    return [(st, cmp_model(m, st, args[0], args[1], line))]


@model("strcasecmp")
def _strcasecmp(m, st, args, rty, line):
    return [(st, cmp_model(m, st, args[0], args[1], line, fold=True))]


@model("strncmp")
def _strncmp(m, st, args, rty, line):
    return [(st, strn(m, st, args, line, False))]


@model("strncasecmp")
def _strncasecmp(m, st, args, rty, line):
    return [(st, strn(m, st, args, line, True))]


def strn(m, st, args, line, fold):
    """comparison stops at the first difference, a NUL, or n bytes; both sides must be readable that far"""
    a, b, n = args
    pa, oa, ta, ia, na = bytes_of(m, st, a)
    pb, ob, tb, ib, nb = bytes_of(m, st, b)
    c = const(simp(n))
    low = (lambda x: z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)) if fold else (lambda x: x)
    if c is not None and c <= 16:
        # exact, byte by byte, with the read bound each byte needs
        cont = z3.BoolVal(True)
        r = fresh("strn", 32)
        ne, lt = z3.BoolVal(False), z3.BoolVal(False)
        for j in range(c):
            m.check(st, "in-bounds(strncmp)", z3.Implies(cont, z3.And(ia + j >= 0, ia + j < na, ib + j >= 0, ib + j < nb)), "memory", line)
            x, y = low(z3.Select(ta, ia + j)), low(z3.Select(tb, ib + j))
            ne = z3.Or(ne, z3.And(cont, x != y))
            lt = z3.Or(lt, z3.And(cont, z3.ULT(x, y)))
            cont = z3.And(cont, x == y, z3.Select(ta, ia + j) != 0)
        st.assume((r != 0) == ne, (r < 0) == lt)
        return r
    return cmp_model(m, st, a, b, line, limit=n, fold=fold)


@model("memcmp")
def _memcmp(m, st, args, rty, line):
    a, b, n = args
    pa, oa, ta, ia, na = bytes_of(m, st, a)
    pb, ob, tb, ib, nb = bytes_of(m, st, b)
    m.check(st, "in-bounds(memcmp)", z3.And(n >= 0, ia >= 0, ia + n <= na, ib >= 0, ib + n <= nb), "memory", line)
    return [(st, cmp_model(m, st, a, b, line, limit=n, nulstop=False, what="memcmp"))]


@model("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove")
def _memcpy(m, st, args, rty, line):
    d, s, n = args[0], args[1], simp(args[2])
    c = const(n)
    if c == 0:
        return [(st, d)]
    if d.null or s.null:
        m.check(st, "null-deref(memcpy)", n == 0, "memory", line)
        return [(st, d)]
    pd, od = m.deref(st, d)
    ps, os_ = m.deref(st, s)
    if c is not None and (od.kind in ("cells", "raw") or os_.kind == "cells") and c <= 4096:
        # struct copy: copy the source's cells
        if od.kind == "raw":
            m.retype(st, pd.obj, 1)
            pd, od = m.deref(st, d)
        if od.kind == "cells" and os_.kind == "cells":
            qd, qs = m._norm_cells(od, pd), m._norm_cells(os_, ps)
            if qd is not None and qs is not None:
                m.check(st, "in-bounds(memcpy)", z3.And(m.inb(od, qd, c), m.inb(os_, qs, c)), "memory", line)
                src = {k: v for k, v in os_.cells.items() if qs.sub <= k and k + v[0] <= qs.sub + c}
                part = [k for k, v in os_.cells.items() if k < qs.sub + c and k + v[0] > qs.sub and k not in src]
                if part:
                    raise Unsupported("partial cell copy")
                o2 = st.w(pd.obj)
                for k, v in list(o2.cells.items()):
                    if k < qd.sub + c and k + v[0] > qd.sub:
                        if not (qd.sub <= k and k + v[0] <= qd.sub + c):
                            raise Unsupported("partial cell overwrite")
                        del o2.cells[k]
                for k, v in src.items():
                    o2.cells[k - qs.sub + qd.sub] = v
                return [(st, d)]
        if od.kind in ("arr", "fam") and os_.kind == "cells" and od.esize != 1 or os_.kind in ("arr", "fam") and os_.esize != 1 and od.kind in ("cells", "arr"):
            # element copy field by field
            if os_.kind == "cells":
                qs = m._norm_cells(os_, ps)
                for sub, (w, t) in od.fields.items():
                    if pd.sub <= sub < pd.sub + c:
                        ww = w if isinstance(w, int) else "p"
                        v = m._load_cell(st, Ptr(qs.obj, None, qs.sub + sub - pd.sub), 8 if ww == "p" else ww // 8, ww)
                        m._store(st, Ptr(pd.obj, pd.idx, sub, pd.fid), v, ww, line)
                return [(st, d)]
            sts = [st]
            for sub, (w, t) in os_.fields.items():
                if ps.sub <= sub < ps.sub + c:
                    ww = w if isinstance(w, int) else "p"
                    nxt = []
                    for s1 in sts:
                        for s2, v in m._load(s1, Ptr(ps.obj, ps.idx, sub, ps.fid), ww, line):
                            dst = Ptr(pd.obj, pd.idx, pd.sub + sub - ps.sub, pd.fid)
                            nxt.extend(m._store(s2, dst, v, ww, line))
                    sts = nxt
            return [(s1, d) for s1 in sts]
    if od.kind in ("arr", "fam") and os_.kind in ("arr", "fam") and od.esize == os_.esize and od.esize > 1:
        es = od.esize
        cnt = m._exact_div(n, es)
        nd = od.count if od.kind == "arr" else z3.Select(od.count, pd.fid)
        ns = os_.count if os_.kind == "arr" else z3.Select(os_.count, ps.fid)
        if od.kind != "arr" or os_.kind != "arr" or pd.sub or ps.sub:
            raise Unsupported("memcpy of families")
        m.check(st, "in-bounds(memcpy)", z3.And(cnt >= 0, z3.Implies(cnt > 0, z3.And(pd.idx >= 0, pd.idx + cnt <= nd, ps.idx >= 0, ps.idx + cnt <= ns))), "memory", line)
        o2 = st.w(pd.obj)
        for sub, (w, t) in od.fields.items():
            if sub not in os_.fields:
                raise Unsupported("memcpy layout")
            ts = os_.fields[sub][1]
            k = z3.BitVec("k!cp", 64)
            nm = fresh("copy", t.sort())
            st.assume(z3.ForAll([k], z3.Select(nm, k) == z3.If(z3.And(k >= pd.idx, k < pd.idx + cnt), z3.Select(ts, k - pd.idx + ps.idx), z3.Select(t, k)), patterns=[z3.Select(nm, k)]))
            o2.fields[sub] = (w, nm)
        return [(st, d)]
    pd, od, td, idd, nd = bytes_of(m, st, d)
    ps, os_, ts, iss, ns = bytes_of(m, st, s)
    m.check(st, "in-bounds(memcpy)", z3.And(n >= 0, z3.Implies(n > 0, z3.And(idd >= 0, idd <= nd - n, iss >= 0, iss <= ns - n, n <= nd, n <= ns))), "memory", line)
    if od.freed or os_.freed:
        m.check(st, "use-after-free(memcpy)", False, "memory", line)
    if c is not None and c <= 32:
        t2 = td
        for k in range(c):
            t2 = z3.Store(t2, simp(idd + k), z3.Select(ts, simp(iss + k)))
    else:
        k = z3.BitVec("k!cp", 64)
        t2 = z3.Lambda([k], z3.If(z3.And(k >= idd, k < idd + n), z3.Select(ts, k - idd + iss), z3.Select(td, k)))
        # name it, so that later terms stay small
        nm = fresh("copy", t2.sort())
        q = z3.BitVec("q!cp", 64)
        st.assume(z3.ForAll([q], z3.Select(nm, q) == z3.If(z3.And(q >= idd, q < idd + n), z3.Select(ts, q - idd + iss), z3.Select(td, q)),
                            patterns=[z3.Select(nm, q)]))
        t2 = nm
    set_bytes(m, st, d, t2)
    return [(st, d)]


@model("llvm.memset.p0.i64", "memset")
def _memset(m, st, args, rty, line):
    d, v, n = args[0], args[1], simp(args[2])
    if v.size() > 8:
        v = z3.Extract(7, 0, v)
    pd, od = m.deref(st, d)
    c = const(n)
    if od.kind == "raw":
        m.retype(st, pd.obj, 1)
        pd, od = m.deref(st, d)
    if od.kind == "cells" and c is not None and is_const(simp(v)) and simp(v).as_long() == 0:
        q = m._norm_cells(od, pd)
        if q is not None and q.sub == 0 and c == od.size:
            o2 = st.w(pd.obj)
            o2.cells, o2.base = {}, 0
            return [(st, d)]
        if q is not None and not od.cells and od.base is None:
            o2 = st.w(pd.obj)
            m.check(st, "in-bounds(memset)", m.inb(od, q, c), "memory", line)
            for k in range(c):
                o2.cells[q.sub + k] = (1, bv(0, 8))
            return [(st, d)]
    if od.kind in ("arr",) and od.esize > 1:
        es = od.esize
        cnt = m._exact_div(n, es)
        m.check(st, "in-bounds(memset)", z3.And(cnt >= 0, pd.idx >= 0, pd.idx + cnt <= od.count), "memory", line)
        o2 = st.w(pd.obj)
        for sub, (w, t) in od.fields.items():
            k = z3.BitVec("k!ms", 64)
            ww = w if isinstance(w, int) else 64
            full = z3.Concat(*[v] * (ww // 8)) if ww > 8 else v
            nm = fresh("set", t.sort())
            st.assume(z3.ForAll([k], z3.Select(nm, k) == z3.If(z3.And(k >= pd.idx, k < pd.idx + cnt), full, z3.Select(t, k)), patterns=[z3.Select(nm, k)]))
            o2.fields[sub] = (w, nm)
        return [(st, d)]
    pd, od, td, idd, nd = bytes_of(m, st, d)
    m.check(st, "in-bounds(memset)", z3.And(n >= 0, z3.Implies(n > 0, z3.And(idd >= 0, idd <= nd - n, n <= nd))), "memory", line)
    nm = fresh("set", td.sort())
    k = z3.BitVec("k!ms", 64)
    st.assume(z3.ForAll([k], z3.Select(nm, k) == z3.If(z3.And(k >= idd, k < idd + n), v, z3.Select(td, k)), patterns=[z3.Select(nm, k)]))
    set_bytes(m, st, d, nm)
    return [(st, d)]


@model("strcpy")
def _strcpy(m, st, args, rty, line):
    d, s = args
    (st, n), = _strlen(m, st, [s], None, line)
    _memcpy(m, st, [d, s, simp(n + 1)], None, line)
    st.ghost["strcpy:len"] = n
    pd, od = m.deref(st, d)
    if od.kind == "arr":
        st.w(pd.obj).nul = simp(pd.idx + n)
    return [(st, d)]


@model("strchr")
def _strchr(m, st, args, rty, line):
    s, ch = args
    c = concrete_str(m, st, s)
    b = z3.Extract(7, 0, ch)
    if c is not None:
        p, o = m.deref(st, s)
        q = m._norm_cells(o, p)
        outs = []
        none = st.copy()
        seen = []
        for j, x in enumerate(c + b"\0"):
            s2 = st.copy()
            s2.assume(b == x, *[b != y for y in seen])
            seen.append(x)
            if m.feasible(s2):
                outs.append((s2, Ptr(q.obj, None, q.sub + j)))
        none.assume(*[b != x for x in c + b"\0"])
        if m.feasible(none):
            outs.append((none, NULL))
        return outs
    p, o, t, i, cnt = bytes_of(m, st, s)
    nul_check(m, st, p, o, t, i, cnt, line, "strchr")
    k = z3.BitVec("k!sc", 64)
    s2 = st.copy()
    n = fresh("strchr", 64)
    st.assume(n >= i, n < cnt, z3.Select(t, n) == b, z3.ForAll([k], z3.Implies(z3.And(k >= i, k < n), z3.And(z3.Select(t, k) != b, z3.Select(t, k) != 0)), patterns=[z3.Select(t, k)]))
    e = fresh("strend", 64)
    s2.assume(e >= i, e < cnt, z3.Select(t, e) == 0, b != 0, z3.ForAll([k], z3.Implies(z3.And(k >= i, k < e), z3.And(z3.Select(t, k) != b, z3.Select(t, k) != 0)), patterns=[z3.Select(t, k)]))
    return [(st, Ptr(p.obj, n, 0, p.fid)), (s2, NULL)]


@model("tolower")
def _tolower(m, st, args, rty, line):
    c = args[0]
    return [(st, simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))]


@model("toupper")
def _toupper(m, st, args, rty, line):
    c = args[0]
    return [(st, simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))]


_UP, _LO, _AL, _DI, _XD, _SP, _PR, _GR, _BL, _CN, _PU, _AN = (1 << 8, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1, 2, 4, 8)


def _ctype(c):
    r = 0
    if c < 0 or c > 127:
        return 0
    ch = chr(c)
    if "A" <= ch <= "Z":
        r |= _UP | _AL | _AN
    if "a" <= ch <= "z":
        r |= _LO | _AL | _AN
    if "0" <= ch <= "9":
        r |= _DI | _AN
    if ch in "0123456789abcdefABCDEF":
        r |= _XD
    if ch in " \t\n\v\f\r":
        r |= _SP
    if 32 <= c < 127:
        r |= _PR
    if 33 <= c < 127:
        r |= _GR
    if ch in " \t":
        r |= _BL
    if c < 32 or c == 127:
        r |= _CN
    if 33 <= c < 127 and not ch.isalnum():
        r |= _PU
    return r


@model("__ctype_b_loc")
def _ctb(m, st, args, rty, line):
    key = m.gkeys.get("!ctype")
    if key is None or key not in st.mem:
        t = z3.K(BV64, bv(0, 16))
        for c in range(0, 128):
            t = z3.Store(t, bv(c), bv(_ctype(c), 16))
        p = m.new_arr(st, "ctype-table", 256, 2, {0: (16, t)}, ro=True)
        o = st.mem[p.obj]
        o.lo = -128
        c = m.new_cells(st, "ctype-ptr", 8)
        st.mem[c.obj].cells[0] = (8, p)
        m.gkeys["!ctype"] = c.obj
        key = c.obj
    return [(st, Ptr(key))]


def ignore(ret=None):
    def f(m, st, args, rty, line):
        if isinstance(rty, IntTy):
            return [(st, fresh("ext", rty.w))]
        if isinstance(rty, VoidTy):
            return [(st, None)]
        raise Unsupported("ignored call returning pointer")
    return f


for n in ("printf", "fprintf", "perror", "fputs", "puts", "putchar", "fflush", "putc", "fputc", "report_error", "fwrite"):
    MODELS[n] = ignore()


@model("exit", "_exit", "abort", "unlock_and_exit", "out_of_mem")
def _exit(m, st, args, rty, line):
    return []


@model("__assert_fail")
def _assert(m, st, args, rty, line):
    m.check(st, "assert", False, "assertion", line)
    return []
