"""Deductive verification-condition generator for LLVM IR.

Forward symbolic execution between cut points.  Loops are cut at their header
by an invariant (established on entry, assumed for an arbitrary iteration whose
modified locations are havocked, proved at every back edge); calls are replaced
by the callee's contract when it has one and inlined otherwise.  Every memory
access, signed overflow, shift amount, division and assert() is an obligation.
No bound is placed on iterations or on object sizes unless `unwind` is set
(bounded stand-in mode, reported as such).
"""
import itertools
import os
import subprocess
import tempfile
import time
import re
import z3
from .ir import (Unsupported, IntTy, PtrTy, ArrTy, StructTy, VoidTy, FloatTy, PTR)

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
_ctr = itertools.count(1)


def fresh(name, sort):
    n = "%s!%d" % (name, next(_ctr))
    if isinstance(sort, int):
        return z3.BitVec(n, sort)
    return z3.Const(n, sort)


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def simp(e):
    return z3.simplify(e)


def is_const(e):
    return z3.is_bv_value(e)


def const(e):
    return e.as_long() if z3.is_bv_value(e) else None


def sconst(e):
    return e.as_signed_long()


def conj(xs):
    xs = list(xs)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


class Ptr:
    __slots__ = ("obj", "fid", "idx", "sub")

    def __init__(self, obj, idx=None, sub=0, fid=None):
        self.obj, self.idx, self.sub, self.fid = obj, (bv(0) if idx is None else idx), sub, fid

    def __repr__(self):
        return "Ptr(%s%s,%s,%d)" % (self.obj, "" if self.fid is None else "#%s" % self.fid, self.idx, self.sub)

    @property
    def null(self):
        return self.obj is None

    def add(self, n):
        return Ptr(self.obj, simp(self.idx + n), self.sub, self.fid)

    def at(self, sub):
        return Ptr(self.obj, self.idx, self.sub + sub, self.fid)


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name):
        self.name = name


class IntOfPtr:
    def __init__(self, p):
        self.p = p


def veq(a, b):
    """syntactic equality of two values"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return (a.obj == b.obj and a.sub == b.sub and veq(a.idx, b.idx)
                and (a.fid is b.fid or (a.fid is not None and b.fid is not None and veq(a.fid, b.fid))))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b) or (a.sort() == b.sort() and simp(a).eq(simp(b)))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    return False


# ------------------------------------------------------------ objects
class Obj:
    """kinds:
     cells : {offset: (bytes, value)}; concrete offsets only; size int
     arr   : count (BV64) elements of esize bytes; fields {sub: (w, Array BV64->BVw) | PtrCodec field}
     fam   : a family of separately allocated objects of one shape, indexed by a nonzero BV64 id
             (elem 'struct': fields {sub: (w, Array id->BVw)}; elem 'arr': fields {sub:(w, Array id->Array)}, count: Array id->BV64)
    """
    __slots__ = ("kind", "name", "size", "cells", "count", "esize", "fields", "ro", "alive", "freed", "base",
                 "nul", "adopted", "felem", "subs", "lo", "site", "lit")

    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.size = None
        self.cells = None
        self.count = None
        self.esize = None
        self.fields = None
        self.ro = False
        self.freed = False
        self.nul = None
        self.adopted = None
        self.felem = None
        self.subs = None
        self.lo = 0
        self.alive = None
        self.base = None
        self.site = None
        self.lit = None       # bytes of a string literal

    def clone(self):
        o = Obj(self.kind, self.name)
        for s in self.__slots__:
            setattr(o, s, getattr(self, s))
        if self.cells is not None:
            o.cells = dict(self.cells)
        if self.fields is not None:
            o.fields = dict(self.fields)
        return o


class PtrField:
    """codec for pointer-valued array/family fields: encoded as BV64 (raw=64: a union, integer accesses see that number)"""
    def __init__(self, decode, encode, raw=0):
        self.decode, self.encode, self.raw = decode, encode, raw


class State:
    __slots__ = ("mem", "pc", "ghost", "trace")

    def __init__(self):
        self.mem, self.pc, self.ghost, self.trace = {}, [], {}, []

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s

    def w(self, key):
        """writable clone of object"""
        o = self.mem[key].clone()
        self.mem[key] = o
        return o

    def assume(self, *fs):
        for f in fs:
            if f is None:
                continue
            f = f if isinstance(f, z3.ExprRef) else z3.BoolVal(f)
            if z3.is_true(f):
                continue
            self.pc.append(f)


class Obl:
    def __init__(self, fn, name, kind, line, status, secs, backend, model=None, detail=""):
        self.fn, self.name, self.kind, self.line = fn, name, kind, line
        self.status, self.secs, self.backend, self.model, self.detail = status, secs, backend, model, detail


class PathLimit(Unsupported):
    pass


class Frame:
    _n = itertools.count()

    def __init__(self, mod, fn, depth):
        self.mod, self.fn, self.depth = mod, fn, depth
        self.id = next(Frame._n)
        self.loops = fn.loops()
        self.allocas = {}   # name -> obj key


class Outcome:
    def __init__(self, kind, st, val=None, hdr=None):
        self.kind, self.st, self.val, self.hdr = kind, st, val, hdr


class Program:
    def __init__(self, modules):
        self.modules = modules  # {file: Module}

    def find(self, name, mod=None):
        if mod is not None and name in mod.fns:
            return mod, mod.fns[name]
        for m in self.modules.values():
            if name in m.fns and not m.fns[name].internal:
                return m, m.fns[name]
        return None, None


class View:
    """what a contract sees of a state: locals by name, fields, bytes"""
    def __init__(self, m, st, fr=None, extra=None):
        self.m, self.st, self.fr, self.x = m, st, fr, extra or {}

    def has(self, name):
        return self.fr is not None and self.m.local_key(self.fr, name) is not None

    def __getitem__(self, name):
        k = self.m.local_key(self.fr, name)
        if k is None:
            raise NoLocal(name)
        o = self.st.mem[k]
        if o.kind != "cells":
            return Ptr(k)
        if 0 not in o.cells:
            if o.size > 8 or getattr(self.m, "ptr_locals", None) and name in self.m.ptr_locals:
                raise NoLocal(name + " (uninitialised)")
            o = self.st.w(k)
            o.cells[0] = (o.size, fresh(name + ".uninit", o.size * 8))
        return o.cells[0][1]

    def lptr(self, name):
        k = self.m.local_key(self.fr, name)
        if k is None:
            raise NoLocal(name)
        return Ptr(k)

    def ld(self, ptr, w):
        return self.m.peek(self.st, ptr, w)

    def f(self, ptr, struct, field):
        off, size, isptr = self.m.field(struct, field)
        p = ptr.at(off)
        return self.m.peek(self.st, p, "p" if isptr else size * 8)

    def set(self, ptr, struct, field, val):
        off, size, isptr = self.m.field(struct, field)
        self.m.poke(self.st, ptr.at(off), val, "p" if isptr else size * 8)

    def data(self, ptr, sub=None):
        """array term holding the elements of ptr's object (memory nothing was stored into yet is bytes)"""
        if self.st.mem[ptr.obj].kind == "raw":
            self.m.retype(self.st, ptr.obj, 1, "bytes")
        return self.m.arr_term(self.st, ptr, sub)

    def count(self, ptr):
        if self.st.mem[ptr.obj].kind == "raw":
            self.m.retype(self.st, ptr.obj, 1, "bytes")
        o = self.st.mem[ptr.obj]
        if o.kind == "fam":
            return z3.Select(o.count, ptr.fid)
        if o.kind == "arr":
            return o.count
        raise Unsupported("count of cells")


def canon_base(n, names):
    """second and later locals of the same name get a number from clang"""
    b = re.sub(r"\d+$", "", n)
    return b if b in names else n


class NoLocal(Unsupported):
    pass


DRYT = 0.03      # seconds a solver may spend on a branch while the modified locations of a loop are collected


class LoopSpec:
    """inv(c): list of (name, formula); mode 'inv' | 'unroll'"""
    def __init__(self, inv=None, mode="inv", cand=None, unroll=300, assume=None, ptrs=None, dec=None):
        self.inv, self.mode, self.cand, self.unroll, self.assume, self.ptrs, self.dec = inv, mode, cand, unroll, assume, ptrs, dec


class Ctx:
    """context handed to contract clauses"""
    pass


_HQ = {}


def has_quant(f):
    k = f.get_id()
    r = _HQ.get(k)
    if r is not None:
        return r[0]
    seen, stack, res = set(), [f], False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _HQ[k] = (res, f)       # f kept alive: ids are reused otherwise
    return res


_SYM = {}


def symbols(f):
    """names of the uninterpreted symbols of f"""
    k = f.get_id()
    r = _SYM.get(k)
    if r is not None:
        return r[0]
    seen, stack, res = set(), [f], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            res.add(x.decl().name())
        stack.extend(x.children())
    _SYM[k] = (frozenset(res), f)
    return _SYM[k][0]


def conjuncts(fs):
    out, stack = [], list(fs)[::-1]
    while stack:
        f = stack.pop()
        if z3.is_and(f):
            stack.extend(f.children()[::-1])
        elif z3.is_implies(f) and z3.is_and(f.arg(1)) and has_quant(f.arg(1)):
            stack.extend([z3.Implies(f.arg(0), x) for x in f.arg(1).children()][::-1])
        else:
            out.append(f)
    return out


_BSYM = {}


def bound_symbols(f):
    """names of arrays and functions that f applies to a term containing a bound variable"""
    k = f.get_id()
    r = _BSYM.get(k)
    if r is not None:
        return r[0]
    res = set()
    memo = {}

    def walk(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        memo[i] = False
        if z3.is_quantifier(x):
            walk(x.body())
            return False
        if z3.is_var(x):
            memo[i] = True
            return True
        b = False
        for c in x.children():
            b = walk(c) or b
        if b and z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                res.add(x.decl().name())
            elif x.decl().kind() == z3.Z3_OP_SELECT:
                res.update(n for n in symbols(x.arg(0)))
        memo[i] = b
        return b
    walk(f)
    _BSYM[k] = (frozenset(res), f)
    return _BSYM[k][0]


class Machine:
    def __init__(self, program, fields, timeout=20.0, budget=400.0):
        self.program = program
        self.fields_db = fields
        self.timeout = timeout
        self.obls = []
        self.contracts = {}
        self.externs = {}
        self.cur_fn = None
        self.dry = 0
        self.hcache = {}
        self.dry_all = False
        self.overflow = True
        self.unwind = None
        self.bounded_hit = False
        self.keyctr = itertools.count(1)
        self.gkeys = {}
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.notes = []
        self.max_paths = 4000
        self.paths = 0
        self.t0 = time.time()
        self.budget = budget
        self.loop_specs = {}
        self.solver_time = 0.0
        self.nq = 0
        self.axioms = []
        self.rename = {}
        self.loops_seen = {}
        self.second = True

    # ---------------------------------------------------------- solving
    def query(self, fs, timeout=None):
        """sat/unsat/unknown of a conjunction"""
        s = z3.Solver()
        s.set("timeout", int((timeout or self.timeout) * 1000))
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nq += 1
        return r, s

    def qf(self, fs):
        """(quantifier-free conjuncts, True if some conjunct has a quantifier)"""
        out, more = [], False
        stack = list(fs)[::-1]
        while stack:
            f = stack.pop()
            if z3.is_and(f):
                stack.extend(f.children()[::-1])
            elif has_quant(f):
                more = True
            else:
                out.append(f)
        return out, more

    def feasible(self, st):
        if self.dry and self.dry_all:
            return True
        q, more = self.qf(st.pc)
        r, _ = self.query(q, timeout=DRYT if self.dry else 1.0)
        if r == z3.unsat:
            return False
        if not more:
            return True
        r, _ = self.query(st.pc, timeout=DRYT if self.dry else 1.0)
        return r != z3.unsat

    def cvc5(self, fs, timeout):
        s = z3.Solver()
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
            return r.stdout.strip().split("\n")[0]
        except Exception as e:
            return "error"
        finally:
            os.unlink(f.name)

    def check(self, st, name, goal, kind="assert", line=None, assume=True, keep=None):
        if time.time() - self.t0 > self.budget:
            raise PathLimit("time budget exhausted in " + str(self.cur_fn))
        goal = goal if isinstance(goal, z3.ExprRef) else z3.BoolVal(goal)
        g = simp(goal)
        if self.dry:
            if assume and not z3.is_true(g):
                st.pc.append(goal)
            return True
        t = time.time()
        backend, model, detail = "z3", None, ""
        if z3.is_true(g):
            status, backend = "discharged", "simplifier"
        else:
            r = None
            if keep is not None:
                # a sub-list of the hypotheses first: fewer hypotheses, so a proof is a proof
                r, s = self.query([f for f in conjuncts(st.pc) if keep(symbols(f))] + [z3.Not(goal)], timeout=min(10.0, self.timeout))
                if os.environ.get("VC_DUMP") and os.environ["VC_DUMP"] in name:
                    open("/tmp/w/dump.smt2", "w").write(s.to_smt2())
                    print("dumped", name, r)
                if r != z3.unsat:
                    r = None
            hyp, more = self.qf(st.pc) if r is None else ([], False)
            if os.environ.get("VC_DUMPQ") and os.environ["VC_DUMPQ"] in name and r is None:
                sd = z3.Solver()
                sd.add(*self.axioms, *hyp, z3.Not(goal))
                self.ndump = getattr(self, "ndump", 0) + 1
                open("/tmp/w/q%d.smt2" % self.ndump, "w").write(sd.to_smt2())
            if more:
                # first without the quantified facts: fewer hypotheses, so a proof is a proof
                r, s = self.query(hyp + [z3.Not(goal)], timeout=min(3.0, self.timeout))
                if r != z3.unsat:
                    r = None
            if r is None and more:
                # then with the quantified facts about the arrays and functions the goal mentions
                gs = symbols(goal)
                cj = conjuncts(st.pc)
                sub = [f for f in cj if not has_quant(f) or bound_symbols(f) <= gs]
                if len(sub) < len(cj):
                    r, s = self.query(sub + [z3.Not(goal)], timeout=min(8.0, self.timeout))
                    if r != z3.unsat:
                        r = None
            if r is None:
                r, s = self.query(st.pc + [z3.Not(goal)])
            if r == z3.unsat:
                status = "discharged"
            elif r == z3.sat:
                status = "failed"
                try:
                    model = s.model()
                except z3.Z3Exception:
                    pass
                detail = "countermodel"
            else:
                status = "unknown"
                detail = s.reason_unknown()
                if self.second:
                    r2 = self.cvc5(st.pc + [z3.Not(goal)], self.timeout)
                    if r2 == "unsat":
                        status, backend = "discharged", "cvc5"
                    elif r2 == "sat":
                        status, detail, backend = "failed", "countermodel", "cvc5"
        self.obls.append(Obl(self.cur_fn, name, kind, line, status, time.time() - t, backend, model, detail))
        if status != "discharged" and os.environ.get("VC_DEBUG"):
            print("   OBL", self.cur_fn, name, kind, line, status, detail)
        if assume and not z3.is_true(g):
            st.pc.append(goal)
        return status == "discharged"

    # ---------------------------------------------------------- object creation
    def newkey(self):
        return next(self.keyctr)

    def new_cells(self, st, name, size, zero=False):
        k = self.newkey()
        o = Obj("cells", name)
        o.size, o.cells = size, {}
        o.base = 0 if zero else None
        st.mem[k] = o
        return Ptr(k)

    def new_arr(self, st, name, count, esize=1, fields=None, ro=False, const=None, nul=None):
        """fields: {sub: w | (w, term) | (PtrField, term)}"""
        k = self.newkey()
        o = Obj("arr", name)
        o.count = bv(count) if isinstance(count, int) else count
        o.esize = esize
        o.fields = {}
        for sub, f in (fields or {0: esize * 8}).items():
            if isinstance(f, int):
                f = (f, None)
            w, t = f
            if t is None:
                t = fresh("%s.%d" % (name, sub), z3.ArraySort(BV64, z3.BitVecSort(64 if isinstance(w, PtrField) else w)))
            o.fields[sub] = (w, t)
        o.ro = ro
        o.nul = nul
        st.mem[k] = o
        # objects are smaller than 2^62 bytes (documented assumption)
        st.assume(z3.ULE(o.count, bv((1 << 47) // esize)))
        return Ptr(k)

    def new_fam(self, st, name, fields, elem="struct", esize=1):
        k = self.newkey()
        o = Obj("fam", name)
        o.felem, o.esize = elem, esize
        o.fields = {}
        for sub, f in fields.items():
            w, t = f if isinstance(f, tuple) else (f, None)
            ws = z3.BitVecSort(64 if isinstance(w, PtrField) else w)
            if t is None:
                rng = ws if elem == "struct" else z3.ArraySort(BV64, ws)
                t = fresh("%s.%d" % (name, sub), z3.ArraySort(BV64, rng))
            o.fields[sub] = (w, t)
        if elem == "arr":
            o.count = fresh(name + ".count", z3.ArraySort(BV64, BV64))
        o.alive = fresh(name + ".alive", z3.ArraySort(BV64, z3.BoolSort()))
        st.mem[k] = o
        return k

    # ---------------------------------------------------------- struct fields (from debug info)
    def field(self, struct, field):
        d = self.fields_db.get(struct)
        if d is None or field not in d:
            raise Unsupported("no field %s.%s" % (struct, field))
        return d[field]

    # ---------------------------------------------------------- memory access
    def deref(self, st, p):
        o = st.mem[p.obj]
        while o.adopted is not None:
            fk, fid = o.adopted
            p = Ptr(fk, p.idx, p.sub, fid)
            o = st.mem[fk]
        return p, o

    def arr_term(self, st, p, sub=None):
        p, o = self.deref(st, p)
        sub = p.sub if sub is None else sub
        if o.kind == "arr":
            return o.fields[sub][1]
        if o.kind == "fam":
            return z3.Select(o.fields[sub][1], p.fid)
        raise Unsupported("arr_term of cells " + o.name)

    def peek(self, st, p, w):
        """read without obligations (for contracts); w bits or 'p'"""
        r = self._load(st, p, w, None, peek=True)
        if len(r) != 1:
            raise Unsupported("peek forks")
        return r[0][1]

    def poke(self, st, p, val, w):
        self._store(st, p, val, w, None, peek=True)

    def inb(self, o, p, n, fid=None):
        """bounds formula for n bytes at p in object o"""
        if o.kind == "cells":
            return z3.BoolVal(0 <= p.sub and p.sub + n <= o.size)
        if o.kind == "fam" and o.felem == "struct":
            return z3.And(z3.BoolVal(0 <= p.sub and p.sub + n <= o.esize), p.idx == 0)
        cnt = o.count if o.kind == "arr" else z3.Select(o.count, p.fid)
        if o.esize == 1:
            i = p.idx + p.sub
            lo = bv(o.lo)
            return z3.And(i >= lo, i <= cnt - n) if True else None
        if not (0 <= p.sub and p.sub + n <= o.esize):
            return z3.BoolVal(False)
        return z3.And(p.idx >= bv(o.lo), p.idx < cnt)

    def _norm_cells(self, o, p):
        """for cells objects fold a concrete idx into sub (idx counts bytes there)"""
        i = simp(p.idx)
        if is_const(i):
            return Ptr(p.obj, None, p.sub + sconst(i), p.fid)
        return None

    def _conv_arr(self, st, p, n):
        """turn a concrete 'cells' object holding an array of n-byte ints into an arr object"""
        o = st.mem[p.obj]
        size = o.size
        if size % n:
            raise Unsupported("symbolic index into struct object " + o.name)
        term = None
        sort = z3.BitVecSort(n * 8)
        if o.base == 0:
            term = z3.K(BV64, bv(0, n * 8))
        else:
            term = fresh(o.name, z3.ArraySort(BV64, sort))
        for off, (w, v) in sorted(o.cells.items()):
            if w != n or off % n or not isinstance(v, z3.BitVecRef):
                raise Unsupported("symbolic index into mixed object %s" % o.name)
            term = z3.Store(term, bv(off // n), v)
        q = Obj("arr", o.name)
        q.count, q.esize, q.fields, q.ro = bv(size // n), n, {0: (n * 8, term)}, o.ro
        q.nul = o.nul
        if o.ro and n == 1:
            bs = []
            for i in range(size):
                c = o.cells.get(i)
                b = simp(c[1]) if c else (bv(0, 8) if o.base == 0 else None)
                if b is None or not is_const(b):
                    bs = None
                    break
                bs.append(b.as_long())
            q.lit = bytes(bs) if bs is not None else None
        st.mem[p.obj] = q
        return q

    def _fix(self, o, p):
        """normalise a byte-index pointer into an arr object with esize>1 (idx counts elements)"""
        return p

    def _load(self, st, p, w, line, peek=False):
        """-> list of (state, value)"""
        n = 8 if w == "p" else (w + 7) // 8
        if isinstance(p, FnPtr):
            raise Unsupported("load from function")
        if p.obj is None:
            if peek:
                raise Unsupported("peek null")
            self.check(st, "null-deref", False, "memory", line)
            return []
        p, o = self.deref(st, p)
        if o.freed and not peek:
            self.check(st, "use-after-free:" + o.name, False, "memory", line)
            return []
        if o.kind == "cells":
            q = self._norm_cells(o, p)
            if q is None:
                return self._load_symcells(st, o, p, w, line, peek)
            if not peek:
                if not self.check(st, "in-bounds:" + o.name, self.inb(o, q, n), "memory", line):
                    return []
            return [(st, self._load_cell(st, q, n, w))]
        if not peek:
            self.check(st, "in-bounds:" + o.name, self.inb(o, p, n), "memory", line)
        if o.esize == 1 and 0 in o.fields and o.fields[0][0] == 8:
            t = o.fields[0][1] if o.kind == "arr" else z3.Select(o.fields[0][1], p.fid)
            i = simp(p.idx + p.sub)
            if w == "p":
                raise Unsupported("pointer load from byte object " + o.name)
            bs = [z3.Select(t, simp(i + k)) for k in range(n)]
            v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
            return [(st, simp(v))]
        if o.kind == "fam" and o.felem == "struct":
            i = p.fid
        else:
            i = p.idx
        sub = p.sub
        if sub not in o.fields:
            # narrower access inside a wider field
            for s0, (fw, t) in o.fields.items():
                fw = fw.raw or fw if isinstance(fw, PtrField) else fw
                if isinstance(fw, int) and s0 <= sub and (sub + n) * 8 <= s0 * 8 + fw:
                    full = self._sel(o, p, t)
                    lo = (sub - s0) * 8
                    return [(st, simp(z3.Extract(lo + n * 8 - 1, lo, full)))]
            raise Unsupported("no field at %d in %s" % (sub, o.name))
        fw, t = o.fields[sub]
        v = simp(self._sel(o, p, t))
        if isinstance(fw, PtrField) and w != "p" and fw.raw:
            fw = fw.raw
        if isinstance(fw, PtrField):
            if w != "p":
                raise Unsupported("int load of pointer field")
            out = []
            alts = fw.decode(self, st, v, p)
            if len(alts) == 1:
                return [(st, alts[0][1])]
            for cond, pv in alts:
                s2 = st.copy()
                s2.assume(cond)
                if self.feasible(s2):
                    out.append((s2, pv))
            return out
        if w == "p":
            raise Unsupported("pointer load of int field in " + o.name)
        if fw == n * 8:
            return [(st, v)]
        if fw > n * 8:
            return [(st, simp(z3.Extract(n * 8 - 1, 0, v)))]
        # wider load spanning consecutive fields
        parts, have = [v], fw
        while have < n * 8:
            if sub + have // 8 not in o.fields:
                raise Unsupported("wide load")
            fw2, t2 = o.fields[sub + have // 8]
            parts.append(self._sel(o, p, t2))
            have += fw2
        return [(st, simp(z3.Concat(*reversed(parts))))]

    def _sel(self, o, p, t):
        if o.kind == "arr":
            return z3.Select(t, p.idx)
        if o.felem == "struct":
            return z3.Select(t, p.fid)
        return z3.Select(z3.Select(t, p.fid), p.idx)

    def _load_symcells(self, st, o, p, w, line, peek):
        """symbolic byte index into a concrete object: convert to array of ints, or split cases"""
        n = 8 if w == "p" else w // 8
        size = o.size
        ok_int = w != "p" and size % n == 0 and all(cw == n and isinstance(v, z3.BitVecRef) for cw, v in o.cells.values())
        if ok_int and p.sub % n == 0:
            q = self._conv_arr(st, p, n)
            if n == 1:
                return self._load(st, p, w, line, peek)
            i = p.idx
            e = self._exact_div(i, n)
            return self._load(st, Ptr(p.obj, simp(e + p.sub // n), 0), w, line, peek)
        if size > 4096:
            raise Unsupported("case split on big object")
        if not peek:
            self.check(st, "in-bounds:" + o.name, z3.And(p.idx + p.sub >= 0, p.idx + p.sub <= bv(size - n)), "memory", line)
        out = []
        for off in sorted(o.cells):
            if o.cells[off][0] != n:
                continue
            s2 = st.copy()
            s2.assume(p.idx + p.sub == bv(off))
            if self.feasible(s2):
                out.append((s2, o.cells[off][1]))
        return out

    def _exact_div(self, e, n):
        e = simp(e)
        if is_const(e):
            return bv(sconst(e) // n)
        if n == 1:
            return e
        if e.decl().kind() == z3.Z3_OP_BMUL:
            a = e.arg(0)
            if is_const(a) and sconst(a) % n == 0:
                k = sconst(a) // n
                rest = [e.arg(j) for j in range(1, e.num_args())]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                return simp(bv(k) * r)
        if e.decl().kind() == z3.Z3_OP_BADD:
            return simp(sum([self._exact_div(e.arg(j), n) for j in range(1, e.num_args())], self._exact_div(e.arg(0), n)))
        if n & (n - 1) == 0 and e.decl().kind() == z3.Z3_OP_CONCAT:
            k = n.bit_length() - 1
            last = e.arg(e.num_args() - 1)
            if is_const(last) and last.size() >= k and last.as_long() % n == 0:
                return simp(e >> k)
        raise Unsupported("inexact index scaling by %d: %s" % (n, e))

    def _load_cell(self, st, q, n, w):
        o = st.mem[q.obj]
        c = o.cells.get(q.sub)
        if c is not None:
            cw, v = c
            if cw == n:
                if w == "p" and isinstance(v, z3.ExprRef):
                    vs = simp(v)
                    if is_const(vs) and vs.as_long() == 0:
                        return NULL
                    raise Unsupported("int read as pointer")
                if w != "p" and isinstance(v, (Ptr, FnPtr)):
                    if isinstance(v, Ptr) and v.null:
                        return bv(0, n * 8)
                    raise Unsupported("pointer read as int")
                return v
            if cw > n and isinstance(v, z3.BitVecRef):
                return simp(z3.Extract(n * 8 - 1, 0, v))
        # contained in a wider cell?
        for off, (cw, v) in o.cells.items():
            if off <= q.sub and q.sub + n <= off + cw and isinstance(v, z3.BitVecRef):
                lo = (q.sub - off) * 8
                return simp(z3.Extract(lo + n * 8 - 1, lo, v))
        # overlaps some cells: assemble bytewise
        if any(off < q.sub + n and q.sub < off + cw for off, (cw, v) in o.cells.items()):
            bs = [self._load_cell(st, Ptr(q.obj, None, q.sub + k), 1, 8) for k in range(n)]
            return simp(z3.Concat(*reversed(bs)))
        if o.base == 0:
            return NULL if w == "p" else bv(0, n * 8)
        if w == "p":
            raise Unsupported("uninitialised pointer read in %s+%d" % (o.name, q.sub))
        v = fresh("%s+%d" % (o.name, q.sub), n * 8)
        o2 = st.w(q.obj)
        o2.cells[q.sub] = (n, v)
        return v

    def _store(self, st, p, val, w, line, peek=False):
        """-> list of states"""
        n = 8 if w == "p" else (w + 7) // 8
        if isinstance(p, FnPtr):
            raise Unsupported("store to function")
        if p.obj is None:
            self.check(st, "null-deref(store)", False, "memory", line)
            return []
        p, o = self.deref(st, p)
        if o.freed and not peek:
            self.check(st, "use-after-free(store):" + o.name, False, "memory", line)
            return []
        if o.ro and not peek:
            self.check(st, "write-to-read-only:" + o.name, False, "memory", line)
            return []
        if isinstance(val, z3.BoolRef):
            val = z3.If(val, bv(1, 8), bv(0, 8))
        if o.kind == "cells":
            q = self._norm_cells(o, p)
            if q is None:
                if o.base == 0 or all(cw == n for cw, v in o.cells.values()):
                    pass
                self._conv_arr(st, p, n)
                e = self._exact_div(p.idx, n)
                return self._store(st, Ptr(p.obj, simp(e + p.sub // n), 0), val, w, line, peek)
            if not peek:
                if not self.check(st, "in-bounds(store):" + o.name, self.inb(o, q, n), "memory", line):
                    return []
            o2 = st.w(p.obj)
            # overlapping cells
            for off, (cw, v) in list(o2.cells.items()):
                if off < q.sub + n and q.sub < off + cw and off != q.sub or (off == q.sub and cw > n):
                    if not isinstance(v, z3.BitVecRef):
                        raise Unsupported("partial overwrite of pointer")
                    del o2.cells[off]
                    for k in range(cw):
                        o2.cells[off + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, v)))
            for k in range(q.sub, q.sub + n):
                o2.cells.pop(k, None)
            o2.cells[q.sub] = (n, val)
            return [st]
        if not peek:
            self.check(st, "in-bounds(store):" + o.name, self.inb(o, p, n), "memory", line)
        o2 = st.w(p.obj)
        if o.esize == 1 and 0 in o.fields and o.fields[0][0] == 8:
            if w == "p":
                raise Unsupported("pointer store into byte object " + o.name)
            t = o.fields[0][1] if o.kind == "arr" else z3.Select(o.fields[0][1], p.fid)
            i = simp(p.idx + p.sub)
            for k in range(n):
                b = val if n == 1 else simp(z3.Extract(8 * k + 7, 8 * k, val))
                t = z3.Store(t, simp(i + k), b)
            if o.kind == "fam":
                t = z3.Store(o.fields[0][1], p.fid, t)
            o2.fields[0] = (8, t)
            return [st]
        if p.sub not in o.fields:
            for s0, (fw, t) in o.fields.items():
                fw0, fw = fw, fw.raw or fw if isinstance(fw, PtrField) else fw
                if isinstance(fw, int) and s0 <= p.sub and (p.sub + n) * 8 <= s0 * 8 + fw:
                    full = self._sel(o, p, t)
                    lo = (p.sub - s0) * 8
                    hi = lo + n * 8
                    parts = []
                    if hi < fw:
                        parts.append(z3.Extract(fw - 1, hi, full))
                    parts.append(val)
                    if lo > 0:
                        parts.append(z3.Extract(lo - 1, 0, full))
                    nv = z3.Concat(*parts) if len(parts) > 1 else parts[0]
                    o2.fields[s0] = (fw0, self._upd(o, p, t, nv))
                    return [st]
            raise Unsupported("no field at %d in %s" % (p.sub, o.name))
        fw, t = o.fields[p.sub]
        fw0 = fw
        if isinstance(fw, PtrField) and w != "p" and fw.raw:
            fw = fw.raw
        if isinstance(fw, PtrField):
            if w != "p":
                raise Unsupported("int store into pointer field")
            val = fw.encode(self, st, val, p)
            o2 = st.w(p.obj)
            t = o2.fields[p.sub][1]
        elif w == "p":
            raise Unsupported("pointer store into int field of " + o.name)
        elif fw < n * 8:
            lo, have = 0, 0
            while have < n * 8:
                fw2, t2 = o2.fields[p.sub + have // 8]
                o2.fields[p.sub + have // 8] = (fw2, self._upd(o, p, t2, simp(z3.Extract(have + fw2 - 1, have, val))))
                have += fw2
            return [st]
        elif fw > n * 8:
            full = self._sel(o, p, t)
            val = z3.Concat(z3.Extract(fw - 1, n * 8, full), val)
        o2.fields[p.sub] = (fw0, self._upd(o2, p, t, val))
        return [st]

    def _upd(self, o, p, t, v):
        if o.kind == "arr":
            return z3.Store(t, p.idx, v)
        if o.felem == "struct":
            return z3.Store(t, p.fid, v)
        return z3.Store(t, p.fid, z3.Store(z3.Select(t, p.fid), p.idx, v))

    # lazily typed malloc'd objects: kind 'raw' with byte size term
    def retype(self, st, key, esize, layout=None):
        o = st.mem[key]
        if o.kind != "raw":
            return
        size = simp(o.size)
        c = const(size)
        he = getattr(self, "heap_esize", None)
        if he and c is not None and c > 64 and c % he == 0:
            esize, layout = he, "bytes"
        if c is not None and layout != "bytes" and c <= 4096:
            o2 = Obj("cells", o.name)
            o2.size, o2.cells, o2.base = c, {}, o.base
            o2.site = o.site
            st.mem[key] = o2
            return
        o2 = Obj("arr", o.name)
        o2.esize = esize
        o2.site = o.site
        if esize == 1:
            o2.count = size
        else:
            o2.count = self._exact_div(size, esize)
        w = esize * 8 if esize in (1, 2, 4, 8) else None
        if w is None:
            raise Unsupported("malloc of struct array " + o.name)
        o2.fields = {0: (w, fresh(o.name, z3.ArraySort(BV64, z3.BitVecSort(w))) if o.base != 0 else z3.K(BV64, bv(0, w)))}
        st.mem[key] = o2
        if c is None:
            st.assume(z3.ULE(o2.count, bv((1 << 47) // esize)))

    # ---------------------------------------------------------- globals
    def global_ptr(self, st, mod, name):
        m2, f2 = self.program.find(name, mod)
        if f2 is not None or (name in mod.decls):
            return FnPtr(name)
        t, init, cst = mod.globals[name]
        owner = mod
        if init is None or t is None:
            for m in self.program.modules.values():
                if name in m.globals and m.globals[name][1] is not None:
                    owner = m
                    t, init, cst = m.globals[name]
        gk = (name if not name.startswith(".str") and not name.startswith("__") and "." not in name else (id(owner), name))
        if gk in self.gkeys:
            k = self.gkeys[gk]
            if k in st.mem:
                return Ptr(k)
        else:
            k = self.newkey()
            self.gkeys[gk] = k
        if t is None:
            raise Unsupported("global " + name)
        o = Obj("cells", "@" + name)
        try:
            o.size = owner.size(t)
        except Unsupported:
            raise Unsupported("opaque global " + name)
        o.cells = {}
        o.ro = cst
        if cst and init is not None:
            st.mem[k] = o
            self._init(st, owner, o, 0, t, init)
            o.base = 0 if not o.cells else None
            if init == ("zero",):
                o.base = 0
        else:
            # a mutable global: its current value is arbitrary, unless the contract pins it
            st.mem[k] = o
            pins = getattr(self, "global_init", {})
            if name in ("stderr", "stdout", "stdin"):
                sk = self.newkey()
                so = Obj("raw", "@" + name + "*")
                so.size = bv(216)
                st.mem[sk] = so
                o.cells[0] = (8, Ptr(sk))
            if name in pins:
                if pins[name] == "init":
                    if init == ("zero",):
                        o.base = 0
                    else:
                        self._init(st, owner, o, 0, t, init)
                else:
                    pins[name](self, st, o)
        st.mem[k] = o
        return Ptr(k)

    def _init(self, st, mod, o, off, t, v):
        if isinstance(t, IntTy):
            if v[0] == "int":
                o.cells[off] = ((t.w + 7) // 8, bv(v[1], max(8, t.w)))
            elif v[0] in ("zero",):
                o.cells[off] = ((t.w + 7) // 8, bv(0, t.w))
        elif isinstance(t, PtrTy):
            if v[0] in ("null", "zero"):
                o.cells[off] = (8, NULL)
            elif v[0] == "glo":
                o.cells[off] = (8, self.global_ptr(st, mod, v[1]))
            elif v[0] == "cgep":
                o.cells[off] = (8, self.val(None, st, (t, v), mod))
            else:
                raise Unsupported("ginit %r" % (v,))
        elif isinstance(t, ArrTy):
            es = mod.size(t.e)
            if v[0] == "str":
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, bv(b, 8))
                o.nul = None
            elif v[0] == "zero":
                for i in range(t.n):
                    self._init(st, mod, o, off + i * es, t.e, ("zero",))
            elif v[0] == "agg":
                for i, (et, ev) in enumerate(v[1]):
                    self._init(st, mod, o, off + i * es, et, ev)
            else:
                raise Unsupported("ginit arr")
        elif isinstance(t, StructTy):
            offs, _ = mod.offsets(t)
            if v[0] == "zero":
                for fo, ft in zip(offs, t.fields):
                    self._init(st, mod, o, off + fo, ft, ("zero",))
            else:
                tt = StructTy(None, [x[0] for x in v[1]], t.packed)
                offs, _ = mod.offsets(tt)
                for fo, (ft, fv) in zip(offs, v[1]):
                    self._init(st, mod, o, off + fo, ft, fv)
        else:
            raise Unsupported("ginit type")

    # ---------------------------------------------------------- values
    def val(self, regs, st, tv, mod):
        t, v = tv
        k = v[0]
        if k == "loc":
            return regs[v[1]]
        if k == "int":
            if isinstance(t, IntTy):
                if t.w == 1:
                    return z3.BoolVal(bool(v[1]))
                return bv(v[1], t.w)
            raise Unsupported("int const of %r" % t)
        if k == "null":
            return NULL
        if k == "glo":
            return self.global_ptr(st, mod, v[1])
        if k == "undef":
            if isinstance(t, IntTy):
                return z3.FreshConst(z3.BoolSort()) if t.w == 1 else fresh("undef", t.w)
            return NULL
        if k == "zero":
            if isinstance(t, IntTy):
                return bv(0, t.w)
            return NULL
        if k == "cgep":
            base = self.val(regs, st, v[2][0], mod)
            return self.gep(st, mod, v[1], base, [self.val(regs, st, x, mod) for x in v[2][1:]])
        if k == "float":
            return ("float", v[1])
        raise Unsupported("value %r" % (v,))

    def gep(self, st, mod, t, base, idxs):
        if isinstance(base, FnPtr):
            raise Unsupported("gep on fn")
        cst, syms = 0, []     # byte constant, [(stride, term64)]
        cur = t
        for j, ix in enumerate(idxs):
            ix = simp(ix)
            if ix.size() < 64:
                ix = simp(z3.SignExt(64 - ix.size(), ix))
            if j == 0:
                s = mod.size(cur)
            elif isinstance(cur, ArrTy):
                s = mod.size(cur.e)
                cur = cur.e
            elif isinstance(cur, StructTy):
                offs, _ = mod.offsets(cur)
                f = const(ix)
                cst += offs[f]
                cur = cur.fields[f]
                continue
            else:
                raise Unsupported("gep into scalar")
            if is_const(ix):
                cst += sconst(ix) * s
            else:
                syms.append((s, ix))
        return self.padd(st, base, cst, syms, t, mod)

    def padd(self, st, p, cst, syms, t=None, mod=None):
        if p.obj is None:
            off = p.idx + bv(cst)
            for s, x in syms:
                off = off + x * s
            off = simp(off)
            if is_const(off) and off.as_long() == 0:
                return NULL
            return Ptr(None, off)
        o = st.mem[p.obj]
        if o.adopted is not None:
            p, o = self.deref(st, p)
        if o.kind == "raw":
            es = 1
            if t is not None:
                es = mod.size(t) if not isinstance(t, ArrTy) else mod.size(t.e)
            self.retype(st, p.obj, es)
            o = st.mem[p.obj]
        if o.kind == "cells":
            if not syms:
                return Ptr(p.obj, p.idx, p.sub + cst, p.fid)
            off = p.idx
            for s, x in syms:
                off = off + x * s
            off = simp(off)
            if is_const(off):
                return Ptr(p.obj, None, p.sub + cst + sconst(off), p.fid)
            if o.subs:
                # symbolic index into an embedded array sub-object
                for (a, b, key) in o.subs:
                    if a <= p.sub + cst < b:
                        so = st.mem[key]
                        e = self._exact_div(simp(off + bv(p.sub + cst - a)), so.esize)
                        return Ptr(key, e, 0, p.fid)
            return Ptr(p.obj, off, p.sub + cst, p.fid)
        es = o.esize
        if o.kind == "fam" and o.felem == "struct":
            if syms:
                raise Unsupported("indexing a family struct")
            return Ptr(p.obj, p.idx, p.sub + cst, p.fid)
        if es == 1:
            off = p.idx + bv(cst)
            for s, x in syms:
                off = off + x * s
            return Ptr(p.obj, simp(off), p.sub, p.fid)
        idx = p.idx
        tot = p.sub + cst
        q, r = divmod(tot, es)
        idx = idx + bv(q)
        for s, x in syms:
            if s % es == 0:
                idx = idx + x * (s // es)
            else:
                raise Unsupported("stride %d in object of element size %d" % (s, es))
        return Ptr(p.obj, simp(idx), r, p.fid)

    def poff(self, st, p):
        """byte offset term inside its object"""
        if p.obj is None:
            return p.idx
        o = st.mem[p.obj]
        es = 1 if o.kind in ("cells", "raw") else o.esize
        if o.kind == "fam" and o.felem == "struct":
            return bv(p.sub)
        return simp(p.idx * es + p.sub)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return z3.BoolVal(same if pred == "eq" else not same)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("cmp tuple")
        if a.obj is not None:
            a, _ = self.deref(st, a)
        if b.obj is not None:
            b, _ = self.deref(st, b)
        if a.obj == b.obj:
            if a.fid is not None and b.fid is not None and not veq(a.fid, b.fid):
                if pred in ("eq", "ne"):
                    e = z3.And(a.fid == b.fid, self.poff(st, a) == self.poff(st, b))
                    return simp(e if pred == "eq" else z3.Not(e))
                raise Unsupported("ordering of distinct family members")
            x, y = self.poff(st, a), self.poff(st, b)
            f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: x < y, "ule": lambda: x <= y,
                 "ugt": lambda: x > y, "uge": lambda: x >= y}.get(pred)
            if f is None:
                raise Unsupported("ptr cmp " + pred)
            return simp(f())
        if pred == "eq":
            return z3.BoolVal(False)
        if pred == "ne":
            return z3.BoolVal(True)
        raise Unsupported("ordering of pointers into different objects")

    # ---------------------------------------------------------- frames/locals
    def local_key(self, fr, name):
        name = self.rename.get((fr.fn.name, name), name)
        if "#" in name:
            base, k = name.split("#")
            c = [n for n in fr.allocas if canon_base(n, fr.allocas) == base]
            return fr.allocas[c[int(k)]] if int(k) < len(c) else None
        for n in (name, name + ".addr"):
            if n in fr.allocas:
                return fr.allocas[n]
        return None

    # ---------------------------------------------------------- execution
    def run(self, mod, fn, args, st, depth=0):
        if fn.bad:
            raise Unsupported("%s: %s" % (fn.name, fn.bad))
        if depth > 12:
            raise Unsupported("inlining depth")
        fr = Frame(mod, fn, depth)
        regs = {}
        for (n, t), a in zip(fn.params, args):
            regs[n] = a
        self.loops_seen[fn.name] = len(fr.loops)
        outs = self.exec(fr, regs, st, fn.order[0], None, frozenset(), {})
        for o in outs:
            assert o.kind in ("ret", "stop"), o.kind
            for k in fr.allocas.values():
                pass
        return outs, fr

    def exec(self, fr, regs, st, block, prev, active, counts):
        outs = []
        work = [(regs, st, block, prev, counts)]
        while work:
            regs, st, b, prev, counts = work.pop()
            if time.time() - self.t0 > self.budget:
                raise PathLimit("time budget exhausted in " + fr.fn.name)
            # entering block b from prev
            if b in fr.loops and prev is not None:
                body = fr.loops[b]
                back = prev in body
                if b in active and back:
                    self._phis(fr, regs, st, b, prev)
                    outs.append(Outcome("back", st, regs, b))
                    continue
                spec = self.loop_spec(fr, b)
                if spec.mode == "unroll" or self.unwind is not None:
                    counts = dict(counts)
                    if back:
                        counts[b] = counts.get(b, 0) + 1
                    else:
                        counts[b] = 0
                    lim = spec.unroll if spec.mode == "unroll" and self.unwind is None else (self.unwind if spec.mode != "unroll" else max(self.unwind, spec.unroll))
                    if counts[b] > lim:
                        if self.unwind is not None:
                            self.bounded_hit = True
                            continue
                        raise Unsupported("unroll limit in %s at %s" % (fr.fn.name, b))
                elif not back:
                    self._phis(fr, regs, st, b, prev)
                    outs.extend(self.do_loop(fr, regs, st, b, prev, active, counts, spec))
                    continue
                else:
                    raise Unsupported("irreducible back edge")
            res = self.exec_block(fr, regs, st, b, prev)
            for r in res:
                if r[0] == "br":
                    work.append((r[1], r[2], r[3], b, counts))
                else:
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise PathLimit("too many paths in " + fr.fn.name)
                    outs.append(r[1])
        return outs

    def _phis(self, fr, regs, st, b, prev):
        pass

    def loop_spec(self, fr, b):
        idx = list(fr.loops).index(b)
        spec = self.loop_specs.get((fr.fn.name, idx))
        if spec is None:
            spec = self.loop_specs.get((fr.fn.name, "*"))
        if spec is None:
            return LoopSpec(mode="unroll", unroll=300)
        return spec

    def mkctx(self, fr, st, entry=None):
        c = Ctx()
        c.m = self
        c.S = View(self, st, fr)
        c.E = View(self, entry, fr) if entry is not None else None
        c.O = getattr(self, "old_view", None)
        c.a = getattr(self, "cur_args", None)
        c.g = st.ghost
        c.st = st
        return c

    def do_loop(self, fr, regs, st, b, prev, active, counts, spec):
        idx = list(fr.loops).index(b)
        lname = "%s.loop%d" % (fr.fn.name, idx)
        entry = st
        line = self._line(fr, fr.fn.blocks[b].ins[0])
        def invs(s):
            c = self.mkctx(fr, s, entry)
            return spec.inv(c) if spec.inv else []
        def assumes(s):
            c = self.mkctx(fr, s, entry)
            return spec.assume(c) if spec.assume else []
        # 1. initiation
        invs(st)        # types memory nothing was stored into yet
        s0 = st.copy()
        if spec.ptrs is not None:
            pass
        s0.assume(*assumes(s0))
        for n, f, *k in invs(s0):
            self.check(s0, "%s/init:%s" % (lname, n), f, "invariant-init", line, assume=True, keep=k[0] if k else None)
        # 2. havoc set discovery
        H = self.seed(entry, lname)          # (key, loc) -> set of shapes
        self.dry += 1
        try:
            for it in range(12):
                grew = False
                heads = self.havoc(entry, H)
                for hs in heads:
                    for n, f, *_ in invs(hs):
                        hs.assume(f)
                    hs.assume(*assumes(hs))
                    if not self.feasible(hs):
                        continue
                    outs = self.exec_loop_body(fr, dict(regs), hs.copy(), b, prev, active, counts)
                    for o in outs:
                        if o.kind == "back" and o.hdr == b:
                            if self.diff(hs, o.st, H, entry):
                                grew = True
                if not grew:
                    break
            else:
                raise Unsupported("havoc set of %s does not stabilise" % lname)
        finally:
            self.dry -= 1
        self.hcache[lname] = {k: set(v) for k, v in H.items()}
        # 3. real pass
        result = []
        heads = self.havoc(entry, H)
        for hs in heads:
            for n, f, *_ in invs(hs):
                hs.assume(f)
            hs.assume(*assumes(hs))
            if not self.feasible(hs):
                continue
            dec0 = spec.dec(self.mkctx(fr, hs, entry)) if spec.dec else None
            outs = self.exec_loop_body(fr, dict(regs), hs.copy(), b, prev, active, counts)
            for o in outs:
                if o.kind == "back" and o.hdr == b:
                    if self.diff(hs, o.st, {k: set(v) for k, v in H.items()}, entry):
                        raise Unsupported("loop frame of %s not closed" % lname)
                    for n, f, *k in invs(o.st):
                        self.check(o.st, "%s/step:%s" % (lname, n), f, "invariant-step", line, assume=True, keep=k[0] if k else None)
                    if dec0 is not None:
                        d1 = spec.dec(self.mkctx(fr, o.st, entry))
                        self.check(o.st, "%s/decreases" % lname, z3.And(d1 >= 0, d1 < dec0), "termination", line, assume=False)
                else:
                    result.append(o)
        return result

    def seed(self, entry, lname):
        """the havoc set found for this loop before, as far as it fits this state (a larger set is only weaker)"""
        H = {}
        for loc, shapes in self.hcache.get(lname, {}).items():
            if loc[0] == "ghost":
                if loc[1] in entry.ghost:
                    H[loc] = set(shapes)
                continue
            o = entry.mem.get(loc[0])
            if o is None:
                continue
            if loc[1] == "c":
                c = o.cells.get(loc[2]) if o.kind == "cells" else None
                if o.kind != "cells" or c is not None and c[0] != loc[3]:
                    continue
                if loc[4] == "p" and not all(x[0] != "obj" or x[1] in entry.mem for x in shapes):
                    continue
            elif loc[1] == "f":
                if o.kind not in ("arr", "fam") or loc[2] not in o.fields:
                    continue
            elif loc[1] == "toarr":
                if o.kind not in ("cells", "raw"):
                    continue
            elif o.kind not in ("arr", "fam"):
                continue
            H[loc] = set(shapes)
        return H

    def exec_loop_body(self, fr, regs, st, b, prev, active, counts):
        outs = []
        res = self.exec_block(fr, regs, st, b, prev)
        act = active | {b}
        for r in res:
            if r[0] == "br":
                outs.extend(self.exec(fr, r[1], r[2], r[3], b, act, dict(counts)) if not (r[3] == b)
                            else [Outcome("back", r[2], r[1], b)])
            else:
                outs.append(r[1])
        return outs

    def shape(self, v, st):
        if isinstance(v, FnPtr):
            return ("fn", v.name)
        if v.obj is None:
            return ("null",)
        return ("obj", v.obj, v.sub, v.fid is not None)

    def diff(self, s0, s1, H, entry):
        """record in H every location of s0 that differs in s1; True if H grew"""
        grew = False

        def put(loc, *vals):
            nonlocal grew
            sh = H.get(loc)
            if sh is None:
                sh = H[loc] = set()
                grew = True
            for v in vals:
                if isinstance(v, (Ptr, FnPtr)):
                    x = self.shape(v, s1)
                    if x[0] == "obj" and x[1] not in s0.mem:
                        raise Unsupported("pointer to an object allocated inside the loop survives the iteration (%s)" % s1.mem[x[1]].name)
                    if x not in sh:
                        sh.add(x)
                        grew = True
        for k, o0 in s0.mem.items():
            o1 = s1.mem[k]
            if o0 is o1:
                continue
            if o0.kind != o1.kind:
                if o0.kind in ("cells", "raw") and o1.kind == "arr":
                    # symbolic indexing converted it: havoc as array from the start
                    put((k, "toarr", o1.esize))
                    continue
                raise Unsupported("object kind changes in loop: " + o0.name)
            if o0.freed != o1.freed:
                raise Unsupported("free in loop of outer object")
            if o0.kind == "cells":
                for off in set(o0.cells) | set(o1.cells):
                    a, c = o0.cells.get(off), o1.cells.get(off)
                    if a is None and c is None:
                        continue
                    if a is None:
                        put((k, "c", off, c[0], "p" if isinstance(c[1], (Ptr, FnPtr)) else "i"), c[1])
                        H[(k, "c", off, c[0], "p" if isinstance(c[1], (Ptr, FnPtr)) else "i")].add(("uninit",))
                    elif c is None or a[0] != c[0]:
                        raise Unsupported("cell layout changes in loop")
                    elif not veq(a[1], c[1]):
                        isp = isinstance(c[1], (Ptr, FnPtr)) or isinstance(a[1], (Ptr, FnPtr))
                        put((k, "c", off, a[0], "p" if isp else "i"), a[1], c[1])
            elif o0.kind in ("arr", "fam"):
                for sub in o0.fields:
                    if not veq(o0.fields[sub][1], o1.fields[sub][1]):
                        put((k, "f", sub))
                if not veq(o0.count, o1.count) and o0.count is not None:
                    put((k, "n"))
                if o0.kind == "fam" and not veq(o0.alive, o1.alive):
                    put((k, "alive"))
        for g in s1.ghost:
            if g not in s0.ghost or not (s0.ghost[g] is s1.ghost[g] or veq(s0.ghost[g], s1.ghost[g])):
                put(("ghost", g))
        return grew

    def havoc(self, entry, H):
        """-> list of head states (one per combination of pointer shapes)"""
        states = [entry.copy()]
        for loc in sorted(H, key=lambda x: (0 if x[1] == "toarr" else 1, str(x))):
            nxt = []
            for s in states:
                if loc[0] == "ghost":
                    g = s.ghost.get(loc[1])
                    if g is None:
                        nxt.append(s)
                        continue
                    s.ghost[loc[1]] = fresh(loc[1], g.sort())
                    nxt.append(s)
                    continue
                k = loc[0]
                if loc[1] == "toarr":
                    if s.mem[k].kind == "cells":
                        self._conv_arr(s, Ptr(k), loc[2])
                    elif s.mem[k].kind == "raw":
                        self.retype(s, k, loc[2], "bytes")
                    o = s.w(k)
                    w, t = o.fields[0]
                    if not o.ro:
                        o.fields[0] = (w, fresh(o.name, t.sort()))
                    nxt.append(s)
                elif loc[1] == "c":
                    off, n, isp = loc[2], loc[3], loc[4]
                    if isp == "i":
                        o = s.w(k)
                        o.cells[off] = (n, fresh("%s" % o.name if off == 0 else "%s+%d" % (o.name, off), n * 8))
                        nxt.append(s)
                    else:
                        for sh in sorted(H[loc], key=str):
                            s2 = s.copy()
                            o = s2.w(k)
                            if sh[0] == "null":
                                o.cells[off] = (8, NULL)
                            elif sh[0] == "fn":
                                o.cells[off] = (8, FnPtr(sh[1]))
                            elif sh[0] == "uninit":
                                o.cells.pop(off, None)
                            else:
                                tgt = s2.mem[sh[1]]
                                idx = fresh(o.name + ".idx", 64) if tgt.kind in ("arr", "raw") or tgt.felem == "arr" else None
                                if tgt.kind == "cells" and tgt.size > 16 and not tgt.subs and self._arrayish(tgt):
                                    idx = fresh(o.name + ".idx", 64)
                                fid = fresh(o.name + ".fid", 64) if sh[3] else None
                                o.cells[off] = (8, Ptr(sh[1], idx, sh[2], fid))
                            nxt.append(s2)
                elif loc[1] == "f":
                    o = s.w(k)
                    w, t = o.fields[loc[2]]
                    o.fields[loc[2]] = (w, fresh("%s.%d" % (o.name, loc[2]), t.sort()))
                    nxt.append(s)
                elif loc[1] == "n":
                    o = s.w(k)
                    o.count = fresh(o.name + ".n", o.count.sort())
                    nxt.append(s)
                elif loc[1] == "alive":
                    o = s.w(k)
                    o.alive = fresh(o.name + ".alive", o.alive.sort())
                    nxt.append(s)
            states = nxt
            if len(states) > 64:
                raise Unsupported("too many pointer shapes at loop head")
        return states

    def _arrayish(self, o):
        return False

    def _line(self, fr, ins):
        return fr.mod.lines.get(ins.line)

    def exec_block(self, fr, regs, st, b, prev):
        """-> list of ('br', regs, st, target) | ('out', Outcome)"""
        out = []
        work = [(regs, st, 0)]
        block = fr.fn.blocks[b]
        n = len(block.ins)
        # phis evaluated together
        while work:
            regs, st, i = work.pop()
            dead = False
            while i < n:
                ins = block.ins[i]
                op, d = ins.op, ins.d
                i += 1
                mod = fr.mod
                V = lambda tv: self.val(regs, st, tv, mod)
                if op == "alloca":
                    if ins.res in fr.allocas and fr.allocas[ins.res] in st.mem and d["n"] is None:
                        k = fr.allocas[ins.res]
                    t = d["ty"]
                    if d["n"] is not None:
                        raise Unsupported("vla")
                    p = self.new_cells(st, ins.res, mod.size(t))
                    pass
                    regs[ins.res] = p
                    fr.allocas[ins.res] = p.obj
                elif op == "load":
                    p = V(d["ptr"])
                    t = d["ty"]
                    if isinstance(p, Ptr) and p.obj is not None and st.mem[p.obj].kind == "raw":
                        self.retype(st, p.obj, mod.size(t))
                    w = "p" if isinstance(t, PtrTy) else (t.w if isinstance(t, IntTy) else None)
                    if w is None:
                        pass
                        regs[ins.res] = ("float", None)
                        continue
                    rs = self._load(st, p, w, self._line(fr, ins))
                    for s2, v in rs[1:]:
                        r2 = dict(regs)
                        r2[ins.res] = v
                        work.append((r2, s2, i))
                    if not rs:
                        dead = True
                        break
                    st = rs[0][0]
                    pass
                    regs[ins.res] = rs[0][1]
                elif op == "store":
                    p = V(d["ptr"])
                    t = d["v"][0]
                    if isinstance(p, Ptr) and p.obj is not None and st.mem[p.obj].kind == "raw":
                        self.retype(st, p.obj, mod.size(t))
                    w = "p" if isinstance(t, PtrTy) else (t.w if isinstance(t, IntTy) else None)
                    if w is None:
                        continue
                    v = V(d["v"])
                    if isinstance(v, IntOfPtr):
                        v, w = v.p, "p"
                    rs = self._store(st, p, v, w, self._line(fr, ins))
                    if not rs:
                        dead = True
                        break
                    st = rs[0]
                elif op == "getelementptr":
                    base = V(d["ops"][0])
                    idxs = [V(x) for x in d["ops"][1:]]
                    pass
                    regs[ins.res] = self.gep(st, mod, d["ty"], base, idxs)
                elif op in ("br", "switch", "ret", "unreachable"):
                    out.extend(self.term(fr, regs, st, ins))
                    dead = True
                    break
                elif op == "phi":
                    for v, pb in d["inc"]:
                        if pb == prev:
                            pass
                            regs[ins.res] = V((d["ty"], v))
                            break
                    else:
                        raise Unsupported("phi")
                elif op == "call":
                    rs = self.call(fr, regs, st, ins)
                    if not rs:
                        dead = True
                        break
                    for s2, v in rs[1:]:
                        r2 = dict(regs)
                        if ins.res:
                            r2[ins.res] = v
                        work.append((r2, s2, i))
                    st = rs[0][0]
                    pass
                    if ins.res:
                        regs[ins.res] = rs[0][1]
                elif op == "select":
                    c = V(d["c"])
                    a, bb = V(d["a"]), V(d["b"])
                    pass
                    c = simp(c)
                    if z3.is_true(c):
                        regs[ins.res] = a
                    elif z3.is_false(c):
                        regs[ins.res] = bb
                    elif isinstance(a, (Ptr, FnPtr)):
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        r2 = dict(regs)
                        r2[ins.res] = bb
                        work.append((r2, s2, i))
                        st.assume(c)
                        regs[ins.res] = a
                    else:
                        regs[ins.res] = simp(z3.If(c, a, bb))
                else:
                    pass
                    regs[ins.res] = self.pure(fr, regs, st, ins, V)
            # end while instructions
        return out

    def term(self, fr, regs, st, ins):
        d = ins.d
        if ins.op == "ret":
            v = None
            if d["v"] is not None:
                v = self.val(regs, st, d["v"], fr.mod)
            return [("out", Outcome("ret", st, v))]
        if ins.op == "unreachable":
            return []
        if ins.op == "br":
            if d["c"] is None:
                return [("br", regs, st, d["t"])]
            c = simp(self.val(regs, st, d["c"], fr.mod))
            if z3.is_true(c):
                return [("br", regs, st, d["t"])]
            if z3.is_false(c):
                return [("br", regs, st, d["f"])]
            s1, s2 = st, st.copy()
            s1.assume(c)
            s2.assume(z3.Not(c))
            out = []
            f1 = self.feasible(s1)
            if f1:
                out.append(("br", regs, s1, d["t"]))
                if self.feasible(s2):
                    out.append(("br", dict(regs), s2, d["f"]))
            else:
                out.append(("br", dict(regs), s2, d["f"]))
            return out
        if ins.op == "switch":
            v = self.val(regs, st, (d["ty"], d["v"]), fr.mod)
            out = []
            rest = st.copy()
            bytgt = {}
            for cv, tgt in d["cases"]:
                bytgt.setdefault(tgt, []).append(cv)
            vs = simp(v)
            if is_const(vs):
                for cv, tgt in d["cases"]:
                    if bv(cv, vs.size()).as_long() == vs.as_long():
                        return [("br", regs, st, tgt)]
                return [("br", regs, st, d["default"])]
            for tgt, cvs in bytgt.items():
                s2 = st.copy()
                s2.assume(z3.Or([v == bv(cv, v.size()) for cv in cvs]))
                if self.feasible(s2):
                    out.append(("br", dict(regs), s2, tgt))
            for cv, _ in d["cases"]:
                rest.assume(v != bv(cv, v.size()))
            if self.feasible(rest):
                out.append(("br", dict(regs), rest, d["default"]))
            return out

    def pure(self, fr, regs, st, ins, V):
        op, d = ins.op, ins.d
        line = self._line(fr, ins)
        if op == "icmp":
            a, b = V((d["ty"], d["a"])), V((d["ty"], d["b"]))
            if isinstance(d["ty"], PtrTy):
                return self.pcmp(st, d["pred"], a, b)
            if isinstance(a, IntOfPtr) or isinstance(b, IntOfPtr):
                raise Unsupported("int-of-pointer compare")
            if isinstance(a, z3.BoolRef):
                e = {"eq": lambda: a == b, "ne": lambda: a != b}[d["pred"]]()
                return simp(e)
            f = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
                 "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                 "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[d["pred"]]
            return simp(f())
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = V((d["ty"], d["a"])), V((d["ty"], d["b"]))
            if isinstance(a, IntOfPtr) or isinstance(b, IntOfPtr):
                if op == "sub" and isinstance(a, IntOfPtr) and isinstance(b, IntOfPtr):
                    p, q = a.p, b.p
                    if p.obj is not None:
                        p, _ = self.deref(st, p)
                    if q.obj is not None:
                        q, _ = self.deref(st, q)
                    if p.obj != q.obj or not (p.fid is q.fid or veq(p.fid, q.fid)):
                        raise Unsupported("difference of pointers into different objects")
                    return simp(self.poff(st, p) - self.poff(st, q))
                raise Unsupported("arithmetic on int-of-pointer")
            if isinstance(a, z3.BoolRef):
                return simp({"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b)}[op]())
            fl = d["fl"]
            w = a.size()
            if op == "add":
                if "nsw" in fl and self.overflow and not (is_const(a) and is_const(b)):
                    self.check(st, "no-signed-overflow(+)", z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "overflow", line)
                return simp(a + b)
            if op == "sub":
                if "nsw" in fl and self.overflow and not (is_const(a) and is_const(b)):
                    self.check(st, "no-signed-overflow(-)", z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "overflow", line)
                return simp(a - b)
            if op == "mul":
                if "nsw" in fl and self.overflow and not (is_const(a) and is_const(b)):
                    self.check(st, "no-signed-overflow(*)", z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "overflow", line)
                return simp(a * b)
            if op in ("udiv", "sdiv", "urem", "srem"):
                if not is_const(b):
                    self.check(st, "division-by-zero", b != 0, "overflow", line)
                elif b.as_long() == 0:
                    self.check(st, "division-by-zero", False, "overflow", line)
                if op == "sdiv" and "exact" in fl and is_const(b):
                    try:
                        return self._exact_div(a, sconst(b))
                    except Unsupported:
                        pass
                return simp({"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b))
            if op in ("shl", "lshr", "ashr"):
                if not is_const(b) or b.as_long() >= w:
                    if self.overflow:
                        self.check(st, "shift-amount-in-range", z3.ULT(b, bv(w, w)), "overflow", line)
                return simp({"shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]())
            return simp({"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]())
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            v = V(d["tv"])
            to = d["to"]
            if op == "ptrtoint":
                return IntOfPtr(v)
            if op == "inttoptr":
                if isinstance(v, IntOfPtr):
                    return v.p
                vs = simp(v)
                if is_const(vs):
                    return Ptr(None, vs if vs.size() == 64 else z3.SignExt(64 - vs.size(), vs)) if vs.as_long() else NULL
                raise Unsupported("inttoptr")
            if op == "bitcast":
                return v
            if isinstance(v, IntOfPtr):
                raise Unsupported("cast of int-of-pointer")
            if isinstance(v, z3.BoolRef):
                if op == "zext":
                    return simp(z3.If(v, bv(1, to.w), bv(0, to.w)))
                if op == "sext":
                    return simp(z3.If(v, bv(-1, to.w), bv(0, to.w)))
                raise Unsupported("trunc bool")
            if op == "zext":
                return simp(z3.ZeroExt(to.w - v.size(), v))
            if op == "sext":
                return simp(z3.SignExt(to.w - v.size(), v))
            if to.w == 1:
                return simp(z3.Extract(0, 0, v) == bv(1, 1))
            return simp(z3.Extract(to.w - 1, 0, v))
        if op == "freeze":
            return V(d["tv"])
        if op in ("sitofp", "uitofp", "fadd", "fsub", "fmul", "fdiv", "fpext", "fptrunc", "fneg"):
            return ("float", None)
        if op in ("fptosi", "fptoui"):
            return fresh("fp", d["to"].w)
        if op == "fcmp":
            return z3.FreshConst(z3.BoolSort())
        raise Unsupported("instruction %s (%s)" % (op, d.get("why", "")))

    # ---------------------------------------------------------- calls
    def call(self, fr, regs, st, ins):
        d = ins.d
        k, name = d["callee"]
        mod = fr.mod
        if k == "loc":
            f = regs[name]
            if not isinstance(f, FnPtr):
                raise Unsupported("indirect call")
            name = f.name
        args = [self.val(regs, st, a, mod) for a in d["args"] if True]
        line = self._line(fr, ins)
        con = self.contracts.get(name)
        self.called.add(name)
        hook = self.externs.get(name)
        if hook is not None and getattr(hook, "priority", False):
            return hook(self, st, args, d["ty"], line)
        if con is not None and con.usable:
            return self.apply_contract(con, fr, st, args, d["ty"], line)
        m2, f2 = self.program.find(name, mod)
        if f2 is not None and hook is None:
            self.inlined.add(name)
            # inlined callee: its own loop specs apply
            outs, _ = self.run(m2, f2, args, st, fr.depth + 1)
            return [(o.st, o.val) for o in outs if o.kind == "ret"]
        if hook is None:
            from . import libc
            hook = libc.MODELS.get(name)
        if hook is None:
            if name.startswith("llvm."):
                raise Unsupported("intrinsic " + name)
            raise Unsupported("call to " + name + " (no body, no model)")
        return hook(self, st, args, d["ty"], line)

    def apply_contract(self, con, fr, st, args, rty, line):
        c = Ctx()
        if con.pn is None:
            raise Unsupported("contract %s has no parameter list" % con.name)
        con.params = con.pn.split()
        c.m, c.a, c.st, c.g = self, dict(zip(con.params, args)), st, st.ghost
        c.S = c.O = View(self, st)
        c.line = line
        for n, f in con.requires(c):
            self.check(st, "%s/requires:%s" % (con.name, n), f, "precondition", line)
        old = st.copy()
        c.O = View(self, old)
        outs = []
        for (st2, ret) in con.effect(c, st, rty):
            c2 = Ctx()
            c2.m, c2.a, c2.st, c2.g = self, c.a, st2, st2.ghost
            c2.O, c2.S, c2.ret = View(self, old), View(self, st2), ret
            for n, f in con.ensures(c2):
                st2.assume(f)
            outs.append((st2, ret))
        return outs
