import time
import traceback
import z3
from .ir import Unsupported, IntTy, PtrTy, VoidTy
from .engine import (Machine, State, View, Ctx, Ptr, FnPtr, NULL, Obj, bv, fresh, simp, veq, conj, LoopSpec, Obl, PathLimit, BV64)


class Contract:
    """One function of /repo under contract.

    setup(c)    -> most general arguments (dict by parameter name), objects created in c.st
    requires(c) -> [(name, formula)]          c.a args, c.S/c.O views
    ensures(c)  -> [(name, formula)]          c.S new, c.O old, c.ret
    assigns(c)  -> [('cell',ptr,bytes) | ('obj',ptr) | ('any',ptr)]   frame: nothing else may change
    effect(c,st,rty) -> [(state, ret)]        havoc performed at call sites (must cover assigns)
    loops       -> {index: LoopSpec}
    """
    name = None
    file = None
    pn = None         # parameter names, in order (positional: a renamed parameter still attaches)
    usable = True
    loops = {}
    overflow = True
    trusted = False
    proving = False
    axioms = ()
    max_paths = 4000
    timeout = 20.0
    globals_init = {}
    externs = {}
    parts = 1         # input variants proved as separate tasks
    part = None
    rets = True       # must have a reachable return

    def __init__(self):
        self.params = []
        self.loops = dict(self.loops)

    def setup(self, c):
        raise NotImplementedError

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def assigns(self, c):
        return []

    def retval(self, c, st, rty):
        if isinstance(rty, IntTy):
            return fresh(self.name + ".ret", rty.w)
        if isinstance(rty, VoidTy):
            return None
        raise Unsupported("%s: pointer result needs effect()" % self.name)

    def effect(self, c, st, rty):
        m = c.m
        for a in self.assigns(c):
            if a[0] == "cell":
                m.poke(st, a[1], fresh(self.name + ".w", a[2] * 8), a[2] * 8)
            elif a[0] == "obj":
                p, o = m.deref(st, a[1])
                if o.kind == "raw":
                    m.retype(st, p.obj, a[2] if len(a) > 2 else 1, "bytes")
                    p, o = m.deref(st, a[1])
                if o.kind == "cells":
                    m._conv_arr(st, p, a[2] if len(a) > 2 else 1)
                    p, o = m.deref(st, a[1])
                o2 = st.w(p.obj)
                for sub, (w, t) in o.fields.items():
                    if o.kind == "fam":
                        nt = z3.Store(t, p.fid, fresh(o.name, t.sort().range()))
                    else:
                        nt = fresh(o.name, t.sort())
                    o2.fields[sub] = (w, nt)
            elif a[0] == "pidx":       # pointer cell keeps its object, index havocked
                old = m.peek(st, a[1], "p")
                m.poke(st, a[1], Ptr(old.obj, fresh(self.name + ".pi", 64), old.sub, old.fid), "p")
            elif a[0] == "none":
                pass
            else:
                raise Unsupported("assigns kind " + a[0])
        return [(st, self.retval(c, st, rty))]


class Result:
    def __init__(self, name, what):
        self.name, self.what = name, what
        self.obls = []
        self.status = None       # proved | failed | undecided
        self.reason = ""
        self.solver = 0.0
        self.wall = 0.0
        self.paths = 0
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.bounded = False
        self.loops = 0

    def fails(self):
        return [o for o in self.obls if o.status != "discharged"]


def frame_check(m, con, c, old, out, fr):
    allowed = con.assigns(c)
    cells, objs = [], set()
    for a in allowed:
        if a[0] == "cell":
            cells.append((a[1].obj, a[1].sub, a[2]))
        elif a[0] == "pidx":
            cells.append((a[1].obj, a[1].sub, 8))
        elif a[0] in ("obj", "any"):
            objs.add(a[1].obj if isinstance(a[1], Ptr) else a[1])
    for k, o0 in old.mem.items():
        o1 = out.mem[k]
        if o0 is o1 or k in objs:
            continue
        if o0.kind != o1.kind:
            if o0.ro:
                continue
            if o0.kind in ("cells", "raw") and o1.kind == "arr":
                continue
            m.check(out, "frame:%s unchanged" % o0.name, False, "frame", None, assume=False)
            continue
        if o0.freed != o1.freed:
            m.check(out, "frame:%s not freed" % o0.name, False, "frame", None, assume=False)
        if o0.kind == "cells":
            for off in set(o0.cells) | set(o1.cells):
                a, b = o0.cells.get(off), o1.cells.get(off)
                if a is None:
                    if b is not None and any(k == ck and co <= off < co + cn for ck, co, cn in cells):
                        continue
                    # lazily materialised read of an unconstrained cell is not a change
                    if isinstance(b[1], z3.ExprRef) and b[1].num_args() == 0 and str(b[1]).startswith("%s+%d!" % (o0.name, off)):
                        continue
                    m.check(out, "frame:%s+%d" % (o0.name, off), False, "frame", None, assume=False)
                    continue
                if any(k == ck and co <= off < co + cn for ck, co, cn in cells):
                    continue
                if b is not None and veq(a[1], b[1]):
                    continue
                if b is not None and isinstance(a[1], z3.ExprRef) and isinstance(b[1], z3.ExprRef) and a[0] == b[0]:
                    m.check(out, "frame:%s+%d" % (o0.name, off), a[1] == b[1], "frame", None, assume=False)
                elif b is not None and isinstance(a[1], Ptr) and isinstance(b[1], Ptr) and a[1].obj == b[1].obj and a[1].obj is not None:
                    m.check(out, "frame:%s+%d" % (o0.name, off), m.pcmp(out, "eq", a[1], b[1]), "frame", None, assume=False)
                else:
                    m.check(out, "frame:%s+%d" % (o0.name, off), False, "frame", None, assume=False)
        elif o0.kind in ("arr", "fam"):
            for sub in o0.fields:
                t0, t1 = o0.fields[sub][1], o1.fields[sub][1]
                if not veq(t0, t1):
                    if any(k == ck and co <= sub < co + cn for ck, co, cn in cells) and o0.kind == "fam":
                        continue
                    q = z3.BitVec("k!frame", 64)
                    m.check(out, "frame:%s[%d]" % (o0.name, sub), z3.ForAll([q], z3.Implies(z3.And(q >= o0.lo, q < o0.count), z3.Select(t0, q) == z3.Select(t1, q))) if o0.kind == "arr" else z3.BoolVal(False), "frame", None, assume=False)


def verify(program, fields, con, contracts, externs=None, unwind=None, budget=400.0, rename=None):
    """discharge every obligation of one function against its contract"""
    m = Machine(program, fields, timeout=con.timeout, budget=budget)
    m.unwind = unwind
    m.rename = rename or {}
    m.overflow = con.overflow
    m.dry_all = getattr(con, "dry_all", True)
    m.heap_esize = getattr(con, "heap_esize", None)
    m.max_paths = con.max_paths
    m.axioms = list(con.axioms() if callable(con.axioms) else con.axioms)
    m.contracts = {k: v for k, v in contracts.items() if k != con.name or getattr(con, "recursive", False)}
    m.externs = dict(externs or {})
    m.externs.update(con.externs)
    m.global_init = con.globals_init
    r = Result(con.name, con.file)
    t0 = time.time()
    con.proving = True      # contracts may replace a quantified precondition by the instances the proof uses
    try:
        mod = program.modules.get(con.file)
        if mod is None or con.name not in mod.fns:
            raise Unsupported("function %s not found in %s.c" % (con.name, con.file))
        fn = mod.fns[con.name]
        actual = [n for n, _ in fn.params]
        con.params = con.pn.split() if con.pn is not None else actual
        if len(con.params) != len(actual):
            raise Unsupported("%s takes %d parameters, contract describes %d" % (con.name, len(actual), len(con.params)))
        for d, a in zip(con.params, actual):
            if d != a:
                m.rename[(con.name, d)] = a
        m.cur_fn = con.name
        for (f, i), spec in [((con.name, i), s) for i, s in con.loops.items()]:
            m.loop_specs[(f, i)] = spec
        for cc in contracts.values():
            if cc.name != con.name:
                for i, s in cc.loops.items():
                    m.loop_specs[(cc.name, i)] = s
        for key, s in getattr(con, "inner_loops", {}).items():
            m.loop_specs[key] = s
        st = State()
        c = Ctx()
        c.m, c.st, c.g = m, st, st.ghost
        c.S = c.O = View(m, st)
        args = con.setup(c)
        c.a = args
        # setup may hand over several shapes of input
        variants = args if isinstance(args, list) else [(st, args)]
        if con.part is not None:
            variants = variants[con.part::con.parts]
        nret = 0
        if not variants:
            raise Unsupported("no input variants")
        for vi, (st, args) in enumerate(variants):
            c = Ctx()
            c.m, c.st, c.g, c.a = m, st, st.ghost, args
            c.S = c.O = View(m, st)
            for n, f in con.requires(c):
                st.assume(f)
            # vacuity: the precondition must be satisfiable
            q, _ = m.query(st.pc, timeout=10)
            if q == z3.unsat:
                raise Unsupported("vacuous precondition of %s (variant %d)" % (con.name, vi))
            if set(args) != set(con.params):
                raise Unsupported("parameters of %s are %s, contract gives %s" % (con.name, con.params, sorted(args)))
            old = st.copy()
            m.old_view = View(m, old)
            m.cur_args = args
            outs, fr = m.run(mod, fn, [args[p] for p in con.params], st)
            for o in outs:
                if o.kind != "ret":
                    continue
                c2 = Ctx()
                c2.m, c2.a, c2.st, c2.g = m, args, o.st, o.st.ghost
                c2.O, c2.S, c2.ret = View(m, old), View(m, o.st), o.val
                c2.fr = fr
                nret += 1
                for n, f in con.ensures(c2):
                    m.check(o.st, "ensures:" + n, f, "postcondition", None, assume=False)
                frame_check(m, con, c2, old, o.st, fr)
        if con.rets and nret == 0:
            raise Unsupported("no return path reached in " + con.name)
        r.bounded = unwind is not None
        r.obls = m.obls
        if not m.obls and not getattr(con, "allow_empty", False):
            raise Unsupported("zero obligations generated for " + con.name)
        bad = r.fails()
        r.status = "proved" if not bad else ("failed" if any(o.status == "failed" for o in bad) else "undecided")
        if bad and r.status == "undecided":
            r.reason = "solver gave no answer on: " + ", ".join(sorted({o.name for o in bad}))
    except Unsupported as e:
        r.obls = m.obls
        r.status, r.reason = "undecided", str(e)
    except z3.Z3Exception as e:
        r.obls = m.obls
        r.status, r.reason = "undecided", "z3: " + str(e) + traceback.format_exc()
    except (KeyError, AttributeError, IndexError, TypeError, AssertionError, ValueError, RecursionError) as e:
        r.obls = m.obls
        r.status, r.reason = "undecided", "internal %s: %s %s" % (type(e).__name__, e, traceback.format_exc())
    con.proving = False
    r.solver, r.wall, r.paths = m.solver_time, time.time() - t0, m.paths
    r.assumptions, r.inlined, r.called = m.assumptions, m.inlined, m.called
    r.loops = m.loops_seen.get(con.name, 0)
    return r


class Lemma:
    """a formula over contracts: goals() -> [(name, hypotheses, goal)]"""
    name = None
    timeout = 30.0

    def goals(self):
        return []


def prove_lemma(lem):
    r = Result(lem.name, "lemma")
    t0 = time.time()
    m = Machine(None, {}, timeout=lem.timeout)
    m.cur_fn = lem.name
    try:
        gs = lem.goals()
        for n, hyps, goal in gs:
            st = State()
            st.assume(*hyps)
            q, _ = m.query(st.pc, timeout=2)
            if q == z3.unsat:
                raise Unsupported("vacuous hypotheses in lemma %s/%s" % (lem.name, n))
            m.check(st, n, goal, "lemma", None, assume=False)
        r.obls = m.obls
        if not r.obls:
            raise Unsupported("empty lemma")
        bad = r.fails()
        r.status = "proved" if not bad else "undecided"
        r.reason = ", ".join(o.name for o in bad)
    except (Unsupported, z3.Z3Exception) as e:
        r.obls = m.obls
        r.status, r.reason = "undecided", str(e)
    r.solver, r.wall = m.solver_time, time.time() - t0
    return r
