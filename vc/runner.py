"""Decide one property: discharge the contracts of the functions it depends on,
replay against the real code, write the evidence file."""
import copy
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
from . import build, contract, engine, ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(ROOT, "contracts", "baseline.json")
KNOWN = os.path.join(ROOT, "known_findings.json")


def but(*names):
    return [n + ".c" for n in build.ALL if n not in names + ("mairix", "dotlock")]


NOT_SEARCH = but("search")
DEADLINE = 420.0      # seconds for the quick tier


class Prop:
    id = None
    files = []          # sources to compile to IR
    contracts = []      # Contract classes (verified)
    uses = []           # Contract classes used at call sites but verified by another property
    lemmas = []
    native = []         # native harnesses: dict(src=, san=, role=)
    e2e = []            # python callables(tree, seed, tier) -> dict(fail=..., cases=..)
    trusted = []        # assumptions left unchecked, in words
    unverified = []     # functions named by the property that no contract reaches
    technique = "contract-based deductive verification"
    budget = 300.0
    externs = {}


def load_baseline():
    try:
        return json.load(open(BASE))
    except Exception:
        return {}


def describe(mod, fn):
    """locals (name,type) in order and number of loops"""
    loc = []
    for b in fn.order:
        for i in fn.blocks[b].ins:
            if i.op == "alloca":
                loc.append([i.res, repr(i.d["ty"])])
    return dict(locals=loc, loops=len(fn.loops()))


def make_baseline(lls):
    out = {}
    for n, txt in lls.items():
        m = ir.parse(txt)
        out[n] = {f: describe(m, m.fns[f]) for f in m.fns}
    return out


def inline_new(tree, name, text, base):
    """functions that the pinned tree does not have (extracted helpers) are inlined by LLVM itself,
    so that loops moved into them are still loops of the function under contract"""
    m = ir.parse(text)
    known = base.get(name, {})
    new = [f for f in m.fns if f not in known]
    # a function the pinned tree has under another kind is left alone
    if not new or not known:
        return text, []
    t = re.sub(r"\bnoinline ", "", text)
    for f in new:
        t = re.sub(r"(define [^\n]*@%s\([^\n]*\)[^\n]*?)( #\d+)" % re.escape(f), r"\1 alwaysinline\2", t, count=1)
    src = os.path.join(tree.dir, name + ".in.ll")
    dst = os.path.join(tree.dir, name + ".out.ll")
    open(src, "w").write(t)
    r = subprocess.run(["opt-18", "-passes=always-inline", "-S", src, "-o", dst], capture_output=True, text=True)
    if r.returncode:
        return text, []
    return open(dst).read(), new


def match_locals(base, mod, fn):
    """rename map for locals that were renamed: per type, missing names matched to new names in order"""
    ren = {}
    b = base.get(fn.name)
    if b is None:
        return ren, False
    strip = lambda n: re.sub(r"\.i\d*$", "", n)
    def canon(loc):
        names = [n for n, _ in loc]
        seen, out = {}, []
        for n, t in loc:
            c = engine.canon_base(n, names)
            k = seen[c] = seen.get(c, -1) + 1
            out.append((c if k == 0 else "%s#%d" % (c, k), t))
        return out
    cur = canon([(i.res, repr(i.d["ty"])) for bl in fn.order for i in fn.blocks[bl].ins if i.op == "alloca"])
    b = dict(b, locals=canon(b["locals"]))
    curn = {n for n, _ in cur}
    bn = {n for n, _ in b["locals"]}
    missing = [(n, t) for n, t in b["locals"] if n not in curn]
    new = [(n, t) for n, t in cur if n not in bn]
    changed = False
    used = set()
    for n, t in missing:
        # same name with an inliner suffix first
        c = [x for x, tt in new if tt == t and strip(x) == n and x not in used]
        if not c:
            c = [x for x, tt in new if tt == t and x not in used]
        if c:
            ren[n] = c[0]
            used.add(c[0])
            changed = True
    return ren, changed


_ctx = {}


def _work(i):
    kind, obj = _ctx["tasks"][i]
    try:
        if kind == "lemma":
            r = contract.prove_lemma(obj)
        else:
            r = contract.verify(_ctx["prog"], _ctx["fields"], obj, _ctx["cons"], externs=_ctx["externs"],
                                budget=_ctx["budget"], rename=_ctx["rename"].get(obj.name))
    except Exception as e:
        r = contract.Result(obj.name, kind)
        r.status, r.reason = "undecided", "internal: " + traceback.format_exc()[-800:]
    for o in r.obls:
        if o.model is not None:
            try:
                o.detail = "countermodel: " + str(o.model)[:1500]
            except Exception:
                pass
            o.model = None
    return i, r


def run_native(tree, h, seed, tier):
    exe = os.path.join(tree.dir, os.path.basename(h["src"]) + ".exe")
    t = time.time()
    src = os.path.join(ROOT, "native", h["src"])
    try:
        tree.cc(src, exe, [os.path.join(tree.src, x) for x in h.get("link", [])], san=h.get("san", True))
    except build.BuildError as e:
        return dict(status="error", out=str(e), secs=time.time() - t, name=h["src"])
    work = os.path.join(tree.dir, "work." + os.path.basename(h["src"]))
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", TZ="UTC", LC_ALL="C")
    lim = h.get("timeout", 120 if tier == "quick" else 900)
    try:
        r = subprocess.run([exe, str(seed), tier], cwd=work, env=env, capture_output=True, timeout=lim)
        out, err, rc = r.stdout.decode("latin1"), r.stderr.decode("latin1"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1"), "timeout"
    g = lambda k: int((re.findall(r"^%s (\d+)" % k, out, re.M) or ["0"])[-1])
    fails = re.findall(r"^FAIL (.*)$", out, re.M)
    res = dict(name=h["src"], secs=time.time() - t, cases=g("CASES"), distinct=g("DISTINCT"),
               samples=re.findall(r"^SAMPLE (.*)$", out, re.M)[:6], rule=h.get("rule", ""), known=re.findall(r"^KNOWN (.*)$", out, re.M))
    if fails or rc != 0 and rc != "timeout" or not fails and rc == 0 and "\nOK" not in "\n" + out:
        msg = fails[0] if fails else "harness ended with status %s: %s" % (rc, err[-1500:])
        if not fails and "runtime error" in err:
            msg = "undefined behaviour: " + re.findall(r".*runtime error.*", err)[0]
        res.update(status="fail", out=msg + "\n--- stderr ---\n" + err[-4000:], msg=msg)
    elif rc == "timeout":
        if h.get("hang_is_failure"):
            res.update(status="fail", out="no answer within %d s" % lim, msg="does not terminate within %d s" % lim)
        else:
            res.update(status="timeout", out="")
    else:
        res.update(status="ok", out="")
    return res


def main(pid, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid.lower())
    P = mod.P
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    replay = os.path.join(ROOT, "evidence", pid + ".replay.txt")
    for f in (ev, replay):
        if os.path.exists(f):
            os.unlink(f)
    base = load_baseline()
    tree = build.Tree()
    try:
        return _decide(pid, P, tier, seed, tree, base, ev, replay, t0)
    finally:
        tree.close()


def _decide(pid, P, tier, seed, tree, base, ev, replay, t0):
    lls = tree.ll(P.files) if P.files else {}
    fields, mods, newfns = {}, {}, []
    for n, x in lls.items():
        x2, new = inline_new(tree, n, x, base)
        build.merge_fields(fields, x2)
        mods[n] = ir.parse(x2)
        newfns += new
    prog = engine.Program(mods)
    cons = {}
    for c in list(P.contracts) + list(P.uses):
        o = c()
        cons[o.name] = o
    verified = [cons[c.name] for c in P.contracts]
    rename, approx = {}, {}
    for o in verified:
        m = mods.get(o.file)
        if m is None or o.name not in m.fns:
            approx[o.name] = "function not present in %s.c" % o.file
            continue
        b = base.get(o.file, {})
        ren, ch = match_locals(b, m, m.fns[o.name])
        if ren:
            rename[o.name] = {(o.name, re.sub(r"\.addr$", "", k)): re.sub(r"\.addr$", "", v) for k, v in ren.items()}
        if ch:
            approx[o.name] = "locals were renamed"
        if o.name in b and len(m.fns[o.name].loops()) != b[o.name]["loops"]:
            approx[o.name] = "loop structure changed (%d loops, annotations written for %d)" % (len(m.fns[o.name].loops()), b[o.name]["loops"])
    tasks = []
    for o in verified:
        for k in range(o.parts):
            o2 = copy.copy(o)
            if o.parts > 1:
                o2.part = k
            tasks.append(("fn", o2))
    tasks += [("lemma", l()) for l in P.lemmas]
    _ctx.update(tasks=tasks, prog=prog, fields=fields, cons=cons, externs=P.externs, rename=rename,
                budget=P.budget if tier == "quick" else P.budget * 3)
    native = []
    results = [None] * len(tasks)
    mpc = mp.get_context("fork")
    with mpc.Pool(min(7, max(1, len(tasks)))) as pool:
        ar = pool.imap_unordered(_work, sorted(range(len(tasks)), key=lambda i: -getattr(tasks[i][1], "cost", 0)))
        for h in P.native:
            native.append(run_native(tree, h, seed, tier))
        for f in P.e2e:
            t = time.time()
            try:
                d = f(tree, seed, tier)
            except build.BuildError as e:
                d = dict(status="error", out=str(e), name=f.__name__)
            d.setdefault("secs", time.time() - t)
            native.append(d)
        bad = any(n["status"] == "fail" for n in native)
        limit = t0 + (DEADLINE if tier == "quick" else 6 * DEADLINE)
        if bad:
            limit = min(limit, time.time() + (5 if any(r is not None and r.status == "failed" for r in results) else 60))
        stop = ""
        try:
            while True:
                # a failing input of the real code decides; the proof attempts are then given a minute to name the obligation that breaks
                i, r = ar.next(timeout=max(0.1, limit - time.time()))
                results[i] = r
                if bad and r.status == "failed":
                    limit = time.time()
        except StopIteration:
            pass
        except mp.TimeoutError:
            stop = "stopped: a failing input was found by running the code" if bad else "stopped: out of time"
            pool.terminate()
        again = [i for i, r in enumerate(results) if r is not None and r.status == "undecided" and r.reason.startswith("solver gave no answer")]
        if again and not bad and not stop and not any(r is not None and r.status == "failed" for r in results):
            # once more with more time, now that the machine is less busy
            for i in again:
                if tasks[i][0] == "fn":
                    tasks[i][1].timeout *= 3
            with mpc.Pool(min(7, len(again))) as pool2:
                ar = pool2.imap_unordered(_work, again)
                try:
                    while True:
                        i, r = ar.next(timeout=max(0.1, limit - time.time()))
                        if r.status == "proved":
                            results[i] = r
                except StopIteration:
                    pass
                except mp.TimeoutError:
                    pool2.terminate()
        for i, r in enumerate(results):
            if r is None:
                r = results[i] = contract.Result(tasks[i][1].name, getattr(tasks[i][1], "file", "lemma") if tasks[i][0] == "fn" else "lemma")
                r.status, r.reason = "undecided", stop
    fns = [r for (k, o), r in zip(tasks, results)]
    obl = sum(len(r.obls) for r in fns)
    dis = sum(1 for r in fns for o in r.obls if o.status == "discharged")
    # bit-identical obligations of the unchanged tree are what baseline proofs rest on
    failed = [r for r in fns if r.status == "failed"]
    undec = [r for r in fns if r.status == "undecided"]
    nfail = [n for n in native if n["status"] == "fail"]
    known = []
    try:
        known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
    except FileNotFoundError:
        pass
    klines = []
    real = []
    for n in nfail:
        k = [k for k in known if k.get("match") and re.search(k["match"], n["msg"])]
        if k:
            klines.append(k[0]["what"])
        else:
            real.append(n)
    for n in native:
        for x in n.get("known", []):
            k = [k for k in known if k.get("match") and re.search(k["match"], x)]
            if k:
                klines.append(k[0]["what"])
            else:
                n2 = dict(n, msg=x, out=x)
                real.append(n2)
    hard = []
    for r in failed:
        if r.name in approx:
            undec.append(r)
        else:
            hard.append(r)
    # a failed obligation listed as known finding
    viol = 0
    lines = []
    if real or hard:
        viol = 1
        with open(replay, "w") as f:
            f.write("property %s\n" % pid)
            for n in real:
                f.write("\n== failing input found by running the real code (%s)\n%s\n" % (n["name"], n["out"]))
            for r in hard:
                f.write("\n== function %s: obligations not discharged\n" % r.name)
                for o in r.fails():
                    f.write("  %s  [%s, %s.c line %s] %s (%s) %s\n" % (o.name, o.kind, r.what, o.line, o.status, o.backend, o.detail))
            for r in undec:
                f.write("\n== function %s undecided: %s\n" % (r.name, r.reason))
                for o in r.fails()[:20]:
                    f.write("  %s  [%s line %s] %s %s\n" % (o.name, o.kind, o.line, o.status, o.detail[:300]))
        if real:
            lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
            print("# " + real[0]["msg"][:500])
        else:
            o = hard[0].fails()[0]
            print("# %s: obligation '%s' (%s) fails" % (hard[0].name, o.name, o.kind))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
    all_proved = not failed and not undec and obl > 0
    for r in fns:
        print("# %-34s %-9s %4d obligations %6.1fs%s" % (r.name, r.status, len(r.obls), r.wall, "  (" + r.reason.split("\n")[0][:160] + ")" if r.reason else ""))
    for n in native:
        print("# native %-27s %-9s %s cases %6.1fs" % (n["name"], n["status"], n.get("cases", "-"), n["secs"]))
        if n["status"] == "error":
            print("#   " + n["out"][-600:].replace("\n", "\n#   "))
    for k in klines:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for l in lines:
        print(l)
    assum = sorted(set(P.trusted) | {"assumed contract of C library function " + a[5:] for r in fns for a in r.assumptions if a.startswith("libc:")}
                   | {"contract of %s assumed here, proved under another property" % c.name for c in P.uses})
    assum += ["clang 18 -O0 LLVM IR is the semantics of the C source; the gcc -O2 build agrees with it",
              "objects are smaller than 2^47 bytes and malloc does not return NULL (safe_malloc exits)",
              "the verification-condition generator in /verif/vc and z3 %s / cvc5 1.1.2 are sound" % engine.z3.get_version_string()]
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd="python3-vt /verif/check.py %s" % pid,
        trusted_base=["clang 18 front end", "vc/ (VC generator)", "z3 " + engine.z3.get_version_string(), "cvc5 1.1.2 (second back end)"],
        functions_under_contract=[dict(function=r.name, file=(r.what + ".c") if r.what != "lemma" else "lemma", status=r.status, obligations=len(r.obls),
                                       discharged=sum(1 for o in r.obls if o.status == "discharged"), paths=r.paths, loops_with_invariants=r.loops,
                                       solver_s=round(r.solver, 2), inlined=sorted(r.inlined), reason=r.reason[:300],
                                       note=approx.get(r.name, "")) for r in fns],
        by_backend={b: sum(1 for r in fns for o in r.obls if o.status == "discharged" and o.backend == b) for b in ("simplifier", "z3", "cvc5")},
        by_kind={k: sum(1 for r in fns for o in r.obls if o.kind == k) for k in sorted({o.kind for r in fns for o in r.obls})},
        solver_s=round(sum(r.solver for r in fns), 2),
        bounded_stand_ins=[dict(harness=n["name"], label="bounded (native, not proof)", status=n["status"], evaluations=n.get("cases", 0), distinct_nontrivial=n.get("distinct", 0),
                                rule=n.get("rule", ""), samples=n.get("samples", [])) for n in native],
        not_under_contract=P.unverified,
        helpers_inlined=newfns,
        samples=[s for n in native for s in n.get("samples", [])][:4],
        evaluations=sum(n.get("cases", 0) for n in native),
        distinct_nontrivial=sum(n.get("distinct", 0) for n in native),
        rule="; ".join(n.get("rule", "") for n in native))
    level = "proof" if all_proved else ("exploration" if native else "other")
    if level != "proof":
        cov["explanation"] = "not every obligation was discharged on this tree (%s); where it was not, the bounded native stand-in decided" % ", ".join(
            "%s: %s" % (r.name, approx.get(r.name) or r.reason[:100]) for r in undec + hard)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 1), violations=viol),
              open(ev, "w"), indent=1)
    if not viol and not all_proved and not native:
        # nothing decided this property on this tree
        print("# undecided: " + "; ".join("%s: %s" % (r.name, r.reason[:200]) for r in undec))
        return 2
    return 1 if viol else 0
