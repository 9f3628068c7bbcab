"""Exact comparison of a scanner automaton generated in the scratch tree (dfasyn output, read through its own
next_state function) with the languages it should accept: product construction, so all words of all lengths."""
import os
import re
import subprocess
from collections import deque
try:
    from re import _parser as sre
except ImportError:  # pragma: no cover
    import sre_parse as sre
from . import build


class Nfa:
    def __init__(self):
        self.eps, self.edges, self.acc = [], [], {}

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def build(self, ast, a):
        """append ast after state a, return the end state"""
        for op, av in ast:
            op = str(op)
            if op == "LITERAL":
                b = self.new()
                self.edges[a].append(({av}, b))
            elif op == "NOT_LITERAL":
                b = self.new()
                self.edges[a].append((set(range(256)) - {av}, b))
            elif op == "ANY":
                b = self.new()
                self.edges[a].append((set(range(256)) - {10}, b))
            elif op == "IN":
                s, neg = set(), False
                for k, v in av:
                    k = str(k)
                    if k == "NEGATE":
                        neg = True
                    elif k == "LITERAL":
                        s.add(v)
                    elif k == "RANGE":
                        s |= set(range(v[0], v[1] + 1))
                    else:
                        raise ValueError(k)
                b = self.new()
                self.edges[a].append((set(range(256)) - s if neg else s, b))
            elif op == "SUBPATTERN":
                b = self.build(av[-1], a)
            elif op == "BRANCH":
                b = self.new()
                for x in av[1]:
                    s = self.new()
                    self.eps[a].append(s)
                    self.eps[self.build(x, s)].append(b)
            elif op == "MAX_REPEAT":
                lo, hi, x = av
                for _ in range(lo):
                    a = self.build(x, a)
                b = self.new()
                self.eps[a].append(b)
                if hi == sre.MAXREPEAT:
                    e = self.build(x, b)
                    self.eps[e].append(b)
                else:
                    for _ in range(hi - lo):
                        n = self.build(x, a)
                        self.eps[n].append(b)
                        a = n
            else:
                raise ValueError(op)
            a = b
        return a

    def close(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for t in self.eps[st.pop()]:
                if t not in out:
                    out.add(t)
                    st.append(t)
        return frozenset(out)

    def step(self, ss, ch):
        return self.close({t for s in ss for cs, t in self.edges[s] if ch in cs})


def nfa(specs):
    n = Nfa()
    s0 = n.new()
    for name, rx in specs.items():
        s = n.new()
        n.eps[s0].append(s)
        n.acc[n.build(sre.parse(rx), s)] = name
    return n, n.close({s0})


def read_dfa(tree, name, code):
    """code: C statements that print, with the generated scanner linked in, lines 'state ch next' and 'attr state value'"""
    c = os.path.join(tree.dir, name + "_dump.c")
    exe = os.path.join(tree.dir, name + "_dump")
    open(c, "w").write(code)
    r = subprocess.run(["gcc", "-w", "-I", tree.src, "-o", exe, c, os.path.join(tree.src, name + ".c")], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-1500:])
    out = subprocess.run([exe], capture_output=True, text=True, timeout=60).stdout
    nxt, attr = {}, {}
    for l in out.splitlines():
        p = l.split()
        if p[0] == "attr":
            attr[int(p[1])] = p[2]
        else:
            nxt[int(p[0]), int(p[1])] = int(p[2])
    return nxt, attr


def compare(nxt, attr, specs, classes=None, default=None, stop=False):
    """-> (None or (word, got, wanted), number of product states)"""
    n, s0 = nfa(specs)
    # characters that behave alike everywhere
    states = sorted({s for s, _ in nxt})
    sets = [cs for es in n.edges for cs, _ in es]
    groups = {}
    for ch in range(1, 256):
        key = (tuple(nxt.get((s, ch), -1) for s in states), tuple(ch in cs for cs in sets))
        groups.setdefault(key, ch)
    reps = sorted(groups.values())
    seen = {(0, s0): b""}
    q = deque(seen)
    while q:
        cur = q.popleft()
        d, ss = cur
        w = seen[cur]
        want = [n.acc[s] for s in ss if s in n.acc]
        got = attr.get(d, default) if d >= 0 else default
        if len(set(want)) > 1:
            raise ValueError("ambiguous specification on %r: %s" % (w, want))
        wanted = want[0] if want else default
        if got != wanted:
            return (w, got, wanted), len(seen)
        if stop and want:
            continue
        for ch in reps:
            d2 = nxt.get((d, ch), -1) if d >= 0 else -1
            s2 = n.step(ss, ch)
            if d2 < 0 and not s2:
                continue
            k = (d2, s2)
            if k not in seen:
                seen[k] = w + bytes([ch])
                q.append(k)
    return None, len(seen)
