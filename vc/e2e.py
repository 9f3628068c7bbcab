"""Bounded end-to-end stand-in: run the program built from the current tree on
generated mail in a scratch directory and compare with a reference written from
the manual page.  Used where a change moves code out of reach of the contracts;
never counted as proof."""
import calendar
import os
import random
import re
import shutil
import signal
import subprocess
import time

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


class Fail(Exception):
    pass


def words(s):
    return {w.lower() for w in re.findall(r"[A-Za-z0-9_]+", s)}


def addr_words(s):
    return {w.lower() for w in re.findall(r"[A-Za-z0-9_+\-.@]+", s)}


def rfcdate(t):
    g = time.gmtime(t)
    return "%s, %d %s %d %02d:%02d:%02d +0000" % (DAYS[g.tm_wday], g.tm_mday, MONS[g.tm_mon - 1], g.tm_year, g.tm_hour, g.tm_min, g.tm_sec)


class Msg:
    """one message and what the manual says is indexed for it"""
    def __init__(self, to="", cc="", frm="", subject="", body="", msgid=None, irt=None, refs=(), date=None, atts=(), flags="", html=None, extra=""):
        self.to, self.cc, self.frm, self.subject, self.body = to, cc, frm, subject, body
        self.msgid, self.irt, self.refs, self.date = msgid, irt, list(refs), date
        self.atts, self.flags, self.html, self.extra = list(atts), flags, html, extra
        self.inner = False      # holds separator lines inside a MIME part: stored as they are
        self.more = []          # further To and Cc headers
        self.where = None       # what raw output prints for it
        self.file = None
        self.size = None

    def render(self):
        h = []
        if self.to:
            h.append("To: " + self.to)
        if self.cc:
            h.append("Cc: " + self.cc)
        k = len(self.more) // 2
        h += ["%s: %s" % x for x in self.more[:k]]
        if self.frm:
            h.append("From: " + self.frm)
        if self.subject:
            h.append("Subject: " + self.subject)
        if self.msgid:
            h.append("Message-ID: <%s>" % self.msgid)
        if self.irt:
            h.append("In-Reply-To: <%s>" % self.irt)
        if self.refs:
            h.append("References: " + " ".join("<%s>" % r for r in self.refs))
        if self.date is not None:
            h.append("Date: " + rfcdate(self.date))
        h += ["%s: %s" % x for x in self.more[k:]]
        if self.extra:
            h.append(self.extra)
        if not self.atts and self.html is None:
            return ("\n".join(h) + "\n\n" + self.body + "\n").encode("latin1")
        b = "=_bnd_x"
        h += ["MIME-Version: 1.0", 'Content-Type: multipart/mixed; boundary="%s"' % b]
        parts = ["Content-Type: text/plain; charset=us-ascii\n\n" + self.body + "\n"]
        if self.html is not None:
            parts.append("Content-Type: text/html\n\n" + self.html + "\n")
        for name, data in self.atts:
            parts.append('Content-Type: application/octet-stream; name="%s"\nContent-Disposition: attachment; filename="%s"\n\n%s\n' % (name, name, data))
        return ("\n".join(h) + "\n\n" + "".join("--%s\n%s" % (b, p) for p in parts) + "--%s--\n" % b).encode("latin1")

    def index(self):
        d = {}
        for k, v in (("t", self.to), ("c", self.cc), ("f", self.frm)):
            d[k] = words(v) | addr_words(v)
            for n, x in self.more:
                if n.lower()[0] == k:
                    d[k] |= words(x) | addr_words(x)
        d["s"] = words(self.subject)
        d["b"] = words(self.body)
        if self.html is not None:
            d["b"] |= words(re.sub(r"<[^>]*>", " ", self.html))
        d["n"] = {n.lower() for n, _ in self.atts}
        return d

    def ids(self):
        return {x.lower() for x in ([self.msgid] if self.msgid else []) + ([self.irt] if self.irt else []) + self.refs}


def fuzzy(pat, word, k):
    """some substring of word is within k insertions, deletions or substitutions of pat"""
    prev = [0] * (len(word) + 1)
    if k >= len(pat):
        return True
    for i in range(1, len(pat) + 1):
        cur = [i]
        for j in range(1, len(word) + 1):
            cur.append(min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (pat[i - 1] != word[j - 1])))
        prev = cur
    return min(prev) <= k


KEYS = {"b": "b", "s": "s", "t": "t", "c": "c", "f": "f", "r": "tc", "a": "tcf", "p": "p", "n": "n"}


def term(m, parts, w):
    neg = w.startswith("~")
    if neg:
        w = w[1:]
    anch = w.startswith("^")
    if anch:
        w = w[1:]
    x = re.fullmatch(r"([^=]*)=(\d*)", w)
    ix = m.index()
    hit = False
    for p in parts:
        if p == "p":
            pt = m.path
            if x:
                hit |= pt.startswith(x.group(1)) if anch else fuzzy(x.group(1), pt, int(x.group(2) or 0))
            else:
                hit |= pt.startswith(w) if anch else w in pt
        elif x:
            pat, k = x.group(1).lower(), int(x.group(2) or 0)
            hit |= any((t.startswith(pat) if anch else fuzzy(pat, t, k)) for t in ix[p])
        else:
            hit |= w.lower() in ix[p]
    return hit != neg


def matches(m, arg, now=None):
    """does message m satisfy one argument (word, substring, boolean syntax of the manual; m: F: z:)"""
    if ":" in arg:
        keys, rest = arg.split(":", 1)
    else:
        keys, rest = "bstcf", arg
    if keys == "m":
        return m.msgid is not None and m.msgid.lower() == rest.lower()
    if keys == "F":
        ok = True
        neg = False
        for ch in rest:
            if ch == "-":
                neg = True
                continue
            ok &= ({"s": "S", "r": "R", "f": "F"}[ch.lower()] in m.flags) != neg
            neg = False
        return ok
    if keys == "z":
        def num(s):
            mul = {"k": 1024, "K": 1024, "m": 1 << 20, "M": 1 << 20}.get(s[-1:], 1)
            return int(s.rstrip("kKmM")) * mul
        if "-" in rest:
            a, b = rest.split("-", 1)
            return (not a or m.size >= num(a)) and (not b or m.size <= num(b))
        return m.size <= num(rest)
    parts = [p for k in keys for p in KEYS[k]]
    return any(all(term(m, parts, re.sub(r"\s", "", w)) for w in alt.split(",")) for alt in rest.split("/"))


NOBODY = 65534
_uid = []


def plain_user(tree):
    """the program is run as an unprivileged user that owns nothing, so that nothing outside the scratch directory is in its reach"""
    if not _uid:
        os.umask(0)
        os.chmod(tree.dir, 0o755)
        try:
            subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
            _uid.append(dict(user=NOBODY, group=NOBODY, extra_groups=[]))
        except (OSError, subprocess.SubprocessError, PermissionError):
            _uid.append({})
    return _uid[0]


class World:
    def __init__(self, tree, name, rc=""):
        self.tree = tree
        self.as_user = plain_user(tree)
        self.exe = tree.mairix()
        self.dir = os.path.join(tree.dir, "w." + name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.base = os.path.join(self.dir, "mail")
        os.makedirs(self.base)
        self.db = os.path.join(self.dir, "db")
        self.mf = os.path.join(self.base, "vf")
        self.rc = os.path.join(self.dir, "rc")
        self.rcextra = rc
        self.maildirs, self.mhs, self.mboxen = [], [], []
        self.seq = 0
        self.log = []
        self.env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": self.dir}
        self.write_rc()

    def write_rc(self, **kw):
        with open(self.rc, "w") as f:
            f.write("base=%s\n" % self.base)
            if self.maildirs:
                f.write("maildir=%s\n" % ":".join(self.maildirs))
            if self.mhs:
                f.write("mh=%s\n" % ":".join(self.mhs))
            if self.mboxen:
                f.write("mbox=%s\n" % ":".join(self.mboxen))
            f.write("mfolder=vf\ndatabase=%s\n%s" % (self.db, self.rcextra))

    def run(self, *args, timeout=60, ok=(0,), env=None):
        """run the program; a signal, a hang or an unexpected status is a failure"""
        cmd = [self.exe, "-f", self.rc] + list(args)
        self.log.append(" ".join(args))
        try:
            r = subprocess.run(cmd, cwd=self.dir, env=dict(self.env, **(env or {})), stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, **self.as_user)
        except subprocess.TimeoutExpired:
            raise Fail("mairix %s does not finish within %d s" % (" ".join(args), timeout))
        self.out, self.err, self.st = r.stdout.decode("latin1"), r.stderr.decode("latin1"), r.returncode
        if r.returncode < 0:
            raise Fail("mairix %s is killed by signal %d (%s)" % (" ".join(args), -r.returncode, self.err[-300:].strip()))
        if ok is not None and r.returncode not in ok:
            raise Fail("mairix %s exits with status %d (%s)" % (" ".join(args), r.returncode, self.err[-300:].strip()))
        return self.out

    def index(self, *args, **kw):
        return self.run(*args, **kw)

    def raw(self, *args, opts=(), ok=(0, 1)):
        out = self.run("-r", *(list(opts) + list(args)), ok=ok)
        return [l for l in out.split("\n") if l]

    # ---- folders
    def add_maildir(self, name):
        for s in ("cur", "new", "tmp"):
            os.makedirs(os.path.join(self.base, name, s), exist_ok=True)
        self.maildirs.append(name)
        self.write_rc()

    def add_mh(self, name):
        os.makedirs(os.path.join(self.base, name), exist_ok=True)
        open(os.path.join(self.base, name, ".mh_sequences"), "w").close()
        self.mhs.append(name)
        self.write_rc()

    def put(self, path, data, mtime=None):
        with open(path, "wb") as f:
            f.write(data)
        if mtime is not None:
            os.utime(path, (mtime, mtime))

    def put_maildir(self, folder, m, new=False, name=None, mtime=None):
        self.seq += 1
        n = name or "%d.%s%d.host" % (1000000 + self.seq, "M", self.seq)
        if not new:
            n += ":2," + "".join(c for c in "FRS" if c in m.flags)
        m.file = os.path.join(self.base, folder, "new" if new else "cur", n)
        d = m.render()
        self.put(m.file, d, mtime)
        m.size, m.where, m.path = len(d), m.file, m.file
        return m

    def put_mh(self, folder, m, num=None, mtime=None):
        self.seq += 1
        m.file = os.path.join(self.base, folder, str(num or self.seq))
        d = m.render()
        self.put(m.file, d, mtime)
        m.size, m.where, m.path = len(d), m.file, m.file
        return m

    def put_mbox(self, name, msgs):
        """(re)write an mbox; each message's position is what raw output must show"""
        p = os.path.join(self.base, name)
        if name not in self.mboxen:
            self.mboxen.append(name)
            self.write_rc()
        out = b""
        for m in msgs:
            out += b"From a@b.c Thu Jan  1 00:00:00 2004\n"
            d = m.render()
            if not m.inner:
                d = re.sub(rb"(?m)^From ", b">From ", d)
            m.size = len(d) + 1
            m.where = "mbox:%s [%d,%d)" % (p, len(out), len(out) + len(d) + 1)
            m.path = p
            m.file = None
            out += d + b"\n"
        self.put(p, out)
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def threads(msgs):
    """sets of messages connected by shared message-ids"""
    par = list(range(len(msgs)))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    seen = {}
    for i, m in enumerate(msgs):
        for t in m.ids():
            if t in seen:
                par[find(i)] = find(seen[t])
            else:
                seen[t] = i
    g = {}
    for i, m in enumerate(msgs):
        g.setdefault(find(i), []).append(m)
    return list(g.values())


class Case:
    """bookkeeping for one e2e driver"""
    def __init__(self, name, rule):
        self.name, self.rule = name, rule
        self.cases = self.distinct = 0
        self.samples = []
        self.known = []
        self.t0 = time.time()

    def case(self, desc, nontrivial=True):
        self.cases += 1
        if nontrivial:
            self.distinct += 1
        if len(self.samples) < 6 and nontrivial:
            self.samples.append(desc[:300])

    def result(self, status="ok", msg="", out=""):
        return dict(name=self.name, rule=self.rule, status=status, msg=msg, out=(msg + "\n" + out) if msg else "", cases=self.cases, distinct=self.distinct,
                    samples=self.samples, known=self.known, secs=time.time() - self.t0)


def driver(name, rule):
    """decorator: turn gen(case, tree, rng, tier) into an e2e callable"""
    def deco(gen):
        def f(tree, seed, tier):
            c = Case(name, rule)
            try:
                gen(c, tree, random.Random(seed * 7919 + hash_name(name)), tier)
            except Fail as e:
                return c.result("fail", str(e))
            return c.result()
        f.__name__ = name
        return f
    return deco


def hash_name(n):
    return sum((i + 1) * ord(ch) for i, ch in enumerate(n))


def expect(w, case, args, want, opts=(), what="search"):
    """raw search output must be exactly the messages in want"""
    got = w.raw(*args, opts=opts)
    ww = sorted(m.where for m in want)
    case.case("%s %s -> %d hits" % (" ".join(opts), " ".join(args), len(ww)), bool(ww))
    if sorted(got) != ww:
        miss = [x for x in ww if x not in got]
        extra = [x for x in got if x not in ww]
        dup = [x for x in set(got) if got.count(x) > 1]
        info = ""
        for x in (miss + extra)[:1]:
            for m in getattr(w, "msgs", []):
                if m.where == x:
                    info = "; message: %r" % m.render()[:600]
        raise Fail("%s: mairix %s -r %s: missing %s, unexpected %s, repeated %s%s" % (what, " ".join(opts), " ".join(args), [os.path.relpath(x, w.base) if x[0] == "/" else x for x in miss[:3]],
                   [os.path.relpath(x, w.base) if x[0] == "/" else x for x in extra[:3]], dup[:2], info))
    if (w.st == 0) != bool(ww):
        raise Fail("%s: %s: exit status %d with %d matches" % (what, " ".join(args), w.st, len(ww)))
