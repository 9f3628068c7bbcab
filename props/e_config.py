"""bounded end-to-end drivers: folder lists, locking, match folders, damaged input"""
import os
import re
import shutil
import signal
import stat
import subprocess
import time
from vc.e2e import World, Msg, driver, expect, Fail, matches

MARKS = [".xmhcache", ".mh_sequences", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta", "summary", ".mew-summary", "index"]
NAMES = ["a", "b", "ab", "a.b", "foo", "foo1", "bar", "x y", "c:d", "zz", "12", "Foo"]


def glob_re(p, deep=False):
    """regular expression for a glob pattern of the manual"""
    o, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "*":
            if p[i:i + 2] == "**":
                o += ".*"
                i += 1
            else:
                o += "[^/]*"
        elif c == "?":
            o += "."
        elif c == "[":
            j = p.index("]", i + 2)
            o += "[" + "".join("\\" + x if x in "\\]^[" else x for x in p[i + 1:j]) + "]"
            i = j
        else:
            o += re.escape(c)
        i += 1
    return re.compile(o, re.S)


def esc(s):
    return s.replace(":", "\\:")


class Store(World):
    def grow(self, r):
        """random directories with folders of every kind, and near misses"""
        self.nmsg = 0
        self.msgs = []
        self.where = {}        # absolute folder path -> messages
        self.links = []
        self.near = []         # directories that are almost folders
        self.nested = []       # (maildir or near maildir, folder inside its new, cur or tmp)
        self.r = r

        def msg():
            self.nmsg += 1
            return Msg(to="t%d@x.y" % self.nmsg, frm="f@x", subject="subj%d" % self.nmsg, body="common word%d" % self.nmsg, date=1000000000 + self.nmsg * 7, msgid="i%d@x" % self.nmsg)

        def put(path, m):
            d = m.render()
            self.put(path, d)
            m.where = m.path = path
            m.size = len(d)
            return m

        def fill(d, depth):
            kind = r.choice(["dir", "maildir", "maildir", "mh", "mh", "nearmd", "dir"])
            if depth == 0:
                kind = "dir"
            if kind in ("maildir", "nearmd"):
                subs = ["new", "cur", "tmp"]
                if kind == "nearmd":
                    subs.remove(r.choice(subs))
                for s in subs:
                    os.makedirs(os.path.join(d, s))
                ms = []
                for s in ("new", "cur"):
                    if s in subs:
                        for k in range(r.randrange(3)):
                            ms.append(put(os.path.join(d, s, r.choice(["", ".", "9"]) + "m%d" % self.nmsg + (":2,S" if s == "cur" else "")), msg()))
                if kind == "maildir":
                    self.where[("maildir", d)] = ms
                else:
                    self.near.append(("maildir", d))
                if r.random() < .3:
                    # a folder inside new, cur or tmp is not a folder
                    q = os.path.join(d, r.choice(subs), r.choice(NAMES))
                    if not os.path.exists(q):
                        for s in ("new", "cur", "tmp"):
                            os.makedirs(os.path.join(q, s))
                        ms = [put(os.path.join(q, r.choice(["new", "cur"]), "m%d" % self.nmsg), msg())]
                        self.where[("maildir", q)] = ms
                        self.nested.append((d, q))
            elif kind == "mh":
                ms = [put(os.path.join(d, "%d" % (k + 1) + r.choice(["", "", "."])), msg()) for k in range(r.randrange(1, 4))]
                for nm in r.sample(["3a", "x7", "1..", "4.5", ",5"], 2):
                    put(os.path.join(d, nm), msg())
                if r.random() < .8:
                    self.put(os.path.join(d, r.choice(MARKS)), b"x")
                    self.where[("mh", d)] = ms
                else:
                    self.near.append(("mh", d))
            for nm in r.sample(NAMES, r.randrange(1, 5) if depth < 3 else 1):
                p = os.path.join(d, nm)
                if r.random() < .45 and depth:
                    if nm == "12" and kind == "mh":
                        continue
                    if os.path.exists(p):
                        continue
                    ms = [msg() for _ in range(r.randrange(1, 3))]
                    self.put_mbox(os.path.relpath(p, self.base), ms)
                    self.where[("mbox", p)] = ms
                    if r.random() < .4:
                        q = os.path.join(d, r.choice(["lnk_", "a", "z"]) + nm)
                        if os.path.lexists(q):
                            continue
                        os.symlink(p, q)
                        self.links.append(q)
                elif depth < 3 and not os.path.exists(p):
                    os.mkdir(p)
                    fill(p, depth + 1)
        fill(self.base, 0)
        # other plain files a deep mbox listing will see as mboxes too
        self.mboxen = []

    def is_folder(self, kind, p):
        if kind == "maildir":
            return os.path.isdir(p) and all(os.path.isdir(os.path.join(p, s)) for s in ("new", "cur", "tmp"))
        if kind == "mh":
            return os.path.isdir(p) and any(os.path.isfile(os.path.join(p, s)) for s in MARKS)
        return os.path.isfile(p)

    def listed(self, kind, entry):
        """absolute paths of the folders an entry names (a list: repetitions count)"""
        deep = entry.endswith("...") and len(entry) > 3
        e = entry[:-3] if deep else entry
        full = e if e.startswith("/") else self.base + "/" + e
        par, last = full.rsplit("/", 1)
        if re.search(r"[*?\[]", last):
            rx = glob_re(last)
            try:
                tops = [par + "/" + n for n in os.listdir(par) if rx.fullmatch(n)]
            except OSError:
                tops = []
        else:
            tops = [full] if os.path.exists(full) else []
        out = []

        def walk(p):
            hit = self.is_folder(kind, p)
            if hit:
                out.append(p)
            if deep and os.path.isdir(p):
                for n in os.listdir(p):
                    if kind == "maildir" and hit and n in ("new", "cur", "tmp"):
                        continue
                    if kind == "mh" and re.fullmatch(r"\d+\.?", n):
                        continue
                    walk(p + "/" + n)
        for t in tops:
            walk(t)
        return out

    def clean_boxes(self):
        pass


@driver("folder lists", "random directory trees of maildir, MH and mbox folders with near misses, random folder lists (exact, wildcard, '...', absolute, escaped colons, several lines, environment, MAIRIX_ variables), omit lists; non-trivial = cases that list at least one folder")
def folders_e2e(c, tree, r, tier):
    for rnd in range(250 if tier == "quick" else 2500):
        w = Store(tree, "folders")
        w.grow(r)
        dirs = [os.path.relpath(d, w.base) for d, _, _ in os.walk(w.base)]
        lines, want, maybe = {}, [], []
        follow = r.random() < .4
        # omit patterns
        omit = []
        allp = [os.path.relpath(p, w.base) for (k, p) in w.where]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            p = r.choice(allp or ["a"])
            x = r.randrange(8)
            if x == 0:
                q = p
            elif x == 1:
                q = p[:-1] + "?"
            elif x == 2:
                q = os.path.dirname(p) + "/*" if "/" in p else "*"
            elif x == 3:
                q = "**" + p[-2:]
            elif x == 4:
                q = p[:len(p) // 2] + "**"
            elif x == 5:
                q = "*" + os.path.basename(p)
            elif x == 6:
                q = p.split("/")[0] + "/*/" + os.path.basename(p)
            else:
                q = p[:-1] + "[%s-%s]" % ((p[-1], chr(ord(p[-1]) + 1)) if p[-1].isalnum() else ("a", "z"))
            if len(q) < 29:
                omit.append(q)
        rx = [glob_re(q) for q in omit]
        om = lambda p: any(x.fullmatch(p) for x in rx)
        env = {}
        spec = {"maildir": [], "mh": [], "mbox": []}
        seen = set()
        for kind in spec:
            for _ in range(r.randrange(4)):
                cand = [p for (k, p) in w.where if k == kind] + ([q for q in w.links] if kind == "mbox" else [])
                if r.random() < .3:
                    cand = [p for (k, p) in w.near if k == kind] or cand
                elif kind == "mbox" and r.random() < .4:
                    cand = w.links or cand
                rel = os.path.relpath(r.choice(cand), w.base) if cand and r.random() < .8 else r.choice(dirs)
                if rel == ".":
                    rel = r.choice(NAMES)
                x = r.randrange(7)
                e = rel
                if x == 1:
                    e = os.path.join(os.path.dirname(rel), "*")
                elif x == 2:
                    b = os.path.basename(rel)
                    k = r.randrange(len(b))
                    e = os.path.join(os.path.dirname(rel), r.choice([b[:k] + "?" + b[k + 1:], b[:k] + "*", "*" + b[k:], b[:k] + "[%s-%s]" % ((b[k], chr(ord(b[k]) + 2)) if b[k].isalnum() else ("a", "z")) + b[k + 1:]]))
                if r.random() < .4:
                    e += "..."
                if r.random() < .15:
                    e = w.base + "/" + e
                ls = w.listed(kind, e)
                # several ways to the same folder are refused by the program: keep the lists disjoint
                if len(set(ls)) != len(ls) or any((kind != "mbox", p) in seen for p in ls):
                    continue
                seen |= {(kind != "mbox", p) for p in ls}
                spec[kind].append((e, ls))
                for p in ls:
                    rp = p if e.startswith("/") else os.path.relpath(p, w.base)
                    ancestors = [rp[:i] for i, ch in enumerate(rp) if ch == "/"]
                    sym = kind == "mbox" and os.path.islink(p)
                    ms = w.where.get((kind, os.path.realpath(p)))
                    if ms is None:
                        continue
                    if sym and not follow or om(rp):
                        continue
                    (maybe if any(om(a) for a in ancestors) else want).append((kind, p, ms))
        # both a maildir and an MH listing of the same directory: messages would be listed twice only if names collide
        rc = ["base=" + w.base, "mfolder=vf_out", "database=" + w.db]
        if r.random() < .3:
            env.update(MB=w.base, EMPTY="", TOP=os.path.dirname(w.base))
            rc[0] = r.choice(["base=$MB", "base=${MB}", "base=${TOP}/mail", "base=$TOP/mail", "base=~/mail", "base=$MB$EMPTY", "base=${NOSUCH}$MB"])
            rc[2] = r.choice(["database=~/db", "database=$TOP/db", "database=${TOP}/d${EMPTY}b", rc[2]])
        for kind, es in spec.items():
            es = [esc(e) for e, _ in es]
            if not es:
                continue
            if r.random() < .2 and len(es) > 1:
                k = r.randrange(1, len(es))
                rc += ["%s=%s" % (kind, ":".join(es[:k])), "%s=%s" % (kind, ":".join(es[k:]))]
            elif r.random() < .15:
                env[{"maildir": "MAIRIX_MAILDIR_FOLDERS", "mh": "MAIRIX_MH_FOLDERS", "mbox": "MAIRIX_MBOXEN"}[kind]] = ":".join(es)
                if r.random() < .5:
                    rc.append("%s=nosuchfolder" % kind)
            else:
                rc.append("%s=%s" % (kind, ":".join(es)) + r.choice(["", "", " # comment"])[:0])
        if omit:
            if r.random() < .5:
                rc += ["omit=" + ":".join(esc(q) for q in omit)]
            else:
                rc += ["omit=" + esc(q) for q in omit]
        if follow:
            rc.append("follow_mbox_symlinks")
        if r.random() < .3:
            rc.insert(r.randrange(len(rc)), r.choice(["", "# comment", "   ", "! note = x"]))
        if not any(spec.values()):
            w.close()
            continue
        open(w.rc, "w").write("\n".join(rc) + "\n")
        desc = "; ".join(rc[3:]) + (" env " + str({k: v for k, v in env.items() if k.startswith("MAIRIX")}) if env else "")
        try:
            w.run(env=env)
        except Fail as e:
            # the folders inside an omitted maildir may be listed twice
            if "duplicates" in str(e) and w.nested and omit:
                w.close()
                continue
            raise
        # nothing found at all: no database is written
        out = w.run("-r", "b:common", ok=(0, 1), env=env) if os.path.exists(w.db) else ""
        lines = [x for x in out.split("\n") if x]

        def key(kind, p, m):
            if kind == "mbox":
                return "mbox:" + os.path.realpath(p) + m.where[m.where.rindex(" ["):]
            return os.path.realpath(m.where)

        def norm(l):
            if l.startswith("mbox:"):
                k = l.rindex(" [")
                return "mbox:" + os.path.realpath(l[5:k]) + l[k:]
            return os.path.realpath(l)
        got = [norm(l) for l in lines]
        must = {key(k, p, m) for k, p, ms in want for m in ms}
        may = {key(k, p, m) for k, p, ms in maybe for m in ms}
        # inside the new, cur or tmp of an omitted maildir: either way
        may |= {key("maildir", q, m) for d, q in w.nested if om(os.path.relpath(d, w.base)) or om(d) for m in w.where[("maildir", q)]}
        c.case(desc, bool(must))
        g = set(got)
        # files a deep mbox listing also takes for mboxes are not messages of the store
        known = {key(k, p, m) for (k, p), ms in w.where.items() for m in ms}
        if must - g:
            raise Fail("folders: %s: not indexed: %s (omit %s)" % (desc, sorted(must - g)[:3], omit))
        bad = (g & known) - must - may
        if bad:
            raise Fail("folders: %s: indexed although not listed: %s (omit %s)" % (desc, sorted(bad)[:3], omit))
        stray = [x for x in g - known if not x.startswith("mbox:")]
        if stray:
            raise Fail("folders: %s: not a message of any folder: %s" % (desc, stray[:3]))
        w.close()
    # folders with many messages
    w = World(tree, "many")
    n = r.choice([1100, 2100, 3300, 4500])
    for k in ("md", "mh"):
        (w.add_maildir if k == "md" else w.add_mh)(k)
        for i in range(n):
            w.put(os.path.join(w.base, k, "cur/%d.x:2," % (i + 1) if k == "md" else "%d" % (i + 1)), b"Subject: s%d\n\ncommon\n" % i)
    w.write_rc()
    w.run()
    got = w.raw("b:common")
    c.case("%d messages in each of two folders" % n)
    if len(got) != 2 * n or len(set(got)) != 2 * n:
        raise Fail("folders: %d messages in a maildir and in an MH folder: %d lines, %d different" % (n, len(got), len(set(got))))
    w.close()
    # a pattern of more than 31 elements: known finding
    w = World(tree, "long")
    a, b = "l" * 33 + "x", "l" * 33 + "y"
    for n in (a, b, "q"):
        w.add_maildir(n)
        w.put_maildir(n, Msg(subject="s", body="common", date=1000000000))
    w.maildirs = ["*"]
    w.rcextra = "omit=%s\n" % a
    w.write_rc()
    w.run()
    g = {os.path.relpath(x, w.base).split("/")[0] for x in w.raw("b:common")}
    c.case("omit pattern of 34 characters")
    if g != {b, "q"}:
        c.known.append("omit pattern of 34 elements: indexed %s" % sorted(x[-3:] for x in g))
    w.close()


def snapshot(top, skip=()):
    """every path under top with its type, content, link target and mode"""
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(d, n)
            if any(p == s or p.startswith(s + "/") for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[p] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[p] = ("dir",)
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[p] = ("file", f.read(), st.st_mtime_ns)
            else:
                out[p] = ("other", stat.S_IFMT(st.st_mode))
    return out


def differ(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s: %s, was %s" % (k, str(b.get(k, "gone"))[:120], str(a.get(k, "not there"))[:120])
    return None


def small_world(tree, r, name, n=12, rc="", pad=0):
    w = World(tree, name, rc)
    w.add_maildir("md")
    w.add_maildir("md2")
    w.add_mh("mh")
    w.msgs = []
    boxes = {"box": [], "box2": []}
    for i in range(n):
        fl = "".join(x for x in "FRS" if r.random() < .4)
        m = Msg(to="t%d@x.y" % i, frm="f%d@z" % (i % 3), subject="s%d all" % i, body="all k%d m%d" % (i % 3, i) + r.choice(["", "\n", "\n\n", "\nFrom here"]) + "x" * pad, msgid="i%d@x" % i,
                date=1000000000 + 100000 * r.randrange(1000) + i, flags=fl, irt="i%d@x" % (i - 1) if i % 4 == 1 else None)
        k = i % 5
        if k == 0:
            w.put_maildir("md", m)
        elif k == 1:
            m.flags = ""
            w.put_maildir("md2", m, new=True)
        elif k == 2:
            m.flags = ""
            w.put_mh("mh", m)
        else:
            m.extra = "Status: %sO%s" % ("R" if "S" in fl else "", "\nX-Status: " + "".join({"R": "A", "F": "F"}.get(x, "") for x in fl) if fl else "")
            boxes["box" if k == 3 else "box2"].append(m)
        w.msgs.append(m)
    for b, ms in boxes.items():
        if ms:
            w.put_mbox(b, ms)
    w.boxes = boxes
    return w


def lock_files(w):
    return sorted(f for f in os.listdir(os.path.dirname(w.db)) if f.startswith("db") and f != "db")


@driver("locking", "every way of running the program with the lock free, held by a stopped process, present with odd contents or unreadable, on every kind of exit, after --unlock, and under signals at seeded moments; non-trivial = runs against a held lock or interrupted")
def lock_e2e(c, tree, r, tier):
    w = small_world(tree, r, "lock")
    w.index()
    ops = [(), ("-p",), ("-d",), ("-r", "b:all"), ("b:all",), ("-F",), ("-x", "s:s1"), ("-a", "b:k1"), ("-Q", "-p")]
    lock = w.db + ".lock"
    contents = [b"123,host,user\n", b"", b"\n", b"no newline", b"\0\0\0", b"x" * 5000, os.urandom(60)]
    for op in ops:
        for data, mode in [(contents[0], 0o644), (r.choice(contents[1:]), 0o644), (b"1,h,u\n", 0)]:
            if mode == 0 and not w.as_user:
                continue
            w.put(lock, data)
            os.chmod(lock, mode)
            before = snapshot(w.dir)
            w.run(*op, ok=None)
            c.case("mairix %s with a lock file of %d bytes, mode %o" % (" ".join(op), len(data), mode))
            if w.st == 0 or w.st > 128:
                raise Fail("locking: mairix %s runs (status %d) although the lock file exists (%d bytes, mode %o)" % (" ".join(op), w.st, len(data), mode))
            d = differ(before, snapshot(w.dir))
            if d:
                raise Fail("locking: mairix %s refused to run on a locked database but changed %s" % (" ".join(op), d))
            os.unlink(lock)
    # --unlock
    w.put(lock, b"77777,gone,me\n")
    w.run("--unlock")
    if lock_files(w):
        raise Fail("locking: after mairix --unlock these remain: %s" % lock_files(w))
    w.put(lock, b"77777,gone,me\n")
    w.run("--unlock", "-r", "b:all")
    c.case("--unlock")
    # every exit leaves no lock behind
    ends = [(), ("-p",), ("-d",), ("-r", "b:all"), ("b:nosuchword",), ("-o", "md", "b:all"), ("-r", "d:garbage"), ("-r", "z:x"), ("-r", "F:q"), ("-t", "b:all"), ("-x", "b:all"), ("-o", "/nonexistent/x/y", "b:all"), ("-r", "d:5-3")]
    for e in ends:
        w.run(*e, ok=None)
        c.case("exit of mairix " + " ".join(e), False)
        if lock_files(w):
            raise Fail("locking: mairix %s (status %d) leaves %s behind" % (" ".join(e), w.st, lock_files(w)))
    for rc in ("maildir=nosuch\n", "mbox=box:box\n", "maildir=md:md\n", ""):
        old = open(w.rc).read()
        open(w.rc, "w").write("base=%s\ndatabase=%s\nmfolder=vf\n%s" % (w.base, w.db, rc))
        w.run(ok=None)
        open(w.rc, "w").write(old)
        c.case("exit with " + rc.strip(), False)
        if lock_files(w):
            raise Fail("locking: indexing with '%s' (status %d) leaves %s behind" % (rc.strip(), w.st, lock_files(w)))
    # endings that need another configuration or a damaged database
    full = open(w.rc).read()
    plain = os.path.join(w.dir, "plainfile")
    w.put(plain, b"x")
    good = open(w.db, "rb").read()

    def nodb():
        os.unlink(w.db)

    def dirdb():
        os.unlink(w.db)
        os.mkdir(w.db)

    def put(b, mode=0o644):
        def f():
            w.put(w.db, b)
            os.chmod(w.db, mode)
        return f
    S, I = ("b:all",), ()
    ends = [("no match folder", lambda: w.put(w.rc, re.sub("(?m)^mfolder=.*\n", "", full).encode()), S),
            ("mbox match folder that cannot be written", lambda: w.put(w.rc, (re.sub("(?m)^mfolder=.*\n", "", full) + "mformat=mbox\nmfolder=%s/none/such\n" % w.dir).encode()), S),
            ("MH match folder that cannot be made", lambda: w.put(w.rc, (re.sub("(?m)^mfolder=.*\n", "", full) + "mformat=mh\nmfolder=%s/sub\n" % plain).encode()), S),
            ("mixed key", None, ("-r", "mt:x")), ("mixed key first", None, ("-r", "tm:x")), ("unknown key", None, ("-r", "q:x")),
            ("no database", nodb, S), ("no database for a dump", nodb, ("-d",)), ("directory for a database, indexing", dirdb, I), ("directory for a database, searching", dirdb, S), ("directory for a database, dump", dirdb, ("-d",))]
    for d in (b"", b"x", b"garbage" * 40, good[:3] + b"\0" + good[4:], good[:40]):
        for op in (I, S, ("-d",), ("-p",)):
            ends.append(("database of %d bytes that is none" % len(d), put(d), op))
    if w.as_user:
        for op in (I, S, ("-d",)):
            ends.append(("unreadable database", put(good, 0), op))
        ends.append(("read-only database", put(good, 0o444), I))
        ends.append(("read-only database", put(good, 0o444), S))
    more = os.path.join(w.base, "md", "cur", "extra.h:2,")
    for what, prep, op in ends:
        w.put(more, b"Subject: extra\n\nx\n")
        if prep:
            prep()
        w.run(*op, ok=None)
        c.case("exit of mairix %s: %s" % (" ".join(op), what))
        left = [f for f in lock_files(w) if f != "db"]
        if w.st < 128 and left:
            raise Fail("locking: mairix %s (%s, status %d) leaves %s behind" % (" ".join(op), what, w.st, left))
        for f in left:
            os.unlink(os.path.join(os.path.dirname(w.db), f))
        w.put(w.rc, full.encode())
        if os.path.isdir(w.db):
            os.rmdir(w.db)
        if os.path.exists(w.db):
            os.unlink(w.db)
        w.put(w.db, good)
        os.unlink(more)
    os.rename(w.db, w.db + "x")
    w.run("b:all", ok=None)
    if [f for f in lock_files(w) if f != "dbx"]:
        raise Fail("locking: a search without database leaves %s behind" % lock_files(w))
    os.rename(w.db + "x", w.db)
    w.close()
    # a second run while one holds the lock; signals
    w = small_world(tree, r, "lock2", n=400, pad=20000)
    lock = w.db + ".lock"
    for k in range(6 if tier == "quick" else 30):
        if os.path.exists(w.db) and k % 2 == 0:
            os.unlink(w.db)
        p = subprocess.Popen([w.exe, "-f", w.rc], cwd=w.dir, env=w.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **w.as_user)
        t = time.time()
        while not os.path.exists(lock) and p.poll() is None and time.time() - t < 10:
            pass
        if p.poll() is not None:
            continue
        os.kill(p.pid, signal.SIGSTOP)
        held = os.path.exists(lock) and p.poll() is None
        try:
            if held:
                mine = open(lock, "rb").read()
                for op in [(), ("-r", "b:all")]:
                    w.run(*op, ok=None)
                    c.case("mairix %s while another process holds the lock" % " ".join(op))
                    if w.st == 0:
                        raise Fail("locking: mairix %s runs while another process holds the lock" % " ".join(op))
                    if not os.path.exists(lock) or open(lock, "rb").read() != mine:
                        raise Fail("locking: mairix %s damages the lock of another process" % " ".join(op))
        finally:
            os.kill(p.pid, signal.SIGCONT)
        if k % 3 == 2:
            p.wait(60)
            if p.returncode != 0:
                raise Fail("locking: an indexing run exits with status %d" % p.returncode)
        else:
            time.sleep(r.random() * .03)
            sig = r.choice([signal.SIGINT, signal.SIGHUP, signal.SIGQUIT])
            if p.poll() is None:
                os.kill(p.pid, sig)
            p.wait(60)
            c.case("signal %d during indexing -> status %d" % (sig, p.returncode))
        if os.path.exists(lock):
            raise Fail("locking: the lock file is left behind by a run that ended with status %d" % p.returncode)
    w.run("--unlock")
    g = w.raw("b:all")
    if sorted(g) != sorted(m.where for m in w.msgs):
        raise Fail("locking: after interrupted runs a full run does not index everything")
    w.close()


def spellings(w, r, f):
    p = os.path.join(w.base, f)
    ln = os.path.join(w.dir, "ln%d" % r.randrange(1 << 30))
    os.symlink(p, ln)
    return [f, p, "./" + os.path.relpath(p, w.dir), "md/../" + f, w.base + "/./" + f, w.base + "/md/../" + f, ln] + ([f + "/", p + "/"] if os.path.isdir(p) else [])


@driver("match folder safety", "searches whose match folder is an indexed folder under every spelling (refused, nothing changed), match folders holding foreign entries in every format, sequences of searches with and without -a; the whole mail store is compared before and after; non-trivial = every run")
def mfolder_e2e(c, tree, r, tier):
    for rnd in range(3 if tier == "quick" else 20):
        w = small_world(tree, r, "mfs", n=15)
        w.index()
        variants = [None]
        os.makedirs(os.path.join(w.base, "deep/er/cur"))
        os.makedirs(os.path.join(w.base, "deep/er/new"))
        os.makedirs(os.path.join(w.base, "deep/er/tmp"))
        base_rc = open(w.rc).read()
        extra = ["", "maildir=deep...\n", "mbox=bo[a-z]*\n" if rnd % 2 else ""]
        for fmt in ("maildir", "mh", "mbox"):
            for f in ("md", "md2", "mh", "box", "box2", "deep/er"):
                for sp in spellings(w, r, f):
                    if f == "deep/er":
                        rc = re.sub(r"maildir=.*\n", "maildir=deep...:md:md2\n", base_rc)
                    elif f.startswith("box") and r.random() < .4:
                        rc = re.sub(r"mbox=.*\n", "mbox=b*\n", base_rc)
                    elif f.startswith("md") and r.random() < .4:
                        rc = re.sub(r"maildir=.*\n", r.choice(["maildir=md*\n", "maildir=m[a-f]...:md2\n"]), base_rc)
                    else:
                        rc = base_rc
                    rc = re.sub(r"mfolder=.*\n", "mfolder=%s\nmformat=%s\n" % ("zzz" if r.random() < .5 else sp, fmt), rc)
                    useo = "mfolder=zzz" in rc
                    open(w.rc, "w").write(rc)
                    before = snapshot(w.base)
                    w.run(*((["-o", sp] if useo else []) + r.choice([["b:all"], ["-a", "b:all"], ["-t", "b:k1"]])), ok=None)
                    c.case("%s results to indexed folder %s as %s" % (fmt, f, sp))
                    d = differ(before, snapshot(w.base))
                    if d:
                        raise Fail("match folder: %s results to indexed folder %s (spelt %s) changed the mail: %s" % (fmt, f, sp, d))
                    if w.st == 0:
                        raise Fail("match folder: %s results to indexed folder %s (spelt %s) are not refused" % (fmt, f, sp))
        # foreign entries in the match folder
        for fmt in ("maildir", "mh", "mbox", "raw", "excerpt"):
            open(w.rc, "w").write(base_rc + "mformat=%s\n" % fmt)
            mf = os.path.join(w.base, "vf")
            if os.path.lexists(mf):
                shutil.rmtree(mf) if os.path.isdir(mf) and not os.path.islink(mf) else os.unlink(mf)
            outside = os.path.join(w.dir, "outside.txt")
            w.put(outside, b"precious\n")
            keep, go = [], []
            if fmt in ("maildir", "raw", "excerpt"):
                for s in ("new", "cur", "tmp"):
                    os.makedirs(os.path.join(mf, s))
                for s in ("new", "cur", "tmp", "."):
                    p = os.path.normpath(os.path.join(mf, s))
                    gone = fmt == "maildir" and s in ("new", "cur")
                    w.put(os.path.join(p, "old1"), b"x")
                    os.symlink(outside, os.path.join(p, "old2"))
                    os.symlink(w.msgs[0].file, os.path.join(p, "123456789.77.mairix:2,S"))
                    os.mkdir(os.path.join(p, "subdir"))
                    w.put(os.path.join(p, "subdir", "f"), b"y")
                    os.mkfifo(os.path.join(p, "fifo"))
                    (go if gone else keep).extend(os.path.join(p, x) for x in ("old1", "old2", "123456789.77.mairix:2,S"))
                    keep += [os.path.join(p, x) for x in ("subdir", "subdir/f", "fifo")]
            elif fmt == "mh":
                os.makedirs(mf)
                for n in ("7", "8.", "007", "12345"):
                    w.put(os.path.join(mf, n), b"x")
                    go.append(os.path.join(mf, n))
                os.symlink(w.msgs[0].file, os.path.join(mf, "9"))
                os.symlink(outside, os.path.join(mf, "10"))
                go += [os.path.join(mf, "9"), os.path.join(mf, "10")]
                for n in ("abc", "12x", "x12", ",5", ".mh_sequences", "1..", "4.5", ".", "-3"):
                    if n != ".":
                        w.put(os.path.join(mf, n), b"x")
                        keep.append(os.path.join(mf, n))
                os.mkdir(os.path.join(mf, "55"))
                w.put(os.path.join(mf, "55", "1"), b"z")
                keep += [os.path.join(mf, "55"), os.path.join(mf, "55", "1")]
                os.mkdir(os.path.join(mf, "sub"))
                w.put(os.path.join(mf, "sub", "3"), b"z")
                keep += [os.path.join(mf, "sub", "3")]
            for aug in (True, False):
                before = snapshot(w.dir)
                inn = {k: v for k, v in before.items() if k == mf or k.startswith(mf + "/")}
                w.run(*(["-a"] if aug else []), "b:k1", ok=(0, 1))
                c.case("%s match folder with foreign entries, %s" % (fmt, "-a" if aug else "cleared"))
                after = snapshot(w.dir)
                out0 = {k: v for k, v in before.items() if not (k == mf or k.startswith(mf + "/"))}
                out1 = {k: v for k, v in after.items() if not (k == mf or k.startswith(mf + "/"))}
                d = differ(out0, out1)
                if d:
                    raise Fail("match folder: a search with %s results changed something outside the match folder: %s" % (fmt, d))
                for k in keep + (go if aug else []):
                    if after.get(k) != before.get(k) or k not in before:
                        raise Fail("match folder: a %s search %s a foreign entry: %s is %s, was %s" % (fmt, "with -a loses" if aug else "destroys", k, after.get(k, "gone"), before.get(k)))
                if not aug and fmt in ("maildir", "mh"):
                    for k in go:
                        if k in after and (after[k] == before.get(k)) and not (fmt == "mh" and int(os.path.basename(k).rstrip(".")) < 10):
                            raise Fail("match folder: %s from an earlier search is still there after a new %s search" % (k, fmt))
        # sequences of searches: mail never changes
        open(w.rc, "w").write(base_rc)
        before = snapshot(w.base, skip=[os.path.join(w.base, x) for x in ("o_maildir", "o_mh", "o_mbox", "vf")])
        for k in range(25):
            fmt = r.choice(["maildir", "mh", "mbox"])
            open(w.rc, "w").write(base_rc + "mformat=%s\n" % fmt)
            q = r.choice(["b:all", "b:k0", "b:k1", "b:k2", "s:s3", "s:s4", "f:f1", "m:i7@x", "b:nosuch"])
            w.run(*(["-a"] if r.random() < .7 else []), *(["-t"] if r.random() < .2 else []), *(["-H"] if r.random() < .2 else []), "-o", "o_" + fmt, q, ok=(0, 1))
            c.case("%s %s" % (fmt, w.log[-1]))
            d = differ(before, snapshot(w.base, skip=[os.path.join(w.base, x) for x in ("o_maildir", "o_mh", "o_mbox", "vf")]))
            if d:
                raise Fail("match folder: a sequence of searches (%s) changed the mail: %s" % ("; ".join(w.log[-k - 1:]), d))
        w.close()


FROMLINE = b"From mairix@mairix Mon Jan  1 12:34:56 1970\n"


def as_stored(w, m):
    """bytes of the message as they lie in its folder"""
    if m.file:
        return open(m.file, "rb").read()
    k = m.where.rindex(" [")
    a, b = map(int, m.where[k + 2:-1].split(","))
    import gzip
    data = open(m.where[5:k], "rb").read()
    if data[:2] == b"\x1f\x8b":
        data = gzip.decompress(data)
    return data[a:b]


def terminated(d):
    if len(d) == 0:
        return b"\n"
    if len(d) == 1:
        return d if d == b"\n" else d + b"\n"
    if d[-1:] != b"\n":
        return d + b"\n\n"
    return d if d[-2:-1] == b"\n" else d + b"\n"


def mbox_entry(w, m):
    src = m.file or m.path
    return FROMLINE + b"X-source-folder: " + src.encode("latin1") + b"\n" + terminated(as_stored(w, m))


def copied(w, m):
    d = as_stored(w, m)
    return b"X-source-folder: " + m.path.encode("latin1") + b"\n" + d[:-1]


def check_entry(w, p, m, hard, what):
    """p in the match folder stands for message m"""
    if m.file:
        if hard:
            if os.path.islink(p) or os.lstat(p).st_ino != os.lstat(m.file).st_ino:
                raise Fail("%s: %s is not a hard link to %s" % (what, p, m.file))
        elif not os.path.islink(p) or os.readlink(p) != m.file:
            raise Fail("%s: %s is not a symbolic link to %s" % (what, p, m.file))
    else:
        if os.path.islink(p) or open(p, "rb").read() != copied(w, m):
            raise Fail("%s: %s is not a copy of %s: %r, should be %r" % (what, p, m.where, open(p, "rb").read()[:300], copied(w, m)[:300]))


def owner(w, p, hard=False):
    """the message an entry of a match folder stands for"""
    if os.path.islink(p):
        t = os.readlink(p)
        return next((m for m in w.msgs if m.file == t), None)
    ino = os.lstat(p).st_ino
    for m in w.msgs:
        if hard and m.file and os.lstat(m.file).st_ino == ino:
            return m
    d = open(p, "rb").read()
    return next((m for m in w.msgs if not m.file and copied(w, m) == d), None)


@driver("results", "maildir, MH, mbox, raw and excerpt results of searches over maildir (new and cur, every flag set), MH, plain and compressed mbox messages, sorted and not, -a sequences, -H, stale mboxes; every byte and link of the match folder compared; non-trivial = searches with hits")
def results_e2e(c, tree, r, tier):
    import gzip
    for rnd in range(6 if tier == "quick" else 50):
        w = small_world(tree, r, "res", n=r.choice([5, 18, 40]))
        if rnd % 2:
            # one mbox compressed
            p = os.path.join(w.base, "box2")
            if os.path.exists(p):
                d = open(p, "rb").read()
                os.unlink(p)
                w.put(p + ".gz", gzip.compress(d))
                w.mboxen = [x if x != "box2" else "box2.gz" for x in w.mboxen]
                for m in w.boxes["box2"]:
                    m.where = m.where.replace("box2 [", "box2.gz [")
                    m.path += ".gz"
        # message endings of every kind
        for i, tail in enumerate([b"", b"x", b"\n", b"x\n", b"\n\n", b"\n\n\n"]):
            m = Msg(subject="tail%d all" % i, body="", date=1000116000 + i)
            w.put_mh("mh", m)
            w.put(m.file, b"Subject: tail%d all\nDate: %s\n\nall k1" % (i, b"Mon, 10 Sep 2001 10:00:0%d +0000" % i) + tail)
            m.body = "all k1"
            w.msgs.append(m)
        w.write_rc()
        base_rc = open(w.rc).read()
        w.index()
        for q in ["b:all", "b:k0", "b:k1", "b:nosuch", "s:s%d" % r.randrange(20), "f:f1", "~f:f1"][: 5 if rnd else 7]:
            opts = (["-t"] if r.random() < .3 else [])
            srt = r.random() < .4
            rc = base_rc + ("sort=date+\n" if srt else "")
            open(w.rc, "w").write(rc)
            order = w.raw(q, opts=opts)
            by = {m.where: m for m in w.msgs}
            hits = [by.get(x) for x in order]
            if None in hits:
                raise Fail("results: raw output of %s names %s, which is no message" % (q, order[hits.index(None)]))
            if q == "b:all" and not opts and len(hits) != len(w.msgs):
                raise Fail("results: %s finds %d of %d messages" % (q, len(hits), len(w.msgs)))
            for fmt in ("maildir", "mh", "mbox", "excerpt"):
                hard = fmt != "mbox" and r.random() < .25
                open(w.rc, "w").write(rc + "mformat=%s\n" % fmt)
                mf = os.path.join(w.base, "vf" + fmt)
                what = "results: %s %s%s of %s" % (fmt, "sorted " if srt else "", " ".join(opts + (["-H"] if hard else [])), q)
                out = w.run(*opts, *(["-H"] if hard else []), "-o", "vf" + fmt, q, ok=(0, 1))
                c.case(what, bool(hits))
                if (w.st == 0) != bool(hits):
                    raise Fail("%s: status %d with %d hits" % (what, w.st, len(hits)))
                if fmt != "excerpt" and "Matched %d messages" % len(hits) not in out:
                    raise Fail("%s: says %r, %d messages match" % (what, out.strip(), len(hits)))
                if fmt == "mbox":
                    got = open(mf, "rb").read() if os.path.exists(mf) else b""
                    want = b"".join(mbox_entry(w, m) for m in hits)
                    if got != want:
                        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                        raise Fail("%s: mbox differs from the expected one at byte %d: %r, should be %r" % (what, k, got[max(0, k - 40):k + 40], want[max(0, k - 40):k + 40]))
                elif fmt == "mh":
                    names = sorted(os.listdir(mf), key=lambda x: (len(x), x))
                    if names != [str(i + 1) for i in range(len(hits))]:
                        raise Fail("%s: match folder holds %s, should hold 1 to %d" % (what, names[:30], len(hits)))
                    for n, m in zip(names, hits):
                        check_entry(w, os.path.join(mf, n), m, hard, what)
                elif fmt == "maildir":
                    seen = []
                    for s in ("new", "cur"):
                        for n in os.listdir(os.path.join(mf, s)):
                            p = os.path.join(mf, s, n)
                            m = owner(w, p, hard)
                            if m is None:
                                raise Fail("%s: %s is no message of the store" % (what, p))
                            check_entry(w, p, m, hard, what)
                            seen.append(m.where)
                            info = "".join(x for x in "FRS" if x in m.flags)
                            g = re.fullmatch(r"123456789\.\d+\.mairix(?::2,(F?R?S?))?", n)
                            if not g or (g.group(1) or "") != info:
                                raise Fail("%s: entry %s for a message with flags '%s'" % (what, n, info))
                            new = ("/new/" in m.file and m.file.split("/")[-2] == "new") if m.file else "S" not in m.flags
                            if (s == "new") != new:
                                raise Fail("%s: message %s with flags '%s' appears in %s" % (what, m.where, m.flags, s))
                    if sorted(seen) != sorted(m.where for m in hits):
                        raise Fail("%s: match folder stands for %d messages, %d match" % (what, len(seen), len(hits)))
                else:
                    want = ""
                    for m in hits:
                        want += "-" * 33 + "\n" + m.where + "\n"
                        for k, v in (("To:         ", m.to), ("Cc:         ", m.cc), ("From:       ", m.frm), ("Subject:    ", m.subject), ("Message-ID: ", m.msgid and "<%s>" % m.msgid), ("In-Reply-To:", m.irt and "<%s>" % m.irt)):
                            if v:
                                want += "  %s%s\n" % (k, v)
                        want += "  Date:        %s\n" % time.strftime("%a, %d %b %Y", time.gmtime(m.date))
                    a, b = (re.sub(r"(?m)^ *(\S+:)[ \t]*", r"\1 ", x).split("\n") for x in (out, want))
                    if a != b:
                        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
                        raise Fail("%s: excerpt line %d is %r, should be %r" % (what, k, a[k], b[k]))
        # -a keeps what is there and adds the new matches
        for fmt in ("maildir", "mh", "mbox"):
            open(w.rc, "w").write(base_rc + "mformat=%s\n" % fmt)
            mf = os.path.join(w.base, "aug" + fmt)
            acc = []
            for k, q in enumerate(["s:s%d" % r.randrange(5), "b:k2", "b:nosuch", "b:k0", "f:f1"]):
                hits = [by[x] for x in [l for l in w.run("-r", q, ok=(0, 1)).split("\n") if l]]
                w.run(*(["-a"] if k else []), "-o", "aug" + fmt, q, ok=(0, 1))
                c.case("%s -a %s" % (fmt, q), bool(hits))
                acc += hits
                if fmt == "mbox":
                    got = open(mf, "rb").read() if os.path.exists(mf) else b""
                    if got != b"".join(mbox_entry(w, m) for m in acc):
                        raise Fail("results: mbox after -a %s does not hold the earlier and the new matches" % q)
                else:
                    ps = [os.path.join(mf, s, n) for s in (("new", "cur") if fmt == "maildir" else (".",)) for n in os.listdir(os.path.join(mf, s))]
                    have = [owner(w, p) for p in ps]
                    if None in have:
                        raise Fail("results: %s after -a %s: %s is no message of the store" % (fmt, q, ps[have.index(None)]))
                    if {m.where for m in have} != {m.where for m in acc}:
                        lost = {m.where for m in acc} - {m.where for m in have}
                        raise Fail("results: %s after -a %s does not stand for the earlier and the new matches: lost %s" % (fmt, q, sorted(lost)[:3]))
        # an mbox changed since it was indexed: its messages are not handed out
        if w.boxes["box"]:
            p = os.path.join(w.base, "box")
            d = open(p, "rb").read()
            m = r.choice(w.boxes["box"])
            k = m.where.rindex(" [")
            a, b = map(int, m.where[k + 2:-1].split(","))
            how = r.randrange(3)
            if how == 0:
                pos = r.randrange(a, b)
                nd = d[:pos] + bytes([d[pos] ^ 1]) + d[pos + 1:]
                stale = {m.where}
            elif how == 1:
                nd = d[:r.randrange(a, b - 1)]
                stale = {x.where for x in w.boxes["box"] if int(x.where[x.where.rindex(",") + 1:-1]) > len(nd)}
            else:
                nd = b""
                stale = {x.where for x in w.boxes["box"]}
            st = os.stat(p)
            w.put(p, nd)
            for fmt in ("maildir", "mh", "mbox", "excerpt"):
                open(w.rc, "w").write(base_rc + "mformat=%s\n" % fmt)
                mf = os.path.join(w.base, "st" + fmt)
                w.run("-o", "st" + fmt, "b:all", ok=(0,))
                good = [x for x in w.msgs if x.where not in stale]
                c.case("%s results with a stale mbox (%d messages stale)" % (fmt, len(stale)))
                if nd and stale and "checksum" not in w.err and "index" not in w.err:
                    raise Fail("results: no warning about messages of an mbox that has changed (%s)" % fmt)
                if fmt == "mbox":
                    got = open(mf, "rb").read()
                    order = [x for x in w.run("-r", "b:all").split("\n") if x and x not in stale]
                    if got != b"".join(mbox_entry(w, by[x]) for x in order):
                        raise Fail("results: mbox results with a changed mbox are not exactly the unchanged messages")
                elif fmt != "excerpt":
                    ps = [os.path.join(mf, s, n) for s in (("new", "cur") if fmt == "maildir" else (".",)) for n in os.listdir(os.path.join(mf, s))]
                    have = [owner(w, q) for q in ps]
                    if None in have or sorted(x.where for x in have) != sorted(x.where for x in good):
                        raise Fail("results: %s results with a changed mbox are not exactly the unchanged messages" % fmt)
        w.close()


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        k = r.randrange(9)
        i = r.randrange(len(b) + 1)
        if k == 0:
            del b[i:]
        elif k == 1:
            del b[i:i + r.choice([1, 2, 10, 100])]
        elif k == 2:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20])))
        elif k == 3:
            b[i:i] = r.choice([b"\n", b"\n\n", b"=", b"==", b"=\n", b"--", b";", b'"', b"\\", b"=?", b"?=", b"<", b">", b"&", b":", b"\0", b"\x80", b"\xff", b" ", b"\t", b"boundary=", b"name=", b"*0*=", b"''", b"=?utf-8?B?", b"=?x?Q?=4", b"begin 644 x\n", b"end\n", b"From a@b Thu Jan  1 00:00:00 2004\n"])
        elif k == 4 and b:
            b[min(i, len(b) - 1)] = r.choice(b"\0\n =-?\"<>;:\\\x7f\x80\xff~") if r.random() < .7 else r.randrange(256)
        elif k == 5:
            ls = bytes(b).split(b"\n")
            r.shuffle(ls)
            b = bytearray(b"\n".join(ls))
        elif k == 6:
            ls = bytes(b).split(b"\n")
            j = r.randrange(len(ls))
            ls[j:j] = [ls[r.randrange(len(ls))] * r.choice([1, 2, 50])]
            b = bytearray(b"\n".join(ls))
        elif k == 7:
            b = b.replace(b"\n", b"\r\n")
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.choice([5, 50, 400])]
    return bytes(b)


def templates(r):
    import base64
    enc = base64.encodebytes(b"some text words here\n" * r.randrange(1, 6)).decode()
    b1, b2 = "=_A%d" % r.randrange(99), "in-ner"
    t = []
    t.append("From: a b <a@b.c>\nTo: =?iso-8859-1?Q?caf=E9?= <x@y>, \"q, r\" <z@w>\nCc: k@l\nSubject: =?utf-8?B?%s?= =?x?q?a_b?=\nDate: Mon, 2 Jan 2006 03:04:05 +0100\nMessage-ID: <1@x>\nReferences: <2@x> <3@x>\n\t<4@x>\nIn-Reply-To: <3@x> of Tue\nStatus: RO\nX-Status: AF\n\nbody text\n" % base64.b64encode(b"hello world").decode())
    for cte, data in (("base64", enc), ("quoted-printable", "a=20b=3D=\nnext =E9 line\nlast="), ("x-uuencode", "begin 644 f.txt\n#0V%T\n`\nend\n"), ("7bit", "plain\n"), ("weird", "plain\n")):
        for ct in ("text/plain; charset=\"us-ascii\"", "text/html", "application/x-foo; name=\"a b.txt\"", "message/rfc822"):
            t.append("Subject: s\nMIME-Version: 1.0\nContent-Type: %s\nContent-Transfer-Encoding: %s\n\n%s" % (ct, cte, data))
    t.append("Subject: s\nContent-Type: multipart/mixed; boundary=\"%s\"\n\npreamble\n--%s\nContent-Type: multipart/alternative;\n boundary=%s\n\n--%s\nContent-Type: text/html\n\n<p>hi <b>x</b> &amp; <!-- c --></p>\n--%s--\n--%s\nContent-Type: text/plain; name*0=\"ab\"; name*1=cd; filename*=utf-8''x%%20y\nContent-Disposition: attachment; filename=\"f.txt\"\nContent-Transfer-Encoding: base64\n\n%s--%s\nContent-Type: message/rfc822\n\nSubject: inner\n\nbody\n--%s--\nepilogue\n" % (b1, b1, b2, b2, b2, b1, enc, b1, b1))
    return [x.encode("latin1") for x in t]


@driver("damaged messages", "messages with every MIME feature cut, spliced, shuffled and filled with odd bytes, indexed among sound ones by a build with the address sanitizer, from MH, maildir and mbox folders, then searched with every output; non-trivial = damaged messages indexed")
def robust_e2e(c, tree, r, tier):
    exe = tree.mairix_san()
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"}
    n = 0
    for rnd in range(12 if tier == "quick" else 150):
        w = World(tree, "rob")
        w.exe = exe
        w.env.update(env)
        w.add_mh("mh")
        w.msgs = []
        bad = []
        ts = templates(r)
        for i in range(60):
            t = r.choice(ts)
            d = t if r.random() < .05 else mutate(r, t)
            if r.random() < .1:
                d = mutate(r, d[:r.randrange(len(d) + 1)] + r.choice(ts))
            p = os.path.join(w.base, "mh", str(1000 + i))
            if r.random() < .3:
                # exactly whole pages: nothing lies behind the mapped file
                k = -(len(d) + 9) % 4096
                d = b"X-Pad: " + b"p" * (k + 1) + b"\n" + d
            w.put(p, d)
            bad.append((p, d))
            n += 1
        box = b"".join(b"From a@b.c Thu Jan  1 00:00:00 2004\n" + mutate(r, r.choice(ts)) + b"\n\n" for _ in range(20))
        w.put(os.path.join(w.base, "bx"), box if rnd % 2 else mutate(r, box))
        w.mboxen = ["bx"]
        for i in range(5):
            m = Msg(subject="sound%d" % i, body="steady%d sane" % i, to="p%d@q" % i, date=1000000000 + i, msgid="snd%d@x" % i)
            w.put_mh("mh", m, num=[1, 500, 1010, 1030, 2000][i] if i not in (2, 3) else [0, 0, 3010, 3020, 0][i])
            w.msgs.append(m)
        w.write_rc()

        def ran(*a, **k):
            w.run(*a, ok=None, **k)
            if w.st not in (0, 1) or "AddressSanitizer" in w.err:
                s = re.findall(r"ERROR: AddressSanitizer.*|#\d+ 0x\w+ in \w+ .*", w.err)
                return "status %d %s" % (w.st, " | ".join(x.strip()[:120] for x in s[:6]) or w.err[-200:])
            return None
        e = ran()
        if e:
            # find the message
            culprit = None
            for p, d in bad:
                w2 = World(tree, "rob2")
                w2.exe, w2.env = exe, dict(w2.env, **env)
                w2.add_mh("mh")
                w2.put(os.path.join(w2.base, "mh", "1"), d)
                w2.run(ok=None)
                if w2.st != 0 or "AddressSanitizer" in w2.err:
                    culprit = d
                w2.close()
                if culprit is not None:
                    break
            raise Fail("damaged messages: indexing ends with %s; message: %r" % (e, (culprit if culprit is not None else box)[:1500]))
        c.case("%d damaged messages, e.g. %r" % (len(bad), bad[0][1][:120]))
        for m in w.msgs:
            for q in ("s:" + m.subject, "b:" + m.body.split()[0], "t:" + m.to, "m:" + m.msgid):
                e = ran("-r", q)
                if e:
                    raise Fail("damaged messages: searching ends with %s" % e)
                if m.where not in w.out.split("\n"):
                    raise Fail("damaged messages: the sound message %s is not found by %s" % (m.where, q))
            if rnd % 4:
                break
        for a in (["-x", "b:text"], ["-x", "z:-1M"], ["-d"], ["-r", "-t", "s:s"], ["z:-1M"], ["-p"]):
            e = ran(*a)
            if e:
                raise Fail("damaged messages: mairix %s ends with %s" % (" ".join(a), e))
        open(w.rc, "a").write("mformat=mbox\n")
        e = ran("-o", "outbox", "z:-1M")
        if e:
            raise Fail("damaged messages: mbox output ends with %s" % e)
        w.close()
    c.cases = c.distinct = n
