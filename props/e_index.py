"""end-to-end stand-ins for indexing: mbox splitting, incremental runs, purging, word tables, decoding, words"""
import base64
import bz2
import gzip
import lzma
import quopri
import time
from vc.e2e import *
from props.e_search import VOC, rand_msg, world, rand_word

TAB = {"To": "t", "Cc": "c", "From": "f", "Subject": "s", "Body": "b", "Attachment names": "n", "Message Ids": "m"}


class Dump:
    """the database as 'mairix -d' shows it"""
    def __init__(self, w):
        out = w.run("-d")
        self.msgs, self.mbox, self.tab = [], {}, {}
        cur = word = None
        mb = []
        for l in out.split("\n"):
            m = re.fullmatch(r" *(\d+): (DEAD|FILE (.*), size=(-?\d+), tid=(-?\d+)|MBOX (\d+), msg (\d+), offset=(-?\d+), size=(-?\d+), tid=(-?\d+))((?: seen| replied| flagged)*)", l)
            if m and cur is None:
                self.msgs.append(m)
                continue
            m = re.fullmatch(r" *(\d+): (\d+) msgs in (.*)", l)
            if m and cur is None:
                self.mbox[int(m.group(1))] = m.group(3)
                continue
            m = re.fullmatch(r"Contents of <(.*)> table", l)
            if m:
                cur = TAB[m.group(1)]
                self.tab[cur] = {}
                continue
            if l == "Chain 1":
                cur = "M"
                self.tab[cur] = {}
                continue
            m = re.fullmatch(r"Word \d+ : <(.*)>", l)
            if m:
                word = m.group(1)
                if word in self.tab[cur]:
                    raise Fail("word <%s> appears twice in table %s" % (word, cur))
                self.tab[cur][word] = []
                continue
            if cur and word is not None and re.fullmatch(r"[\d ]*", l) and l.strip():
                self.tab[cur][word] += [int(x) for x in l.split()]
        self.where = []
        self.flags, self.tid = [], []
        for m in self.msgs:
            fl = "".join(c for c, n in (("S", "seen"), ("R", "replied"), ("F", "flagged")) if n in m.group(11))
            self.flags.append(fl)
            if m.group(2) == "DEAD":
                self.where.append(None)
                self.tid.append(None)
            elif m.group(3) is not None:
                self.where.append(m.group(3))
                self.tid.append(int(m.group(5)))
            else:
                o, s = int(m.group(8)), int(m.group(9))
                self.where.append("mbox:%s [%d,%d)" % (self.mbox.get(int(m.group(6))), o, o + s))
                self.tid.append(int(m.group(10)))

    def live(self):
        return [x for x in self.where if x is not None]


def check_dump(w, c, msgs, what, parts="tcfsbn", tids=False, exact=True):
    """the dumped database holds exactly these messages with exactly their words"""
    d = Dump(w)
    want = sorted(m.where for m in msgs)
    if sorted(d.live()) != want:
        raise Fail("%s: messages in the database: missing %s, unexpected %s" % (what, [x for x in want if x not in d.live()][:3], [x for x in d.live() if x not in want][:3]))
    by = {m.where: m for m in msgs}
    for p in parts:
        got = {}
        for word, ix in d.tab[p].items():
            if sorted(set(ix)) != ix or any(i >= len(d.where) or i < 0 for i in ix):
                raise Fail("%s: list of <%s> in %s is not an increasing list of message numbers: %s" % (what, word, p, ix[:20]))
            for i in ix:
                if d.where[i] is not None:
                    got.setdefault(d.where[i], set()).add(word)
        for wh in want:
            exp = by[wh].index()[p]
            if exp != got.get(wh, set()):
                raise Fail("%s: words of %s in part %s: missing %s, unexpected %s; message %r" % (what, wh, p, sorted(exp - got.get(wh, set()))[:5], sorted(got.get(wh, set()) - exp)[:5], by[wh].render()[:700]))
    if tids:
        for g in threads(msgs):
            t = {d.tid[d.where.index(m.where)] for m in g}
            if len(t) != 1:
                raise Fail("%s: one thread, several thread numbers" % what)
        if len({t for t in d.tid if t is not None}) != len(threads(msgs)):
            raise Fail("%s: %d thread numbers, %d threads" % (what, len({t for t in d.tid if t is not None}), len(threads(msgs))))
    c.case("%s: %d messages, %d words" % (what, len(want), sum(len(x) for x in d.tab.values())), bool(want))
    return d


# ---------------------------------------------------------------- C12
E = r"[a-zA-Z0-9+\-.!#$%&'*/=?^_`{|}~]"
D = r"[a-zA-Z0-9_.\-]"
EMAIL = r"(?:%s|@%s*:)*(?:%s|\"(?:%s|[ \t@:<>])*\")(?:%s|\"(?:%s|[ \t@:<>])*\")*(?:@(?:\[[0-9.]*\]|%s%s+))?" % (E, D, E, E, E, E, D, D)
ZONE = r"(?:[A-Z][A-Za-z0-9]*|[+\-][A-Za-z0-9]+)"
TIME = r"[0-9][0-9]:[0-9][0-9](?::[0-9][0-9])?"
WS = r"[ \t]"
DATE1 = r"{w}+[A-Z][a-z][a-z]{w}+[A-Z][a-z][a-z]{w}+[0-9][0-9]?{w}+{t}{w}+(?:{z}{w}+(?:{z}{w}+)?)?[0-9][0-9][0-9][0-9]".format(w=WS, t=TIME, z=ZONE)
DATE2 = r"{w}+[A-Z][a-z][a-z],{w}+[0-9][0-9]?{w}+[A-Z][a-z][a-z]{w}(?:[0-9][0-9]|[0-9][0-9][0-9][0-9]){w}*{t}{w}".format(w=WS, t=TIME)
FROMLINE = r"%s*(?:%s|<%s>|[+\-]|)(?:%s|%s)" % (WS, EMAIL, EMAIL, DATE1, DATE2)
FROM_RX = re.compile((r"(?:\A|(?<=\n))From " + FROMLINE).encode("latin1"))


def from_lines(tree, seed, tier):
    """lemma from-lines: the generated separator automaton accepts exactly the separator lines of the documentation"""
    from vc import automata
    t = time.time()
    code = ('#include <stdio.h>\n#include "from.h"\n#include "fromcheck.h"\nint main(void){static int st[65536],seen[65536];int n=1;seen[0]=1;for(int i=0;i<n;i++){int s=st[i];'
            'printf("attr %d %s\\n",s,fromcheck_attr[s]==FROMCHECK_PASS?"PASS":"FAIL");for(int c=1;c<256;c++){int t=fromcheck_next_state(s,fromcheck_char2tok[c]);'
            'if(t>=0){printf("%d %d %d\\n",s,c,t);if(t<65536&&!seen[t]){seen[t]=1;st[n++]=t;}}}}return 0;}\n')
    nxt, attr = automata.read_dfa(tree, "fromcheck", code)
    bad, n = automata.compare(nxt, attr, {"PASS": FROMLINE}, default="FAIL", stop=True)
    res = dict(name="from_lines", status="ok", out="", cases=n, distinct=n, samples=[], rule="automaton equivalence up to the first accepting state, exact for lines of every length; every product state is a case", secs=time.time() - t)
    if bad:
        msg = "separator line 'From %s' is %s, documented as %s" % (bad[0].decode("latin1"), bad[1], bad[2])
        res.update(status="fail", msg=msg, out=msg)
    return res


def split_mbox(data):
    """[(start, end)) of each message by the documented separators"""
    out = []
    if len(data) > 10 and data.startswith(b"\1\1\1\1\n"):
        pos = [m.start() for m in re.finditer(rb"(?:\A|(?<=\n))\x01\x01\x01\x01\n", data)]
        i = 0
        while i + 1 < len(pos):
            # a start separator directly follows the end separator of the message before it
            out.append((pos[i] + 5, pos[i + 1]))
            i += 2
        return out
    ms = [m.start() for m in FROM_RX.finditer(data)]
    for k, p in enumerate(ms):
        nl = data.find(b"\n", p)
        if nl < 0 or nl + 1 >= len(data):
            continue
        out.append((nl + 1, ms[k + 1] if k + 1 < len(ms) else len(data)))
    return out


def joined(data, sp):
    """separators inside a MIME body, before its end boundary, do not end the message"""
    out, i = [], 0
    while i < len(sp):
        a, e = sp[i]
        j = i
        m = re.match(rb"Subject: [^\n]*\nContent-Type: multipart/mixed; boundary=(bd\d+)\n\n", data[a:e])
        if m:
            k = i
            while k < len(sp) and not re.search(rb"(?m)^--" + m.group(1) + rb"--", data[a:sp[k][1]]):
                k += 1
            j = k if k < len(sp) else i
        out.append((a, sp[j][1]))
        i = j + 1
    return out


def rand_from(r):
    a = r.choice(["a@b.c", "foo.bar+baz@host-1.example.org", "<x@y.zz>", "-", "", "MAILER-DAEMON", '"quoted part"@ho.st', "@r1,:u@hh"[:0] + "user@[10.0.0.1]", "u!v%w@gate.way", "  spaced@x.yy"])
    k = r.randrange(9)
    sp = lambda: r.choice([" ", " ", "  ", "\t"])
    wd, mo = r.choice(DAYS), r.choice(MONS)
    dd = r.choice(["1", " 1", "31", "09"]).strip() or "1"
    tm = r.choice(["00:00:00", "23:59", "12:34:56"])
    z = r.choice(["PST", "+0100", "-0500", "GMT", "Z"])
    s = sp()
    y = r.choice(["2004", "1999"])
    base = "From %s%s%s%s%s%s%s%s%s%s" % (a, sp(), wd, s, mo, sp(), dd, sp(), tm, sp())
    if k < 4:
        return base + y
    if k == 4:
        return base + z + sp() + y
    if k == 5:
        return base + z + sp() + r.choice(["DST", "MET"]) + sp() + y
    if k == 6:
        return base + y + sp() + z
    if k == 7:
        return "From %s%s%s,%s%s%s%s %s%s%s%s%s" % (a, sp(), wd, sp(), dd, sp(), mo, r.choice(["04", "2004"]), sp(), tm, sp(), z)
    return base + y + r.choice(["\r", " remote from host.dom", " ", ""])


FALSE_FROM = ["From here on it gets better", "From a@b.c Mon Jan 1 00:00:00", "From a@b.c mon Jan  1 00:00:00 2004", "From a@b.c Mon Jan 100 00:00:00 2004", "From ", "From", "From: x@y", ">From a@b.c Thu Jan  1 00:00:00 2004",
              "from a@b.c Thu Jan  1 00:00:00 2004", " From a@b.c Thu Jan  1 00:00:00 2004", "From a b Thu Jan  1 00:00:00 2004", "From a@b Thu, Jan 1 00:00:00 2004", "From a@b.c Thu Jan  1 0:00:00 2004", "FFrom a@b.c Thu Jan  1 00:00:00 2004",
              "From a@b.c Thu Jan  1 00:00:00 204", "xFrom a@b.c Thu Jan  1 00:00:00 2004", "From From a@b.c Thu Jan  1 00:00:00 2004", "From a@b.c Thu 1 Jan 00:00:00 2004", "\1\1\1\1", "From a@b. Thu Jan  1 00:00:00:00 2004"]


def mb_list(w):
    return w.raw("z:-99M", ok=(0, 1))


@driver("mboxes", "mbox and MMDF files with every separator form, near-miss separator lines, missing blank lines, leading junk, truncated ends, compression; message boundaries and contents compared with a reference splitter; non-trivial = more than one message")
def mbox_e2e(c, tree, r, tier):
    for rnd in range(40 if tier == "quick" else 300):
        w = World(tree, "mbox")
        n = r.choice([1, 2, 3, 5, 8, 13, 40])
        mm = rnd % 5 == 4
        out = b""
        uniq = 0
        if not mm and r.random() < .3:
            out += r.choice([b"junk line\n", b"\n", b"From nowhere\nx\n\n"])
        for i in range(n):
            uniq += 1
            b = "Subject: uniq%dw\n" % uniq
            if r.random() < .9:
                b += "To: a%d@b.c\n" % uniq
            b += "\n"
            for _ in range(r.randrange(5)):
                k = r.random()
                if k < .5:
                    f = r.choice(FALSE_FROM)
                    if mm and f[0] == "\1":
                        f = "\1\1\1\1x"
                    b += f + "\n"
                else:
                    b += "text %s\n" % r.choice(VOC)
            if not mm and r.random() < .12:
                # an attached mbox, sometimes with its end missing
                b = "Subject: uniq%dw\nContent-Type: multipart/mixed; boundary=bd%d\n\n--bd%d\n\nfirst\n--bd%d\nContent-Type: text/plain\n\n" % (uniq, uniq, uniq, uniq)
                for _ in range(r.choice([1, 1, 2, 3, 6])):
                    b += "x\n\n" + rand_from(r).rstrip("\r") + "\n" + r.choice(["Subject: in\n\n", ""]) + "inside\n"
                if r.random() < .7:
                    b += "--bd%d--\n" % uniq
            body = b.encode("latin1")
            if mm:
                out += b"\1\1\1\1\n" + (b"" if r.random() < .7 else b"") + body + b"\1\1\1\1\n"
            else:
                out += rand_from(r).encode("latin1") + b"\n" + body
                if r.random() < .7:
                    out += b"\n"
        if not mm and r.random() < .2:
            out = out[:-r.randrange(1, 3)] if len(out) > 60 else out
        if not mm and r.random() < .15:
            out += rand_from(r).encode("latin1") + r.choice([b"", b"\n"])
        sp = split_mbox(out) if mm else joined(out, split_mbox(out))
        # a message cut off before the end of its headers is still a message; its words are checked through the unique subject
        name, data = "box", out
        k = r.random()
        if k < .12:
            name, data = "box.gz", gzip.compress(out)
        elif k < .24:
            name, data = "box.bz2", bz2.compress(out)
        elif k < .3:
            name, data = "box.xz", lzma.compress(out)
        p = os.path.join(w.base, name)
        w.put(p, data)
        w.mboxen.append(name)
        w.write_rc()
        w.index()
        if name.endswith(".xz") and not w_has_xz(w):
            w.close()
            continue
        want = ["mbox:%s [%d,%d)" % (p, a, e) for a, e in sp]
        got = mb_list(w)
        c.case("%s with %d messages, %d bytes" % (name, len(sp), len(out)), len(sp) > 1)
        if got != want:
            miss = [x for x in want if x not in got][:2]
            extra = [x for x in got if x not in want][:2]
            at = (miss + extra + ["[0,0)"])[0]
            o = int(re.search(r"\[(\d+),", at).group(1))
            raise Fail("mbox split: missing %s unexpected %s (order %s); file around there: %r" % (miss, extra, got[:3], out[max(0, o - 120):o + 60]))
        for a, e in r.sample(sp, min(4, len(sp))):
            x = re.match(rb"Subject: (uniq\d+w)\n", out[a:e])
            if x:
                g = w.raw("s:" + x.group(1).decode())
                if g != ["mbox:%s [%d,%d)" % (p, a, e)]:
                    raise Fail("mbox split: subject word %s found in %s, it is in [%d,%d)" % (x.group(1), g, a, e))
        w.close()


def w_has_xz(w):
    return any(b"lzma" in x for x in [open(w.exe, "rb").read()])


# ---------------------------------------------------------------- C13 / C06
class Hist(World):
    """a mail store changed step by step, with the messages that must be in the database"""
    def setup(self, r):
        self.r = r
        self.clock = 1500000000
        self.n = 0
        self.add_maildir("md")
        self.add_maildir("sub.x")
        self.add_mh("mh")
        self.files = []
        self.boxes = {}

    def msg(self, **kw):
        self.n += 1
        irt = None
        pool = self.files + [m for b in self.boxes.values() for m in b]
        if pool and self.r.random() < .4:
            irt = self.r.choice(pool).msgid
        return rand_msg(self.r, self.n, flags="".join(f for f in "FRS" if self.r.random() < .3), irt=irt, **kw)

    def bmsg(self):
        """a message for an mbox; some have an mbox attached, which must not be split"""
        m = self.msg()
        if self.r.random() < .2:
            m.inner = True
            t = "before\n"
            for _ in range(self.r.choice([1, 1, 2, 3, 7])):
                t += self.r.choice(["", "\n"]) + "From a@b.c Thu Jan  1 00:00:00 2004\nSubject: hidden%d\n\nnotindexed\n" % self.n
            m.atts = [("old.mbox", t)]
        return m

    def tick(self):
        self.clock += self.r.choice([1, 1, 60, 100000])
        return self.clock

    def when(self, p):
        """time of a changed file: mostly later, also unchanged or earlier when the size tells"""
        k = self.r.random()
        if k < .3:
            return int(os.stat(p).st_mtime)
        if k < .4:
            self.tick()
            return self.clock - 400000
        return self.tick()

    def add_file(self):
        m = self.msg()
        k = self.r.randrange(4)
        t = self.tick()
        if k == 0:
            m.flags = ""
            self.put_maildir("md", m, new=True, mtime=t)
        elif k < 3:
            self.put_maildir(self.r.choice(["md", "sub.x"]), m, mtime=t)
        else:
            m.flags = ""
            self.put_mh("mh", m, mtime=t)
        self.files.append(m)

    def write_box(self, name):
        ms = self.boxes[name]
        p = os.path.join(self.base, name)
        old = os.stat(p) if os.path.exists(p) else None
        t = self.when(p) if old else self.tick()
        self.put_mbox(name, ms)
        if old and os.stat(p).st_size == old.st_size:
            t = self.tick()
        os.utime(p, (t, t))

    def step(self):
        r = self.r
        k = r.choice(["add", "add", "add", "del", "change", "rename", "append", "append", "mdel", "newbox", "rmbox", "mchange", "nothing", "shrink", "touch", "mtouch", "replace", "empty", "deliver"])
        if k == "add":
            for _ in range(r.randrange(1, 5)):
                self.add_file()
        elif k == "del" and len(self.files) > 2:
            for _ in range(r.randrange(1, 3)):
                if self.files:
                    m = self.files.pop(r.randrange(len(self.files)))
                    os.unlink(m.file)
        elif k == "change" and self.files:
            m = r.choice(self.files)
            i = self.files.index(m)
            m2 = self.msg()
            m2.flags, m2.file, m2.where, m2.path = m.flags, m.file, m.file, m.file
            d = m2.render()
            m2.size = len(d)
            self.put(m2.file, d, self.when(m2.file) if len(d) != os.stat(m2.file).st_size else self.tick())
            self.files[i] = m2
        elif k == "touch" and self.files:
            t = self.tick()
            os.utime(r.choice(self.files).file, (t, t))
        elif k == "mtouch" and self.boxes:
            t = self.tick()
            os.utime(os.path.join(self.base, r.choice(list(self.boxes))), (t, t))
        elif k == "rename" and self.files:
            m = r.choice(self.files)
            if "/cur/" in m.file:
                m.flags = "".join(f for f in "FRS" if r.random() < .5)
                n = re.sub(r":2,.*", ":2," + m.flags, m.file)
                if n != m.file:
                    os.rename(m.file, n)
                    m.file = m.where = m.path = n
        elif k == "deliver" and self.files:
            m = r.choice(self.files)
            if "/new/" in m.file:
                n = m.file.replace("/new/", "/cur/") + ("" if ":2," in m.file else ":2,")
                os.rename(m.file, n)
                m.file = m.where = m.path = n
        elif k == "empty" and self.boxes:
            n = r.choice(list(self.boxes))
            self.boxes[n] = []
            self.write_box(n)
        elif k == "newbox":
            n = r.choice(["box1", "box2", "box3"])
            if n not in self.boxes:
                self.boxes[n] = [self.bmsg() for _ in range(r.randrange(1, 6))]
                self.fixbox(n)
        elif k == "append" and self.boxes:
            n = r.choice(list(self.boxes))
            self.boxes[n] += [self.bmsg() for _ in range(r.randrange(1, 4))]
            self.fixbox(n)
        elif k == "mdel" and self.boxes:
            n = r.choice(list(self.boxes))
            if len(self.boxes[n]) > 1:
                del self.boxes[n][r.randrange(len(self.boxes[n]))]
                self.fixbox(n)
        elif k == "mchange" and self.boxes:
            n = r.choice(list(self.boxes))
            b = self.boxes[n]
            if not b:
                return "nothing"
            i = r.randrange(len(b))
            b[i] = self.bmsg()
            b[i].body += " " + "pad" * r.randrange(1, 60)     # moves everything after it
            self.fixbox(n)
        elif k == "shrink" and self.boxes:
            n = r.choice(list(self.boxes))
            self.boxes[n] = self.boxes[n][:r.randrange(1, max(1, len(self.boxes[n])) + 1)]
            self.fixbox(n)
        elif k == "replace" and self.boxes:
            n = r.choice(list(self.boxes))
            self.boxes[n] = [self.bmsg() for _ in range(r.randrange(1, 7))]
            self.fixbox(n)
        elif k == "rmbox" and self.boxes and r.random() < .5:
            n = r.choice(list(self.boxes))
            del self.boxes[n]
            os.unlink(os.path.join(self.base, n))
            if r.random() < .5:
                self.mboxen.remove(n)
                self.write_rc()
        return k

    def fixbox(self, n):
        for m in self.boxes[n]:
            m.extra = "".join(x for x in ["Status: %s\n" % (("RO" if "S" in m.flags else "O")), "X-Status: %s\n" % "".join(y for f, y in (("R", "A"), ("F", "F")) if f in m.flags)]).rstrip("\n") if m.flags else ""
        self.write_box(n)

    def live(self):
        return self.files + [m for b in self.boxes.values() for m in b]


def same_thread(d, live, what):
    for g in threads(live):
        if len(g) > 1:
            t = {d.tid[d.where.index(m.where)] for m in g}
            if len(t) != 1:
                raise Fail("%s: thread of %s has several thread numbers" % (what, g[0].where))


def hist_checks(w, c, r, what):
    live = w.live()
    w.msgs = live
    d = check_dump(w, c, live, what)
    fl = dict(zip(d.where, d.flags))
    for m in live:
        if "".join(x for x in "SRF" if x in m.flags) != fl[m.where]:
            raise Fail("%s: flags of %s are %s, should be %s" % (what, m.where, fl[m.where], m.flags))
    same_thread(d, live, what)
    for _ in range(3):
        a = "s:" + rand_word(r)
        expect(w, c, [a], [m for m in live if matches(m, a)], what=what)
    return d


@driver("histories", "random histories of adding, deleting, rewriting, renaming, touching messages and mboxes (append, delete inside, change inside, shrink, replace, remove) with an indexing run (plain, -p, -F, -Q) after every few steps; the dumped database and searches are compared with the store; non-trivial = non-empty store")
def hist_e2e(c, tree, r, tier):
    for rnd in range(10 if tier == "quick" else 60):
        w = Hist(tree, "hist")
        w.setup(r)
        w.add_file()
        log = []
        for st in range(14):
            ks = [w.step() for _ in range(r.randrange(1, 4))]
            opts = r.choice([[], [], [], ["-p"], ["-Q"], ["-F"], ["-F", "-p"]])
            if "-F" in opts and ("change" in ks):
                opts = [o for o in opts if o != "-F"]
            log.append("%s %s" % (",".join(ks), " ".join(opts)))
            w.index(*opts)
            what = "after steps " + " | ".join(log)
            if len(what) > 700:
                what = "after steps ... " + what[-650:]
            d = hist_checks(w, c, r, what)
            if "-p" in opts and None in d.where:
                raise Fail(what + ": dead messages remain after purging")
        w.close()


@driver("purging", "stores with many deleted messages, words that occur only in deleted ones and words that share hash chains with them; database and searches identical before and after -p, no trace of the dead remains, later runs keep working; non-trivial = something purged")
def purge_e2e(c, tree, r, tier):
    for rnd in range(4 if tier == "quick" else 25):
        w = Hist(tree, "purge")
        w.setup(r)
        nv = r.choice([300, 1500, 4000])
        voc = ["w%x" % (i * 7919 % 100003) for i in range(nv)]
        for i in range(60):
            m = rand_msg(r, i, subject=" ".join(r.sample(voc, 30)), body=" ".join(r.sample(voc, nv // 30)), irt="id%d@x" % (i - 1) if i % 3 else None, refs=["gone%d@y" % r.randrange(20)] if r.random() < .4 else [])
            if i % 2:
                w.put_maildir("md", m)
                w.files.append(m)
            else:
                w.boxes.setdefault("bx%d" % (i % 3), []).append(m)
        for n in w.boxes:
            w.fixbox(n)
        w.index()
        for turn in range(4):
            if turn != 2:
                for m in [m for m in w.files if r.random() < .5]:
                    os.unlink(m.file)
                    w.files.remove(m)
                for n in list(w.boxes):
                    b = w.boxes[n]
                    if turn in (1, 3) and r.random() < .4 and len(w.boxes) > 1:
                        del w.boxes[n]
                        os.unlink(os.path.join(w.base, n))
                        continue
                    w.boxes[n] = [m for m in b if r.random() < .7] or b[:1]
                    w.fixbox(n)
            else:
                for i in range(20):
                    m = rand_msg(r, 1000 + i, subject=" ".join(r.sample(voc, 30)), body="zz")
                    w.put_maildir("md", m)
                    w.files.append(m)
            w.index()
            d0 = check_dump(w, c, w.live(), "before purge %d" % turn)
            w.msgs = w.live()
            q = [["s:" + r.choice(voc)] for _ in range(5)] + [["b:" + r.choice(voc)[:3] + "="] for _ in range(3)]
            res = [sorted(w.raw(*a)) for a in q]
            w.index("-p")
            d1 = check_dump(w, c, w.live(), "after purge %d" % turn)
            same_thread(d1, w.live(), "after purge %d" % turn)
            if None in d1.where:
                raise Fail("dead messages remain after purging")
            # words only dead messages had must be gone
            for p in "tcfsbn":
                for word, ix in d1.tab[p].items():
                    if not ix:
                        raise Fail("word <%s> of no message remains after purging" % word)
            for a, x in zip(q, res):
                if sorted(w.raw(*a)) != x:
                    raise Fail("search %s gives another result after purging" % a)
        w.close()


# ---------------------------------------------------------------- C03 / C04
@driver("word table", "thousands of distinct words over hundreds of messages, added in one run or over many runs (so the table is enlarged, written, read back and extended), words in mixed case; every word's message list compared; non-trivial = every run")
def table_e2e(c, tree, r, tier):
    for rnd in range(3 if tier == "quick" else 15):
        w = World(tree, "table")
        w.add_maildir("md")
        w.msgs = []
        nv = [900, 5000, 120000][rnd % 3]
        runs = [1, 4, 2][rnd % 3]
        voc = ["%s%x" % (r.choice(["a", "qq", "Zz", "m_"]), i * 104729 % 1000003) for i in range(nv)]
        key = r.choice([[], ["--force-hash-key-new-database", str(r.randrange(1 << 32))]])
        k = 0
        for run in range(runs):
            for i in range(r.choice([40, 120, 300]) if nv < 100000 else [55, 120][run]):
                k += 1
                ws = [x.upper() if r.random() < .2 else x for x in (r.choice(voc) for _ in range(r.randrange(1, max(2, nv // 60))))]
                m = Msg(subject=" ".join(ws[:20]), body=" ".join(ws), to=r.choice(voc) + "@x.y", frm="f%d@" % k + r.choice(voc), msgid="k%d@x" % k, date=1000000000 + k * 1000)
                w.put_maildir("md", m)
                w.msgs.append(m)
            w.index(*key)
            check_dump(w, c, w.msgs, "run %d with %d words" % (run, nv))
            for _ in range(6):
                x = r.choice(voc)
                expect(w, c, ["b:" + x], [m for m in w.msgs if matches(m, "b:" + x)])
        w.close()


@driver("round trip", "databases read back and written again many times (one message added per run), all fields, dates, sizes, flags, threads and words compared; non-trivial = every run")
def round_e2e(c, tree, r, tier):
    for rnd in range(2 if tier == "quick" else 10):
        w = Hist(tree, "round")
        w.setup(r)
        for _ in range(20):
            w.add_file()
        w.boxes["b1"] = [w.msg() for _ in range([12, 150][rnd % 2])]
        w.boxes["b2"] = [w.msg() for _ in range(3)]
        if rnd % 2 == 0:
            # positions beyond 2^24
            w.boxes["b2"][0].atts = [("big.bin", "0123456789abcdef\n" * (1 << 20))]
        w.fixbox("b1")
        w.fixbox("b2")
        w.index()
        old = {}
        for run in range(6):
            d = hist_checks(w, c, r, "run %d" % run)
            bytid = {}
            for wh, t in zip(d.where, d.tid):
                if wh:
                    bytid.setdefault(t, set()).add(wh)
            g = sorted(sorted(m.where for m in x) for x in threads(w.live()))
            if run and d.where[:len(before)] != before:
                raise Fail("run %d: messages that did not change were scanned again or changed places" % run)
            before = d.where
            ids = {}
            for m in w.live():
                ids.setdefault(m.msgid.lower(), []).append(m.where)
            got = {x: sorted(d.where[i] for i in ix) for x, ix in d.tab["M"].items() if ix}
            if got != {x: sorted(y) for x, y in ids.items()}:
                x = sorted(set(got) ^ set(ids)) or [k for k in ids if got[k] != sorted(ids[k])]
                raise Fail("run %d: message-id %s is stored for %s, should be for %s" % (run, x[0], got.get(x[0]), ids.get(x[0])))
            if sorted(sorted(x) for x in bytid.values()) != g:
                raise Fail("run %d: thread numbers do not group the messages as their ids do" % run)
            # every stored size and date is the message's
            sizes = {wh: (m.group(4) or m.group(9)) for wh, m in zip(d.where, d.msgs) if wh}
            for m in w.live():
                if int(sizes[m.where]) != m.size:
                    raise Fail("run %d: size of %s stored as %s" % (run, m.where, sizes[m.where]))
            m = r.choice(w.live())
            lo, hi = m.date - m.date % 86400, 0
            dd = time.strftime("%Y%m%d", time.gmtime(m.date))
            got = set(w.raw("d:" + dd))
            want = {x.where for x in w.live() if x.date - x.date % 86400 == lo}
            if got != want:
                raise Fail("run %d: d:%s gives %s, stored dates should give %s" % (run, dd, sorted(got)[:3], sorted(want)[:3]))
            w.add_file()
            if r.random() < .5:
                w.boxes["b1"].append(w.msg())
                w.fixbox("b1")
            w.index()
        w.close()


# ---------------------------------------------------------------- C14
def b64lines(b, n):
    s = base64.b64encode(b).decode()
    return "\n".join(s[i:i + n] for i in range(0, len(s), n)) + "\n"


def qp(r, b):
    """quoted-printable with random choices of what to quote and where to break lines"""
    out, col = "", 0
    for i, ch in enumerate(b):
        if ch == 10:
            out += "\n"
            col = 0
            continue
        nl = i + 1 >= len(b) or b[i + 1] == 10
        if ch == 61 or ch > 126 or ch < 32 or ch in (32, 9) and nl or r.random() < .1:
            e = ("=%02X" if r.random() < .7 else "=%02x") % ch
        else:
            e = chr(ch)
        if col + len(e) > 72 or r.random() < .05:
            out += "=" + r.choice(["", "", " ", "\t "]) + "\n"
            col = 0
        out += e
        col += len(e)
    return out + "\n"


def uu(b, r, pad):
    out = "begin 644 x.txt\n"
    for i in range(0, len(b), 45):
        ch = b[i:i + 45]
        l = chr(32 + len(ch))
        for j in range(0, len(ch), 3):
            t = ch[j:j + 3] + b"\0\0"
            v = t[0] << 16 | t[1] << 8 | t[2]
            l += "".join(chr(32 + (v >> s & 63)) for s in (18, 12, 6, 0))
        out += (l.replace(" ", "`") if pad else l) + "\n"
    return out + ("`" if pad else " ") + "\nend\n"


def rand_text(r, n):
    return " ".join("".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0189_") for _ in range(r.randrange(1, 13))) + r.choice(["", "", "", ".", "=", "\n", "--", "\t"]) for _ in range(n)).strip() + "\n"


@driver("decoding", "text and html parts, at top level and nested in multiparts and attached messages, in 7bit, quoted-printable, base64 and uuencoded form with every line length and padding, and RFC 2047 encoded headers; the dumped words are those of the decoded text; non-trivial = encoded part")
def mime_e2e(c, tree, r, tier):
    for rnd in range(12 if tier == "quick" else 120):
        w = World(tree, "mime")
        w.add_maildir("md")
        want = {}
        for i in range(120):
            texts = []
            hdr = "From: a@b.c\nMessage-ID: <%d@x>\n" % i
            subj = set()
            if r.random() < .5:
                t = rand_text(r, 4).replace("\n", " ").strip()
                if r.random() < .3:
                    t = " " * r.randrange(2) + t + " " * r.randrange(2)
                k = r.randrange(3)
                if k == 0:
                    hdr += "Subject: =?us-ascii?%s?%s?=\n" % (r.choice("bB"), base64.b64encode(t.encode()).decode())
                elif k == 1:
                    e = "".join("_" if ch == " " else ch if ch.isalnum() and r.random() < .8 else "=%02X" % ord(ch) for ch in t)
                    hdr += "Subject: =?iso-8859-1?%s?%s?=\n" % (r.choice("qQ"), e)
                else:
                    k = t.find(" ")
                    x, y = t[:k + 1], t[k + 1:]
                    hdr += "Subject: =?us-ascii?b?%s?=\n =?us-ascii?b?%s?=\n" % (base64.b64encode(x.encode()).decode(), base64.b64encode(y.encode()).decode())
                subj = words(t)
            names, bds, tos, ccs = set(), [], set(), set()
            case = lambda s: r.choice([s, s, s, s.upper(), s.title(), "".join(r.choice([x.upper(), x]) for x in s)])

            def disposition():
                """name of an attachment: in one header or the other"""
                k = r.random()
                if k < .6:
                    return "", ""
                n = "f%d.%s" % (r.randrange(1 << 20), r.choice(["txt", "c", "Zip"]))
                names.add(n.lower())
                q = '"%s"' % n if r.random() < .7 else n
                if k < .8:
                    return "", "Content-Disposition: %s;%sfilename=%s\n" % (case("attachment"), r.choice([" ", "\n ", "\n\t", ""]), q)
                if k < .9:
                    return "; name=%s" % q, "Content-Disposition: attachment\n"
                return '; name="other.x"', "Content-Disposition: attachment; filename=%s\n" % q

            def near(t):
                """lines that only look like boundaries"""
                if bds and r.random() < .2:
                    b = r.choice(bds)
                    t += r.choice(["x--%s\n", "--%sy\n", " --%s\n", "--\n%s\n", "-%s--\n", "--%s-x\n"]) % b + rand_text(r, 2)
                return t

            def part(depth):
                t = near(rand_text(r, r.randrange(1, 60)))
                ct, show = "text/plain", words(t)
                nm, dp = disposition() if depth else ("", "")
                if r.random() < .2:
                    ct = "text/html"
                    t = "".join("<p class=hid%d>%s</p>\n" % (r.randrange(9), x) for x in t.replace("<", "").split("\n"))
                    show = words(re.sub(r"<[^>]*>", " ", t))
                k = r.choice(["7bit", "8bit", "quoted-printable", "base64", "x-uuencode", "none"])
                b = t.encode()
                if k == "base64":
                    body = b64lines(b, r.choice([4, 8, 60, 72, 76]))
                elif k == "quoted-printable":
                    body = qp(r, b)
                elif k == "x-uuencode":
                    body = uu(b, r, r.random() < .5)
                else:
                    body = t
                hs = ["Content-Type: %s; charset=us-ascii%s\n" % (case(ct), nm)]
                if k != "none":
                    hs.append("%s %s\n" % (case("Content-Transfer-Encoding:"), r.choice([k, k.upper(), k])))
                if dp:
                    hs.append(dp)
                r.shuffle(hs)
                texts.append(show)
                return "".join(hs) + "\n" + body

            def multi(depth):
                bd = "=_b%d_%d" % (i, r.randrange(1 << 30))
                if bds and r.random() < .3:
                    bd = bds[-1] + r.choice(["x", "_1"])
                bds.append(bd)
                q = r.choice(['"%s"', '"%s"', "%s"]) % bd if "=" not in bd else '"%s"' % bd
                s = "Content-Type: multipart/%s;%sboundary=%s\n\n%s" % (case(r.choice(["mixed", "alternative", "related"])), r.choice([" ", "\n\t", "\n "]), q, r.choice(["preamble notindexed\n", "\nnotindexed3\n", "To: notindexed4\n\nnotindexed5\n", "", "Content-Type: text/plain\n\nnotindexed8\n"]))
                for _ in range(r.randrange(1, 4)):
                    k = r.random()
                    s += "--%s\n" % bd
                    if k < .2 and depth < 3:
                        s += multi(depth + 1)
                    elif k < .35 and depth < 3:
                        st = rand_text(r, 3).replace("\n", " ").strip()
                        a1, a2 = "in%d.%s@x.y" % (i, r.choice("abcd")), "out+%s" % r.choice("abcd")
                        inner = "Subject: %s\nTo: %s\n" % (st, a1)
                        tos.update(words(a1) | addr_words(a1))
                        if r.random() < .5:
                            inner = "CC: %s\n" % a2 + inner
                            ccs.update(words(a2) | addr_words(a2))
                        subj.update(words(st))
                        nm, dp = disposition()
                        inner += part(depth + 1) if r.random() < .7 else multi(depth + 1)
                        if inner[-1] != "\n":
                            inner += "\n"
                        s += "Content-Type: %s%s\n%s" % (case("message/rfc822"), nm, dp)
                        if r.random() < .3:
                            s += "Content-Transfer-Encoding: base64\n\n" + b64lines(inner.encode(), 72)
                        else:
                            s += "\n" + inner
                    else:
                        s += part(depth + 1)
                bds.remove(bd)
                return s + "--%s--" % bd + r.choice(["\n", "\n", "\nepilogue notindexed2\n", "\n\nepilogue notindexed2\n\nnotindexed6\n--%s\n\nnotindexed7\n--%s--\n" % (bd, bd), "" if depth == 0 else "\n"])
            body = multi(0) if r.random() < .6 else part(0)
            if r.random() < .15:
                body = body.replace("\n", "\r\n")
                hdr = hdr.replace("\n", "\r\n")
            p = os.path.join(w.base, "md", "cur", "%d.h:2," % i)
            w.put(p, (hdr + body).encode("latin1"))
            want[p] = (set().union(*texts) if texts else set(), subj, names, tos, ccs, {"a", "b", "c", "a@b.c"}, hdr + body)
            c.case("message with %d parts" % len(texts), True)
        w.index()
        d = Dump(w)
        if sorted(d.live()) != sorted(want):
            raise Fail("decoding: indexed %d of %d messages" % (len(d.live()), len(want)))
        for tab, k in (("b", 0), ("s", 1), ("n", 2), ("t", 3), ("c", 4), ("f", 5)):
            got = {p: set() for p in want}
            for word, ix in d.tab[tab].items():
                for j in ix:
                    got[d.where[j]].add(word)
            for p in want:
                if got[p] != want[p][k]:
                    raise Fail("decoding: words in %s of %s: missing %s, unexpected %s; message:\n%s" % (("body", "subject", "attachment names", "to", "cc", "from")[k], os.path.basename(p), sorted(want[p][k] - got[p])[:6], sorted(got[p] - want[p][k])[:6], want[p][6][:30000]))
        w.close()


# ---------------------------------------------------------------- C15
@driver("words of text", "headers and bodies with every byte value between letters, digits and underscores, addresses with + - . @ _, runs of separators, words at either end, long words, html tags in every position; the dumped words compared; non-trivial = at least one word")
def tokens_e2e(c, tree, r, tier):
    for rnd in range(2 if tier == "quick" else 12):
        w = World(tree, "tok")
        w.add_maildir("md")
        w.msgs = []
        for i in range(260):
            hb = [b for b in range(33, 256) if chr(b) not in "=?"]
            ch = chr(hb[i % len(hb)])
            seps = [ch, " ", "+", "-", ".", "@", "_", ",", "/"]
            wd = lambda: "".join(r.choice("abzABZ019_") for _ in range(r.choice([1, 1, 2, 3, 5, 9, 60])))
            tx = lambda n: "".join(r.choice([wd(), r.choice(seps), r.choice(seps) * r.randrange(1, 4)]) for _ in range(n)) + r.choice(["", wd()])
            h = None
            if i % 4 == 0:
                h = "".join(r.choice([wd(), " ", "<b>", "<a href=%s>" % wd(), "</p>", "<br/>", "." + wd() + ".", "<!-- %s -->" % wd()]) for _ in range(12))
            clean = lambda s: re.sub(r"[:<>;()\",\[\]\\]", "-", s) if r.random() < 0 else s
            m = Msg(to=clean("x " + tx(6)).strip(), subject="y " + tx(6).strip(), frm="z " + tx(3).strip(), body=tx(14), msgid="t%d@x" % i, html=h)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                m.more.append((r.choice(["To", "Cc", "Cc", "TO", "cC"]), r.choice([tx(3).strip(), tx(3).strip(), "", "w@" + wd() + "." + wd()])))
            if any(x in m.to + m.subject + m.frm + "".join(v for _, v in m.more) for x in ("\n", "\r", "\v", "\f", "\x85", "\xa0")):
                continue
            w.put_maildir("md", m)
            w.msgs.append(m)
        w.index()
        check_dump(w, c, w.msgs, "words of text")
        w.close()
