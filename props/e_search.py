"""end-to-end stand-ins for searching"""
from vc.e2e import *

VOC = ["alpha", "beta", "gamma", "alphabet", "bet", "mairix", "search", "chrony", "foo", "food", "under_score", "x1", "ab", "abc", "abcd", "bcd", "Zeta", "UPPER", "longishwordforfuzzymatching"]


def rand_msg(r, i, voc=VOC, **kw):
    ws = lambda n: " ".join(r.choice(voc) for _ in range(r.randrange(n)))
    ad = lambda: r.choice(["%s@%s.org", "%s.x@sub.%s.net", "\"%s\" <%s-y+z@foo.zzz>"]) % (r.choice(voc).lower(), r.choice(voc).lower())
    d = dict(to=ad(), cc=ad() if r.random() < .5 else "", frm=ad(), subject=ws(5), body=ws(8) or "q", msgid="id%d@x" % i, date=1000000000 + i * 86400)
    if r.random() < .2:
        d["atts"] = [(r.choice(["a.pdf", "Report_%s.txt" % r.choice(voc), "b.bin"]), "zzattcontent")]
    if r.random() < .15:
        d["html"] = "<p class=\"hidden%s\">%s</p>" % (r.choice(voc), ws(4))
    d.update(kw)
    return Msg(**d)


def world(tree, name, r, n, voc=VOC, rc="", **kw):
    w = World(tree, name, rc)
    w.add_maildir("md")
    w.add_mh("mh")
    w.msgs, box = [], []
    for i in range(n):
        m = rand_msg(r, i, voc, **{k: v(r, i) for k, v in kw.items()})
        k = r.randrange(3)
        if k == 0:
            w.put_maildir("md", m, new=r.random() < .3 and not m.flags)
        elif k == 1:
            w.put_mh("mh", m)
        else:
            box.append(m)
        w.msgs.append(m)
    if box:
        w.put_mbox("box", box)
    w.box = box
    return w


def rand_word(r, voc=VOC):
    x = r.choice(voc)
    k = r.random()
    if k < .4:
        return x if r.random() < .7 else x.upper()
    if k < .6:
        a = r.randrange(len(x))
        return x[a:a + 1 + r.randrange(6)] + "="
    if k < .7:
        return "^" + x[:1 + r.randrange(4)] + "="
    s = list(x[:2 + r.randrange(9)])
    for _ in range(r.randrange(3)):
        p = r.randrange(len(s))
        o = r.randrange(3)
        if o == 0:
            s[p] = r.choice("abxz")
        elif o == 1 and len(s) > 1:
            del s[p]
        else:
            s.insert(p, r.choice("abxz"))
    return "".join(s) + "=%d" % r.randrange(6)


@driver("words", "seeded random mail in maildir, MH and mbox folders, word, substring, anchored, fuzzy, attachment-name, message-id and path terms; non-trivial = at least one expected hit")
def words_e2e(c, tree, r, tier):
    for rnd in range(2 if tier == "quick" else 12):
        w = world(tree, "words", r, 60)
        w.index()
        for q in range(140):
            key = r.choice(["s:", "b:", "t:", "c:", "f:", "", "a:", "tc:", "bs:", "r:", "n:"])
            x = rand_word(r)
            if key == "n:":
                x = r.choice(["a.pdf", "b.bin", "report_alpha.txt", "report=", "pdf=", "^b=", "reprot=2"])
            expect(w, c, [key + x], [m for m in w.msgs if matches(m, key + x)])
        for q in range(10):
            m = r.choice(w.msgs)
            expect(w, c, ["m:" + m.msgid.upper()], [m])
        for x in ["md=", "mh=", "box=", "cur=", "ur/1=", "bxo=1", "p:=1"[2:]]:
            if x == "=1":
                continue
            expect(w, c, ["p:" + x], [m for m in w.msgs if matches(m, "p:" + x)])
        for q in range(10):
            m = r.choice(w.msgs)
            t = m.path[-12:].replace("/", "")[-6:].replace(",", "").replace(":", "")[:4]
            if t:
                expect(w, c, ["p:" + t], [m for m in w.msgs if matches(m, "p:" + t)])
        w.close()


@driver("booleans", "seeded random mail; arguments combining ',' '/' '~' over random message parts, several arguments, deleted messages left unpurged; non-trivial = at least one expected hit")
def bool_e2e(c, tree, r, tier):
    for rnd in range(2 if tier == "quick" else 12):
        w = world(tree, "bool", r, 50, VOC[:9])
        w.index()
        if rnd % 2:
            gone = [m for m in w.msgs if m.file and r.random() < .25]
            for m in gone:
                os.unlink(m.file)
            w.msgs = [m for m in w.msgs if m not in gone]
            w.index()
        for q in range(150):
            args = []
            for _ in range(1 + r.randrange(3)):
                key = "".join(r.sample("bstcf", 1 + r.randrange(3))) + ":" if r.random() < .85 else r.choice(["", "a:", "r:", "bsp:"])
                alts = []
                for _ in range(1 + r.randrange(3)):
                    alts.append(",".join(("~" if r.random() < .3 else "") + (r.choice(VOC[:9]) if r.random() < .75 else rand_word(r, VOC[:9])) for _ in range(1 + r.randrange(3))))
                args.append(key + "/".join(alts))
            expect(w, c, args, [m for m in w.msgs if all(matches(m, a) for a in args)])
        w.close()


@driver("sizes", "messages of chosen sizes around k and M multiples, ranges with both, one or no end given, ends swapped; non-trivial = at least one expected hit")
def size_e2e(c, tree, r, tier):
    w = World(tree, "sizes")
    w.add_mh("mh")
    w.msgs = []
    szs = [200, 201, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 10239, 10240, 10241, 65535, 65536, 65537, 1048575, 1048576, 1048577, 2097151, 2097152, 2097153]
    for s in szs:
        m = Msg(subject="s%d" % s, frm="a@b", msgid="s%d@x" % s)
        pad = s - len(m.render())
        m.body = ("%s\n" % ("." * 60)) * ((pad) // 61) + "." * (pad % 61)
        w.put_mh("mh", m)
        if m.size != s:
            raise RuntimeError("size %d" % m.size)
        w.msgs.append(m)
    w.index()
    ends = ["", "200", "201", "1000", "1023", "1024", "1025", "1k", "1K", "2k", "4k", "4097", "10k", "64k", "65537", "1M", "1m", "1024k", "2M", "2097153", "5M", "3000M", "4096M", "5000000000", "4194304k", "9999999M"]

    def num(s):
        mul = {"k": 1024, "m": 1 << 20}.get(s[-1:].lower(), 1)
        return int(s.rstrip("kKmM")) * mul

    def sel(a, b):
        lo = num(a) if a else None
        hi = num(b) if b else None
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        return [m for m in w.msgs if (lo is None or m.size > lo) and (hi is None or m.size < hi)]
    for a in ends:
        for b in ends:
            if a or b:
                expect(w, c, ["z:%s-%s" % (a, b)], sel(a, b))
        if a:
            expect(w, c, ["z:" + a], sel("", a))
    w.close()


@driver("flags", "all flag sets in maildir names (with other flag letters) and in Status/X-Status headers of mbox messages, all F: expressions of up to three signed letters; written maildir results carry the flags; non-trivial = at least one expected hit")
def flag_e2e(c, tree, r, tier):
    w = World(tree, "flags")
    w.add_maildir("md")
    w.add_mh("mh")
    w.msgs, box = [], []
    n = 0
    for s in range(8):
        fl = "".join(ch for k, ch in enumerate("FRS") if s >> k & 1)
        for deco in range(5):
            n += 1
            m = Msg(subject="m%d" % n, frm="a@b", msgid="m%d@x" % n, flags=fl, body="z")
            if deco == 0:
                w.put_maildir("md", m)
            elif deco == 1:
                name = "77%d.h:1,RSF.x" % n
                w.put_maildir("md", m, name=name)
            elif deco == 2:
                m.file = os.path.join(w.base, "md", "cur", "88%d.h:2,%s" % (n, "".join(r.sample("DPT" + fl, len(fl) + 3))))
                w.put(m.file, m.render())
                m.where = m.path = m.file
            else:
                a, b = "", ""
                for f, ch in (("S", "R"), ("R", "A"), ("F", "F")):
                    if f in fl:
                        if r.random() < .5:
                            a += ch
                        else:
                            b += ch
                m.extra = "Status: %sO" % a + ("\nX-Status: %s" % b if b or deco == 3 else "")
                box.append(m)
            w.msgs.append(m)
    for nm, new in (("111.x", True), ("plain", False)):
        n += 1
        m = Msg(subject="m%d" % n, frm="a@b", msgid="m%d@x" % n, body="z")
        if new:
            w.put_maildir("md", m, new=True, name=nm)
        else:
            m.file = os.path.join(w.base, "md", "cur", nm)
            w.put(m.file, m.render())
            m.where = m.path = m.file
        w.msgs.append(m)
    w.put_mbox("box", box)
    w.index()
    sgn = ["s", "r", "f", "-s", "-r", "-f", "S", "-R", "F", "-F", "-S", "R"]
    ex = set(sgn)
    for a in sgn[:6]:
        for b in sgn[:6]:
            ex.add(a + b)
            for d in sgn[:6]:
                ex.add(a + b + d)
    for e in sorted(ex):
        expect(w, c, ["F:" + e], [m for m in w.msgs if matches(m, "F:" + e)])
    w.run("z:-1M", ok=(0,))
    out = {}
    for sub in ("new", "cur"):
        for f in os.listdir(os.path.join(w.mf, sub)):
            data = open(os.path.join(w.mf, sub, f), "rb").read()
            s = re.search(rb"Subject: (\w+)", data).group(1).decode()
            out[s] = (sub, f)
    for m in w.msgs:
        if m.subject not in out:
            raise Fail("match folder lacks message %s" % m.subject)
        sub, f = out[m.subject]
        got = f.rsplit(":2,", 1)[1] if ":2," in f else ""
        if sorted(got) != sorted(m.flags):
            raise Fail("message %s with flags %r is written to the match folder as %s/%s" % (m.where, m.flags, sub, f))
        c.case("match folder %s -> %s/%s" % (m.flags, sub, f))
    w.close()


@driver("threads", "seeded random reply graphs (chains indexed in random order, shared unknown ancestors, case differences, later merges, deleted messages); -t result compared with connected components; non-trivial = thread of at least two messages")
def thread_e2e(c, tree, r, tier):
    for rnd in range(4 if tier == "quick" else 30):
        w = World(tree, "thr")
        w.add_maildir("md")
        w.add_mh("mh")
        n = 40 + r.randrange(30)
        ids = ["Id%d.%d@host" % (rnd, i) for i in range(n)] + ["missing%d@x" % i for i in range(6)]
        w.msgs = []
        order = list(range(n))
        r.shuffle(order)
        for i in order:
            refs, irt = [], None
            if r.random() < .75:
                lo = max(0, i - 1 - r.randrange(8))
                irt = r.choice(ids[lo:i] or [ids[-1]]) if rnd % 3 else (ids[i - 1] if i else None)
            if r.random() < .3:
                refs = [r.choice(ids) for _ in range(r.randrange(3))] if rnd % 2 else [r.choice(ids[n:])]
            case = (lambda s: s.upper() if r.random() < .3 else s)
            m = Msg(subject="m%d" % i, frm="a@b", body="x", msgid=case(ids[i]) if r.random() < .9 else None, irt=case(irt) if irt else None, refs=[case(x) for x in refs])
            w.msgs.append(m)
        half = len(w.msgs) // 2
        box = []
        for k, m in enumerate(w.msgs):
            m.ph = k >= half
            m.kind = r.randrange(3)
        for ph in (False, True):
            for m in w.msgs:
                if m.ph == ph:
                    if m.kind == 0:
                        w.put_maildir("md", m)
                    elif m.kind == 1:
                        w.put_mh("mh", m)
                    else:
                        box.append(m)
            if box:
                w.put_mbox("box", box)
            w.index()
            live = [m for m in w.msgs if m.where]
            comp = threads(live)
            for q in range(18):
                m = r.choice(live)
                grp = [g for g in comp if m in g][0]
                expect(w, c, ["s:" + m.subject], grp, opts=["-t"], what="thread search")
            a, b = r.choice(live), r.choice(live)
            expect(w, c, ["s:%s/%s" % (a.subject, b.subject)], [m for g in comp if a in g or b in g for m in g], opts=["-t"], what="thread search")
            expect(w, c, ["s:nosuchword"], [], opts=["-t"], what="thread search")
        # a deleted message is not a match, so it brings no thread
        gone = [m for m in live if m.file and r.random() < .2]
        for m in gone:
            os.unlink(m.file)
        w.index()
        left = [m for m in live if m not in gone]
        for m in gone[:4]:
            others = [x for x in left]
            neg = ",".join("~" + x.subject for x in others[:60])
            expect(w, c, ["s:" + neg], [], opts=["-t"], what="thread search after deletion")
        w.index("-p")
        w.index("-p")
        for q in range(8):
            m = r.choice(left)
            got = w.raw("s:" + m.subject, opts=["-t"])
            comp2 = [g for g in threads(left) if m in g][0]
            full = [g for g in comp if m in g][0]
            ww = {x.where for x in comp2}
            allow = {x.where for x in full if x in left}
            c.case("after purge: thread of %s" % m.subject, len(ww) > 1)
            if not ww <= set(got) <= allow:
                raise Fail("after purge, thread of %s: got %s, must contain %s" % (m.subject, got, sorted(ww)))
        w.close()


@driver("sorted", "seeded random dates 1970-2069 with repeats, sort=date+ in the rc file; raw output is in date order and complete; non-trivial = more than one hit")
def sort_e2e(c, tree, r, tier):
    for rnd in range(3 if tier == "quick" else 20):
        w = World(tree, "sort", rc="sort=date+\n")
        w.add_mh("mh")
        w.msgs = []
        for i in range([60, 5000, 700][rnd % 3]):
            t = r.choice([r.randrange(0, 3130000000), r.randrange(0, 900000000), r.randrange(1000000000, 1000500000), 86400 * r.randrange(5), 86400 * (36000 + r.randrange(4))])
            m = Msg(subject=r.choice(["aa", "bb"]), frm="a@b", body="x", msgid="d%d@x" % i, date=t)
            w.put_mh("mh", m)
            w.msgs.append(m)
        w.index()
        for q in ("s:aa", "s:bb", "s:aa/bb", "f:a"):
            got = w.raw(q)
            want = [m for m in w.msgs if matches(m, q)]
            c.case("%s: %d hits" % (q, len(want)), len(want) > 1)
            if sorted(got) != sorted(m.where for m in want):
                raise Fail("sorted search %s: result set differs" % q)
            day = {m.where: m.date // 86400 for m in want}
            ds = [day[g] for g in got]
            for i in range(1, len(ds)):
                if ds[i - 1] > ds[i]:
                    raise Fail("sorted search %s: %s (%s) comes before %s (%s)" % (q, got[i - 1], time.strftime("%Y-%m-%d", time.gmtime(ds[i - 1] * 86400)), got[i], time.strftime("%Y-%m-%d", time.gmtime(ds[i] * 86400))))
        w.close()


def ymd(s):
    return s // 86400


def day(y, m, d):
    return calendar.timegm((y, m, d, 0, 0, 0)) // 86400


def mlast(y, m):
    return calendar.monthrange(y, m)[1]


def date_forms(r, y, m, d, today):
    """(text, first day, last day) for specifications that name this day, month or year absolutely"""
    mn = MONS[m - 1]
    mn = r.choice([mn, mn.lower(), mn.upper()])
    out = [("%04d%02d%02d" % (y, m, d), (y, m, d), (y, m, d)), ("%04d" % y, (y, 1, 1), (y, 12, 31)),
           ("%s%04d" % (mn, y), (y, m, 1), (y, m, mlast(y, m))), ("%04d%s" % (y, mn), (y, m, 1), (y, m, mlast(y, m))),
           ("%d%s%04d" % (d, mn, y), (y, m, d), (y, m, d)), ("%04d%s%d" % (y, mn, d), (y, m, d), (y, m, d))]
    if 1970 <= y <= 2069:
        yy = y % 100
        out.append(("%02d%02d%02d" % (yy, m, d), (y, m, d), (y, m, d)))
        if yy >= 32 or yy <= 9:
            out += [("%02d" % yy, (y, 1, 1), (y, 12, 31)), ("%s%02d" % (mn, yy), (y, m, 1), (y, m, mlast(y, m))), ("%02d%s" % (yy, mn), (y, m, 1), (y, m, mlast(y, m))),
                    ("%d%s%02d" % (d, mn, yy), (y, m, d), (y, m, d)), ("%02d%s%d" % (yy, mn, d), (y, m, d), (y, m, d))]
    return [(t, day(*a), day(*b)) for t, a, b in out]


def near_forms(ref):
    """forms without a year or month, relative to day number ref: (text, first, last)"""
    g = time.gmtime(ref * 86400)
    y, m, d = g.tm_year, g.tm_mon, g.tm_mday
    out = []
    for mm in range(1, 13):
        yy = y - 1 if mm > m else y
        out.append((MONS[mm - 1].lower(), day(yy, mm, 1), day(yy, mm, mlast(yy, mm))))
        for dd in (1, 9, 15, 28):
            y2 = y - 1 if (mm, dd) > (m, d) else y
            x = day(y2, mm, dd)
            out += [("%d%s" % (dd, MONS[mm - 1]), x, x), ("%s%d" % (MONS[mm - 1], dd), x, x)]
    for dd in range(1, 29):
        y2, m2 = (y, m) if dd <= d else ((y - 1, 12) if m == 1 else (y, m - 1))
        x = day(y2, m2, dd)
        out.append(("%d" % dd if dd < 10 else "%02d" % dd, x, x))
    return out


@driver("dates", "messages on every day around month, year and leap-day boundaries 1971-2068 and around today; absolute, year-less, day-only and relative forms as period, start, end and range; the start day of a range is not constrained; non-trivial = at least one expected hit")
def date_e2e(c, tree, r, tier):
    while True:
        today = int(time.time()) // 86400
        if int(time.time()) % 86400 < 86400 - 120 and int(time.time()) % 86400 > 2:
            break
        time.sleep(1)
    w = World(tree, "dates")
    w.add_mh("mh")
    days = set()
    for y in (1971, 1972, 1999, 2000, 2001, 2003, 2004, 2032, 2038, 2068):
        for m, d in ((1, 1), (1, 2), (2, 28), (3, 1), (3, 31), (4, 30), (5, 1), (12, 31), (7, 15), (10, 9)):
            days.add(day(y, m, d))
        if y % 4 == 0:
            days.add(day(y, 2, 29))
    for k in range(0, 430):
        days.add(today - k)
    for k in (729, 730, 731, 1094, 1095, 1096, 25550, 18):
        days.add(today - k)
    w.msgs = []
    for dn in sorted(x for x in days if x > 0):
        m = Msg(subject="d%d" % dn, frm="a@b", body="x", msgid="d%d@x" % dn, date=dn * 86400 + r.randrange(86400))
        w.put_mh("mh", m)
        m.day = dn
        w.msgs.append(m)
    w.index()
    by = {m.where: m for m in w.msgs}

    def ask(q, lo, hi, start_open=False):
        """lo..hi inclusive; with start_open the first day itself may or may not be selected"""
        got = w.raw("d:" + q)
        want = {m.where for m in w.msgs if (lo is None or m.day >= lo) and (hi is None or m.day <= hi)}
        opt = {m.where for m in w.msgs if lo is not None and m.day == lo} if start_open else set()
        c.case("d:%s -> %d hits" % (q, len(got)), bool(want))
        g = set(got)
        if len(got) != len(g) or not (want - opt) <= g or not g <= want:
            bad = sorted(by[x].day for x in ((want - opt) - g) | (g - want))
            f = lambda n: time.strftime("%Y-%m-%d", time.gmtime(n * 86400))
            raise Fail("d:%s (today %s): range should be %s..%s, message of %s is %s" % (q, f(today), lo is not None and f(lo), hi is not None and f(hi), f(bad[0]), "missing" if any(by[x].day == bad[0] for x in want - g) else "selected"))
    absd = []
    for y in (1971, 1972, 1999, 2000, 2001, 2003, 2004, 2032, 2068):
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31), (7, 15), (10, 9)):
            absd += date_forms(r, y, m, d, today)
        if y % 4 == 0:
            absd += date_forms(r, y, 2, 29, today)
    r.shuffle(absd)
    k = 260 if tier == "quick" else len(absd)
    for t, a, b in absd[:k]:
        ask(t, a, b)
    for t, a, b in absd[:60]:
        ask("-" + t, None, b)
        ask(t + "-", a, None, True)
    for i in range(120 if tier == "quick" else 1500):
        (t, a, b), (u, a2, b2) = r.choice(absd), r.choice(absd)
        if a <= b2:
            ask(t + "-" + u, a, b2, True)
    near = near_forms(today)
    for t, a, b in near:
        ask(t, a, b)
        if r.random() < .3:
            ask(t + "-", a, None, True)
            ask("-" + t, None, b)
    for i in range(40 if tier == "quick" else 400):
        u, a2, b2 = r.choice(absd)
        t, a, b = r.choice(near_forms(b2))
        ask(t + "-" + u, a, b2, True)
    for n, s, mul in ((3, "d", 1), (2, "w", 7), (5, "m", 30), (1, "y", 365), (2, "y", 365), (10, "d", 1), (1, "w", 7), (13, "m", 30), (70, "y", 365), (100, "y", 365), (99999, "d", 1)):
        lo = today - n * mul
        ask("%d%s-" % (n, s), lo, None, True)
        ask("-%d%s" % (n, s), None, lo)
        if lo > 0:
            ask("%d%s-1d" % (n, s), lo, today - 1, True)
    for q in ("2002foo", "31xyz", "1q-", "20020", "x"):
        w.raw("d:" + q, ok=(2, 0, 1))
        if w.st != 2 or w.out.strip():
            raise Fail("d:%s is accepted (status %d)" % (q, w.st))
        c.case("d:%s rejected" % q, False)
    w.close()


DATE_KINDS = {
    "DS_D": "[1-9]|DAY", "DS_Y": "YY|CCYY", "DS_YYMMDD": "[0-9]{6}|[0-9]{8}", "DS_SCALED": "[0-9]+[a-zA-Z]", "DS_M": "MON",
    "DS_DM": "(?:[1-9]|DAY)MON", "DS_MD": "MON(?:[1-9]|DAY)", "DS_YM": "(?:YY|CCYY)MON", "DS_MY": "MON(?:YY|CCYY)",
    "DS_YMD": "(?:YY|CCYY)MON(?:[1-9]|DAY)", "DS_DMY": "(?:[1-9]|DAY)MON(?:YY|CCYY)"}


def date_kinds(tree, seed, tier):
    """lemma date-kinds: the generated datescan automaton tells exactly the documented kinds of date expressions apart"""
    import time
    from vc import automata
    t = time.time()
    sub = {"CCYY": "(?:[1-9][0-9]{3})", "DAY": "(?:[12][0-9]|3[01])", "YY": "(?:[04-9][0-9]|3[2-9])", "MON": "(?:[a-zA-Z]{3})"}
    specs = {}
    for k, r in DATE_KINDS.items():
        for a, b in sub.items():
            r = r.replace(a, b)
        specs[k] = r
    names = list(DATE_KINDS) + ["DS_FAILURE"]
    code = '#include <stdio.h>\n#include "dates.h"\n#include "datescan.h"\nint main(void){int st[4096]={0},n=1,seen[4096]={1};for(int i=0;i<n;i++){int s=st[i];const char*a="?";\n'
    code += "".join('if(datescan_attr[s]==%s)a="%s";\n' % (x, x) for x in names)
    code += 'printf("attr %d %s\\n",s,a);for(int c=1;c<256;c++){int t=datescan_next_state(s,datescan_char2tok[c]);if(t>=0){printf("%d %d %d\\n",s,c,t);if(t<4096&&!seen[t]){seen[t]=1;st[n++]=t;}}}}return 0;}\n'
    nxt, attr = automata.read_dfa(tree, "datescan", code)
    bad, n = automata.compare(nxt, attr, specs, default="DS_FAILURE")
    res = dict(name="date_kinds", status="ok", out="", cases=n, distinct=n, samples=[], rule="automaton equivalence, exact for expressions of every length; every product state is a case", secs=time.time() - t)
    if bad:
        msg = "date expression '%s' is taken for %s, documented as %s" % (bad[0].decode("latin1"), bad[1], bad[2])
        res.update(status="fail", msg=msg, out=msg)
    return res
