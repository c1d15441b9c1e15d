"""P27: the same unit factors everywhere - durations, offsets and date-times as linear forms."""
from fractions import Fraction
import re

from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from .holes import Run, Holes, Form, Interval

INFO = {
    "level": "other",
    "technique": "abstract interpretation over linear forms: symbolic units, with quotients and remainders as symbols that cancel when recomposed",
    "note": "Every unit is a symbol; quotients are symbols named by what is divided, so a decomposition recomposes to the same linear form exactly when its factors agree. "
            "Date arithmetic is done for a symbolic day and time in every month of leap and common years.",
    "explanation": "Durations, offsets from UTC, date-times and periods with symbolic parts are built, decomposed, added, subtracted, shifted and written by the interpreted "
                   "code. The results, as linear forms over the symbols, must be the same as those the factors 7, 24, 60 and 60 give, and remainders must stay within their unit.",
    "assumptions": ["integer division rounds down, as Python's does"],
}

DUR = "pycalendar.duration:Duration"
DT = "pycalendar.datetime:DateTime"
PER = "pycalendar.period:Period"
OFF = "pycalendar.utcoffsetvalue:UTCOffsetValue"
TZ = "pycalendar.timezone:Timezone"
WEEK = 7 * 24 * 3600
DAY = 24 * 3600


class Units(Holes):
    def __init__(self):
        Holes.__init__(self)
        self.quotients = {}         # symbol -> (form divided, divisor)
        self.named = {}
        self.facts = {}             # terms -> (constant, lo, hi): the form with these terms and this constant lies between

    def divmod(self, f, k):
        q, m = Holes.divmod(self, f, k)
        if q is not None:
            return q, m
        big = Form(whole(f.c, k), {s: whole(c, k) for s, c in f.t})
        rest = f.add(big.mul(k), -1)
        lo, hi = self.bounds(rest)
        if lo // k == hi // k:
            j = lo // k
            return big.add(Form(j)), rest.add(Form(j * k), -1)
        base, n = rest, k
        if len(rest.t) == 1 and rest.t[0][1] == 1 and not rest.c and rest.t[0][0] in self.quotients:
            base, j = self.quotients[rest.t[0][0]]
            n = j * k
        if (base, n) not in self.named:
            s = "[%s/%d]" % (base, n)
            lo, hi = self.bounds(base)
            self.range[s] = (lo // n, hi // n)
            self.quotients[s] = (base, n)
            self.named[(base, n)] = s
        s = self.named[(base, n)]
        q = Form(0, {s: 1})
        m = rest.add(q.mul(k), -1)
        self.facts[m.t] = (m.c, 0, k - 1)
        return big.add(q), m

    # forms found to be zero on a path
    last = (None, None)

    def compare(self, ip, st, op, l, r, node):
        f, g = self.form(l), self.form(r)
        f = f.add(g, -1) if op in ("Eq", "NotEq") and f is not None and g is not None else None
        self.last = (node, f)
        t = Holes.compare(self, ip, st, op, l, r, node)
        if t is None and f is not None:
            z = self.zero(st, f)
            return None if z is None else z == (op == "Eq")
        return t

    def zero(self, st, f):
        """whether a form is zero on this path"""
        if f in st.client.get("nonzero", ()):
            return False
        zs = st.client.get("zero", ())
        return True if zs and vanishes(f, zs) else None

    def truth(self, ip, st, a):
        t = Holes.truth(self, ip, st, a)
        f = self.form(V(a)) if a[0] == "p" else None
        if t is None and f is not None and f.t:
            lo, hi = self.bounds(f)
            if lo > 0 or hi < 0:
                return True
            self.last = ("truth", f)
            z = self.zero(st, f)
            return None if z is None else not z
        return t

    def branch(self, ip, st, test, truth):
        node, f = self.last
        if f is not None and f.t:
            zero = None
            if node is test:
                zero = truth == (test.ops[0].t == "Eq")
            elif node == "truth" and test.t != "Compare":
                zero = not truth
            if zero:
                zs = st.client["zero"] = st.client.get("zero", ()) + (f,)
                syms = {s for z in zs for s, _k in z.t}
                if any((self.range[s][0] > 0 or self.range[s][1] < 0) and vanishes(Form(0, {s: 1}), zs) for s in syms) or vanishes(Form(1), zs):
                    return False        # a path that is never taken
            elif zero is False:
                st.client["nonzero"] = st.client.get("nonzero", ()) + (f, f.mul(-1))
        return Holes.branch(self, ip, st, test, truth)

    def bounds(self, f):
        lo, hi = Holes.bounds(self, f)
        for sign in (1, -1):
            g = f if sign == 1 else f.mul(-1)
            x = self.facts.get(g.t)
            if x is not None:
                a, b = x[1] + g.c - x[0], x[2] + g.c - x[0]
                if sign == -1:
                    a, b = -b, -a
                lo, hi = max(lo, a), min(hi, b)
        return lo, hi


def whole(c, k):
    """how many k there are in a coefficient, rounding toward zero: what is left stays small"""
    return c // k if c >= 0 else -(-c // k)


def vanishes(d, zeros):
    """whether a form is a combination of forms that are zero"""
    d = {s: Fraction(k) for s, k in d.t + (("", d.c),)}
    rows = []
    for z in zeros:
        z = {s: Fraction(k) for s, k in z.t + (("", z.c),) if k}
        for lead, row in rows:
            if z.get(lead):
                z = less(z, row, z[lead])
        if z:
            lead = next((s for s in sorted(z) if s), None)
            if lead is None:
                return True         # a path that is never taken
            rows.append((lead, {s: k / z[lead] for s, k in z.items()}))
    for lead, row in rows:
        if d.get(lead):
            d = less(d, row, d[lead])
    return not any(d.values())


def less(a, b, n):
    return {s: k for s, k in ((s, a.get(s, 0) - n * b.get(s, 0)) for s in set(a) | set(b)) if k}


def form(x):
    return Form(x) if isinstance(x, int) and not isinstance(x, bool) else x if isinstance(x, Form) else None


class Bench(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.run = Run(ctx, Units())
        self.q = self.run.pol
        self.n = 0
        self.st0 = self.run.st

    def sym(self, name, lo, hi):
        self.q.sym(name, lo, hi)
        return Form(0, {name: 1})

    def v(self, f):
        return V(self.q.atom(f)) if isinstance(f, Form) else self.run.val(f)

    def get(self, o, name, *args):
        r = self.run.meth(o, name, *[self.v(a) if not isinstance(a, frozenset) else a for a in args])
        return None if r is None else form(self.run.plain(r)) or self.run.plain(r)

    def new(self, cls, **kws):
        return self.run.new(cls, **{k: self.v(a) if isinstance(a, Form) else a for k, a in kws.items()})

    def ob(self, ok, rule, key, where, msg):
        self.n += 1
        return self.ctx.oblige(ok, rule, key, where, "%s: %s" % (key, msg))

    def same(self, got, want, rule, key, where, what):
        want = form(want)
        ok = isinstance(got, Form) and (got == want or vanishes(got.add(want, -1), self.run.st.client.get("zero", ())))
        return self.ob(ok, rule, key, where, "%s is %s, not %s" % (what, got, want))

    def within(self, got, lo, hi, rule, key, where, what):
        a, b = self.q.bounds(got) if isinstance(got, Form) else (None, None)
        return self.ob(a is not None and lo <= a and b <= hi, rule, key, where, "%s is %s, which is not within %d and %d" % (what, got, lo, hi))

    def play(self, key, where, rule, fn):
        """a scenario on every path"""
        run = self.run
        run.st = self.st0.fork()
        seen = [0]

        def go():
            seen[0] += 1
            n = self.n
            ok = fn()
            if self.n == n:
                self.ob(False, rule, key, where, "fails with %s" % getattr(run, "failed", "?"))
                return False
            return ok
        run.explore(go, 2000)
        if not seen[0]:
            raise AnalysisBroken("%s was not explored" % key)


def total(text, q):
    """the linear form a written duration stands for"""
    m = re.match(r"^([+-]?)P(?:([^WDT]+)W)?(?:([^WDT]+)D)?(T(?:([^HMS]+)H)?(?:([^HMS]+)M)?(?:([^HMS]+)S)?)?$", text, re.S)
    if not m:
        return None
    r = Form(0)
    for g, k in ((2, WEEK), (3, DAY), (5, 3600), (6, 60), (7, 1)):
        if m.group(g) is not None:
            f = q.num(m.group(g))
            if f is None:
                return None
            r = r.add(f.mul(k))
    return r.mul(-1) if m.group(1) == "-" else r


def durations(b):
    q, run = b.q, b.run
    w, d, h, m, s = (b.sym(n, 1, hi) for n, hi in (("w", 500), ("d", 400), ("h", 23), ("m", 59), ("s", 59)))
    units = {"weeks": (w, WEEK), "days": (d, DAY), "hours": (h, 3600), "minutes": (m, 60), "seconds": (s, 1)}

    # built from parts
    names = list(units)
    for mask in range(1, 32):
        kws = {n: units[n][0] for i, n in enumerate(names) if mask >> i & 1}
        key = "Duration(%s)" % ", ".join(sorted(kws))
        want = Form(0)
        for n in kws:
            want = want.add(units[n][0].mul(units[n][1]))

        def built():
            o = b.new(DUR, **kws)
            return o is not None and b.same(b.get(o, "getTotalSeconds"), want, "duration", key, DUR, "its length in seconds")
        b.play(key, DUR, "duration", built)

    # seconds taken apart
    n = b.sym("n", 0, 100)
    for label, r in (("whole weeks", n.mul(WEEK)), ("weeks and seconds", n.mul(WEEK).add(b.sym("r", 1, WEEK - 1))), ("seconds", b.sym("r0", 1, WEEK - 1)),
                     ("days", b.sym("rd", 1, 6).mul(DAY)), ("hours", b.sym("rh", 1, 23).mul(3600)), ("minutes", b.sym("rm", 1, 59).mul(60)), ("nothing", Form(0))):
        for sign in (1, -1):
            if label in ("nothing",) and sign < 0:
                continue
            secs = r.mul(sign) if sign > 0 or label != "whole weeks" else r.add(Form(WEEK)).mul(-1)
            key = "%s%s" % ("minus " if sign < 0 else "", label)
            for how in ("constructor", "setDuration"):
                def apart():
                    if how == "constructor":
                        o = b.new(DUR, duration=secs)
                    else:
                        o = b.new(DUR, days=b.sym("dd", 1, 50), hours=b.sym("hh", 1, 20))
                        if o is not None and run.meth(o, "setDuration", b.v(secs)) is None:
                            o = None
                    if o is None:
                        return False
                    ok = b.same(b.get(o, "getTotalSeconds"), secs, "taken apart", "%s, %s" % (key, how), DUR, "the length of a duration of %s seconds" % secs)
                    p = [b.get(o, g) for g in ("getWeeks", "getDays", "getHours", "getMinutes", "getSeconds")]
                    if all(isinstance(x, Form) for x in p):
                        for x, hi, what in ((p[2], 23, "hours"), (p[3], 59, "minutes"), (p[4], 59, "seconds")):
                            ok = b.within(x, 0, hi, "unit", "%s, %s, %s" % (key, how, what), DUR, what) and ok
                        acc = Form(0)
                        for x, k in zip(p, (WEEK, DAY, 3600, 60, 1)):
                            acc = acc.add(x.mul(k))
                        fw = const_of(run.meth(o, "getForward"))[1]
                        ok = b.same(acc.mul(1 if fw else -1), secs, "taken apart", "%s, %s, parts" % (key, how), DUR, "the sum of its parts") and ok
                    else:
                        ok = b.ob(False, "unit", "%s, %s" % (key, how), DUR, "the parts are not numbers: %s" % p)
                    t = run.meth(o, "getText")
                    t = const_of(t)[1] if t is not None else None
                    return b.same(total(t, q) if t else None, secs, "written", "%s, %s" % (key, how), DUR, "the length written as %s" % (t and q.show(t))) and ok
                b.play(key + ", " + how, DUR, "taken apart", apart)

    # read from text
    T = lambda f: q.dec(f)
    texts = [("P%sW", (w,), (WEEK,)), ("P%sD", (d,), (DAY,)), ("P%sDT%sH", (d, h), (DAY, 3600)), ("P%sDT%sM", (d, m), (DAY, 60)), ("P%sDT%sS", (d, s), (DAY, 1)),
             ("PT%sH", (h,), (3600,)), ("PT%sM", (m,), (60,)), ("PT%sS", (s,), (1,)), ("PT%sH%sM", (h, m), (3600, 60)), ("PT%sM%sS", (m, s), (60, 1)),
             ("PT%sH%sM%sS", (h, m, s), (3600, 60, 1)), ("P%sDT%sH%sM", (d, h, m), (DAY, 3600, 60)), ("P%sDT%sM%sS", (d, m, s), (DAY, 60, 1)),
             ("P%sDT%sH%sM%sS", (d, h, m, s), (DAY, 3600, 60, 1))]
    for pat, fs, ks in texts:
        want = Form(0)
        for f, k in zip(fs, ks):
            want = want.add(f.mul(k))
        for sg in ("", "+", "-"):
            key = sg + pat.replace("%s", "n")

            def read():
                o = run.static(DUR, "parseText", sg + pat % tuple(T(f) for f in fs))
                return o is not None and b.same(b.get(o, "getTotalSeconds"), want.mul(-1) if sg == "-" else want, "read", key, DUR, "the length read from the text")
            b.play(key, DUR, "read", read)


def offsets(b):
    """offsets from UTC"""
    q, run = b.q, b.run
    for sign in (1, -1):
        for label, r in (("hours and minutes", b.sym("oh", 0, 14).mul(3600).add(b.sym("om", 1, 59).mul(60))),
                         ("with seconds", b.sym("oh", 0, 14).mul(3600).add(b.sym("om", 0, 59).mul(60)).add(b.sym("os", 1, 59))),
                         ("hours", b.sym("oh1", 1, 14).mul(3600)), ("minutes", b.sym("om", 1, 59).mul(60))):
            secs = r.mul(sign)
            key = "%s%s" % ("minus " if sign < 0 else "", label)

            def written():
                o = b.new(OFF)
                if o is None or run.meth(o, "setValue", b.v(secs)) is None:
                    return False
                s = run.stream()
                if run.meth(o, "generate", s) is None:
                    return False
                t = run.buf(s)
                ok = b.same(hhmm(t, q), secs, "offset", key + ", written", OFF, "the offset written as %s" % q.show(t))
                j = run.list([])
                n = b.new(OFF)
                if run.meth(o, "writeJSONValue", j) is None or n is None:
                    return False
                u = run.plain(j)
                u = u[0] if isinstance(u, list) and len(u) == 1 else None
                ok = b.same(hhmm(u, q), secs, "offset", key + ", written as JSON", OFF, "the offset written as %s" % (u and q.show(u))) and ok
                if u is None or run.meth(n, "parseJSONValue", u) is None:
                    return b.ob(False, "offset", key + ", read from JSON", OFF, "the offset cannot be read: %s" % run.failed)
                ok = b.same(b.get(n, "getValue"), secs, "offset", key + ", read from JSON", OFF, "the offset read from %s" % q.show(u)) and ok
                n = b.new(OFF)
                if n is None or run.meth(n, "parse", t, "icalendar") is None:
                    return b.ob(False, "offset", key + ", read", OFF, "the offset written as %s cannot be read: %s" % (q.show(t), run.failed))
                return b.same(b.get(n, "getValue"), secs, "offset", key + ", read", OFF, "the offset read from %s" % q.show(t)) and ok
            b.play(key, OFF, "offset", written)

            if label != "with seconds":
                def zone():
                    o = moment(b, 2019, 5, "offset", secs)
                    if o is None:
                        return False
                    t = run.meth(o, "timeZoneDescriptor")
                    t = const_of(t)[1] if t is not None else None
                    ok = b.same(hhmm(t, q), secs, "offset", key + ", timeZoneDescriptor", DT, "the offset described as %s" % (t and q.show(t)))
                    for g in ("getText", "getXMLText"):
                        t = const_of(run.meth(o, g))[1]
                        m = re.match(r"^.{8,10}T.{6,8}?([+-].*)$", t, re.S)
                        ok = b.same(hhmm(m.group(1), q) if m else None, secs, "offset", "%s, %s" % (key, g), DT, "the offset written in %s" % q.show(t)) and ok
                        p = run.static(DT, "parseText", t, True)
                        tz = p is not None and run.meth(p, "getTimezoneID")
                        tz = run.plain(tz) if tz else None
                        ok = b.same(form(tz) if tz is not None else None, secs, "offset", "%s, %s read" % (key, g), DT, "the offset read from %s" % q.show(t)) and ok
                    return ok
                b.play(key + ", date-time", DT, "offset", zone)


def hhmm(t, q):
    if t is None or t[:1] not in "+-":
        return None
    b = t[1:].replace(":", "")
    if len(b) not in (4, 6):
        return None
    r = Form(0)
    for i, k in ((0, 3600), (2, 60), (4, 1)):
        if i < len(b):
            f = q.num(b[i:i + 2])
            if f is None:
                return None
            r = r.add(f.mul(k))
    return r.mul(-1) if t[0] == "-" else r


ZONES = ("floating", "utc", "offset")


SPANS = {"mid": (8, 20), "low": (1, 3), "high": (26, 28)}


def moment(b, year, month, zone, secs=None, span="mid", date_only=False):
    run = b.run
    day = b.sym("day " + span, *SPANS[span])
    kws = {"year": year, "month": month, "day": day}
    if not date_only:
        kws.update(hours=b.sym("hour", 0, 23), minutes=b.sym("min", 0, 59), seconds=b.sym("sec", 0, 59))
        if zone == "utc":
            kws["tzid"] = run.new(TZ, utc=True)
        elif zone == "offset":
            kws["tzid"] = run.new(TZ, tzid=b.v(secs if secs is not None else b.sym("tz", 1, 14).mul(3600)))
    return b.new(DT, **kws)


MONTHS = [(y, m) for y in (2019, 2020) for m in range(1, 13)] + [(1999, 12), (2000, 2), (2100, 2), (2100, 12), (1969, 12), (1900, 2), (1899, 12)]


def clock(b):
    """moving a date-time"""
    q, run = b.q, b.run
    k = b.sym("k", -70, 70)
    S = b.sym("S", -2 * DAY, 2 * DAY)
    defs = b.defs
    moves = [("offsetSeconds", (S,), S), ("offsetMinutes", (k,), k.mul(60)), ("offsetHours", (k,), k.mul(3600)), ("offsetDay", (b.sym("kd", -6, 6),), b.sym("kd", -6, 6).mul(DAY))]
    p = b.sym("ivl", 1, 7)
    for f, u in (("SECONDLY", 1), ("MINUTELY", 60), ("HOURLY", 3600), ("DAILY", DAY), ("WEEKLY", WEEK)):
        i = p if f != "WEEKLY" else b.sym("ivw", 1, 1)
        moves.append(("recur", (defs["eRecurrence_" + f], i), i.mul(u)))
    for zone in ZONES:
        for y, mth, span in [(y, m, "mid") for y, m in (MONTHS if zone == "utc" else MONTHS[:3])] + ([(y, m, s) for y, m in MONTHS for s in ("low", "high")] if zone == "utc" else []):
            for name, args, want in moves if span == "mid" else moves[:1]:
                key = "%s(%s), %s %d-%02d (%s)" % (name, ", ".join(str(a) for a in args), zone, y, mth, span)

                def move():
                    o = moment(b, y, mth, zone, span=span)
                    if o is None:
                        return False
                    before = b.get(o, "getPosixTime")
                    if run.meth(o, name, *[b.v(a) for a in args]) is None:
                        return False
                    after = b.get(o, "getPosixTime")
                    if not isinstance(before, Form) or not isinstance(after, Form):
                        return b.ob(False, "moved", key, DT, "the times before and after are not numbers: %s, %s" % (before, after))
                    ok = b.same(after.add(before, -1), want, "moved", key, DT, "the difference in seconds")
                    for g, hi in (("getSeconds", 59), ("getMinutes", 59), ("getHours", 23)):
                        ok = b.within(b.get(o, g), 0, hi, "unit", key + ", " + g, DT, g) and ok
                    return ok
                b.play(key, DT, "moved", move)

    # durations added and taken away
    for zone in ZONES:
        for y, mth, span in [(y, m, "mid") for y, m in (MONTHS if zone == "floating" else MONTHS[1:4])] + ([(y, m, s) for y, m in MONTHS for s in ("low", "high")] if zone == "floating" else []):
            for sign, name, what in ((1, "__add__", "a duration"), (-1, "__sub__", "a duration"), (1, "__add__", "a negative duration"), (-1, "__sub__", "a negative duration"),
                                     (1, "__add__", "weeks"), (-1, "__sub__", "weeks"), (1, "__add__", "negative weeks"), (-1, "__sub__", "negative weeks")):
                if what != "a duration" and (zone != "utc" or span != "mid"):
                    continue
                key = "%s %s, %s %d-%02d (%s)" % (name, what, zone, y, mth, span)

                def add():
                    o = moment(b, y, mth, zone, span=span)
                    secs = b.sym("R", 1, 2 * DAY) if "weeks" not in what else Form(WEEK)
                    if "negative" in what:
                        secs = secs.mul(-1)
                    d = b.new(DUR, duration=secs)
                    if o is None or d is None:
                        return False
                    before = b.get(o, "getPosixTime")
                    e = run.meth(o, name, d)
                    if e is None:
                        return False
                    after = b.get(e, "getPosixTime")
                    if not isinstance(after, Form) or not isinstance(before, Form):
                        return b.ob(False, "added", key, DT, "the times before and after are not numbers")
                    ok = b.same(after.add(before, -1), secs.mul(sign), "added", key, DT, "the difference in seconds")
                    ok = b.same(b.get(o, "getPosixTime"), before, "added", key + ", original", DT, "the original's time") and ok
                    x = run.meth(e, "__sub__", o)
                    if x is None:
                        return b.ob(False, "added", key + ", taken back", DT, "the difference cannot be computed: %s" % run.failed)
                    return b.same(b.get(x, "getTotalSeconds"), secs.mul(sign), "added", key + ", taken back", DT, "the duration between the two") and ok
                b.play(key, DT, "added", add)
    # dates
    for y, mth in MONTHS:
        key = "dates %d-%02d" % (y, mth)

        def dates():
            o = moment(b, y, mth, "floating", date_only=True)
            days = b.sym("kd2", 1, 30)
            d = b.new(DUR, days=days)
            if o is None or d is None:
                return False
            e = run.meth(o, "__add__", d)
            x = run.meth(e, "__sub__", o) if e is not None else None
            if x is None:
                return False
            return b.same(b.get(x, "getTotalSeconds"), days.mul(DAY), "added", key, DT, "the duration between two dates")
        b.play(key, DT, "added", dates)

    # zones
    for y, mth in MONTHS[:4]:
        z, z2 = b.sym("tz", 1, 14).mul(3600), b.sym("tz2", 1, 13).mul(-3600).add(Form(-1800))
        for label, secs in (("east", z), ("west", z2)):
            for to in ("utc", "adjust utc", "other"):
                key = "adjusted from %s to %s, %d-%02d" % (label, to, y, mth)

                def adjust():
                    o = moment(b, y, mth, "offset", secs)
                    if o is None:
                        return False
                    before = b.get(o, "getPosixTime")
                    fresh = moment(b, y, mth, "offset", secs)
                    if to == "utc":
                        r = run.meth(fresh, "adjustToUTC")
                    else:
                        r = run.meth(fresh, "adjustTimezone", run.new(TZ, utc=True) if to == "adjust utc" else run.new(TZ, tzid=b.v(z if secs is z2 else z2)))
                    if r is None or run.meth(fresh, "changed") is None:
                        return False
                    after = b.get(fresh, "getPosixTime")
                    return b.same(after, before, "adjusted", key, DT, "the instant")
                b.play(key, DT, "adjusted", adjust)


def periods(b):
    q, run = b.q, b.run
    for zone in ("floating", "utc"):
        for y, mth in MONTHS[::3]:
            key = "period, %s %d-%02d" % (zone, y, mth)
            secs = b.sym("R", 1, 2 * DAY)

            def start_duration():
                o = moment(b, y, mth, zone)
                d = b.new(DUR, duration=secs)
                p = run.new(PER, start=o, duration=d) if o is not None and d is not None else None
                if p is None:
                    return False
                e, s = run.meth(p, "getEnd"), run.meth(p, "getStart")
                if e is None or s is None:
                    return False
                x, z = b.get(e, "getPosixTime"), b.get(s, "getPosixTime")
                ok = b.same(x.add(z, -1) if isinstance(x, Form) and isinstance(z, Form) else None, secs, "period", key + ", end", PER, "the length up to its end")
                return b.same(b.get(run.meth(p, "getDuration"), "getTotalSeconds"), secs, "period", key + ", duration", PER, "its duration") and ok
            b.play(key + ", from a duration", PER, "period", start_duration)

            def start_end():
                o = moment(b, y, mth, zone)
                d = b.new(DUR, duration=secs)
                e = run.meth(o, "__add__", d) if o is not None and d is not None else None
                p = run.new(PER, start=o, end=e) if e is not None else None
                if p is None:
                    return False
                return b.same(b.get(run.meth(p, "getDuration"), "getTotalSeconds"), secs, "period", key + ", from its end", PER, "its duration")
            b.play(key + ", from an end", PER, "period", start_end)


def run(ctx):
    b = Bench(ctx)
    defs = ctx.prog.modules["pycalendar.icalendar.definitions"]
    b.defs = {}
    for f in ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY"):
        n = "eRecurrence_" + f
        v = b.run.ip.get_attr(b.run.st, V(("mod", defs)), n, None)[0][1]
        ok, c = const_of(v)
        if not ok:
            raise AnalysisBroken("no value for %s" % n)
        b.defs[n] = c
    durations(b)
    offsets(b)
    clock(b)
    periods(b)
    ctx.count("results", b.n)
    ctx.floor("results", 500)
    ctx.used(*b.run.ip.inlined)
