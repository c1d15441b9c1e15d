"""P17: strict parsing - every tolerated deviation is an error, and nothing else is."""
from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from .holes import NODE
from . import wire, tree as T

INFO = {
    "level": "other",
    "technique": "abstract interpretation of the parsers over deviating property lines, calendars and cards with holes, per leniency option and with all options strict",
    "note": "Every property and value type is given every deviation that a leniency option covers, at every place it can occur, with arbitrary text around it; "
            "reading must end in one of the library's own errors on every path when the option (or every option) is set to raise. "
            "Lines, calendars and cards without deviations must be read as before.",
    "explanation": "The options are set through the interpreted allRaise() and one by one. Deviating inputs are property lines (text, and the values of "
                   "JSON properties) with holes for arbitrary text and numbers; the interpreted parser must not accept them. Well-formed lines of every property and "
                   "type, and whole calendars and cards, must be accepted under the strict options and written back as they are.",
    "assumptions": ["deviations the options do not mention (a lone trailing backslash, for one) are not covered; the options for version 2 base64 and backslashes "
                    "in URIs are documented to fix or allow only, and so have nothing to raise"],
}

OPTIONS = "pycalendar.parser:ParserContext"
OWN = {"InvalidData", "InvalidProperty", "InvalidComponent"}
VARIANTS = wire.VARIANTS
ESCAPES = "".join(chr(c) for c in range(32, 127) if chr(c) not in "\\,;:nNr") + "\t\xc3"
FEW = "xt\"-"
DOCUMENTED = {"VCARD_2_BASE64", "BACKSLASH_IN_URI_VALUE"}


class Strict(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = wire.Player(ctx)
        self.run = self.p.run
        self.w = self.p.w
        self.q = self.run.pol
        self.cls = self.run.cls(OPTIONS)
        self.st0 = self.run.st
        self.options = self.read_options()
        self.level = {n: self.const("PARSER_" + n) for n in ("ALLOW", "IGNORE", "FIX", "RAISE")}
        ctx.require(len(set(self.level.values())) == 4, "the parser levels are not distinct") if hasattr(ctx, "require") else None

    def const(self, n):
        ok, c = const_of(self.run.attr(V(("cl", self.cls)), n))
        if not ok:
            raise AnalysisBroken("%s has no constant value" % n)
        return c

    def read_options(self):
        o = self.run.st.heap.get(("cls", self.cls.full))
        names = set(self.cls.attrs) if hasattr(self.cls, "attrs") else set()
        if o is not None:
            names |= set(o.fields)
        return sorted(n for n in names if n.isupper() and not n.startswith("PARSER_"))

    def set(self, **opts):
        self.run.st = self.st0.fork()
        for n, v in opts.items():
            self.run.ip.set_attr(self.run.st, V(("cl", self.cls)), n, V(K(v)), NODE)

    def all(self):
        self.run.st = self.st0.fork()
        if self.run.static(OPTIONS, "allRaise") is None:
            raise AnalysisBroken("allRaise fails")

    def lenient(self):
        fix = self.level["FIX"]
        self.set(**{n: fix for n in self.options})

    def alone(self, option):
        fix = self.level["FIX"]
        self.set(**{n: self.level["RAISE"] if n == option else fix for n in self.options})


# ---------------------------------------------------------------- deviations of values
def texts(T_, chars, colon):
    """(option, label, text) around arbitrary text"""
    a, b = T_("a"), T_("b")
    opt = "INVALID_COLON_ESCAPE_SEQUENCE" if colon else "INVALID_ESCAPE_SEQUENCES"
    for c in (":" if colon else chars):
        e = "\\" + c
        yield opt, "\\%s between texts" % c, a + e + b
        if c in ":" + FEW:
            yield opt, "\\%s alone" % c, e
            yield opt, "\\%s at the beginning" % c, e + a
            yield opt, "\\%s at the end" % c, a + e
            yield opt, "\\%s after an escaped backslash" % c, a + "\\\\" + e + b
            yield opt, "\\%s after an escaped comma" % c, "\\," + e + b
            yield opt, "\\%s before an escaped newline" % c, a + e + "\\n"


def dates(w, typ, full=False):
    """leading spaces in the year or the parts after it"""
    r = []
    num = w.num
    y2, y3 = num("ys2", 10, 99, 2), num("ys3", 100, 999, 3)
    m, d = num("mon", 1, 12, 2), num("day", 1, 28, 2)
    sep = ("", "-") if full else ("",)
    for s in sep:
        ds = [("year", "  " + y2 + s + m + s + d), ("year", " " + y3 + s + m + s + d), ("month", num("year", 1971, 2100, 4) + s + " " + num("m1", 1, 9, 1) + s + d),
              ("day", num("year", 1971, 2100, 4) + s + m + s + " " + num("d1", 1, 9, 1))]
        t = ":" if s else ""
        for what, x in ds:
            if typ == "DATE":
                r.append((what, x))
            else:
                time = "T" + num("hour", 0, 23, 2) + t + num("min", 0, 59, 2) + t + num("sec", 0, 59, 2)
                r.append((what, x + time))
                r.append((what + " (UTC)", x + time + "Z"))
    return r


def durations(w):
    n, m = w.num("w", 1, 500), w.num("h", 1, 23)
    for sg in ("", "-", "+"):
        for label, t in (("time after weeks", "P%sWT%sH" % (n, m)), ("days after weeks", "P%sW%sD" % (n, m)), ("text after weeks", "P%sWx" % n),
                         ("no time after T", "P%sDT" % n), ("nothing but T", "PT")):
            yield label, sg + t


def deviations(w, typ, variant, name):
    """(option, label, value text)"""
    T_ = w.text
    if typ == "TEXT":
        chars = ESCAPES if name in ("SUMMARY", "NOTE") else FEW
        for colon in (True, False):
            for x in texts(T_, chars, colon):
                yield x
    elif typ in ("ADR", "N", "ORG"):
        n = {"ADR": 7, "N": 5, "ORG": 2}[typ]
        parts = [T_("p%d" % i) for i in range(n)]
        for colon in (True, False):
            for opt, label, t in texts(T_, FEW, colon):
                if "between" not in label and "alone" not in label:
                    continue
                for i in range(n):
                    yield opt, "%s in part %d" % (label, i + 1), ";".join(t if j == i else p for j, p in enumerate(parts))
                    if typ != "ORG":
                        yield opt, "%s in a list in part %d" % (label, i + 1), ";".join(T_("q") + "," + t if j == i else p for j, p in enumerate(parts))
        if typ != "ORG":
            for k in (1, 2, 5):
                yield "INVALID_ADR_N_VALUES", "%d parts too many" % k, ";".join(parts + [T_("x%d" % i) for i in range(k)])
                yield "INVALID_ADR_N_VALUES", "%d empty parts too many" % k, ";".join(parts + [""] * k)
            yield "INVALID_ADR_N_VALUES", "one part too many, with lists", ";".join([p + "," + p for p in parts] + [T_("x") + "," + T_("y")])
    elif typ == "REQUEST-STATUS":
        a, b, c = "2." + w.num("rs", 0, 9), T_("b"), T_("c")
        opt = "INVALID_REQUEST_STATUS_VALUE"
        yield opt, "one part", a
        yield opt, "empty", ""
        yield opt, "escaped separator", a + "\\;" + b
        yield opt, "text alone", b
        yield opt, "four parts", ";".join((a, b, c, T_("d")))
        yield opt, "five parts", ";".join((a, b, c, T_("d"), T_("e")))
        yield opt, "four parts, the last empty", ";".join((a, b, c, ""))
        yield opt, "backslash in the code", a + "\\\\;" + b
        yield opt, "backslash in the code of three parts", a + "\\\\;" + b + ";" + c
        yield opt, "backslash within the code", "2\\\\." + a[2:] + ";" + b
        for colon in (True, False):
            for opt, label, t in texts(T_, FEW, colon):
                yield opt, label + " in the description", a + ";" + t
                yield opt, label + " in the data", a + ";" + b + ";" + t
                if "between" in label:
                    yield opt, label + " in the code", t + ";" + b
    elif typ == "GEO":
        x, y = w.p.floattext("x"), w.p.floattext("y")
        yield "BACKSLASH_IN_GEO_VALUE", "escaped separator", x + "\\;" + y
    elif typ in ("DATE", "DATE-TIME"):
        for what, t in dates(w, typ, variant == "vcard"):
            yield "INVALID_DATETIME_LEADINGSPACE", "space in the " + what, t
        for k in ("date",) if typ == "DATE-TIME" else ("floating", "utc"):
            yield "INVALID_DATETIME_VALUE", k + " in place of " + typ, w.date(k)
    elif typ == "DURATION":
        for label, t in durations(w):
            yield "INVALID_DURATION_VALUE", "%s (%s)" % (label, t[0]), t
    elif typ == "PERIOD":
        for k in ("floating", "utc"):
            s = w.date(k)
            for label, t in durations(w):
                if t[0] == "P":
                    yield "INVALID_DURATION_VALUE", "%s, %s" % (k, label), s + "/" + t
        w.num("year2", 2101, 2105)
        for what, t in dates(w, "DATE-TIME"):
            yield "INVALID_DATETIME_LEADINGSPACE", "space in the %s of the end" % what, w.date("utc") + "/" + t
            yield "INVALID_DATETIME_LEADINGSPACE", "space in the %s of the start" % what, t + "/" + w.date("utc", tag="2")
            yield "INVALID_DATETIME_LEADINGSPACE", "space in the %s of the start, with duration" % what, t + "/PT1H"
    elif typ == "RECUR":
        for kind in ("DATE", "DATE-TIME"):
            for what, t in dates(w, kind):
                yield "INVALID_DATETIME_LEADINGSPACE", "space in the %s of an UNTIL %s" % (what, kind), "FREQ=DAILY;UNTIL=" + t


def parameters(s):
    """(option, label, line) deviations of the parameters of a vCard property"""
    opt = "VCARD_2_NO_PARAMETER_VALUES"
    v = s.line().split(":", 1)
    for label, ps in (("alone", ";HOME"), ("lower case", ";home"), ("two", ";HOME;WORK"), ("before a parameter", ";HOME;X-P=1"), ("after a parameter", ";X-P=1;HOME"),
                      ("after a list", ";X-P=1,2;HOME"), ("BASE64", ";BASE64"), ("quoted", ';"HOME"')):
        yield opt, "parameter without value, " + label, v[0] + ps + ":" + v[1]


# ---------------------------------------------------------------- whole objects
def blanks(tree):
    """(label, text) with a blank line at every place before the end"""
    ls = tree.text().split("\r\n")[:-1]
    for i in range(len(ls)):
        yield "before %s" % ls[i].split(":")[0], "\r\n".join(ls[:i] + [""] + ls[i:]) + "\r\n"
    yield "two at the beginning", "\r\n\r\n" + tree.text()


def run(ctx):
    S = Strict(ctx)
    r, q = S.run, S.q
    thorough = ctx.tier == "thorough"

    # ---- the switch itself
    ctx.rule("options")
    S.all()
    for n in S.options:
        ctx.oblige(S.const(n) == S.level["RAISE"], "options", n, OPTIONS, "%s is not set to raise by allRaise()" % n)
    ctx.count("options", len(S.options))
    ctx.floor("options", 12)
    strict = r.st

    def refused(mode, make):
        """None when the reading fails with the library's own error"""
        if mode == "all":
            r.st = strict
        elif mode == "fix":
            S.lenient()
        else:
            S.alone(mode)
        bad = []

        def go():
            o = make()
            if o is not None:
                bad.append("is accepted")
                return False
            if not set(r.failed) <= OWN:
                bad.append("fails with %s" % ", ".join(r.failed))
                return False
        r.explore(go)
        return bad[0] if bad else None

    def deviate(option, rule, title, where, make):
        for mode in (option, "all"):
            b = refused(mode, make)
            ctx.oblige(b is None, rule, "%s|%s|%s" % (mode, option, title), where,
                       "%s %s with %s" % (title, b, "every option set to raise" if mode == "all" else "%s set to raise" % option))
        if ctx.tier == "audit":      # by hand: the deviation is tolerated when the options say so
            b = refused("fix", make)
            ctx.oblige(b == "is accepted", rule, "fix|%s|%s" % (option, title), where, "%s is not tolerated at all" % title)

    # ---- property lines
    ctx.rule("deviation")
    seen = set()
    per = {}
    n = 0
    for s in wire.scenarios(S.w):
        cls = VARIANTS[s.variant][0]
        key = (s.variant, s.name.upper(), s.typ)
        if key in seen or s.implied or s.typ in ("BOOLEAN", "TIME"):
            continue
        seen.add(key)
        todo = [(o, l, s.line(value=t)) for o, l, t in deviations(S.w, s.typ, s.variant, s.name)]
        if s.name.upper() in wire.MULTI[s.variant]:
            ok = list(S.w.values(s.typ, s.variant))[0][1]
            todo += [(o, l + ", second of two", s.line(value=ok + "," + t)) for o, l, t in deviations(S.w, s.typ, s.variant, s.name)]
            todo += [(o, l + ", first of two", s.line(value=t + "," + ok)) for o, l, t in deviations(S.w, s.typ, s.variant, s.name)]
        if s.variant == "vcard":
            todo += list(parameters(s))
        for option, label, line in todo:
            if option not in S.options:
                ctx.oblige(False, "options", option, OPTIONS, "the option %s is gone" % option)
                continue
            n += 1
            per[option] = per.get(option, 0) + 1
            deviate(option, "deviation", "%s %s of type %s: %s" % (s.variant, s.name, s.typ, label), cls, lambda: r.static(cls, "parseText", line))
            if n % 200 == 0:
                ctx.sample(q.show(line))
    ctx.count("deviating lines", n)
    ctx.floor("deviating lines", 1000)

    # ---- JSON values that are texts of their own syntax
    for variant, name, typ in (("ical", "DTSTART", "date-time"), ("ical", "DTSTART", "date"), ("ical", "EXDATE", "date-time"), ("ical", "DURATION", "duration"),
                               ("ical", "TRIGGER", "duration"), ("ical", "RECURRENCE-ID", "date-time"), ("vcard", "BDAY", "date"), ("vcard", "REV", "date-time")):
        cls = VARIANTS[variant][0]
        if typ == "duration":
            vals = [("INVALID_DURATION_VALUE", l, t) for l, t in durations(S.w)]
        else:
            vals = [("INVALID_DATETIME_LEADINGSPACE", "space in the " + l, t) for l, t in dates(S.w, typ.upper(), True) if "-" in t]
            vals += [("INVALID_DATETIME_VALUE", "the other of date and date-time", S.w.date("date" if typ == "date-time" else "utc", True))]
        for option, label, t in vals:
            n += 1
            per[option] = per.get(option, 0) + 1

            def make():
                return r.static(cls, "parseJSON", r.list([r.val(name.lower()), r.dict(), r.val(typ), r.val(t)]))
            deviate(option, "deviation", "JSON %s %s of type %s: %s" % (variant, name, typ, label), cls, make)

    # ---- blank lines
    ctx.rule("blank")
    k = 0
    tp = T.Player(ctx)
    S2 = S
    cal = T.Node("VCALENDAR", ["VERSION:2.0", "PRODID:-//x//y"], [
        T.Node("VEVENT", ["UID:u1", "DTSTART:20200115T120000Z", "DTSTAMP:20200101T000000Z", "SUMMARY:" + tp.run.pol.text("s")],
               [T.Node("VALARM", ["ACTION:AUDIO", "TRIGGER:-PT5M"])])])
    card = T.Node("VCARD", ["VERSION:3.0", "N:a;b;c;d;e", "FN:" + S.q.text("f")])
    entries = [("calendar", T.CAL, cal, lambda t: r.static(T.CAL, "parseText", t)),
               ("single component", T.CAL, cal, lambda t: r.meth(r.new(T.CAL, add_defaults=False), "parseComponent", r.call(V(("ext", "cStringIO.StringIO")), t))),
               ("card", T.CARD, card, lambda t: r.static(T.CARD, "parseText", t)),
               ("sequence of cards", T.CARD, card, lambda t: r.static(T.CARD, "parseMultipleTextData", t))]
    for title, where, tree, read in entries:
        todo = list(blanks(tree))
        if title == "sequence of cards":
            two = tree.text() + tree.text()
            todo += [("between two cards", tree.text() + "\r\n" + tree.text()), ("at the end", two + "\r\n")]
        if title in ("calendar", "card"):
            todo.append(("at the end", tree.text() + "\r\n"))
        for label, text in todo:
            k += 1
            deviate("BLANK_LINES_IN_DATA", "blank", "%s with a blank line %s" % (title, label), where, lambda: read(text))
        r.st = strict
        ok = []
        r.explore(lambda: ok.append(read(tree.text()) is not None))
        ctx.oblige(all(ok), "accepted", title, where, "a %s without deviations is refused when every option is set to raise: %s" % (title, r.failed))
    ctx.count("blank lines", k)
    ctx.floor("blank lines", 40)

    # ---- nothing else is refused
    ctx.rule("accepted")
    m = 0
    for s in wire.scenarios(S.w):
        cls = VARIANTS[s.variant][0]
        r.st = strict
        m += 1
        out = []

        def one():
            o = r.static(cls, "parseText", s.line())
            t = None if o is None else S.p.text(o)
            out.append(None if o is not None and (s.typ in ("BOOLEAN", "TIME") or t is not None and wire.unfold(t) == s.line() + "\r\n") else
                       "is refused: %s" % r.failed if o is None else "is written as %s" % (t and q.show(t)))
        r.explore(one)
        bad = [x for x in out if x]
        ctx.oblige(not bad, "accepted", s.title(), cls, "%s %s when every option is set to raise" % (s.title(), bad[:1]))
    ctx.count("accepted lines", m)
    ctx.floor("accepted lines", 500)
    r.st = strict
    for title, variant, tree in T.trees(S.q.text):
        out = []
        r.st = strict

        def whole():
            o = r.static(T.CAL if variant == "ical" else T.CARD, "parseText", tree.text())
            out.append(o is not None)
        r.explore(whole)
        ctx.oblige(all(out), "accepted", title, T.CAL, "%s is refused when every option is set to raise: %s" % (title, r.failed))
    for o, c in sorted(per.items()):
        ctx.count("deviations " + o, c)
    for o in S.options:
        if o not in DOCUMENTED and o not in per and o != "BLANK_LINES_IN_DATA":
            raise AnalysisBroken("no deviation for the option %s" % o)
    ctx.used(*r.ip.inlined)
