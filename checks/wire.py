"""Property lines with holes: every property and every value type, as read, written as text, XML and JSON, and read back."""
from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from .holes import Run, Form, Holes


VARIANTS = {"ical": ("pycalendar.icalendar.property:Property", "pycalendar.icalendar.definitions"),
            "vcard": ("pycalendar.vcard.property:Property", "pycalendar.vcard.definitions")}

# values and properties by the standards (RFC 5545, 6321, 7265, 2426, 6350/7095 as far as the library goes)
JSONTYPE = {"BINARY": "binary", "BOOLEAN": "boolean", "CAL-ADDRESS": "cal-address", "DATE": "date", "DATE-TIME": "date-time", "DURATION": "duration",
            "FLOAT": "float", "INTEGER": "integer", "PERIOD": "period", "RECUR": "recur", "TEXT": "text", "TIME": "time", "URI": "uri",
            "UTC-OFFSET": "utc-offset", "UNKNOWN": "unknown"}


class Wire(object):
    def __init__(self, run):
        self.r, self.p = run, run.pol
        self.n = 0
        for n, lo, hi in (("year", 1971, 2100), ("mon", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("min", 0, 59), ("sec", 0, 59)):
            self.p.sym(n, lo, hi)

    def num(self, name, lo, hi, w=0):
        if name not in self.p.range:
            self.p.sym(name, lo, hi)
        return self.p.dec(Form(0, {name: 1}), w)

    def text(self, name):
        return self.p.text(name)

    def date(self, kind, sep=False, tag=""):
        f = lambda n, w, lo, hi: self.num(n + tag, lo, hi, w)
        d, t = ("-", ":") if sep else ("", "")
        s = f("year", 4, 1971, 2100) + d + f("mon", 2, 1, 12) + d + f("day", 2, 1, 28)
        if kind != "date":
            s += "T" + f("hour", 2, 0, 23) + t + f("min", 2, 0, 59) + t + f("sec", 2, 0, 59)
            if kind == "utc":
                s += "Z"
        return s

    def durations(self):
        w, d, h, m, s = (self.num(n, 1, hi) for n, hi in (("w", 500), ("d", 400), ("h", 23), ("m", 59), ("s", 59)))
        for t in ("P%sW" % w, "P%sD" % d, "PT%sH" % h, "PT%sM" % m, "PT%sS" % s, "PT%sH%sM" % (h, m), "PT%sM%sS" % (m, s), "P%sDT%sH" % (d, h),
                  "P%sDT%sM" % (d, m), "P%sDT%sS" % (d, s), "P%sDT%sH%sM" % (d, h, m), "PT%sH%sM%sS" % (h, m, s), "P%sDT%sH%sM%sS" % (d, h, m, s),
                  "PT0S", "PT%sH0M%sS" % (h, s)):
            yield t
            if t != "PT0S":
                yield "-" + t

    # (value text, [(xml tag, xml text or kids)], [json values]) per type
    def plain(self, t):
        return t, [(None, t)], [t]

    def values(self, typ, variant):
        """[(label, text, [(tag, text | [(tag, text)])], [json value])] - tag None: the type's own element"""
        T = self.text
        if typ in ("BINARY", "URI", "CAL-ADDRESS", "UNKNOWN", "BOOLEAN", "TIME"):
            t = T("a")
            yield "text", t, [(None, t)], [t]
            if typ == "URI":
                t = T("a") + ":" + T("b") + ",;" + T("c")
                yield "reserved characters", t, [(None, t)], [t]
        elif typ == "TEXT":
            t = T("a")
            yield "text", t, [(None, t)], [t]
            yield "empty", "", [(None, "")], [""]
            for c, e in ((",", "\\,"), (";", "\\;"), ("\\", "\\\\"), ("\n", "\\n"), (":", ":"), ('"', '"'), ("\\n", "\\\\n"), ("\\,", "\\\\\\,"), ("\\;", "\\\\\\;")):
                t = T("a") + c + T("b")
                yield "with %r" % c, T("a") + e + T("b"), [(None, t)], [t]
                yield "ending with %r" % c, T("a") + e, [(None, T("a") + c)], [T("a") + c]
                yield "beginning with %r" % c, e + T("a"), [(None, c + T("a"))], [c + T("a")]
            t = T("a") + ",;\\\n" + T("b") + "\n\n\\\\" + T("c")
            yield "many", T("a") + "\\,\\;\\\\\\n" + T("b") + "\\n\\n\\\\\\\\" + T("c"), [(None, t)], [t]
        elif typ == "INTEGER":
            t = self.num("int", 0, 10 ** 6)
            yield "number", t, [(None, t)], [Form(0, {"int": 1})]
            t = self.num("int1", 1, 10 ** 6)
            yield "negative number", "-" + t, [(None, "-" + t)], [Form(0, {"int1": -1})]
        elif typ == "FLOAT":
            f = self.p.floating("x")
            yield "number", self.p.floattext("x"), [(None, self.p.floattext("x"))], [f]
        elif typ == "GEO":
            a, b = self.p.floattext("x"), self.p.floattext("y")
            yield "two numbers", a + ";" + b, [(None, [("latitude", a), ("longitude", b)])], [[self.p.floating("x"), self.p.floating("y")]]
        elif typ == "DATE":
            yield "date", self.date("date"), [("date", self.date("date", True))], [self.date("date", True)]
        elif typ == "DATE-TIME":
            for k in ("floating", "utc"):
                yield k, self.date(k), [("date-time", self.date(k, True))], [self.date(k, True)]
        elif typ == "DURATION":
            for t in self.durations():
                yield t, t, [(None, t)], [t]
        elif typ == "PERIOD":
            for k in ("floating", "utc"):
                s, x = self.date(k), self.date(k, True)
                self.num("year2", 2101, 2105)
                e, y = self.date(k, tag="2"), self.date(k, True, tag="2")
                yield k + " start/end", s + "/" + e, [(None, [("start", x), ("end", y)])], [[x, y]]
                for t in ("PT%sH" % self.num("h", 1, 23), "P%sW" % self.num("w", 1, 500), "P%sDT%sM" % (self.num("d", 1, 400), self.num("m", 1, 59))):
                    yield k + " start/" + t, s + "/" + t, [(None, [("start", x), ("duration", t)])], [[x, t]]
        elif typ == "RECUR":
            i = self.num("ivl", 2, 10000)
            yield "rule", "FREQ=DAILY;INTERVAL=" + i, [(None, [("freq", "DAILY"), ("interval", i)])], [{"freq": "DAILY", "interval": Form(0, {"ivl": 1})}]
        elif typ == "UTC-OFFSET":
            for sg in "+-":
                h, m, s = self.num("oh", 1, 14, 2), self.num("om", 0, 59, 2), self.num("os", 1, 59, 2)
                yield sg + "hhmm", sg + h + m, [(None, sg + h + ":" + m)], [sg + h + ":" + m]
                yield sg + "hhmmss", sg + h + m + s, [(None, sg + h + ":" + m + ":" + s)], [sg + h + ":" + m + ":" + s]
                yield sg + "00mm", sg + "00" + self.num("om1", 1, 59, 2), [(None, sg + "00:" + self.num("om1", 1, 59, 2))], [sg + "00:" + self.num("om1", 1, 59, 2)]
        elif typ == "REQUEST-STATUS":
            a, b, c = T("a"), T("b"), T("c")
            yield "two parts", a + ";" + b, [(None, [("code", a), ("description", b)])], [[a, b]]
            yield "three parts", a + ";" + b + ";" + c, [(None, [("code", a), ("description", b), ("data", c)])], [[a, b, c]]
            for ch in ",;\\\n":
                e = "\\" + ("n" if ch == "\n" else ch)
                yield "with %r" % ch, a + ";" + b + e + b + ";" + c + e, [(None, [("code", a), ("description", b + ch + b), ("data", c + ch)])], [[a, b + ch + b, c + ch]]
        elif typ in ("ADR", "N"):
            names = ("pobox", "ext", "street", "locality", "region", "code", "country") if typ == "ADR" else ("surname", "given", "additional", "prefix", "suffix")
            ts = [T("p%d" % i) for i in range(len(names))]
            yield "plain parts", ";".join(ts), [(n, t) for n, t in zip(names, ts)], [list(ts)]
            es = ["%s" % t if i != 2 else "" for i, t in enumerate(ts)]
            yield "empty part", ";".join(es), [(n, t) for n, t in zip(names, es)], [es]
            for ch in ",;\\\n":
                e = "\\" + ("n" if ch == "\n" else ch)
                yield "with %r" % ch, ";".join(t + e + t + e for t in ts), [(n, t + ch + t + ch) for n, t in zip(names, ts)], [[t + ch + t + ch for t in ts]]
            for i in range(len(names)):
                l = [t if j != i else (t, T("q")) for j, t in enumerate(ts)]
                yield "list in %s" % names[i], ";".join(",".join(t) if isinstance(t, tuple) else t for t in l), \
                    [(n, u) for n, t in zip(names, l) for u in (t if isinstance(t, tuple) else (t,))], [l]
        elif typ == "ORG":
            a, b = T("a"), T("b")
            yield "one unit", a, [(None, a)], [[a]]
            yield "two units", a + ";" + b, [(None, a), (None, b)], [[a, b]]
            for ch in ",;\\\n":
                e = "\\" + ("n" if ch == "\n" else ch)
                yield "with %r" % ch, a + e + a + e + ";" + b + e, [(None, a + ch + a + ch), (None, b + ch)], [[a + ch + a + ch, b + ch]]
        else:
            raise AnalysisBroken("no sample values for type %s" % typ)


ICAL = {"CALSCALE": "TEXT", "METHOD": "TEXT", "PRODID": "TEXT", "VERSION": "TEXT", "ATTACH": "URI", "CATEGORIES": "TEXT", "CLASS": "TEXT", "COMMENT": "TEXT",
        "DESCRIPTION": "TEXT", "GEO": "FLOAT", "LOCATION": "TEXT", "PERCENT-COMPLETE": "INTEGER", "PRIORITY": "INTEGER", "RESOURCES": "TEXT", "STATUS": "TEXT",
        "SUMMARY": "TEXT", "COMPLETED": "DATE-TIME", "DTEND": "DATE-TIME", "DUE": "DATE-TIME", "DTSTART": "DATE-TIME", "DURATION": "DURATION",
        "FREEBUSY": "PERIOD", "TRANSP": "TEXT", "TZID": "TEXT", "TZNAME": "TEXT", "TZOFFSETFROM": "UTC-OFFSET", "TZOFFSETTO": "UTC-OFFSET", "TZURL": "URI",
        "ATTENDEE": "CAL-ADDRESS", "CONTACT": "TEXT", "ORGANIZER": "CAL-ADDRESS", "RECURRENCE-ID": "DATE-TIME", "RELATED-TO": "TEXT", "URL": "URI",
        "UID": "TEXT", "EXDATE": "DATE-TIME", "EXRULE": "RECUR", "RDATE": "DATE-TIME", "RRULE": "RECUR", "ACTION": "TEXT", "REPEAT": "INTEGER",
        "TRIGGER": "DURATION", "CREATED": "DATE-TIME", "DTSTAMP": "DATE-TIME", "LAST-MODIFIED": "DATE-TIME", "SEQUENCE": "INTEGER", "REQUEST-STATUS": "TEXT",
        "ACKNOWLEDGED": "DATE-TIME", "ACCEPT-RESPONSE": "TEXT", "POLL-COMPLETION": "TEXT", "POLL-ITEM-ID": "INTEGER", "POLL-MODE": "TEXT",
        "POLL-PROPERTIES": "TEXT", "POLL-WINNER": "INTEGER", "RESPONSE": "INTEGER", "VOTER": "CAL-ADDRESS", "X-WR-CALNAME": "TEXT", "X-WR-CALDESC": "TEXT",
        "X-WR-ALARMUID": "TEXT"}
VCARD = {"SOURCE": "URI", "NAME": "TEXT", "PROFILE": "TEXT", "FN": "TEXT", "N": "TEXT", "NICKNAME": "TEXT", "PHOTO": "BINARY", "BDAY": "DATE", "ADR": "TEXT",
         "LABEL": "TEXT", "TEL": "TEXT", "EMAIL": "TEXT", "MAILER": "TEXT", "TZ": "UTC-OFFSET", "GEO": "FLOAT", "TITLE": "TEXT", "ROLE": "TEXT",
         "LOGO": "BINARY", "AGENT": "VCARD", "ORG": "TEXT", "CATEGORIES": "TEXT", "NOTE": "TEXT", "PRODID": "TEXT", "REV": "DATE-TIME",
         "SORT-STRING": "TEXT", "SOUND": "BINARY", "UID": "TEXT", "URL": "URI", "VERSION": "TEXT", "CLASS": "TEXT", "KEY": "BINARY"}
DEFAULTS = {"ical": ICAL, "vcard": VCARD}
MULTI = {"ical": {"CATEGORIES", "RESOURCES", "FREEBUSY", "EXDATE", "RDATE", "POLL-PROPERTIES"}, "vcard": {"NICKNAME", "CATEGORIES"}}
SPECIAL = {"ical": {"GEO": "GEO", "REQUEST-STATUS": "REQUEST-STATUS"}, "vcard": {"ADR": "ADR", "GEO": "GEO", "N": "N", "ORG": "ORG"}}
OTHERS = {"ical": {"ATTACH": ("BINARY",), "DTSTART": ("DATE",), "DTEND": ("DATE",), "DUE": ("DATE",), "RECURRENCE-ID": ("DATE",), "EXDATE": ("DATE",),
                   "RDATE": ("DATE", "PERIOD"), "TRIGGER": ("DATE-TIME",),
                   "X-ANY": ("BINARY", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "URI", "UTC-OFFSET",
                             "BOOLEAN", "TIME")},
          "vcard": {"PHOTO": ("URI",), "LOGO": ("URI",), "SOUND": ("URI",), "KEY": ("TEXT",), "BDAY": ("DATE-TIME",), "REV": ("DATE",), "TZ": ("TEXT",),
                    "AGENT": ("TEXT", "URI"),
                    "X-ANY": ("BINARY", "DATE", "DATE-TIME", "FLOAT", "INTEGER", "TEXT", "URI", "UTC-OFFSET", "BOOLEAN", "TIME")}}


class Scn(object):
    """one property line: what is read, and what each writer is to give"""

    def __init__(self, variant, name, typ, label, text, xml, json, params=(), group=None, default=None, cls=None):
        self.variant, self.name, self.typ, self.label = variant, name, typ, label
        self.text, self.xml, self.json, self.params, self.group = text, xml, json, list(params), group
        self.default = default          # default type of the property, None for unknown properties
        self.xmltype = self.jsontype = JSONTYPE.get(typ, "text")
        if typ == "GEO":
            self.xmltype, self.jsontype = "geo", "float"
        if typ == "REQUEST-STATUS":
            self.xmltype = "request-status"
        if typ == "VCARD":
            self.xmltype = self.jsontype = "unknown"    # carried as it is
        self.implied = default is None and typ == "TEXT"        # written without a VALUE parameter

    def title(self):
        return "%s %s of type %s, %s" % (self.variant, self.name, self.typ, self.label)

    def wire_params(self):
        """[(name, [decoded value])] with VALUE where the type is not the default"""
        ps = [p for p in self.params if p[0].upper() != "VALUE"]
        base = {"GEO": "FLOAT", "REQUEST-STATUS": "TEXT", "ADR": "TEXT", "N": "TEXT", "ORG": "TEXT"}.get(self.typ, self.typ)
        if base != "UNKNOWN" and self.default != base and not (self.default is None and base == "TEXT"):
            ps.append(("VALUE", [base]))
        return sorted(ps, key=lambda p: p[0].upper())

    def line(self, params=None, value=None):
        s = (self.group + "." if self.group else "") + self.name
        for n, vs in (self.wire_params() if params is None else params):
            s += ";" + n + "=" + ",".join(encode(v) for v in sorted(vs))
        return s + ":" + (self.text if value is None else value)


def encode(v):
    v = v.replace("^", "^^").replace("\n", "^n").replace('"', "^'")
    return '"%s"' % v if any(c in v for c in ":;,") else v


def scenarios(w):
    """every property and type"""
    for variant in ("ical", "vcard"):
        todo = [(n, t, t) for n, t in sorted(DEFAULTS[variant].items())]
        todo += [(n, t, DEFAULTS[variant].get(n)) for n, ts in sorted(OTHERS[variant].items()) for t in ts]
        todo.append(("X-ANY", "UNKNOWN", None))
        for name, typ, default in todo:
            if typ == default:
                typ = SPECIAL[variant].get(name, typ)
            vals = list(w.values(typ if typ != "VCARD" else "BINARY", variant))
            multi = name in MULTI[variant]
            if name not in ("SUMMARY", "NOTE", "X-ANY") and typ == "TEXT" and not multi:
                vals = [v for v in vals if v[0] in ("text", "many")]
            if multi:
                vals = [v for v in vals if v[0] != "empty"]
            for label, text, xml, json in vals:
                yield Scn(variant, name, typ, label, text, xml, json, default=default)
            if multi:
                for i in range(len(vals)):
                    a, b = vals[i], vals[(i + 1) % len(vals)]
                    if len(vals) == 1 or i % 3 == 0:
                        yield Scn(variant, name, typ, "%s, %s" % (a[0], b[0]), a[1] + "," + b[1], a[2] + b[2], a[3] + b[3], default=default)
        T = w.text
        name = "SUMMARY" if variant == "ical" else "NOTE"
        for label, params in (
                ("one parameter", [("X-P", [T("p")])]), ("two parameters", [("X-Q", [T("q")]), ("X-P", [T("p")])]), ("list parameter", [("X-P", [T("p"), T("q")])]),
                ("lower-case parameter", [("x-p", [T("p")])]), ("repeated parameter", [("X-P", [T("p")]), ("X-P", [T("q"), T("r")])]),
                ("parameter with ,", [("X-P", [T("p") + "," + T("q")])]), ("parameter with ;", [("X-P", [T("p") + ";" + T("q")])]),
                ("parameter with :", [("X-P", [T("p") + ":" + T("q")])]), ("parameter with \"", [("X-P", [T("p") + '"' + T("q") + '"'])]),
                ("parameter with newline", [("X-P", [T("p") + "\n" + T("q") + "\n\n"])]), ("parameter with ^", [("X-P", [T("p") + "^" + T("q") + "^"])]),
                ("parameter with ^n", [("X-P", ["^n" + T("q") + "^'" + "^^"])]),
                ("parameter with all", [("X-P", [T("p") + ',;:"\n^' + T("q"), T("r") + ":"])])):
            t = T("a")
            yield Scn(variant, name, "TEXT", label, t, [(None, t)], [t], params=params, default="TEXT")
        if variant == "ical":
            yield Scn(variant, "DTSTART", "DATE-TIME", "TZID", w.date("floating"), [("date-time", w.date("floating", True))], [w.date("floating", True)],
                      params=[("TZID", [T("z")])], default="DATE-TIME")
            yield Scn(variant, "EXDATE", "DATE-TIME", "TZID", w.date("floating"), [("date-time", w.date("floating", True))], [w.date("floating", True)],
                      params=[("TZID", [T("z")])], default="DATE-TIME")
        else:
            t = T("a")
            yield Scn(variant, "NOTE", "TEXT", "group", t, [(None, t)], [t], group=T("g"), default="TEXT")
    for n, t in (("summary", "TEXT"), ("Dtstart", "DATE-TIME")):
        for label, text, xml, json in list(w.values(t, "ical"))[:1]:
            yield Scn("ical", n, t, "lower-case name, " + label, text, xml, json, default=t)


def unfold(s):
    return s.replace("\r\n ", "")


class Player(object):
    """plays a scenario and collects (aspect, message) differences"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.run = Run(ctx)
        self.run.pol.longest = 60
        self.w = Wire(self.run)

    def read(self, cls, line):
        return self.run.static(cls, "parseText", line)

    def text(self, o, name="generate", *args):
        s = self.run.stream()
        if self.run.meth(o, name, s, *args) is None:
            return None
        return self.run.buf(s)

    def play(self, s, emit):
        """emit(ok, aspect, message)"""
        self.run.explore(lambda: self.one(s, emit))

    def one(self, s, emit):
        run, q = self.run, self.run.pol
        cls = VARIANTS[s.variant][0]
        fine = [True]

        def e(ok, aspect, msg):
            fine[0] = fine[0] and ok
            emit(ok, aspect, msg)

        want = s.line() + "\r\n"
        given = list(s.wire_params())
        if "repeated" not in s.label:
            given.reverse()
        if s.implied:
            given.insert(0, ("VALUE", ["TEXT"]))
        o = self.read(cls, s.line(given))
        e(o is not None, "read", "reading fails with %s" % (None if o is not None else run.failed))
        if o is None:
            return False
        t = self.text(o)
        e(t is not None and unfold(t) == want, "text", "text written is %s, not %s" % (t and q.show(t).rstrip(), q.show(want).rstrip()))
        d = run.meth(o, "duplicate")
        if d is not None:
            t = self.text(d)
            e(t is not None and unfold(t) == want, "copy", "text of the copy is %s" % (t and q.show(t).rstrip(),))
        o2 = self.read(cls, s.line()) if not (s.typ == "PERIOD" and "start/P" in s.label) else None      # needs the end date: duration arithmetic
        if o2 is not None and not s.implied:
            v = run.meth(o, "__eq__", o2)
            e(v is not None and const_of(v) == (True, True), "equal", "reading the written line does not give an equal property")
        self.construct(s, cls, o, want, e)
        # XML
        x = run.element()
        ok = run.meth(o, "writeXML", x, "ns")
        e(ok is not None, "XML", "writing XML fails with %s" % (None if ok is not None else run.failed))
        if ok is not None:
            self.xml(s, run.xml(x), e)
        # JSON
        l = run.list()
        ok = run.meth(o, "writeJSON", l)
        e(ok is not None, "JSON", "writing JSON fails with %s" % (None if ok is not None else run.failed))
        if ok is not None:
            j = run.plain(l)
            pr = {}
            for n, v in s.wire_params():
                if n != "VALUE":
                    pr[n.lower()] = pr.get(n.lower(), []) + v
            pr = {n: v if len(v) > 1 else v[0] for n, v in pr.items()}
            wj = [s.name.lower(), pr, s.jsontype] + list(s.json)
            e(j == [wj], "JSON", "JSON is %s, not %s" % (self.show(j), self.show([wj])))
            if s.group:
                e("group" in repr(j), "JSON group", "the group is not in the JSON")
            items = run.st.heap.get(next(iter(l))[1]).items
            if len(items) == 1 and "repeated" not in s.label:      # repeated parameters are read back as one
                o3 = run.static(cls, "parseJSON", items[0])
                e(o3 is not None, "JSON read", "reading the JSON back fails with %s" % (None if o3 is not None else run.failed))
                if o3 is not None:
                    t = self.text(o3)
                    wt = s.line().upper() if False else want
                    if s.name != s.name.upper():
                        wt = wt.replace(s.name, s.name.upper(), 1)
                    for n, _v in s.wire_params():
                        wt = wt.replace(";" + n + "=", ";" + n.upper() + "=")
                    if s.group:
                        wt = wt[len(s.group) + 1:]
                    e(t is not None and unfold(t) == wt, "JSON read", "after reading the JSON back the text is %s" % (t and q.show(t).rstrip(),))
                    if o2 is not None and not s.group and s.name == s.name.upper() and not any(n != n.upper() for n, _v in s.params):
                        v = run.meth(o, "__eq__", o3)
                        e(v is not None and const_of(v) == (True, True), "JSON equal", "reading the JSON back does not give an equal property")
        return fine[0]

    def construct(self, s, cls, o, want, e):
        """a property made from the value the program holds"""
        run, q = self.run, self.run.pol
        if s.group or [n for n, _v in s.params if n != "TZID"] or s.typ == "PERIOD" and "start/P" in s.label and "," in s.label:
            return
        multi = s.name.upper() in MULTI[s.variant]
        v = run.meth(o, "getValue")
        if v is None:
            return
        t = run.meth(v, "getType")
        kws = {}
        if multi:
            if not (s.variant == "ical" and s.typ in ("DATE", "DATE-TIME", "PERIOD") or s.variant == "vcard" and s.typ == "TEXT"):
                return
            vals = run.meth(v, "getValues")
            val = run.list([run.meth(i, "getValue") for i in run.st.heap.get(next(iter(vals))[1]).items])
        elif s.typ in ("TEXT", "URI", "CAL-ADDRESS", "BINARY", "UNKNOWN"):
            val = run.meth(v, "getValue")
            if s.default != s.typ:
                kws = {"valuetype": t}
        elif s.typ == "UTC-OFFSET":
            val = v
        elif s.typ in ("DATE", "DATE-TIME", "DURATION", "RECUR", "PERIOD", "INTEGER", "REQUEST-STATUS") and s.variant == "ical" or \
                s.variant == "vcard" and s.typ in ("DATE", "DATE-TIME", "ADR", "N", "ORG", "GEO") and s.label != "one unit":
            val = run.meth(v, "getValue")
            if s.typ == "PERIOD" and s.default is not None:
                return
        else:
            return
        if s.variant == "vcard" and s.typ == "INTEGER":
            return
        n = run.new(cls, name=s.name, value=val, **kws)
        e(n is not None, "construct", "making the property from the value fails with %s" % (None if n is not None else run.failed))
        if n is None:
            return
        g = run.meth(n, "getValue")
        g = run.meth(g, "getType") if g is not None and const_of(g) != (True, None) else None
        e(g is not None and const_of(g) == const_of(t), "construct", "the property made from the value has another type of value (%s for %s)" % (g and const_of(g), const_of(t)))
        t = self.text(n)
        e(t is not None and unfold(t) == want, "construct", "text of the property made from the value is %s, not %s" % (t and q.show(t).rstrip(), q.show(want).rstrip()))

    def xml(self, s, x, e):
        kids = []
        for tag, sub in s.xml:
            tag = "{ns}" + (tag or s.xmltype)
            kids.append((tag, [("{ns}" + n, t) for n, t in sub]) if isinstance(sub, list) else (tag, sub))
        if s.typ in ("ADR", "N"):
            pass
        prop = x[3]
        if len(prop) != 1:
            e(False, "XML", "%d elements are written" % len(prop))
            return
        prop = prop[0]
        e(prop[0] == "{ns}" + s.name.lower(), "XML", "element %s" % prop[0])
        rest = list(prop[3])
        pr = [p for p in s.wire_params() if p[0] != "VALUE"]
        if pr:
            want = [("{ns}" + n.lower(), [("{ns}text", v) for v in vs]) for n, vs in pr]
            got = [(k[0], [(c[0], c[1]) for c in k[3]]) for k in rest[0][3]] if rest and rest[0][0] == "{ns}parameters" else None
            e(got is not None and sorted(got) == sorted(want), "XML parameters", "XML parameters are %s, not %s" % (self.show(got), self.show(want)))
            rest = rest[1:]
        elif rest and rest[0][0] == "{ns}parameters":
            e(not rest[0][3], "XML parameters", "unexpected XML parameters")
            rest = rest[1:]
        got = [(k[0], [(c[0], c[1]) for c in k[3]]) if k[3] else (k[0], k[1]) for k in rest]
        e(got == kids, "XML", "XML value is %s, not %s" % (self.show(got), self.show(kids)))

    def show(self, x):
        if isinstance(x, str):
            return repr(self.run.pol.show(x))
        if isinstance(x, (list, tuple)):
            b = "[]" if isinstance(x, list) else "()"
            return b[0] + ", ".join(self.show(i) for i in x) + b[1]
        if isinstance(x, dict):
            return "{%s}" % ", ".join("%s: %s" % (self.show(k), self.show(v)) for k, v in sorted(x.items(), key=repr))
        return repr(x)


def check(ctx, rule, select, aspects, floor, known=None):
    """Play the selected scenarios; one obligation per scenario and aspect."""
    p = Player(ctx)
    n = 0
    for s in scenarios(p.w):
        if not select(s):
            continue
        n += 1
        where = VARIANTS[s.variant][0]
        seen = set()

        def emit(ok, aspect, msg, s=s):
            if aspect in aspects:
                seen.add(aspect)
                ctx.oblige(ok, rule, "%s|%s" % (s.title(), aspect), where, "%s: %s" % (s.title(), msg))
        p.play(s, emit)
        if not seen:
            raise AnalysisBroken("nothing decided for %s" % s.title())
        if n % 25 == 0:
            ctx.sample(p.run.pol.show(s.line()))
    ctx.used(*p.run.ip.inlined)
    ctx.count("property lines", n)
    ctx.floor("property lines", floor)
    return p
