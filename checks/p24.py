"""P24: cardinality and value rules of validation follow the standard."""
from pyan.ai import V, K, Pr, VNONE, Obj
from pyan.front import AnalysisBroken
from . import valid
from .valid import ValPolicy, build, run as run_validate, status, messages, put

INFO = {
    "level": "other",
    "technique": "abstract interpretation of validate() over the property-count domain {0,1,many}, compared with the standard's table",
    "note": "For every component class and every property of the standard's cardinality table, validate() is evaluated abstractly with that "
            "property absent, present once and present more than once; what is reported must be what the table says. Value rules are "
            "evaluated for the boundary constants of each rule.",
    "explanation": "validate() of each component class (all helpers and inherited checks inlined, class tables evaluated from the source) is "
                   "interpreted abstractly on components whose properties are only known by name and count class. The reported/not-reported "
                   "outcome of every exit is compared with an independent table of the standard (RFC 5545, RFC 7953, RFC 9074, VPOLL draft, RFC 2426).",
    "assumptions": ["two occurrences stand for any number above one: the count is only ever compared with 0 and 1 in the validation code"],
}

MANY = "ATTACH ATTENDEE CATEGORIES COMMENT CONTACT EXDATE REQUEST-STATUS RELATED-TO RESOURCES RDATE X-FOO".split()
# one: exactly once; opt: at most once; more: at least once; free: any number; base: further properties a valid component needs
REC_ = "CLASS CREATED DESCRIPTION LAST-MODIFIED ORGANIZER SEQUENCE STATUS SUMMARY URL RECURRENCE-ID RRULE".split()
SPEC = {
    "icalendar.calendar:Calendar": dict(one="PRODID VERSION", opt="CALSCALE METHOD", free="X-WR-CALNAME"),
    "icalendar.vevent:VEvent": dict(one="DTSTAMP UID", opt=REC_ + "GEO LOCATION PRIORITY TRANSP DTEND DURATION DTSTART?".split(),
                                    free=MANY, exclusive=[("DTEND", "DURATION")]),
    "icalendar.vtodo:VToDo": dict(one="DTSTAMP UID", opt=REC_ + "COMPLETED DTSTART GEO LOCATION PERCENT-COMPLETE PRIORITY DUE DURATION".split(),
                                  free=MANY, needs={"DURATION": ["DTSTART"]}, exclusive=[("DUE", "DURATION")]),
    "icalendar.vjournal:VJournal": dict(one="DTSTAMP UID", opt=[x for x in REC_ if x != "DESCRIPTION"] + ["DTSTART"],
                                        free=[x for x in MANY if x != "RESOURCES"] + ["DESCRIPTION"]),
    "icalendar.vfreebusy:VFreeBusy": dict(one="DTSTAMP UID", opt="CONTACT DTSTART DTEND ORGANIZER URL", free="ATTENDEE COMMENT FREEBUSY REQUEST-STATUS"),
    "icalendar.vtimezone:VTimezone": dict(one="TZID", opt="LAST-MODIFIED TZURL", free="X-FOO", child="icalendar.vtimezonestandard:Standard"),
    "icalendar.vtimezonestandard:Standard": dict(one="DTSTART TZOFFSETTO TZOFFSETFROM", opt="RRULE", free="COMMENT RDATE TZNAME"),
    "icalendar.vtimezonedaylight:Daylight": dict(one="DTSTART TZOFFSETTO TZOFFSETFROM", opt="RRULE", free="COMMENT RDATE TZNAME"),
    "icalendar.vavailability:VAvailability": dict(
        one="DTSTAMP UID", opt="BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION",
        free="CATEGORIES COMMENT CONTACT", exclusive=[("DTEND", "DURATION")]),
    "icalendar.available:Available": dict(
        one="DTSTAMP DTSTART UID", opt="CREATED DESCRIPTION LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SUMMARY DTEND DURATION",
        free="CATEGORIES COMMENT CONTACT EXDATE RDATE RELATED-TO", exclusive=[("DTEND", "DURATION")]),
    "icalendar.vpoll:VPoll": dict(
        one="DTSTAMP UID ORGANIZER", opt="ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE "
        "POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL", free="ATTACH CATEGORIES COMMENT CONTACT RELATED-TO REQUEST-STATUS"),
    "icalendar.vvoter:VVoter": dict(one="VOTER", opt="CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL", free="ATTACH CATEGORIES COMMENT CONTACT RELATED-TO REQUEST-STATUS"),
    "icalendar.vote:Vote": dict(one="", opt="POLL-ITEM-ID RESPONSE", free="COMMENT"),
    "vcard.card:Card": dict(one="VERSION N", opt="BDAY PRODID REV UID", more="FN", free="TEL EMAIL ADR NOTE"),
    "VAlarmAudio": dict(one="ACTION TRIGGER", opt="DURATION REPEAT ATTACH ACKNOWLEDGED", free="X-FOO", together=[("DURATION", "REPEAT")]),
    "VAlarmDisplay": dict(one="ACTION TRIGGER DESCRIPTION", opt="DURATION REPEAT ACKNOWLEDGED", free="X-FOO", together=[("DURATION", "REPEAT")],
                          fixable="DESCRIPTION"),
    "VAlarmEmail": dict(one="ACTION TRIGGER DESCRIPTION SUMMARY", more="ATTENDEE", opt="DURATION REPEAT ACKNOWLEDGED", free="ATTACH",
                        together=[("DURATION", "REPEAT")], fixable="DESCRIPTION SUMMARY"),
    "VAlarmUnknown": dict(one="ACTION TRIGGER", opt="DURATION REPEAT ACKNOWLEDGED", free="X-FOO", together=[("DURATION", "REPEAT")]),
    "VAlarmURI": dict(one="ACTION TRIGGER URL", opt="DURATION REPEAT ACKNOWLEDGED", free="X-FOO", together=[("DURATION", "REPEAT")]),
    "VAlarmNone": dict(one="ACTION", opt="", free="X-FOO", together=[("DURATION", "REPEAT")]),
}


def words(x):
    return x.split() if isinstance(x, str) else list(x)


def resolve(ctx, key):
    """(component class, alarm action class or None)"""
    if ":" in key:
        return ctx.prog.cls("pycalendar." + key), None
    va = ctx.prog.cls("pycalendar.icalendar.valarm:VAlarm")
    return va, ctx.prog.cls("pycalendar.icalendar.valarm:VAlarm.%s" % key)


def prop_class(ctx, c):
    return ctx.prog.cls("pycalendar.%s.property:Property" % ("vcard" if ".vcard." in c.module.name + "." else "icalendar"))


class Bench(object):
    def __init__(self, ctx, key, spec):
        self.ctx = ctx
        self.key = key
        self.spec = spec
        self.c, self.action = resolve(ctx, key)
        self.pcls = prop_class(ctx, self.c)
        self.child = [ctx.prog.cls("pycalendar." + spec["child"])] if spec.get("child") else []

    def run(self, counts, dofix=False, children=None, method=True, values=None):
        ctx = self.ctx
        pol = ValPolicy()
        child_classes = list(self.child if children is None else children)
        ip = ctx.interp(pol)
        cv = {k.find("validate") for k in child_classes} - {None}

        def call(ip_, st, fi, recv, args, kws, node):
            # children: a validation that reports nothing
            if fi.name == "validate" and recv is not None and recv[0] == "o" and recv[1][0] == "v":
                l1, _ = put(st, ("cf", recv[1]), "list")
                l2, _ = put(st, ("cu", recv[1]), "list")
                t, o = put(st, ("cr", recv[1]), "tuple")
                o.items = [V(("o", l1)), V(("o", l2))]
                return [(st, V(("o", t)))]
            return None
        pol.call = call
        parent = None
        if ":" in self.key and self.c.name not in ("Calendar", "Card"):
            cal = ctx.prog.cls("pycalendar.icalendar.calendar:Calendar")

            def parent(st):
                oid, o = put(st, ("parent",), "inst", cal, "parent")
                did, d = put(st, ("pprops",), "dict", path="parent properties")
                if method:
                    lid, l = put(st, ("pm",), "list", path="METHOD")
                    l.items.append(V(Pr("any")))
                    d.items[K("METHOD")] = V(("o", lid))
                o.fields["mProperties"] = V(("o", did))
                return oid
        st, a = build(ctx, ip, pol, self.c, self.pcls, counts, child_classes, parent, values)
        if self.action is not None:
            outs = ip.construct(st, self.action, [V(Pr("any"))] * 0, self._args(), self.c.node)
            st, v = outs[0]
            o = st.heap.get(a[1]).copy()
            o.fields["mActionData"] = v
            st.heap.put(a[1], o)
        self.last = (ip, a)
        return run_validate(ctx, ip, st, a, self.c, dofix)

    def again(self, st):
        """validate once more, without fixing, in the state a run ended in"""
        ip, a = self.last
        return run_validate(self.ctx, ip, st.fork(), a, self.c, False)

    def _args(self):
        fi = self.action.find("__init__")
        n = len(fi.node.args.defaults) if fi is not None else 0
        req = fi.params[1:len(fi.params) - n] if fi is not None else []
        return {p: V(Pr("str", [p])) for p in req}

    def base(self):
        d = {n: 1 for n in words(self.spec.get("one", ""))}
        d.update({n: 1 for n in words(self.spec.get("more", ""))})
        return d

    def verdict(self, counts, dofix=False, **kw):
        """'yes' reported on every exit, 'no' on none, 'maybe'"""
        r = set()
        msgs = []
        for f, u, s in self.run(counts, dofix, **kw):
            x = {status(f), status(u)}
            r.add("yes" if "yes" in x else "maybe" if "maybe" in x else "no")
            msgs += messages(f) + messages(u)
        if not r:
            return "none", msgs
        return (r.pop() if len(r) == 1 else "maybe"), msgs


def run(ctx):
    ctx.rule("cardinality: with every required property present once nothing is reported; a required property that is absent or repeated, and an "
             "at-most-once property that is repeated, is reported; properties that may repeat are not")
    ctx.rule("relation: mutually exclusive, jointly required and context-dependent properties are reported as the standard says")
    ctx.rule("value: each constrained value is accepted exactly inside the standard's range")
    n = 0
    for key in sorted(SPEC):
        spec = SPEC[key]
        b = Bench(ctx, key, spec)
        n += 1
        name = b.action.name if b.action is not None else b.c.name
        where = "%s:%d %s" % (b.c.module.rel, b.c.node.ln, name)

        def expect(counts, want, what, k, dofix=False, **kw):
            v, msgs = b.verdict(counts, dofix, **kw)
            if v == "none":
                raise AnalysisBroken("validate of %s has no normal exit for %s" % (name, what))
            bad = (want == "yes" and v == "no") or (want == "no" and v == "yes")
            if want == "yes" and v == "maybe" and not kw.get("lenient"):
                bad = bad or False
            ctx.oblige(not bad, "cardinality", "%s|%s" % (name, k), where,
                       "%s %s is %sreported by validation%s" % (name, what, "not " if v == "no" else "",
                                                                (" (%s)" % "; ".join(msgs)) if v != "no" else ""))
            ctx.count("undecided" if v == "maybe" else "decided")
        base = b.base()
        expect(base, "no", "with exactly its required properties", "valid")
        needs = spec.get("needs", {})
        together = {}
        for x, y in spec.get("together", ()):
            together[x] = y
            together[y] = x

        def companions(p):
            d = dict(base)
            for q in needs.get(p, ()):
                d[q] = 1
            if p in together:
                d[together[p]] = 1
            return d
        fixable = words(spec.get("fixable", ""))
        for p in words(spec.get("one", "")):
            for cnt in (0, 2, 3):
                d = dict(base)
                d[p] = cnt
                for fix in (False, True):
                    expect(d, "yes", "%s required property %s%s" % ("without" if not cnt else "with more than one", p, " (fixing)" if fix else ""),
                           "%s=%d%s" % (p, cnt, " fix" if fix else ""), dofix=fix)
                    if fix:
                        # reported as repaired only where the standard's empty default makes sense
                        for f, u, s in b.run(d, True):
                            want_fixed = p in fixable and cnt == 0
                            got = status(f)
                            ctx.oblige(not (want_fixed and got == "no") and not (not want_fixed and got == "yes" and status(u) == "no"), "cardinality",
                                       "%s|%s=%d repaired" % (name, p, cnt), where,
                                       "%s: %s %s is %s" % (name, "missing" if not cnt else "repeated", p,
                                                            "reported as repaired" if got != "no" else "not repaired by adding an empty value"))
        for p in words(spec.get("more", "")):
            d = dict(base)
            d[p] = 0
            expect(d, "yes", "without required property %s" % p, "%s=0" % p)
            d[p] = 2
            expect(d, "no", "with several %s" % p, "%s=2" % p)
        for p in words(spec.get("opt", "")):
            soft = p.endswith("?")
            p = p.rstrip("?")
            if soft:
                continue
            d = companions(p)
            d[p] = 1
            expect(d, "no", "with one %s" % p, "%s=1" % p)
            d[p] = 2
            expect(d, "yes", "with more than one %s" % p, "%s=2" % p)
        for p in words(spec.get("free", "")):
            d = companions(p)
            for cnt in (1, 2):
                d[p] = cnt
                expect(d, "no", "with %d %s" % (cnt, p), "%s=%d" % (p, cnt))
        for x, y in spec.get("exclusive", ()):
            d = companions(x)
            d.update(companions(y))
            d[x] = d[y] = 1
            expect(d, "yes", "with both %s and %s" % (x, y), "%s+%s" % (x, y))
        for x, y in spec.get("together", ()):
            for p in (x, y):
                d = dict(base)
                d[p] = 1
                expect(d, "yes", "with %s but not %s" % (p, together[p]), "%s alone" % p)
            d = dict(base)
            d[x] = d[y] = 1
            if x in words(spec.get("opt", "")):
                expect(d, "no", "with both %s and %s" % (x, y), "%s with %s" % (x, y))
        for p, qs in needs.items():
            d = dict(base)
            d[p] = 1
            expect(d, "yes", "with %s but without %s" % (p, ", ".join(qs)), "%s needs" % p)
        if b.c.name == "VEvent":
            expect(base, "yes", "without DTSTART in a calendar that has no METHOD", "DTSTART without METHOD", method=False)
            expect(dict(base, DTSTART=1), "no", "with DTSTART in a calendar that has no METHOD", "DTSTART present without METHOD", method=False)
        if b.child:
            expect(base, "yes", "without a STANDARD or DAYLIGHT part", "no observance", children=[])
            for ch in ("icalendar.vtimezonestandard:Standard", "icalendar.vtimezonedaylight:Daylight"):
                expect(base, "no", "with a %s part" % ch.split(":")[1], ch.split(":")[1], children=[ctx.prog.cls("pycalendar." + ch)])
    ctx.count("components", n)
    values(ctx)
    ctx.floor("cardinality", 500)
    ctx.floor("value", 100)


def values(ctx):
    P = "pycalendar."
    intv = ctx.prog.cls(P + "integervalue:IntegerValue")
    dtv = ctx.prog.cls(P + "datetimevalue:DateTimeValue")
    DT = ctx.prog.cls(P + "datetime:DateTime")
    text = ctx.prog.cls(P + "textvalue:TextValue")

    def mk_int(n):
        def f(st, i):
            oid, o = put(st, ("iv", n, i), "inst", intv, "integer value %d" % n)
            o.fields["mValue"] = V(K(n))
            return oid
        return f

    def mk_dt(utc):
        def f(st, i):
            did, d = put(st, ("dt", utc, i), "inst", DT, "%s date-time" % ("UTC" if utc else "non-UTC"))
            d.sym = True
            d.fields["mTZUTC"] = V(K(utc))
            d.fields["mDateOnly"] = V(K(False))
            oid, o = put(st, ("dv", utc, i), "inst", dtv, "date-time value")
            o.fields["mValue"] = V(("o", did))
            return oid
        return f

    def mk_text(s):
        def f(st, i):
            oid, o = put(st, ("tv", s, i), "inst", text, "text value %r" % s)
            o.fields["mValue"] = V(K(s))
            return oid
        return f
    nonneg = [(mk_int(0), True, "0"), (mk_int(1), True, "1"), (mk_int(99999), True, "99999"), (mk_int(-1), False, "-1"), (mk_text("x"), False, "text")]
    utc = [(mk_dt(True), True, "a UTC time"), (mk_dt(False), False, "a local time"), (mk_text("x"), False, "text")]

    def rng(lo, hi):
        return [(mk_int(lo), True, str(lo)), (mk_int(hi), True, str(hi)), (mk_int(lo - 1), False, str(lo - 1)), (mk_int(hi + 1), False, str(hi + 1)),
                (mk_int((lo + hi) // 2), True, str((lo + hi) // 2)), (mk_text("x"), False, "text")]

    def lit(*good):
        return [(mk_text(g), True, repr(g)) for g in good] + [(mk_text(g + "x"), False, repr(g + "x")) for g in good[:1]] + [(mk_text(""), False, "''"), (mk_int(2), False, "an integer")]
    ICAL = {"PERCENT-COMPLETE": rng(0, 100), "PRIORITY": rng(0, 9), "COMPLETED": utc, "REPEAT": nonneg, "CREATED": utc, "DTSTAMP": utc,
            "LAST-MODIFIED": utc, "SEQUENCE": nonneg, "ACKNOWLEDGED": utc, "VERSION": lit("2.0"), "CALSCALE": lit("GREGORIAN", "gregorian", "Gregorian")}
    CARD = {"VERSION": lit("3.0"), "PROFILE": lit("VCARD", "vcard")}
    for key in sorted(SPEC):
        if key.startswith("VAlarm") and key != "VAlarmAudio":
            continue
        spec = SPEC[key]
        b = Bench(ctx, key, spec)
        table = CARD if b.c.name == "Card" else ICAL
        known = set(words(spec.get("one", "")) + words(spec.get("opt", "")) + words(spec.get("more", "")) + words(spec.get("free", "")))
        for p in sorted(table):
            for mk, ok, what in table[p]:
                # judged on its own: compare with the same component without value rules
                base = {q: n for q, n in b.base().items() if q != p}
                quiet = {}
                d = dict(base)
                d[p] = 1
                for q in base:
                    if q in table:
                        quiet[q] = [m for m, o2, _w in table[q] if o2][0]
                quiet[p] = mk
                v1, m1 = b.verdict(d)
                v2, m2 = b.verdict(d, values=quiet)
                if v2 == "none":
                    raise AnalysisBroken("validate of %s has no normal exit for %s=%s" % (b.c.name, p, what))
                extra = [m for m in m2 if m not in m1 or m2.count(m) > m1.count(m)]
                ctx.oblige(bool(extra) != ok, "value", "%s|%s=%s" % (b.c.name, p, what), "%s:%d %s" % (b.c.module.rel, b.c.node.ln, b.c.name),
                           "%s with %s = %s is %s" % (b.c.name, p, what, "reported (%s)" % "; ".join(extra) if extra else "accepted"))
