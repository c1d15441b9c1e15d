"""P08: an edit changes the remembered value and the property together."""
from pyan.ai import V, K, Pr, const_of
from pyan.front import AnalysisBroken
from .holes import NODE
from .tree import CAL, Player, Node as N, NO_TIMEZONES
from .p07 import Stop

IC = "pycalendar.icalendar."
INFO = {
    "level": "other",
    "technique": "abstract interpretation of every edit operation, of writing the component out and of reading it back, with symbolic texts, comparing all accessors",
    "note": "Every edit operation of events, to-dos, journals, free/busy, alarms, availability and the calendar from every prior state listed, one after the other in "
            "pairs: all accessors give the same before and after writing and reading back, in all formats, and the accessor edited gives the value set.",
    "explanation": "For each component type a list of prior states (by the properties present) and of edit operations is interpreted; then the enclosing calendar is "
                   "written, read back, and all public accessors without arguments (found from the classes) of both components compared, as well as what both write.",
    "assumptions": ["the clock shows one fixed time", "plain setters (setSummary, setStatus, setPriority, setName, setDescription, setChanged) set the remembered value only",
                    "values that only mean something together with another (the end without a start, the trigger time of a relative alarm) are compared when they do"],
}

# accessors that are not about the value of properties
SKIP = {"getText", "getParentComponent", "getBeginDelimiter", "getEndDelimiter", "getMaster", "getOriginalSeq", "getChanged", "getSpanPeriod", "getBusyTime", "getTextXML",
        "getTextJSON", "getCompletionState", "getStatusText", "getProperties", "getSortKey", "isSpeakText"}

# accessor -> the accessors one of which must hold for it to mean something
WHEN = {"getStart": ("hasStart",), "getEnd": ("hasStart", "hasEnd"), "getStamp": ("hasStamp",), "getCompleted": ("hasCompleted",), "getTriggerOn": ("isTriggerAbsolute",),
        "getTriggerDuration": ("!isTriggerAbsolute",), "isTriggerOnStart": ("!isTriggerAbsolute",), "getInterval": ("getRepeats",)}

DT = {"dt": "20200115T120000Z", "dt2": "20200116T133000Z", "dt3": "20200115T100000Z", "day": "20200115", "day2": "20200116", "day4": "20200119"}
DUR = ("PT1H", "P1D", "P2D", "P1W", "PT0S", "P1DT2H")
NOW = {"tm_year": 2020, "tm_mon": 6, "tm_mday": 15, "tm_hour": 12, "tm_min": 34, "tm_sec": 56}


class Editor(Player):
    def __init__(self, ctx):
        super(Editor, self).__init__(ctx)
        old = self.run.pol.unknown_call
        prev = self.run.pol.builtin

        def builtin(ip, st, name, recv, args, kws, node):
            if name in ("time.gmtime", "time.localtime"):
                oid = ip.alloc(st, "inst", node, None, tag="clock")
                o = st.heap.get(oid).copy()
                o.fields.update({k: V(K(v)) for k, v in NOW.items()})
                st.heap.put(oid, o)
                return [(st, V(("o", oid)))]
            if name == "time.time":
                return [(st, V(K(1592224496)))]
            return prev(ip, st, name, recv, args, kws, node)
        self.run.pol.builtin = builtin
        self.acc = {}

    # ------------------------------------------------------------ values
    def dt(self, text):
        return self.run.static("pycalendar.datetime:DateTime", "parseText", text)

    def dur(self, text):
        return self.run.static("pycalendar.duration:Duration", "parseText", text)

    def accessors(self, c):
        if c not in self.acc:
            names = set()
            for k in c.mro:
                for n, fi in k.methods.items():
                    if n.startswith(("get", "has", "is", "use")) and n[3:4].isupper() | n[2:3].isupper() and n not in SKIP and len(fi.params) == 1 and fi.kind == "method":
                        names.add(n)
            self.acc[c] = sorted(names)
        return self.acc[c]

    def cls_of(self, v):
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == "o":
                o = self.run.st.heap.get(a[1])
                if o.kind == "inst" and o.cls and len(o.cls) == 1:
                    return next(iter(o.cls))
        return None

    def render(self, v, d=3):
        """a value as something comparable"""
        r = self.run
        if v is None:
            return "raises %s" % r.failed
        ok, c = const_of(v)
        if ok:
            return c
        k = self.cls_of(v)
        if k is None:
            if len(v) == 1 and next(iter(v))[0] == "o":
                o = r.st.heap.get(next(iter(v))[1])
                if o.kind in ("list", "tuple") and isinstance(o.items, list) and not o.elems:
                    return [self.render(x, d) for x in o.items]
            x = r.plain(v)
            if isinstance(x, tuple) and x[:1] == ("unknown",):
                raise AnalysisBroken("the value of the accessor %s is not known" % self.asked)
            return x
        if k.find("getText") and not k.find("getComponents"):
            t = [self.render(r.meth(v, "getText"), d)]
            if k.name == "DateTime":
                t.append(self.render(r.meth(r.meth(v, "getTimezone"), "getTimezoneID"), d))
            return tuple(t)
        if not d:
            raise AnalysisBroken("the value of an accessor is nested too deeply")
        x = self.vector(v, d - 1)
        if x.get("hasRecurrence") is False:
            return None         # the empty set and none mean the same
        return k.name, x

    def vector(self, v, d=3):
        r = self.run
        k = self.cls_of(v)
        out = {}
        for n in self.accessors(k):
            if k.name == "RecurrenceSet" and n not in ("getRules", "getExrules", "getDates", "getExdates", "getPeriods", "getExperiods", "hasRecurrence"):
                continue
            out[n] = (n,)
        vals = {}

        def val(n):
            if n not in vals:
                self.asked = "%s.%s" % (k.name, n)
                vals[n] = self.render(r.meth(v, n), d)
            return vals[n]
        for n in out:
            w = WHEN.get(n)
            if w is not None and k.find(w[0].lstrip("!")) and not any(bool(val(x.lstrip("!"))) != x.startswith("!") for x in w if k.find(x.lstrip("!"))):
                continue
            x = val(n)
            if k.name == "RecurrenceSet" and isinstance(x, list):
                x = sorted(x, key=repr)
            vals[n] = x
        return {n: vals[n] for n in vals if n in out}


def states():
    """(component class path, title, node): the component in a calendar, by the properties present"""
    head = ["UID:u", "DTSTAMP:20200101T000000Z"]
    more = ["SUMMARY:s", "DESCRIPTION:d", "LOCATION:l", "SEQUENCE:3", "X-A:1", "STATUS:%s"]
    when = {
        "no start": [],
        "start only": ["DTSTART:20200101T100000Z"],
        "all-day start": ["DTSTART;VALUE=DATE:20200101"],
        "start and end": ["DTSTART:20200101T100000Z", "%s:20200101T110000Z"],
        "all-day start and end": ["DTSTART;VALUE=DATE:20200101", "%s;VALUE=DATE:20200103"],
        "start and duration": ["DTSTART:20200101T100000Z", "DURATION:PT30M"],
    }
    recur = ["RRULE:FREQ=DAILY;COUNT=5", "RDATE:20200108T100000Z", "RDATE;VALUE=PERIOD:20200107T100000Z/PT1H", "EXDATE:20200102T100000Z", "EXRULE:FREQ=WEEKLY"]
    for typ, end, status in (("VEVENT", "DTEND", "CONFIRMED"), ("VTODO", "DUE", "COMPLETED"), ("VJOURNAL", None, "DRAFT"), ("AVAILABLE", "DTEND", None)):
        for t, ps in when.items():
            if end is None and len(ps) > 1:
                continue
            ps = [p % end if "%" in p else p for p in ps]
            full = [p % status if "%" in p else p for p in more if status or "%" not in p]
            yield typ, t, head + ps + (full if t in ("start only", "start and duration") else [])
        if typ != "AVAILABLE":
            yield typ, "recurring", head + when["start only"] + recur + ["STATUS:" + status]
            yield typ, "override", head + when["start only"] + ["RECURRENCE-ID:20200101T100000Z"]
    yield "VTODO", "due", head + ["DUE:20200105T100000Z", "PRIORITY:5", "PERCENT-COMPLETE:50", "STATUS:NEEDS-ACTION"]
    yield "VTODO", "completed", head + ["DTSTART:20200101T100000Z", "COMPLETED:20200105T100000Z", "STATUS:COMPLETED"]
    for t, ps in when.items():
        yield "VFREEBUSY", t, head + [p % "DTEND" if "%" in p else p for p in ps] + ["FREEBUSY:20200101T100000Z/PT1H"]
    for t, ps in (("bare", []), ("full", ["X-A:1", "SEQUENCE:3", "BUSYTYPE:BUSY"])):
        yield "VAVAILABILITY", t, head + ["DTSTART:20200101T100000Z"] + ps
    for t, ps in (("display", ["ACTION:DISPLAY", "DESCRIPTION:d", "TRIGGER:-PT5M"]),
                  ("audio", ["ACTION:AUDIO", "TRIGGER;VALUE=DATE-TIME:20200101T100000Z", "REPEAT:2", "DURATION:PT5M", "X-MULBERRY-ALARM-STATUS:COMPLETED"]),
                  ("e-mail", ["ACTION:EMAIL", "DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:a", "ATTENDEE:mailto:b", "TRIGGER;RELATED=END:PT5M"]),
                  ("uri", ["ACTION:URI", "URL:http://x", "TRIGGER:PT0S"]),
                  ("unknown", ["ACTION:X-A", "TRIGGER:-P1D", "REPEAT:1", "DURATION:PT5M"]),
                  ("none", ["ACTION:NONE", "TRIGGER;VALUE=DATE-TIME:20200101T100000Z"])):
        yield "VALARM", t, ps
    yield "VCALENDAR", "bare", []
    yield "VCALENDAR", "named", ["X-WR-CALNAME:n", "X-WR-CALDESC:d", "METHOD:PUBLISH"]


def operations(h, typ, started):
    """[(title, method, arguments maker, {accessor: expected value} maker)]"""
    T = h.w.text
    out = []

    def op(m, title, args, want=None):
        out.append(("%s(%s)" % (m, title), m, args, want or (lambda a: {})))
    text = lambda n: h.render(n)
    if typ == "VCALENDAR":
        for m, g in (("editName", "getName"), ("editDescription", "getDescription")):
            op(m, "text", lambda: [T("x")], lambda a, g=g: {g: a[0]})
            op(m, "nothing", lambda: [""], lambda a, g=g: {g: ""})
        return out
    if typ == "VALARM":
        for s in ("Pending", "Completed", "Disabled"):
            op("editStatus", s, lambda s=s: [h.const("eAlarm_Status_" + s)], lambda a: {"getAlarmStatus": a[0]})
        A = IC + "valarm:VAlarm."
        for k, act, args in (("VAlarmAudio", "Audio", (T("sp"),)), ("VAlarmDisplay", "Display", (T("ds"),)), ("VAlarmURI", "URI", (T("ur"),)), ("VAlarmNone", "None", ()),
                             ("VAlarmEmail", "Email", (T("ds"), T("su"), ["mailto:" + T("m1"), "mailto:" + T("m2")]))):
            op("editAction", act, lambda k=k, act=act, args=args: [h.const("eAction_VAlarm_" + act), h.run.new(A + k, *[h.run.list([h.run.val(y) for y in x]) if isinstance(
                x, list) else x for x in args])], lambda a: {"getAction": a[0], "getActionData": h.render(a[1])})
        op("editTriggerOn", "date-time", lambda: [h.dt(DT["dt2"])], lambda a: {"isTriggerAbsolute": True, "getTriggerOn": h.render(a[0])})
        for d, on in (("-PT1H", True), ("P1D", False)):
            op("editTriggerBy", "%s, %s" % (d, on), lambda d=d, on=on: [h.dur(d), on], lambda a: {"isTriggerAbsolute": False, "getTriggerDuration": h.render(a[0]), "isTriggerOnStart": a[1]})
        for n in (0, 3):
            op("editRepeats", str(n), lambda n=n: [n, h.dur("PT2M")], lambda a: {"getRepeats": a[0]})
        op("alarmTriggered", "date-time", lambda: [h.dt(DT["dt2"])])
        op("setSeq", "9", lambda: [9], lambda a: {"getSeq": 9})
        return out
    op("setUID", "text", lambda: [T("ui")], lambda a: {"getUID": a[0]})
    op("setSeq", "9", lambda: [9], lambda a: {"getSeq": 9})
    op("setSeq", "0", lambda: [0], lambda a: {"getSeq": 0})
    op("initDTSTAMP", "", lambda: [])
    op("updateLastModified", "", lambda: [])
    if typ == "VAVAILABILITY":
        return out
    op("editTiming", "", lambda: [], lambda a: {"hasStart": False, "hasEnd": False})
    for s, e in (("dt", "dt2"), ("day", "day2"), ("day", "day4"), ("dt", "dt"), ("dt", "dt3"), ("day", "day")):
        op("editTimingStartEnd", "%s, %s" % (s, e), lambda s=s, e=e: [h.dt(DT[s]), h.dt(DT[e])],
           lambda a, s=s, e=e: dict([("hasStart", True), ("getStart", h.render(a[0]))] + ([("getEnd", h.render(a[1]))] if e > s and e != "dt3" else [])))
    for s in ("dt", "day"):
        for d in DUR:
            if s == "day" and ("T" in d and d != "PT0S"):
                continue
            op("editTimingStartDuration", "%s, %s" % (s, d), lambda s=s, d=d: [h.dt(DT[s]), h.dur(d)],
               lambda a: {"hasStart": True, "getStart": h.render(a[0]), "getEnd": h.render(h.run.meth(a[0], "__add__", a[1]))})
    if typ == "VFREEBUSY":
        return out
    for s in ("s1", ""):
        op("editSummary", s, lambda s=s: [T(s) if s else s], lambda a: {"getSummary": a[0]} if a[0] else {})
    op("editDetails", "both", lambda: [T("de"), T("lo")], lambda a: {"getDescription": a[0], "getLocation": a[1]})
    op("editDetails", "neither", lambda: ["", ""], lambda a: {"getDescription": "", "getLocation": ""})
    for how in ("rule", "everything", "nothing"):
        op("editRecurrenceSet", how, lambda how=how: [h.recurs(how)], lambda a: {"getRecurrenceSet": h.render(a[0])})
    op("excludeRecurrence", "date-time", lambda: [h.dt("20200103T100000Z")])
    if started:
        op("excludeFutureRecurrence", "date-time", lambda: [h.dt("20200104T100000Z")])
    st = {"VEVENT": ("None", "Tentative", "Confirmed", "Cancelled"), "VTODO": ("NeedsAction", "Completed", "InProcess", "Cancelled", "None")}.get(typ, ())
    for s in st:
        op("editStatus", s, lambda s=s: [h.const("eStatus_%s_%s" % ("VEvent" if typ == "VEVENT" else "VToDo", s))], lambda a: {"getStatus": a[0]})
    if typ == "VTODO":
        for d in ("dt", "day"):
            op("editTimingDue", d, lambda d=d: [h.dt(DT[d])], lambda a: {"hasEnd": True, "getEnd": h.render(a[0])})
        op("editCompleted", "date-time", lambda: [h.dt(DT["dt"])], lambda a: {"hasCompleted": True, "getCompleted": h.render(a[0])})
    return out


def tree(typ, ps):
    """(calendar, path of the component in it)"""
    N1 = N(typ, ps)
    ev = ["UID:e", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z"]
    if typ == "VCALENDAR":
        return N(typ, ["VERSION:2.0", "PRODID:-//x//y"] + ps, [N("VEVENT", ev)]), ()
    if typ == "VALARM":
        N1 = N("VEVENT", ev, [N1])
    elif typ == "AVAILABLE":
        N1 = N("VAVAILABILITY", ev[:2], [N1])
    return N("VCALENDAR", ["VERSION:2.0", "PRODID:-//x//y"], [N1]), (0, 0) if typ in ("VALARM", "AVAILABLE") else (0,)


class Steps(Editor):
    def const(self, name):
        o = self.ctx.base.get(("mod", IC + "definitions"))
        if o is None or name not in o.fields:
            raise AnalysisBroken("the constant %s is not found" % name)
        return const_of(o.fields[name])[1]

    def recurs(self, how):
        r = self.run
        s = r.new(IC + "recurrenceset:RecurrenceSet")
        rule = lambda t: self.rule(t)
        if how != "nothing":
            r.meth(s, "addRule", rule("FREQ=WEEKLY;COUNT=4"))
        if how == "everything":
            r.meth(s, "addRule", rule("FREQ=MONTHLY;BYDAY=1MO"))
            r.meth(s, "addDT", self.dt("20200208T100000Z"))
            r.meth(s, "addDT", self.dt("20200209T100000Z"))
            r.meth(s, "addPeriod", self.period("20200210T100000Z/PT1H"))
            r.meth(s, "subtractDT", self.dt("20200211T100000Z"))
            r.meth(s, "subtractRule", rule("FREQ=YEARLY"))
        return s

    def rule(self, t):
        o = self.run.new(IC + "recurrence:Recurrence")
        self.run.meth(o, "parse", t)
        return o

    def period(self, t):
        return self.run.static("pycalendar.period:Period", "parseText", t)

    def find(self, cal, path):
        v = cal
        for i in path:
            l = self.run.meth(v, "getComponents")
            o = self.run.st.heap.get(next(iter(l))[1])
            if i >= len(o.items):
                raise Stop("the component is not there any more")
            v = o.items[i]
        return v

    def written(self, cal, all_formats=True):
        kws = {"includeTimezones": NO_TIMEZONES}
        out = (self.text(cal, **kws),) + ((self.xml(cal, **kws), self.json(cal, **kws)) if all_formats else ())
        for f, v in zip(("text", "XML", "JSON"), out):
            if v is None:
                raise Stop("writing %s fails with %s" % (f, self.run.failed))
        return out

    def edit(self, comp, o):
        """one operation; the accessors it promises"""
        args = o[2]()
        if any(a is None for a in args):
            raise AnalysisBroken("the arguments of %s cannot be made" % o[0])
        want = o[3](args)
        if self.run.meth(comp, o[1], *args) is None:
            raise Stop("raises %s" % self.run.failed)
        return want

    def agree(self, cal, path, want, all_formats):
        r = self.run
        have = self.vector(self.find(cal, path))
        for n, x in sorted(want.items()):
            if n in have and have[n] != x:
                raise Stop("%s gives %s, not %s" % (n, self.show(have[n]), self.show(x)))
            if n not in have and x is not False:
                raise Stop("%s has no value" % n)
        out = self.written(cal, all_formats)
        back = self.read("ical", out[0])
        if back is None:
            raise Stop("what is written cannot be read: %s" % r.failed)
        there = self.vector(self.find(back, path))
        for n in sorted(set(have) | set(there)):
            a, b = have.get(n), there.get(n)
            if a in ("", None) and b in ("", None):
                continue            # absent
            if a != b:
                raise Stop("%s gives %s, and %s after writing and reading back" % (n, self.show(a), self.show(b)))
        for f, a, b in zip(("text", "XML", "JSON"), out, self.written(back, all_formats)):
            if a != b:
                raise Stop("%s written is %s, and %s after reading back" % ((f,) + differ(self.show(a), self.show(b))))
        return len(have)


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s..." % a[max(0, i - 30):i + 50], "...%s..." % b[max(0, i - 30):i + 50]


def run(ctx):
    ctx.rule("after an edit all accessors give the same as after writing the component and reading it back")
    h = Steps(ctx)
    r = h.run
    base = r.st
    seen = {}
    for typ, title, ps in states():
        r.st = base
        t, path = tree(typ, ps)
        cal = h.read("ical", t.text())
        if cal is None:
            raise AnalysisBroken("the component %s (%s) cannot be read" % (typ, title))
        if step(ctx, h, cal, path, None, typ, (typ, title), {}) is None:
            continue
        st0 = r.st
        ops = operations(h, typ, any(p.startswith("DTSTART") for p in ps))
        for o in ops:
            r.st = st0
            st1 = step(ctx, h, cal, path, o, typ, (typ, title, o[0]), {})
            if st1 is None:
                continue
            # a second edit after it
            n = seen.setdefault((typ, o[0]), 0)
            if ctx.tier != "thorough" and n:
                continue
            seen[typ, o[0]] = 1
            for p in ops:
                if ctx.tier != "thorough" and (group(p) != group(o) or {p[0], o[0]} & MINOR):
                    continue
                r.st = st1
                step(ctx, h, cal, path, p, typ, (typ, title, o[0], p[0]), {})
    ctx.used(*r.ip.inlined)
    ctx.floor("edits", 1500)


# operations left out of the pairs of the quick run, by their titles
MINOR = {"editTimingStartEnd(dt, dt)", "editTimingStartEnd(dt, dt3)", "editTimingStartEnd(day, day)", "editTimingStartEnd(day, day4)"} | {
    "editTimingStartDuration(%s, %s)" % (s, d) for s in ("dt", "day") for d in DUR if (s, d) not in (("dt", "PT1H"), ("day", "P1D"))}


def group(o):
    """operations on the same values"""
    m = o[1]
    for g in ("Timing", "Recurrence", "Action", "Trigger"):
        if g in m:
            return g
    return "Status" if m in ("editStatus", "editCompleted", "alarmTriggered") else m


def step(ctx, h, cal, path, o, typ, where, want):
    r = h.run
    rule = "edit" if o else "read"
    key = "%s.%s" % (typ, o[1] if o else "read")
    try:
        if o:
            want = h.edit(h.find(cal, path), o)
        st = r.st
        n = h.agree(cal, path, want, len(where) < 4 or ctx.tier == "thorough")
    except Stop as e:
        ctx.oblige(False, rule, key, CAL, "%s: %s" % (", ".join(where), e))
        return None
    ctx.oblige(True, rule, key, CAL, "")
    ctx.count("edits", 1)
    ctx.count("accessors", n)
    return st
