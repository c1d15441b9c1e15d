"""Whole calendars and cards with holes: read, written in every format with and without a filter, and read back."""
from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from .holes import Run
from . import wire
from .wire import Wire, VARIANTS, unfold

CAL = "pycalendar.icalendar.calendar:Calendar"
CARD = "pycalendar.vcard.card:Card"
FILTER = "pycalendar.outputfilter:OutputFilter"
NO_TIMEZONES = 2


class Node(object):
    def __init__(self, typ, props=(), kids=(), ordered=False):
        self.typ, self.props, self.kids = typ, list(props), list(kids)
        self.ordered = ordered          # the order of the components matters

    def lines(self):
        yield "BEGIN:" + self.typ
        for p in self.props:
            yield p
        for k in self.kids:
            for l in k.lines():
                yield l
        yield "END:" + self.typ

    def text(self):
        return "\r\n".join(list(self.lines()) + [""])

    def walk(self):
        yield self
        for k in self.kids:
            for n in k.walk():
                yield n


def name(line):
    """upper-case property name of a line"""
    n = line
    for c in ";:":
        n = n.split(c, 1)[0]
    return n.split(".")[-1].upper()


def trees(T):
    """(title, variant, tree): every component type, nested as the formats allow"""
    N = Node
    head = ["VERSION:2.0", "PRODID:-//x//y", "METHOD:" + T("m"), "X-WR-CALNAME:" + T("cn"), "X-ONE:1" + T("x1"), "X-ONE:2" + T("x2")]
    alarm = N("VALARM", ["ACTION:DISPLAY", "DESCRIPTION:" + T("ad"), "TRIGGER;RELATED=END:-PT5M", "X-A:" + T("aa")])
    alarm2 = N("VALARM", ["ACTION:AUDIO", "TRIGGER;VALUE=DATE-TIME:20200102T030405Z", "REPEAT:2", "DURATION:PT1M", "ATTACH:" + T("at")])
    alarm3 = N("VALARM", ["ACTION:EMAIL", "DESCRIPTION:" + T("ad"), "SUMMARY:" + T("as"), "ATTENDEE:mailto:" + T("at"), "TRIGGER:-PT7M"])
    common = ["DTSTAMP:20200101T000000Z", "SUMMARY:" + T("s"), "CATEGORIES:" + T("c1") + "," + T("c2"), "ATTENDEE;CN=" + T("n1") + ";RSVP=TRUE:mailto:" + T("a1"),
              "ATTENDEE;CN=" + T("n2") + ":mailto:" + T("a2"), "x-lower:" + T("l"), "X-T;VALUE=INTEGER:5", "X-U;X-P=" + T("p1") + ";X-P=" + T("p2") + ":" + T("v")]
    event = N("VEVENT", ["UID:u1", "DTSTART:20200115T120000Z", "DURATION:PT1H", "RRULE:FREQ=DAILY;COUNT=3", "EXDATE:20200116T120000Z",
                         "RDATE:20200120T120000Z,20200121T120000Z", "GEO:1.5;2.5", "STATUS:CONFIRMED", "REQUEST-STATUS:2.0;" + T("rs")] + common, [alarm2, alarm, alarm3])
    over = N("VEVENT", ["UID:u1", "RECURRENCE-ID:20200116T120000Z", "DTSTART:20200116T130000Z", "DTEND:20200116T140000Z", "SUMMARY:" + T("s2"),
                        "DTSTAMP:20200101T000000Z"])
    allday = N("VEVENT", ["UID:u2", "DTSTART;VALUE=DATE:20200115", "DTEND;VALUE=DATE:20200117", "DTSTAMP:20200101T000000Z", "DESCRIPTION:" + T("d") + "\\n" + T("e")])
    todo = N("VTODO", ["UID:t1", "DUE:20200115T120000Z", "PRIORITY:1", "STATUS:NEEDS-ACTION", "PERCENT-COMPLETE:50"] + common, [alarm])
    todo2 = N("VTODO", ["UID:t2", "DTSTART:20200115T120000Z", "COMPLETED:20200115T130000Z", "DTSTAMP:20200101T000000Z"])
    journal = N("VJOURNAL", ["UID:j1", "DTSTART;VALUE=DATE:20200115"] + common)
    fb = N("VFREEBUSY", ["UID:f1", "DTSTART:20200115T000000Z", "DTEND:20200116T000000Z", "FREEBUSY;FBTYPE=BUSY:20200115T010000Z/20200115T020000Z,20200115T030000Z/PT1H",
                         "FREEBUSY:20200115T050000Z/PT1H"] + common)
    zone = N("VTIMEZONE", ["TZID:" + T("z"), "LAST-MODIFIED:20200101T000000Z", "X-Z:" + T("xz")], [
        N("STANDARD", ["DTSTART:20071104T020000", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500", "TZNAME:" + T("zs"), "RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=11"]),
        N("DAYLIGHT", ["DTSTART:20070311T020000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400", "TZNAME:" + T("zd"), "RRULE:FREQ=YEARLY;BYDAY=2SU;BYMONTH=3", "COMMENT:" + T("zc")]),
        N("STANDARD", ["DTSTART:19671029T020000", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500", "TZNAME:" + T("zs")])], ordered=True)
    avail = N("VAVAILABILITY", ["UID:v1", "DTSTART:20200115T000000Z", "DTEND:20200215T000000Z", "BUSYTYPE:" + T("bt")] + common, [
        N("AVAILABLE", ["UID:w1", "DTSTART:20200115T090000Z", "DURATION:PT8H", "RRULE:FREQ=WEEKLY"] + common),
        N("AVAILABLE", ["UID:w2", "DTSTART:20200116T090000Z", "DTEND:20200116T100000Z", "DTSTAMP:20200101T000000Z"])])
    poll = N("VPOLL", ["UID:p1", "DTSTART:20200115T000000Z", "POLL-MODE:BASIC", "POLL-PROPERTIES:DTSTART,DTEND", "POLL-ITEM-ID:1"] + common, [
        N("VVOTER", ["VOTER:mailto:" + T("v1"), "COMMENT:" + T("vc")], [
            N("VOTE", ["POLL-ITEM-ID:1", "RESPONSE:50", "COMMENT:" + T("vv")]), N("VOTE", ["POLL-ITEM-ID:2", "RESPONSE:90"])]),
        N("VVOTER", ["VOTER:mailto:" + T("v2")], [N("VOTE", ["POLL-ITEM-ID:1", "RESPONSE:10"])], ordered=False)], ordered=True)
    other = N("X-COMP", ["UID:o1", "X-B:" + T("b"), "SUMMARY:" + T("s")], [N("X-INNER", ["X-C:" + T("c")]), N("X-INNER", ["X-C:2" + T("c")])], ordered=True)
    C = lambda *kids: N("VCALENDAR", head, kids)
    yield "nothing", "ical", C()
    yield "an event with alarms and an override", "ical", C(event, over)
    yield "all-day event", "ical", C(allday)
    yield "to-dos", "ical", C(todo, todo2)
    yield "journal and free/busy", "ical", C(journal, fb)
    yield "time zone", "ical", C(zone)
    yield "availability", "ical", C(avail)
    yield "poll", "ical", C(poll)
    yield "unknown component", "ical", C(other)
    yield "one of each", "ical", C(event, over, allday, todo, todo2, journal, fb, zone, avail, poll, other)
    yield "card", "vcard", N("VCARD", ["VERSION:3.0", "N:" + T("n1") + ";" + T("n2") + ";;;", "FN:" + T("f"), "ORG:" + T("o1") + ";" + T("o2"),
                                       "TEL;TYPE=HOME;TYPE=VOICE:" + T("t1"), "TEL;TYPE=" + T("tt") + ":" + T("t2"), "ADR;TYPE=WORK:;;" + T("st") + ";" + T("ci") + ";;;",
                                       "EMAIL:" + T("e1"), "EMAIL;TYPE=PREF,WORK:" + T("e2"), "CATEGORIES:" + T("c1") + "," + T("c2"), "BDAY:20000101",
                                       "NOTE:" + T("no") + "\\n" + T("nn"), "UID:" + T("u"), "REV:20200101T000000Z", "x-lower:" + T("l"), "PHOTO;ENCODING=B:" + T("ph")])


class Player(object):
    show = wire.Player.show

    def __init__(self, ctx):
        self.ctx = ctx
        self.run = Run(ctx)
        self.run.pol.longest = 6
        self.run.pol.strict_sort = True
        self.run.ip.max_steps = 10 ** 7
        self.w = Wire(self.run)
        self.q = self.run.pol

    # ------------------------------------------------------------ reading and writing
    def read(self, variant, text):
        return self.run.static(CAL if variant == "ical" else CARD, "parseText", text)

    def plainly(self, variant, tree):
        """keyword arguments that keep missing time zones out"""
        return {"includeTimezones": NO_TIMEZONES} if variant == "ical" and tree.typ == "VCALENDAR" else {}

    def text(self, o, flt=None, **kws):
        s = self.run.stream()
        r = self.run.meth(o, "generate", s, **kws) if flt is None else self.run.meth(o, "generateFiltered", s, flt)
        return None if r is None else unfold(self.run.buf(s))

    def xml(self, o, flt=None, **kws):
        if flt is None and kws:
            r = self.run.meth(o, "writeXML", **kws)
            return None if r is None else self.run.xml(r)
        x = self.run.element()
        r = self.run.meth(o, "writeXML", x, "ns") if flt is None else self.run.meth(o, "writeXMLFiltered", x, "ns", flt)
        return None if r is None else self.run.xml(x)

    def json(self, o, flt=None, **kws):
        l = self.run.list()
        r = self.run.meth(o, "writeJSON", l, **kws) if flt is None else self.run.meth(o, "writeJSONFiltered", l, flt)
        return None if r is None else self.run.plain(l, 60)

    # ------------------------------------------------------------ properties on their own
    def alone(self, variant, line):
        self.last = line
        """the three renderings of one property: line, XML element, JSON list"""
        k = (variant, line)
        if k not in self.props:
            o = self.run.static(VARIANTS[variant][0], "parseText", line)
            if o is None:
                raise AnalysisBroken("the property %s cannot be read" % self.q.show(line))
            t = self.text(o)
            x = self.xml(o)
            j = self.json(o)
            if t is None or x is None or j is None:
                raise AnalysisBroken("the property %s cannot be written" % self.q.show(line))
            self.props[k] = t, x[3][0], j[0]
        return self.props[k]

    props = None

    def expected(self, variant, tree, fmt, flt):
        """(type, [properties], [components]) a format is to contain"""
        ps = []
        for l in tree.props:
            nov = flt.prop(name(l)) if flt is not None else False
            if nov is None:
                continue
            r = self.alone(variant, l)[fmt]
            ps.append(novalue(r, fmt) if nov else r)
        ks = []
        for k in tree.kids:
            if flt is None or flt.allsubs:
                ks.append(self.expected(variant, k, fmt, None))
            elif flt.subs is not None and k.typ in flt.subs:
                ks.append(self.expected(variant, k, fmt, flt.subs[k.typ]))
        return tree.typ, ps, ks


def novalue(r, fmt):
    if fmt == 0:
        i, q = 0, False
        while r[i] != ":" or q:
            if r[i] == '"':
                q = not q
            i += 1
        return r[:i + 1] + "\r\n"
    if fmt == 1:
        return (r[0], r[1], r[2], [k for k in r[3] if k[0].endswith("}parameters")])
    return r[:2]


class Flt(object):
    """what an output filter selects"""

    def __init__(self, typ, props="all", subs="all"):
        self.typ = typ
        self.props = props          # "all", None, {name: no value}
        self.allsubs = subs == "all"
        self.subs = None if subs in ("all", None) else subs         # {type: Flt}

    def prop(self, n):
        """None: not written; else whether it is written without its value"""
        if self.props == "all":
            return False
        return None if self.props is None else self.props.get(n)

    def make(self, run):
        o = run.new(FILTER, self.typ)
        if self.props == "all":
            run.meth(o, "setAllProperties")
        elif self.props is not None:
            for n, nov in sorted(self.props.items()):
                run.meth(o, "addProperty", n, nov)
        if self.allsubs:
            run.meth(o, "setAllSubComponents")
        elif self.subs is not None:
            for _t, f in sorted(self.subs.items()):
                run.meth(o, "addSubComponent", f.make(run))
        return o


def filters(tree):
    """(title, filter) for one tree"""
    names = sorted({name(l) for l in tree.props})
    yield "everything", Flt(tree.typ)
    yield "nothing", Flt(tree.typ, None, None)
    yield "no components", Flt(tree.typ, "all", None)
    yield "no properties", Flt(tree.typ, None, "all")
    yield "some properties, all components", Flt(tree.typ, {n: i % 2 == 1 for i, n in enumerate(names) if i % 3}, "all")
    yield "properties not present", Flt(tree.typ, {"X-NONE": False}, {"X-NOCOMP": Flt("X-NOCOMP")})

    def kinds(n):
        r = {}
        for k in n.kids:
            r.setdefault(k.typ, []).append(k)
        return r

    def merged(ns):
        """one node with the properties and components of all"""
        return Node(ns[0].typ, [p for n in ns for p in n.props], [k for n in ns for k in n.kids])

    def every(n):
        return Flt(n.typ, "all", {t: every(merged(ks)) for t, ks in kinds(n).items()} or None)

    def listed(n, pick, comps):
        ps = {p: pick(i) for i, p in enumerate(sorted({name(l) for l in n.props})) if pick(i) is not None}
        return Flt(n.typ, ps, {t: listed(merged(ks), pick, comps) for j, (t, ks) in enumerate(sorted(kinds(n).items())) if comps(j)} or None)

    yield "every component listed", every(tree)
    yield "every property listed", listed(tree, lambda i: False, lambda j: True)
    yield "every property without value", listed(tree, lambda i: True, lambda j: True)
    yield "half of it", listed(tree, lambda i: (None, False, True)[i % 3], lambda j: j % 2 == 0)
    yield "the other half", listed(tree, lambda i: (True, None, False)[i % 3], lambda j: j % 2 == 1)


def canon(t):
    """order-free form of (type, properties, components)"""
    return t[0], sorted(t[1], key=repr), sorted((canon(k) for k in t[2]), key=repr)


def parse_text(s):
    """(type, [lines], [components]) of written text"""
    stack = [("", [], [])]
    for l in s.split("\r\n")[:-1]:
        if l.startswith("BEGIN:"):
            stack.append((l[6:], [], []))
        elif l.startswith("END:"):
            n = stack.pop()
            if n[0] != l[4:] or not stack:
                raise ValueError("delimiters do not match")
            stack[-1][2].append(n)
        else:
            stack[-1][1].append(l + "\r\n")
    if len(stack) != 1 or stack[0][1] or len(stack[0][2]) != 1:
        raise ValueError("not one component")
    return stack[0][2][0]


def parse_xml(x):
    """(type, [elements], [components]) of a component element"""
    ns = x[0][:x[0].index("}") + 1]
    ps, ks = [], []
    for k in x[3]:
        if k[0] == ns + "properties":
            ps += k[3]
        elif k[0] == ns + "components":
            ks += [parse_xml(c) for c in k[3]]
        else:
            raise ValueError("unexpected element %s" % k[0])
    if x[1]:
        raise ValueError("unexpected text")
    return x[0][len(ns):], ps, ks


def parse_json(j):
    if not (isinstance(j, list) and len(j) == 3 and isinstance(j[1], list) and isinstance(j[2], list)):
        raise ValueError("not a component")
    return j[0].upper(), list(j[1]), [parse_json(k) for k in j[2]]


def strip_ns(x):
    """an element with its namespace removed"""
    return (x[0][x[0].index("}") + 1:], x[1], x[2], [strip_ns(k) for k in x[3]])
