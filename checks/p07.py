"""P07: a calendar's lookups always match the components it holds."""
from pyan.ai import V, const_of
from pyan.front import AnalysisBroken, walk, walk_scope
from .holes import Run
from .tree import CAL, Player, Node as N

INFO = {
    "level": "other",
    "technique": "abstract interpretation of all histories of calendar operations up to a depth, on calendars whose identifiers are symbolic texts, against a list model",
    "note": "Every sequence (two operations quick, three thorough) of add, remove, remove by key, remove all, change of UID, copying and reading more data, from empty, "
            "read, JSON-read and copied calendars: every lookup gives exactly the components held. A rule over the syntax tree requires every function changing the "
            "component list or an index to be one of the operations followed.",
    "explanation": "States of the interpreted calendar are explored breadth first; after each operation the component list, lookups by type, by key, and of overrides "
                   "by identifier, and the private indexes are compared with a list model. Identifiers are arbitrary distinct non-empty texts.",
    "assumptions": ["UIDs are changed with changeUID and RECURRENCE-IDs are not edited while a component is in a calendar",
                    "components without a UID, and a change to the empty UID, are not covered", "removal is by equality, and no two equal components are in one calendar"],
}

RECUR = ("VEVENT", "VTODO", "VJOURNAL")
TYPES = RECUR + ("VFREEBUSY", "VTIMEZONE", "VAVAILABILITY")


class Comp(object):
    """one component held: its value, type, UID and RECURRENCE-ID"""

    def __init__(self, v, typ, uid, rid):
        self.v, self.typ, self.uid, self.rid = v, typ, uid, rid

    def __repr__(self):
        return "%s%s" % (self.typ, "(override)" if self.rid else "")


class Histories(Player):
    def __init__(self, ctx):
        super(Histories, self).__init__(ctx)
        self.U = [self.w.text("u%d" % i) for i in range(4)]
        self.names = {u: "u%d" % i for i, u in enumerate(self.U)}
        self.rids = ["20200116T120000Z", "20200117T120000Z"]
        self.serial = 0

    # ------------------------------------------------------------ components and calendars
    def node(self, typ, uid, rid=None):
        self.serial += 1
        ps = ["UID:" + uid] if typ != "VTIMEZONE" else ["TZID:" + uid]
        if rid:
            ps.append("RECURRENCE-ID:" + rid)
        if typ != "VTIMEZONE":
            ps += ["DTSTAMP:20200101T000000Z", "DTSTART:20200115T120000Z", "X-N:%d" % self.serial]
        if typ in ("VEVENT", "VTODO") and not rid:
            ps.append("RRULE:FREQ=DAILY")
        kids = [N("STANDARD", ["DTSTART:20071104T020000", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500"])] if typ == "VTIMEZONE" else []
        return N(typ, ps, kids)

    def cal(self, *specs):
        return N("VCALENDAR", ["VERSION:2.0", "PRODID:-//x//y"], [self.node(*s) for s in specs])

    def rich(self):
        u = self.U
        return self.cal(("VEVENT", u[0]), ("VEVENT", u[0], self.rids[0]), ("VTODO", u[0]), ("VEVENT", u[1]), ("VEVENT", u[1], self.rids[0]),
                        ("VFREEBUSY", u[1]), ("VTIMEZONE", u[3]))

    def describe(self, v):
        r = self.run
        typ = self.text_of(r.meth(v, "getType"))
        uid = self.text_of(r.meth(v, "getUID")) if typ != "VTIMEZONE" else None
        rid = None
        if typ in RECUR:
            x = r.meth(v, "getRecurrenceID")
            ok, c = const_of(x)
            if not (ok and c is None):
                rid = self.text_of(r.meth(x, "getText"))
        return Comp(v, typ, uid, rid)

    def text_of(self, v):
        if v is None:
            raise Stop("raises %s" % self.run.failed)
        ok, c = const_of(v)
        if not ok:
            raise AnalysisBroken("a text of a calendar component is not known")
        return c

    def items(self, v):
        if v is None:
            raise Stop("raises %s" % self.run.failed)
        o = self.run.st.heap.get(next(iter(v))[1])
        if o is None or not isinstance(o.items, list) or o.elems:
            raise AnalysisBroken("a list of calendar components is not known")
        return list(o.items)

    def model(self, cal):
        return [self.describe(v) for v in self.items(self.run.meth(cal, "getComponents"))]


class Stop(Exception):
    pass


class State(object):
    def __init__(self, st, cal, comps, gone, path):
        self.st, self.cal, self.comps, self.gone, self.path = st, cal, comps, gone, path


def operations(h, s):
    """[(title, function on the run giving the new model)]"""
    r, U = h.run, h.U
    nm = h.names
    out = []

    def pool():
        yield "VEVENT", U[0], None
        yield "VEVENT", U[1], h.rids[1]
        yield "VEVENT", U[2], h.rids[0]
        yield "VJOURNAL", U[0], None
        yield "VTODO", U[0], h.rids[1]
        yield "VFREEBUSY", U[0], None

    def done(v):
        if v is None:
            raise Stop("raises %s" % r.failed)

    def add(i):
        def f():
            c = h.pool[i]
            done(r.meth(s.cal, "addComponent", c.v))
            return s.cal, s.comps + [c], s.gone
        return f
    for i, c in enumerate(h.pool):
        if not any(x.v == c.v for x in s.comps):
            out.append(("addComponent(%s %s)" % (c, nm.get(c.uid, "?")), add(i)))

    def remove(i, key):
        def f():
            c = s.comps[i]
            if key:
                k = r.meth(c.v, "getMapKey")
                done(r.meth(s.cal, "removeComponentByKey", k))
                first = next(x for x in s.comps if same(r.meth(x.v, "getMapKey"), k))
            else:
                done(r.meth(s.cal, "removeComponent", c.v))
                first = c
            return s.cal, [x for x in s.comps if x is not first], s.gone + [first]
        return f
    for i, c in enumerate(s.comps):
        out.append(("removeComponent(%s %s)" % (c, nm.get(c.uid, "?")), remove(i, False)))
        out.append(("removeComponentByKey(%s %s)" % (c, nm.get(c.uid, "?")), remove(i, True)))

    def nokey():
        done(r.meth(s.cal, "removeComponentByKey", "no such key"))
        return s.cal, s.comps, s.gone
    out.append(("removeComponentByKey(absent)", nokey))

    def every(typ):
        def f():
            done(r.meth(s.cal, "removeAllComponent", *([typ] if typ else [])))
            keep = [c for c in s.comps if typ and c.typ != typ.upper()]
            return s.cal, keep, s.gone + [c for c in s.comps if c not in keep]
        return f
    for t in (None, "VEVENT", "vtodo", "VFREEBUSY", "VTIMEZONE"):
        out.append(("removeAllComponent(%s)" % (t or ""), every(t)))

    def uid(a, b):
        def f():
            done(r.meth(s.cal, "changeUID", a, b))
            new = [Comp(c.v, c.typ, b, c.rid) if c.uid == a else c for c in s.comps]
            return s.cal, new, s.gone
        return f
    for a, b in ((0, 1), (1, 0), (0, 0), (0, 2), (2, 0)):
        out.append(("changeUID(u%d, u%d)" % (a, b), uid(U[a], U[b])))

    def copy():
        c = r.meth(s.cal, "duplicate")
        done(c)
        new = h.model(c)
        if [(x.typ, x.uid, x.rid) for x in new] != [(x.typ, x.uid, x.rid) for x in s.comps]:
            raise Stop("gives a calendar with the components %s" % new)
        if any(x.v == y.v for x in new for y in s.comps):
            raise Stop("gives a calendar sharing a component with the original")
        return c, new, s.comps + s.gone
    out.append(("duplicate()", copy))

    def reread(fmt):
        def f():
            st = r.st
            text = h.more[fmt]
            if fmt == "parse":
                done(r.meth(s.cal, "parse", r.call(V(("ext", "cStringIO.StringIO")), text)))
            elif fmt == "parseComponent":
                done(r.meth(s.cal, "parseComponent", r.call(V(("ext", "cStringIO.StringIO")), text)))
            new = h.model(s.cal)
            n = len(s.comps)
            if [x.v for x in new[:n]] != [x.v for x in s.comps] or [(x.typ, x.uid, x.rid) for x in new[n:]] != h.morespec:
                raise Stop("leaves the components %s" % new)
            return s.cal, s.comps + new[n:], s.gone
        return f
    for fmt in ("parse", "parseComponent"):
        out.append((fmt, reread(fmt)))
    return out


def same(a, b):
    return const_of(a)[0] and const_of(a) == const_of(b)


def agree(h, s):
    """compare every lookup with the model; raises Stop"""
    r = h.run
    n = 0

    def eq(what, got, want):
        if [x for x in got] != [c.v for c in want]:
            d = "misses a component present" if any(c.v not in got for c in want) else "finds a component that is not present" if any(
                g not in [c.v for c in want] for g in got) else "gives the components in another order or twice"
            raise Stop("%s %s" % (what, d))

    def bag(what, got, want):
        """order is not promised"""
        if sorted(map(repr, got)) != sorted(repr(c.v) for c in want):
            eq(what, got, want)
            raise Stop("%s gives other components" % what)
    eq("getComponents()", h.items(r.meth(s.cal, "getComponents")), s.comps)
    n += 1
    for t in TYPES:
        want = [c for c in s.comps if c.typ == t]
        eq("getComponents(%s)" % t, h.items(r.meth(s.cal, "getComponents", t.lower())), want)
        for m, w in (("countComponents", len(want)), ("hasComponent", bool(want))):
            ok, c = const_of(r.meth(s.cal, m, t))
            if not ok or c != w:
                raise Stop("%s(%s) gives %s" % (m, t, c))
        n += 3
    for i, u in enumerate(h.U[:3]):
        want = [c for c in s.comps if c.uid == u and c.rid and c.typ in RECUR]
        for t in ("VEVENT", "VTODO"):
            if any(c.typ != t for c in want):
                continue        # the lookup does not promise to tell the types apart
            l = r.list()
            if r.meth(s.cal, "getRecurrenceInstancesItems", t, u, l) is None:
                raise Stop("getRecurrenceInstancesItems(u%d) raises %s" % (i, r.failed))
            bag("getRecurrenceInstancesItems(u%d)" % i, h.items(l), want)
            l = r.list()
            if r.meth(s.cal, "getRecurrenceInstancesIds", t, u, l) is None:
                raise Stop("getRecurrenceInstancesIds(u%d) raises %s" % (i, r.failed))
            got = sorted(h.text_of(r.meth(x, "getText")) for x in h.items(l))
            if got != sorted(c.rid for c in want):
                raise Stop("getRecurrenceInstancesIds(u%d) gives %s" % (i, got))
            n += 2
    keys = {}
    for c in s.comps:
        k = r.meth(c.v, "getMapKey")
        keys.setdefault(h.text_of(k), []).append(c)
        if c.typ in RECUR + ("VFREEBUSY",) and h.text_of(r.meth(c.v, "getUID")) != c.uid:
            raise Stop("getUID of %s is not %s" % (c, h.names.get(c.uid)))
    for k, cs in keys.items():
        got = r.meth(s.cal, "getComponentByKey", k)
        if got is None or got not in [c.v for c in cs]:
            raise Stop("getComponentByKey does not find %s" % cs[0])
        n += 1
        kinds = {(c.uid, c.rid) for c in cs}
        if len(kinds) > 1:
            raise Stop("%s and %s have the same key" % (cs[0], cs[-1]))
    for c in s.gone[-3:]:
        k = h.text_of(r.meth(c.v, "getMapKey"))
        if k not in keys:
            got = r.meth(s.cal, "getComponentByKey", k)
            if got is None or const_of(got) != (True, None):
                raise Stop("getComponentByKey still finds %s" % c)
            n += 1
    rec = [c for c in s.comps if c.typ in RECUR]
    m = r.meth(s.cal, "masterComponent")
    first = next((c.v for c in rec if not c.rid), None)
    if m is None or (const_of(m) != (True, None) if first is None else m != first):
        raise Stop("masterComponent() does not give the first master")
    for name, want in (("mMasterComponentsByTypeAndUID", [c for c in rec if not c.rid]), ("mOverriddenComponentsByUID", [c for c in rec if c.rid])):
        got = index(h, s.cal, name)
        if got is None:
            continue
        n += 1
        for path, v in got:
            c = next((c for c in want if c.v == v), None)
            if c is None:
                raise Stop("%s holds a component that is not present" % name)
            if c.uid not in path or (len(path) > 1 and c.typ not in path):
                raise Stop("%s holds %s under another key" % (name, c))
        bag(name, [v for _p, v in got], want)
    return n + 2


def index(h, cal, name):
    """[(keys, component)] of a private index; None when there is none"""
    f = h.run.st.heap.get(next(iter(cal))[1]).fields.get(name)
    if f is None:
        return None
    out = []

    def walk(v, path):
        for a in v:
            if a[0] != "o":
                raise AnalysisBroken("%s holds something that is not known" % name)
            o = h.run.st.heap.get(a[1])
            if o.kind == "dict" and isinstance(o.items, dict) and not o.elems:
                for k, x in o.items.items():
                    walk(x, path + (k[2] if k[0] == "k" else k,))
            elif o.kind in ("list", "tuple") and isinstance(o.items, list) and not o.elems:
                for x in o.items:
                    walk(x, path)
            elif o.kind == "inst":
                out.append((path, v))
            else:
                raise AnalysisBroken("%s is not a map of lists any more" % name)
    walk(f, ())
    return out


def run(ctx):
    ctx.rule("every lookup of a calendar gives exactly the components it holds, after every history of operations")
    h = Histories(ctx)
    r = h.run
    deep = ctx.tier == "thorough"
    u = h.U
    lines = h.rich()
    # components to add, and data to read in addition
    h.pool = []
    other = h.read("ical", h.cal(("VEVENT", u[0]), ("VEVENT", u[1], h.rids[1]), ("VEVENT", u[2], h.rids[0]), ("VJOURNAL", u[0]), ("VTODO", u[0], h.rids[1]),
                                 ("VFREEBUSY", u[0])).text())
    if other is None:
        raise AnalysisBroken("the calendar of components to add cannot be read")
    h.pool = h.model(other)
    h.morespec = [("VEVENT", u[2], None), ("VEVENT", u[0], h.rids[1])]
    t = h.cal(*h.morespec).text()
    h.more = {"parse": t, "parseComponent": t}
    base = r.st
    starts = []

    def start(title, f):
        r.st = base
        try:
            cal = f()
            if cal is None:
                raise Stop("raises %s" % r.failed)
            starts.append(State(r.st, cal, h.model(cal), [], (title,)))
        except Stop as e:
            ctx.oblige(False, "start", title, CAL, "%s: %s" % (title, e))
    start("empty", lambda: r.new(CAL))
    start("read", lambda: h.read("ical", lines.text()))
    start("copied", lambda: r.meth(h.read("ical", lines.text()), "duplicate"))

    def from_json():
        cal = h.read("ical", lines.text())
        l = r.list()
        r.meth(cal, "writeJSON", l, includeTimezones=2)
        item = r.st.heap.get(next(iter(l))[1]).items[0]
        return r.static(CAL, "parseJSON", item, None, r.new(CAL, add_defaults=False))
    start("read from JSON", from_json)
    spec = lambda comps: sorted((c.typ, c.uid or "", c.rid or "") for c in comps)
    want = spec(starts[1].comps if len(starts) > 1 else [])
    for s in starts:
        if s.path[0] != "empty":
            ctx.oblige(spec(s.comps) == want and len(want) == len(lines.kids), "start", s.path[0], CAL,
                       "the calendar %s holds %s" % (s.path[0], s.comps))
    bad = set()
    frontier = starts
    for s in starts:
        r.st = s.st
        check(ctx, h, s, s.path[0], bad)
    if deep:
        start("read (small)", lambda: h.read("ical", h.cal(("VEVENT", u[0]), ("VEVENT", u[0], h.rids[0]), ("VTODO", u[1])).text()))
    for d in range(3 if deep else 2):
        last, frontier = [s for s in frontier if d < 2 or s.path[0] in ("empty", "read (small)")], []
        for s in last:
            r.st = s.st
            for title, f in operations(h, s):
                r.st = s.st
                where = ", ".join(s.path + (title,))
                op = title.split("(")[0]
                try:
                    cal, comps, gone = f()
                except Stop as e:
                    bad.add(op)
                    ctx.oblige(False, "operation", op, CAL, "%s: %s %s" % (where, op, e))
                    continue
                n = State(r.st, cal, comps, gone, s.path + (title,))
                if check(ctx, h, n, where, bad, op):
                    n.st = s0 = r.st
                    frontier.append(n)
                ctx.count("histories", 1)
    structure(ctx, h, [s for s in starts if s.comps])
    ctx.used(*r.ip.inlined)
    ctx.floor("histories", 1500)


def check(ctx, h, s, where, bad, op="start"):
    r = h.run
    st = r.st
    try:
        n = agree(h, s)
    except Stop as e:
        ctx.oblige(False, "lookup", op, CAL, "after %s: %s" % (where, e))
        bad.add(op)
        return False
    finally:
        r.st = st
    ctx.count("lookups", n)
    ctx.oblige(True, "lookup", op, CAL, "")
    return True


MUTATORS = ("append", "remove", "insert", "extend", "pop", "popitem", "clear", "sort", "reverse", "update", "setdefault", "add", "discard")


def fields(h, s):
    """names of the attributes of a calendar through which the components it holds are reached"""
    heap = s.st.heap
    held = {next(iter(c.v))[1] for c in s.comps}

    def reaches(v, seen):
        for a in v:
            if a[0] != "o" or a[1] in seen:
                continue
            if a[1] in held:
                return True
            seen.add(a[1])
            o = heap.get(a[1])
            if o is None or o.kind == "inst":
                continue
            for x in (o.items.values() if isinstance(o.items, dict) else o.items or ()):
                if reaches(x, seen):
                    return True
        return False
    return {f for f, v in heap.get(next(iter(s.cal))[1]).fields.items() if isinstance(v, frozenset) and reaches(v, set())}


def structure(ctx, h, starts):
    """every function that changes the component list or an index is one the histories went through"""
    names = set()
    for s in starts:
        names |= fields(h, s)
        h.run.st = s.st
        for args in ((), ("VEVENT",)):
            got = next(iter(h.run.meth(s.cal, "getComponents", *args)))
            own = [v for f, v in s.st.heap.get(next(iter(s.cal))[1]).fields.items() if f in names]
            ctx.oblige(all(got not in v for v in own), "list", "getComponents", CAL, "getComponents(%s) hands out the calendar's own list" % ", ".join(args))
    ctx.count("fields", len(names))
    ctx.floor("fields", 1)
    mro = set(ctx.prog.cls(CAL).mro)
    # fields only a calendar has: whoever changes them changes a calendar
    own = {f for f in names if not any(a.t == "Attribute" and a.attr == f for c in ctx.prog.cls(CAL).mro[1:] if c.node is not None for a in walk(c.node))}
    followed = {getattr(f, "full", f) for f in h.run.ip.inlined}
    for fi in ctx.prog.functions:
        for n, what in mutations(fi, names if fi.cls in mro else own):
            ctx.oblige(fi.full in followed, "mutator", "%s|%s" % (fi.full, what), fi.where,
                       "%s changes %s, and no operation on a calendar followed here goes through it" % (fi.qual, what))
            ctx.count("mutations", 1)
    ctx.floor("mutations", 4)


def base_field(e, names):
    """the attribute node when e is that attribute, or something looked up in it"""
    while True:
        if e.t == "Attribute" and e.attr in names:
            return e
        if e.t == "Subscript":
            e = e.value
        elif e.t == "Call" and e.func.t == "Attribute" and e.func.attr in ("get", "setdefault", "values", "itervalues", "pop"):
            e = e.func.value
        else:
            return None


def mutations(fi, names):
    """(attribute node, field name) of every place that changes one of the fields"""
    for n in (walk_scope(fi.node) if fi.node.t != "Lambda" else walk(fi.node)):
        hit = []
        if n.t == "Assign":
            hit = [base_field(t, names) for t in n.targets]
        elif n.t == "AugAssign":
            hit = [base_field(n.target, names)]
        elif n.t == "Delete":
            hit = [base_field(t, names) for t in n.targets]
        elif n.t == "Call" and n.func.t == "Attribute" and n.func.attr in MUTATORS:
            hit = [base_field(n.func.value, names)]
        for e in hit:
            if e is not None:
                yield e, e.attr
