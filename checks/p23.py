"""P23: components nest only where the standard allows, and each type name makes its own class."""
from pyan.ai import V, K, Pr, NONE, Policy
from pyan.front import AnalysisBroken
from .valid import put

INFO = {
    "level": "other",
    "technique": "abstract interpretation of addComponent/makeComponent for every pair of component classes, compared with the nesting table",
    "note": "For every parent class and every child class (and an unknown child type) the exits of addComponent are computed abstractly: "
            "either it always raises or it always appends the child exactly once, as the nesting table says.",
    "explanation": "addComponent of every component class is interpreted abstractly on a fresh parent with each kind of child; makeComponent on "
                   "every registered type name and on an unregistered one. Exits are compared with an independent table of the standard.",
    "assumptions": [],
}

I = "pycalendar.icalendar."
NAMES = {"VEVENT": "vevent:VEvent", "VTODO": "vtodo:VToDo", "VJOURNAL": "vjournal:VJournal", "VFREEBUSY": "vfreebusy:VFreeBusy",
         "VTIMEZONE": "vtimezone:VTimezone", "STANDARD": "vtimezonestandard:Standard", "DAYLIGHT": "vtimezonedaylight:Daylight",
         "VALARM": "valarm:VAlarm", "VAVAILABILITY": "vavailability:VAvailability", "AVAILABLE": "available:Available",
         "VPOLL": "vpoll:VPoll", "VVOTER": "vvoter:VVoter", "VOTE": "vote:Vote"}
# parents whose children are restricted by the standard (or the extension that defines them)
ONLY = {"VEVENT": {"VALARM"}, "VTODO": {"VALARM"}, "VTIMEZONE": {"STANDARD", "DAYLIGHT"}, "VAVAILABILITY": {"AVAILABLE"}, "VVOTER": {"VOTE"}}
# further combinations that have to be possible
ALSO = {"VCALENDAR": {"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VAVAILABILITY", "VPOLL", "X-FOO"},
        "VPOLL": {"VVOTER", "VALARM", "VEVENT", "VTODO"}, "X-FOO": {"X-FOO", "VALARM"}}


def cls_of(ctx, name):
    if name == "VCALENDAR":
        return ctx.prog.cls(I + "calendar:Calendar")
    if name in NAMES:
        return ctx.prog.cls(I + NAMES[name])
    return ctx.prog.cls(I + "vunknown:UnknownComponent")


class P23(Policy):
    exact = True
    max_depth = 16
    max_states = 40


def make(ctx, ip, st, name, key):
    """a constructed component of type `name`"""
    c = cls_of(ctx, name)
    kws = {}
    fi = c.find("__init__")
    if "add_defaults" in fi.params:
        kws["add_defaults"] = V(K(False))
    if "comptype" in fi.params:
        kws["comptype"] = V(K(name))
    outs = ip.construct(st, c, [], kws, c.node)
    if len(outs) < 1:
        raise AnalysisBroken("cannot construct %s" % c.full)
    st, v = outs[0]
    a = [x for x in v if x[0] == "o"][0]
    o = st.heap.get(a[1]).copy()
    o.path = key
    o.multi = False
    st.heap.put(a[1], o)
    return st, a, c


def anystate(st, a):
    """the answer may not depend on the simple fields of parent or child: they may hold anything"""
    o = st.heap.get(a[1]).copy()
    for f, v in o.fields.items():
        if f != "mType" and all(x[0] == "k" or x == NONE for x in v):
            o.fields[f] = v | V(NONE, Pr("any", ["%s.%s" % (o.path, f)]))
    st.heap.put(a[1], o)


def children(st, a):
    """list of children atoms (None = not exact)"""
    v = st.heap.get(a[1]).fields.get("mComponents")
    if v is None or len(v) != 1:
        return None
    o = st.heap.get(next(iter(v))[1])
    if not isinstance(o.items, list):
        return None
    return [next(iter(x)) for x in o.items if len(x) == 1]


def pair(ctx, parent, child):
    """(accepts, rejects, appended exactly once)"""
    ip = ctx.interp(P23())
    st = ip.new_state()
    st, p, pc = make(ctx, ip, st, parent, "parent")
    st, k, kc = make(ctx, ip, st, child, "child")
    if p == k:
        raise AnalysisBroken("parent and child are not told apart")
    fi = pc.find("addComponent")
    for a in (p, k):
        anystate(st, a)
    ip.take_exc()
    rets = ip.invoke(st, fi, [V(p), V(k)], {}, pc.node, recv=p)
    excs = ip.take_exc()
    ctx.used(*ip.inlined)
    good = True
    for s, _v in rets:
        ch = children(s, p)
        if ch is not None and ch != [k]:
            good = False
    return fi, bool(rets), bool(excs), good


def run(ctx):
    ctx.rule("reject: a parent whose children are restricted raises for every other child type and leaves its list of children alone")
    ctx.rule("accept: every allowed child is accepted on every path and appended exactly once")
    ctx.rule("class: each component type name makes the class of that name, which reports that name, is delimited by it and refers to its parent; "
             "any other name makes a component that keeps the name as given")
    every = sorted(NAMES) + ["X-FOO"]
    for parent in sorted(ONLY):
        for child in every:
            fi, acc, rej, good = pair(ctx, parent, child)
            where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
            if child in ONLY[parent]:
                ctx.oblige(acc and not rej and good, "accept", "%s|%s" % (parent, child), where,
                           "%s inside %s is %s" % (child, parent, "not added exactly once" if acc and not rej else "refused"))
            else:
                ctx.oblige(rej and not acc, "reject", "%s|%s" % (parent, child), where, "%s inside %s is not refused" % (child, parent))
    for parent in sorted(ALSO):
        for child in sorted(ALSO[parent]):
            fi, acc, rej, good = pair(ctx, parent, child)
            where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
            ctx.oblige(acc and good, "accept", "%s|%s" % (parent, child), where,
                       "%s inside %s is %s" % (child, parent, "not added exactly once" if acc else "refused"))
    classes(ctx)
    ctx.floor("reject", 60)
    ctx.floor("accept", 16)
    ctx.floor("class", 50)


def result_const(ip, st, a, c, name):
    fi = c.find(name)
    r = set()
    for s, v in ip.invoke(st.fork(), fi, [V(a)], {}, c.node, recv=a):
        r |= {x[2] if x[0] == "k" else "?" for x in v}
    return r


def classes(ctx):
    comp = ctx.prog.cls(I + "component:Component")
    fi = comp.find("makeComponent")
    if fi is None:
        raise AnalysisBroken("Component.makeComponent not found")
    where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
    for name in sorted(NAMES) + ["X-FOO", "PARTICIPANT", "Vevent"]:
        ip = ctx.interp(P23())
        st = ip.new_state()
        st, p, pc = make(ctx, ip, st, "VCALENDAR", "parent")
        ip.take_exc()
        rets = ip.call_atom(st, ("bm", fi, ("cl", comp)), [V(K(name)), V(p)], {}, fi.node)
        ctx.used(*ip.inlined)
        want = cls_of(ctx, name)
        ctx.oblige(bool(rets), "class", "%s|made" % name, where, "making a %s component always fails" % name)
        for s, v in rets:
            for a in v:
                o = s.heap.get(a[1]) if a[0] == "o" else None
                got = sorted(x.name for x in o.cls) if o is not None and o.cls else ["?"]
                if not ctx.oblige(o is not None and o.cls == frozenset([want]), "class", "%s|class" % name, where,
                                  "a %s component is made as %s, not %s" % (name, ", ".join(got), want.name)):
                    continue
                t = result_const(ip, s, a, want, "getType")
                ctx.oblige(t == {name}, "class", "%s|type" % name, "%s:%d %s" % (want.module.rel, want.node.ln, want.name),
                           "a component made for %s reports type %s" % (name, sorted(map(str, t))))
                ctx.oblige(o.fields.get("mParentComponent") == V(p), "class", "%s|parent" % name, where,
                           "a %s component made under a parent does not refer to it" % name)
                for g, w in (("getBeginDelimiter", "BEGIN:" + name), ("getEndDelimiter", "END:" + name)):
                    t = result_const(ip, s, a, want, g)
                    ctx.oblige(t == {w}, "class", "%s|%s" % (name, g), "%s:%d %s" % (want.module.rel, want.node.ln, want.name),
                               "a component made for %s is delimited by %s" % (name, sorted(map(str, t))))
