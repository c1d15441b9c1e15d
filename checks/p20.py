"""P20: text, XML and JSON writers cover the same data, with and without filters."""
from pyan.front import AnalysisBroken
from . import tree, wire

INFO = {
    "level": "other",
    "technique": "abstract interpretation of the readers and the writers of every format on whole calendars and cards whose texts are symbolic",
    "note": "Component trees of every type are read from text with symbolic texts; every writer runs abstractly, with eleven filters per tree; what is written "
            "must hold exactly the selected properties (as the property's own writer gives them) and components.",
    "explanation": "For every tree (all component types, nested as the formats allow, repeated properties, parameters, lists) the three writers and their "
                   "filtered forms are interpreted; the result is taken apart by independent parsers and compared with the tree. Every property's own "
                   "text, XML and JSON form is decided for every property and value type.",
    "assumptions": ["filters name properties in upper case and component types as they are registered"],
}

FMT = ("text", "XML", "JSON")


def fmt(p, o, i, flt, kws):
    if i == 0:
        r = p.text(o, flt, **kws)
        return None if r is None else tree.parse_text(r)
    if i == 1:
        r = p.xml(o, flt, **kws)
        if r is None:
            return None
        if len(r[3]) != 1:
            raise ValueError("%d elements at the top" % len(r[3]))
        return tree.parse_xml(r[3][0])
    r = p.json(o, flt, **kws)
    if r is None:
        return None
    if len(r) != 1:
        raise ValueError("%d components at the top" % len(r))
    return tree.parse_json(r[0])


def plain(t, i):
    """comparable form: XML without namespaces, JSON without the type of a missing value"""
    ps = t[1]
    if i == 1:
        ps = [tree.strip_ns(x) for x in ps]
    if i == 2:
        ps = [x[:2] if len(x) == 3 else x for x in ps]
    return t[0], ps, [plain(k, i) for k in t[2]]


def first(want, got, show, path=""):
    """where two canonical trees differ"""
    path = path + "/" + want[0]
    if want[0] != got[0]:
        return "%s: the component is %s" % (path, got[0])
    w, g = [repr(x) for x in want[1]], [repr(x) for x in got[1]]
    for a, r in zip(w, want[1]):
        if w.count(a) > g.count(a):
            return "%s: missing %s" % (path, show(r))
    for a, r in zip(g, got[1]):
        if g.count(a) > w.count(a):
            return "%s: unexpected %s" % (path, show(r))
    wk, gk = [k[0] for k in want[2]], [k[0] for k in got[2]]
    if wk != gk:
        return "%s: the components are %s, not %s" % (path, ", ".join(gk) or "none", ", ".join(wk) or "none")
    for a, b in zip(want[2], got[2]):
        d = first(a, b, show, path)
        if d:
            return d
    return None


def run(ctx):
    ctx.rule("every writer, filtered or not, writes exactly the selected properties, each as its own writer gives it, and the selected components")
    p = tree.Player(ctx)
    run = p.run
    show = p.show
    for title, variant, t in tree.trees(p.w.text):
        def one():
            p.props = {}
            st0 = run.st
            for n in t.walk():
                for l in n.props:
                    p.alone(variant, l)
            run.st = st0
            o = p.read(variant, t.text())
            ok = o is not None
            ctx.oblige(ok, "read", title, tree.CAL, "%s: reading fails with %s" % (title, None if ok else run.failed))
            if not ok:
                return
            kws = p.plainly(variant, t)
            for ft, flt in [("no filter", None)] + list(tree.filters(t)):
                st1 = run.st
                f = flt.make(run) if flt is not None else None
                for i in range(3):
                    st2 = run.st
                    want = tree.canon(plain(p.expected(variant, t, i, flt), i))
                    try:
                        got = fmt(p, o, i, f, kws if flt is None else {})
                        if got is None:
                            msg = "writing fails with %s" % (run.failed,)
                        else:
                            got = (got[0].upper(), got[1], got[2])
                            got = tree.canon(up(plain(got, i)))
                            msg = None if got == up(want) else first(up(want), got, show) or "differs"
                    except ValueError as e:
                        msg = "malformed output: %s" % e
                    ctx.oblige(msg is None, "written", "%s|%s|%s" % (FMT[i], ft, title), tree.CAL if variant == "ical" else tree.CARD,
                               "%s of %s with %s: %s" % (FMT[i], title, ft, msg))
                    run.st = st2
                run.st = st1
            ctx.count("trees", 1)
        run.explore(one)
    ctx.used(*run.ip.inlined)
    ctx.floor("trees", 11)
    wire.check(ctx, "property", lambda s: s.group or not (s.typ in ("BOOLEAN", "TIME")), {"XML", "JSON", "XML parameters", "JSON group"}, 600)


def up(t):
    return t[0].upper(), t[1], [up(k) for k in t[2]]
