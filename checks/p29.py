"""P29: what is written reads back as the same thing."""
from . import tree, wire
from .tree import Node
from pyan.ai import const_of

INFO = {
    "level": "other",
    "technique": "abstract interpretation of writer and reader in sequence on properties, whole calendars and cards whose texts and numbers are symbolic",
    "note": "Every property and value form is read, written as text and JSON and read back: the copy compares equal and writes the same. Whole trees of every "
            "component type are read, written, read back and written again; nothing may change.",
    "explanation": "For every value type and every property of the vocabulary (with symbolic numbers and texts) the reader, the writers, the readers on what was "
                   "written, and the comparison are interpreted. For every component tree the text and the JSON written are read back by the interpreted readers "
                   "and all three formats written again must be the same.",
    "assumptions": ["JSON carries property and parameter names in lower case and the values of a repeated parameter as one list"],
}


def joined(line):
    """the line with the values of repeated parameters joined and its name in upper case, as JSON carries them"""
    i, quoted, start, parts = 0, False, 0, []
    while True:
        c = line[i]
        if c == '"':
            quoted = not quoted
        if c in ";:" and not quoted:
            parts.append(line[start:i])
            start = i + 1
            if c == ":":
                break
        i += 1
    groups = {}
    for p in parts[1:]:
        n, v = p.split("=", 1)
        groups.setdefault(n, []).append(v)
    out = parts[0].upper() if len(parts[0]) == len(tree.name(line)) else parts[0]
    for n, vs in groups.items():
        out = out + ";" + n + "=" + ",".join(vs)
    return out + line[i:]


def plainer(n):
    return Node(n.typ, [joined(l) for l in n.props], [plainer(k) for k in n.kids], n.ordered)


def run(ctx):
    ctx.rule("text and JSON written for a component tree are read back as the same tree")
    p = tree.Player(ctx)
    r, show = p.run, p.show
    for title, variant, t in list(tree.trees(p.w.text)):
        t = plainer(t)
        cls = tree.CAL if variant == "ical" else tree.CARD

        def one():
            def e(ok, rule, msg):
                return ctx.oblige(ok, rule, title, cls, "%s: %s" % (title, msg))
            o = p.read(variant, t.text())
            if not e(o is not None, "read", "reading fails with %s" % (None if o is not None else r.failed)):
                return
            kws = p.plainly(variant, t)
            base = written(p, o, kws)
            for f, v in zip(("text", "XML", "JSON"), base):
                if not e(v is not None, "write", "writing %s fails with %s" % (f, None if v is not None else r.failed)):
                    return
            st = r.st
            back = p.read(variant, base[0])
            compare(p, e, "text", base, back, kws)
            equal(p, e, "text", o, back)
            r.st = st
            l = r.list()
            r.meth(o, "writeJSON", l, **kws)
            items = r.st.heap.get(next(iter(l))[1]).items
            back = r.static(cls, "parseJSON", items[0], None, r.new(cls, add_defaults=False))
            compare(p, e, "JSON", base, back, kws)
            equal(p, e, "JSON", o, back)
            ctx.count("trees", 1)
        r.explore(one)
    ctx.used(*r.ip.inlined)
    ctx.floor("trees", 11)
    wire.check(ctx, "property", lambda s: s.typ not in ("BOOLEAN", "TIME"), ("read", "text", "equal", "JSON read", "JSON equal"), 600)


def written(p, o, kws):
    return p.text(o, **kws), p.xml(o, **kws), p.json(o, **kws)


def compare(p, e, how, base, back, kws):
    if not e(back is not None, "back", "reading the %s back fails with %s" % (how, None if back is not None else p.run.failed)):
        return
    again = written(p, back, kws)
    for f, a, b in zip(("text", "XML", "JSON"), base, again):
        if b is None:
            e(False, "same", "after reading the %s back, writing %s fails with %s" % (how, f, p.run.failed))
            continue
        e(a == b, "same", "after reading the %s back the %s differs: %s" % (how, f, first(a, b, p.show)))


def equal(p, e, how, o, back):
    if back is None:
        return
    for op, want in (("__eq__", True), ("__ne__", False)):
        v = p.run.meth(o, op, back)
        ok, c = const_of(v) if v is not None else (False, None)
        e(ok and bool(c) == want, "equal", "what is read back from the %s does not compare equal (%s gives %s)" % (how, op, c if ok else p.run.failed if v is None else "an unknown"))


def first(a, b, show):
    if a == b:
        return ""
    if hasattr(a, "split"):
        for l, m in zip(a.split("\r\n"), b.split("\r\n")):
            if l != m:
                return "%s has become %s" % (show(l), show(m))
        return "the number of lines differs"
    a, b = show(a), show(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s has become ...%s" % (a[max(0, i - 40):i + 40], b[max(0, i - 40):i + 40])
