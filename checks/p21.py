"""P21: writers and expansions decide order by content."""
from pyan import front
from . import tree, unordered
from .tree import Node

INFO = {
    "level": "other",
    "technique": "abstract interpretation of readers and writers under two map orders and permuted input, with a flow rule for sets and map walks",
    "note": "Whole calendars and cards with symbolic texts are read in two orders and written with maps walked forwards and backwards: the results must be "
            "the same; and no function behind the writers and expansions may let the order of a set or a map decide what it returns or writes.",
    "explanation": "For every tree the writers of every format are interpreted for the tree as given and for a permuted one (properties of different names, "
                   "parameters, and components in another order), each with maps walked in both orders. A dataflow rule follows sets, map views and lists "
                   "made of them through all functions the writers and expansions can call; sources of per-process values (addresses, hashes, random "
                   "numbers) may not reach them either.",
    "assumptions": ["the order of the members of a JSON object carries no meaning"],
}

FORMATS = ("text", "XML", "JSON")
START = ("generate", "write", "getText", "expand", "getVEvents", "getVFreeBusy", "getFreeBusy", "getJSON", "getXML", "getSortKey", "__str__")
VOLATILE = {"id", "hash"}


# ---------------------------------------------------------------- permuted input
def name_of(line):
    return tree.name(line)


def permuted(n):
    """the same content in another order: properties of one name keep their order, and so do components that are written in order"""
    seen = {}
    for l in n.props:
        seen.setdefault(name_of(l), []).append(l)
    props = [l for k in reversed(list(seen)) for l in map(flip, seen[k])]
    kids = [permuted(k) for k in n.kids]
    return Node(n.typ, props, kids if n.ordered else kids[::-1], n.ordered)


def flip(line):
    """parameters in reverse order, values of one parameter name kept in order"""
    parts, cur, quoted = [], 0, False
    i = 0
    while True:
        c = line[i]
        if c == '"':
            quoted = not quoted
        if c in (";", ":") and not quoted:
            parts.append(line[cur:i])
            cur = i + 1
            if c == ":":
                break
        i += 1
    rest = line[i:]
    groups = {}
    for p in parts[1:]:
        groups.setdefault(p.split("=", 1)[0], []).append(p)
    out = parts[0]
    for k in reversed(list(groups)):
        for p in groups[k]:
            out = out + ";" + p
    return out + rest


def more(T):
    N = Node
    head = ["VERSION:2.0", "PRODID:-//x//y"]
    ev = ["UID:u1", "DTSTART:20200115T120000Z", "DTSTAMP:20200101T000000Z", "SUMMARY:" + T("s")]
    fb = ["DTSTAMP:20200101T000000Z", "DTEND:20200116T000000Z"]
    yield "alarms with one action", "ical", N("VCALENDAR", head, [N("VEVENT", ev, [
        N("VALARM", ["ACTION:AUDIO", "TRIGGER:-PT5M", "X-A:1" + T("a")]), N("VALARM", ["ACTION:AUDIO", "TRIGGER:-PT6M", "X-A:2" + T("a")]),
        N("VALARM", ["ACTION:AUDIO", "TRIGGER;VALUE=DATE-TIME:20200102T030405Z", "X-A:3" + T("a")])])])
    yield "free/busy without identifiers", "ical", N("VCALENDAR", head, [
        N("VFREEBUSY", ["DTSTART:20200115T000000Z"] + fb), N("VFREEBUSY", ["DTSTART:20200114T000000Z"] + fb)], ordered=True)
    yield "instances", "ical", N("VCALENDAR", head, [
        N("VEVENT", ev), N("VEVENT", ev + ["RECURRENCE-ID:20200116T120000Z"]), N("VEVENT", ev + ["RECURRENCE-ID:20200117T120000Z"]),
        N("VEVENT", ["UID:u0"] + ev[1:]), N("VTODO", ev)])


def run(ctx):
    lint(ctx)
    ctx.rule("what is written does not depend on the order of the input or on the order maps are walked in")
    p = tree.Player(ctx)
    run, pol, show = p.run, p.run.pol, p.show
    for title, variant, t in list(tree.trees(p.w.text)) + list(more(p.w.text)):
        fs = [("no filter", None)] + [f for f in tree.filters(t) if f[0] in ("everything", "some properties, all components", "half of it")]

        def one():
            base = None
            st0 = run.st
            for which, n in (("as given", t), ("permuted", permuted(t))):
                for rev in (False, True):
                    pol.reverse_maps = rev
                    pol.notes[:] = []
                    run.st = st0
                    try:
                        r = outputs(p, variant, n, fs)
                    finally:
                        pol.reverse_maps = False
                    for (fmt, ft), v in sorted(r.items()):
                        ctx.oblige(not isinstance(v, Failed), "written", "%s|%s|%s" % (fmt, ft, title), tree.CAL, "%s of %s with %s: %s" % (fmt, title, ft, v))
                    for note in sorted({m for _n, m in pol.notes}):
                        ctx.oblige(False, "generated", title, tree.CAL, "%s: %s" % (title, note))
                    if base is None:
                        base = r
                        continue
                    for k in sorted(base):
                        if isinstance(base[k], Failed) or isinstance(r[k], Failed):
                            continue
                        how = "; ".join(x for x in ("the input is permuted" if which == "permuted" else "", "maps are walked in another order" if rev else "") if x)
                        ctx.oblige(r[k] == base[k], "order", "%s|%s|%s|%s" % (k[0], k[1], title, how), tree.CAL if variant == "ical" else tree.CARD,
                                   "%s of %s with %s differs when %s: %s" % (k[0], title, k[1], how, where(base[k], r[k], show)))
            ctx.count("trees", 1)
        run.explore(one)
    ctx.used(*run.ip.inlined)
    ctx.floor("trees", 14)


class Failed(str):
    pass


def outputs(p, variant, n, fs):
    run = p.run
    o = p.read(variant, n.text())
    r = {}
    if o is None:
        for f in FORMATS:
            r[f, "no filter"] = Failed("reading fails with %s" % (run.failed,))
        return r
    kws = p.plainly(variant, n)
    for ft, flt in fs:
        f = flt.make(run) if flt is not None else None
        k = kws if flt is None else {}
        for i, w in enumerate((p.text, p.xml, p.json)):
            st = run.st
            v = w(o, f, **k)
            r[FORMATS[i], ft] = Failed("fails with %s" % (run.failed,)) if v is None else pairs(v) if i == 2 else v
            run.st = st
    return r


def pairs(j):
    """JSON objects without an order"""
    if isinstance(j, dict):
        return ("object", sorted(((repr(k), pairs(v)) for k, v in j.items()), key=lambda x: x[0]))
    if isinstance(j, (list, tuple)):
        return [pairs(x) for x in j]
    return j


def where(a, b, show):
    if isinstance(a, (str,)) or hasattr(a, "split"):
        x, y = a.split("\r\n"), b.split("\r\n")
        for i, (l, m) in enumerate(zip(x, y)):
            if l != m:
                return "line %d is %s or %s" % (i + 1, show(l), show(m))
        return "the number of lines differs"
    return "the items come in another order"


# ---------------------------------------------------------------- sets and maps behind the writers
def closure(ctx):
    by = {}
    for f in ctx.prog.functions:
        if not f.lambda_:
            by.setdefault(f.name, []).append(f)
    todo = [f for f in by.values() for f in f if f.name.startswith(START)]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for n in unordered.scope_nodes(f):
            nm = None
            if n.t == "Call":
                nm = n.func.attr if n.func.t == "Attribute" else n.func.id if n.func.t == "Name" else None
            if nm is None or nm.startswith("parse"):
                continue
            todo += [g for g in by.get(nm, ()) if g not in seen]
    return sorted(seen, key=lambda f: f.full)


def lint(ctx):
    ctx.rule("no set or map decides the order of what writers and expansions produce")
    fs = closure(ctx)
    out, sites = unordered.analyse(ctx, fs)
    bad = {}
    for fi, n, msg in out:
        bad.setdefault(fi, []).append((n, msg))
    for fi in fs:
        ctx.count("functions", 1)
        ctx.oblige(fi not in bad, "walk", fi.full, fi.full, "%s: %s" % (fi.full, "; ".join(m for _n, m in bad.get(fi, ()))))
        if fi.name in ("__hash__", "__repr__"):
            continue
        for n in front.walk(fi.node):
            if n.t == "keyword" and n.arg in ("key", "cmp") and n.value.t == "Name" and n.value.id in VOLATILE:
                ctx.oblige(False, "volatile", fi.full, fi.full, "%s orders by %s, which differs between runs" % (fi.full, n.value.id))
            if n.t == "Call" and (n.func.t == "Name" and n.func.id in VOLATILE and ctx.prog.resolve(fi.module, n.func.id) is None):
                ctx.oblige(False, "volatile", fi.full, fi.full, "%s uses %s, which differs between runs" % (fi.full, front.unparse(n)))
    ctx.count("walks", sites)
    ctx.used(*fs)
