"""P10: every part of a recurrence rule survives every operation on the rule."""
from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from .holes import Run, Form, Holes

INFO = {
    "level": "other",
    "technique": "abstract interpretation over texts with holes: rule text -> rule -> copy, text, XML, JSON, JSON reader, comparison",
    "note": "The reader, the copy operation, the three writers, the JSON reader and the comparison are interpreted on rules whose numbers are "
            "symbols with the standard's ranges, for each part, each frequency, each weekday, signs, and all parts together.",
    "explanation": "Numbers are linear forms over symbols; their decimal text is a hole in an otherwise constant text. The parts that come out of "
                   "each operation, with the symbols they carry, are compared with the parts that went in.",
    "assumptions": ["lists of values behave alike whatever their length (two and three elements are analysed)",
                    "there is no XML reader in the library"],
}

REC = "pycalendar.icalendar.recurrence:Recurrence"
DAYS = ("SU", "MO", "TU", "WE", "TH", "FR", "SA")
FREQS = ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY")
# part -> (lowest, highest, negatives)
NUM = {"BYSECOND": (0, 60, False), "BYMINUTE": (0, 59, False), "BYHOUR": (0, 23, False), "BYMONTHDAY": (1, 31, True),
       "BYYEARDAY": (1, 366, True), "BYWEEKNO": (1, 53, True), "BYMONTH": (1, 12, False), "BYSETPOS": (1, 366, True)}


class Parts(object):
    """rule texts as {part: [item texts]}"""

    def __init__(self, run):
        self.r, self.p = run, run.pol
        self.p.sym("year", 1971, 2100)
        for n, hi in (("mon", 12), ("day", 28), ("hour", 23), ("min", 59), ("sec", 59)):
            self.p.sym(n, 1, hi)

    def num(self, part, i, lo=None, hi=None, sign=1):
        a, b, _n = NUM[part] if part in NUM else (lo, hi, False)
        mid = (a + b) // 2
        lo, hi = (a, mid) if i == 0 else (mid + 1, b)
        name = "%s%d" % (part.lower(), i)
        self.p.sym(name, lo, hi)
        return ("-" if sign < 0 else "") + self.p.dec(Form(0, {name: 1}))

    def date(self, kind):
        f = lambda n, w: self.p.dec(Form(0, {n: 1}), w)
        s = f("year", 4) + f("mon", 2) + f("day", 2)
        if kind != "date":
            s += "T" + f("hour", 2) + f("min", 2) + f("sec", 2) + ("Z" if kind == "utc" else "")
        return s


def scenarios(q):
    """[(title, {part: [item texts]})]"""
    yield "plain", {}
    for part in sorted(NUM):
        yield part, {part: [q.num(part, 0), q.num(part, 1)]}
        yield part + " single", {part: [q.num(part, 1)]}
        if NUM[part][2]:
            yield part + " negative", {part: [q.num(part, 0, sign=-1), q.num(part, 1, sign=-1)]}
    for d in DAYS:
        yield "BYDAY " + d, {"BYDAY": [d]}
        yield "WKST " + d, {"WKST": [d]}
    yield "BYDAY all", {"BYDAY": list(DAYS)}
    q.p.sym("nth", 1, 53)
    n = q.p.dec(Form(0, {"nth": 1}))
    yield "BYDAY numbered", {"BYDAY": [n + d for d in DAYS]}
    yield "BYDAY negative", {"BYDAY": ["-" + n + d for d in DAYS]}
    yield "BYDAY mixed", {"BYDAY": ["-" + n + "MO", "TU", n + "FR"]}
    q.p.sym("ivl", 2, 10000)
    yield "INTERVAL", {"INTERVAL": [q.p.dec(Form(0, {"ivl": 1}))]}
    q.p.sym("cnt", 1, 10000)
    yield "COUNT", {"COUNT": [q.p.dec(Form(0, {"cnt": 1}))]}
    for k in ("date", "utc", "floating"):
        yield "UNTIL " + k, {"UNTIL": [q.date(k)]}
    every = {part: [q.num(part, 0), q.num(part, 1)] for part in NUM}
    every.update({"BYDAY": ["-" + n + "MO", "TU"], "WKST": ["SU"], "INTERVAL": [q.p.dec(Form(0, {"ivl": 1}))]})
    yield "everything", every
    for k, v in (("COUNT", [q.p.dec(Form(0, {"cnt": 1}))]), ("UNTIL", [q.date("utc")])):
        e = dict(every)
        e[k] = v
        yield "everything with " + k, e


def text_of(parts, freq, order=None):
    names = ["FREQ"] + sorted(parts)
    if order:
        names.reverse()
    parts = dict(parts, FREQ=[freq])
    return ";".join("%s=%s" % (n, ",".join(parts[n])) for n in names)


def canon(parts):
    return {n.upper(): sorted(x.replace("-", "").replace(":", "") if n.upper() == "UNTIL" else x for x in v) for n, v in parts.items()
            if not (n.upper() == "WKST" and v == ["MO"])}           # Monday is the default


def from_text(s):
    r = {}
    for tok in s.split(";"):
        n, _e, v = tok.partition("=")
        r.setdefault(n, []).extend(v.split(","))
    return canon(r)


def from_xml(x):
    """children of <recur>"""
    r = {}
    recur = [k for k in x[3] if k[0].endswith("}recur") or k[0] == "recur"]
    if len(recur) != 1:
        return None
    for tag, text, _a, kids in recur[0][3]:
        name = tag.split("}")[-1]
        if tag != "{ns}" + name:
            return None
        if kids:
            if len(kids) != 1 or kids[0][0] not in ("{ns}date", "{ns}date-time"):
                return None
            text = kids[0][1]
        r.setdefault(name, []).append(str(text))
    return canon(r)


def from_json(q, l):
    if not (isinstance(l, list) and len(l) == 1 and isinstance(l[0], dict)):
        return None
    r = {}
    for n, v in l[0].items():
        if n != n.lower():
            return None
        items = v if isinstance(v, list) else [v]
        out = []
        for i in items:
            if isinstance(i, Form):
                i = q.p.dec(i)
            out.append(str(i))
        r[n] = out
    return canon(r)


def show(q, parts):
    if parts is None:
        return "something else"
    return "; ".join("%s=%s" % (n, ",".join(q.p.show(x) for x in v)) for n, v in sorted(parts.items()))


def run(ctx):
    ctx.rule("what the reader takes from the text is what the copy, the text, XML and JSON writers and the JSON reader carry, and a rule is unequal "
             "to the rule without the part or with other values")
    c = ctx.prog.cls(REC)
    if c is None:
        raise AnalysisBroken("no recurrence rule class")
    where = "%s:%s %s" % (c.module.rel, c.node.ln if getattr(c, "node", None) else "?", c.name)
    run = Run(ctx)
    q = Parts(run)
    todo = []
    for title, parts in scenarios(q):
        for f in (FREQS if title in ("plain", "everything") else ("YEARLY",)):
            todo.append((title, f, parts))
    for title, freq, parts in todo:
        run.explore(lambda: one(ctx, run, q, where, title, freq, parts))
    ctx.used(*run.ip.inlined)
    ctx.floor("survives", 200)


def one(ctx, run, q, where, title, freq, parts):
    want = canon(dict(parts, FREQ=[freq]))
    bad = []

    def ok(cond, what, got=None):
        if not cond:
            bad.append(what)
        ctx.oblige(cond, "survives", "%s|%s|%s" % (what, title, freq), where,
                   "%s of the rule %s: %s" % (what, q.p.show(text_of(parts, freq)), got if isinstance(got, str) else show(q, got)))

    def step(what, fn):
        r = fn()
        if r is None:
            ok(False, what, "fails with %s" % ", ".join(run.failed))
        return r

    def rule(text):
        o = run.new(REC)
        return o if run.meth(o, "parse", text) is not None else None

    def text(o):
        s = run.stream()
        if run.meth(o, "generate", s) is None:
            return None
        return from_text(run.buf(s))

    for order in (False, True):
        o = step("reading%s" % (" (parts reversed)" if order else ""), lambda: rule(text_of(parts, freq, order)))
        if o is None:
            return False
        t = step("text", lambda: text(o))
        ok(t == want, "text after reading%s" % (" (parts reversed)" if order else ""), t)
    o2 = step("copying", lambda: run.meth(o, "duplicate"))
    if o2 is not None:
        t = text(o2)
        ok(t == want, "copy", t)
        for a, b, n in ((o, o2, "comparing with the copy"), (o2, o, "comparing the copy")):
            v = run.meth(a, "__eq__", b)
            ok(v is not None and const_of(v) == (True, True), n, "not found equal: %r" % (v,))
    e = run.element()
    if step("XML", lambda: run.meth(o, "writeXML", e, "ns")) is not None:
        x = from_xml(run.xml(e))
        ok(x == want, "XML", x)
    l = run.list()
    if step("JSON", lambda: run.meth(o, "writeJSON", l)) is not None:
        j = from_json(q, run.plain(l))
        ok(j == want, "JSON", j)
        items = run.st.heap.get(next(iter(l))[1]).items
        if len(items) == 1:
            o3 = run.new(REC)
            if step("reading JSON", lambda: run.meth(o3, "parseJSON", items[0])) is not None:
                t = text(o3)
                ok(t == want, "text after reading JSON", t)
    # distinguished from the rule without the part, and from one with other values
    for part in sorted(parts):
        less = {k: v for k, v in parts.items() if k != part}
        others = [less]
        if len(parts[part]) > 1:
            others.append(dict(less, **{part: parts[part][:1]}))
        if part in NUM:
            others.append(dict(less, **{part: [parts[part][-1]] * len(parts[part])} if len(parts[part]) > 1 else {part: [q.num(part, 0)]}))
        if part in ("BYDAY", "WKST"):
            others.append(dict(less, **{part: ["WE"] * len(parts[part])} if parts[part] != ["WE"] else {part: ["TH"]}))
        for alt in others:
            if "COUNT" in alt and "UNTIL" in alt or canon(alt) == canon(parts):
                continue
            p = rule(text_of(alt, freq))
            if p is None:
                continue
            for a, b in ((o, p), (p, o)):
                v = run.meth(a, "__eq__", b)
                ok(v is not None and const_of(v) == (True, False), "telling apart %s" % part,
                   "found equal to %s" % q.p.show(text_of(alt, freq)))
    if freq == "YEARLY":
        for f in FREQS[:-1]:
            p = rule(text_of(parts, f))
            v = run.meth(o, "__eq__", p) if p is not None else None
            ok(v is not None and const_of(v) == (True, False), "telling apart FREQ", "found equal to %s" % q.p.show(text_of(parts, f)))
    return not bad
