"""P19: content lines end in CRLF, are folded within 75 octets, never inside a character, and unfold to what was written."""
from pyan.ai import V, K, const_of
from pyan.front import AnalysisBroken
from . import holes, tree
from .holes import Form

INFO = {
    "level": "other",
    "technique": "abstract interpretation of the line writers over texts of symbolic octets, split by the encoding class of the octets the code looks at",
    "note": "Lines of every length around the fold positions are written with octets of unknown class; the code's own tests split the runs; in every run "
            "the lines written must end in CRLF, fit 75 octets, not begin a continuation line inside a character, and unfold to the unfolded line.",
    "explanation": "A text is a sequence of symbolic octets. The first time the interpreted code looks at one, the run is repeated once for each class of octet "
                   "(letter, space, first octet of a longer character, continuation octet) that leaves the text valid UTF-8; octets nobody looks at stay "
                   "arbitrary. A fold is accepted only in front of an octet that is known not to be a continuation octet. The lines of whole calendars "
                   "and cards, filtered and not, are checked too.",
    "assumptions": ["text is valid UTF-8 held as octets", "lines of up to 225 octets (303 in the thorough tier)", "in the lines of whole calendars only the line breaks are decided"],
}

BASE = 0x100000
CLASSES = {"letter": (0x61, 0x7A), "space": (0x20, 0x20), "first": (0xC2, 0xF4), "cont": (0x80, 0xBF)}
ORDER = ("letter", "space", "first", "cont")
PROP = "pycalendar.property:PropertyBase.generateValue"
VPROP = "pycalendar.vcard.property:Property.generateValue"


class Look(Exception):
    def __init__(self, i):
        self.i = i


def octet(c):
    return BASE <= ord(c) < BASE + 4096


class Octets(holes.Holes):
    """texts whose characters U+100000+i are octets of a class that is chosen when the code looks at them"""

    def __init__(self):
        super(Octets, self).__init__()
        self.cls = {}
        self.allowed = ORDER    # classes of the octets of this text

    def of(self, c):
        i = ord(c) - BASE
        if i not in self.cls:
            raise Look(i)
        return CLASSES[self.cls[i]]

    def has(self, s):
        return isinstance(s, str) and any(octet(c) for c in s)

    def rng(self, name, lo, hi):
        if lo == hi:
            return V(K(lo))
        return V(self.fresh(name, lo, hi))

    def builtin(self, ip, st, name, recv, args, kws, node):
        if name == "builtin.ord" and args:
            ok, c = const_of(args[0])
            if ok and isinstance(c, str) and len(c) == 1 and octet(c):
                lo, hi = self.of(c)
                return [(st, V(self.atom(Form(0, {self.symbol(c): 1}))) if lo < hi else V(K(lo)))]
        return super(Octets, self).builtin(ip, st, name, recv, args, kws, node)

    def symbol(self, c):
        s = "octet%d" % (ord(c) - BASE)
        if s not in self.range:
            self.sym(s, *self.of(c))
        return s

    def binop(self, ip, st, op, l, r, node):
        f, g = self.form(l), self.form(r) if r else None
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift") and f is not None and g is not None and (f.t or g.t):
            if f.t and g.t:
                return None
            lo, hi = self.bounds(f if f.t else g)
            k = (g if f.t else f).c
            fn = {"BitAnd": lambda x: x & k, "BitOr": lambda x: x | k, "BitXor": lambda x: x ^ k,
                  "LShift": lambda x: x << k if f.t else k << x, "RShift": lambda x: x >> k if f.t else k >> x}[op]
            if hi - lo > 1000:
                return None
            xs = [fn(x) for x in range(lo, hi + 1)]
            return self.rng("%s of octets" % op, min(xs), max(xs))
        return super(Octets, self).binop(ip, st, op, l, r, node)

    def compare(self, ip, st, op, l, r, node):
        ok1, a = const_of(l)
        ok2, b = const_of(r)
        texts = ok1 and ok2 and isinstance(a, str) and isinstance(b, str)
        if op in ("Lt", "LtE", "Gt", "GtE"):
            # in Python 2 every text is greater than every number
            if ok1 and isinstance(a, str) and self.form(r) is not None:
                return op in ("Gt", "GtE")
            if ok2 and isinstance(b, str) and self.form(l) is not None:
                return op in ("Lt", "LtE")
        if texts and op in ("In", "NotIn") and len(a) == 1 and octet(a) and not self.has(b):
            if not any(lo <= ord(c) <= hi for c in b for lo, hi in CLASSES.values()):
                return op == "NotIn"
            lo, hi = self.of(a)
            n = sum(1 for x in range(lo, hi + 1) if chr(x) in b)
            return None if 0 < n <= hi - lo else (n > 0) == (op == "In")
        if texts and op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") and (self.has(a) or self.has(b)) and a != b:
            if op in ("Eq", "NotEq") and len(a) != len(b):
                return op == "NotEq"
            for x, y in zip(a, b):
                if x == y:
                    continue
                xs = self.of(x) if octet(x) else (ord(x), ord(x))
                ys = self.of(y) if octet(y) else (ord(y), ord(y))
                if xs[1] < ys[0] or xs[0] > ys[1]:
                    less = xs[1] < ys[0]
                    return {"Eq": False, "NotEq": True, "Lt": less, "LtE": less, "Gt": not less, "GtE": not less}[op]
                if xs == ys and xs[0] == xs[1]:
                    continue
                if len(a) == len(b) == 1:
                    if op == "LtE" and xs[1] <= ys[0] or op == "GtE" and xs[0] >= ys[1]:
                        return True
                    if op == "Lt" and xs[0] >= ys[1] or op == "Gt" and xs[1] <= ys[0]:
                        return False
                return None
            less = len(a) < len(b)
            same = len(a) == len(b)
            return {"Eq": same, "NotEq": not same, "Lt": less, "LtE": less or same, "Gt": not less and not same, "GtE": not less}[op]
        return super(Octets, self).compare(ip, st, op, l, r, node)

    def strmeth(self, ip, st, name, s, args, node):
        if name in ("strip", "lstrip", "rstrip") and self.has(s):
            cs = [const_of(v) for v in args]
            if all(c[0] for c in cs):
                drop = cs[0][1] if cs and isinstance(cs[0][1], str) else " \t\r\n\v\f"
                a, b = 0, len(s)

                def out(c):
                    if not octet(c):
                        return c in drop
                    if not any(lo <= ord(d) <= hi for d in drop for lo, hi in CLASSES.values()):
                        return False
                    lo, hi = self.of(c)
                    return any(lo <= ord(d) <= hi for d in drop)
                while name != "rstrip" and a < b and out(s[a]):
                    a += 1
                while name != "lstrip" and b > a and out(s[b - 1]):
                    b -= 1
                return [(st, V(K(s[a:b])))]
        if name in ("isspace", "isalpha", "isdigit", "isalnum") and len(s) == 1 and octet(s):
            c = [k for k in CLASSES if CLASSES[k] == self.of(s)][0]
            return [(st, V(K({"isspace": c == "space", "isalpha": c == "letter", "isdigit": False, "isalnum": c == "letter"}[name])))]
        return super(Octets, self).strmeth(ip, st, name, s, args, node)

    # ------------------------------------------------------------ classes
    def possible(self, i, n):
        """classes octet i of n may have beside those already chosen, for the text to be valid UTF-8 in some way"""
        return [c for c in self.allowed if self.valid(dict(self.cls, **{}), i, c, n)]

    def valid(self, cls, i, c, n):
        cls[i] = c
        # automaton: number of continuation octets still allowed / required, over every position
        states = {(0, 0)}       # (at least, at most) continuation octets to follow
        for k in range(n):
            nxt = set()
            for need, may in states:
                w = cls.get(k)
                if w in (None, "letter", "space") and need == 0:
                    nxt.add((0, 0))
                if w in (None, "first") and need == 0 and "first" in self.allowed:
                    nxt.add((1, 3))
                if w in (None, "cont") and may > 0:
                    nxt.add((max(0, need - 1), may - 1))
            states = nxt
        return any(need == 0 for need, _m in states)


def verdict(pol, out, head, n):
    """what is wrong with the written text of a line that starts with head and has n octets of text"""
    want = head + "".join(chr(BASE + i) for i in range(n)) if isinstance(head, str) else None
    if holes.UNKNOWN in out:
        raise AnalysisBroken("what is written cannot be followed")
    if not out.endswith("\r\n"):
        return "the line does not end in CRLF"
    lines = out[:-2].split("\r\n")
    for k, l in enumerate(lines):
        if "\r" in l or "\n" in l:
            return "a line break is not CRLF"
        if len(l) > 75:
            return "line %d has %d octets" % (k + 1, len(l))
        if k and not l.startswith(" "):
            return "line %d does not begin with a space" % (k + 1)
        if k and not l[1:]:
            return "line %d is empty" % (k + 1)
        if k and octet(l[1]):
            c = pol.cls.get(ord(l[1]) - BASE)
            if c is None and pol.valid(dict(pol.cls), ord(l[1]) - BASE, "cont", n) or c == "cont":
                return "line %d begins inside a character" % (k + 1)
    got = lines[0] + "".join(l[1:] for l in lines[1:])
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return "unfolding gives %d octets, not %d; the first difference is at octet %d" % (len(got), len(want), k)
    return None


def show(pol):
    return ", ".join("octet %d is a %s" % (i, {"first": "first octet", "cont": "continuation octet"}.get(c, c)) for i, c in sorted(pol.cls.items())) or "any text"


def decide(ctx, run, n, scenario, limit):
    """run a scenario for every choice of classes"""
    pol = run.pol
    st0 = run.st
    stack = [{}]
    k = 0
    while stack:
        pol.cls = stack.pop()
        for s in [s for s in pol.range if s.startswith("octet")]:
            del pol.range[s]
        pol.forms = {t: f for t, f in pol.forms.items() if not any(s.startswith("octet") for s, _k in f.t)}
        run.st = st0
        k += 1
        if k > limit:
            raise AnalysisBroken("more than %d splits for a line" % limit)
        try:
            bad = []
            run.explore(lambda: bad.append(scenario()) or bad[-1], 100)
            if False in bad:
                break
        except Look as e:
            run.choices = None
            cs = pol.possible(e.i, n)
            if not cs:
                raise AnalysisBroken("no class is left for octet %d" % e.i)
            stack += [dict(pol.cls, **{}) | {e.i: c} for c in reversed(cs)]
    pol.cls = {}
    run.st = st0
    ctx.count("runs", k)


def lengths(ctx):
    """totals around the positions where another line begins"""
    out = list(range(70, 82)) + list(range(143, 157)) + list(range(219, 226))
    if ctx.tier == "thorough":
        out += list(range(82, 143)) + list(range(226, 240)) + list(range(288, 304))
    return out


def made(run, cls, name, text, vtype, group=None, params=()):
    """a property whose value writes the text as it is"""
    p = run.new(cls)
    if p is None:
        raise AnalysisBroken("a property cannot be made: %s" % run.failed)
    run.meth(p, "setName", name)
    if group:
        run.meth(p, "setGroup", group)
    for k, v in params:
        run.meth(p, "addParameter", run.new("Parameter", k, v))
    v = run.static("Value", "createFromType", run.attr(V(("cl", run.cls("Value"))), vtype))
    if v is None:
        raise AnalysisBroken("a value cannot be made")
    run.meth(v, "setValue", text)
    st = run.st
    o = st.heap.get(next(iter(p))[1]).copy()
    if "mValue" not in o.fields:
        raise AnalysisBroken("where a property keeps its value is not known")
    o.fields["mValue"] = v
    st.heap.put(next(iter(p))[1], o)
    return p


def run(ctx):
    ctx.rule("a written content line ends in CRLF, has no physical line longer than 75 octets, is not folded inside a character, and unfolds to the line")
    r = holes.Run(ctx, Octets())
    cases = []
    ical, card = "pycalendar.icalendar.property:Property", "pycalendar.vcard.property:Property"
    for cls, name, vt, group, params in (
            (ical, "X-N", "VALUETYPE_UNKNOWN", None, ()), (ical, "DESCRIPTION", "VALUETYPE_TEXT", None, (("X-P", "v:w"),)),
            (ical, "X-N", "VALUETYPE_UNKNOWN", None, (("X-LONG", "p" * 100),)), (ical, "X-N", "VALUETYPE_UNKNOWN", None, (("X-LONG", "p" * 67), ("X-Q", "q"))),
            (card, "X-N", "VALUETYPE_UNKNOWN", "item1", ()), (card, "NOTE", "VALUETYPE_TEXT", None, ()),
            (card, "PHOTO", "VALUETYPE_BINARY", None, (("ENCODING", "b"),)), (card, "PHOTO", "VALUETYPE_BINARY", "g", (("TYPE", "JPEG"), ("X-LONG", "p" * 80))),
            (card, "PHOTO", "VALUETYPE_URI", None, ())):
        for total in lengths(ctx) + (list(range(86, 100)) + list(range(157, 170)) if name == "PHOTO" else []):
            cases.append((cls, name, vt, group, params, total))
    done = {}
    for cls, name, vt, group, params, total in cases:
        variant = "iCalendar" if cls == ical else "vCard"
        head = (group + "." if group else "") + name
        for k, v in sorted(params):
            head += ";%s=%s" % (k, '"%s"' % v if ":" in v else v)
        key = "%s %s%s" % (variant, name, "" if vt.endswith(("UNKNOWN", "TEXT")) else " (%s)" % vt[10:].lower())
        if any(len(v) > 60 for _k, v in params):
            key += " with a long parameter"
        if done.get(key):
            continue
        st0 = r.st
        r.pol.allowed = ("letter",) if vt.endswith("BINARY") else ORDER

        def one():
            r.st = st0
            text = "".join(chr(BASE + i) for i in range(max(0, total - len(head) - 1)))
            p = made(r, cls, name, text, vt, group, params)
            out = r.meth(p, "getText")
            if out is None:
                msg = "writing fails with %s" % r.failed
            else:
                ok, s = const_of(out)
                if not ok:
                    raise AnalysisBroken("what is written cannot be followed")
                # a value the property itself announces
                h = head
                if s.replace("\r\n ", "").startswith(head + ";VALUE="):
                    h = head + ";VALUE=" + vt[10:]
                msg = verdict(r.pol, s, h + ":", len(text))
            ctx.oblige(msg is None, "line", key, VPROP if name == "PHOTO" else PROP, "%s, %d octets, %s: %s" % (key, total, show(r.pol), msg))
            if msg is not None:
                done[key] = True
                return False
        decide(ctx, r, max(0, total - len(head) - 1), one, 4000)
        ctx.count("lines", 1)
    ctx.used(*r.ip.inlined)
    whole(ctx)
    ctx.floor("lines", 300)
    ctx.floor("runs", 2000)


def whole(ctx):
    """the lines of whole calendars and cards"""
    p = tree.Player(ctx)
    run = p.run
    for title, variant, t in tree.trees(p.w.text):
        def one():
            o = p.read(variant, t.text())
            if o is None:
                return      # another property's business
            kws = p.plainly(variant, t)
            for ft, flt in [("no filter", None)] + list(tree.filters(t))[:3]:
                st1 = run.st
                out = run.stream()
                ok = run.meth(o, "generate", out, **kws) if flt is None else run.meth(o, "generateFiltered", out, flt.make(run))
                if ok is not None:
                    s = run.buf(out)
                    rest = s.replace("\r\n", "")
                    msg = None
                    if not s.endswith("\r\n"):
                        msg = "the last line does not end in CRLF"
                    elif "\r" in rest or "\n" in rest:
                        msg = "a line break is not CRLF"
                    elif "\r\n\r\n" in s:
                        msg = "an empty line is written"
                    ctx.oblige(msg is None, "lines", "%s|%s" % (ft, title), tree.CAL if variant == "ical" else tree.CARD, "%s with %s: %s" % (title, ft, msg))
                run.st = st1
            ctx.count("trees", 1)
        run.explore(one)
    run.st = st0 = run.ip.new_state()
    c = run.new("UnknownComponent", None, "X-" + "N" * 80)
    out = run.stream()
    if c is None or run.meth(c, "generate", out) is None:
        raise AnalysisBroken("a component with a long name cannot be written: %s" % run.failed)
    ls = run.buf(out).split("\r\n")
    ctx.oblige(all(len(l) <= 75 for l in ls), "delimiter", "long component name", "pycalendar.componentbase:ComponentBase.generate",
               "the delimiters of a component with a name of 82 octets have %s octets" % [len(l) for l in ls if l])
    run.st = st0
    ctx.used(*run.ip.inlined)
    ctx.floor("trees", 11)
