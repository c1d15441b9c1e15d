"""P18: escaping and unescaping of texts and parameter values are inverse, and always applied."""
import itertools

from pyan.ai import const_of
from pyan.front import AnalysisBroken
from .holes import Run, NODE
from . import wire

INFO = {
    "level": "other",
    "technique": "abstract interpretation of writer and reader over texts with holes: all short words over {arbitrary text, reserved characters}",
    "note": "A hole stands for any text without reserved characters. Every arrangement of holes and reserved characters up to three (thorough: four) "
            "places is written by the interpreted writer of each kind of value, compared with an independent decoder, and read back by the interpreted reader.",
    "explanation": "Texts, text lists, structured values (names, addresses, organizations, request statuses) and parameter values are written and "
                   "read by the interpreted code; the written form is decoded by a decoder of our own and must give the same text, contain no "
                   "unescaped reserved character, and be turned back into the same value by the library's reader, also through XML and JSON.",
    "assumptions": ["the reader and writer treat characters that are not reserved alike"],
}

TEXT = ("\\", ",", ";", "\n", ":", '"', "n", "N", "^")
PARAM = (",", ";", ":", '"', "\n", "^", "n", "'", "\\", "=")
HOLE = object()


def words(alphabet, n, run):
    for k in range(1, n + 1):
        for w in itertools.product((HOLE,) + alphabet, repeat=k):
            if any(a is HOLE and b is HOLE for a, b in zip(w, w[1:])):
                continue
            yield "".join(run.pol.text("t%d" % i) if c is HOLE else c for i, c in enumerate(w))


def untext(s):
    """decoder of the standard; None where a reserved character is not escaped"""
    r, i = "", 0
    while i < len(s):
        c = s[i]
        if c in ",;\n\r":
            return None
        if c == "\\":
            i += 1
            if i == len(s) or s[i] not in "\\,;nN":
                return None
            c = "\n" if s[i] in "nN" else s[i]
        r += c
        i += 1
    return r


def unparam(s):
    if len(s) > 1 and s[0] == s[-1] == '"':
        s = s[1:-1]
    elif any(c in s for c in ",;:"):
        return None
    if '"' in s or "\n" in s or "\r" in s:
        return None
    r, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "^" and i + 1 < len(s) and s[i + 1] in "n'^":
            i += 1
            c = {"n": "\n", "'": '"', "^": "^"}[s[i]]
        r += c
        i += 1
    return r


def split(s, sep):
    r, esc = [""], False
    for c in s:
        if c == sep and not esc:
            r.append("")
        else:
            r[-1] += c
        esc = c == "\\" and not esc
    return r


class Codec(object):
    def __init__(self, ctx, run):
        self.ctx, self.run, self.q = ctx, run, run.pol

    def ob(self, ok, rule, kind, word, msg):
        return self.ctx.oblige(ok, rule, "%s|%r" % (kind, self.q.show(word)), kind, "%s for the text %r: %s" % (kind, self.q.show(word), msg))

    def gen(self, o):
        s = self.run.stream()
        return self.run.buf(s) if self.run.meth(o, "generate", s) is not None else None

    def const(self, v):
        return self.run.plain(v) if v is not None else None

    def show(self, x):
        return repr(self.q.show(x)) if isinstance(x, str) else repr(x)

    def value(self, kind, cls, word, make, parts, variant, back):
        """make() the value holding word; parts(written) the independent decoding; back(value) what the reader made of it"""
        run = self.run
        o = make()
        if o is None:
            return self.ob(False, "written", kind, word, "making the value fails with %s" % run.failed)
        e = self.gen(o)
        d = parts(e) if e is not None else None
        if not self.ob(d == word, "written", kind, word, "written %s" % (self.show(e) if d is None or not isinstance(d, str) else "%s, which means %s" % (self.show(e), self.show(d)))):
            return False
        n = run.new(cls) if not isinstance(cls, tuple) else run.new(*cls)
        ok = n is not None and run.meth(n, "parse", e, variant) is not None
        got = back(n) if ok else None
        return self.ob(ok and got == word, "read", kind, word, "written %s, read back as %s" % (self.show(e), self.show(got) if ok else run.failed))

    def text(self, word):
        cls = "pycalendar.textvalue:TextValue"
        return self.value(cls, cls, word, lambda: self.run.new(cls, word), untext, "ical", lambda n: self.const(self.run.meth(n, "getValue")))

    def multi(self, word):
        """two texts in a list"""
        run, cls = self.run, "pycalendar.multivalue:MultiValue"
        t = const_of(run.meth(run.new("pycalendar.textvalue:TextValue"), "getType"))[1]

        def make():
            o = run.new(cls, t)
            return o if run.meth(o, "setValue", run.list([run.val(word), run.val(word)])) is not None else None

        def parts(e):
            p = [untext(x) for x in split(e, ",")]
            return p[0] if len(p) == 2 and p[0] == p[1] else p

        def back(n):
            g = [self.const(run.meth(i, "getValue")) for i in run.st.heap.get(next(iter(run.meth(n, "getValues")))[1]).items]
            return g[0] if len(g) == 2 and g[0] == g[1] else g
        return self.value(cls, (cls, t), word, make, parts, "ical", back)

    def flat(self, cls, n, variant, word, one=False):
        """a structured value of n equal texts"""
        run = self.run

        def strip(p):
            """the code of a request status is a number"""
            p = list(p) if isinstance(p, (list, tuple)) else p
            return p[1:] if "requeststatus" in cls and len(p) == n + 1 and p[0] == "2.0" else p

        def make():
            v = run.list(([run.val("2.0")] if "requeststatus" in cls else []) + [run.val(word)] * n) if not one else run.val(word)
            return run.new(cls, v)

        def parts(e):
            p = strip([untext(x) for x in split(e, ";")])
            return p[0] if len(p) == n and len(set(p)) == 1 else p

        def back(o):
            g = self.const(run.meth(o, "getValue"))
            if one:
                return g
            g = strip(g)
            return g[0] if isinstance(g, (list, tuple)) and len(g) == n and len(set(g)) == 1 else g
        return self.value(cls + (" of one" if one else ""), cls, word, make, parts, variant, back)

    def nested(self, cls, inner, names, word, lists=False):
        run = self.run

        def make():
            v = run.new(inner)
            for nm in names:
                x = run.val(word) if not lists else run.static_tuple([run.val(word), run.val(word)])
                if run.meth(v, "set" + nm, x) is None:
                    return None
            return run.new(cls, v)

        def flatten(p):
            p = [y for x in p for y in (x if isinstance(x, (list, tuple)) else [x])]
            return p[0] if len(set(p)) == 1 and len(p) == len(names) * (2 if lists else 1) else p

        def parts(e):
            return flatten([[untext(y) for y in split(x, ",")] for x in split(e, ";")])

        def back(o):
            v = run.meth(o, "getValue")
            return flatten([self.const(run.meth(v, "get" + nm)) for nm in names])
        return self.value(cls + (" of lists" if lists else ""), cls, word, make, parts, "vcard", back)

    def param(self, word):
        run, kind = self.run, "pycalendar.parameter:Parameter"
        o = run.new(kind, "X-P", word)
        e = self.gen(o)
        d = unparam(e[4:]) if e is not None and e.startswith("X-P=") else None
        if not self.ob(d == word, "written", kind, word, "written %s, which means %s" % (self.show(e), self.show(d))):
            return False
        ok = True
        for variant in ("ical", "vcard"):
            name = "SUMMARY" if variant == "ical" else "NOTE"
            p = run.static(wire.VARIANTS[variant][0], "parseText", name + ";" + e + ";X-Q=1:" + self.q.text("v"))
            got = self.const(run.meth(p, "getParameterValues", "X-P")) if p is not None else None
            if (len(word) - len(word.rstrip("\\"))) % 2 and any(x in word for x in ",;:"):      # known: the closing quote is taken as escaped
                ok = self.ctx.oblige(got == [word], "read", "%s %s|quoted value ending in a backslash" % (kind, variant), kind,
                                     "the value %r is written %s, which is not read back" % (self.q.show(word), self.show(e))) and ok
                continue
            ok = self.ob(got == [word], "read", kind + " " + variant, word, "written %s, read back as %s" % (self.show(e), self.show(got) if p is not None else run.failed)) and ok
        return ok


def run(ctx):
    ctx.rule("written: an independent decoder reads the written form as the same text, and finds no unescaped reserved character or line break")
    ctx.rule("read: the library's reader turns the written form back into the same text")
    ctx.rule("lines: whole property lines with reserved characters survive text, XML and JSON, where XML and JSON carry the text as it is")
    r = Run(ctx)
    r.pol.longest = 60
    c = Codec(ctx, r)
    deep = ctx.tier == "thorough"
    r.static_tuple = lambda items: frozenset([r.ip.new_seq(r.st, "tuple", list(items), NODE, "scenario")])
    n = 0

    def each(f, alphabet, depth, what):
        k = 0
        for w in words(alphabet, depth, r):
            k += 1
            r.explore(lambda: f(w))
        ctx.count("words " + what, k)

    each(c.text, TEXT, 4 if deep else 3, "text")
    each(c.param, PARAM, 4 if deep else 3, "parameter")
    d = 3 if deep else 2
    each(c.multi, TEXT, d, "list")
    req, org = "pycalendar.icalendar.requeststatusvalue:RequestStatusValue", "pycalendar.vcard.orgvalue:OrgValue"
    for k in (1, 2):
        each(lambda w, k=k: c.flat(req, k, "ical", w), TEXT, d, "request status")
    each(lambda w: c.flat(org, 2, "vcard", w), TEXT, d, "organization")
    each(lambda w: c.flat(org, 1, "vcard", w, True), TEXT, d, "organization")
    for cls, inner, names in (("pycalendar.vcard.adrvalue:AdrValue", "pycalendar.vcard.adr:Adr", ("Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country")),
                              ("pycalendar.vcard.nvalue:NValue", "pycalendar.vcard.n:N", ("First", "Last", "Middle", "Prefix", "Suffix"))):
        for lists in (False, True):
            each(lambda w: c.nested(cls, inner, names, w, lists), TEXT, d, inner.split(":")[1])
    # what other programs write
    for e, want in (("a\\Nb", "a\nb"), ("\\N", "\n"), ("\\\\N", "\\N"), ("\\\\\\N", "\\\n"), ("a\\;\\,b", "a;,b")):
        def foreign(e=e, want=want):
            o = r.new("pycalendar.textvalue:TextValue")
            ok = r.meth(o, "parse", e, "ical") is not None
            return c.ob(ok and c.const(r.meth(o, "getValue")) == want, "read", "pycalendar.textvalue:TextValue", e, "not read as %r" % want)
        r.explore(foreign)
    ctx.used(*r.ip.inlined)
    ctx.floor("words text", 600)
    ctx.floor("words parameter", 600)
    wire.check(ctx, "lines", lambda s: s.typ in ("TEXT", "ADR", "N", "ORG", "REQUEST-STATUS") and (s.params or s.label not in ("text", "empty")),
               ("read", "text", "equal", "XML", "XML parameters", "JSON", "JSON read"), 80)
