"""P13: the vocabulary of value types is complete and consistent."""
from pyan.front import AnalysisBroken
from pyan.ai import const_of
from .consts import cls_attr, pyval
from .holes import Run
from . import wire
from .wire import DEFAULTS, MULTI, SPECIAL, VARIANTS

INFO = {
    "level": "other",
    "technique": "evaluated class tables compared with the standards' tables; abstract interpretation of one property line with holes per property and type",
    "note": "The type tables of both formats are evaluated from the source and compared row by row with tables transcribed from the standards; for "
            "every property and every type it may have, a line whose values are holes is read and written in each format by the interpreted code.",
    "explanation": "Tables: VALUE name -> type -> VALUE name, default type, special type and multiplicity of every property. Behaviour: the object "
                   "made for a type reports it, and a property of that type is read, written as text, XML and JSON, and read back from JSON.",
    "assumptions": ["properties the library defines beyond the standards keep the type they have in its table"],
}

NAMES = {"ical": ("BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"),
         "vcard": ("BINARY", "BOOLEAN", "DATE", "DATE-TIME", "FLOAT", "INTEGER", "TEXT", "TIME", "URI", "UTC-OFFSET", "VCARD")}
CONST = {"CAL-ADDRESS": "CALADDRESS", "DATE-TIME": "DATETIME", "UTC-OFFSET": "UTC_OFFSET", "REQUEST-STATUS": "REQUEST_STATUS"}
INNER = {"ical": {"GEO": "FLOAT", "REQUEST_STATUS": "TEXT"}, "vcard": {"GEO": "FLOAT", "ADR": "TEXT", "N": "TEXT", "ORG": "TEXT"}}
VALUE = "pycalendar.value:Value"


def run(ctx):
    ctx.rule("vocabulary: every VALUE name of the standard has its own type, that type is written under that name, and no other name is recognised")
    ctx.rule("property table: default type, special type and multiplicity of every property are those of the standard")
    ctx.rule("constructed: the object made for a type reports that type (a date-time reports DATE or DATE-TIME by its value)")
    ctx.rule("written: one line of every property and type is read, and written as text, XML and JSON as the standards say")
    c = ctx.prog.cls(VALUE)
    o = ctx.base.get(("cls", c.full))
    types = {}
    for k, v in o.fields.items():
        if k.startswith("VALUETYPE_"):
            types[k[len("VALUETYPE_"):]] = pyval(ctx.base, v)
    back = {}
    for k, v in sorted(types.items()):
        ctx.oblige(v not in back, "vocabulary", "constant %s" % k, c.full, "VALUETYPE_%s and VALUETYPE_%s are the same" % (k, back.get(v)))
        back[v] = k
    need = {CONST.get(n, n) for ns in NAMES.values() for n in ns} | {"GEO", "ADR", "N", "ORG", "REQUEST_STATUS", "UNKNOWN", "MULTIVALUE"}
    for n in sorted(need - set(types)):
        raise AnalysisBroken("no constant VALUETYPE_%s" % n)
    for variant in ("ical", "vcard"):
        tables(ctx, variant, types, back)
    construct(ctx, types, back)
    seen = set()

    def select(s):
        k = (s.variant, s.name, s.typ, len(s.json) > 1)
        if k in seen or s.params or s.group or s.name != s.name.upper() or s.label == "empty":
            return False
        seen.add(k)
        return True

    wire.check(ctx, "written", select, ("read", "text", "construct", "XML", "JSON", "JSON read"), 130)
    ctx.floor("property table", 150)


def tables(ctx, variant, types, back):
    cn = VARIANTS[variant][0]
    c = ctx.prog.cls(cn)
    t = lambda n: types[CONST.get(n, n)]
    show = lambda v: back.get(v, v)
    fwd, rev = cls_attr(ctx, c, "sValueTypeMap"), cls_attr(ctx, c, "sTypeValueMap")
    for n in NAMES[variant]:
        ctx.oblige(fwd.get(n) == t(n), "vocabulary", "%s VALUE=%s" % (variant, n), cn, "VALUE=%s is read as type %s" % (n, show(fwd.get(n))))
        ctx.oblige(rev.get(t(n)) == n, "vocabulary", "%s type %s" % (variant, n), cn, "type %s is written as VALUE=%s" % (n, rev.get(t(n))))
    for n in sorted(set(fwd) - set(NAMES[variant])):
        ctx.oblige(rev.get(fwd[n]) == n, "vocabulary", "%s VALUE=%s" % (variant, n), cn, "VALUE=%s is read as type %s, which is written as VALUE=%s" % (n, show(fwd[n]), rev.get(fwd[n])))
    for k, v in sorted(rev.items()):
        k = back.get(k, k)
        if k in INNER[variant]:
            ctx.oblige(v == INNER[variant][k], "vocabulary", "%s type %s" % (variant, k), cn, "type %s is written as VALUE=%s" % (k, v))
        else:
            ctx.oblige(fwd.get(v) == types.get(k), "vocabulary", "%s type %s" % (variant, k), cn,
                       "type %s is written as VALUE=%s, which is read as type %s" % (k, v, show(fwd.get(v))))
    d, m, s = (cls_attr(ctx, c, a) for a in ("sDefaultValueTypeMap", "sMultiValues", "sSpecialVariants"))
    for n, ty in sorted(DEFAULTS[variant].items()):
        ctx.oblige(d.get(n) == t(ty), "property table", "%s %s default" % (variant, n), cn, "%s is of type %s by default, not %s" % (n, show(d.get(n)), ty))
    for n in sorted(set(DEFAULTS[variant]) | set(d)):
        ctx.oblige((n in m) == (n in MULTI[variant]), "property table", "%s %s values" % (variant, n), cn,
                   "%s is %smulti-valued" % (n, "" if n in m else "not "))
        want = SPECIAL[variant].get(n)
        ctx.oblige(s.get(n) == (types[CONST.get(want, want)] if want else None), "property table", "%s %s special" % (variant, n), cn,
                   "%s has the special type %s, not %s" % (n, show(s.get(n)), want))
    for n, v in sorted(d.items()):
        ctx.oblige(v in back, "property table", "%s %s type" % (variant, n), cn, "%s has a default type that does not exist" % n)
    for n in sorted((set(m) | set(s)) - set(d)):
        ctx.oblige(False, "property table", "%s %s no default" % (variant, n), cn, "%s is multi-valued or special but has no default type" % n)


def construct(ctx, types, back):
    run = Run(ctx)
    todo = sorted(need_types(ctx, types))

    def one(n):
        v = run.static(VALUE, "createFromType", types[n])
        if v is None:
            ctx.oblige(False, "constructed", n, VALUE, "making a value of type %s fails with %s" % (n, run.failed))
            return False
        g = run.meth(v, "getType")
        got = const_of(g)[1] if g is not None and const_of(g)[0] else None
        ok = got == types[n] or (n in ("DATE", "DATETIME") and back.get(got) in ("DATE", "DATETIME")) or n == "VCARD" and back.get(got) == "UNKNOWN"
        ctx.oblige(ok, "constructed", n, VALUE, "the value made for type %s reports type %s" % (n, back.get(got, got)))
        return ok

    for n in todo:
        run.explore(lambda n=n: one(n))

    def multi(n):
        v = run.new("pycalendar.multivalue:MultiValue", types[n])
        if v is None:
            ctx.oblige(False, "constructed", "multiple " + n, "pycalendar.multivalue:MultiValue", "making values of type %s fails with %s" % (n, run.failed))
            return False
        g = run.meth(v, "getType")
        got = const_of(g)[1] if g is not None and const_of(g)[0] else None
        ctx.oblige(got == types[n], "constructed", "multiple " + n, "pycalendar.multivalue:MultiValue", "values of type %s report type %s" % (n, back.get(got, got)))
        return got == types[n]

    for n in todo:
        if n != "MULTIVALUE":
            run.explore(lambda n=n: multi(n))
    ctx.used(*run.ip.inlined)


def need_types(ctx, types):
    """types a property can have: by default, specially, or by its VALUE parameter"""
    back = {v: k for k, v in types.items()}
    r = {"UNKNOWN"}
    for variant in VARIANTS:
        c = ctx.prog.cls(VARIANTS[variant][0])
        for a in ("sDefaultValueTypeMap", "sValueTypeMap", "sSpecialVariants"):
            r |= {back[v] for v in cls_attr(ctx, c, a).values() if v in back}
    return r
