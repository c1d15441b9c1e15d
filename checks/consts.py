"""Reading evaluated module and class tables."""
from pyan.front import AnalysisBroken


class Opaque(object):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % (self.what,)


def pyval(heap, val):
    """Val -> python value; Opaque where the table is not a constant"""
    if len(val) != 1:
        return Opaque("several values")
    a = next(iter(val))
    if a[0] == "k":
        return a[2]
    if a[0] in ("cl", "fn"):
        return a[1]
    if a[0] == "bm":
        return a[1]
    if a[0] == "o":
        o = heap.get(a[1])
        if o.items is not None and not o.elems:
            if isinstance(o.items, dict):
                return {k[2] if k[0] == "k" else k: pyval(heap, v) for k, v in o.items.items()}
            r = [pyval(heap, v) for v in o.items]
            return tuple(r) if o.kind == "tuple" else r
        if o.kind == "set":
            return {k[2] if k[0] == "k" else k for k in o.elems | o.keys}
        if o.kind == "inst":
            return o
        return Opaque(o.kind)
    return Opaque(a[0])


def cls_attr(ctx, c, name):
    for x in c.mro:
        o = ctx.base.get(("cls", x.full))
        if o is not None and name in o.fields:
            return pyval(ctx.base, o.fields[name])
    raise AnalysisBroken("class attribute %s.%s not found" % (c.name, name))


def mod_attr(ctx, mod, name):
    o = ctx.base.get(("mod", mod))
    if o is None:
        raise AnalysisBroken("module %s not found" % mod)
    if name not in o.fields:
        raise AnalysisBroken("module attribute %s.%s not found" % (mod, name))
    return pyval(ctx.base, o.fields[name])


def mod_table(ctx, mod):
    o = ctx.base.get(("mod", mod))
    if o is None:
        raise AnalysisBroken("module %s not found" % mod)
    return {k: pyval(ctx.base, v) for k, v in o.fields.items()}
