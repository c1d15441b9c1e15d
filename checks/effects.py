"""Every function of the program run once on symbolic inputs, with its effects recorded."""
from pyan.ai import Policy, V, K, NONE, VNONE, Pr, TRUE, FALSE, BOOL, ANY
from pyan.front import walk

P = "pycalendar."
I = P + "icalendar."


class Args(object):
    """Plausible symbolic arguments for a parameter, by its name."""

    def __init__(self, ctx):
        self.ctx = ctx
        t = self.t = ctx.types
        C = ctx.prog.cls
        dt, dur, per, rec, rset = t.DT, t.DUR, t.PER, t.REC, t.RSET
        comps = ("oneof",) + t.leafcomps
        props = ("oneof",) + t.props
        crec = C(I + "componentrecur:ComponentRecur")
        flt = C(P + "outputfilter:OutputFilter")
        exp = C(I + "componentexpanded:ComponentExpanded")
        self.by = {
            "dt": dt, "date": dt, "start": dt, "end": dt, "dtstart": dt, "dtend": dt, "date1": dt, "date2": dt, "from_": dt, "upto": dt, "due": dt,
            "duration": dur, "dateorduration": [dt, dur], "period": per, "pe": per, "p": per, "periods": ("list", per),
            "rule": rec, "recur": rec, "comp": comps, "component": comps, "sub": comps, "subcomponent": comps, "vcomp": comps,
            "prop": props, "property": props, "props": ("list", props), "filter": [flt, "None"], "attr": t.PARAM,
            "e1": exp, "e2": exp, "master": crec, "owner": crec, "rid": [dt, "None"], "doFix": "bool", "doRaise": "bool", "relative_to_utc": "bool",
            "tzid": ["str", "None"], "timezone": C(P + "timezone:Timezone"), "includeTimezones": ["str", "None"], "results": ("list", dt),
            "items": ("list", "any"), "list": ("list", "any"), "ids": ("list", "any"), "fb": ("list", C(I + "freebusy:FreeBusy")),
            "data": "str", "text": "str", "name": "str", "propname": "str", "uid": "str", "value_name": "str", "jobject": ("list", "any"),
            "values": ("list", "any"), "range": per, "cal": t.CAL, "calendar": t.CAL,
        }

    def make(self, ip, st, fi, name, default=None, cls=None):
        path = "arg." + name
        if default is not None and default.t == "Name" and default.id in ("True", "False"):
            return V(TRUE, FALSE)
        if name in ("other", "comp", "copy", "tz1", "tz2", "tz") and cls and (name == "other" or fi.name in ("compare", "__cmp__")):
            return V(ip.sym(st, path, cls))
        if name in self.by:
            return ip.make_sym(st, self.by[name], path)
        if cls and name == "parent":
            return ip.make_sym(st, [("oneof",) + self.t.leafcomps, "None"], path)
        return V(Pr("any", [path]))


def supers(f):
    return any(n.t == "Name" and n.id == "super" for n in walk(f.node))


def receivers(prog, fi):
    """concrete classes whose instances run fi (directly or through super)"""
    r = []
    for c in fi.cls.allsubs():
        if c.find(fi.name) is fi:
            r.append(c)
        elif fi.cls in c.mro and any(fi.name in x.methods and supers(x.methods[fi.name]) for x in c.mro[:c.mro.index(fi.cls)]):
            r.append(c)
    leaf = [c for c in r if not c.subs]
    return leaf or r


def setup(ctx, ip, st, fi, args, cls=None):
    """[arguments], {keyword arguments}, receiver for one symbolic call of fi"""
    recv = None
    vals, kws = [], {}
    params = list(fi.params)
    if fi.kind in ("method", "property"):
        recv = ip.sym(st, "self", cls)
        vals.append(V(recv))
        params = params[1:]
    elif fi.kind == "class":
        recv = ("cl", cls[0])
        vals.append(V(recv))
        params = params[1:]
    nd = len(fi.defaults)
    for i, p in enumerate(params):
        k = i - (len(params) - nd)
        if p == "<tuple>":
            vals.append(V(ANY))
            continue
        if k >= 0:
            if fi.defaults[k].t in ("Name", "Num", "Str", "UnaryOp", "Attribute"):
                kws[p] = args.make(ip, st, fi, p, fi.defaults[k], cls)
        else:
            vals.append(args.make(ip, st, fi, p, None, cls))
    return vals, kws, recv
