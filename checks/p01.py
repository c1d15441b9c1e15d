"""P01: duplicates are complete copies."""
from . import dup

INFO = {
    "level": "other",
    "technique": "abstract interpretation with provenance tags",
    "note": "Every concrete duplicate() is executed abstractly; every stored attribute must derive from the same attribute of the original on every path.",
    "explanation": "Abstract execution of every concrete duplicate() on a symbolic receiver whose optional parts are all present; "
                   "provenance of every field of the result is compared with the receiver's field.",
    "assumptions": ["duplicate() of a nested object is itself checked (induction over the class table)"],
}


_const = {}


def ctx_const(ctx, c, f, fi):
    if (c.full, f) not in _const:
        _const[c.full, f] = ctx_const_(ctx, c, f, fi)
    return _const[c.full, f]


def ctx_const_(ctx, c, f, _fi):
    """A field only the constructors ever store, always with the same constant: part of the class."""
    stores = dup.store_sites(c, f)
    if any(fi.name != "__init__" for fi, n in stores):
        return False
    pol = dup.Policy()
    ip = ctx.interp(pol)
    st = ip.new_state()
    for s2, v in ip.construct(st, c, [], {}, c.node):
        for a in v:
            x = s2.heap.get(a[1]).fields.get(f)
            if x is None or len(x) != 1 or next(iter(x))[0] != "k":
                return False
    # and no constructor argument can change it
    init = c.find("__init__")
    if init is None:
        return False
    st = ip.new_state()
    oid = ip.alloc(st, "inst", c.node, c, tag="probe")
    a = ("o", oid)
    args = [dup.V(dup.Pr("any", ["arg:" + p])) for p in init.params[1:]]
    for s2, v in ip.invoke(st, init, [dup.V(a)] + args, {}, c.node, recv=a):
        x = s2.heap.get(oid).fields.get(f)
        if x is None or len(x) != 1 or next(iter(x))[0] != "k":
            return False
    return True


def run(ctx):
    ctx.rule("for every attribute any method of the class (or a base) stores, the copy's attribute derives from the original's "
             "same attribute on every path (validity flags and contents of remembered results, and the parent pointer, excepted)")
    ctx.rule("no element of a container of the original is skipped while copying")
    for c, fi in dup.targets(ctx):
        fields = dup.state_fields(c)
        fi, runs = dup.run_class(ctx, c)
        for ignore, ip, pol, rets, fixed in runs:
            for node, how, f in pol.loopbad:
                ctx.report("partial", "%s.duplicate|%s" % (c.name, f.full if f else "?"), "%s:%d" % (f.module.rel, node.ln),
                           "a pass of this loop can end (%s) without copying its element" % how)
            for st, val in rets:
                for a in val:
                    if a[0] != "o":
                        continue
                    if a[1] == ("s", "self"):
                        continue
                    o = st.heap.get(a[1])
                    ctx.count("results")
                    if o.cls and c not in o.cls and not any(x in o.cls for x in c.allsubs()):
                        ctx.report("type", "%s.duplicate" % c.name, fi.where, "the copy of a %s is a %s" % (c.name, ",".join(x.name for x in o.cls)))
                    me = st.heap.get(("s", "self"))
                    for f in sorted(fields):
                        if ctx_const(ctx, c, f, fields[f]):
                            continue
                        want = next((w for (x, g), w in dup.REBUILT.items() if g == f and any(k.name == x for k in c.mro)), None)
                        if want is not None:
                            cv = o.fields.get(f, frozenset())
                            got = any(x[0] == "o" and any(k.name == want for k in (st.heap.get(x[1]).cls or ())) for x in cv)
                            ctx.oblige(got, "rebuilt", "%s.duplicate|%s" % (c.name, f), fi.where, "the copy's %s is never rebuilt" % f)
                            continue
                        if dup.excluded(c, f) or f in ignore or f in dup.UNOWNED:
                            continue
                        ov = me.fields.get(f)
                        if ov is None:
                            ov = frozenset(v for s2, v0 in ip.get_attr(st, dup.V(("o", ("s", "self"))), f, fi.node) for v in v0)
                        cv = o.fields.get(f)
                        if cv is None:
                            r = []
                            for s2, v0 in ip.get_attr(st, dup.V(a), f, fi.node):
                                r += list(v0)
                            cv = frozenset(r)
                        bad = dup.origin_ok(cv, "self." + f, st, ov)
                        ctx.oblige(not bad, "fields", "%s.duplicate|%s" % (c.name, f), fi.where,
                                   "the copy's %s %s" % (f, "; ".join(sorted(set(bad)))))
        ctx.sample("%s: %d fields" % (c.full, len(fields)))
    ctx.floor("results", 40)
    ctx.floor("fields", 150)
