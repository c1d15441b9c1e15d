"""Abstract runs of validate() over property-count scenarios (used by P16 and P24)."""
from pyan.ai import Policy, V, K, NONE, VNONE, Pr, TRUE, FALSE, Obj, all_elems
from pyan.front import AnalysisBroken


class ValPolicy(Policy):
    """Records changes to the validated tree."""
    max_depth = 18
    max_states = 40
    exact = True

    def __init__(self):
        self.watch = set()
        self.muts = []
        self.seq = 0

    def key(self, st):
        return tuple(sorted((str(k), v) for k, v in st.client.items()))

    def mark(self, ip, st, what, node):
        st.client = dict(st.client)
        st.client["changed"] = tuple(sorted(set(st.client.get("changed", ())) | {what}))

    def mutate(self, ip, st, oid, how, args, node):
        if oid in self.watch:
            self.mark(ip, st, "%s of %s" % (how, st.heap.get(oid).path), node)

    def write_field(self, ip, st, oid, field, val, node):
        if oid in self.watch and not field.startswith("propertyCardinality") and field not in ("mPosixTime", "mPosixTimeCached", "mTZOffset"):
            o = st.heap.get(oid)
            if o.fields.get(field) != val:
                self.mark(ip, st, "%s.%s" % (o.path, field), node)


def put(st, key, kind, cls=None, path=None):
    oid = ("v", key)
    o = Obj(kind, frozenset([cls]) if cls is not None else None)
    o.path = path or str(key)
    if kind in ("list", "tuple"):
        o.items = []
    if kind == "dict":
        o.items = {}
    st.heap.put(oid, o)
    return oid, o


def value_for(ctx, st, name, tag):
    """a plausible value object: its class does not matter when value checks are off"""
    ptv = ctx.prog.cls("pycalendar.plaintextvalue:PlainTextValue")
    leaf = [c for c in ptv.allsubs() if c.name == "TextValue"] or list(ptv.allsubs())
    oid, o = put(st, ("val", name, tag), "inst", leaf[0], "%s value" % name)
    o.fields["mValue"] = V(Pr("str", ["%s.%s" % (name, tag)]))
    return oid


def build(ctx, ip, pol, c, propcls, counts, children=(), parent=None, values=None):
    """A component of class c holding counts[name] properties of each name."""
    st = ip.new_state()
    fi = c.find("__init__")
    kws = {}
    if fi is not None and "add_defaults" in fi.params:
        kws["add_defaults"] = V(FALSE)
    if parent is not None and fi is not None and "parent" in fi.params:
        kws["parent"] = V(("o", parent(st)))
    outs = ip.construct(st, c, [], kws, c.node)
    if len(outs) != 1:
        outs = outs[:1]
    if not outs:
        raise AnalysisBroken("cannot construct %s" % c.full)
    st, v = outs[0]
    a = next(iter(v))
    o = st.heap.get(a[1]).copy()
    o.path = c.name
    o.multi = False
    did, d = put(st, ("props",), "dict", path="properties")
    pol.watch |= {a[1], did}
    for name, n in sorted(counts.items()):
        if not n:
            continue
        lid, l = put(st, ("plist", name), "list", path="%s list" % name)
        pol.watch.add(lid)
        for i in range(n):
            pid, p = put(st, ("prop", name, i), "inst", propcls, "%s[%d]" % (name, i))
            pol.watch.add(pid)
            p.fields["mName"] = V(K(name))
            ppid, pp = put(st, ("params", name, i), "dict", path="%s parameters" % name)
            p.fields["mParameters"] = V(("o", ppid))
            p.fields["mGroup"] = VNONE
            if values is not None and name in values:
                vid = values[name](st, i)
            else:
                vid = value_for(ctx, st, name, i)
            pol.watch.add(vid)
            p.fields["mValue"] = V(("o", vid))
            l.items.append(V(("o", pid)))
        d.items[K(name)] = V(("o", lid))
    o.fields["mProperties"] = V(("o", did))
    cid, cl = put(st, ("children",), "list", path="components")
    pol.watch.add(cid)
    for i, k in enumerate(children):
        kid, ko = put(st, ("child", i), "inst", k, "%s child" % k.name)
        ko.sym = True
        pol.watch.add(kid)
        cl.items.append(V(("o", kid)))
    o.fields["mComponents"] = V(("o", cid))
    if values is None:
        o.fields["propertyValueChecks"] = VNONE
    st.heap.put(a[1], o)
    return st, a


def run(ctx, ip, st, a, c, dofix):
    """[(fixed list Obj, unfixed list Obj, state)] over the normal exits"""
    fi = c.find("validate")
    out = []
    st.client = {}
    for s, v in ip.invoke(st, fi, [V(a), V(K(dofix))], {}, c.node, recv=a):
        for x in v:
            if x[0] != "o":
                raise AnalysisBroken("%s.validate returns something other than a pair" % c.full)
            o = s.heap.get(x[1])
            if not isinstance(o.items, list) or len(o.items) != 2:
                raise AnalysisBroken("%s.validate returns something other than a pair" % c.full)
            pair = []
            for i in o.items:
                ls = [s.heap.get(y[1]) for y in i if y[0] == "o"]
                if len(ls) != len(i) or not ls:
                    raise AnalysisBroken("%s.validate returns a pair of non-lists" % c.full)
                pair.append(ls)
            out.append((pair[0], pair[1], s))
    ip.raised_ = ip.take_exc()
    ctx.used(*ip.inlined)
    return out


def status(ls):
    """'yes' surely non-empty, 'no' surely empty, 'maybe'"""
    r = set()
    for o in ls:
        if isinstance(o.items, list) and not o.multi and not o.elems:
            r.add("yes" if o.items else "no")
        elif not all_elems(o):
            r.add("no")
        else:
            r.add("maybe")
    return r.pop() if len(r) == 1 else "maybe"


def messages(ls):
    r = []
    for o in ls:
        for a in all_elems(o):
            r.append(a[2] if a[0] == "k" else "?")
    return sorted(str(x) for x in r)
