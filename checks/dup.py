"""Shared machinery for P01/P02: abstract execution of every duplicate()."""
from pyan import front
from pyan.ai import Policy, State, Heap, V, K, NONE, VNONE, Pr, Obj, all_elems, all_keys
from pyan.front import AnalysisBroken

# Derived or positional state that a copy must not (or need not) carry over.
EXCLUDED = {
    "mParentComponent": "position of the object, not part of it: set by the caller that inserts the copy",
    "cardinalityChecks": "bound methods of the object itself",
    "mCached": "validity flag of the remembered expansion; a copy may start without one",
    "mCacheStart": "remembered expansion", "mCacheUpto": "remembered expansion", "mFullyCached": "remembered expansion",
    "mCachedBusyTime": "validity flag of the remembered busy time", "mSpanPeriod": "remembered busy time",
    "mBusyTime": "remembered busy time",
    "mCachedExpandAllMaxYear": "remembered expansion", "mCachedOffsets": "remembered look-ups", "mCachedExpandAll": "remembered expansion",
    "mCachedExpandBelow": "remembered expansion", "mCachedExpandBelowItems": "remembered expansion",
    "propertyCardinality_1": "selected by the alarm action", "propertyCardinality_0_1": "selected by the alarm action",
    "propertyCardinality_1_Fix_Empty": "selected by the alarm action", "propertyCardinality_1_More": "selected by the alarm action",
}
# Recurrence.mRecurrences is a cache, RecurrenceSet-valued mRecurrences is state.
EXCLUDED_IN = {("Recurrence", "mRecurrences"): "remembered expansion",
               ("DateTime", "mPosixTimeCached"): "validity flag of the derived instant",
               ("DateTime", "mPosixTime"): "derived instant",
               ("UnknownComponent", "mMapKey"): "random identity of the object",
               ("Calendar", "mMasterComponentsByTypeAndUID"): "index rebuilt from the copied components",
               ("Calendar", "mOverriddenComponentsByUID"): "index rebuilt from the copied components"}
# Object-level modes: fields that only mean something in one mode.
MODES = {"Period": [({"mUseDuration": True}, {"mEnd"}), ({"mUseDuration": False}, {"mDuration"})]}
# fields that mean nothing while a flag is off
DEPENDENT = {"mUseUntil": {"mUntil"}, "mUseCount": {"mCount"}}
# rebuilt by the copy from state that is copied
REBUILT = {("ComponentRecur", "mRecurrences"): "RecurrenceSet"}
# fields that refer to objects the receiver does not own
UNOWNED = {"mMaster", "mOwner"}
IMMUTABLE = {"mParentComponent"}


def excluded(c, f):
    return f in EXCLUDED or any((x.name, f) in EXCLUDED_IN for x in c.mro)


def state_fields(c):
    """Every attribute the methods of c and its bases store on self."""
    r = {}
    for x in c.mro:
        for fi in x.methods.values():
            if not fi.params or fi.kind != "method":
                continue
            me = fi.params[0]
            for n in front.walk(fi.node):
                tgt = None
                if n.t == "Assign":
                    tgt = n.targets
                elif n.t == "AugAssign":
                    tgt = [n.target]
                for t in tgt or ():
                    stack = [t]
                    while stack:
                        q = stack.pop()
                        if q.t in ("Tuple", "List"):
                            stack += q.elts
                        elif q.t == "Attribute" and q.value.t == "Name" and q.value.id == me:
                            r.setdefault(q.attr, fi)
    return r


class DupPolicy(Policy):
    def __init__(self, root):
        self.root = root
        self.loops = []
        self.loopbad = []

    def call(self, ip, st, fi, recv, args, kws, node):
        if fi.name == "duplicate" and len(ip.stack) >= 1 and recv is not None and recv[0] == "o":
            o = st.heap.get(recv[1])
            if recv[1] == ("s", "self"):
                return None             # the class's own super() chain
            if o.sym and o.path and not o.path.startswith("dup("):
                return [(st, V(self.copy_of(st, recv, o)))]
            if o.sym:
                return [(st, V(self.copy_of(st, recv, o)))]
        return None

    def unknown_call(self, ip, st, fval, args, kws, node):
        for a in fval:
            if a[0] == "um" and a[2] == "duplicate":
                o = st.heap.get(a[1][1])
                return [(st, V(self.copy_of(st, a[1], o)))]
        return None

    def copy_of(self, st, a, o):
        oid = ("s", "dup(%s)" % o.path)
        if oid not in st.heap:
            n = Obj("inst" if o.cls else "unknown", o.cls, sym=True, path="dup(%s)" % o.path, multi=o.multi)
            st.heap.put(oid, n)
        return ("o", oid)

    def truth(self, ip, st, a):
        if a[0] == "p" and a[1] in ("int", "str", "float") and a[2] and all(t.startswith("self.") for t in a[2]):
            return True
        if a[0] == "o":
            o = st.heap.get(a[1])
            if o.sym and o.path and o.path.startswith("self.") and o.kind in ("list", "dict", "set", "unknown"):
                return True
        return None

    def mine(self, st, it, depth=2):
        """is this (a sequence of) parts of the original?"""
        for a in it:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.sym:
                    if (o.path or "").startswith("self"):
                        return True
                elif depth and self.mine(st, all_elems(o), depth - 1):
                    return True
            elif a[0] == "p" and any(t.startswith("self.") for t in a[2]):
                return True
        return False

    # a pass of a loop over the original's parts that neither stores nor adds anything drops an element
    def loop_iter(self, ip, st, node, it):
        if self.mine(st, it):
            st.client = dict(st.client)
            st.client[("it", id(node))] = False

    def loop_next(self, ip, st, node, how):
        if ("it", id(node)) not in st.client:
            return
        if st.client[("it", id(node))] is False or how != "next":
            self.loopbad.append((node, how, ip.frames[-1][0]))
        st.client = {k: v for k, v in st.client.items() if k != ("it", id(node))}

    def filtered(self, ip, st, node):
        if any(self.mine(st, v) for g in node.generators for _s, v in ip.ev(g.iter, st.fork())):
            self.loopbad.append((node, "filter", ip.frames[-1][0]))

    def sliced(self, ip, st, a, node):
        if self.mine(st, [a]):
            self.loopbad.append((node, "slice", ip.frames[-1][0]))

    def join_client(self, a, b):
        r = {}
        for k in set(a) | set(b):
            r[k] = a.get(k, True) and b.get(k, True)
        return r

    def _touch(self, st):
        if st.client:
            st.client = {k: True for k in st.client}

    def mutate(self, ip, st, oid, how, args, node):
        o = st.heap.get(oid)
        if how in ("append", "extend", "insert", "add", "setitem", "update", "setdefault", "augadd") or o is None:
            self._touch(st)

    def write_field(self, ip, st, oid, field, val, node):
        pass


def modes(ctx, c, fields):
    """Receiver states: everything present and set; then each flag off in turn."""
    base = MODES.get(c.name, [({}, set())])
    out = list(base)
    for f in sorted(fields):
        t = ctx.types(c, f)
        if t == "bool" and not any(f in m[0] for m in base):
            for fixed, ignore in base:
                d = dict(fixed)
                d[f] = False
                out.append((d, ignore | DEPENDENT.get(f, set())))
        elif isinstance(t, list) and "None" in t and not excluded(c, f) and f not in UNOWNED and c.name not in MODES:
            # an optional part that is absent
            for fixed, ignore in base[:1]:
                d = dict(fixed)
                d[f] = None
                out.append((d, ignore | {f}))
    return out


def run_class(ctx, c):
    """[(mode, interp, state, result atom)]"""
    fi = c.find("duplicate")
    res = []
    for fixed, ignore in modes(ctx, c, state_fields(c)):
        pol = DupPolicy(c)
        ip = ctx.interp(pol)

        def field_type(k, name, path, fixed=fixed):
            t = ctx.types(k, name)
            if path == "self." + name:
                if name in fixed:
                    return ("K", fixed[name])
                if isinstance(t, list):
                    t2 = [x for x in t if x != "None"]
                    t = t2[0] if len(t2) == 1 else t2
                if t == "bool":
                    return ("K", True)
            return t
        pol.field_type = field_type
        st = ip.new_state()
        a = ip.sym(st, "self", [c])
        rets = ip.invoke(st, fi, [V(a)], {}, fi.node, recv=a)
        ctx.used(*ip.inlined)
        res.append((ignore, ip, pol, rets, fixed))
    return fi, res


def targets(ctx):
    r = []
    for c in ctx.prog.classes:
        fi = c.find("duplicate")
        if fi is None or not c.module.name.startswith("pycalendar"):
            continue
        if abstract(fi):
            continue
        if any(abstract(c.find(n)) for n in ("getType", "parse") if c.find(n) is not None and n == "getType"):
            # abstract component/value classes are covered through their subclasses
            if c.subs:
                continue
        r.append((c, fi))
    return r


def abstract(fi):
    b = [s for s in fi.body if not (s.t == "Expr" and s.value.t == "Str")]
    return len(b) == 1 and b[0].t == "Raise"


def origin_ok(val_atoms, path, st, orig):
    """Does every possible content of the copied field come from path in the original?
    -> list of complaints"""
    bad = []
    for a in val_atoms:
        if a == ("unset",):
            bad.append("is not set on some path")
        elif a[0] == "k":
            if a not in orig:
                bad.append("is the constant %r, not the original's value" % (a[2],))
        elif a[0] == "p":
            if not a[2]:
                bad.append("does not come from the original")
            elif not all(t == path or t.startswith(path + ".") or t.startswith(path + "[") or t.startswith(path + "~") for t in a[2]):
                bad.append("comes from %s" % ", ".join(sorted(a[2])))
            elif not exact_tag(a, path) and a[1] in ("bool",) and False:
                pass
        elif a[0] == "o":
            o = st.heap.get(a[1])
            p = o.path or ""
            if a[1] == ("s", path) or p in ("dup(%s)" % path,):
                continue
            if o.sym and (p.startswith(path + "[") or p.startswith("dup(%s[" % path) or p.startswith(path + ".") or p.startswith("dup(%s." % path)):
                continue
            if o.sym:
                bad.append("comes from %s" % p)
                continue
            if o.kind in ("list", "tuple", "set", "dict"):
                els = all_elems(o)
                oe = frozenset()
                for b in orig:
                    if b[0] == "o":
                        oe |= all_elems(st.heap.get(b[1]))
                        oe |= all_keys(st.heap.get(b[1]))
                if not els and oe:
                    bad.append("is an empty %s" % o.kind)
                bad += origin_ok(els, path, st, oe)
                if o.kind == "dict":
                    bad += ["keys: " + x for x in origin_ok(all_keys(o), path, st, oe)]
            elif o.kind == "inst":
                # an object built field by field from the original's object
                got = 0
                for f, v in o.fields.items():
                    if any(x[0] == "p" and any(t.startswith(path) for t in x[2]) or
                           x[0] == "o" and (st.heap.get(x[1]).path or "").replace("dup(", "").startswith(path) for x in v):
                        got += 1
                if not got:
                    bad.append("is a new %s not built from the original's" % (",".join(c.name for c in o.cls or ())))
        elif a[0] in ("bm", "fn", "cl"):
            pass
    return bad


def exact_tag(a, path):
    return path in a[2]


def shared(st, atom, limit=4000):
    """Original mutable objects reachable from the copy: [(field chain, object path)]"""
    out = []
    seen = set()
    work = [(atom, "copy", False)]
    while work and len(seen) < limit:
        a, chain, unowned = work.pop()
        if a[0] != "o" or a in seen:
            continue
        seen.add(a)
        o = st.heap.get(a[1])
        p = o.path or ""
        if o.sym and (p == "self" or p.startswith("self.") or p.startswith("self[") or p.startswith("self~")):
            if o.kind == "tuple" or (o.kind == "unknown"):
                pass
            else:
                out.append((chain, p, o))
                continue
        for f, v in o.fields.items():
            if f in IMMUTABLE or f == "cardinalityChecks":
                continue
            for x in v:
                work.append((x, "%s.%s" % (chain, f), unowned))
        for x in all_elems(o):
            work.append((x, chain + "[*]", unowned))
    return out


def store_sites(c, f):
    """[(function, node)] storing attribute f on self in c's methods and bases"""
    r = []
    for x in c.mro:
        for fi in x.methods.values():
            if not fi.params:
                continue
            for n in front.walk(fi.node):
                ts = n.targets if n.t == "Assign" else [n.target] if n.t == "AugAssign" else ()
                for t in ts:
                    if t.t == "Attribute" and t.attr == f and t.value.t == "Name" and t.value.id == fi.params[0]:
                        r.append((fi, n))
    return r
