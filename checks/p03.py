"""P03: a date-time's derived instant always follows its fields."""
from pyan import front
from pyan.ai import Policy, V, K, NONE, VNONE, Pr, TRUE, FALSE, all_elems
from pyan.front import AnalysisBroken

INFO = {
    "level": "other",
    "technique": "typestate analysis (path-sensitive abstract interpretation of every DateTime method)",
    "note": "Every DateTime operation is executed abstractly on a receiver whose instant may already be remembered; at every normal "
            "exit a remembered instant/offset must have been reset or recomputed after the last field change.",
    "explanation": "Every method of DateTime that is callable from outside the class is executed abstractly (helpers inlined) from a state in "
                   "which the instant and the zone offset may already be remembered. The client state records whether a visible field was "
                   "changed after the remembered value was last valid; paths with different client states are not merged.",
    "assumptions": ["operations that fail part-way (raise) are outside the property",
                    "adjustToUTC/adjustTimezone change the fields without changing the instant"],
}
POSIX, FLAG, OFFSET = "mPosixTime", "mPosixTimeCached", "mTZOffset"
DERIVED = (POSIX, FLAG, OFFSET)
# operations that re-express the same instant in another zone: an instant that was valid before is valid after
PRESERVING = ("adjustToUTC", "adjustTimezone")


class P03(Policy):
    def __init__(self, ctx, dt, src, clear):
        self.tz = ctx.prog.cls("pycalendar.timezone:Timezone")
        self.clear = clear
        self.dt = dt
        self.src = src
        self.reads = []

    def key(self, st):
        return tuple(sorted((str(k), v) for k, v in st.client.items()))

    def call(self, ip, st, fi, recv, args, kws, node):
        if fi.name == "timeZoneSecondsOffset" and fi.cls is not None and fi.cls is self.tz:
            rel = kws.get(fi.params[2], args[2] if len(args) > 2 else V(FALSE)) if len(fi.params) > 2 else V(FALSE)
            return [(st, V(Pr("int", ["tz:local" if rel == V(FALSE) else "tz:relative"] + sorted(
                "%s.%s" % (st.heap.get(a[1]).path, f) for a in args[1] if a[0] == "o" for f in self.src))))]
        return None

    def isdt(self, st, oid):
        o = st.heap.get(oid)
        return o is not None and o.cls is not None and self.dt in o.cls

    def write_field(self, ip, st, oid, field, val, node):
        if not self.isdt(st, oid):
            return
        c = dict(st.client)
        o = st.heap.get(oid)
        sym = o.sym
        if field in self.src:
            c[oid, "p"] = "stale"
            c[oid, "t"] = "stale"
        elif field == POSIX:
            tg = frozenset().union(*[a[2] if a[0] == "p" else frozenset() for a in val]) - {"op:"}
            preserving = any(f.name in PRESERVING for f in ip.stack)
            if sym:
                own = {"%s.%s" % (o.path, f) for f in self.src}
                if tg & own:
                    c[oid, "p"] = "ok"          # computed from the current fields
                elif preserving and "%s.%s" % (o.path, POSIX) in tg and tg <= {"%s.%s" % (o.path, POSIX), "%s.%s" % (o.path, FLAG)}:
                    c[oid, "p"] = "stale" if self.clear else "kept"        # the instant from before a conversion that preserves it
                else:
                    c[oid, "p"] = "stale"
            elif preserving and c.get((oid, "p")) in ("stale", "kept") and tg and all(t.endswith("." + POSIX) or t.endswith("." + FLAG) for t in tg):
                c[oid, "p"] = "kept"
            else:
                c[oid, "p"] = "copied"
        elif field == OFFSET:
            if val == VNONE:
                c[oid, "t"] = "ok"
            elif any(f.name == "duplicate" for f in ip.stack):
                c[oid, "t"] = "copied"
            elif val == V(K(0)):
                c[oid, "t"] = "zero"
            else:
                tg = frozenset().union(*[a[2] if a[0] == "p" else frozenset() for a in val])
                c[oid, "t"] = "relative" if "tz:relative" in tg else "ok" if "tz:local" in tg else "stale"
        st.client = c

    def read_field(self, ip, st, oid, field, node):
        if field in (POSIX, OFFSET) and self.isdt(st, oid):
            o = st.heap.get(oid)
            if field == POSIX and st.client.get((oid, "p")) == "stale" and o.fields.get(FLAG) != V(FALSE):
                self.reads.append((node, ip.frames[-1][0], o.path))
        return None

    def bad(self, st, oid):
        """complaint about a date-time at an exit"""
        o = st.heap.get(oid)
        out = []
        flag = o.fields.get(FLAG)
        p = st.client.get((oid, "p"))
        if p == "stale" and flag != V(FALSE):
            out.append("the instant computed before the change is still remembered")
        if p == "kept":
            pass
        if p == "copied" and flag != V(FALSE):
            # a new object that took over a remembered instant: its fields must be the donor's
            px = o.fields.get(POSIX)
            donors = {t[:-len(POSIX) - 1] for a in px if a[0] == "p" for t in a[2] if t.endswith("." + POSIX)}
            for d in donors:
                for f in self.src:
                    fv = o.fields.get(f) or frozenset()
                    for a in fv:
                        if a[0] == "p" and a[2] != frozenset([d + "." + f]):
                            out.append("takes over the instant of %s but has a different %s" % (d, f))
                            break
            if not donors and p != "ok":
                out.append("is marked as having a remembered instant that was never computed")
        t = st.client.get((oid, "t"))
        ov = o.fields.get(OFFSET)
        if t in ("stale", "relative") and ov != VNONE and o.fields.get("mTZUTC") != V(TRUE):
            out.append("the zone offset remembered before the change is still remembered" if t == "stale" else
                       "a zone offset looked up relative to UTC stays remembered as the local one")
        if t == "zero" and o.fields.get("mTZUTC") != V(TRUE) and ov != VNONE:
            out.append("the zone offset is remembered as 0 although the date-time may not be UTC")
        return out


def fields_read_by(ctx, dt, fi, seed):
    """visible fields the abstract result of fi depends on"""
    pol = Policy()
    got = set()

    def rd(ip, st, oid, field, node):
        if oid == ("s", "self") and field not in DERIVED and dt.find(field) is None:
            got.add(field)
        return None
    pol.read_field = rd
    ip = ctx.interp(pol)
    st = ip.new_state()
    a = ip.sym(st, "self", [dt])
    o = st.heap.get(a[1]).copy()
    o.fields[FLAG] = V(FALSE)
    o.fields[OFFSET] = VNONE
    st.heap.put(a[1], o)
    ip.invoke(st, fi, [V(a)], {}, fi.node, recv=a)
    return got


def arg(ctx, ip, st, name, dt, default=None):
    if default is not None and default.t == "Name" and default.id in ("True", "False"):
        return V(TRUE, FALSE)
    ty = ctx.types
    m = {"comp": dt, "date": dt, "dt": dt, "dateorduration": [dt, ty.DUR], "duration": ty.DUR, "timezone": ctx.prog.cls("pycalendar.timezone:Timezone")}
    if name == "tzid":
        return V(ip.sym(st, "arg.tzid", [ctx.prog.cls("pycalendar.timezone:Timezone")]))
    if name in m:
        return ip.make_sym(st, m[name], "arg." + name)
    return V(Pr("any", ["arg." + name]))


def run(ctx):
    dt = ctx.prog.cls("pycalendar.datetime:DateTime")
    gp = dt.find("getPosixTime")
    if gp is None:
        raise AnalysisBroken("DateTime.getPosixTime is gone")
    src = fields_read_by(ctx, dt, gp, None)
    comps = {"mYear", "mMonth", "mDay", "mHours", "mMinutes", "mSeconds", "mTZUTC", "mTZID"}
    ctx.rule("the instant is computed from every one of %s" % ", ".join(sorted(comps)))
    for f in sorted(comps):
        ctx.oblige(f in src, "source", "DateTime.getPosixTime|" + f, gp.where, "the instant does not depend on " + f)
    # fields of the value itself: provenance of what getPosixTime returns when nothing is remembered
    src = (src | comps) - set(DERIVED) - {"mDateOnly"}
    calls = ctx.prog_calls if hasattr(ctx, "prog_calls") else call_names(ctx)
    ctx.rule("at every normal exit of every operation of DateTime: a field the instant depends on was not changed after the remembered "
             "instant / zone offset was last valid, unless the remembered value was dropped or recomputed since")
    ctx.rule("a remembered instant is never read while it is out of date")
    n = 0
    for name, fi in sorted(dt.methods.items()):
        inside, outside = calls.get(name, (0, 0))
        if name == "__init__" or (inside and not outside):
            continue
        n += 1
        for clear in (False, True):
            pol = P03(ctx, dt, src, clear)
            ip = ctx.interp(pol)
            st = ip.new_state()
            args = []
            recv = None
            params = list(fi.params)
            if fi.kind == "method":
                recv = ip.sym(st, "self", [dt])
                args.append(V(recv))
                if clear:
                    o = st.heap.get(recv[1]).copy()
                    o.fields[FLAG] = V(FALSE)
                    st.heap.put(recv[1], o)
                params = params[1:]
            for i, pname in enumerate(params):
                k = i - (len(params) - len(fi.defaults))
                a = arg(ctx, ip, st, pname, dt, fi.defaults[k] if k >= 0 else None)
                args.append(a)
            rets = ip.invoke(st, fi, args, {}, fi.node, recv=recv)
            ctx.used(*ip.inlined)
            ctx.count("exits", len(rets))
            for s, v in rets:
                objs = {k[0] for k in s.client} | {a[1] for a in v if a[0] == "o"}
                for oid in objs:
                    if not pol.isdt(s, oid):
                        continue
                    if s.heap.get(oid).sym is False and ("o", oid) not in v:
                        continue
                    for msg in pol.bad(s, oid):
                        ctx.report("exit", "DateTime.%s|%s" % (name, msg.split(" ")[1] + " " + msg.split(" ")[2]), fi.where,
                                   "after DateTime.%s: %s (%s)" % (name, msg, s.heap.get(oid).path))
                ctx.oblige(True, "exit-state", "", "", "")
            for node, f, path in pol.reads:
                ctx.report("stale-read", "DateTime.%s|%s" % (name, f.qual if f else "?"), "%s:%d" % (f.module.rel, node.ln),
                           "during DateTime.%s the remembered instant of %s is read after its fields changed" % (name, path))
    ctx.count("operations", n)
    ctx.floor("operations", 60)
    # nobody else writes the fields
    ctx.rule("no function outside DateTime stores a date-time field directly")
    only = set(src) | set(DERIVED) | {"mDateOnly"}
    other = set()
    for c in ctx.prog.classes:
        if c is not dt:
            for fi in c.methods.values():
                for nn in front.walk(fi.node):
                    if nn.t == "Attribute" and nn.value.t == "Name" and fi.params and nn.value.id == fi.params[0] and front.opname(nn.ctx) == "Store":
                        other.add(nn.attr)
    for fi in ctx.prog.functions:
        if fi.cls is dt or not fi.module.name.startswith("pycalendar"):
            continue
        for nn in front.walk_scope(fi.node) if hasattr(front, "walk_scope") else front.walk(fi.node):
            if nn.t == "Attribute" and nn.attr in only and front.opname(nn.ctx) in ("Store", "AugStore", "Del"):
                ctx.count("foreign-stores")
                ctx.oblige(nn.attr in other, "foreign", "%s|%s" % (fi.full, nn.attr), "%s:%d" % (fi.module.rel, nn.ln),
                           "%s stores a date-time's %s directly, bypassing the reset of the remembered instant" % (fi.qual, nn.attr))


def call_names(ctx):
    """attribute call name -> (calls from inside DateTime, calls from elsewhere)"""
    dt = ctx.prog.cls("pycalendar.datetime:DateTime")
    r = {}
    for fi in ctx.prog.functions:
        for n in front.walk_scope(fi.node):
            if n.t == "Call" and n.func.t == "Attribute":
                a, b = r.get(n.func.attr, (0, 0))
                me = fi.cls is dt and n.func.value.t == "Name" and n.func.value.id == "self"
                r[n.func.attr] = (a + 1, b) if me else (a, b + 1)
    return r
