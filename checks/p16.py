"""P16: validation reports what it sees and changes nothing unless asked to fix."""
from pyan.ai import V, K, Pr, VNONE, Obj, all_elems
from pyan.front import AnalysisBroken
from . import valid
from .valid import ValPolicy, build, run as run_validate, status, messages, put
from .p24 import SPEC, Bench, words

INFO = {
    "level": "other",
    "technique": "effect analysis by abstract interpretation of validate() (all property-count scenarios, with and without fixing)",
    "note": "validate() of every component class is interpreted abstractly over count scenarios; each path records the changes it makes to the "
            "component tree and the entries of its fixed/unfixed lists, and the two are compared path by path.",
    "explanation": "Each scenario gives the component's properties by name and count class ({0,1,many}) with symbolic values; validate() with all "
                   "inherited and helper code is interpreted abstractly. Changes to the component, its properties, values, sub-components and "
                   "recurrence rules are the effects; entries of the returned lists are compared with them on every path, and the state after "
                   "fixing is validated again.",
    "assumptions": ["lookup caches inside date-times and recurrence rules do not count as changes"],
}


def scenarios(ctx, b):
    spec = b.spec
    base = b.base()
    yield "valid", base, {}
    yield "empty", {}, {}
    for p in words(spec.get("one", "")):
        for n in (0, 2):
            yield "%s=%d" % (p, n), dict(base, **{p: n}), {}
    for p in words(spec.get("more", "")):
        yield "%s=0" % p, dict(base, **{p: 0}), {}
    for p in words(spec.get("opt", "")):
        p = p.rstrip("?")
        yield "%s=2" % p, dict(base, **{p: 2}), {}
    for x, y in list(spec.get("exclusive", ())) + list(spec.get("together", ())):
        yield "%s+%s" % (x, y), dict(base, **{x: 1, y: 1}), {}
        yield "%s" % x, dict(base, **{x: 1}), {}
        yield "%s" % y, dict(base, **{y: 1}), {}
    if b.c.name == "VEvent":
        yield "no METHOD", base, {"method": False}
    if b.child:
        yield "no observance", base, {"children": []}
    every = {p.rstrip("?"): 2 for k in ("one", "opt", "more") for p in words(spec.get(k, ""))}
    yield "all twice", every, {}
    yield "all twice with unknown values", every, {"values": {}}


def run(ctx):
    ctx.rule("pure: without fixing no path changes the component tree, and nothing is listed as fixed")
    ctx.rule("listed: with fixing a path changes the tree exactly when it lists something as fixed")
    ctx.rule("complete: what is reported without fixing is reported, as fixed or unfixed, with fixing")
    ctx.rule("repaired: validating again after fixing does not report what was listed as fixed")
    ctx.rule("children: the problems of every sub-component are part of the result and are fixed exactly when fixing was asked for")
    ctx.rule("inherited: every validation defined by the component's ancestors runs")
    ctx.rule("raise: a container asked to raise fails exactly when something is unfixed")
    ctx.rule("until: a recurrence end that does not match the start's type is reported, and repaired when fixing")
    for key in sorted(SPEC):
        b = Bench(ctx, key, SPEC[key])
        name = b.action.name if b.action is not None else b.c.name
        where = "%s:%d %s.validate" % (b.c.module.rel, b.c.node.ln, name)
        for label, counts, kw in scenarios(ctx, b):
            plain = []
            for f, u, s in b.run(counts, False, **kw):
                ch = s.client.get("changed", ())
                ctx.oblige(not ch, "pure", "%s|%s" % (name, label), where, "validating %s (%s) without fixing changes %s" % (name, label, ", ".join(ch)))
                ctx.oblige(status(f) == "no", "pure", "%s|%s fixed" % (name, label), where,
                           "validating %s (%s) without fixing lists %s as fixed" % (name, label, "; ".join(messages(f))))
                plain.append(messages(u))
            both, after = [], []
            outs = list(b.run(counts, True, **kw))
            for f, u, s in outs:
                ch = s.client.get("changed", ())
                x = status(f)
                ctx.oblige(not (ch and x == "no"), "listed", "%s|%s" % (name, label), where,
                           "fixing %s (%s) changes %s without listing anything as fixed" % (name, label, ", ".join(ch)))
                ctx.oblige(not (not ch and x == "yes"), "listed", "%s|%s unchanged" % (name, label), where,
                           "fixing %s (%s) lists %s as fixed but changes nothing" % (name, label, "; ".join(messages(f))))
                both.append(sorted(messages(f) + messages(u)))
                again = b.again(s)
                after.append({m for _f, u2, _s in again for m in messages(u2)})
                for f2, u2, s2 in again:
                    for m in messages(f):
                        left = messages(u2)
                        ctx.oblige(m not in left or m == "?", "repaired", "%s|%s|%s" % (name, label, m), where,
                                   "%s (%s): '%s' is listed as fixed but is still reported afterwards" % (name, label, m))
            if plain and both:
                if all("?" not in m for m in plain + both):
                    for m in plain:
                        ctx.oblige(any(not (set(m) - set(w)) & t for w, t in zip(both, after)), "complete", "%s|%s" % (name, label), where,
                                   "%s (%s) reports %s; with fixing only %s is reported although the rest remains" % (name, label, m, both[0]))
                        ctx.oblige(all(set(w) <= set(m) for w in both) or len(plain) > 1, "complete", "%s|%s extra" % (name, label), where,
                                   "%s (%s) reports %s, but without fixing only %s" % (name, label, both[0], m))
        children(ctx, b, name, where)
        inherited(ctx, b, name, where)
        if b.c.find("validate") is not None and "doRaise" in b.c.find("validate").params:
            raising(ctx, b, name, where)
    until(ctx)
    ctx.floor("pure", 500)
    ctx.floor("listed", 500)
    ctx.floor("children", 30)
    ctx.floor("until", 20)


def marked(st, key, text):
    oid, o = put(st, key, "list")
    o.items.append(V(K(text)))
    return oid


def children(ctx, b, name, where):
    """Two sub-components each with a fixed and an unfixed problem"""
    kid = ctx.prog.cls("pycalendar.icalendar.vunknown:UnknownComponent")
    for dofix in (False, True):
        pol = ValPolicy()
        ip = ctx.interp(pol)
        asked = []

        def call(ip_, st, fi, recv, args, kws, node):
            if fi.name == "validate" and recv is not None and recv[0] == "o" and recv[1][0] == "v":
                d = kws.get("doFix", args[1] if len(args) > 1 else V(K(False)))
                asked.append((recv[1], d))
                n = recv[1][1][1]
                t, o = put(st, ("cr", n), "tuple")
                o.items = [V(("o", marked(st, ("cf", n), "F%d" % n))), V(("o", marked(st, ("cu", n), "U%d" % n)))]
                return [(st, V(("o", t)))]
            return None
        pol.call = call
        st, a = build(ctx, ip, pol, b.c, b.pcls, b.base(), [kid, kid])
        if b.action is not None:
            st, v = ip.construct(st, b.action, [], b._args(), b.c.node)[0]
            o = st.heap.get(a[1]).copy()
            o.fields["mActionData"] = v
            st.heap.put(a[1], o)
        for f, u, s in run_validate(ctx, ip, st, a, b.c, dofix):
            fm, um = messages(f), messages(u)
            for n in (0, 1):
                ctx.oblige(("F%d" % n in fm or status(f) == "maybe") and ("U%d" % n in um or status(u) == "maybe"), "children",
                           "%s|%d|%s" % (name, n, dofix), where,
                           "the problems of sub-component %d of %s are missing from the result (fixed %s, unfixed %s)" % (n + 1, name, fm, um))
        for oid, d in asked:
            ctx.oblige(d == V(K(dofix)), "children", "%s|dofix|%s" % (name, dofix), where,
                       "a sub-component of %s is validated with doFix other than the caller's (%s)" % (name, ip.describe(st, d)))


def inherited(ctx, b, name, where):
    pol = ValPolicy()
    ip = ctx.interp(pol)
    st, a = build(ctx, ip, pol, b.c, b.pcls, b.base(), [])
    if b.action is not None:
        st, v = ip.construct(st, b.action, [], b._args(), b.c.node)[0]
        o = st.heap.get(a[1]).copy()
        o.fields["mActionData"] = v
        st.heap.put(a[1], o)
    for dofix in (False, True):
        ip.inlined = set()
        run_validate(ctx, ip, st.fork(), a, b.c, dofix)
        for k in b.c.mro:
            fi = k.methods.get("validate")
            if fi is not None:
                ctx.oblige(fi in ip.inlined, "inherited", "%s|%s" % (name, k.short), where,
                           "validating %s does not run the checks of %s" % (name, k.short))


def raising(ctx, b, name, where):
    fi = b.c.find("validate")
    for counts, want in ((b.base(), False), ({}, True)):
        for doraise in (False, True):
            pol = ValPolicy()
            ip = ctx.interp(pol)
            st, a = build(ctx, ip, pol, b.c, b.pcls, counts, [])
            rets = ip.invoke(st, fi, [V(a), V(K(False)), V(K(doraise))], {}, b.c.node, recv=a)
            exc = ip.take_exc()
            ok = (bool(exc) and not rets) if (want and doraise) else (bool(rets) and not [e for e in exc if isexc(e)])
            ctx.oblige(ok, "raise", "%s|%s|%s" % (name, want, doraise), where,
                       "%s.validate(doRaise=%s) of %s data %s" % (name, doraise, "invalid" if want else "valid",
                                                                  "does not fail" if want and doraise else "fails"))


def isexc(e):
    return True


def until(ctx):
    P = "pycalendar."
    RSET = ctx.prog.cls(P + "icalendar.recurrenceset:RecurrenceSet")
    REC = ctx.prog.cls(P + "icalendar.recurrence:Recurrence")
    DT = ctx.prog.cls(P + "datetime:DateTime")
    CREC = ctx.prog.cls(P + "icalendar.componentrecur:ComponentRecur")
    for key in sorted(SPEC):
        if ":" not in key:
            continue
        b = Bench(ctx, key, SPEC[key])
        if CREC not in b.c.mro:
            continue
        name = b.c.name
        where = "%s:%d %s.validate" % (b.c.module.rel, b.c.node.ln, name)
        for start_date in (False, True):
            for until_date in (False, True):
                for dofix in (False, True):
                    pol = ValPolicy()
                    ip = ctx.interp(pol)
                    st, a = build(ctx, ip, pol, b.c, b.pcls, dict(b.base(), DTSTART=1), [])

                    def dt(k, date):
                        oid, o = put(st, k, "inst", DT, k[0])
                        for f in ("mYear", "mMonth", "mDay", "mHours", "mMinutes", "mSeconds"):
                            o.fields[f] = V(Pr("int", ["%s.%s" % (k[0], f)]))
                        o.fields["mDateOnly"] = V(K(date))
                        o.fields["mTZUTC"] = V(K(False))
                        o.fields["mTZID"] = VNONE
                        o.fields["mTZOffset"] = VNONE
                        o.fields["mPosixTimeCached"] = V(K(False))
                        o.fields["mPosixTime"] = V(K(0))
                        pol.watch.add(oid)
                        return oid
                    sid = dt(("start",), start_date)
                    uid = dt(("until",), until_date)
                    rid, r = put(st, ("rule",), "inst", REC, "rule")
                    for f, v in (("mUseUntil", V(K(True))), ("mUntil", V(("o", uid))), ("mUseCount", V(K(False)))):
                        r.fields[f] = v
                    r.sym = True
                    lid, l = put(st, ("rules",), "list", path="rules")
                    l.items.append(V(("o", rid)))
                    xid, x = put(st, ("rset",), "inst", RSET, "recurrences")
                    x.fields["mRrules"] = V(("o", lid))
                    for f in ("mExrules", "mRdates", "mExdates", "mRperiods", "mExperiods"):
                        eid, e = put(st, ("rset", f), "list", path=f)
                        x.fields[f] = V(("o", eid))
                    o = st.heap.get(a[1]).copy()
                    o.fields["mHasStart"] = V(K(True))
                    o.fields["mStart"] = V(("o", sid))
                    o.fields["mRecurrences"] = V(("o", xid))
                    st.heap.put(a[1], o)
                    bad = start_date != until_date
                    label = "%s start, %s end%s" % ("date" if start_date else "time", "date" if until_date else "time", ", fixing" if dofix else "")
                    outs = run_validate(ctx, ip, st, a, b.c, dofix)
                    if not outs:
                        raise AnalysisBroken("%s.validate has no normal exit (%s)" % (name, label))
                    for f, u, s in outs:
                        ch = s.client.get("changed", ())
                        fx, ux = status(f), status(u)
                        if not dofix:
                            ctx.oblige(not ch, "pure", "%s|until %s" % (name, label), where, "validating %s (%s) changes %s" % (name, label, ", ".join(ch)))
                        want = ("no", "no") if not bad else ("yes", "no") if dofix else ("no", "yes")
                        ctx.oblige("maybe" in (fx, ux) or (fx, ux) == want, "until", "%s|%s" % (name, label), where,
                                   "%s with %s: fixed %s, unfixed %s" % (name, label, messages(f), messages(u)))
                        if bad and dofix:
                            ds = [s.heap.get(x[1]) for x in s.heap.get(rid).fields["mUntil"] if x[0] == "o"]
                            ctx.oblige(ds and all(d.fields.get("mDateOnly") == V(K(start_date)) for d in ds), "until", "%s|%s type" % (name, label), where,
                                       "%s with %s: the end is not converted to the start's type" % (name, label))
                            if not start_date:
                                ctx.oblige(all(d.fields.get("mTZUTC") == V(K(True)) for d in ds), "until", "%s|%s utc" % (name, label), where,
                                           "%s with %s: the repaired end is not in UTC" % (name, label))
