"""P09: equality, inequality, ordering and hashing agree."""
import re

from pyan.ai import V, K, Pr, VNONE, NONE, Policy, TRUE, FALSE, const_of, tags_of
from pyan.front import AnalysisBroken
from .valid import put

INFO = {
    "level": "other",
    "technique": "abstract interpretation of every comparison operator on a symbolic pair under the hypotheses 'all fields equal' and 'exactly one field differs'",
    "note": "The fields that matter for each class are an explicit table; comparisons of corresponding fields are decided by the hypothesis, "
            "everything else by the code. Date-times are compared in one zone; instants across zones are not modelled.",
    "explanation": "For every class with equality, each operator is interpreted abstractly on (self, other) once with all fields equal and once per "
                   "field with only that field (or list element, or list length) different; results must be the constants that equality, inequality, "
                   "ordering and hashing require. Comparing a field with a different field, or with itself, is seen as not depending on the other object.",
    "assumptions": ["functions of several fields (such as total seconds) differ when one of their fields differs"],
}

I, C = "pycalendar.icalendar.", "pycalendar.vcard."
# class -> (fields: kind, constants, equality method, ordered fields, further fields a hash may use)
NUM = ["mBySeconds", "mByMinutes", "mByHours", "mByMonthDay", "mByYearDay", "mByWeekNo", "mByMonth", "mBySetPos"]
SPECS = [
    ("timed date-time", "pycalendar.datetime:DateTime", {"mYear": "int", "mMonth": "int", "mDay": "int", "mHours": "int", "mMinutes": "int", "mSeconds": "int"},
     {"mDateOnly": False, "mTZUTC": True, "mTZID": None, "mTZOffset": 0, "mPosixTimeCached": False, "mPosixTime": 0}, "__eq__", "all", ()),
    ("date", "pycalendar.datetime:DateTime", {"mYear": "int", "mMonth": "int", "mDay": "int"},
     {"mHours": 0, "mMinutes": 0, "mSeconds": 0, "mDateOnly": True, "mTZUTC": False, "mTZID": None, "mTZOffset": 0, "mPosixTimeCached": False,
      "mPosixTime": 0}, "__eq__", "all", ()),
    ("duration", "pycalendar.duration:Duration", {"mForward": "bool", "mWeeks": "int", "mDays": "int", "mHours": "int", "mMinutes": "int", "mSeconds": "int"},
     {}, "__eq__", ["mWeeks", "mDays", "mHours", "mMinutes", "mSeconds"], ()),
    ("period with end", "pycalendar.period:Period", {"mStart": "obj", "mEnd": "obj"}, {"mUseDuration": False, "mDuration": None}, "__eq__", "all", ()),
    ("period with duration", "pycalendar.period:Period", {"mStart": "obj", "mDuration": "obj"}, {"mUseDuration": True, "mEnd": None}, "__eq__", "all", ()),
    ("recurrence", I + "recurrence:Recurrence",
     dict({"mFreq": "int", "mUseCount": "bool", "mCount": "int", "mUseUntil": "bool", "mUntil": "obj", "mInterval": "int", "mByDay": "list", "mWeekstart": "int"},
          **{n: "list" for n in NUM}), {}, "__eq__", (), ()),
    ("recurrence set", I + "recurrenceset:RecurrenceSet",
     {"mRrules": "list", "mExrules": "list", "mRdates": "list", "mExdates": "list", "mRperiods": "list", "mExperiods": "list"}, {}, "equals", (), ()),
    ("parameter", "pycalendar.parameter:Parameter", {"mName": "str", "mValues": "list"}, {}, "__eq__", (), ()),
    ("iCalendar property", I + "property:Property", {"mName": "str", "mParameters": "dict", "mValue": "obj"}, {"mGroup": None}, "__eq__", (), ()),
    ("vCard property", C + "property:Property", {"mName": "str", "mParameters": "dict", "mValue": "obj", "mGroup": "str"}, {}, "__eq__", (), ()),
    ("address", C + "adr:Adr", {"mValue": "tuple"}, {}, "__eq__", (), ()),
    ("name", C + "n:N", {"mValue": "tuple"}, {}, "__eq__", (), ()),
    ("zone rule set", "zonal.rule:RuleSet", {"name": "str", "rules": "list"}, {}, "__eq__", (), ()),
    ("zone rule", "zonal.rule:Rule", {f: "str" for f in ("name", "fromYear", "toYear", "type", "inMonth", "onDay", "atTime", "saveTime", "letter")},
     {"dt_cache": None}, "__eq__", (), ()),
    ("zone", "zonal.zone:Zone", {"name": "str", "rules": "list"}, {}, "__eq__", (), ()),
    ("zone line", "zonal.zone:ZoneRule", {f: "str" for f in ("gmtoff", "rule", "format", "until")}, {}, "__eq__", (), ()),
]
LISTY = {"GeoValue": "list", "RequestStatusValue": "list", "OrgValue": "tuple", "MultiValue": "list"}


def side(t):
    return t.split(".")[0].split("[")[0]


def swap(t):
    return re.sub(r"\b(self|other)\b", lambda m: "other" if m.group(1) == "self" else "self", t)


def noindex(t):
    return re.sub(r"\[\w+\]", "", t)


class P09(Policy):
    exact = True
    max_depth = 12
    max_states = 60

    assume = True           # truth of corresponding values on both sides that the code branches on

    def __init__(self, differs=None, sign=-1):
        self.differs = differs      # path below the object that differs, e.g. "mName" or "mValues[1]"
        self.sign = sign            # self's is smaller (-1) or larger (1)
        self.n = 0

    def hit(self, t):
        """does this tag depend on what differs?"""
        d = self.differs
        return d is not None and any(p == d or p.startswith(d + ".") or p.startswith(d + "[") for p in re.findall(r"\b(?:self|other)\.([\w.\[\]]*\w\]?)", t))

    def rel(self, st, l, r, depth=3):
        """'eq', 'lt', 'gt', 'ne' (self side against other side), or None when the hypothesis does not say"""
        if len(l) != 1 or len(r) != 1:
            return None
        a, b = next(iter(l)), next(iter(r))
        if a[0] == "k" and b[0] == "k":
            return "eq" if a[2] == b[2] else "ne"
        if a == NONE or b == NONE:
            return "eq" if a == b else "ne"
        if a[0] == "p" and b[0] == "p":
            ta = {t for t in a[2] if t.startswith(("self", "other"))}
            tb = {t for t in b[2] if t.startswith(("self", "other"))}
            if not ta or not tb:
                return None
            if ta == tb and len({side(t) for t in ta}) == 1:
                return "eq"
            if len({side(t) for t in ta}) != 1 or len({side(t) for t in tb}) != 1:
                return None
            if ("neg" in a[2]) != ("neg" in b[2]):
                return "ne"
            if {swap(t) for t in ta} != tb:
                return "ne" if {noindex(swap(t)) for t in ta} == {noindex(t) for t in tb} else None
            if any(self.hit(t) for t in ta):
                less = (self.sign < 0) == (side(next(iter(ta))) == "self")
                return "lt" if less else "gt"
            return "eq"
        if a[0] == "o" and b[0] == "o":
            if a == b:
                return "eq"
            oa, ob = st.heap.get(a[1]), st.heap.get(b[1])
            if oa.kind == "inst" and ob.kind == "inst":
                pa, pb = oa.path or "", ob.path or ""
                if swap(pa) != pb and pa.startswith(("self.", "other.")) and noindex(swap(pa)) == noindex(pb):
                    return "ne"         # different elements
                if swap(pa) == pb and pa.startswith(("self.", "other.")):
                    if self.hit(pa):
                        return "lt" if (self.sign < 0) == pa.startswith("self") else "gt"
                    return "eq"
                return None
            if oa.kind == ob.kind and depth and not oa.multi and not ob.multi:
                if isinstance(oa.items, list) and isinstance(ob.items, list):
                    for x, y in zip(oa.items, ob.items):
                        q = self.rel(st, x, y, depth - 1)
                        if q != "eq":
                            return q
                    return "eq" if len(oa.items) == len(ob.items) else "ne"
                if isinstance(oa.items, dict) and isinstance(ob.items, dict):
                    if {k[2] for k in oa.items} != {k[2] for k in ob.items}:
                        return "ne"
                    for k in oa.items:
                        q = self.rel(st, oa.items[k], ob.items[[j for j in ob.items if j[2] == k[2]][0]], depth - 1)
                        if q != "eq":
                            return q and "ne"
                    return "eq"
            if oa.kind != ob.kind:
                return "ne"
            return None
        if {a[0], b[0]} == {"o", "k"}:
            return "ne"
        return None

    def compare(self, ip, st, op, l, r, node):
        # the operators of the classes under examination themselves are interpreted, not assumed
        for v in (l, r):
            for a in v:
                if a[0] == "o" and st.heap.get(a[1]).path in ("self", "other"):
                    return None
        q = self.rel(st, l, r)
        if q is None or op not in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            return None
        if op == "Eq":
            return q == "eq"
        if op == "NotEq":
            return q != "eq"
        if q == "ne":
            return None
        return {"Lt": q == "lt", "LtE": q != "gt", "Gt": q == "gt", "GtE": q != "lt"}[op]

    def call(self, ip, st, fi, recv, args, kws, node):
        # nested objects are atoms
        if recv is not None and recv[0] == "o":
            o = st.heap.get(recv[1])
            p = o.path or ""
            if p.startswith(("self.", "other.")) and o.kind == "inst":
                if fi.name in ("__eq__", "__ne__", "equals", "__lt__", "__gt__", "__le__", "__ge__") and len(args) == 2:
                    q = self.rel(st, V(recv), args[1])
                    op = {"__eq__": "Eq", "equals": "Eq", "__ne__": "NotEq", "__lt__": "Lt", "__gt__": "Gt", "__le__": "LtE", "__ge__": "GtE"}[fi.name]
                    if q is not None:
                        t = self.compare(ip, st, op, V(recv), args[1], node)
                        return [(st, V(K(t)) if t is not None else V(Pr("bool")))]
                if re.match("(is|has|use|get[A-Z][a-z]*Only)", fi.name):
                    return [(st, V(K(self.assume)))]
                more = sorted(set().union(*[self.names(st, x) for x in args[1:]])) if len(args) > 1 else []
                return [(st, V(Pr("any", ["%s.%s(%s)" % (p, fi.name, ",".join(more))])))]
        return None

    def truth(self, ip, st, a):
        if a[0] == "p":
            ts = [t for t in a[2] if t.startswith(("self.", "other."))]
            if ts and not any(self.hit(t) for t in ts):
                return self.assume
        return None

    def binop(self, ip, st, op, l, r, node):
        neg = op == "USub" or op == "Mult" and (const_of(l) == (True, -1) or const_of(r) == (True, -1))
        if neg:
            v = l if op == "USub" or const_of(l) != (True, -1) else r
            tg = tags_of(v)
            if tg:
                return V(Pr("int", set(tg) ^ {"neg"}))
        return None

    def builtin(self, ip, st, name, recv, args, kws, node):
        n = name.split(".")[-1]
        if name == "builtin.cmp" and len(args) == 2:
            q = self.rel(st, args[0], args[1])
            if q in ("eq", "lt", "gt"):
                return [(st, V(K({"eq": 0, "lt": -1, "gt": 1}[q])))]
        if name == "builtin.hash" and args:
            return [(st, V(Pr("int", sorted(self.hashed(ip, st, args[0], node)))))]
        if name == "builtin.sorted" and args or n == "sort" and recv is not None and recv[0] == "o":
            v = args[0] if name == "builtin.sorted" else V(recv)
            ex = ip.exact_iter(st, v)
            if ex is not None:
                items = sorted(ex, key=lambda x: sorted(str(t)[4:] if str(t).startswith("self") else str(t)[5:] for t in self.names(st, x)))
                if n == "sort":
                    o = st.heap.get(recv[1]).copy()
                    o.items = items
                    st.heap.put(recv[1], o)
                    return [(st, VNONE)]
                return [(st, V(ip.new_seq(st, "list", items, node, "sorted")))]
        return None

    def names(self, st, v):
        r = set()
        for a in v:
            if a[0] == "p":
                r |= set(a[2])
            elif a[0] == "o":
                r.add(st.heap.get(a[1]).path or "")
            else:
                r.add("zzzzz" + str(a[2] if a[0] == "k" else a))
        return r

    def hashed(self, ip, st, v, node, depth=4, pos=""):
        """tags '<position>:<what>' that the hash depends on"""
        r = set()
        for a in v:
            if a[0] == "k":
                r.add("%s:%r" % (pos, a[2]))
            elif a[0] == "p":
                r |= {"%s:%s" % (pos, t) for t in a[2] if t.startswith(("self", "other", ":"))}
                if not a[2]:
                    r.add("%s:?" % pos)
            elif a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind in ("list", "dict", "set"):
                    r.add("UNHASHABLE:%s" % o.kind)
                elif o.kind == "tuple" and isinstance(o.items, list) and depth:
                    for i, x in enumerate(o.items):
                        r |= self.hashed(ip, st, x, node, depth - 1, "%s/%d" % (pos, i))
                elif o.kind == "inst":
                    r.add("%s:%s" % (pos, o.path))
                else:
                    for x in (all_elems(o),):
                        r |= self.hashed(ip, st, x, node, depth - 1, pos + "/*") if depth else set()
            elif a == NONE:
                r.add("%s:None" % pos)
            else:
                r.add("%s:%s" % (pos, a[0]))
        return r


from pyan.ai import all_elems  # noqa


def kind_of(c):
    return LISTY.get(c.name, c.name if c.name in WRAPPED else "str")


def pair(ctx, ip, spec, lens=None, perm=None, flags=True, differs=None, cls2=None, consts2=None):
    """State with the objects 'self' and 'other' (other's field `lens` one element longer, field `perm` permuted)"""
    name, full, fields, consts = spec[:4]
    cls = ctx.prog.cls(full)
    st = ip.new_state()
    # what the constructor sets, before the fields of interest are made symbolic
    for who in ("self", "other"):
        oid, o = put(st, who, "inst", cls2 if cls2 is not None and who == "other" else cls, who)
        for f, v in (dict(consts, **(consts2 or {})) if who == "other" else consts).items():
            o.fields[f] = V(K(v)) if v is not None else VNONE
        for f, k in sorted(fields.items()):
            p = "%s.%s" % (who, f)
            o.fields[f] = value(ctx, st, p, k, cls, f, extra=who == "other" and lens == f, flip=perm == f and who == "other" or perm == who + " " + f,
                                flag=flags if who == "self" or differs != f else not flags)
    return cls, st


OBJ = {"mStart": "pycalendar.datetime:DateTime", "mEnd": "pycalendar.datetime:DateTime", "mUntil": "pycalendar.datetime:DateTime",
       "mDuration": "pycalendar.duration:Duration", "mRrules": I + "recurrence:Recurrence", "mExrules": I + "recurrence:Recurrence",
       "mRdates": "pycalendar.datetime:DateTime", "mExdates": "pycalendar.datetime:DateTime", "mRperiods": "pycalendar.period:Period",
       "mExperiods": "pycalendar.period:Period", "mValues": "pycalendar.plaintextvalue:PlainTextValue", "mValue": "pycalendar.plaintextvalue:PlainTextValue",
       "rules": "zonal.rule:Rule"}


WRAPPED = {"DateTimeValue": "pycalendar.datetime:DateTime", "DurationValue": "pycalendar.duration:Duration", "PeriodValue": "pycalendar.period:Period",
           "RecurrenceValue": I + "recurrence:Recurrence", "AdrValue": C + "adr:Adr", "NValue": C + "n:N"}


def inst(ctx, st, p, f, cls=None):
    c = WRAPPED.get(cls.name if cls is not None else None) or OBJ.get(f)
    oid, o = put(st, p, "inst", ctx.prog.cls(c) if c else None, p)
    return V(("o", oid))


def value(ctx, st, p, kind, cls, f, extra=False, flip=False, flag=True):
    if kind == "bool":
        return V(K(flag))
    if kind in ("int", "str", "float"):
        return V(Pr(kind, [p]))
    if kind == "obj":
        return inst(ctx, st, p, f, cls)
    if kind in ("list", "tuple"):
        oid, o = put(st, p, kind, None, p)
        idx = [0, 1] + ([2] if extra else [])
        if flip:
            idx = [1, 0]
        o.items = []
        for i in idx:
            q = "%s[%d]" % (p, i)
            if f == "mByDay":
                tid, t = put(st, q, "tuple", None, q)
                t.items = [V(Pr("int", [q + ".week"])), V(Pr("int", [q + ".day"]))]
                o.items.append(V(("o", tid)))
            elif f in OBJ and cls.name not in ("Parameter", "Adr", "N") and not cls.name.endswith("Value"):
                o.items.append(inst(ctx, st, q, f))
            elif cls.name == "MultiValue":
                o.items.append(inst(ctx, st, q, f))
            else:
                o.items.append(V(Pr("str" if cls.name in ("Parameter", "Adr", "N", "OrgValue", "RequestStatusValue") else "int", [q])))
        return V(("o", oid))
    if kind == "dict":
        oid, o = put(st, p, "dict", None, p)
        o.items = {}
        for k in ["A", "B"] + (["C"] if extra else []):
            lid, l = put(st, "%s[%s]" % (p, k), "list", None, "%s[%s]" % (p, k))
            pid, q = put(st, "%s[%s][0]" % (p, k), "inst", ctx.prog.cls("pycalendar.parameter:Parameter"), "%s[%s][0]" % (p, k))
            l.items = [V(("o", pid))]
            o.items[K(k)] = V(("o", lid))
        return V(("o", oid))
    raise AnalysisBroken("kind %s" % kind)


def results(ctx, spec, op, pol, lens=None, perm=None, other=None, **more):
    """union over both values of the boolean fields (and of what else the code branches on)"""
    fi, out, rets = results1(ctx, spec, op, pol, lens, perm, other, True, **more)
    if fi is not None:
        _f, o, r = results1(ctx, spec, op, pol, lens, perm, other, False, **more)
        out, rets = out | o, rets + r
    return fi, out, rets


def results1(ctx, spec, op, pol, lens, perm, other, flags, **more):
    pol.assume = flags
    ip = ctx.interp(pol)
    cls, st = pair(ctx, ip, spec, lens, perm, flags, pol.differs, **more)
    fi = cls.find(op)
    if fi is None:
        return None, None, None
    a = ("o", ("v", "self"))
    b = V(("o", ("v", "other"))) if other is None else other
    args = [V(a)] + ([b] if op not in ("__hash__",) else [])
    rets = ip.invoke(st, fi, args, {}, fi.node, recv=a)
    ip.take_exc()
    ctx.used(*ip.inlined)
    out = set()
    for s, v in rets:
        for x in v:
            t = ip.truth(s, x)
            out.add(t if t is not None else "not determined")
    return fi, out, rets


def say(r):
    return ", ".join(sorted(map(str, r))) or "nothing"


def specs(ctx):
    out = list(SPECS)
    done = set()
    for c in ctx.types.values:
        if c.subs or c in done:
            continue
        done.add(c)
        fields = {"mValue": LISTY.get(c.name, "obj" if c.name in ("AdrValue", "NValue", "DateTimeValue", "DurationValue", "PeriodValue", "RecurrenceValue")
                                      else "str")}
        consts = {}
        if c.name == "MultiValue":
            fields = {"mValues": "list"}
            consts = {"mType": 1}
        out.append(("value " + c.name, c.full, fields, consts, "__eq__", (), ()))
    return out


def run(ctx):
    ctx.rule("equal: with all fields equal, == is true, != false, and orderings are reflexive")
    ctx.rule("unequal: with exactly one field (or one list element, or a list's length) different, == is false and != true")
    ctx.rule("order: with one field smaller, < and <= are true and > and >= false")
    ctx.rule("ne: a class that defines == defines !=")
    ctx.rule("hash: a hash is computed only from fields that == compares, only from hashable parts, and does not depend on an order that == ignores")
    ctx.rule("foreign: nothing equals None")
    for spec in specs(ctx):
        name, full, fields, consts, eq, ordered, _more = spec
        cls = ctx.prog.cls(full)
        fi, out, _r = results(ctx, spec, eq, P09())
        if fi is None:
            raise AnalysisBroken("%s has no %s" % (full, eq))
        where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
        ctx.oblige(out == {True}, "equal", "%s|%s" % (name, eq), where, "two equal objects compare %s" % say(out))
        variants = []
        for f, k in sorted(fields.items()):
            if k in ("list", "tuple"):
                variants += [(f + "[0]", None), (f + "[1]", None)]
                if f == "mByDay":
                    variants += [(f + "[0].week", None), (f + "[0].day", None)]
                if k == "list":
                    variants.append((None, f))
            elif k == "dict":
                variants += [(f + "[A]", None), (f + "[B]", None), (None, f)]
            else:
                variants.append((f, None))
        for d, lens in variants:
            what = d or "length of " + lens
            _f, out, _r = results(ctx, spec, eq, P09(d), lens)
            ctx.oblige(out == {False}, "unequal", "%s|%s|%s" % (name, eq, what), where, "objects that differ only in %s compare %s" % (what, say(out)))
        _f, out, _r = results(ctx, spec, eq, P09(), other=VNONE) if eq == "__eq__" else (None, {False}, None)
        ctx.oblige(bool(out) and not (out - {False}), "foreign", "%s|None" % name, where, "comparing with None gives %s" % (say(out) if out else "a failure"))
        if eq != "__eq__":
            continue
        nf = cls.find("__ne__")
        if not ctx.oblige(nf is not None, "ne", name, where, "%s defines == but not != (which then compares identities)" % cls.name):
            continue
        nwhere = "%s:%d %s" % (nf.module.rel, nf.node.ln, nf.full)
        _f, out, _r = results(ctx, spec, "__ne__", P09())
        ctx.oblige(out == {False}, "equal", "%s|__ne__" % name, nwhere, "two equal objects compare != %s" % say(out))
        for d, lens in variants:
            what = d or "length of " + lens
            _f, out, _r = results(ctx, spec, "__ne__", P09(d), lens)
            ctx.oblige(out == {True}, "unequal", "%s|__ne__|%s" % (name, what), nwhere, "objects that differ only in %s compare != %s" % (what, say(out)))
        for op, refl in (("__lt__", False), ("__gt__", False), ("__le__", True), ("__ge__", True)):
            of = cls.find(op)
            if of is None or not ordered:
                continue
            owhere = "%s:%d %s" % (of.module.rel, of.node.ln, of.full)
            _f, out, _r = results(ctx, spec, op, P09())
            ctx.oblige(out == {refl}, "equal", "%s|%s" % (name, op), owhere, "two equal objects compare %s %s" % (op, say(out)))
            for f in (sorted(fields) if ordered == "all" else ordered):
                for sign in (-1, 1):
                    _f, out, _r = results(ctx, spec, op, P09(f, sign))
                    want = (sign < 0) == (op in ("__lt__", "__le__"))
                    ctx.oblige(out == {want}, "order", "%s|%s|%s|%d" % (name, op, f, sign), owhere,
                               "with %s %s than the other's, %s gives %s" % (f, "smaller" if sign < 0 else "larger", op, say(out)))
        hashing(ctx, spec, cls, fields, consts)
    for spec in specs(ctx):
        name, full, fields, consts, eq, ordered, _more = spec
        cls = ctx.prog.cls(full)
        fi = cls.find(eq)
        where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
        for f, k in sorted(fields.items()):
            if k == "list":
                _f, a, _r = results(ctx, spec, eq, P09(), perm=f)
                _f, b, _r = results(ctx, spec, eq, P09(), perm="self " + f)
                ctx.oblige(a == b, "symmetric", "%s|order of %s" % (name, f), where,
                           "with other's %s reordered == gives %s, with self's reordered it gives %s" % (f, say(a), say(b)))
        if name.startswith("value ") and cls.name not in ("UnknownValue",):
            for c in ctx.types.values:
                if c.subs or c is cls or c.name in ("UnknownValue", "MultiValue") or cls.name == "MultiValue" or kind_of(c) != kind_of(cls):
                    continue
                _f, out, _r = results(ctx, spec, eq, P09(), cls2=c)
                ctx.oblige(out == {False}, "type", "%s|%s" % (name, c.name), where, "a %s with the same content compares %s" % (c.name, say(out)))
            if cls.name == "MultiValue":
                _f, out, _r = results(ctx, spec, eq, P09(), consts2={"mType": 2})
                ctx.oblige(out == {False}, "type", "%s|other type" % name, where, "the same list of another type compares %s" % say(out))
    ctx.rule("symmetric: reordering a list in self or in other gives the same answer")
    ctx.rule("type: values of different types are never equal")
    ctx.floor("symmetric", 10)
    ctx.floor("type", 20)
    ctx.floor("equal", 40)
    ctx.floor("unequal", 120)
    ctx.floor("order", 80)
    ctx.floor("hash", 20)


def hashing(ctx, spec, cls, fields, consts):
    name = spec[0]
    hf = cls.find("__hash__")
    if hf is None:
        return
    hwhere = "%s:%d %s" % (hf.module.rel, hf.node.ln, hf.full)

    def tags(perm=None, who="self"):
        pol = P09()
        ip = ctx.interp(pol)
        _c, st = pair(ctx, ip, spec, None, perm)
        a = ("o", ("v", who))
        r = set()
        rets = ip.invoke(st, hf, [V(a)], {}, hf.node, recv=a)
        ip.take_exc()
        ctx.used(*ip.inlined)
        for s, v in rets:
            r |= tags_of(v)
        return rets, r
    rets, tg = tags()
    ctx.oblige(bool(rets), "hash", "%s|works" % name, hwhere, "hashing always fails")
    bad = sorted(t.split(":")[1] for t in tg if t.startswith("UNHASHABLE"))
    ctx.oblige(not bad, "hash", "%s|hashable" % name, hwhere, "a %s is hashed, which always fails" % ", ".join(bad))
    allowed = set(fields) | set(consts)
    extra = sorted({t for t in (x.split(":", 1)[-1].lstrip(":") for x in tg) if t.startswith("self.") and
                    t[5:].split("[")[0].split(".")[0] not in allowed})
    ctx.oblige(not extra, "hash", "%s|fields" % name, hwhere, "the hash depends on %s, which == ignores" % ", ".join(extra))
    for f, k in sorted(fields.items()):
        if k != "list":
            continue
        _f, out, _r = results(ctx, spec, "__eq__", P09(), perm=f)
        if out == {True}:
            _x, a = tags(f, "self")
            _x, b = tags(f, "other")
            a = {t.replace("self.", "@.") for t in a}
            b = {t.replace("other.", "@.") for t in b}
            ctx.oblige(a == b, "hash", "%s|order of %s" % (name, f), hwhere,
                       "the hash depends on the order of %s, which == ignores" % f)
