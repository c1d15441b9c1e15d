"""P22: queries do not modify what they query."""
import re
from pyan.ai import Policy, V, K, NONE, VNONE, Pr, ANY, const_of, all_elems
from pyan.front import AnalysisBroken
from . import effects

INFO = {
    "level": "other",
    "technique": "effect analysis (abstract interpretation of every query; stores that reach the receiver or the arguments)",
    "note": "Every query is interpreted on a symbolic receiver and symbolic arguments with its helpers inlined up to a depth limit; any store or "
            "container change that reaches an object that existed before the call is reported, except remembered (recomputable) values.",
    "explanation": "The queries of every class (comparisons, hashing, accessors, writers of all formats, expansion, overlap tests, duplication and "
                   "arithmetic) are executed abstractly. Objects that exist before the call are symbolic and carry access paths from the receiver "
                   "and the arguments; stores to them are the findings.",
    "assumptions": ["remembered values (instants, offsets, expansions, lazily computed period ends, alarm status, busy time) are not observable content: "
                    "their agreement with the content is P03, P04 and P05",
                    "arguments that are output containers (lists to fill, streams, XML nodes, JSON lists) are meant to change",
                    "writing a calendar that is asked to include missing time zones adds them",
                    "writing a property brings its VALUE parameter in line with its value"],
}

QUERY = re.compile(r"^(get|has|is|test|find|count|compare|same|sort|describe|write|generate|duplicate|expand|equals|mapKey|recurring|use[A-Z]|loadV|"
                   r"floating|utc|local|__(eq|ne|lt|le|gt|ge|cmp|hash|repr|str|add|sub|mul|nonzero|len|iter|contains)__$)")
# remembered values, by class
MEMO = {
    "DateTime": {"mPosixTime", "mPosixTimeCached", "mTZOffset"},
    "Recurrence": {"mCached", "mCacheStart", "mCacheUpto", "mCacheOffset", "mFullyCached", "mRecurrences"},
    "VTimezone": {"mCachedExpandAll", "mCachedExpandAllMaxYear", "mCachedOffsets", "mUTCOffsetSortKey"},
    "VTimezoneElement": {"mCachedExpandBelow", "mCachedExpandBelowItems"},
    "VFreeBusy": {"mCachedBusyTime", "mSpanPeriod", "mBusyTime"},
    "VAlarm": {"mStatusInit", "mAlarmStatus", "mNextTrigger", "mDoneCount"},
    "Component": {"mMapKey"},
}
LAZY = {"Period": {"mEnd", "mDuration"}}        # computed when missing
OUT = {"list", "results", "items", "ids", "fb", "os", "node", "jobject", "file", "out", "dates", "ev", "parent", "fixed", "unfixed"}
OUTPARAMS = {("getNextTrigger", "dt"), ("getFirstTrigger", "dt")}


class P22(Policy):
    max_depth = 7
    max_states = 4

    def __init__(self):
        self.got = []

    def own(self, st, oid):
        o = st.heap.get(oid)
        return o is not None and o.sym

    def memo(self, o, field):
        return bool(o.cls) and all(any(field in MEMO.get(x.name, ()) for x in c.mro) for c in o.cls)

    def write_field(self, ip, st, oid, field, val, node):
        if not self.own(st, oid):
            return
        o = st.heap.get(oid)
        if self.memo(o, field) or o.fields.get(field) == val:
            return
        if o.cls and all(field in LAZY.get(c.name, ()) for c in o.cls) and (o.multi or VNONE <= (o.fields.get(field) or VNONE) or ANY[:2] in {a[:2] for a in o.fields[field]}):
            return
        self.note(ip, o, field, node)

    def mutate(self, ip, st, oid, how, args, node):
        if not self.own(st, oid):
            return
        o = st.heap.get(oid)
        if how == "setitem" and o.kind == "inst":
            return          # no class of the program supports item assignment: imprecision
        if how == "setitem" and o.kind == "list" and args and not any(self.integer(a) for a in args[0]):
            return          # a text key cannot index a list: imprecision
        if how in ("del", "delitem", "setitem", "setdefault", "pop") and args and args[0] is not None and isinstance(args[0], frozenset) and \
                const_of(args[0]) == (True, "VALUE"):
            return
        if how == "append" and args and args[0] and all(a[0] == "o" and self.valueparam(st, a[1]) for a in args[0]):
            return
        self.note(ip, o, how, node)

    def valueparam(self, st, oid):
        o = st.heap.get(oid)
        return o is not None and not o.sym and const_of(o.fields.get("mName") or frozenset()) in ((True, "VALUE"), (False, None))

    @staticmethod
    def integer(a):
        return (a[0] == "k" and a[1] in ("int", "bool")) or (a[0] == "p" and a[1] in ("int", "num"))

    def note(self, ip, o, what, node):
        path = o.path or "?"
        self.got.append((path, what, node, ip.frames[-1][0] if ip.frames else None, [f.name for f in ip.stack]))


def memopath(types, prog, path):
    """the path goes through a remembered value"""
    names = re.findall(r"m[A-Z]\w*", path)
    for c, fs in MEMO.items():
        for n in names:
            if n in fs and n != "mRecurrences":
                return True
    # the remembered instances of a rule: a list of date-times, under mRrules / mExrules / a rule
    return bool(re.search(r"(mRrules|mExrules)\[\*\]\.mRecurrences|^(self|arg\.\w+)\.mRecurrences(\[\*\])?$|mValue\.mRecurrences", path))


def queries(ctx):
    for fi in sorted(ctx.prog.functions, key=lambda f: f.full):
        if fi.outer is not None or fi.lambda_ or not fi.module.name.startswith("pycalendar") or not QUERY.match(fi.name):
            continue
        if fi.kind == "class" or fi.cls is None:
            continue
        yield fi


def run(ctx):
    ctx.rule("no query stores into, or changes a container of, its receiver, its arguments or anything reachable from them")
    args = effects.Args(ctx)
    args.by["includeTimezones"] = "None"
    skip = {"loadValueRRULE", "loadValueRDATE", "loadValueEXDATE"}
    for fi in queries(ctx):
        if fi.name in skip:
            continue
        cls = effects.receivers(ctx.prog, fi)
        if not cls:
            continue
        done = False
        for depth in (7, 5, 4, 3, 2):
            pol = P22()
            pol.max_depth = depth
            ip = ctx.interp(pol)
            ip.max_steps = 60000
            st = ip.new_state()
            vals, kws, recv = effects.setup(ctx, ip, st, fi, args, cls)
            for p in fi.params:
                if p == "includeTimezones":
                    kws[p] = V(K(2))            # NO_TIMEZONES
            try:
                ip.invoke(st, fi, vals, kws, fi.node, recv=recv)
                done = True
                break
            except AnalysisBroken:
                ctx.count("depth reduced")
        if not done:
            raise AnalysisBroken("cannot analyse %s" % fi.full)
        ctx.used(*ip.inlined)
        bad = {}
        for path, how, node, f, stack in pol.got:
            root = re.split(r"[.\[~]", path[4:])[0] if path.startswith("arg.") else None
            if root in OUT or (fi.name, root) in OUTPARAMS:
                continue
            if memopath(ctx.types, ctx.prog, path) and not (fi.cls.name == "ComponentRecur" and re.match(r"self\.mRecurrences$", path)):
                continue
            bad.setdefault((path, how), (node, f, stack))
        ctx.oblige(True, "query", "", "", "")
        for (path, how), (node, f, stack) in bad.items():
            f = f or fi
            ctx.report("changes", "%s|%s|%s" % (fi.full, path, how), "%s:%s %s" % (f.module.rel, node.ln, f.qual),
                       "the query %s changes %s (%s) through %s" % (fi.qual, path, how, " > ".join(stack)))
    ctx.floor("query", 400)
