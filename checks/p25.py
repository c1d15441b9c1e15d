"""P25: objects do not leak state into one another through shared defaults."""
from pyan import front
from pyan.ai import Policy, V, K, NONE, VNONE, Pr, ANY
from pyan.front import AnalysisBroken, walk
from . import effects

INFO = {
    "level": "other",
    "technique": "effect analysis (abstract interpretation of every function; writes to and leaks of class-level, module-level and default-argument state)",
    "note": "Every function is interpreted on symbolic inputs; what it writes outside the objects it was given or created is compared with the "
            "small set of declared shared state (type registries, memo tables, configuration).",
    "explanation": "Every function of the non-test sources is executed abstractly with a symbolic receiver (of every class that can run it) and "
                   "symbolic arguments. Recorded effects: stores into class or module attributes, changes of containers and objects that exist "
                   "since import (class attributes, module globals, default argument objects), stores of such objects into instance fields, and "
                   "returns of such objects. Every constructor is executed to see which fields it leaves to the class attribute of the same name.",
    "assumptions": ["registration functions (register*) are the type registries' interface and run at import time",
                    "calls more than three levels deep are covered by the callee's own run"],
}

# declared shared state: (class or module, attribute) -> why
CONFIG = {
    ("ContainerBase", "sDomain"), ("ContainerBase", "sProdID"),     # product configuration (per container class)
    ("Component", "uid_ctr"),                                       # identifier counter
    ("Timezone", "sDefaultTimezone"),                               # configured default zone
    ("TimezoneDatabase", "sTimezoneDatabase"),                      # the configured database
    ("CalendarManager", "sICalendarManager"),
}
SWITCHES = "ParserContext"


class P25(Policy):
    max_depth = 3
    max_states = 4
    shared_defaults = True

    def __init__(self, unset):
        self.got = []
        self.unset = unset

    def class_level(self, cls, field):
        return field in self.unset.get(cls, ())

    def static(self, ip, oid):
        return oid in ip.base or oid[0] in ("dflt", "cls", "mod")

    def note(self, what, ip, oid, how, node, val=None):
        self.got.append((what, oid, how, node, ip.frames[-1][0] if ip.frames else None, val))

    def write_static(self, ip, st, owner, field, val, node):
        self.note("write", ip, owner, field, node, val)

    def mutate(self, ip, st, oid, how, args, node):
        if self.static(ip, oid):
            self.note("mutate", ip, oid, how, node, args)

    def write_field(self, ip, st, oid, field, val, node):
        if self.static(ip, oid):
            self.note("field", ip, oid, field, node)
        else:
            for a in val:
                if a[0] == "o" and self.shared(ip, st, a):
                    self.note("store", ip, a[1], field, node)

    def shared(self, ip, st, a):
        return self.static(ip, a[1]) and st.heap.get(a[1]).kind in ("list", "dict", "set", "inst", "unknown")


def owners(ctx):
    """object that exists since import -> class/module attribute that holds it"""
    r = {}
    for k, o in ctx.base.items():
        if o.kind in ("class", "module"):
            for f, v in o.fields.items():
                for a in v:
                    if a[0] == "o":
                        r.setdefault(a[1], (o.path, f, k))
    todo = list(r)
    while todo:
        x = todo.pop()
        o = ctx.base.get(x)
        if o is None:
            continue
        vals = list(o.fields.values()) + [o.elems, o.keys]
        vals += list(o.items.values()) if isinstance(o.items, dict) else list(o.items or [])
        for v in vals:
            for a in v:
                if a[0] == "o" and a[1] not in r:
                    r[a[1]] = r[x]
                    todo.append(a[1])
    return r


def ctor_gaps(ctx, args):
    """class -> fields with a class attribute that some path through the constructor leaves unset"""
    r = {}
    for c in ctx.prog.classes:
        fi = c.find("__init__")
        attrs = {n for x in c.mro for n in x.assigns}
        if not attrs:
            continue
        if fi is None:
            r[c] = attrs
            continue
        ip = ctx.interp(Policy())
        st = ip.new_state()
        vals, kws, _ = effects.setup(ctx, ip, st, fi, args, [c])
        outs = ip.construct(st, c, vals[1:], kws, c.node)
        gaps = set()
        for s, v in outs:
            for a in v:
                if a[0] == "o":
                    o = s.heap.get(a[1])
                    for n in attrs:
                        if n not in o.fields or ("unset",) in o.fields[n]:
                            gaps.add(n)
        r[c] = gaps if outs else attrs
        ctx.count("constructors")
    return r


def registration(fi):
    return fi.cls is not None and fi.kind in ("static", "class") and fi.name.startswith("register")


def plain(v):
    return not any(a[0] == "o" for a in v)


def run(ctx):
    ctx.rule("no function writes class or module attributes, or changes objects that exist since import, other than the declared registries, "
             "memo tables of plain values, parser switches and configuration")
    ctx.rule("objects shared since import (class attributes, module globals, default arguments) are not stored into instances or handed out")
    ctx.rule("registries are only written by registration functions, which only import-time code calls")
    args = effects.Args(ctx)
    own = owners(ctx)
    gaps = ctor_gaps(ctx, args)
    cfg = {(c, f) for c, f in CONFIG}
    regs = set()
    # containers that are empty at import time are filled later: their contents are unknown
    empties = []
    for oid, o in ctx.base.items():
        if o.kind in ("list", "dict", "set") and not o.items and not o.elems and oid in own:
            o = o.copy()
            o.items, o.elems = None, V(ANY)
            if o.kind == "dict":
                o.keys = V(ANY)
            empties.append((oid, o))
    for fi in sorted(ctx.prog.functions, key=lambda f: f.full):
        if fi.outer is not None or fi.lambda_ or not fi.module.name.startswith("pycalendar"):
            continue
        cls = effects.receivers(ctx.prog, fi) if fi.cls is not None else None
        if fi.cls is not None and not cls:
            continue
        pol = P25(gaps)
        ip = ctx.interp(pol)
        st = ip.new_state()
        for oid, o in empties:
            st.heap.put(oid, o)
        vals, kws, recv = effects.setup(ctx, ip, st, fi, args, cls)
        if registration(fi):
            regs.add(fi.name)
        rets = ip.invoke(st, fi, vals, kws, fi.node, recv=recv)
        ctx.used(*ip.inlined)
        ctx.count("analysed")
        for s, v in rets:
            for a in v:
                if a[0] == "o" and pol.shared(ip, s, a):
                    pol.note("return", ip, a[1], fi.name, fi.node)
        bad = {}
        for what, oid, how, node, f, val in pol.got:
            f = f or fi
            o = ip.base.get(oid) or None
            if oid[0] in ("cls", "mod"):
                owner, field = o.path if o else oid[1], how
            elif oid[0] == "dflt":
                owner, field = oid[1], "default argument"
            else:
                owner, field = own.get(oid, ("?", "?", None))[:2]
            if allowed(ctx, ip, cfg, what, owner, field, f, val, node):
                continue
            bad["%s|%s|%s.%s" % (what, f.full, owner, field)] = (
                "%s:%s %s" % (f.module.rel, node.ln, f.qual),
                {"write": "assigns the shared attribute %s.%s", "mutate": "changes the shared object %s.%s", "field": "changes a field of the shared object %s.%s",
                 "store": "puts the shared object %s.%s into an instance", "return": "hands out the shared object %s.%s"}[what] % (owner, field))
        ctx.oblige(True, "effects", "", "", "")
        for k, (where, msg) in bad.items():
            ctx.report("shared", k, where, msg)
    # who calls the registration functions
    for fi in ctx.prog.functions:
        if not fi.module.name.startswith("pycalendar") or registration(fi):
            continue
        for n in walk(fi.node):
            if n.t == "Call" and n.func.t == "Attribute" and n.func.attr in regs:
                ctx.oblige(fi.kind in ("static", "class", "plain") and not fi.params[1:], "registry-call", "%s|%s" % (fi.full, n.func.attr),
                           "%s:%s" % (fi.module.rel, n.ln), "%s registers a type while operating on an object" % fi.qual)
    globals_written(ctx)
    ctx.floor("analysed", 800)
    ctx.floor("constructors", 60)


def allowed(ctx, ip, cfg, what, owner, field, f, val, node):
    owner = owner.split(":")[-1].split(".")[-1]
    if what == "write":
        for c in ctx.prog.classes:
            if c.name == owner:
                names = {x.name for x in c.mro}
                if any((n, field) in cfg for n in names):
                    return f.kind != "method" or not f.cls or f.name.startswith(("set", "init")) or (owner, field) in (
                        ("Component", "uid_ctr"), ("Timezone", "sDefaultTimezone"))
                if SWITCHES in names:
                    return f.cls is not None and f.cls.name == SWITCHES
        return False
    if what == "return" and any(x == field for _c, x in cfg):
        return True
    if what == "mutate":
        if registration(f):
            return True
        # memo tables: plain values under plain keys, kept at module level
        if owner in {m.name.split(".")[-1] for m in ctx.prog.modules.values()} and f.cls is None and val is not None and len(val) == 2:
            return all(plain(v) for v in val)
    return False


def globals_written(ctx):
    """global statements outside import-time code"""
    for fi in ctx.prog.functions:
        if not fi.module.name.startswith("pycalendar"):
            continue
        names = {n for g in walk(fi.node) if g.t == "Global" for n in g.names}
        for n in walk(fi.node):
            if n.t == "Name" and n.id in names and n.ctx in ("Store", "AugStore", "Del"):
                ctx.oblige(False, "global", "%s|%s" % (fi.full, n.id), "%s:%s" % (fi.module.rel, n.ln), "%s assigns the module variable %s" % (fi.qual, n.id))
