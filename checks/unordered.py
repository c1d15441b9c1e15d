"""Where the walk over a set or a map decides the order of something.

A set, the views of a map, and lists made from them have no defined order. The rule follows them inside each function and through the values
functions return; they may be sorted, counted, tested, combined, or walked with effects that do not depend on the order. They may not decide the
order of written text, of a list that is returned or handed to the caller, or which item is picked.
"""
from pyan import front
from pyan.front import walk, opname

VIEWS = {"keys", "values", "items", "iterkeys", "itervalues", "iteritems", "viewkeys", "viewvalues", "viewitems"}
SETOPS = {"difference", "union", "intersection", "symmetric_difference", "copy"}
KEEP = {"list", "tuple", "reversed", "enumerate", "iter", "map", "filter", "zip", "islice", "chain"}
GROW = {"append", "extend", "insert", "appendleft"}
WRITES = ("write", "generate", "SubElement")


def scope_nodes(fi):
    return list(front.walk_scope(fi.node)) if fi.node.t != "Lambda" else list(walk(fi.node))


class Fn(object):
    def __init__(self, ctx, fi, summary, own=None):
        self.ctx, self.fi, self.summary = ctx, fi, summary
        self.nodes = scope_nodes(fi)
        self.assigned = {}
        for n in self.nodes:
            if n.t == "Assign":
                for t in n.targets:
                    if t.t == "Name":
                        self.assigned.setdefault(t.id, []).append((n.ln, n.value))
            elif n.t == "AugAssign" and n.target.t == "Name":
                self.assigned.setdefault(n.target.id, []).append((n.ln, n.value))
        self.sorts = {}
        for n in self.nodes:
            if n.t == "Call" and n.func.t == "Attribute" and n.func.attr == "sort" and n.func.value.t == "Name":
                self.sorts.setdefault(n.func.value.id, []).append(n.ln)
        self.tainted = {}       # local list -> line of the walk that filled it
        self.busy = set()

    def sorted_between(self, name, a, b):
        return any(a <= l and (b is None or l <= b) for l in self.sorts.get(name, ()))

    # ------------------------------------------------------------ what has no order
    def kind(self, e):
        """"set", "view" (of a map), "map", "list" (in no defined order), or None"""
        if e.t in ("Set", "SetComp"):
            return "set"
        if e.t in ("Dict", "DictComp"):
            return "map"
        if e.t == "BinOp" and opname(e.op) in ("Sub", "BitAnd", "BitOr", "BitXor"):
            return "set" if "set" in (self.kind(e.left), self.kind(e.right)) else None
        if e.t == "BinOp" and opname(e.op) == "Add":
            return "list" if "list" in (self.kind(e.left), self.kind(e.right)) else None
        if e.t in ("ListComp", "GeneratorExp"):
            return "list" if any(self.kind(g.iter) for g in e.generators) else None
        if e.t == "IfExp":
            a, b = self.kind(e.body), self.kind(e.orelse)
            return a if a not in (None, "map") else b if b not in (None, "map") else a if a == b else None
        if e.t == "BoolOp":
            return next((k for k in map(self.kind, e.values) if k), None)
        if e.t == "Call":
            f = e.func
            if f.t == "Name":
                if f.id in ("set", "frozenset"):
                    return "set"
                if f.id == "dict":
                    return "map"
                if f.id in KEEP:
                    return "list" if any(self.kind(a) for a in e.args) else None
                if f.id == "sorted":
                    return None
                t = self.ctx.prog.resolve(self.fi.module, f.id)
                return self.summary.get(t) if t is not None and not isinstance(t, str) else None
            if f.t == "Attribute":
                if f.attr in VIEWS and not e.args:
                    return "view"
                if f.attr in SETOPS and self.kind(f.value) == "set":
                    return "set"
                ks = {self.summary.get(m) for m in self.named(f.attr)}
                return next((k for k in ("list", "set", "map") if k in ks), None) if ks and None not in ks else None
            return None
        if e.t == "Name":
            if e.id in self.busy:
                return None
            self.busy.add(e.id)
            try:
                for ln, v in self.assigned.get(e.id, ()):
                    if ln <= e.ln:
                        k = self.kind(v)
                        if k and not (k in ("list", "view") and self.sorted_between(e.id, ln, e.ln)):
                            return k
                if e.id in self.tainted and not self.sorted_between(e.id, self.tainted[e.id], e.ln):
                    return "list"
            finally:
                self.busy.discard(e.id)
            return None
        if e.t == "Attribute" and e.value.t == "Name" and self.fi.cls is not None and self.fi.params and e.value.id == self.fi.params[0]:
            spec = self.ctx.types(self.fi.cls, e.attr)
            specs = spec if isinstance(spec, list) else [spec]
            for s in specs:
                if isinstance(s, tuple) and s and s[0] in ("dict", "set"):
                    return "map" if s[0] == "dict" else "set"
        return None

    def named(self, name):
        return [c.methods[name] for c in self.ctx.prog.classes if name in c.methods]

    # ------------------------------------------------------------ uses
    def problems(self, public):
        """(node, message) for every order that is decided by a walk; also finds what the function returns"""
        out = []
        rets = set()
        params = set(self.fi.params)
        comp_iters = set()
        for n in self.nodes:
            if n.t == "For" and self.kind(n.iter):
                for m in (x for s in n.body for x in [s] + list(front.walk_scope(s))):
                    msg = self.effect(n, m, params)
                    if msg:
                        out.append((m, msg))
        for n in self.nodes:
            if n.t == "Call" and n.func.t == "Attribute":
                f = n.func
                if f.attr == "join" and n.args and self.kind(n.args[0]):
                    out.append((n, "the joined text follows the order of %s" % front.unparse(n.args[0])))
                elif f.attr == "extend" and n.args and self.kind(n.args[0]):
                    t = self.target(f.value, params, n.ln)
                    if t == "out":
                        out.append((n, "%s is extended in the order of %s" % (front.unparse(f.value), front.unparse(n.args[0]))))
                    elif t:
                        self.tainted.setdefault(t, n.ln)
                elif f.attr == "pop" and not n.args and self.kind(f.value) == "set" or f.attr == "popitem":
                    out.append((n, "an arbitrary item is taken from %s" % front.unparse(f.value)))
            elif n.t == "Call" and n.func.t == "Name" and n.func.id == "next" and n.args and self.kind(n.args[0]):
                out.append((n, "an arbitrary item is taken from %s" % front.unparse(n.args[0])))
            elif n.t == "Subscript" and n.get("ctx") in (None, "Load") and self.kind(n.value) in ("list", "view"):
                out.append((n, "an item is picked from %s by position" % front.unparse(n.value)))
            elif n.t == "Return" and n.value is not None:
                k = self.kind(n.value)
                if k == "view":
                    k = "list"
                rets.add(k)
        return out, next((k for k in ("list", "set") if k in rets), "map" if rets == {"map"} else None)

    def target(self, e, params, ln):
        """"out" when the list belongs to the caller or to the object, a name when it is local and not sorted later"""
        if e.t == "Name":
            if e.id in params and e.id not in self.assigned:
                return "out" if not self.sorted_between(e.id, ln, None) else None
            return e.id if not self.sorted_between(e.id, ln, None) else None
        if e.t == "Attribute":
            return "out"
        return None

    def effect(self, loop, m, params):
        names = {x.id for x in walk(loop.target) if x.t == "Name"}
        for s in loop.body:
            for x in [s] + list(front.walk_scope(s)):
                if x.t == "For":
                    names |= {y.id for y in walk(x.target) if y.t == "Name"}
                if x.t == "With" and x.get("optional_vars") is not None and any(y.t == "Name" and y.id in names for y in walk(x.context_expr)):
                    names |= {y.id for y in walk(x.optional_vars) if y.t == "Name"}
                if x.t == "Assign" and any(y.t == "Name" and y.id in names for y in walk(x.value)):
                    names |= {t.id for t in x.targets if t.t == "Name"}
        what = front.unparse(loop.iter)
        if m.t == "Yield":
            return "items are produced in the order of %s" % what
        if m.t == "Call":
            f = m.func
            nm = f.attr if f.t == "Attribute" else f.id if f.t == "Name" else ""
            if f.t == "Attribute" and nm in GROW:
                base = f.value
                if any(x.t == "Name" and x.id in names for x in walk(base)):
                    return None         # a list of its own for each item
                t = self.target(base, params, m.ln)
                if t == "out":
                    return "%s is filled in the order of %s" % (front.unparse(base), what)
                if t:
                    self.tainted.setdefault(t, loop.ln)
                return None
            if f.t == "Attribute" and nm.startswith("add") and nm not in ("add", "addComponent") and not any(
                    x.t == "Name" and x.id in names for x in walk(f.value)):
                return "%s is called in the order of %s" % (front.unparse(f), what)
            if (nm == "write" or nm.startswith(("generate", "write")) or nm == "SubElement") and not self.own_stream(m, names):
                return "output is written in the order of %s" % what
        if m.t == "AugAssign" and opname(m.op) == "Add" and m.target.t == "Name" and self.texty(m):
            return "%s is built in the order of %s" % (m.target.id, what)
        return None

    def own_stream(self, call, names):
        """the output belongs to the item"""
        es = list(call.args) + ([call.func.value] if call.func.t == "Attribute" and call.func.attr == "write" else [])
        return bool(es) and all(e.t == "Name" and e.id in names or e.t not in ("Name", "Attribute") for e in es[-1:] if call.func.t == "Attribute" and call.func.attr == "write") \
            and call.func.t == "Attribute" and call.func.attr == "write"

    def texty(self, n):
        return any(x.t == "Str" for x in walk(n.value)) or any(v.t == "Str" for _l, v in self.assigned.get(n.target.id, ()))


def analyse(ctx, functions):
    """summaries to a fixpoint, then the problems: [(fi, node, message)], number of walks seen"""
    summary = {}
    fis = [f for f in ctx.prog.functions if not f.lambda_]
    for _ in range(6):
        new = {}
        for fi in fis:
            _p, r = Fn(ctx, fi, summary).problems(False)
            if r:
                new[fi] = r
        if new == summary:
            break
        summary = new
    out = []
    sites = 0
    for fi in functions:
        if fi.lambda_:
            continue
        f = Fn(ctx, fi, summary)
        sites += sum(1 for n in f.nodes if n.t in ("For", "comprehension") and f.kind(n.iter)) + \
            sum(1 for n in f.nodes if n.t in ("ListComp", "GeneratorExp", "SetComp") and any(f.kind(g.iter) for g in n.generators))
        ps, r = f.problems(True)
        for n, msg in ps:
            out.append((fi, n, msg))
        if r == "list":
            out.append((fi, fi.node, "the returned list has no defined order"))
    return out, sites
