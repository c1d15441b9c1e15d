"""P26: names, attributes and calls resolve."""
import json
import os

from pyan import front
from pyan.front import AnalysisBroken, opname, walk, walk_scope, unparse
from pyan.model import ClassInfo, FuncInfo, Module

INFO = {
    "level": "other",
    "technique": "name, attribute and call-signature resolution over the whole program with class-hierarchy and field types",
    "note": "An attribute of a receiver of unknown type is only required to exist on some class of the program or of the standard library; "
            "receivers whose types can be inferred (self, fields of the data model, constructed objects) are checked against those types.",
    "explanation": "Every name, every attribute read and every call in the non-test sources is resolved: names against their scopes, attributes of self "
                   "against every concrete class that inherits the method, attributes of modules, classes and inferred receivers against what those "
                   "define, and calls against the signature of every target they can have.",
    "assumptions": ["fields hold what the data-model table says"],
}

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(ctx):
    R = Resolver(ctx)
    ctx.rule("name: every name read is bound in an enclosing scope, in its module or is a built-in")
    ctx.rule("self: every attribute read from self exists on every concrete class that runs the method")
    ctx.rule("field: every field a method reads from self is set by the constructor (unless its presence is tested or the same method sets it)")
    ctx.rule("static: every attribute of a module or class exists there")
    ctx.rule("typed: every attribute of a receiver whose possible classes are known exists on one of them")
    ctx.rule("some: every attribute name exists on something")
    ctx.rule("arity: every call with known targets supplies an acceptable number of arguments and only known keywords")
    R.go()
    ctx.floor("name", 5000)
    ctx.floor("self", 1500)
    ctx.floor("field", 2000)
    ctx.floor("static", 800)
    ctx.floor("typed", 500)
    ctx.floor("arity", 1500)


class Scope(object):
    def __init__(self, names, outer):
        self.names, self.outer = names, outer

    def has(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return True
            s = s.outer
        return False


ALWAYS = {"__class__", "__dict__", "__doc__", "__name__", "__module__", "__file__", "__path__", "__init__", "__new__", "__eq__", "__hash__", "__repr__",
          "__str__", "__setattr__", "__getattribute__", "__bases__", "__mro__", "__subclasses__"}


def scope_local(fi, name):
    while fi is not None:
        if name in fi.params or any(x.t == "Name" and x.id == name and x.ctx == "Store" for x in walk(fi.node)) or any(
                x.t == "ExceptHandler" and x.get("name") is not None and (x.name == name or getattr(x.name, "id", None) == name) for x in walk(fi.node)):
            return True
        fi = fi.outer
    return False


class Resolver(object):
    def __init__(self, ctx):
        self.ctx, self.prog, self.types = ctx, ctx.prog, ctx.types
        with open(os.path.join(HERE, "pyan", "stdlib27.json")) as fh:
            self.std = json.load(fh)
        self.builtins = set(self.std["builtins"]) | {"__name__", "__file__", "__doc__", "__path__", "__package__"}
        self.stores = {}        # class -> attributes assigned through self in its own methods
        self.loose = set()      # attributes assigned on something else
        for c in self.prog.classes:
            s = set()
            for fi in self.prog.functions:
                if fi.cls is c and self.top(fi).params and fi.kind != "static":
                    me = self.top(fi).params[0]
                    for n in walk(fi.node):
                        if n.t == "Attribute" and n.ctx in ("Store", "Param", "AugStore") and n.value.t == "Name" and n.value.id == me:
                            s.add(n.attr)
            self.stores[c] = s
        for m in self.prog.modules.values():
            for n in walk(m.tree):
                if n.t == "Attribute" and n.ctx in ("Store", "AugStore"):
                    self.loose.add(n.attr)
        self.rets = {}
        self.own = set().union(*[self.stores[c] | set(c.assigns) for c in self.prog.classes])
        self.anyattr = set(self.std["any"]) | self.loose | ALWAYS
        for c in self.prog.classes:
            self.anyattr |= set(c.methods) | set(c.assigns) | set(c.nested)
        for m in self.prog.modules.values():
            self.anyattr |= set(m.functions) | set(m.classes) | set(m.assigns) | set(m.imports)
        for ms in self.std["mods"].values():
            self.anyattr |= set(ms)
        self._attrs = {}
        self._est = {}

    @staticmethod
    def top(fi):
        while fi.outer is not None:
            fi = fi.outer
        return fi

    def attrs(self, c):
        """attributes of instances of c (None: inherits from outside)"""
        if c not in self._attrs:
            r = set(ALWAYS)
            for x in c.mro:
                r |= set(x.methods) | set(x.assigns) | set(x.nested) | self.stores[x]
                for b in x.extbases:
                    if b in self.std["types"]:
                        r |= set(self.std["types"][b])
                    elif b != "object":
                        r = None
                        break
                if r is None:
                    break
            self._attrs[c] = r
        return self._attrs[c]

    def concrete(self, fi):
        """classes whose instances run this method"""
        top = self.top(fi)
        cls = top.cls
        r = []
        for c in cls.allsubs():
            f = c.find(top.name)
            if f is top:
                r.append(c)
            elif f is not None and any(x in c.mro and self.supers(x, top.name) for x in c.mro[:c.mro.index(cls)]):
                r.append(c)
        leaves = [c for c in r if not c.subs]
        return leaves or r

    def supers(self, c, name):
        f = c.methods.get(name)
        return f is not None and any(n.t == "Call" and n.func.t == "Name" and n.func.id == "super" for n in walk(f.node))

    # ---------------------------------------------------------- established fields
    def established(self, c):
        """attributes an instance of c has once it is constructed"""
        if c in self._est:
            return self._est[c]
        r = set()
        for x in c.mro:
            r |= set(x.methods) | set(x.assigns) | set(x.nested)
        seen = set()
        todo = [c.find("__init__")] if c.find("__init__") is not None else []
        while todo:
            f = todo.pop()
            if f in seen or f is None or f.kind == "static" or not f.params:
                continue
            seen.add(f)
            me = f.params[0]
            for n in walk(f.node):
                if n.t == "Attribute" and n.value.t == "Name" and n.value.id == me:
                    if n.ctx in ("Store", "Param"):
                        r.add(n.attr)
                    g = c.find(n.attr)
                    if g is not None and g.kind in ("method", "property"):
                        todo.append(g)
                elif n.t == "Call" and n.func.t == "Attribute" and f.cls is not None:
                    v = n.func.value
                    if v.t == "Call" and v.func.t == "Name" and v.func.id == "super" and len(v.args) == 2:
                        k = self.static(v.args[0], f.module, None)
                        if isinstance(k, ClassInfo) and k in c.mro:
                            for x in c.after(k):
                                if n.func.attr in x.methods:
                                    todo.append(x.methods[n.func.attr])
                                    break
                    else:
                        k = self.static(v, f.module, None)
                        if isinstance(k, ClassInfo) and k in c.mro:
                            g = k.find(n.func.attr)
                            if g is not None and g.kind == "method":
                                todo.append(g)
                elif n.t == "Call" and n.func.t == "Name" and n.func.id == "setattr":
                    r = None
                    break
            if r is None:
                break
        if any(b != "object" for x in c.mro for b in x.extbases):
            r = None
        self._est[c] = r
        return r

    def fields(self):
        for c in sorted(self.prog.classes, key=lambda c: c.full):
            if c.subs:
                continue
            est = self.established(c)
            if est is None:
                continue
            optional = {n.args[1].s for x in c.mro for f in x.methods.values() for n in walk(f.node)
                        if n.t == "Call" and n.func.t == "Name" and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and n.args[1].t == "Str"}
            for x in c.mro:
                for name, f in sorted(x.methods.items()):
                    if f.kind not in ("method", "property") or not f.params:
                        continue
                    me = f.params[0]
                    names = {}
                    here = set()
                    for n in walk(f.node):
                        if n.t == "Attribute" and n.value.t == "Name" and n.value.id == me and n.ctx == "Store":
                            here.add(n.attr)
                        if n.t == "Attribute" and n.value.t == "Name" and n.value.id == me and n.ctx in ("Load", "AugLoad", "AugStore"):
                            if not self.off(n, c, me) or n.attr not in names:
                                names[n.attr] = n
                    for a, n in sorted(names.items()):
                        if a in ALWAYS or a in optional or a in here or self.lookup(c, a) is False or self.off(n, c, me):
                            continue
                        self.ctx.oblige(a in est, "field", "%s|%s|%s" % (f.full, c.name, a), self.where(f.module, n, f.cls, f),
                                        "the constructor of %s does not set the field %s" % (c.name, a))

    def off(self, n, c, me):
        """the read is under a condition on a class constant that is false on c"""
        def flag(t):
            if t.t == "BoolOp" and opname(t.op) == "And":
                return any(flag(v) for v in t.f["values"])
            if t.t == "Attribute" and t.value.t == "Name" and t.value.id == me:
                v = next((x.assigns[t.attr] for x in c.mro if t.attr in x.assigns), None)
                return getattr(v, "t", None) == "Name" and v.id in ("False", "None")
            return False
        x = n
        while x is not None and x.t != "FunctionDef":
            p = x.parent
            if p is not None:
                if p.t == "If" and x in p.body and flag(p.test) or p.t == "IfExp" and x is p.body and flag(p.test):
                    return True
                if p.t == "BoolOp" and opname(p.op) == "And" and any(flag(v) for v in p.f["values"][:p.f["values"].index(x)]):
                    return True
            x = p
        return False

    # ---------------------------------------------------------------- scopes
    def go(self):
        self.fields()
        for name, m in sorted(self.prog.modules.items()):
            g = Scope(self.bound(m.tree.body) | self.stars(m) | self.builtins, None)
            self.body(m.tree.body, g, m, None, None)

    def stars(self, m):
        r = set()
        for b in m.star:
            mod = self.prog.modules.get(b)
            if mod is not None:
                r |= self.bound(mod.tree.body) | self.stars(mod)
            else:
                r |= set(self.std["mods"].get(b, ()))
        return r

    def bound(self, body):
        r = set()
        st = list(body)
        while st:
            n = st.pop()
            if n.t in ("FunctionDef", "ClassDef"):
                r.add(n.name)
                st += list(n.get("decorator_list") or [])
                continue
            if n.t == "Lambda" or n.t == "GeneratorExp":
                continue
            if n.t in ("Import", "ImportFrom"):
                for a in n.names:
                    r.add((a.asname or a.name).split(".")[0])
            elif n.t == "Name" and n.ctx in ("Store", "Param", "AugStore", "Del"):
                r.add(n.id)
            elif n.t == "Global":
                r |= set(n.names)
            elif n.t == "ExceptHandler" and n.get("name") is not None and isinstance(n.name, str):
                r.add(n.name)
            st += front.children(n)
        return r

    def body(self, body, scope, m, cls, fi):
        for n in body:
            self.visit(n, scope, m, cls, fi)

    def visit(self, n, scope, m, cls, fi):
        if n.t == "FunctionDef" or n.t == "Lambda":
            for d in list(n.args.defaults or []) + list(n.get("decorator_list") or []):
                self.visit(d, scope, m, cls, fi)
            f = self.prog.fn_of_node.get(n) or self.prog.fn_for(n, m, cls if fi is None else fi.cls, fi)
            self.ctx.used(f)
            s = scope
            if cls is not None and fi is None:
                s = scope.outer         # methods do not see the class scope
            names = set()
            for p in n.args.args or []:
                for x in walk(p):
                    if x.t == "Name":
                        names.add(x.id)
            for k in ("vararg", "kwarg"):
                if n.args.get(k):
                    names.add(n.args.get(k))
            b = n.body if isinstance(n.body, list) else [n.body]
            self.body(b, Scope(names | self.bound(b), s), m, cls, f)
            return
        if n.t == "ClassDef":
            for d in list(n.bases or []) + list(n.get("decorator_list") or []):
                self.visit(d, scope, m, cls, fi)
            c = self.prog.cls_of_node.get(n)
            self.body(n.body, Scope(self.bound(n.body), scope), m, c, None)
            return
        if n.t == "GeneratorExp":
            names = set()
            for g in n.generators:
                names |= self.bound([g.target])
            scope = Scope(names, scope)
        if n.t == "Name" and n.ctx == "Load":
            self.ctx.oblige(scope.has(n.id), "name", "%s|%s" % (self.at(m, cls, fi), n.id), self.where(m, n, cls, fi),
                            "the name %s is not defined" % n.id)
        elif n.t == "Attribute" and n.ctx in ("Load", "AugLoad", "AugStore"):
            self.attribute(n, m, cls, fi)
        elif n.t == "Attribute" and n.ctx == "Store" and not self.is_self(n.value, fi):
            t = self.ty(n.value, m, fi)
            if self.static(n.value, m, fi) is None:
                ls = {self.lookup(c, n.attr) for c in t or () if c != "None"}
                known = {True} & ls or None in ls if ls else n.attr in self.own or not (n.attr[:1] == "m" and n.attr[1:2].isupper())
                self.ctx.oblige(known, "typed" if ls else "some", "%s|%s=" % (self.at(m, cls, fi), unparse(n)), self.where(m, n, cls, fi),
                                "%s is assigned but is not a field" % unparse(n))
        elif n.t == "Call":
            self.call(n, m, cls, fi)
        it = n.iter if n.t in ("For", "comprehension") else n.value if n.t == "Subscript" else n.args[0] if (
            n.t == "Call" and n.func.t == "Name" and n.func.id == "len" and n.args) else None
        if it is not None and it.t == "Name" and not scope_local(fi, it.id) and it.id in self.builtins and scope.has(it.id):
            self.ctx.oblige(it.id in self.bound(m.tree.body) or it.id.startswith("__"), "name", "%s|in %s" % (self.at(m, cls, fi), it.id),
                            self.where(m, n, cls, fi), "the built-in %s is used as a collection" % it.id)
        elif n.t == "Subscript" and n.ctx in ("Store", "Del", "AugStore"):
            t = self.ty(n.value, m, fi)
            fixed = bool(t) and all(isinstance(x, tuple) and x[0] == "tuple" or x == "str" for x in t)
            self.ctx.oblige(not fixed, "typed", "%s|%s" % (self.at(m, cls, fi), unparse(n)), self.where(m, n, cls, fi),
                            "%s is a tuple or string, whose items cannot be assigned" % unparse(n.value))
        elif n.t == "Raise":
            e = n.get("type")
            if e is not None and e.t == "Name" and not scope_local(fi, e.id):
                s = self.prog.resolve(m, e.id)
                ok = isinstance(s, ClassInfo) or s is not None and not isinstance(s, (FuncInfo, Module)) or e.id in self.std["types"] and e.id[-1:] != "d"
                self.ctx.oblige(ok and e.id != "NotImplemented", "static", "%s|raise %s" % (self.at(m, cls, fi), e.id), self.where(m, n, cls, fi),
                                "%s is not an exception" % e.id)
        for x in front.children(n):
            self.visit(x, scope, m, cls, fi)

    def at(self, m, cls, fi):
        return fi.full if fi is not None else m.name + (":" + cls.name if cls is not None else "")

    def where(self, m, n, cls, fi):
        x = n
        return "%s:%s %s" % (m.rel, getattr(x, "ln", "?"), self.at(m, cls, fi))

    # ------------------------------------------------------------- types
    def is_self(self, e, fi):
        if e.t != "Name" or fi is None:
            return False
        t = self.top(fi)
        if t.cls is None or t.kind == "static" or not t.params:
            return False
        x = fi
        while x is not t:
            if e.id in x.params:
                return False
            x = x.outer
        return e.id == t.params[0] and not any(n.t == "Name" and n.id == e.id and n.ctx == "Store" for n in walk(t.node))

    def static(self, e, m, fi):
        """module / class / function named by an expression, unless a local hides it"""
        root = e
        while root.t == "Attribute":
            root = root.value
        if root.t != "Name":
            return None
        x = fi
        while x is not None:
            if root.id in x.params or root.id in self.bound(x.node.body if isinstance(x.node.body, list) else [x.node.body]):
                return None
            x = x.outer
        if fi is not None and any(root.id in (g.params) for g in [self.top(fi)]):
            return None
        return self.prog.resolve_expr(m, e)

    def spec(self, t):
        """data-model type -> set of classes / type names, or None"""
        if t is None:
            return None
        if isinstance(t, ClassInfo):
            return {t}
        if isinstance(t, str):
            return None if t == "any" else {t}
        if isinstance(t, list):
            r = set()
            for x in t:
                s = self.spec(x)
                if s is None:
                    return None
                r |= s
            return r
        if isinstance(t, tuple):
            if t[0] == "oneof":
                return self.spec(list(t[1:]))
            if t[0] == "obj":
                return None
            return {t}
        return None

    def elem(self, t, what="elem"):
        r = set()
        for x in t or ():
            if isinstance(x, tuple) and x[0] in ("list", "set") and len(x) == 2:
                s = self.spec(x[1])
            elif isinstance(x, tuple) and x[0] == "dict" and len(x) == 3:
                s = self.spec(x[1] if what == "elem" else x[2])
            elif x == "str":
                s = {"str"}
            elif x == "None":
                s = set()
            else:
                s = None
            if s is None:
                return None
            r |= s
        return r

    def ty(self, e, m, fi, depth=4):
        """possible types of an expression: set of ClassInfo / 'str' 'int' ... / container specs; None = unknown"""
        if depth <= 0 or e is None:
            return None
        if e.t == "Str":
            return {"str"}
        if e.t == "Num":
            return {"int"} if isinstance(e.n, int) else {"float"}
        if e.t in ("List", "ListComp"):
            return {("list", "any")}
        if e.t in ("Dict", "DictComp"):
            return {("dict", "any", "any")}
        if e.t == "Name":
            if e.id == "None":
                return {"None"}
            if e.id in ("True", "False"):
                return {"bool"}
            if self.is_self(e, fi):
                t = self.top(fi)
                return set(self.concrete(fi)) if t.kind in ("method", "property") else None
            return self.local(e.id, m, fi, depth)
        if e.t == "Attribute":
            b = self.ty(e.value, m, fi, depth - 1)
            if not b:
                return None
            r = set()
            for c in b:
                if c == "None":
                    continue
                if not isinstance(c, ClassInfo):
                    return None
                f = c.find(e.attr)
                if f is not None and f.kind != "property":
                    return None
                if f is not None:
                    s = self.returns(f, c, depth - 1)
                else:
                    s = self.spec(self.types(c, e.attr))
                if s is None:
                    return None
                r |= s
            return r
        if e.t == "Subscript":
            b = self.ty(e.value, m, fi, depth - 1)
            if b and e.slice.t == "Index":
                r = self.elem(b, "value")
                return r
            return None
        if e.t == "IfExp":
            a, b = self.ty(e.body, m, fi, depth - 1), self.ty(e.orelse, m, fi, depth - 1)
            return None if a is None or b is None else a | b
        if e.t == "Call":
            s = self.static(e.func, m, fi)
            if isinstance(s, ClassInfo):
                return {s}
            if isinstance(s, FuncInfo):
                if e.func.t == "Attribute" and s.kind == "class":
                    k = self.static(e.func.value, m, fi)
                    return self.returns(s, k, depth - 1) if isinstance(k, ClassInfo) else None
                return self.returns(s, None, depth - 1) if s.kind in ("plain", "static") else None
            if isinstance(s, tuple) and s[0] == "ext" and s[1] in ("cStringIO.StringIO", "StringIO.StringIO"):
                return {"StringIO"}
            if e.func.t == "Name" and e.func.id in ("str", "int", "float", "len", "list", "dict"):
                if s is None:
                    return {{"len": "int", "list": ("list", "any"), "dict": ("dict", "any", "any")}.get(e.func.id, e.func.id)}
            if e.func.t == "Attribute":
                b = self.ty(e.func.value, m, fi, depth - 1)
                if b:
                    r = set()
                    for c in b:
                        if c == "None":
                            continue
                        if not isinstance(c, ClassInfo):
                            if isinstance(c, tuple) and c[0] == "dict" and e.func.attr in ("get", "itervalues", "values", "pop"):
                                v = self.elem({c}, "value")
                                if v is None:
                                    return None
                                if e.func.attr == "get":
                                    d = self.ty(e.args[1], m, fi, depth - 1) if len(e.args) > 1 else {"None"}
                                    if d is None:
                                        return None
                                    r |= v | d
                                    continue
                                if e.func.attr == "pop":
                                    return None
                                r.add(("list", ["None"]) if not v else ("list", list(v)))
                                continue
                            return None
                        f = c.find(e.func.attr)
                        s = self.returns(f, c, depth - 1) if f is not None else None
                        if s is None:
                            return None
                        r |= s
                    return r
        return None

    def returns(self, f, c, depth):
        k = (f, c)
        if k in self.rets:
            return self.rets[k]
        self.rets[k] = None
        if depth <= 0 or f.lambda_:
            del self.rets[k]
            return None
        r = set()
        rs = [n for n in walk_scope(f.node) if n.t == "Return"]
        if any(n.t == "Yield" for n in walk_scope(f.node)) or not rs:
            return None
        for n in rs:
            if n.get("value") is None:
                r.add("None")
                continue
            if f.kind == "class" and c is not None and n.value.t == "Call" and n.value.func.t == "Name" and n.value.func.id == f.params[0]:
                r.add(c)
                continue
            if f.kind == "class" and c is not None and n.value.t == "Name":
                t = self.local(n.value.id, f.module, f, depth, c)
            else:
                t = self.ty(n.value, f.module, f, depth)
            if t is None:
                return None
            r |= t
        # a method of a base class: the types seen from the class at hand
        self.rets[k] = r
        return r

    def local(self, name, m, fi, depth, cls=None):
        if fi is None or name in fi.params:
            return None
        r = set()
        found = False
        for n in walk_scope(fi.node):
            if n.t == "Assign":
                for t in n.targets:
                    if t.t == "Name" and t.id == name:
                        if cls is not None and n.value.t == "Call" and n.value.func.t == "Name" and fi.params and n.value.func.id == fi.params[0]:
                            r.add(cls)
                            found = True
                            continue
                        v = self.ty(n.value, m, fi, depth - 1)
                        if v is None:
                            return None
                        r |= v
                        found = True
                    elif t.t in ("Tuple", "List") and any(x.t == "Name" and x.id == name for x in walk(t)):
                        return None
            elif n.t == "For" and any(x.t == "Name" and x.id == name for x in walk(n.target)):
                if n.target.t != "Name":
                    return None
                v = self.elem(self.ty(n.iter, m, fi, depth - 1))
                if v is None:
                    return None
                r |= v
                found = True
            elif n.t in ("With", "ExceptHandler", "AugAssign", "comprehension", "Global", "Import", "ImportFrom"):
                if n.t == "AugAssign" and not (n.target.t == "Name" and n.target.id == name):
                    continue
                if any(x.t == "Name" and x.id == name and x.ctx in ("Store", "AugStore") for x in walk(n) if x.t == "Name") and n.t != "ExceptHandler":
                    return None
                if n.t == "ExceptHandler" and n.get("name") is not None and (n.name == name or getattr(n.name, "id", None) == name):
                    return None
                if n.t == "Global" and name in n.names:
                    return None
        return r if found else None

    # ------------------------------------------------------- attributes
    def tname(self, c):
        return c.name if isinstance(c, ClassInfo) else c[0] if isinstance(c, tuple) else c

    def lookup(self, c, a):
        """does the type have the attribute? None = unknown"""
        if isinstance(c, ClassInfo):
            s = self.attrs(c)
            return None if s is None else a in s
        n = c[0] if isinstance(c, tuple) else c
        if n == "None":
            return False
        if n == "StringIO":
            return a in ("write", "getvalue", "close", "read", "readline", "readlines", "seek", "tell", "truncate", "flush", "next", "reset", "writelines", "isatty")
        if n in self.std["types"]:
            return a in self.std["types"][n]
        return None

    def hidden(self, n):
        """the read is guarded by hasattr / a handler for AttributeError"""
        x = n
        while x is not None and x.t not in ("FunctionDef", "Module"):
            p = x.parent
            if p is not None and p.t in ("If", "IfExp", "BoolOp", "While"):
                if any(y.t == "Call" and y.func.t == "Name" and y.func.id == "hasattr" for y in walk(p.test if p.t != "BoolOp" else p)):
                    return True
            x = p
        return False

    def attribute(self, n, m, cls, fi):
        a = n.attr
        key = "%s|%s" % (self.at(m, cls, fi), unparse(n))
        where = self.where(m, n, cls, fi)
        if self.hidden(n):
            return
        if self.is_self(n.value, fi):
            t = self.top(fi)
            cs = self.concrete(fi) if t.kind in ("method", "property") else [c for c in t.cls.allsubs()]
            bad = [c for c in cs if self.lookup(c, a) is False]
            if t.kind == "class":
                bad = bad if len(bad) == len(cs) else []
            self.ctx.oblige(not bad, "self", key, where, "%s has no attribute %s" % (", ".join(sorted(self.tname(c) for c in bad)[:4]), a))
            return
        if n.value.t == "Call" and n.value.func.t == "Name" and n.value.func.id == "super" and len(n.value.args) == 2 and fi is not None:
            k = self.static(n.value.args[0], m, None)
            t = self.top(fi)
            if isinstance(k, ClassInfo) and t.cls is not None:
                bad = []
                for c in (self.concrete(fi) if t.kind != "class" else t.cls.allsubs()):
                    if k not in c.mro:
                        bad.append(c)
                    elif not any(a in x.methods or a in x.assigns for x in c.after(k)) and a not in ALWAYS and all(self.attrs(x) is not None for x in c.mro):
                        bad.append(c)
                self.ctx.oblige(not bad, "self", key, where, "no class after %s defines %s (for %s)" % (k.name, a, ", ".join(sorted(c.name for c in bad)[:4])))
                return
        s = self.static(n.value, m, fi)
        if isinstance(s, Module):
            r = self.prog.resolve(s, a)
            sub = self.prog.modules.get(s.name + "." + a)
            self.ctx.oblige(r is not None or sub is not None or a in ALWAYS or a in self.stars(s), "static", key, where,
                            "module %s has no %s" % (s.name, a))
            return
        if isinstance(s, ClassInfo):
            known = set().union(*[set(x.methods) | set(x.assigns) | set(x.nested) for c in [s] for x in c.mro])
            more = self.loose if any(x.extbases != ["object"] and x.extbases for x in s.mro) else {
                t.attr for mm in self.prog.modules.values() for t in walk(mm.tree)
                if t.t == "Attribute" and t.ctx == "Store" and self.prog.resolve_expr(mm, t.value) is s} if a not in known else set()
            if any(b not in ("object",) and b not in self.std["types"] for x in s.mro for b in x.extbases):
                return
            self.ctx.oblige(a in known or a in more or a in ALWAYS, "static", key, where, "class %s has no %s" % (s.name, a))
            return
        if isinstance(s, tuple) and s[0] == "ext":
            d = self.std["mods"].get(s[1])
            if d is not None:
                self.ctx.oblige(a in d or a in ALWAYS or s[1] + "." + a in self.std["mods"], "static", key, where, "module %s has no %s" % (s[1], a))
            return
        t = self.ty(n.value, m, fi)
        if t and t - {"None"}:
            ls = {self.lookup(c, a) for c in t if c != "None"}
            if None not in ls:
                self.ctx.oblige(True in ls, "typed", key, where, "%s is always %s, which has no %s" % (
                    unparse(n.value), " or ".join(sorted(self.tname(c) for c in t if c != "None")[:4]), a))
                return
        self.ctx.oblige(a in self.anyattr, "some", key, where, "nothing has an attribute %s" % a)

    # ------------------------------------------------------------ calls
    def fits(self, f, n, bound):
        """None or what is wrong with calling f with the arguments of n"""
        if n.get("starargs") is not None or n.get("kwargs") is not None:
            return None
        if "<tuple>" in f.params:
            return None
        params = f.params[1:] if bound else f.params
        npos = len(n.args)
        kws = [k.arg for k in n.keywords or []]
        if npos > len(params) and not f.vararg:
            return "takes %d arguments, %d given" % (len(params), npos)
        for k in kws:
            if k not in params and not f.kwarg:
                return "has no parameter %s" % k
            if k in params[:npos]:
                return "gets %s twice" % k
        need = params[:len(params) - len(f.defaults)] if len(f.defaults) <= len(params) else []
        missing = [p for p in need[npos:] if p not in kws]
        if missing:
            return "lacks %s" % ", ".join(missing)
        return None

    def call(self, n, m, cls, fi):
        f = n.func
        key = "%s|%s" % (self.at(m, cls, fi), unparse(n)[:120])
        where = self.where(m, n, cls, fi)
        targets = []            # (what, problem)
        every = False
        if f.t == "Attribute":
            if self.is_self(f.value, fi):
                t = self.top(fi)
                every = True
                for c in (self.concrete(fi) if t.kind != "class" else t.cls.allsubs()):
                    g = c.find(f.attr)
                    if g is not None and g.kind != "property" and (t.kind != "class" or g.kind != "method"):
                        targets.append((g.full, self.fits(g, n, g.kind in ("method", "class"))))
            elif f.value.t == "Call" and f.value.func.t == "Name" and f.value.func.id == "super" and len(f.value.args) == 2 and fi is not None:
                k = self.static(f.value.args[0], m, None)
                t = self.top(fi)
                every = True
                if isinstance(k, ClassInfo) and t.cls is not None:
                    for c in (self.concrete(fi) if t.kind != "class" else t.cls.allsubs()):
                        for x in c.after(k):
                            if f.attr in x.methods:
                                g = x.methods[f.attr]
                                targets.append((g.full, self.fits(g, n, g.kind in ("method", "class"))))
                                break
            else:
                s = self.static(f, m, fi)
                if isinstance(s, FuncInfo):
                    every = True
                    k = self.static(f.value, m, fi)
                    targets.append((s.full, self.fits(s, n, s.kind == "class" and isinstance(k, ClassInfo))))
                elif isinstance(s, ClassInfo):
                    every = True
                    targets += self.ctor(s, n)
                elif s is None:
                    t = self.ty(f.value, m, fi)
                    if t and all(isinstance(c, ClassInfo) or c == "None" for c in t):
                        for c in t:
                            if c == "None":
                                continue
                            g = c.find(f.attr)
                            if g is None or g.kind == "property":
                                if self.lookup(c, f.attr) is not False:
                                    targets.append(("?", None))
                                continue
                            targets.append((g.full, self.fits(g, n, g.kind in ("method", "class"))))
                    elif f.attr not in self.std["any"] and f.attr not in self.loose:
                        for c in self.prog.classes:
                            if f.attr in c.methods:
                                g = c.methods[f.attr]
                                targets.append((g.full, self.fits(g, n, g.kind in ("method", "class"))))
                            elif f.attr in c.assigns or f.attr in c.nested:
                                targets.append(("?", None))
                        for mm in self.prog.modules.values():
                            if f.attr in mm.functions or f.attr in mm.classes:
                                targets.append(("?", None))
        elif f.t == "Name":
            loc = fi
            while loc is not None and f.id not in loc.nested:
                loc = loc.outer
            if loc is not None:
                targets.append((loc.nested[f.id].full, self.fits(loc.nested[f.id], n, False)))
                every = True
            else:
                s = self.static(f, m, fi)
                every = True
                if isinstance(s, FuncInfo):
                    targets.append((s.full, self.fits(s, n, False)))
                elif isinstance(s, ClassInfo):
                    targets += self.ctor(s, n)
        s = self.static(f, m, fi)
        if isinstance(s, Module) or isinstance(s, tuple) and s[0] == "ext" and s[1] in self.std["mods"]:
            self.ctx.oblige(False, "static", key, where, "a module is called as a function")
        if not targets:
            return
        bad = [(w, p) for w, p in targets if p]
        fail = bool(bad) and (every or len(bad) == len(targets))
        self.ctx.oblige(not fail, "arity", key, where, "%s" % "; ".join(sorted({"%s %s" % (w, p) for w, p in bad})[:2]))

    def ctor(self, c, n):
        g = c.find("__init__")
        if g is not None:
            return [(g.full, self.fits(g, n, True))]
        if any(b != "object" for x in c.mro for b in x.extbases):
            return []
        if n.args or n.keywords:
            return [(c.full, "takes no arguments")]
        return [(c.full, None)]
