"""Program model: modules, imports, classes (with MRO) and functions."""
from . import front
from .front import AnalysisBroken, Node


class FuncInfo(object):
    def __init__(self, name, node, module, cls=None, kind="plain", outer=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind          # plain / method / static / class / property
        self.outer = outer
        self.lambda_ = node.t == "Lambda"
        a = node.args
        self.params = []
        for p in a.args or []:
            if p.t == "Name":
                self.params.append(p.id)
            elif p.t == "Tuple":
                self.params.append("<tuple>")
            else:
                self.params.append(p.get("arg") or p.get("id") or "?")
        self.defaults = list(a.defaults or [])
        self.vararg = a.get("vararg")
        self.kwarg = a.get("kwarg")
        self.nested = {}

    @property
    def qual(self):
        if self.cls:
            return "%s.%s" % (self.cls.name, self.name)
        return self.name

    @property
    def full(self):
        return "%s:%s" % (self.module.name, self.qual)

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.ln)

    @property
    def body(self):
        return self.node.body

    def __repr__(self):
        return "<F %s>" % self.full


class ClassInfo(object):
    def __init__(self, name, node, module, outer=None):
        self.name = name if outer is None else "%s.%s" % (outer.name, name)
        self.short = name
        self.node = node
        self.module = module
        self.outer = outer
        self.bases = []
        self.extbases = []
        self.methods = {}
        self.assigns = {}     # class level name -> value node (last simple assignment) or None
        self.nested = {}
        self.subs = []
        self._mro = None

    @property
    def full(self):
        return "%s:%s" % (self.module.name, self.name)

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name):
        """First method of that name along the MRO."""
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.assigns:
                return ("assign", c, c.assigns[name])
            if name in c.nested:
                return c.nested[name]
        return None

    def after(self, cls):
        m = self.mro
        if cls in m:
            return m[m.index(cls) + 1:]
        return []

    def issub(self, other):
        return other in self.mro

    def allsubs(self):
        r = [self]
        for s in self.subs:
            for x in s.allsubs():
                if x not in r:
                    r.append(x)
        return r

    def __repr__(self):
        return "<C %s>" % self.full


def _c3(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    res = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisBroken("no MRO for %s" % c.full)
        res.append(h)
        for s in seqs:
            if s and s[0] is h:
                del s[0]


class Module(object):
    def __init__(self, name, rel, tree):
        self.name = name
        self.rel = rel
        self.tree = tree
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> ("mod", dotted) / ("from", dotted, name)
        self.assigns = {}
        self.star = []
        self.is_pkg = rel.endswith("__init__.py")

    def __repr__(self):
        return "<M %s>" % self.name


class Program(object):
    def __init__(self, repo=None, trees=None):
        self.trees = trees if trees is not None else front.load(repo)
        self.modules = {}
        self.functions = []
        self.classes = []
        self.fn_of_node = {}
        self.cls_of_node = {}
        self.by_method = {}
        for rel, tree in sorted(self.trees.items()):
            name = rel[:-3].replace("/", ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            self.modules[name] = Module(name, "src/" + rel, tree)
        for m in list(self.modules.values()):
            self._scan(m, m.tree.body, None)
        for m in self.modules.values():
            for c in m.classes.values():
                self._bases(c)
        for c in self.classes:
            for b in c.bases:
                b.subs.append(c)
        for c in self.classes:
            c.mro

    # -- building
    def _scan(self, m, body, cls):
        for s in body:
            if s.t == "FunctionDef":
                kind = "plain" if cls is None else "method"
                for d in s.get("decorator_list") or []:
                    if d.t == "Name" and d.id in ("staticmethod", "classmethod", "property"):
                        kind = {"staticmethod": "static", "classmethod": "class", "property": "property"}[d.id]
                fi = FuncInfo(s.name, s, m, cls, kind)
                self._reg_fn(fi)
                if cls is None:
                    m.functions[s.name] = fi
                else:
                    cls.methods[s.name] = fi
            elif s.t == "ClassDef":
                ci = ClassInfo(s.name, s, m, cls)
                self.classes.append(ci)
                self.cls_of_node[s] = ci
                if cls is None:
                    m.classes[s.name] = ci
                else:
                    cls.nested[s.name] = ci
                self._scan(m, s.body, ci)
            elif s.t in ("Import", "ImportFrom"):
                self._imp(m, s)
            elif s.t == "Assign":
                tgt = m.assigns if cls is None else cls.assigns
                for t in s.targets:
                    for n in front.walk(t):
                        if n.t == "Name" and n.get("ctx") in ("Store", None):
                            tgt[n.id] = s.value if t.t == "Name" else None
                            if (cls is not None and t.t == "Name" and s.value.t == "Call" and s.value.func.t == "Name" and
                                    s.value.func.id in ("staticmethod", "classmethod") and s.value.args and
                                    s.value.args[0].t == "Name" and s.value.args[0].id in cls.methods):
                                cls.methods[s.value.args[0].id].kind = "static" if s.value.func.id == "staticmethod" else "class"
            elif s.t in ("If", "TryExcept", "TryFinally", "For", "While", "With"):
                for k in ("body", "orelse", "finalbody"):
                    self._scan(m, s.get(k) or [], cls)
                for h in s.get("handlers") or []:
                    self._scan(m, h.body, cls)

    def _reg_fn(self, fi):
        self.functions.append(fi)
        self.fn_of_node[fi.node] = fi
        if fi.cls is not None and fi.outer is None:
            self.by_method.setdefault(fi.name, []).append(fi)
        for s in front.walk_scope(fi.node):
            if s.t in ("FunctionDef", "Lambda") and s not in self.fn_of_node:
                nm = s.name if s.t == "FunctionDef" else "<lambda>"
                sub = FuncInfo("%s.%s" % (fi.name, nm), s, fi.module, fi.cls, "plain", fi)
                if s.t == "FunctionDef":
                    fi.nested[s.name] = sub
                self._reg_fn(sub)
            elif s.t == "ClassDef" and s not in self.cls_of_node:
                ci = ClassInfo(s.name, s, fi.module, None)
                self.classes.append(ci)
                self.cls_of_node[s] = ci
                fi.module.classes.setdefault("%s.%s" % (fi.name, s.name), ci)
                self._scan(fi.module, s.body, ci)

    def fn_for(self, node, module, cls=None, outer=None):
        """FuncInfo for a FunctionDef/Lambda node (module-level lambdas included)."""
        fi = self.fn_of_node.get(node)
        if fi is None:
            fi = FuncInfo(node.name if node.t == "FunctionDef" else "<lambda>", node, module, cls, "plain", outer)
            self.fn_of_node[node] = fi
            self.functions.append(fi)
        return fi

    def _imp(self, m, s):
        pkg = m.name if m.is_pkg else m.name.rpartition(".")[0]
        if s.t == "Import":
            for a in s.names:
                nm = a.name
                rel = (pkg + "." + nm) if pkg else nm
                target = rel if rel in self.modules or self._is_pkg(rel) else nm
                if a.asname:
                    m.imports[a.asname] = ("mod", target)
                else:
                    top = nm.split(".")[0]
                    m.imports[top] = ("mod", target if "." not in nm else (target[:len(target) - len(nm)] + top))
        else:
            base = s.module or ""
            if s.get("level"):
                p = m.name if m.is_pkg else pkg
                for _ in range((s.level or 1) - 1):
                    p = p.rpartition(".")[0]
                base = (p + "." + base) if base else p
            else:
                rel = (pkg + "." + base) if pkg else base
                if rel in self.modules and base not in self.modules:
                    base = rel
            for a in s.names:
                if a.name == "*":
                    m.star.append(base)
                else:
                    m.imports[a.asname or a.name] = ("from", base, a.name)

    def _is_pkg(self, n):
        return n in self.modules

    def resolve(self, m, name, seen=()):
        """Resolve a module level name -> ClassInfo / FuncInfo / Module / ("assign", Module, name) / ("ext", dotted) / None."""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            i = m.imports[name]
            if i[0] == "mod":
                return self.modules.get(i[1]) or ("ext", i[1])
            mod = self.modules.get(i[1])
            if mod is not None:
                r = self.resolve(mod, i[2], seen)
                if r is not None:
                    return r
                sub = self.modules.get(i[1] + "." + i[2])
                if sub is not None:
                    return sub
                return None
            sub = self.modules.get(i[1] + "." + i[2])
            return sub or ("ext", i[1] + "." + i[2])
        if name in m.assigns:
            return ("assign", m, name)
        for b in m.star:
            mod = self.modules.get(b)
            if mod is not None:
                r = self.resolve(mod, name, seen)
                if r is not None:
                    return r
        sub = self.modules.get(m.name + "." + name)
        if sub is not None and m.is_pkg:
            return sub
        return None

    def resolve_expr(self, m, e, cls=None):
        """Resolve Name / dotted Attribute used as a static reference."""
        if e.t == "Name":
            return self.resolve(m, e.id)
        if e.t == "Attribute":
            b = self.resolve_expr(m, e.value, cls)
            if isinstance(b, Module):
                return self.resolve(b, e.attr)
            if isinstance(b, ClassInfo):
                return b.find_attr(e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def _bases(self, c):
        for b in c.node.bases or []:
            r = self.resolve_expr(c.module, b)
            if r is None and c.outer is not None and b.t == "Name":
                r = c.outer.nested.get(b.id)
            if isinstance(r, ClassInfo):
                c.bases.append(r)
            else:
                c.extbases.append(front.unparse(b))
        for n in c.nested.values():
            self._bases(n)

    # -- lookup
    def cls(self, name, mod=None):
        """'Class' or 'module:Class' (a class that moved is still found by its unique name)"""
        if ":" in name:
            mod, name = name.split(":")
        r = [c for c in self.classes if c.name == name and (mod is None or c.module.name == mod)]
        if not r:
            r = [c for c in self.classes if c.name == name]
        if len(r) != 1:
            raise AnalysisBroken("class %s%s: %d candidates" % (name, " in " + mod if mod else "", len(r)))
        return r[0]

    def fn(self, full):
        """'module:Class.func' or 'module:func'; methods are looked up along the MRO"""
        for f in self.functions:
            if f.full == full:
                return f
        mod, _, q = full.partition(":")
        if "." in q:
            cn, _, fname = q.rpartition(".")
            f = self.cls(cn, mod).find(fname)
            if f is not None:
                return f
        elif mod in self.modules:
            r = self.resolve(self.modules[mod], q)
            if isinstance(r, FuncInfo):
                return r
        raise AnalysisBroken("function %s not found" % full)

    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s not found" % name)
        return self.modules[name]


if __name__ == "__main__":
    p = Program()
    print(len(p.modules), "modules", len(p.classes), "classes", len(p.functions), "functions")
    for c in p.classes:
        print(c.full, [b.name for b in c.bases], c.extbases, [k for k, v in c.methods.items() if v.kind not in ("method",)])
