"""Abstract interpreter over the Node trees.

A forward, field-sensitive dataflow analysis with inlining of resolved calls.

Values are frozensets of atoms:
  ('k', type, v)        a constant
  ('p', kind, tags)     an unknown primitive of a kind ('int','str','bool','float','any') with provenance tags
  ('o', oid)            a heap object (allocation site, or symbolic input object named by its access path)
  ('cl', C) ('fn', F) ('mod', M) ('bm', F, recv) ('ext', dotted) ('bb', atom, name) ('super', atom, C)

States are joined at control-flow merges, except that states whose client key
differs are kept apart (property-directed trace partitioning).
"""
import os
import time

from . import front
from .front import opname, walk, walk_scope
from .model import ClassInfo, FuncInfo, Module

NONE = ("k", "NoneType", None)
TRUE = ("k", "bool", True)
FALSE = ("k", "bool", False)
BOOL = frozenset([TRUE, FALSE])
MAXATOMS = 40
DEADLINE = time.time() + float(os.environ.get("PYAN_DEADLINE", "800"))      # a check has 900 s
NOTAGS = frozenset()


def K(v):
    if isinstance(v, str):
        return ("k", "str", str(v))
    return ("k", type(v).__name__, v)


def Pr(kind, tags=NOTAGS):
    return ("p", kind, frozenset(tags))


ANY = Pr("any")


def V(*atoms):
    return frozenset(atoms)


VNONE = V(NONE)


def isk(a):
    return a[0] == "k"


def const_of(val):
    """(True, v) if val is exactly one constant"""
    if len(val) == 1:
        a = next(iter(val))
        if a[0] == "k":
            return True, a[2]
    return False, None


def tags_of(val):
    r = set()
    for a in val:
        if a[0] == "p":
            r |= a[2]
    return frozenset(r)


class Obj(object):
    __slots__ = ("kind", "cls", "fields", "elems", "items", "keys", "sym", "multi", "path", "tags", "default", "removed")

    def __init__(self, kind, cls=None, sym=False, path=None, multi=False):
        self.kind = kind        # inst / list / dict / tuple / set / unknown / class / module
        self.cls = cls          # frozenset of ClassInfo or None
        self.fields = {}
        self.elems = frozenset()
        self.items = None       # exact items: list of Val (list/tuple) or dict const->Val (dict)
        self.keys = frozenset()
        self.sym = sym
        self.multi = multi
        self.path = path
        self.tags = NOTAGS
        self.default = None
        self.removed = False

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.cls = self.cls
        o.fields = dict(self.fields)
        o.elems = self.elems
        o.items = self.items.copy() if self.items is not None else None
        o.keys = self.keys
        o.sym = self.sym
        o.multi = self.multi
        o.path = self.path
        o.tags = self.tags
        o.default = self.default
        o.removed = self.removed
        return o

    def same(self, b):
        return self is b or (self.kind == b.kind and self.cls == b.cls and self.fields == b.fields and self.elems == b.elems and
                             self.items == b.items and self.keys == b.keys and self.multi == b.multi and self.tags == b.tags and
                             self.removed == b.removed)


def cap(vals):
    if len(vals) > MAXATOMS:
        keep = [a for a in vals if a[0] != "k"]
        kinds = {a[1] for a in vals if a[0] == "k"}
        r = set(keep)
        for k in kinds:
            r.add(Pr({"int": "int", "str": "str", "bool": "bool", "float": "float"}.get(k, "any")) if k != "NoneType" else NONE)
        return frozenset(r)
    return vals


def join_obj(a, b):
    if a is b or a.same(b):
        return a
    o = a.copy()
    if a.cls != b.cls:
        o.cls = (a.cls | b.cls) if (a.cls is not None and b.cls is not None) else None
    for k, v in b.fields.items():
        if k in o.fields:
            o.fields[k] = cap(o.fields[k] | v)
        else:
            o.fields[k] = v if a.sym else (v | V(("unset",)))
    if not a.sym:
        for k in a.fields:
            if k not in b.fields:
                o.fields[k] = a.fields[k] | V(("unset",))
    if a.items != b.items:
        ia, ib = a.items, b.items
        if isinstance(ia, list) and isinstance(ib, list) and len(ia) == len(ib):
            o.items = [cap(x | y) for x, y in zip(ia, ib)]
            o.elems = cap(a.elems | b.elems)
        else:
            o.items = None
            o.elems = cap(all_elems(a) | all_elems(b))
            o.keys = cap(all_keys(a) | all_keys(b))
    else:
        o.elems = cap(a.elems | b.elems)
        o.keys = cap(a.keys | b.keys)
    o.multi = a.multi or b.multi
    o.tags = a.tags | b.tags
    o.removed = a.removed or b.removed
    return o


def all_elems(o):
    r = o.elems
    if isinstance(o.items, list):
        for v in o.items:
            r = r | v
    elif isinstance(o.items, dict):
        for v in o.items.values():
            r = r | v
    return r


def all_keys(o):
    r = o.keys
    if isinstance(o.items, dict):
        r = r | frozenset(o.items.keys())
    return r


class State(object):
    __slots__ = ("heap", "env", "client", "pc")

    def __init__(self, heap, env=None, client=None, pc=()):
        self.heap = heap
        self.env = env if env is not None else {}
        self.client = client if client is not None else {}
        self.pc = pc

    def fork(self):
        return State(self.heap.copy(), dict(self.env), dict(self.client), self.pc)


class Heap(object):
    """overlay over a frozen base heap"""
    __slots__ = ("base", "over")

    def __init__(self, base, over=None):
        self.base = base
        self.over = over if over is not None else {}

    def copy(self):
        return Heap(self.base, dict(self.over))

    def get(self, oid):
        r = self.over.get(oid)
        return r if r is not None else self.base.get(oid)

    def put(self, oid, obj):
        self.over[oid] = obj

    def __contains__(self, oid):
        return oid in self.over or oid in self.base


def join_client(a, b, rule):
    if a == b:
        return a
    return rule(a, b)


class Outcome(object):
    __slots__ = ("norm", "brk", "cont", "ret", "exc")

    def __init__(self):
        self.norm = []
        self.brk = []
        self.cont = []
        self.ret = []    # (state, val)
        self.exc = []    # (state, excval, node)

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.exc += o.exc


class Policy(object):
    """Client hooks; the default inlines everything resolvable."""
    max_depth = 14
    max_recursion = 1
    max_states = 12
    max_objs = 80
    max_while = 300     # rounds of a decided while loop followed one by one (exact)
    unroll = 70
    loop_iters = 6
    implicit_exc = True
    shared_defaults = False
    exact = False       # nearly constant inputs: separate objects per allocation, loops unrolled while their test is decided

    def key(self, st):
        return None

    def join_client(self, a, b):
        r = dict(a)
        for k, v in b.items():
            if k not in r:
                r[k] = v
            elif r[k] != v:
                if isinstance(v, (frozenset, set)):
                    r[k] = r[k] | v
                elif isinstance(v, bool):
                    r[k] = r[k] or v
                elif isinstance(v, int):
                    r[k] = max(r[k], v)
        return r

    def call(self, ip, st, fi, recv, args, kws, node):
        """Return None to inline, or a list of (state, Val) to replace the call."""
        return None

    def unknown_call(self, ip, st, fval, args, kws, node):
        return None

    def builtin(self, ip, st, name, recv, args, kws, node):
        """Called before a modelled builtin/external; None = default model."""
        return None

    def compare(self, ip, st, op, l, r, node):
        """truth of a comparison, None = default model"""

    def binop(self, ip, st, op, l, r, node):
        """value of a binary operation, None = default model"""

    def loop_key(self, ip, st):
        """states with the same key are joined in loops over collections of unknown size"""
        return self.key(st)

    def write_field(self, ip, st, oid, field, val, node):
        pass

    def read_field(self, ip, st, oid, field, node):
        return None

    def mutate(self, ip, st, oid, how, args, node):
        pass

    def write_static(self, ip, st, owner, field, val, node):
        pass

    def raised(self, ip, st, exc, node):
        pass

    def implicit(self, ip, st, exc, node, sure):
        """a built-in operation may (or surely will) fail; exc is the exception's name or '*'"""

    def distinct(self, ip, st, items, node):
        """the members of a set made of items, or None when it is not known which are equal"""
        return None

    def order(self, items):
        """the order in which a map is walked"""
        return items

    def field_type(self, cls, field, path):
        """Val template for a lazily materialised field, see Interp.make_sym"""
        return None

    def class_level(self, cls, field):
        """instances of cls may lack the field, so that the class attribute of that name is used"""
        return False

    def entered(self, ip, st, fi, node):
        pass

    def leave(self, ip, st, fi, val, node):
        pass

    def branch(self, ip, st, test, truth):
        return True

    def instance(self, ip, st, a, names):
        """isinstance of a primitive whose type may be one of the names"""
        return None

    def truth(self, ip, st, a):
        """truth value of an atom, None = default"""
        return None

    def loop_iter(self, ip, st, node, it):
        """a pass over one element of an unknown sequence starts"""

    def loop_next(self, ip, st, node, how):
        """that pass ends: how is 'next', 'break' or 'return'"""

    def filtered(self, ip, st, node):
        """a comprehension drops an element"""

    def sliced(self, ip, st, a, node):
        """a part of a symbolic sequence is taken"""

    def index(self, ip, st, v):
        """a value used as a position"""
        return v


class Interp(object):
    def __init__(self, prog, policy=None, base=None, types=None):
        self.p = prog
        self.pol = policy or Policy()
        self.base = base if base is not None else {}
        self.hints = {}         # allocation site -> where to look for a free number
        self.live = {}          # list made by iteritems() etc. -> the map it walks
        self.stack = []        # FuncInfo
        self.envs = []         # environments of the callers
        self.frames = []       # (FuncInfo, module, cls)
        self.sites = []        # call nodes
        self.steps = 0
        self.max_steps = 400000
        self.types = types
        self.loading = False
        self.cuts = []
        self.rounds = []        # rounds of the loops over constant tables
        self.generators = {}
        self.unknown = []
        self.inlined = set()

    # ---------------------------------------------------------------- helpers
    def new_state(self):
        return State(Heap(self.base))

    def ctx(self):
        c = tuple(id(n) for n in self.sites[-3:])
        return c + tuple(self.rounds) if self.rounds else c

    def alloc(self, st, kind, node, cls=None, tag=""):
        oid = ("a", id(node) if node is not None else 0, tag, self.ctx())
        if self.pol.exact or self.loading:
            n = 0
            site = oid
            if oid in st.heap:
                n = self.hints.get(site, 0)
                oid = ("a", id(node) if node is not None else 0, (tag, n), self.ctx()) if n else oid
            while oid in st.heap and n < self.pol.max_objs:
                n += 1
                oid = ("a", id(node) if node is not None else 0, (tag, n), self.ctx())
            if n > 40:
                self.hints[site] = n - 40
        if oid in st.heap:
            o = st.heap.get(oid).copy()
            o.multi = True
            # previous contents stay (summary object)
            if o.items is not None and kind != "tuple":
                o.elems = o.elems | all_elems(o)
                o.keys = all_keys(o)
                o.items = None
            st.heap.put(oid, o)
            return oid
        o = Obj(kind, frozenset([cls]) if cls is not None else None)
        o.path = "new %s@%s" % (cls.name if cls else kind, node.ln if node is not None else "?")
        if kind in ("list", "tuple", "set"):
            o.items = [] if kind != "set" else None
        elif kind == "dict":
            o.items = {}
        st.heap.put(oid, o)
        return oid

    def sym(self, st, path, cls=None, kind="inst", multi=False, elems=None, keys=None):
        """A symbolic input object."""
        oid = ("s", path)
        if oid not in st.heap:
            o = Obj(kind, None if cls is None else (frozenset(cls) if not isinstance(cls, ClassInfo) else frozenset([cls])),
                    sym=True, path=path, multi=multi)
            if elems is not None:
                o.elems = elems
            if keys is not None:
                o.keys = keys
            st.heap.put(oid, o)
        return ("o", oid)

    def make_sym(self, st, spec, path, multi=False):
        """Val from a type spec:
           'int'|'str'|'bool'|'float'|'any'|'None'; ClassInfo or tuple of ClassInfo -> instance;
           ('list', spec) ('tuple', spec...) ('dict', kspec, vspec) ('set', spec); [spec, ...] union"""
        if isinstance(spec, list):
            r = frozenset()
            for s in spec:
                r |= self.make_sym(st, s, path, multi)
            return r
        if spec == "None":
            return VNONE
        if spec == "bool":
            return V(Pr("bool", [path]))
        if isinstance(spec, str):
            return V(Pr(spec, [path]))
        if isinstance(spec, ClassInfo):
            return V(self.sym(st, path, [spec], multi=multi))
        if isinstance(spec, tuple) and spec and spec[0] == "oneof":
            return V(self.sym(st, path, spec[1:], multi=multi))
        if isinstance(spec, tuple) and spec[0] == "K":
            return V(*[K(x) for x in spec[1:]])
        if isinstance(spec, tuple) and spec[0] in ("list", "set"):
            a = self.sym(st, path, None, spec[0], multi)
            o = st.heap.get(a[1])
            if not o.elems:
                o = o.copy()
                o.elems = self.make_sym(st, spec[1], path + "[*]", True)
                st.heap.put(a[1], o)
            return V(a)
        if isinstance(spec, tuple) and spec[0] == "tuple":
            a = self.sym(st, path, None, "tuple", multi)
            o = st.heap.get(a[1])
            if o.items is None:
                o = o.copy()
                o.items = [self.make_sym(st, s, "%s[%d]" % (path, i), multi) for i, s in enumerate(spec[1:])]
                st.heap.put(a[1], o)
            return V(a)
        if isinstance(spec, tuple) and spec[0] == "dict":
            a = self.sym(st, path, None, "dict", multi)
            o = st.heap.get(a[1])
            if not o.elems:
                o = o.copy()
                o.keys = self.make_sym(st, spec[1], path + ".keys", True)
                o.elems = self.make_sym(st, spec[2], path + "[*]", True)
                st.heap.put(a[1], o)
            return V(a)
        if isinstance(spec, tuple) and spec[0] == "obj":
            return V(self.sym(st, path, None, "unknown", multi))
        return V(ANY)

    def obj(self, st, a):
        return st.heap.get(a[1])

    def describe(self, st, val):
        r = []
        for a in val:
            if a[0] == "o":
                o = st.heap.get(a[1])
                r.append(o.path or str(o.kind))
            elif a[0] == "k":
                r.append(repr(a[2]))
            elif a[0] == "p":
                r.append("%s%s" % (a[1], sorted(a[2]) if a[2] else ""))
            else:
                r.append(str(a))
        return "{%s}" % ", ".join(sorted(r))

    # ---------------------------------------------------------------- merging
    def merge(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        order = []
        for s in states:
            k = self.pol.key(s)
            if k not in groups:
                groups[k] = s
                order.append(k)
            else:
                groups[k] = self.join(groups[k], s)
        return [groups[k] for k in order]

    def join(self, a, b):
        if a is b:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None:
                env[k] = vb | V(("unset",))
            elif vb is None:
                env[k] = va | V(("unset",))
            else:
                env[k] = va if va == vb else cap(va | vb)
        over = dict(a.heap.over)
        for oid, ob in b.heap.over.items():
            oa = over.get(oid)
            if oa is None:
                oa = a.heap.base.get(oid)
                over[oid] = ob if oa is None else join_obj(oa, ob)
            elif oa is not ob:
                over[oid] = join_obj(oa, ob)
        for oid in a.heap.over:
            if oid not in b.heap.over:
                bb = b.heap.base.get(oid)
                if bb is not None:
                    over[oid] = join_obj(over[oid], bb)
        client = a.client if a.client == b.client else self.pol.join_client(a.client, b.client)
        pc = a.pc if a.pc == b.pc else tuple(x for x in a.pc if x in b.pc)
        return State(Heap(a.heap.base, over), env, client, pc)

    def same_state(self, a, b):
        if a.env != b.env or a.client != b.client or a.pc != b.pc:
            return False
        if set(a.heap.over) != set(b.heap.over):
            return False
        for k, v in a.heap.over.items():
            if not v.same(b.heap.over[k]):
                return False
        return True

    # ---------------------------------------------------------------- statements
    def block(self, stmts, states):
        out = Outcome()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.stmt(s, st)
                out.absorb(o)
                nxt += o.norm
            cur = self.merge(nxt)
            if len(cur) > self.pol.max_states:
                j = cur[0]
                for x in cur[1:]:
                    j = self.join(j, x)
                cur = [j]
        out.norm = cur
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps or self.steps & 1023 == 0 and time.time() > DEADLINE:
            raise front.AnalysisBroken("abstract interpretation budget exceeded in %s" % (self.stack[-1].full if self.stack else "?"))
        m = getattr(self, "s_" + s.t, None)
        if m is None:
            raise front.AnalysisBroken("unsupported statement %s" % s.t)
        return m(s, st)

    def _norm(self, states):
        o = Outcome()
        o.norm = states
        return o

    def s_Pass(self, s, st):
        return self._norm([st])

    def s_Global(self, s, st):
        st.env["$global"] = st.env.get("$global", frozenset()) | frozenset(("g", n) for n in s.names)
        return self._norm([st])

    def s_Import(self, s, st):
        self._do_import(s, st)
        return self._norm([st])

    s_ImportFrom = s_Import

    def _do_import(self, s, st):
        if self.frames and self.frames[-1][0] is not None:
            # function-level import: bind locally
            m = self.frames[-1][1]
            tmp = Module(m.name, m.rel, m.tree)
            self.p._imp(tmp, s)
            for nm in tmp.imports:
                r = self.p.resolve(tmp, nm)
                st.env[nm] = self.static_val(st, r, nm)
            return
        if self.loading:
            m = self.frames[-1][1]
            tmp = Module(m.name, m.rel, m.tree)
            tmp.is_pkg = m.is_pkg
            self.p._imp(tmp, s)
            for nm, i in tmp.imports.items():
                for target in (i[1], i[1] + "." + i[2] if i[0] == "from" else None):
                    t = self.p.modules.get(target) if target else None
                    if t is not None:
                        self.load_module(t, st)

    def static_val(self, st, r, name):
        if isinstance(r, ClassInfo):
            return V(("cl", r))
        if isinstance(r, FuncInfo):
            return V(("fn", r, None))
        if isinstance(r, Module):
            return V(("mod", r))
        if isinstance(r, tuple) and r[0] == "assign":
            return self.mod_attr(st, r[1], r[2])
        if isinstance(r, tuple) and r[0] == "ext":
            return V(("ext", r[1]))
        return V(ANY)

    def s_Expr(self, s, st):
        return self.lift(self.ev(s.value, st))

    def lift(self, pairs):
        """[(state,val)] -> Outcome with only states (exceptions were collected)"""
        o = Outcome()
        o.norm = [p[0] for p in pairs]
        o.exc = self.take_exc()
        return o

    def take_exc(self):
        e = self.pend
        self.pend = []
        return e

    pend = []

    # exceptions of built-in operations: noted for the enclosing try statements (exact mode) and the policy
    trymon = ()

    def may(self, st, exc, node, sure=False):
        self.pol.implicit(self, st, exc, node, sure)
        if sure and self.pol.exact:
            self.pend = self.pend + [(st.fork(), V(("ext", "builtin." + exc)), node)]
            return
        for m in self.trymon:
            m.add(exc)

    def s_Assign(self, s, st):
        o = Outcome()
        pairs = self.ev(s.value, st)
        o.exc = self.take_exc()
        for st2, v in pairs:
            states = [st2]
            for t in s.targets:
                states2 = []
                for x in states:
                    states2 += self.assign(t, v, x, s)
                states = states2
            o.norm += states
        o.exc += self.take_exc()
        return o

    def s_AugAssign(self, s, st):
        o = Outcome()
        for st1, old in self.ev(s.target, st):
            for st2, v in self.ev(s.value, st1):
                # in place on lists
                done = False
                for a in old:
                    if a[0] == "o" and st2.heap.get(a[1]).kind in ("list",):
                        self.list_extend(st2, a, v, s)
                        done = True
                if done:
                    nv = old
                else:
                    nv = self.binop(st2, opname(s.op), old, v, s)
                o.norm += self.assign(s.target, nv, st2, s)
        o.exc = self.take_exc()
        return o

    def s_Delete(self, s, st):
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if t.t == "Subscript":
                    for st1, b in self.ev(t.value, x):
                        for st2, ix in self.ev_slice(t.slice, st1):
                            for a in b:
                                if a[0] == "o":
                                    self.pol.mutate(self, st2, a[1], "del", [ix], t)
                                    ob = st2.heap.get(a[1]).copy()
                                    ok, c = const_of(ix) if isinstance(ix, frozenset) else (False, None)
                                    if ob.items is not None:
                                        if isinstance(ob.items, dict) and ok and not ob.multi:
                                            ob.items.pop(K(c), None)
                                        else:
                                            ob.elems = all_elems(ob)
                                            ob.keys = all_keys(ob)
                                            ob.items = None
                                    ob.removed = True
                                    st2.heap.put(a[1], ob)
                            nxt.append(st2)
                elif t.t == "Name":
                    x.env.pop(t.id, None)
                    nxt.append(x)
                elif t.t == "Attribute":
                    for st1, b in self.ev(t.value, x):
                        for a in b:
                            if a[0] == "o":
                                self.pol.write_field(self, st1, a[1], t.attr, V(("unset",)), t)
                                ob = st1.heap.get(a[1]).copy()
                                ob.fields[t.attr] = V(("unset",))
                                st1.heap.put(a[1], ob)
                        nxt.append(st1)
                else:
                    nxt.append(x)
            states = nxt
        o = self._norm(states)
        o.exc = self.take_exc()
        return o

    def s_Print(self, s, st):
        states = [st]
        for v in s.get("values") or []:
            states = [p[0] for x in states for p in self.ev(v, x)]
        o = self._norm(states)
        o.exc = self.take_exc()
        return o

    def s_Assert(self, s, st):
        o = Outcome()
        for st2, truth in self.cond(s.test, st):
            if truth:
                o.norm.append(st2)
            else:
                o.exc.append((st2, V(("ext", "builtin.AssertionError")), s))
        o.exc += self.take_exc()
        return o

    def s_Return(self, s, st):
        o = Outcome()
        if s.value is None:
            o.ret.append((st, VNONE))
        else:
            o.ret += self.ev(s.value, st)
        o.exc = self.take_exc()
        return o

    def s_Raise(self, s, st):
        o = Outcome()
        e = s.get("type") if s.get("type") is not None else s.get("excepttype")
        if e is None:
            v = st.env.get("$exc", V(("ext", "builtin.Exception")))
            self.pol.raised(self, st, v, s)
            o.exc.append((st, v, s))
        else:
            for st2, v in self.ev(e, st):
                self.pol.raised(self, st2, v, s)
                o.exc.append((st2, v, s))
        o.exc += self.take_exc()
        return o

    def s_Break(self, s, st):
        o = Outcome()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st):
        o = Outcome()
        o.cont.append(st)
        return o

    def s_If(self, s, st):
        o = Outcome()
        tr, fa = [], []
        for st2, truth in self.cond(s.test, st):
            (tr if truth else fa).append(st2)
        o.exc = self.take_exc()
        if tr:
            o1 = self.block(s.body, self.merge(tr))
            o.absorb(o1)
            o.norm += o1.norm
        if fa:
            o2 = self.block(s.orelse or [], self.merge(fa))
            o.absorb(o2)
            o.norm += o2.norm
        for x in o.norm:
            if x.pc != st.pc:
                x.pc = st.pc
        return o

    def s_While(self, s, st):
        o = Outcome()
        heads = [st]
        seen = {}
        exits = []
        n = 0
        infinite = s.test.t == "Name" and s.test.id == "True" or (s.test.t == "Num" and s.test.n)
        pc0 = st.pc
        work = [st]
        pre = {}
        if self.pol.exact:
            work, done = [], 0
            cur = [st]
            while cur:
                nxt = []
                for h in cur:
                    outs = self.cond(s.test, h.fork())
                    if not outs:
                        continue
                    if len({t for _s, t in outs}) != 1 or done > self.pol.max_while:
                        work.append(h)
                        pre[id(h)] = outs
                        continue
                    if outs[0][1] is False or not outs[0][1]:
                        exits += [x for x, _t in outs]
                        continue
                    done += 1
                    o.exc += self.take_exc()
                    ob = self.block(s.body, [x for x, _t in outs])
                    o.ret += ob.ret
                    o.exc += ob.exc
                    for b in ob.brk:
                        b.client.setdefault("$brk", False)
                        o.norm.append(b)
                    nxt += ob.norm + ob.cont
                cur = nxt if len(nxt) <= 1 else self.merge(nxt)
            heads = list(work)
        while work:
            n += 1
            cur = work
            work = []
            tr = []
            for h in cur:
                for st2, truth in (pre.pop(id(h), None) or self.cond(s.test, h.fork())):
                    if truth:
                        tr.append(st2)
                    elif not infinite:
                        exits.append(st2)
            o.exc += self.take_exc()
            ob = self.block(s.body, self.merge(tr)) if tr else Outcome()
            o.ret += ob.ret
            o.exc += ob.exc
            exits_b = ob.brk
            for b in exits_b:
                b.client.setdefault("$brk", False)
                o.norm.append(b)
            for x in self.merge(ob.norm + ob.cont):
                x.pc = pc0
                k = self.pol.key(x)
                old = seen.get(k)
                if old is None:
                    base = None
                    for h in heads:
                        if self.pol.key(h) == k:
                            base = h
                    new = self.join(base, x) if base is not None else x
                    if base is not None and self.same_state(base, new):
                        continue
                else:
                    new = self.join(old, x)
                    if self.same_state(old, new):
                        continue
                if n > self.pol.loop_iters:
                    new = self.widen(old or new, new)
                    if old is not None and self.same_state(old, new):
                        continue
                if n > self.pol.loop_iters + 12:
                    continue
                seen[k] = new
                work.append(new.fork())
        if s.orelse:
            oe = self.block(s.orelse, self.merge(exits))
            o.absorb(oe)
            exits = oe.norm
        o.norm = self.merge(o.norm + exits)
        for x in o.norm:
            x.pc = pc0
            x.client.pop("$brk", None)
        return o

    def widen(self, a, b):
        s = b.fork()
        for k, v in list(s.env.items()):
            if a.env.get(k) != v:
                s.env[k] = self.widen_val(v)
        for oid, ob in list(s.heap.over.items()):
            oa = a.heap.get(oid)
            if oa is None or not oa.same(ob):
                ob = ob.copy()
                for f in ob.fields:
                    if oa is None or oa.fields.get(f) != ob.fields[f]:
                        ob.fields[f] = self.widen_val(ob.fields[f])
                ob.elems = self.widen_val(all_elems(ob))
                ob.keys = self.widen_val(all_keys(ob))
                if ob.kind not in ("tuple",):
                    ob.items = None
                s.heap.put(oid, ob)
        return s

    def widen_val(self, v):
        r = set()
        for a in v:
            if a[0] == "k" and a[1] in ("int", "str", "float"):
                r.add(Pr(a[1]))
            elif a[0] == "p":
                r.add(a)
            else:
                r.add(a)
        return frozenset(r)

    def inlined_for(self, s, st):
        """a loop over a call of a generator of the same module: the generator's statements with the loop's body in place of its yields"""
        e = s.iter
        if e.t != "Call" or s.orelse or e.get("starargs") is not None or e.get("kwargs") is not None or not self.frames:
            return None
        if e.func.t == "Attribute":
            if e.func.attr not in self.generator_names():
                return None
        elif e.func.t != "Name" or e.func.id not in self.generator_names():
            return None
        fs = self.ev(e.func, st)
        if len(fs) != 1 or fs[0][0] is not st or len(fs[0][1]) != 1:
            return None
        a = next(iter(fs[0][1]))
        if a[0] not in ("fn", "bm"):
            return None
        fi = a[1]
        if fi.lambda_ or fi.outer is not None or fi.module is not self.frames[-1][1] or not self.yields(fi) or fi in self.stack:
            return None
        body = self.generator_body(fi, s)
        if body is None:
            return None
        cur = [(st, [V(a[2])] if a[0] == "bm" else [], {})]
        for x in e.args:
            cur = [(y, vs + [v], k) for z, vs, k in cur for y, v in self.ev(x, z)]
        for x in e.keywords or ():
            cur = [(y, vs, dict(k, **{x.arg: v})) for z, vs, k in cur for y, v in self.ev(x.value, z)]
        o = Outcome()
        o.exc = self.take_exc()
        mark = "%%g%d." % len(self.stack)
        self.inlined.add(fi)
        for x, args, kws in cur:
            env = self.bind(x, fi, args, kws, None, None, s)
            x.env = dict(x.env, **{mark + k: v for k, v in env.items()})
            ob = self.block(body, [x])
            o.absorb(ob)
            o.norm += ob.norm
            for y in o.norm + o.brk + o.cont + [z for z, _v in o.ret]:
                for k in [k for k in y.env if k.startswith(mark)]:
                    del y.env[k]
        o.norm = self.merge(o.norm)
        return o

    def generator_names(self):
        if self._gens is None:
            self._gens = {f.name for f in self.p.functions if not f.lambda_ and self.yields(f)}
        return self._gens

    _gens = None

    def generator_body(self, fi, s):
        key = (fi, s, len(self.stack))
        if key not in self.generators:
            self.generators[key] = self._generator_body(fi, s, "%%g%d." % len(self.stack))
        return self.generators[key]

    def _generator_body(self, fi, s, mark):
        names = set(fi.params) | {fi.vararg, fi.kwarg}
        yields = []
        for x in walk_scope(fi.node):
            if x.t in ("FunctionDef", "ClassDef", "Lambda", "Return", "Global", "TryFinally") or "<tuple>" in names:
                return None
            if x.t == "Yield":
                yields.append(x)
            for f in ("targets", "target", "optional_vars", "name"):
                t = x.get(f)
                for y in (t if isinstance(t, list) else [t]):
                    if isinstance(y, front.Node):
                        names |= {z.id for z in walk(y) if z.t == "Name" and (z is y or y.t in ("Tuple", "List"))}

        def own(stmts, kind):
            """a break or continue of the loop itself"""
            for x in stmts:
                if x.t == kind:
                    return True
                if x.t in ("For", "While", "FunctionDef", "ClassDef"):
                    if own(x.orelse if x.t in ("For", "While") else (), kind):
                        return True
                    continue
                for v in x.f.values():
                    if isinstance(v, list) and v and isinstance(v[0], front.Node) and own(v, kind):
                        return True
            return False
        brk, cont = own(s.body, "Break"), own(s.body, "Continue")
        done = []

        def place(stmts, loops, tail):
            """are all the yields statements where the body may stand?"""
            for i, x in enumerate(stmts):
                last = tail and i == len(stmts) - 1
                if x.t == "Expr" and x.value.t == "Yield":
                    if brk and loops != 1 or cont and (loops < 1 or not last):
                        return False
                    done.append(x.value)
                    continue
                if x.t in ("For", "While"):
                    if any(y.t == "Yield" for z in x.body for y in walk(z)):
                        if brk and not (i == len(stmts) - 1 and tail and not x.orelse) and loops == 0:
                            return False
                    if not place(x.body, loops + 1, True) or not place(x.orelse, loops, last):
                        return False
                    continue
                for v in x.f.values():
                    if isinstance(v, list) and v and isinstance(v[0], front.Node) and v[0].t not in ("Name",) and not place(v, loops, last):
                        return False
            return True
        if not place(fi.body, 0, True) or len(done) != len(yields):
            return None

        def clone(n):
            if isinstance(n, list):
                r = []
                for x in n:
                    if isinstance(x, front.Node) and x.t == "Expr" and x.value.t == "Yield":
                        v = x.value.value
                        r.append(front.Node("Assign", s.ln, s.co, {"targets": [s.target], "value": clone(v) if v is not None else front.Node("Name", s.ln, s.co, {"id": "None"})}))
                        r += s.body
                    else:
                        r.append(clone(x))
                return r
            if not isinstance(n, front.Node):
                return n
            m = front.Node(n.t, n.ln, n.co, {k: clone(v) for k, v in n.f.items()})
            if n.t == "Name" and n.id in names:
                m.f["id"] = mark + n.id
            return m
        return clone(fi.body)

    def s_For(self, s, st):
        inl = self.inlined_for(s, st)
        if inl is not None:
            return inl
        o = Outcome()
        pc0 = st.pc
        for st1, it in self.ev(s.iter, st):
            o.exc += self.take_exc()
            seqs = self.exact_iter(st1, it)
            exits = []
            if seqs is not None and len(seqs) <= self.pol.unroll:
                a = next(iter(it))
                src = (self.live.get(a[1]) or a[1]) if a[0] == "o" else None
                cur, i = [st1], 0
                table = self.table(st1, seqs)
                while cur:
                    nxt = []
                    if table:
                        self.rounds.append(i)
                    for x in cur:
                        v = self.step(x, src, a, seqs, i, s)
                        if v is False:
                            o.exc += self.take_exc()
                            continue
                        if v is None:
                            exits.append(x)
                            continue
                        for y in self.assign(s.target, v, x, s):
                            ob = self.block(s.body, [y])
                            o.ret += ob.ret
                            o.exc += ob.exc
                            o.norm += ob.brk
                            nxt += ob.norm + ob.cont
                    if table:
                        self.rounds.pop()
                    cur, i = self.merge(nxt), i + 1
                exits = self.merge(exits)
            else:
                elem = self.elem_val(st1, it)
                itags = self.iter_tags(st1, it)
                exits = [st1.fork()]
                seen = {}
                work = [st1]
                n = 0
                while work:
                    n += 1
                    cur = work
                    work = []
                    for h in cur:
                        h = h.fork()
                        if itags:
                            h.pc = h.pc + (("iter", itags),)
                        self.pol.loop_iter(self, h, s, it)
                        body_in = self.assign(s.target, elem, h, s)
                        ob = self.block(s.body, body_in)
                        o.ret += ob.ret
                        o.exc += ob.exc
                        for b, _v in ob.ret:
                            self.pol.loop_next(self, b, s, "return")
                        for b in ob.norm + ob.cont:
                            self.pol.loop_next(self, b, s, "next")
                        for b in ob.brk:
                            self.pol.loop_next(self, b, s, "break")
                            b.pc = pc0
                        o.norm += ob.brk
                        for x in self.merge(ob.norm + ob.cont):
                            x.pc = pc0
                            exits.append(x)
                            k = self.pol.loop_key(self, x)
                            old = seen.get(k)
                            if old is None:
                                base = st1 if self.pol.loop_key(self, st1) == k else None
                                new = self.join(base, x) if base is not None else x
                                if base is not None and self.same_state(base, new):
                                    continue
                            else:
                                new = self.join(old, x)
                                if self.same_state(old, new):
                                    continue
                            if n > self.pol.loop_iters:
                                new = self.widen(old or new, new)
                                if old is not None and self.same_state(old, new):
                                    continue
                            if n > self.pol.loop_iters + 12:
                                continue
                            seen[k] = new
                            work.append(new.fork())
                exits = self.merge(exits)
            if s.orelse:
                oe = self.block(s.orelse, exits)
                o.absorb(oe)
                exits = oe.norm
            o.norm += exits
        o.norm = self.merge(o.norm)
        for x in o.norm:
            x.pc = pc0
        return o

    def s_With(self, s, st):
        o = Outcome()
        states = [st]
        items = s.get("items") or [s]
        for it in items:
            nxt = []
            for x in states:
                for st1, v in self.ev(it.context_expr, x):
                    if it.get("optional_vars") is not None:
                        nxt += self.assign(it.optional_vars, v, st1, s)
                    else:
                        nxt.append(st1)
            states = nxt
        o.exc = self.take_exc()
        ob = self.block(s.body, states)
        o.absorb(ob)
        o.norm = ob.norm
        return o

    def handler_types(self, h, st):
        ty = h.get("type") if h.get("type") is not None else h.get("excepttype")
        if ty is None:
            return None
        r = set()
        for _st, v in self.ev(ty, st.fork()):
            for a in v:
                if a[0] == "o":
                    r |= all_elems(_st.heap.get(a[1]))
                else:
                    r.add(a)
        self.take_exc()
        return r

    def exc_matches(self, st, excval, types):
        """yes / maybe / no"""
        if types is None:
            return "yes"
        res = set()
        for a in excval:
            c = None
            if a[0] == "o":
                cs = st.heap.get(a[1]).cls
                c = next(iter(cs)) if cs else None
            elif a[0] == "cl":
                c = a[1]
            elif a[0] == "ext":
                nm = a[1].split(".")[-1].split("(")[0]
                hit = any(t[0] == "ext" and exc_sub(nm, t[1].split(".")[-1]) for t in types)
                res.add("yes" if hit else ("maybe" if nm in ("Exception", "any") else "no"))
                continue
            if c is None:
                res.add("maybe")
                continue
            hit = any(t[0] == "cl" and t[1] in c.mro for t in types) or \
                any(t[0] == "ext" and t[1].split(".")[-1] in exc_bases(c) for t in types)
            res.add("yes" if hit else "no")
        if res == {"yes"}:
            return "yes"
        if res == {"no"} or not res:
            return "no"
        return "maybe"

    def s_TryExcept(self, s, st):
        o = Outcome()
        # implicit exceptions: any prefix of the body may have run
        prefix = [st.fork()]
        cur = [st]
        body = Outcome()
        mon = set()
        self.trymon = self.trymon + (mon,)
        for b in s.body:
            nxt = []
            for x in cur:
                r = self.stmt(b, x)
                body.absorb(r)
                nxt += r.norm
            cur = self.merge(nxt)
            prefix += [c.fork() for c in cur]
            if not cur:
                break
        self.trymon = self.trymon[:-1]
        body.norm = cur
        o.ret += body.ret
        o.brk += body.brk
        o.cont += body.cont
        pend = list(body.exc)
        if self.pol.implicit_exc:
            imp = self.merge(prefix)
        else:
            imp = []
        for h in s.get("handlers") or []:
            types = self.handler_types(h, st)
            ins = []
            rest = []
            for (es, ev, en) in pend:
                mt = self.exc_matches(es, ev, types)
                if mt in ("yes", "maybe"):
                    ins.append((es.fork(), ev))
                if mt in ("no", "maybe"):
                    rest.append((es, ev, en))
            pend = rest
            for x in imp:
                if self.pol.exact and not self.noted(mon, types):
                    continue
                if types is None:
                    ins.append((x.fork(), V(("ext", "builtin.Exception"))))
                else:
                    ev = frozenset(t for t in types)
                    ins.append((x.fork(), ev))
            nm = h.get("name") if h.get("name") is not None else h.get("excepname")
            states = []
            for x, ev in ins:
                x.pc = st.pc
                x.env["$exc"] = ev
                if nm is not None:
                    states += self.assign(nm, ev if any(a[0] == "o" for a in ev) else V(ANY), x, h)
                else:
                    states.append(x)
            if states:
                oh = self.block(h.body, self.merge(states))
                o.absorb(oh)
                o.norm += oh.norm
        o.exc += pend
        if s.get("orelse"):
            oe = self.block(s.orelse, body.norm)
            o.absorb(oe)
            o.norm += oe.norm
        else:
            o.norm += body.norm
        o.norm = self.merge(o.norm)
        return o

    def noted(self, mon, types):
        if not mon:
            return False
        if types is None or "*" in mon:
            return True
        for t in types:
            if t[0] != "ext":
                continue
            n = t[1].split(".")[-1]
            for m in mon:
                if n == m or exc_sub(m, n) or exc_sub(n, m):
                    return True
        return False

    def s_TryFinally(self, s, st):
        ob = self.block(s.body, [st])
        o = Outcome()

        def fin(x):
            return self.block(s.finalbody, [x])
        for x in ob.norm:
            r = fin(x)
            o.absorb(r)
            o.norm += r.norm
        for x, v in ob.ret:
            r = fin(x)
            o.absorb(r)
            o.ret += [(y, v) for y in r.norm]
        for x, v, n in ob.exc:
            r = fin(x)
            o.absorb(r)
            o.exc += [(y, v, n) for y in r.norm]
        for x in ob.brk:
            r = fin(x)
            o.absorb(r)
            o.brk += r.norm
        for x in ob.cont:
            r = fin(x)
            o.absorb(r)
            o.cont += r.norm
        o.norm = self.merge(o.norm)
        return o

    def s_FunctionDef(self, s, st):
        if self.loading and (not self.frames or self.frames[-1][0] is None):
            return self._norm([st])
        f = self.p.fn_of_node.get(s)
        st.env[s.name] = V(("fn", f, self.save_env(st)))
        return self._norm([st])

    def save_env(self, st):
        key = ("env", len(self.saved))
        self.saved[key] = dict(st.env)
        return key

    saved = {}

    def s_ClassDef(self, s, st):
        c = self.p.cls_of_node.get(s)
        if self.loading and c is not None:
            self.load_class(c, st)
        elif c is not None:
            st.env[s.name] = V(("cl", c))
        return self._norm([st])

    # ---------------------------------------------------------------- loading
    def load_program(self):
        """Evaluate module and class bodies (constants, tables, registries)."""
        st = State(Heap({}))
        self.loading = True
        self.loaded = set()
        for name in sorted(self.p.modules):
            st = self.load_module(self.p.modules[name], st) or st
        self.loading = False
        self.base = dict(st.heap.over)
        return self.base

    def load_module(self, m, st):
        if m in self.loaded:
            return st
        self.loaded.add(m)
        st.heap.put(("mod", m.name), Obj("module", path=m.name))
        env0 = st.env
        st.env = {}
        self.frames.append((None, m, None))
        try:
            for s in m.tree.body:
                try:
                    o = self.stmt(s, st)
                except front.AnalysisBroken:
                    raise
                self.pend = []
                if len(o.norm) >= 1:
                    x = self.merge(o.norm)
                    j = x[0]
                    for y in x[1:]:
                        j = self.join(j, y)
                    if j is not st:
                        st.heap.over = j.heap.over
                        st.env = j.env
                        st.client = j.client
        finally:
            self.frames.pop()
            st.env = env0
        return st

    def load_class(self, c, st):
        st.heap.put(("cls", c.full), Obj("class", frozenset([c]), path=c.name))
        self.frames.append((None, c.module, c))
        try:
            for s in c.node.body:
                o = self.stmt(s, st)
                self.pend = []
                if o.norm:
                    j = o.norm[0]
                    for y in o.norm[1:]:
                        j = self.join(j, y)
                    if j is not st:
                        st.heap.over = j.heap.over
                        st.env = j.env
        finally:
            self.frames.pop()

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if t.t == "Name":
            f = self.frames[-1]
            if f[0] is None:
                owner = ("cls", f[2].full) if f[2] is not None else ("mod", f[1].name)
                ob = st.heap.get(owner).copy()
                ob.fields[t.id] = v
                st.heap.put(owner, ob)
            elif ("g", t.id) in st.env.get("$global", ()):
                owner = ("mod", f[1].name)
                self.pol.write_static(self, st, owner, t.id, v, node)
                ob = (st.heap.get(owner) or Obj("module", path=f[1].name)).copy()
                ob.fields[t.id] = v
                st.heap.put(owner, ob)
            else:
                st.env[t.id] = v
            return [st]
        if t.t in ("Tuple", "List"):
            states = [st]
            for a in v:
                o = st.heap.get(a[1]) if a[0] == "o" else None
                if o is None:
                    self.may(st, "TypeError" if a[0] == "k" else "*", node)
                elif not isinstance(o.items, list) or o.multi and o.kind != "tuple" or o.elems and o.kind != "tuple":
                    self.may(st, "ValueError", node)
                elif len(o.items) != len(t.elts):
                    self.may(st, "ValueError", node, len(v) == 1)
            for i, e in enumerate(t.elts):
                nxt = []
                for x in states:
                    nxt += self.assign(e, self.index_val(x, v, i, len(t.elts)), x, node)
                states = nxt
            return states
        if t.t == "Attribute":
            res = []
            for st1, b in self.ev(t.value, st):
                self.set_attr(st1, b, t.attr, v, node)
                res.append(st1)
            return res
        if t.t == "Subscript":
            res = []
            for st1, b in self.ev(t.value, st):
                for st2, ix in self.ev_slice(t.slice, st1):
                    self.set_item(st2, b, ix, v, node, t.slice)
                    res.append(st2)
            return res
        raise front.AnalysisBroken("assignment target %s" % t.t)

    def set_attr(self, st, b, name, v, node):
        objs = [a for a in b if a[0] == "o"]
        for a in b:
            if a[0] == "o":
                self.pol.write_field(self, st, a[1], name, v, node)
                ob = st.heap.get(a[1]).copy()
                if len(objs) == 1 and not ob.multi and len(b) == 1:
                    ob.fields[name] = v
                else:
                    old = ob.fields.get(name)
                    ob.fields[name] = v if old is None and not ob.sym else cap((old or self.lazy_field(st, a, ob, name)) | v)
                    if old is not None or ob.sym:
                        o2 = st.heap.get(a[1])
                        if o2 is not ob and o2 is not None:
                            pass
                st.heap.put(a[1], ob)
            elif a[0] == "cl":
                owner = ("cls", a[1].full)
                if not self.loading:
                    self.pol.write_static(self, st, owner, name, v, node)
                ob = (st.heap.get(owner) or Obj("class", frozenset([a[1]]), path=a[1].name)).copy()
                ob.fields[name] = v
                st.heap.put(owner, ob)
            elif a[0] == "mod":
                owner = ("mod", a[1].name)
                if not self.loading:
                    self.pol.write_static(self, st, owner, name, v, node)
                ob = (st.heap.get(owner) or Obj("module", path=a[1].name)).copy()
                ob.fields[name] = v
                st.heap.put(owner, ob)

    def set_item(self, st, b, ix, v, node, slc):
        for a in b:
            if a[0] != "o":
                continue
            ob = st.heap.get(a[1]).copy()
            self.pol.mutate(self, st, a[1], "setslice" if slc.t == "Slice" else "setitem", [ix, v], node)
            strong = len(b) == 1 and not ob.multi
            if slc.t == "Slice":
                els = self.elem_val(st, v)
                full = slc.get("lower") is None and slc.get("upper") is None
                if full and strong:
                    src = self.exact_iter(st, v)
                    ob.items = list(src) if src is not None else None
                    ob.elems = frozenset() if src is not None else els
                    if ob.sym:
                        ob.fields["$replaced"] = V(TRUE)
                else:
                    ob.elems = cap(all_elems(ob) | els)
                    ob.items = None
            elif ob.kind == "dict" or isinstance(ob.items, dict):
                ok = len(ix) == 1 and next(iter(ix))[0] in ("k", "cl", "fn")
                if ok and strong and isinstance(ob.items, dict):
                    ob.items[next(iter(ix))] = v
                elif isinstance(ob.items, dict) and all(x[0] in ("k", "cl", "fn") for x in ix):
                    for x in ix:
                        ob.items[x] = cap(ob.items.get(x, frozenset()) | v)
                else:
                    if isinstance(ob.items, dict):
                        ob.elems = cap(all_elems(ob) | v)
                        ob.keys = cap(all_keys(ob) | ix)
                        ob.items = None
                    else:
                        ob.elems = cap(ob.elems | v)
                        ob.keys = cap(ob.keys | ix)
            else:
                ok, c = const_of(ix)
                if ok and strong and isinstance(ob.items, list) and isinstance(c, int) and -len(ob.items) <= c < len(ob.items):
                    ob.items[c] = v
                else:
                    ob.elems = cap(all_elems(ob) | v)
                    ob.items = None
            st.heap.put(a[1], ob)

    def has_field(self, st, v, c):
        """whether an object certainly has (True) or lacks (False) an attribute"""
        if len(v) == 1 and next(iter(v))[0] == "o":
            o = st.heap.get(next(iter(v))[1])
            if o.kind == "inst" and o.cls and not o.sym and not o.multi:
                if c in o.fields and ("unset",) not in o.fields[c] or all(self.class_attr(st, k, c) is not None for k in o.cls):
                    return True
                if c not in o.fields and all(self.class_attr(st, k, c) is None for k in o.cls):
                    return False
        return None

    # ---------------------------------------------------------------- iteration helpers
    def walking(self, name, oid, made):
        if name.startswith("iter"):
            self.live[made[1]] = oid
        else:
            self.live.pop(made[1], None)
        return V(made)

    def step(self, st, src, a, seqs, i, node):
        """value number i of a loop as things are now; None when the loop is over; False when the walk fails"""
        if src is not None and self.pol.exact and i <= self.pol.unroll:
            o = st.heap.get(src)
            if o is not None and not o.multi and not o.elems:
                if isinstance(o.items, list) and o.kind == "list":
                    return o.items[i] if i < len(o.items) else None
                if src != a[1] or o.kind != "list":
                    if o.items is not None and len(o.items) != len(seqs) and i > 0:
                        self.may(st, "RuntimeError", node, True)
                        return False
        return seqs[i] if i < len(seqs) else None

    def table(self, st, seqs):
        """a loop over a short constant table: its rounds are told apart like different places in the program"""
        if self.pol.exact or self.loading or not 1 < len(seqs) <= 12 or len(self.rounds) > 1:
            return False
        for v in seqs:
            for a in v:
                if a[0] == "o":
                    o = st.heap.get(a[1])
                    if o.kind != "tuple" or not isinstance(o.items, list):
                        return False
                elif a[0] not in ("k", "fn", "cl", "bm"):
                    return False
        return True

    def exact_iter(self, st, v):
        if len(v) != 1:
            return None
        a = next(iter(v))
        if a[0] == "o":
            o = st.heap.get(a[1])
            if isinstance(o.items, list) and not o.multi and not o.elems:
                return list(o.items) if o.kind != "set" else self.pol.order(list(o.items))
            if isinstance(o.items, dict) and not o.multi and not o.elems:
                return self.pol.order([V(k) for k in o.items])
        elif a[0] == "k" and a[1] == "str":
            return [V(K(c)) for c in a[2]]
        return None

    def elem_val(self, st, v):
        r = frozenset()
        for a in v:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind == "dict":
                    r |= all_keys(o)
                elif o.kind in ("list", "tuple", "set"):
                    r |= all_elems(o)
                elif o.kind == "unknown" or (o.sym and o.cls is None):
                    r |= self.make_sym(st, ("obj",), (o.path or "?") + "[*]", True)
                else:
                    r |= V(ANY)
            elif a[0] == "p":
                r |= V(Pr("str" if a[1] == "str" else "any", a[2]))
            elif a[0] == "k" and a[1] == "str":
                r |= V(*[K(c) for c in a[2]]) if a[2] else frozenset()
            elif a[0] == "unset":
                pass
            else:
                r |= V(ANY)
        return cap(r)

    def iter_tags(self, st, v):
        r = set()
        for a in v:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.sym and o.path:
                    r.add(o.path)
                r |= o.tags
            elif a[0] == "p":
                r |= a[2]
        return frozenset(r)

    def index_val(self, st, v, i, n=None):
        r = frozenset()
        for a in v:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if isinstance(o.items, list) and -len(o.items) <= i < len(o.items):
                    r |= o.items[i]
                elif o.kind in ("list", "tuple", "set", "dict"):
                    r |= self.elem_val(st, V(a))
                else:
                    r |= self.make_sym(st, ("obj",), "%s[%d]" % (o.path, i), o.multi) if o.sym else V(ANY)
            elif a[0] == "p":
                r |= V(Pr("str" if a[1] == "str" else "any", a[2]))
            elif a[0] == "k" and a[1] == "str" and -len(a[2]) <= i < len(a[2]):
                r |= V(K(a[2][i]))
        return r or V(ANY)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, st):
        """-> [(state, bool)]; short-circuit aware, refines simple tests"""
        if e.t == "BoolOp":
            isand = opname(e.op) == "And"
            res = []
            cur = [st]
            for i, v in enumerate(e.f["values"]):
                nxt = []
                for x in cur:
                    for y, t in self.cond(v, x):
                        if t == isand and i < len(e.f["values"]) - 1:
                            nxt.append(y)
                        else:
                            res.append((y, t))
                cur = self.merge(nxt)
            return res
        if e.t == "UnaryOp" and opname(e.op) == "Not":
            return [(s, not t) for s, t in self.cond(e.operand, st)]
        res = []
        if e.t == "Compare" and len(e.ops) == 1:
            op = opname(e.ops[0])
            for st1, l in self.ev(e.left, st):
                for st2, r in self.ev(e.comparators[0], st1):
                    own = self.user_compare(st2, op, l, r, e) if self.pol.exact else None
                    if own is None:
                        res += self.cond_compare(e, op, l, r, st2)
                        continue
                    for s, v in own:
                        ts = {self.truth(s, a) for a in v}
                        for t in (True, False):
                            if None in ts or t in ts:
                                x = s.fork() if len(ts) > 1 or None in ts else s
                                if self.pol.branch(self, x, e, t):
                                    res.append((x, t))
            return res
        if e.t == "Call" and e.func.t == "Name" and e.func.id == "isinstance" and len(e.args) == 2:
            for st1, v in self.ev(e.args[0], st):
                for st2, cv in self.ev(e.args[1], st1):
                    yes, no = set(), set()
                    classes = set()
                    for c in cv:
                        if c[0] == "o":
                            classes |= all_elems(st2.heap.get(c[1]))
                        else:
                            classes.add(c)
                    for a in v:
                        t = self.inst_test(st2, a, classes)
                        if t is not False:
                            yes.add(a)
                        if t is not True:
                            no.add(a)
                    if yes:
                        s = st2.fork()
                        ny = set()
                        for a in yes:
                            if a[0] == "o":
                                o = s.heap.get(a[1])
                                cs = [c[1] for c in classes if c[0] == "cl"]
                                if o.kind in ("inst", "unknown") and cs and o.sym and (o.cls is None or len(yes) == 1):
                                    o = o.copy()
                                    o.kind = "inst"
                                    allc = [x for c in cs for x in c.allsubs()]
                                    o.cls = frozenset(allc) if o.cls is None else frozenset(x for x in o.cls if x in allc) or frozenset(allc)
                                    s.heap.put(a[1], o)
                            elif a[0] == "p" and a[1] == "any":
                                ks = {"str": "str", "unicode": "str", "int": "int", "long": "int", "float": "float", "basestring": "str"}
                                for c in classes:
                                    if c[0] == "ext" and c[1].split(".")[-1] in ks:
                                        a = Pr(ks[c[1].split(".")[-1]], a[2])
                            ny.add(a)
                        self.refine(e.args[0], frozenset(ny), s)
                        if self.pol.branch(self, s, e, True):
                            res.append((s, True))
                    if no:
                        s = st2.fork()
                        self.refine(e.args[0], frozenset(no), s)
                        if self.pol.branch(self, s, e, False):
                            res.append((s, False))
            return res
        for st1, v in self.ev(e, st):
            t, f = set(), set()
            for a in v:
                x = self.truth(st1, a)
                if x is not False:
                    t.add(a)
                if x is not True:
                    f.add(a)
            tg = tags_of(v) | self.obj_tags(st1, v)
            if t:
                s = st1.fork() if f else st1
                self.refine(e, frozenset(TRUE if (a[0] == "p" and a[1] == "bool" and False) else a for a in t), s)
                if tg:
                    s.pc = s.pc + (("if", tg),)
                if self.pol.branch(self, s, e, True):
                    res.append((s, True))
            if f:
                s = st1.fork() if t else st1
                nf = frozenset(a for a in f if not (a[0] == "o" and False))
                self.refine(e, nf, s)
                if tg:
                    s.pc = s.pc + (("if", tg),)
                if self.pol.branch(self, s, e, False):
                    res.append((s, False))
        return res

    def obj_tags(self, st, v):
        r = set()
        for a in v:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.sym and o.path:
                    r.add(o.path)
                r |= o.tags
        return frozenset(r)

    def inst_test(self, st, a, classes):
        if a[0] == "o":
            o = st.heap.get(a[1])
            bt = {"list": "list", "dict": "dict", "tuple": "tuple", "set": "set"}
            if o.kind in bt:
                return any(c[0] == "ext" and c[1].split(".")[-1] == o.kind for c in classes)
            if o.cls is None:
                return None
            rs = {any(c[0] == "cl" and c[1] in k.mro for c in classes) or
                  any(c[0] == "ext" and c[1] == "builtin.object" for c in classes) for k in o.cls}
            return rs.pop() if len(rs) == 1 else None
        if a[0] == "k":
            nm = {"str": ("str", "basestring", "unicode"), "int": ("int", "long"), "float": ("float",), "bool": ("bool", "int"),
                  "NoneType": ()}.get(a[1], ())
            return any(c[0] == "ext" and c[1].split(".")[-1] in nm for c in classes)
        if a[0] == "p":
            if a[1] == "any":
                return None
            nm = {"str": ("str", "basestring", "unicode"), "int": ("int", "long"), "float": ("float",), "bool": ("bool", "int")}[a[1]]
            names = {c[1].split(".")[-1] for c in classes if c[0] == "ext"}
            if names & set(nm):
                x = self.pol.instance(self, st, a, names)
                if x is not None:
                    return x
                return True if len(names) == 1 and a[1] != "str" and a[1] != "int" else None
            return False
        if a[0] == "unset":
            return False
        return None

    def refine(self, e, val, st):
        if e.t == "Name":
            if e.id in st.env:
                st.env[e.id] = val
        elif e.t == "Attribute":
            pairs = self.ev(e.value, st.fork())
            self.pend = []
            if len(pairs) == 1:
                b = pairs[0][1]
                if len(b) == 1:
                    a = next(iter(b))
                    if a[0] == "o" and a[1] in st.heap:
                        o = st.heap.get(a[1])
                        if not o.multi and o.fields.get(e.attr) is not None and o.kind == "inst":
                            o = o.copy()
                            o.fields[e.attr] = val
                            st.heap.put(a[1], o)

    def user_compare(self, st, op, l, r, e):
        """outcomes of a comparison that the class of one operand defines; None when it does not, or when the policy decides it"""
        magic = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}.get(op)
        if magic is None or len(l) != 1 or len(r) != 1 or self.pol.compare(self, st, op, l, r, e) is not None:
            return None
        back = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[magic]
        for v, w, m in ((l, r, magic), (r, l, back)):
            a = next(iter(v))
            o = st.heap.get(a[1]) if a[0] == "o" else None
            if o is not None and o.kind == "inst" and o.cls:
                fis = {c.find(m) for c in o.cls}
                if len(fis) == 1 and None not in fis:
                    return self.invoke(st.fork(), fis.pop(), [v, w], {}, e, None, None, a)
        for v, w, sign in ((l, r, 1), (r, l, -1)):
            a = next(iter(v))
            o = st.heap.get(a[1]) if a[0] == "o" else None
            if o is not None and o.kind == "inst" and o.cls:
                fis = {c.find("__cmp__") for c in o.cls}
                if len(fis) == 1 and None not in fis:
                    out = []
                    for s, x in self.invoke(st.fork(), fis.pop(), [v, w], {}, e, None, None, a):
                        ok, c = const_of(x)
                        if ok and isinstance(c, int):
                            c *= sign
                            out.append((s, V(K({"Eq": c == 0, "NotEq": c != 0, "Lt": c < 0, "LtE": c <= 0, "Gt": c > 0, "GtE": c >= 0}[op]))))
                        else:
                            out.append((s, V(Pr("bool"))))
                    return out
        return None

    def cond_compare(self, e, op, l, r, st):
        h = self.pol.compare(self, st, op, l, r, e)
        if h is not None:
            return [(st, h)] if self.pol.branch(self, st, e, h) else []
        res = []
        pairs = {True: (set(), set()), False: (set(), set())}
        for a in l:
            for b in r:
                t = self.cmp_atoms(st, op, a, b)
                for tv in (True, False):
                    if t is None or t == tv:
                        pairs[tv][0].add(a)
                        pairs[tv][1].add(b)
        both = bool(pairs[True][0]) and bool(pairs[False][0])
        tg = tags_of(l) | tags_of(r) | self.obj_tags(st, l) | self.obj_tags(st, r)
        for tv in (True, False):
            if pairs[tv][0]:
                s = st.fork() if both else st
                la, ra = frozenset(pairs[tv][0]), frozenset(pairs[tv][1])
                # equality with a constant pins an unknown primitive
                if (op == "Eq" and tv) or (op == "NotEq" and not tv):
                    if len(ra) == 1 and next(iter(ra))[0] == "k" and all(x[0] == "p" for x in la):
                        la = ra
                    elif len(la) == 1 and next(iter(la))[0] == "k" and all(x[0] == "p" for x in ra):
                        ra = la
                if both:
                    self.refine(e.left, la, s)
                    self.refine(e.comparators[0], ra, s)
                if tg:
                    s.pc = s.pc + (("if", tg),)
                if self.pol.branch(self, s, e, tv):
                    res.append((s, tv))
        return res

    def cmp_atoms(self, st, op, a, b):
        """True/False/None"""
        if op in ("Is", "IsNot"):
            r = None
            if a == NONE or b == NONE:
                o = b if a == NONE else a
                if o == NONE:
                    r = True
                elif o[0] in ("o", "cl", "fn", "mod", "bm", "k", "ext", "unset"):
                    r = False
                elif o[0] == "p" and o[1] != "any":
                    r = False
            elif a[0] == "k" and b[0] == "k":
                r = a == b
            elif a[0] == "cl" and b[0] == "cl":
                r = a == b
            elif a[0] == "o" and b[0] == "o":
                if a != b and not (st.heap.get(a[1]).sym and st.heap.get(b[1]).sym):
                    r = False
                elif a == b and not st.heap.get(a[1]).multi:
                    r = True
            return r if (r is None or op == "Is") else not r
        if op in ("Eq", "NotEq"):
            r = None
            if a[0] == "k" and b[0] == "k":
                r = a[2] == b[2]
            elif a[0] == "cl" and b[0] == "cl":
                r = a == b
            elif (a == NONE and b[0] == "o") or (b == NONE and a[0] == "o"):
                r = False if True else None
            elif (a == NONE and b[0] == "p" and b[1] != "any") or (b == NONE and a[0] == "p" and a[1] != "any"):
                r = False
            return r if (r is None or op == "Eq") else not r
        if a[0] == "k" and b[0] == "k" and op in ("Lt", "LtE", "Gt", "GtE"):
            try:
                return {"Lt": a[2] < b[2], "LtE": a[2] <= b[2], "Gt": a[2] > b[2], "GtE": a[2] >= b[2]}[op]
            except TypeError:
                rank = lambda x: 0 if x is None else 1 if isinstance(x, (int, float)) else 2 if isinstance(x, str) else None
                i, j = rank(a[2]), rank(b[2])           # Python 2 orders None, numbers and strings
                if i is None or j is None or i == j:
                    return None
                return (i < j) == (op in ("Lt", "LtE"))
        if op in ("In", "NotIn"):
            r = None
            if b[0] == "o":
                o = st.heap.get(b[1])
                if o.items is not None and not o.multi and not o.elems:
                    ks = [V(k) for k in o.items] if isinstance(o.items, dict) else o.items
                    if a[0] in ("k", "cl") and all(len(k) == 1 and next(iter(k))[0] in ("k", "cl") for k in ks):
                        r = any(next(iter(k)) == a or (a[0] == "k" and next(iter(k))[0] == "k" and next(iter(k))[2] == a[2]) for k in ks)
                    elif not ks:
                        r = False
            elif a[0] == "k" and b[0] == "k" and isinstance(a[2], str) and isinstance(b[2], str):
                r = a[2] in b[2]
            return r if (r is None or op == "In") else not r
        return None

    def truth(self, st, a):
        r = self.pol.truth(self, st, a)
        if r is not None:
            return r
        if a[0] == "k":
            return bool(a[2])
        if a[0] == "o":
            o = st.heap.get(a[1])
            if o.kind in ("list", "tuple", "dict", "set"):
                if o.items is not None and not o.multi and not o.elems:
                    return len(o.items) > 0
                return None
            if o.kind == "unknown":
                return None
            if o.cls and any(c.find("__len__") or c.find("__nonzero__") for c in o.cls):
                return None
            return True
        if a[0] in ("cl", "fn", "mod", "bm", "ext"):
            return True
        if a[0] == "unset":
            return False
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        """-> [(state, Val)]"""
        t = e.t
        if t == "Name":
            return [(st, self.name(e.id, st, e))]
        if t == "Num":
            return [(st, V(K(e.n)))]
        if t == "Str":
            return [(st, V(K(e.s)))]
        m = getattr(self, "e_" + t, None)
        if m is None:
            raise front.AnalysisBroken("unsupported expression %s" % t)
        return m(e, st)

    def name(self, n, st, e=None):
        f = self.frames[-1]
        if f[0] is not None:
            if n in st.env and not (("g", n) in st.env.get("$global", ())):
                v = st.env[n]
                return v - V(("unset",)) if len(v) > 1 else v
        else:
            if f[2] is not None:
                o = st.heap.get(("cls", f[2].full))
                if o is not None and n in o.fields:
                    return o.fields[n]
                if n in f[2].methods:
                    fi = f[2].methods[n]
                    return V(("fn", fi, None))
                if n in f[2].nested:
                    return V(("cl", f[2].nested[n]))
                if f[2].outer is not None and n in f[2].outer.nested:
                    return V(("cl", f[2].outer.nested[n]))
        if n == "__name__":
            return V(K(f[1].name))
        if n == "None":
            return VNONE
        if n == "True":
            return V(TRUE)
        if n == "False":
            return V(FALSE)
        mo = st.heap.get(("mod", f[1].name))
        if mo is not None and n in mo.fields:
            return mo.fields[n]
        r = self.p.resolve(f[1], n)
        if r is not None:
            return self.static_val(st, r, n)
        return V(("ext", "builtin." + n))

    def mod_attr(self, st, m, n):
        o = st.heap.get(("mod", m.name))
        if o is None and self.loading:
            self.load_module(m, st)
            o = st.heap.get(("mod", m.name))
        if o is not None and n in o.fields:
            return o.fields[n]
        r = self.p.resolve(m, n)
        if r is None or (isinstance(r, tuple) and r[0] == "assign" and r[1] is m):
            return V(ANY)
        return self.static_val(st, r, n)

    def e_Attribute(self, e, st):
        res = []
        for st1, b in self.ev(e.value, st):
            res += self.get_attr(st1, b, e.attr, e)
        return res

    def class_attr(self, st, c, name):
        for x in c.mro:
            o = st.heap.get(("cls", x.full))
            if o is not None and name in o.fields:
                return o.fields[name]
            if name in x.methods:
                return x.methods[name]
            if name in x.nested:
                return V(("cl", x.nested[name]))
        return None

    def lazy_field(self, st, a, o, name):
        """field of a symbolic object, materialised on demand"""
        r = None
        base = o.path or "?"
        path = "%s.%s" % (base, name)
        if o.cls:
            r = frozenset()
            for c in o.cls:
                spec = self.pol.field_type(c, name, path)
                if spec is None and self.types is not None:
                    spec = self.types(c, name)
                if spec is not None:
                    if base.count(".") > 5:
                        # k-limiting: fold deep paths onto a summary
                        path2 = "%s~.%s" % (base.split(".")[0], name)
                        r |= self.make_sym(st, spec, path2, True)
                    else:
                        r |= self.make_sym(st, spec, path, o.multi)
            if not r:
                r = None
        if r is None:
            r = self.make_sym(st, ("obj",), path if base.count(".") <= 5 else base, o.multi) if base.count(".") <= 5 else V(ANY)
        return r

    def get_attr(self, st, b, name, node):
        """[(state, Val)] ; properties are inlined"""
        r = frozenset()
        props = []
        for a in b:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind in ("list", "tuple", "dict", "set"):
                    r |= V(("bb", a, name))
                    continue
                if name == "__class__":
                    r |= V(*[("cl", c) for c in o.cls]) if o.cls else V(ANY)
                    continue
                hook = self.pol.read_field(self, st, a[1], name, node)
                if hook is not None:
                    r |= hook
                    continue
                if name in o.fields:
                    v = o.fields[name]
                    if ("unset",) in v:
                        v = v - V(("unset",))
                        for c in (o.cls or ()):
                            ca = self.class_attr(st, c, name)
                            if ca is not None and not isinstance(ca, FuncInfo):
                                v |= ca
                    r |= v
                    if len(v):
                        continue
                found = False
                if o.cls:
                    for c in o.cls:
                        ca = self.class_attr(st, c, name)
                        if ca is None:
                            continue
                        if o.sym and not isinstance(ca, FuncInfo) and not self.pol.class_level(c, name):
                            # a class level default that instances override
                            spec = self.pol.field_type(c, name, "") or (self.types(c, name) if self.types else None)
                            if spec is not None:
                                continue
                        found = True
                        if isinstance(ca, FuncInfo):
                            if ca.kind == "static":
                                r |= V(("fn", ca, None))
                            elif ca.kind == "class":
                                r |= V(("bm", ca, ("cl", c)))
                            elif ca.kind == "property":
                                props.append((ca, a))
                            else:
                                r |= V(("bm", ca, a))
                        else:
                            # a function kept under another name in the class body
                            r |= frozenset(("bm", x[1], a) if x[0] == "fn" and x[2] is None and x[1].kind not in ("static", "class") else x
                                           for x in ca)
                if not found:
                    if o.sym:
                        if o.cls is None and name in self.p.by_method:
                            r |= V(("um", a, name))
                        else:
                            v = self.lazy_field(st, a, o, name)
                            o = st.heap.get(a[1]).copy()
                            o.fields[name] = v
                            st.heap.put(a[1], o)
                            r |= v
                    elif o.kind == "inst":
                        self.missing_attr(st, a, o, name, node)
            elif a[0] == "cl":
                if name == "__name__":
                    r |= V(K(a[1].short))
                    continue
                ca = self.class_attr(st, a[1], name)
                if ca is None:
                    if self.loading and st.heap.get(("cls", a[1].full)) is None:
                        self.load_module(a[1].module, st)
                        ca = self.class_attr(st, a[1], name)
                if isinstance(ca, FuncInfo):
                    r |= V(("bm", ca, a)) if ca.kind == "class" else V(("fn", ca, None))
                elif ca is not None:
                    r |= ca
                else:
                    r |= V(ANY)
            elif a[0] == "mod":
                r |= self.mod_attr(st, a[1], name)
            elif a[0] == "super":
                for recv in [a[1]]:
                    cs = [recv[1]] if recv[0] == "cl" else (st.heap.get(recv[1]).cls or ())
                    for c in cs:
                        for x in c.after(a[2]):
                            if name in x.methods:
                                fi = x.methods[name]
                                r |= V(("fn", fi, None)) if fi.kind == "static" else V(("bm", fi, recv))
                                break
                        else:
                            r |= V(("ext", "builtin.object." + name))
            elif a[0] == "ext":
                r |= V(("ext", a[1] + "." + name))
            elif a[0] in ("k", "p"):
                if a == NONE:
                    self.may(st, "AttributeError", node, len(b) == 1)
                    continue
                r |= V(("bb", a, name))
            elif a[0] in ("fn", "bm"):
                r |= V(ANY)
        out = [(st, r)] if (r or not props) else []
        for fi, a in props:
            out += self.invoke(st, fi, [V(a)], {}, node, None, None, a)
        return out if out else [(st, V(ANY))]

    def missing_attr(self, st, a, o, name, node):
        self.may(st, "AttributeError", node)

    def e_Subscript(self, e, st):
        res = []
        for st1, b in self.ev(e.value, st):
            for st2, ix in self.ev_slice(e.slice, st1):
                v = self.subscript(st2, b, ix, e)
                if v is not None:
                    res.append((st2, v))
        return res

    def ev_slice(self, s, st):
        if s.t == "Index":
            return self.ev(s.value, st)
        if s.t == "Slice":
            out = [(st, ())]
            for nm in ("lower", "upper", "step"):
                x = s.get(nm)
                nxt = []
                for st1, acc in out:
                    if x is None:
                        nxt.append((st1, acc + (None,)))
                    else:
                        for st2, v in self.ev(x, st1):
                            nxt.append((st2, acc + (v,)))
                out = nxt
            return out
        return [(st, V(ANY))]

    def subscript(self, st, b, ix, e):
        r = frozenset()
        miss = False
        ix = tuple(self.pol.index(self, st, x) if x is not None else None for x in ix) if isinstance(ix, tuple) else self.pol.index(self, st, ix)
        if isinstance(ix, tuple):
            lo = const_of(ix[0]) if ix[0] is not None else (True, None)
            hi = const_of(ix[1]) if ix[1] is not None else (True, None)
            tg = frozenset()
            for x in ix:
                if isinstance(x, frozenset):
                    tg |= tags_of(x)
            for a in b:
                if a[0] == "o":
                    o = st.heap.get(a[1])
                    if o.kind in ("list", "tuple"):
                        if any(x is not None and x != V(K(0)) for x in ix[:2]):
                            self.pol.sliced(self, st, a, e)
                        oid = self.alloc(st, o.kind, e, tag="slice" + o.kind)
                        n = st.heap.get(oid).copy()
                        if not n.multi and isinstance(o.items, list) and lo[0] and hi[0] and not o.multi and not o.elems:
                            n.items = o.items[lo[1]:hi[1]]
                        else:
                            n.items = None
                            n.elems = cap(n.elems | all_elems(o))
                        n.tags = n.tags | o.tags | (frozenset([o.path]) if o.sym else NOTAGS)
                        st.heap.put(oid, n)
                        r |= V(("o", oid))
                    else:
                        r |= V(ANY)
                elif a == NONE:
                    miss = True
                    self.may(st, "TypeError", e, len(b) == 1)
                elif a[0] == "k" and a[1] == "str" and lo[0] and hi[0]:
                    r |= V(K(a[2][lo[1]:hi[1]]))
                elif a[0] in ("k", "p"):
                    r |= V(Pr("str" if a[1] in ("str",) else "any", (a[2] if a[0] == "p" else NOTAGS) | tg))
            if miss and not r and self.pol.exact:
                return None
            return r or V(ANY)
        ok, c = const_of(ix)
        for a in b:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind == "dict" or isinstance(o.items, dict):
                    if isinstance(o.items, dict) and not o.multi:
                        hit = frozenset()
                        for k in ix:
                            if k in o.items:
                                hit |= o.items[k]
                            elif k[0] == "p":
                                hit |= all_elems(o)
                        if not hit and o.default is not None:
                            hit = o.default(self, st)
                            o2 = st.heap.get(a[1]).copy()
                            for k in ix:
                                if k[0] == "k":
                                    o2.items[k] = hit
                            st.heap.put(a[1], o2)
                        if not hit and ix and all(k[0] in ("k", "cl") for k in ix) and not o.elems:
                            miss = True
                            self.may(st, "KeyError", e, len(b) == 1)
                            continue
                        if not all(k in o.items for k in ix) and o.default is None:
                            self.may(st, "KeyError", e)
                        r |= hit
                    else:
                        if o.default is None:
                            self.may(st, "KeyError", e)
                        r |= all_elems(o)
                        if o.default is not None:
                            d = o.default(self, st)
                            o2 = st.heap.get(a[1]).copy()
                            o2.elems = o2.elems | d
                            st.heap.put(a[1], o2)
                            r |= d
                elif ok and isinstance(c, int) and isinstance(o.items, list) and not o.multi and -len(o.items) <= c < len(o.items):
                    r |= o.items[c]
                elif o.kind in ("list", "tuple"):
                    if ok and isinstance(c, int) and isinstance(o.items, list) and not o.multi and not o.elems:
                        miss = True
                        self.may(st, "IndexError", e, len(b) == 1)
                        continue
                    self.may(st, "IndexError", e)
                    r |= all_elems(o)
                elif o.sym:
                    self.may(st, "*", e)
                    r |= self.make_sym(st, ("obj",), (o.path or "?") + "[*]", True)
                else:
                    r |= V(ANY)
            elif a[0] == "k" and a[1] == "str" and ok and isinstance(c, int):
                if -len(a[2]) <= c < len(a[2]):
                    r |= V(K(a[2][c]))
                else:
                    miss = True
                    self.may(st, "IndexError", e, len(b) == 1)
            elif a == NONE:
                miss = True
                self.may(st, "TypeError", e, len(b) == 1)
            elif a[0] in ("k", "p"):
                self.may(st, "TypeError" if a[0] == "k" and a[1] != "str" else "IndexError" if a[1] == "str" else "*", e)
                tg = (a[2] if a[0] == "p" else NOTAGS) | tags_of(ix)
                r |= V(Pr("str" if a[1] == "str" else "any", tg))
            elif a[0] == "ext":
                r |= V(ANY)
        if miss and not r and self.pol.exact:
            return None
        return cap(r) or V(ANY)

    def e_List(self, e, st, kind="list"):
        out = [(st, [])]
        for x in e.elts:
            nxt = []
            for s1, acc in out:
                for s2, v in self.ev(x, s1):
                    nxt.append((s2, acc + [v]))
            out = nxt
        res = []
        for s1, acc in out:
            res.append((s1, V(self.new_seq(s1, kind, acc, e))))
        return res

    def e_Tuple(self, e, st):
        return self.e_List(e, st, "tuple")

    def e_Set(self, e, st):
        return self.e_List(e, st, "set")

    def new_seq(self, st, kind, items, node, tag=""):
        distinct = self.pol.distinct(self, st, items, node) if kind == "set" else None
        if kind == "tuple" and not self.pol.exact and not self.loading:
            # a constant tuple is the same one each time it is evaluated
            oid = ("a", id(node) if node is not None else 0, tag + kind, self.ctx())
            o = st.heap.get(oid) if oid in st.heap else None
            if o is not None and not o.multi and o.items == list(items) and all(self.constant(st, v) for v in items):
                return ("o", oid)
        oid = self.alloc(st, kind, node, tag=tag + kind)
        o = st.heap.get(oid).copy()
        if distinct is not None and not o.multi:
            o.items = distinct
        elif o.multi or kind == "set":
            if kind == "tuple" and isinstance(o.items, list) and len(o.items) == len(items):
                o.items = [cap(x | y) for x, y in zip(o.items, items)]
            elif kind == "tuple":
                for v in items:
                    o.elems = cap(o.elems | v)
                o.elems = cap(all_elems(o))
                o.items = None
            else:
                for v in items:
                    o.elems = cap(o.elems | v)
        else:
            o.items = list(items)
        st.heap.put(oid, o)
        return ("o", oid)

    def constant(self, st, v):
        for a in v:
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind != "tuple" or o.multi or not isinstance(o.items, list) or not all(self.constant(st, x) for x in o.items):
                    return False
            elif a[0] not in ("k", "fn", "cl"):
                return False
        return len(v) == 1

    def new_summary(self, st, kind, elems, node, tag="", keys=frozenset(), tags=NOTAGS):
        oid = self.alloc(st, kind, node, tag=tag + kind)
        o = st.heap.get(oid).copy()
        o.items = None
        o.elems = cap(o.elems | elems)
        o.keys = cap(o.keys | keys)
        o.tags = o.tags | tags
        st.heap.put(oid, o)
        return ("o", oid)

    def e_Dict(self, e, st):
        out = [(st, [])]
        for kx, vx in zip(e.f["keys"], e.f["values"]):
            nxt = []
            for s1, acc in out:
                for s2, kv in self.ev(kx, s1):
                    for s3, vv in self.ev(vx, s2):
                        nxt.append((s3, acc + [(kv, vv)]))
            out = nxt
        res = []
        for s1, acc in out:
            oid = self.alloc(s1, "dict", e)
            o = s1.heap.get(oid).copy()
            if o.multi or any(len(k) != 1 or next(iter(k))[0] not in ("k", "cl", "fn") for k, _v in acc):
                for k, v in acc:
                    o.elems = cap(o.elems | v)
                    o.keys = cap(o.keys | k)
                o.items = None if (acc or o.multi) else o.items
            else:
                o.items = {next(iter(k)): v for k, v in acc}
            s1.heap.put(oid, o)
            res.append((s1, V(("o", oid))))
        return res

    def e_BoolOp(self, e, st):
        isand = opname(e.op) == "And"
        res = []
        cur = [st]
        vals = e.f["values"]
        for i, x in enumerate(vals):
            nxt = []
            for s in cur:
                for s1, v in self.ev(x, s):
                    if i == len(vals) - 1:
                        res.append((s1, v))
                        continue
                    go, stop = set(), set()
                    for a in v:
                        t = self.truth(s1, a)
                        if t is None:
                            go.add(a)
                            stop.add(a)
                        elif t == isand:
                            go.add(a)
                        else:
                            stop.add(a)
                    if stop:
                        s2 = s1.fork()
                        res.append((s2, frozenset(stop)))
                    if go:
                        s3 = s1.fork() if stop else s1
                        self.refine(x, frozenset(go), s3)
                        nxt.append(s3)
            cur = self.merge(nxt)
        return self.merge_pairs(res)

    def merge_pairs(self, pairs):
        if len(pairs) <= 1:
            return pairs
        groups = {}
        order = []
        for s, v in pairs:
            k = self.pol.key(s)
            if k in groups:
                groups[k] = (self.join(groups[k][0], s), cap(groups[k][1] | v))
            else:
                groups[k] = (s, v)
                order.append(k)
        return [groups[k] for k in order]

    def e_UnaryOp(self, e, st):
        op = opname(e.op)
        if op == "Not":
            res = [(s, V(K(not t))) for s, t in self.cond(e.operand, st)]
            pc = st.pc
            for s, _v in res:
                s.pc = pc
            return self.merge_pairs(res)
        res = []
        for s, v in self.ev(e.operand, st):
            h = self.pol.binop(self, s, op, v, frozenset(), e)
            if h is not None:
                res.append((s, h))
                continue
            ok, c = const_of(v)
            if ok and isinstance(c, (int, float)) and op == "USub":
                res.append((s, V(K(-c))))
            else:
                res.append((s, V(*[Pr(a[1] if a[0] in "kp" and a[1] in ("int", "float") else "any", (a[2] if a[0] == "p" else NOTAGS) | {"op:"})
                                   if not (a[0] == "k" and op == "USub" and isinstance(a[2], (int, float))) else K(-a[2]) for a in v])))
        return res

    def e_BinOp(self, e, st):
        res = []
        for s1, l in self.ev(e.left, st):
            for s2, r in self.ev(e.right, s1):
                magic = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(opname(e.op))
                insts = [a for a in l if a[0] == "o" and s2.heap.get(a[1]).kind == "inst" and s2.heap.get(a[1]).cls]
                called = False
                if magic and insts:
                    for a in insts:
                        fis = {c.find(magic) for c in s2.heap.get(a[1]).cls} - {None}
                        for fi in fis:
                            called = True
                            res += self.invoke(s2.fork(), fi, [V(a), r], {}, e, None, None, a)
                rest = frozenset(a for a in l if a not in insts) if called else l
                if rest:
                    res.append((s2, self.binop(s2, opname(e.op), rest, r, e)))
        return self.merge_pairs(res)

    def binop(self, st, op, l, r, node):
        h = self.pol.binop(self, st, op, l, r, node)
        if h is not None:
            return h
        ok1, a = const_of(l)
        ok2, b = const_of(r)
        if ok1 and ok2:
            try:
                v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                     "Div": lambda: a // b if isinstance(a, int) and isinstance(b, int) else a / b,
                     "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                     "Pow": lambda: a ** b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
                if isinstance(v, (int, float, str, bool)) and (not isinstance(v, str) or len(v) < 500):
                    return V(K(v))
            except Exception:
                pass
        tg = set(tags_of(l) | tags_of(r)) | {"op:"}
        seqs = [x for x in l | r if x[0] == "o" and st.heap.get(x[1]).kind in ("list", "tuple")]
        if seqs and op == "Add":
            kind = st.heap.get(seqs[0][1]).kind
            la, ra = self.exact_iter(st, l), self.exact_iter(st, r)
            if la is not None and ra is not None:
                return V(self.new_seq(st, kind, la + ra, node, "add"))
            els = frozenset()
            for x in seqs:
                els |= all_elems(st.heap.get(x[1]))
            return V(self.new_summary(st, kind, els, node, "add"))
        if op == "Mod" and any(x[0] in "kp" and x[1] == "str" for x in l):
            for x in r:
                if x[0] == "o":
                    o = st.heap.get(x[1])
                    tg |= tags_of(all_elems(o)) | self.obj_tags(st, all_elems(o)) | (frozenset([o.path]) if o.sym else NOTAGS)
            if ok1 and len(r) == 1:
                x = next(iter(r))
                args = None
                if x[0] == "k":
                    args = x[2]
                elif x[0] == "o" and st.heap.get(x[1]).kind == "tuple":
                    o = st.heap.get(x[1])
                    if o.items is not None and all(const_of(i)[0] for i in o.items):
                        args = tuple(const_of(i)[1] for i in o.items)
                if args is not None:
                    try:
                        return V(K(a % args))
                    except Exception:
                        pass
            return V(Pr("str", tg))
        if seqs and op == "Mult":
            els = frozenset()
            for x in seqs:
                els |= all_elems(st.heap.get(x[1]))
            return V(self.new_summary(st, st.heap.get(seqs[0][1]).kind, els, node, "mul"))
        for x in l | r:
            if x[0] == "o":
                o = st.heap.get(x[1])
                tg |= o.tags | (frozenset([o.path]) if o.sym and o.path else NOTAGS)
        kinds = {x[1] for x in (l | r) if x[0] in "kp"}
        sets = [x for x in l if x[0] == "o" and st.heap.get(x[1]).kind == "set"]
        if sets:
            els = frozenset()
            for x in sets:
                els |= all_elems(st.heap.get(x[1]))
            if op in ("BitOr", "BitXor"):
                for x in r:
                    if x[0] == "o":
                        els |= all_elems(st.heap.get(x[1]))
            return V(self.new_summary(st, "set", els, node, "setop"))
        if "str" in kinds and op in ("Add", "Mult"):
            k = "str"
        elif kinds <= {"int", "bool"} and kinds:
            k = "int"
        elif "float" in kinds:
            k = "float"
        else:
            k = "any"
        return V(Pr(k, tg))

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            op = opname(e.ops[0])
            res = []
            pc = st.pc
            for s1, l in self.ev(e.left, st):
                for s2, r in self.ev(e.comparators[0], s1):
                    h = self.pol.compare(self, s2, op, l, r, e)
                    if h is not None:
                        res.append((s2, V(K(h))))
                        continue
                    own = self.user_compare(s2, op, l, r, e) if self.pol.exact else None
                    if own is not None:
                        res += own
                        continue
                    magic = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}.get(op)
                    insts = [a for a in l if a[0] == "o" and s2.heap.get(a[1]).kind == "inst" and s2.heap.get(a[1]).cls] if magic else []
                    called = []
                    for a in insts:
                        fis = {c.find(magic) for c in s2.heap.get(a[1]).cls} - {None}
                        for fi in fis:
                            called.append(a)
                            res += self.invoke(s2.fork(), fi, [V(a), r], {}, e, None, None, a)
                    rest = [a for a in l if a not in called]
                    if rest:
                        ts = set()
                        for a in rest:
                            for b in r:
                                t = self.cmp_atoms(s2, op, a, b)
                                ts.add(t)
                        if None in ts or len(ts) != 1:
                            tg = tags_of(l) | tags_of(r) | self.obj_tags(s2, l) | self.obj_tags(s2, r)
                            res.append((s2, V(Pr("bool", tg))))
                        else:
                            res.append((s2, V(K(ts.pop()))))
            for s, _v in res:
                s.pc = pc
            return self.merge_pairs(res)
        cur = [(st, None)]
        tg = set()
        states = [st]
        for x in [e.left] + list(e.comparators):
            nxt = []
            for s in states:
                for s1, v in self.ev(x, s):
                    tg |= tags_of(v) | self.obj_tags(s1, v)
                    nxt.append(s1)
            states = nxt
        return [(s, V(Pr("bool", tg))) for s in self.merge(states)]

    def e_IfExp(self, e, st):
        res = []
        pc = st.pc
        for s, t in self.cond(e.test, st):
            cpc = s.pc
            for s1, v in self.ev(e.body if t else e.orelse, s):
                tg = frozenset(x for c in cpc[len(pc):] for x in c[1])
                if tg:
                    v = frozenset(("p", a[1], a[2] | tg) if a[0] == "p" else a for a in v)
                res.append((s1, v))
        for s, _v in res:
            s.pc = pc
        return self.merge_pairs(res)

    def e_Lambda(self, e, st):
        fi = self.p.fn_for(e, self.frames[-1][1])
        return [(st, V(("fn", fi, self.save_env(st) if self.frames[-1][0] is not None else None)))]

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Repr(self, e, st):
        return [(s, V(Pr("str", tags_of(v)))) for s, v in self.ev(e.value, st)]

    def e_Yield(self, e, st):
        """what a generator yields is collected in a list: the whole generator runs when it is called"""
        out = []
        for s, v in (self.ev(e.value, st) if e.value is not None else [(st, VNONE)]):
            for a in s.env.get("%yield", ()):
                o = s.heap.get(a[1]).copy()
                if isinstance(o.items, list) and not o.multi:
                    o.items = o.items + [v]
                else:
                    o.elems = cap(all_elems(o) | v)
                    o.items = None
                s.heap.put(a[1], o)
            out.append((s, VNONE))
        return out

    def yields(self, fi):
        if fi not in self.generators:
            self.generators[fi] = any(n.t == "Yield" for n in walk_scope(fi.node))
        return self.generators[fi]

    def _comp(self, e, st, elt):
        """single or nested generators; result elements joined"""
        saved = dict(st.env)
        ex = self._comp_exact(e, st.fork(), elt)
        if ex is not None:
            for x, vals in ex:
                for kk in list(x.env):
                    if kk not in saved:
                        del x.env[kk]
                x.env.update(saved)
            return [(x, vals, True, NOTAGS) for x, vals in ex]
        states = [st]
        tags = set()
        for g in e.generators:
            nxt = []
            for x in states:
                for s1, it in self.ev(g.iter, x):
                    tags |= self.iter_tags(s1, it)
                    ev = self.elem_val(s1, it)
                    for y in self.assign(g.target, ev, s1, e):
                        ok = [y]
                        for c in g.get("ifs") or []:
                            ok2 = []
                            for z in ok:
                                for w, t in self.cond(c, z):
                                    if t:
                                        ok2.append(w)
                                    else:
                                        self.pol.filtered(self, w, e)
                            ok = self.merge(ok2)
                        nxt += ok
            states = self.merge(nxt)
        res = []
        if not states:
            st.env = dict(saved)
            return [(st, frozenset(), False, frozenset(tags))]
        for x in states:
            for y, w in elt(x):
                z = self.join(y, st) if y is not st else y
                z.env = dict(saved)
                z.pc = st.pc
                res.append((z, w, False, frozenset(tags)))
        return res

    def _comp_exact(self, e, st, elt):
        """Every iterated sequence is known element by element and every filter is decided: [(state, element values)], or None"""
        def gen(i, x, acc):
            if i == len(e.generators):
                return [(y, acc + [w]) for y, w in elt(x)]
            g = e.generators[i]
            out = []
            for s1, it in self.ev(g.iter, x):
                seq = self.exact_iter(s1, it)
                if seq is None or len(seq) > self.pol.unroll:
                    return None
                cur = [(s1, acc)]
                for v in seq:
                    nxt = []
                    for y, a in cur:
                        for z in self.assign(g.target, v, y, e):
                            live = [(z, a)]
                            for c in g.get("ifs") or []:
                                l2 = []
                                for w, b in live:
                                    r = self.cond(c, w)
                                    if len({t for _s, t in r}) != 1:
                                        return None
                                    for w2, t in r:
                                        (l2 if t else nxt).append((w2, b))
                                live = l2
                            for w, b in live:
                                more = gen(i + 1, w, b)
                                if more is None:
                                    return None
                                nxt += more
                    cur = self.merge_accs(nxt)
                out += cur
            return out
        r = gen(0, st, [])
        return r if r is None else self.merge_accs(r)

    def merge_accs(self, l, limit=8):
        """join states whose collected sequences have the same length when there are too many"""
        if len(l) <= 1 or self.pol.exact and len(l) <= limit:
            return l
        by = {}
        for s, acc in l:
            by.setdefault(len(acc), []).append((s, acc))
        out = []
        for n, g in by.items():
            s = g[0][0]
            for x, _a in g[1:]:
                s = self.join(s, x)
            out.append((s, [frozenset().union(*[a[i] for _x, a in g]) for i in range(n)]))
        return out

    def e_ListComp(self, e, st, kind="list"):
        res = []
        for s, v, exact, tags in self._comp(e, st, lambda x: self.ev(e.elt, x)):
            if exact:
                res.append((s, V(self.new_seq(s, kind, v, e, "comp"))))
            else:
                res.append((s, V(self.new_summary(s, kind, v, e, "comp", tags=tags))))
        return self.merge_pairs(res)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, "set")

    def e_DictComp(self, e, st):
        res = []
        holder = {}

        def elt(x):
            out = []
            for s1, kv in self.ev(e.key, x):
                for s2, vv in self.ev(e.value, s1):
                    holder.setdefault("l", []).append((kv, vv))
                    out.append((s2, vv))
            return out
        for s, v, exact, tags in self._comp(e, st, elt):
            oid = self.alloc(s, "dict", e)
            o = s.heap.get(oid).copy()
            l = holder.get("l", [])
            if exact and not o.multi and all(len(k) == 1 and next(iter(k))[0] == "k" for k, _ in l):
                o.items = {next(iter(k)): w for k, w in l}
            else:
                for k, w in l:
                    o.keys |= k
                    o.elems |= w
                o.items = None
            s.heap.put(oid, o)
            res.append((s, V(("o", oid))))
        return self.merge_pairs(res)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        f = e.func
        # evaluate callee
        res = []
        fpairs = self.ev(f, st)
        for s0, fv in fpairs:
            out = [(s0, [], {}, None, None)]
            for a in e.args or []:
                nxt = []
                for s, acc, kw, sa, ka in out:
                    for s1, v in self.ev(a, s):
                        nxt.append((s1, acc + [v], kw, sa, ka))
                out = self._merge_args(nxt)
            for kwn in e.keywords or []:
                nxt = []
                for s, acc, kw, sa, ka in out:
                    for s1, v in self.ev(kwn.value, s):
                        k2 = dict(kw)
                        k2[kwn.arg] = v
                        nxt.append((s1, acc, k2, sa, ka))
                out = self._merge_args(nxt)
            if e.get("starargs") is not None:
                out = [(s1, acc, kw, v, ka) for s, acc, kw, sa, ka in out for s1, v in self.ev(e.starargs, s)]
            if e.get("kwargs") is not None:
                out = [(s1, acc, kw, sa, v) for s, acc, kw, sa, ka in out for s1, v in self.ev(e.kwargs, s)]
            for s, acc, kw, sa, ka in out:
                res += self.do_call(s, fv, acc, kw, e, sa, ka)
        return self.merge_pairs(res)

    def _merge_args(self, out):
        if len(out) <= 1:
            return out
        groups = {}
        order = []
        for s, acc, kw, sa, ka in out:
            k = self.pol.key(s)
            if k in groups:
                g = groups[k]
                groups[k] = (self.join(g[0], s), [cap(x | y) for x, y in zip(g[1], acc)],
                             {n: cap(g[2][n] | kw[n]) for n in kw}, sa, ka)
            else:
                groups[k] = (s, acc, kw, sa, ka)
                order.append(k)
        return [groups[k] for k in order]

    def do_call(self, st, fv, args, kws, node, sa=None, ka=None):
        res = []
        atoms = [a for a in fv if a != NONE and a[0] != "unset"]
        if not atoms:
            return [(st, V(ANY))]
        for i, a in enumerate(sorted(atoms, key=repr)):
            s = st.fork() if len(atoms) > 1 else st
            res += self.call_atom(s, a, args, kws, node, sa, ka)
        return self.merge_pairs(res)

    def call_atom(self, st, a, args, kws, node, sa=None, ka=None):
        k = a[0]
        if k == "fn":
            fi = a[1]
            recv = None
            if fi.kind == "method" and fi.cls is not None and fi.outer is None and args:
                r0 = [x for x in args[0] if x[0] == "o"]
                recv = r0[0] if r0 else None
            return self.invoke(st, fi, args, kws, node, sa, ka, recv, a[2])
        if k == "bm":
            return self.invoke(st, a[1], [V(a[2])] + args, kws, node, sa, ka, a[2])
        if k == "cl":
            return self.construct(st, a[1], args, kws, node, sa, ka)
        if k == "um":
            return self.call_untyped(st, a[1], a[2], args, kws, node, sa, ka)
        if k == "bb":
            return self.builtin_method(st, a[1], a[2], args, kws, node)
        if k == "ext":
            return self.ext_call(st, a[1], args, kws, node)
        if k == "o":
            o = st.heap.get(a[1])
            if o.cls:
                fis = {c.find("__call__") for c in o.cls} - {None}
                if fis:
                    r = []
                    for fi in fis:
                        r += self.invoke(st.fork(), fi, [V(a)] + args, kws, node, sa, ka, a)
                    return r
            return self.unk(st, V(a), args, kws, node)
        return self.unk(st, V(a), args, kws, node)

    def unk(self, st, fv, args, kws, node):
        r = self.pol.unknown_call(self, st, fv, args, kws, node)
        if r is not None:
            return r
        self.unknown.append(node)
        self.may(st, "*", node)
        tg = set()
        for v in list(args) + list(kws.values()):
            tg |= tags_of(v) | self.obj_tags(st, v)
        tg |= tags_of(fv)
        return [(st, V(Pr("any", tg)))]

    def construct(self, st, c, args, kws, node, sa=None, ka=None):
        r = self.pol.builtin(self, st, "new:" + c.name, ("cl", c), args, kws, node)
        if r is not None:
            return r
        oid = self.alloc(st, "inst", node, c, tag=c.name)
        a = ("o", oid)
        init = c.find("__init__")
        if init is None:
            return [(st, V(a))]
        return [(s, V(a)) for s, _v in self.invoke(st, init, [V(a)] + args, kws, node, sa, ka, a)]

    def call_untyped(self, st, recv, name, args, kws, node, sa, ka):
        """method call on an input object of unknown class: every class that has it"""
        groups = {}
        for fi in self.p.by_method.get(name, ()):
            for c in fi.cls.allsubs():
                if c.find(name) is fi:
                    groups.setdefault(fi, []).append(c)
        r = self.pol.unknown_call(self, st, V(("um", recv, name)), args, kws, node)
        if r is not None:
            return r
        if not groups or len(groups) > 14:
            return self.unk(st, V(("um", recv, name)), args, kws, node)
        res = []
        for fi, cs in groups.items():
            s = st.fork()
            o = s.heap.get(recv[1]).copy()
            o.cls = frozenset(cs)
            o.kind = "inst"
            s.heap.put(recv[1], o)
            if fi.kind == "static":
                rr = self.invoke(s, fi, args, kws, node, sa, ka, None)
            else:
                rr = self.invoke(s, fi, [V(recv)] + args, kws, node, sa, ka, recv)
            for s2, v in rr:
                o = s2.heap.get(recv[1]).copy()
                o.cls = None
                o.kind = "unknown"
                s2.heap.put(recv[1], o)
                res.append((s2, v))
        return self.merge_pairs(res)

    def bind(self, st, fi, args, kws, sa, ka, node):
        env = {}
        ps = fi.params
        for i, v in enumerate(args):
            if i < len(ps):
                if ps[i] == "<tuple>":
                    self.assign_env_tuple(env, fi.node.args.args[i], v, st)
                else:
                    env[ps[i]] = v
            else:
                break
        extra = args[len(ps):]
        kwextra = {}
        for n, v in kws.items():
            if n in ps:
                env[n] = v
            else:
                kwextra[n] = v
        if sa is not None:
            ex = self.exact_iter(st, sa)
            rest = [p for p in ps if p not in env]
            if ex is not None:
                for p, v in zip(rest, ex):
                    env[p] = v
                extra = extra + ex[len(rest):]
            else:
                ev = self.elem_val(st, sa)
                for p in rest:
                    env[p] = ev or V(ANY)
        if ka is not None:
            for a in ka:
                if a[0] == "o":
                    o = st.heap.get(a[1])
                    if isinstance(o.items, dict):
                        for kk, v in o.items.items():
                            if kk[0] == "k" and kk[2] in ps and kk[2] not in env:
                                env[kk[2]] = v
                            elif kk[0] == "k" and kk[2] not in ps:
                                kwextra[kk[2]] = v
        nd = len(fi.defaults)
        off = len(ps) - nd
        for i, d in enumerate(fi.defaults):
            p = ps[off + i]
            if p not in env and p != "<tuple>":
                fr = (None, fi.module, fi.cls)
                self.frames.append(fr)
                try:
                    pr = self.ev(d, st)
                finally:
                    self.frames.pop()
                env[p] = pr[0][1]
                if self.pol.shared_defaults and not self.loading:
                    env[p] = self.share_default(st, fi, i, pr[0][1])
        for p in ps:
            if p not in env and p != "<tuple>":
                env[p] = V(ANY)
        if fi.vararg:
            env[fi.vararg] = V(self.new_seq(st, "tuple", extra, fi.node, "va"))
        if fi.kwarg:
            oid = self.alloc(st, "dict", fi.node, tag="kw")
            o = st.heap.get(oid).copy()
            o.items = {K(n): v for n, v in kwextra.items()}
            st.heap.put(oid, o)
            env[fi.kwarg] = V(("o", oid))
        return env

    def share_default(self, st, fi, i, v):
        """the one object a default expression produced when the function was defined"""
        r = set()
        for a in v:
            if a[0] == "o" and a[1] not in self.base and a[1][0] != "dflt":
                oid = ("dflt", fi.full, i)
                if oid not in st.heap:
                    o = st.heap.get(a[1]).copy()
                    o.path = "default of %s" % fi.params[len(fi.params) - len(fi.defaults) + i]
                    st.heap.put(oid, o)
                a = ("o", oid)
            r.add(a)
        return frozenset(r)

    def assign_env_tuple(self, env, t, v, st):
        for i, e in enumerate(t.elts):
            if e.t == "Name":
                env[e.id] = self.index_val(st, v, i)
            else:
                self.assign_env_tuple(env, e, self.index_val(st, v, i), st)

    def invoke(self, st, fi, args, kws, node, sa=None, ka=None, recv=None, envkey=None):
        r = self.pol.call(self, st, fi, recv, args, kws, node)
        if r is not None:
            return r
        if self.stack.count(fi) > self.pol.max_recursion - 1 or len(self.stack) >= (3 if self.loading else self.pol.max_depth):
            self.cuts.append((fi, node))
            r = self.recursion(st, fi, recv, args, kws, node)
            return r
        # narrow receiver classes to those that dispatch here
        restore = None
        if recv is not None and recv[0] == "o":
            o = st.heap.get(recv[1])
            if o.cls is not None and len(o.cls) > 1 and o.kind == "inst" and fi.kind == "method":
                sub = frozenset(c for c in o.cls if c.find(fi.name) is fi)
                if sub and sub != o.cls:
                    restore = o.cls
                    o = o.copy()
                    o.cls = sub
                    st.heap.put(recv[1], o)
        caller_env = st.env
        caller_pc = st.pc
        self.sites.append(node)
        try:
            env = self.bind(st, fi, args, kws, sa, ka, node)
        finally:
            self.sites.pop()
        if envkey is not None and envkey in self.saved:
            base = dict(self.saved[envkey])
            base.update(env)
            env = base
        elif fi.outer is not None and not fi.cls:
            base = dict(caller_env)
            base.update(env)
            env = base
        st.env = env
        self.stack.append(fi)
        self.envs.append(caller_env)
        self.frames.append((fi, fi.module, fi.cls))
        self.sites.append(node)
        self.inlined.add(fi)
        generator = not fi.lambda_ and self.yields(fi)
        if generator:
            env["%yield"] = V(("o", self.alloc(st, "list", node, tag="generator")))
        saved_pend = self.pend
        self.pend = []
        try:
            self.pol.entered(self, st, fi, node)
            if fi.lambda_:
                rets = self.ev(fi.node.body, st)
                excs = self.take_exc()
            else:
                o = self.block(fi.body, [st])
                rets = o.ret + [(s, VNONE) for s in o.norm]
                if generator:
                    rets = [(s, s.env["%yield"]) for s, _v in rets]
                excs = o.exc
        finally:
            self.stack.pop()
            self.envs.pop()
            self.frames.pop()
            self.sites.pop()
            self.pend = saved_pend
        out = []
        for s, v in self.merge_pairs_ret(rets):
            self.pol.leave(self, s, fi, v, node)
            s.env = dict(caller_env)
            s.pc = caller_pc
            if restore is not None:
                o = s.heap.get(recv[1]).copy()
                o.cls = restore
                s.heap.put(recv[1], o)
            out.append((s, v))
        for s, v, n in excs:
            s.env = dict(caller_env)
            s.pc = caller_pc
            self.pend = self.pend + [(s, v, n)]
        return out

    def merge_pairs_ret(self, rets):
        for s, _v in rets:
            s.env = {}
            s.pc = ()
        return self.merge_pairs(rets)

    def recursion(self, st, fi, recv, args, kws, node):
        tg = set()
        for v in args:
            tg |= tags_of(v)
        return [(st, V(Pr("any", tg)))]

    # ---------------------------------------------------------------- builtin methods
    def list_extend(self, st, a, v, node):
        self.pol.mutate(self, st, a[1], "extend", [v], node)
        o = st.heap.get(a[1]).copy()
        ex = self.exact_iter(st, v)
        if isinstance(o.items, list) and ex is not None and not o.multi:
            o.items = o.items + ex
        else:
            o.elems = cap(all_elems(o) | self.elem_val(st, v))
            o.items = None
        o.tags = o.tags | self.iter_tags(st, v)
        st.heap.put(a[1], o)

    def builtin_method(self, st, a, name, args, kws, node):
        r = self.pol.builtin(self, st, name, a, args, kws, node)
        if r is not None:
            return r
        if a[0] in ("k", "p"):
            return [(st, self.str_method(st, a, name, args, node))]
        o = st.heap.get(a[1])
        kind = o.kind
        arg0 = args[0] if args else frozenset()
        if kind in ("list", "set", "tuple"):
            if name in ("append", "add"):
                self.pol.mutate(self, st, a[1], name, args, node)
                o = st.heap.get(a[1]).copy()
                if isinstance(o.items, list) and not o.multi and kind == "list" and len(o.items) < 200:
                    o.items = o.items + [arg0]
                else:
                    o.elems = cap(all_elems(o) | arg0)
                    if kind != "tuple":
                        o.items = None
                for c in st.pc:
                    if c[0] == "iter":
                        o.tags = o.tags | c[1]
                st.heap.put(a[1], o)
                return [(st, VNONE)]
            if name == "insert":
                self.pol.mutate(self, st, a[1], name, args, node)
                o = st.heap.get(a[1]).copy()
                ok, i = const_of(arg0)
                v = args[1] if len(args) > 1 else V(ANY)
                if ok and isinstance(i, int) and isinstance(o.items, list) and not o.multi:
                    o.items.insert(i, v)
                else:
                    o.elems = cap(all_elems(o) | v)
                    o.items = None
                st.heap.put(a[1], o)
                return [(st, VNONE)]
            if name in ("extend", "update", "difference_update", "intersection_update"):
                for v in args:
                    if name in ("difference_update", "intersection_update"):
                        self.pol.mutate(self, st, a[1], name, args, node)
                    else:
                        self.list_extend(st, a, v, node)
                return [(st, VNONE)]
            if name in ("remove", "discard", "pop", "sort", "reverse", "clear"):
                self.pol.mutate(self, st, a[1], name, args, node)
                o = st.heap.get(a[1]).copy()
                r = frozenset()
                exact = isinstance(o.items, list) and not o.multi and not o.elems
                if name == "clear" and exact or name in ("sort", "reverse") and exact and len(o.items) < 2:
                    if name == "clear":
                        o.items = []
                        st.heap.put(a[1], o)
                    return [(st, VNONE)]
                if name == "reverse" and exact:
                    o.items = o.items[::-1]
                    st.heap.put(a[1], o)
                    return [(st, VNONE)]
                if name == "remove" and exact and self.pol.exact and len(arg0) == 1 and all(len(x) == 1 for x in o.items):
                    if arg0 in o.items:
                        i = o.items.index(arg0)
                        o.items = o.items[:i] + o.items[i + 1:]
                        st.heap.put(a[1], o)
                        return [(st, VNONE)]
                    if not o.items or all(next(iter(x))[0] == "k" for x in o.items + [arg0]):
                        self.may(st, "ValueError", node, True)
                        return []
                if name == "remove":
                    self.may(st, "ValueError", node)
                if name == "pop" and (kind != "list" or exact and not o.items or not exact):
                    self.may(st, "IndexError" if kind == "list" else "KeyError", node, exact and not o.items and kind == "list")
                    if exact and not o.items and kind == "list" and self.pol.exact:
                        return []
                if name == "pop":
                    if isinstance(o.items, list) and o.items and not o.multi and not o.elems:
                        ok, i = const_of(arg0) if args else (True, -1)
                        if ok and isinstance(i, int) and -len(o.items) <= i < len(o.items):
                            r = o.items[i]
                            o.items = [x for j, x in enumerate(o.items) if j != i % len(o.items)]
                            st.heap.put(a[1], o)
                            return [(st, r)]
                    r = all_elems(o)
                if kind != "set" and name != "clear":
                    o.elems = all_elems(o)
                    o.items = None
                if name == "clear":
                    o.elems = frozenset()
                o.removed = True
                st.heap.put(a[1], o)
                if name == "sort":
                    for nm in ("key", "cmp"):
                        if nm in kws:
                            self.call_fn_on_elems(st, kws[nm], all_elems(o), 2 if nm == "cmp" else 1, node)
                    if args:
                        self.call_fn_on_elems(st, args[0], all_elems(o), 2, node)
                return [(st, r if name == "pop" else VNONE)]
            if name in ("index", "count"):
                if name == "index":
                    self.may(st, "ValueError", node)
                return [(st, V(Pr("int", self.iter_tags(st, V(a)))))]
            if name in ("union", "copy", "difference", "intersection", "symmetric_difference"):
                els = all_elems(o)
                if name in ("union", "symmetric_difference"):
                    for v in args:
                        els |= self.elem_val(st, v)
                return [(st, V(self.new_summary(st, kind, els, node, name, tags=self.iter_tags(st, V(a)))))]
            if name in ("issubset", "issuperset", "isdisjoint"):
                return [(st, V(Pr("bool")))]
        if kind == "dict":
            if name in ("get", "setdefault", "pop"):
                hit = frozenset()
                miss = True
                if isinstance(o.items, dict) and not o.multi:
                    miss = False
                    for k in arg0:
                        if k in o.items:
                            hit |= o.items[k]
                        elif k[0] in ("k", "cl") and not o.elems:
                            miss = True
                        else:
                            hit |= all_elems(o)
                            miss = True
                else:
                    hit = all_elems(o)
                dv = args[1] if len(args) > 1 else VNONE
                if name == "setdefault" and miss:
                    self.pol.mutate(self, st, a[1], name, args, node)
                    o = st.heap.get(a[1]).copy()
                    if isinstance(o.items, dict) and not o.multi and all(k[0] in ("k", "cl", "fn") for k in arg0):
                        for k in arg0:
                            o.items[k] = o.items.get(k, frozenset()) | dv
                    else:
                        o.elems = cap(all_elems(o) | dv)
                        o.keys = cap(all_keys(o) | arg0)
                        o.items = None
                    st.heap.put(a[1], o)
                if name == "pop" and len(args) < 2 and (miss or not isinstance(o.items, dict)):
                    sure = not hit and isinstance(o.items, dict) and not o.elems and all(k[0] in ("k", "cl") for k in arg0)
                    self.may(st, "KeyError", node, sure)
                    if sure and self.pol.exact:
                        return []
                if name == "pop" and isinstance(o.items, dict) and not o.multi and not o.elems and len(arg0) == 1 and next(iter(arg0))[0] in ("k", "cl"):
                    self.pol.mutate(self, st, a[1], name, args, node)
                    o = st.heap.get(a[1]).copy()
                    o.items = {k: v for k, v in o.items.items() if k not in arg0}
                    o.removed = True
                    st.heap.put(a[1], o)
                    return [(st, cap(hit | (dv if miss else frozenset())))]
                if name == "pop":
                    self.pol.mutate(self, st, a[1], name, args, node)
                    o = st.heap.get(a[1]).copy()
                    o.elems = all_elems(o)
                    o.keys = all_keys(o)
                    o.items = None
                    o.removed = True
                    st.heap.put(a[1], o)
                return [(st, cap(hit | (dv if (miss or not hit) else frozenset())))]
            if name in ("values", "itervalues"):
                ex = isinstance(o.items, dict) and not o.multi and not o.elems
                if ex:
                    return [(st, self.walking(name, a[1], self.new_seq(st, "list", self.pol.order(list(o.items.values())), node, name)))]
                return [(st, V(self.new_summary(st, "list", all_elems(o), node, name, tags=self.iter_tags(st, V(a)))))]
            if name in ("keys", "iterkeys"):
                ex = isinstance(o.items, dict) and not o.multi and not o.elems
                if ex:
                    return [(st, self.walking(name, a[1], self.new_seq(st, "list", self.pol.order([V(k) for k in o.items]), node, name)))]
                return [(st, V(self.new_summary(st, "list", all_keys(o), node, name, tags=self.iter_tags(st, V(a)))))]
            if name in ("items", "iteritems"):
                ex = isinstance(o.items, dict) and not o.multi and not o.elems
                if ex and len(o.items) <= self.pol.unroll:
                    l = [V(self.new_seq(st, "tuple", [V(k), v], node, "it%d" % i)) for i, (k, v) in enumerate(o.items.items())]
                    return [(st, self.walking(name, a[1], self.new_seq(st, "list", self.pol.order(l), node, name)))]
                t = self.new_seq(st, "tuple", [all_keys(o), all_elems(o)], node, "it")
                return [(st, V(self.new_summary(st, "list", V(t), node, name, tags=self.iter_tags(st, V(a)))))]
            if name == "has_key":
                ts = {self.cmp_atoms(st, "In", k, a) for k in arg0}
                return [(st, V(Pr("bool")) if None in ts or len(ts) != 1 else V(K(ts.pop())))]
            if name == "copy":
                oid = self.alloc(st, "dict", node, tag="copy")
                n = st.heap.get(oid).copy()
                if isinstance(o.items, dict) and not n.multi:
                    n.items = dict(o.items)
                else:
                    n.items = None
                n.elems = n.elems | o.elems
                n.keys = n.keys | o.keys
                st.heap.put(oid, n)
                return [(st, V(("o", oid)))]
            if name in ("update", "clear"):
                self.pol.mutate(self, st, a[1], name, args, node)
                o = st.heap.get(a[1]).copy()
                if name == "clear" and not o.multi:
                    o.items = {}
                    o.elems = frozenset()
                    o.keys = frozenset()
                    o.sym = False
                for v in args:
                    for b in v:
                        if b[0] == "o":
                            self.pairs_into(st, o, b, len(v) == 1)
                if name == "update" and kws:
                    if isinstance(o.items, dict) and not o.multi:
                        o.items = dict(o.items, **{})
                        o.items.update({K(k): v for k, v in kws.items()})
                    else:
                        for k, v in kws.items():
                            o.elems = cap(all_elems(o) | v)
                            o.keys = cap(all_keys(o) | V(K(k)))
                        o.items = None
                st.heap.put(a[1], o)
                return [(st, VNONE)]
        return self.unk(st, V(("bb", a, name)), args, kws, node)

    def pairs_into(self, st, o, a, sure=True):
        """put the entries of a map or of a sequence of pairs into a map (o is a private copy)"""
        src = st.heap.get(a[1])
        exact = isinstance(o.items, dict) and not o.multi and sure
        if src.kind == "dict" or isinstance(src.items, dict):
            if exact and isinstance(src.items, dict) and not src.elems and not src.multi:
                o.items = dict(o.items)
                o.items.update(src.items)
                return
            keys, elems = all_keys(src), all_elems(src)
        else:
            prs = self.exact_iter(st, V(a))
            if prs is not None and exact:
                ks = [self.index_val(st, pv, 0) for pv in prs]
                if all(len(k) == 1 and next(iter(k))[0] == "k" for k in ks) or not self.pol.exact:
                    o.items = dict(o.items)
                    for k, pv in zip(ks, prs):
                        if len(k) == 1:
                            o.items[next(iter(k))] = self.index_val(st, pv, 1)
                    if all(len(k) == 1 for k in ks):
                        return
            ev = self.elem_val(st, V(a))
            keys, elems = self.index_val(st, ev, 0), self.index_val(st, ev, 1)
        o.keys = cap(all_keys(o) | keys)
        o.elems = cap(all_elems(o) | elems)
        o.items = None

    def call_fn_on_elems(self, st, fv, elems, n, node):
        """invoke a callback for its effects; joins the effect into st"""
        r = self.do_call(st.fork(), fv, [elems] * n, {}, node)
        for s, _v in r:
            j = self.join(st, s)
            st.heap = j.heap
            st.client = j.client
        return r

    def str_method(self, st, a, name, args, node):
        consts = [const_of(v) for v in args]
        if name in ("startswith", "endswith"):
            for i, v in enumerate(args):
                ex = self.exact_iter(st, v) if not consts[i][0] else None
                cs = [const_of(x) for x in ex] if ex is not None else [(False, None)]
                if all(c[0] for c in cs):
                    consts[i] = (True, tuple(c[1] for c in cs))
        if a[0] == "k" and a[1] == "str" and all(c[0] for c in consts):
            try:
                v = getattr(a[2], name)(*[c[1] for c in consts])
                if isinstance(v, (str, bool, int)):
                    return V(K(v))
                if isinstance(v, list):
                    return V(self.new_seq(st, "list", [V(K(x)) for x in v], node, name))
                if isinstance(v, tuple):
                    return V(self.new_seq(st, "tuple", [V(K(x)) for x in v], node, name))
            except Exception as ex:
                self.may(st, type(ex).__name__, node)
        elif name in ("index", "rindex"):
            self.may(st, "ValueError", node)
        elif name in ("encode", "decode"):
            self.may(st, "UnicodeError", node)
        if a[0] == "k" and a[1] == "str" and name == "join" and args:
            ex = self.exact_iter(st, args[0])
            if ex is not None:
                cs = [const_of(v) for v in ex]
                if all(c[0] and isinstance(c[1], str) for c in cs):
                    return V(K(a[2].join(c[1] for c in cs)))
        tg = set(a[2]) if a[0] == "p" else set()
        for v in args:
            tg |= tags_of(v)
            tg |= self.obj_tags(st, v)
            for x in v:
                if x[0] == "o":
                    tg |= tags_of(all_elems(st.heap.get(x[1])))
        if name in ("split", "rsplit", "splitlines"):
            return V(self.new_summary(st, "list", V(Pr("str", tg)), node, name))
        if name in ("partition", "rpartition"):
            return V(self.new_seq(st, "tuple", [V(Pr("str", tg))] * 3, node, name))
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace"):
            return V(Pr("bool", tg))
        if name in ("find", "rfind", "index", "rindex", "count"):
            return V(Pr("int", tg))
        return V(Pr("str", tg))

    # ---------------------------------------------------------------- externals
    def ext_call(self, st, name, args, kws, node):
        r = self.pol.builtin(self, st, name, None, args, kws, node)
        if r is not None:
            return r
        a0 = args[0] if args else frozenset()
        tg = set()
        for v in list(args) + list(kws.values()):
            tg |= tags_of(v) | self.obj_tags(st, v)
        tg = frozenset(tg)
        if name.startswith("builtin."):
            n = name[8:]
            if n == "super":
                r = frozenset()
                if len(args) >= 2:
                    for c in args[0]:
                        for x in args[1]:
                            if c[0] == "cl" and x[0] in ("o", "cl"):
                                r |= V(("super", x, c[1]))
                return [(st, r or V(ANY))]
            if n == "len":
                ex = self.exact_iter(st, a0)
                if ex is not None:
                    return [(st, V(K(len(ex))))]
                ok, c = const_of(a0)
                if ok and isinstance(c, str):
                    return [(st, V(K(len(c))))]
                insts = [a for a in a0 if a[0] == "o" and st.heap.get(a[1]).kind == "inst" and st.heap.get(a[1]).cls]
                return [(st, V(Pr("int", tg)))]
            if n in ("str", "unicode", "repr"):
                ok, c = const_of(a0)
                if ok and n == "str" and isinstance(c, (int, str)):
                    return [(st, V(K(str(c))))]
                out = []
                for a in a0:
                    if a[0] == "o" and st.heap.get(a[1]).cls and st.heap.get(a[1]).kind == "inst":
                        fis = {c.find("__str__") for c in st.heap.get(a[1]).cls} - {None}
                        for fi in fis:
                            out += self.invoke(st.fork(), fi, [V(a)], {}, node, None, None, a)
                if out:
                    return self.merge_pairs(out)
                return [(st, V(Pr("str", tg)))]
            if n in ("int", "long", "float"):
                ok, c = const_of(a0)
                if ok and len(args) == 1:
                    try:
                        return [(st, V(K(int(c) if n != "float" else float(c))))]
                    except Exception as ex:
                        self.may(st, type(ex).__name__, node, True)
                        if self.pol.exact:
                            return []
                else:
                    for a in a0:
                        if a == NONE:
                            self.may(st, "TypeError", node)
                        elif a[0] == "p" and a[1] in ("str", "any") or a[0] == "k" and a[1] == "str" or len(args) > 1:
                            self.may(st, "ValueError", node)
                        elif a[0] == "o" and st.heap.get(a[1]).kind != "inst":
                            self.may(st, "TypeError", node)
                return [(st, V(Pr("int" if n != "float" else "float", tg)))]
            if n == "bool":
                ts = {self.truth(st, a) for a in a0}
                return [(st, V(K(ts.pop())) if len(ts) == 1 and None not in ts else V(Pr("bool", tg)))]
            if n in ("hash", "cmp", "ord", "id", "abs", "round", "sum"):
                ok = [const_of(v) for v in args]
                if n == "abs" and ok and ok[0][0]:
                    return [(st, V(K(abs(ok[0][1]))))]
                if n == "ord" and ok and ok[0][0]:
                    return [(st, V(K(ord(ok[0][1]))))]
                if n in ("hash", "sum"):
                    tg = tg | self.deep_tags(st, a0)
                    out = []
                    for a in (a0 if n == "hash" else ()):
                        if a[0] == "o" and st.heap.get(a[1]).cls and st.heap.get(a[1]).kind == "inst":
                            fis = {c.find("__hash__") for c in st.heap.get(a[1]).cls} - {None}
                            for fi in fis:
                                out += self.invoke(st.fork(), fi, [V(a)], {}, node, None, None, a)
                    if out:
                        return self.merge_pairs(out)
                return [(st, V(Pr("int" if n != "abs" else "any", tg)))]
            if n in ("chr", "unichr", "hex"):
                ok, c = const_of(a0)
                if ok and n == "chr":
                    return [(st, V(K(chr(c))))]
                return [(st, V(Pr("str", tg)))]
            if n in ("any", "all") and len(args) == 1:
                ex = self.exact_iter(st, a0)
                if ex is not None:
                    ts = [{self.truth(st, a) for a in v} for v in ex]
                    stop = n == "any"
                    if any(t == {stop} for t in ts):
                        return [(st, V(K(stop)))]
                    if all(t == {not stop} for t in ts):
                        return [(st, V(K(not stop)))]
            if n in ("any", "all", "callable", "issubclass"):
                return [(st, V(Pr("bool", tg | self.deep_tags(st, a0))))]
            if n == "isinstance":
                cl = set()
                for c in (args[1] if len(args) > 1 else ()):
                    if c[0] == "o":
                        cl |= all_elems(st.heap.get(c[1]))
                    else:
                        cl.add(c)
                ts = {self.inst_test(st, a, cl) for a in a0}
                return [(st, V(K(ts.pop())) if len(ts) == 1 and None not in ts else V(Pr("bool", tg)))]
            if n == "hasattr":
                ok, c = const_of(args[1]) if len(args) > 1 else (False, None)
                if ok and self.pol.exact and len(a0) == 1 and next(iter(a0))[0] == "o":
                    has = self.has_field(st, a0, c)
                    if has is not None:
                        return [(st, V(K(has)))]
                return [(st, V(Pr("bool", tg)))]
            if n == "getattr":
                ok, c = const_of(args[1]) if len(args) > 1 else (False, None)
                if ok:
                    out = self.get_attr(st, a0, c, node)
                    if len(args) > 2:
                        has = self.has_field(st, a0, c)
                        if has is False:
                            return [(st, args[2])]
                        if has is None:
                            out = [(s, v | args[2]) for s, v in out]
                    return out
                names = [x[2] for x in args[1] if x[0] == "k"] if len(args) > 1 else []
                if names and len(names) == len(args[1]):
                    r = frozenset()
                    for nm in names:
                        for s, v in self.get_attr(st, a0, nm, node):
                            r |= v
                    return [(st, r)]
                return [(st, V(Pr("any", tg)))]
            if n == "setattr":
                names = [x[2] for x in args[1] if x[0] == "k"] if len(args) > 1 else []
                if len(names) == 1 and len(args[1]) == 1:
                    self.set_attr(st, a0, names[0], args[2], node)
                else:
                    for nm in names or ["*"]:
                        for a in a0:
                            if a[0] == "o":
                                self.pol.write_field(self, st, a[1], nm, args[2], node)
                                o = st.heap.get(a[1]).copy()
                                if nm != "*":
                                    o.fields[nm] = o.fields.get(nm, frozenset()) | args[2]
                                st.heap.put(a[1], o)
                return [(st, VNONE)]
            if n == "type":
                r = frozenset()
                for a in a0:
                    if a[0] == "o" and st.heap.get(a[1]).cls:
                        r |= V(*[("cl", c) for c in st.heap.get(a[1]).cls])
                return [(st, r or V(ANY))]
            if n in ("range", "xrange"):
                cs = [const_of(self.pol.index(self, st, v)) for v in args]
                if all(c[0] for c in cs) and cs:
                    rg = range(*[c[1] for c in cs])
                    if len(rg) <= 200:
                        return [(st, V(self.new_seq(st, "list", [V(K(i)) for i in rg], node, n)))]
                return [(st, V(self.new_summary(st, "list", V(Pr("int", tg)), node, n)))]
            if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
                kind = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "set"}.get(n, "list")
                if not args:
                    return [(st, V(self.new_seq(st, kind, [], node, n)))]
                for nm in ("key", "cmp"):
                    if nm in kws:
                        self.call_fn_on_elems(st, kws[nm], self.elem_val(st, a0), 2 if nm == "cmp" else 1, node)
                ex = self.exact_iter(st, a0)
                if ex is not None and (n in ("list", "tuple") or not ex or n in ("set", "frozenset") and self.pol.distinct(self, st, ex, node) is not None):
                    return [(st, V(self.new_seq(st, kind, ex, node, n)))]
                if ex is not None and n == "sorted" and not kws and all(const_of(v)[0] for v in ex):
                    try:
                        return [(st, V(self.new_seq(st, kind, [V(K(c)) for c in sorted(const_of(v)[1] for v in ex)], node, n)))]
                    except TypeError:
                        pass
                return [(st, V(self.new_summary(st, kind, self.elem_val(st, a0), node, n, tags=self.iter_tags(st, a0))))]
            if n == "dict":
                if not args:
                    oid = self.alloc(st, "dict", node, tag="dict")
                    if kws:
                        o = st.heap.get(oid).copy()
                        if o.items is not None:
                            o.items.update({K(k): v for k, v in kws.items()})
                        st.heap.put(oid, o)
                    return [(st, V(("o", oid)))]
                oid = self.alloc(st, "dict", node, tag="dict")
                o = st.heap.get(oid).copy()
                for a in a0:
                    if a[0] == "o":
                        self.pairs_into(st, o, a, len(a0) == 1)
                if kws and isinstance(o.items, dict):
                    o.items.update({K(k): v for k, v in kws.items()})
                st.heap.put(oid, o)
                return [(st, V(("o", oid)))]
            if n in ("map", "filter"):
                ex = self.exact_iter(st, args[1]) if len(args) == 2 else None
                if ex is not None and n == "map" and len(ex) <= self.pol.unroll and a0 != VNONE:
                    cur = [(st, [])]
                    for v in ex:
                        nxt = []
                        for s, acc in cur:
                            for s1, w in self.do_call(s, a0, [v], {}, node):
                                nxt.append((s1, acc + [w]))
                        cur = self.merge_accs(nxt)
                    return [(s, V(self.new_seq(s, "list", acc, node, n))) for s, acc in cur]
                if ex is not None and n == "filter" and self.pol.exact and len(ex) <= self.pol.max_objs:
                    cur, kept = st, []
                    for v in ex:
                        res = [(cur, v)] if a0 == VNONE else self.do_call(cur, a0, [v], {}, node)
                        ts = {self.truth(s, x) for s, w in res for x in w}
                        if len(res) != 1 or len(ts) != 1 or None in ts:
                            kept = None
                            break
                        cur = res[0][0]
                        if True in ts:
                            kept.append(v)
                    if kept is not None:
                        return [(cur, V(self.new_seq(cur, "list", kept, node, n)))]
                ev = self.elem_val(st, args[1]) if len(args) > 1 else frozenset()
                rv = frozenset()
                if a0 != VNONE and ev:
                    for s, v in self.do_call(st.fork(), a0, [self.elem_val(st, x) for x in args[1:]], {}, node):
                        rv |= v
                        j = self.join(st, s)
                        st.heap = j.heap
                        st.client = j.client
                else:
                    rv = ev
                its = self.iter_tags(st, args[1]) if len(args) > 1 else NOTAGS
                return [(st, V(self.new_summary(st, "list", rv if n == "map" else ev, node, n, tags=its)))]
            if n == "zip":
                exs = [self.exact_iter(st, v) for v in args]
                if all(x is not None for x in exs) and exs:
                    l = [V(self.new_seq(st, "tuple", list(t), node, "z%d" % i)) for i, t in enumerate(zip(*exs))]
                    return [(st, V(self.new_seq(st, "list", l, node, n)))]
                t = self.new_seq(st, "tuple", [self.elem_val(st, v) for v in args], node, "zt")
                return [(st, V(self.new_summary(st, "list", V(t), node, n)))]
            if n == "enumerate":
                ex = self.exact_iter(st, a0)
                if ex is not None and len(ex) <= self.pol.unroll:
                    l = [V(self.new_seq(st, "tuple", [V(K(i)), v], node, "e%d" % i)) for i, v in enumerate(ex)]
                    return [(st, V(self.new_seq(st, "list", l, node, n)))]
                t = self.new_seq(st, "tuple", [V(Pr("int")), self.elem_val(st, a0)], node, "et")
                return [(st, V(self.new_summary(st, "list", V(t), node, n)))]
            if n in ("min", "max"):
                r = frozenset()
                if len(args) == 1:
                    r = self.elem_val(st, a0)
                else:
                    for v in args:
                        r |= v
                    cs = [const_of(v) for v in args]
                    if all(c[0] for c in cs):
                        try:
                            return [(st, V(K((min if n == "min" else max)(c[1] for c in cs))))]
                        except TypeError:
                            pass
                return [(st, cap(frozenset(Pr(a[1], tg) if a[0] == "k" and a[1] in ("int", "float") else a for a in r)) or V(ANY))]
            if n == "divmod":
                return [(st, V(self.new_seq(st, "tuple", [V(Pr("int", tg))] * 2, node, n)))]
            if n in ("staticmethod", "classmethod", "property"):
                return [(st, a0)]
            if n == "next":
                return [(st, self.elem_val(st, a0))]
            if n == "object":
                oid = self.alloc(st, "inst", node, None, tag="object")
                return [(st, V(("o", oid)))]
            if n[:1].isupper() and (n.endswith("Error") or n in ("Exception", "StopIteration", "BaseException", "Warning")):
                return [(st, V(("ext", name + "()")))]
            if n in ("object.__init__", "object.__setattr__"):
                return [(st, VNONE)]
            return [(st, V(Pr("any", tg)))]
        if name == "collections.defaultdict":
            oid = self.alloc(st, "dict", node, tag="dd")
            o = st.heap.get(oid).copy()
            o.default = DefaultFactory(args[0] if args else None, node)
            st.heap.put(oid, o)
            return [(st, V(("o", oid)))]
        if name in ("copy.copy", "copy.deepcopy"):
            return [(st, V(Pr("any", tg)))]
        if name.split(".")[-1] in ("getvalue",):
            return [(st, V(Pr("str", tg)))]
        if "(" in name:
            return [(st, V(Pr("any", tg)))]
        return [(st, V(("ext", name + "()")))] if not tg else [(st, V(("ext", name + "()"), Pr("any", tg)))]

    def deep_tags(self, st, v, depth=3):
        r = set(tags_of(v)) | set(self.obj_tags(st, v))
        if depth:
            for a in v:
                if a[0] == "o":
                    o = st.heap.get(a[1])
                    if o.kind in ("list", "tuple", "set", "dict"):
                        r |= self.deep_tags(st, all_elems(o) | all_keys(o), depth - 1)
        return frozenset(r)


class DefaultFactory(object):
    def __init__(self, fv, node):
        self.fv = fv
        self.node = node

    def __call__(self, ip, st):
        if self.fv is None:
            return V(ANY)
        r = frozenset()
        for _s, v in ip.do_call(st, self.fv, [], {}, self.node):
            r |= v
        return r

    def __eq__(self, other):
        return isinstance(other, DefaultFactory) and self.fv == other.fv

    def __hash__(self):
        return hash(self.fv)


_EXC = {"BaseException": None, "Exception": "BaseException", "StandardError": "Exception", "ValueError": "StandardError",
        "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
        "LookupError": "StandardError", "KeyError": "LookupError", "IndexError": "LookupError", "TypeError": "StandardError",
        "AttributeError": "StandardError", "EnvironmentError": "StandardError", "IOError": "EnvironmentError",
        "OSError": "EnvironmentError", "NotImplementedError": "RuntimeError", "RuntimeError": "StandardError",
        "AssertionError": "StandardError", "NameError": "StandardError", "StopIteration": "Exception",
        "ArithmeticError": "StandardError", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
        "ImportError": "StandardError", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
        "error": "StandardError", "EOFError": "StandardError", "UnboundLocalError": "NameError"}


def exc_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = _EXC.get(a)
    return False


def exc_bases(c):
    r = set()
    for x in c.mro:
        for b in x.extbases:
            n = b.split(".")[-1]
            while n is not None:
                r.add(n)
                n = _EXC.get(n)
    return r


if __name__ == "__main__":
    import time
    from .model import Program
    p = Program()
    t0 = time.time()
    ip = Interp(p)
    base = ip.load_program()
    print(len(base), "objects", ip.steps, "steps", round(time.time() - t0, 2), "s", len(ip.unknown), "unknown calls")
    st = State(Heap(base))
    for c, f in (("pycalendar.value:Value", "_typeMap"), ("pycalendar.icalendar.property:Property", "sDefaultValueTypeMap"),
                 ("pycalendar.icalendar.recurrence:Recurrence", None)):
        o = base[("cls", c)]
        if f is None:
            print(sorted(o.fields)[:10])
            continue
        d = base[next(iter(o.fields[f]))[1]]
        print(f, len(d.items or {}), list((d.items or {}).items())[:4])
