"""Exact abstract runs over texts with holes and linear integer forms.

Numbers that are not known are linear forms over named symbols with a range ("#" provenance tags); their decimal text is a run of reserved
characters (a hole), so string constants with holes stand for every text of that shape. Text holes stand for arbitrary texts free of the
characters the syntax reserves. Streams and XML elements are modelled; everything else is the ordinary interpreter, one path at a time.
"""
import functools
import re
from pyan.ai import Policy, V, K, Pr, NONE, VNONE, TRUE, FALSE, Obj, const_of
from pyan.front import AnalysisBroken

BASE = 0xF0000          # plane 15: private use
UNKNOWN = "\U0010FFFD"  # text that is not known
SP = 1 << 60


def _hole(c):
    return 0xF0000 <= ord(c) <= 0xFFFFD


class Form(object):
    """c + sum(k * symbol)"""
    __slots__ = ("c", "t")

    def __init__(self, c, t=()):
        self.c = c
        self.t = tuple(sorted((s, k) for s, k in dict(t).items() if k))

    def __eq__(self, o):
        return (self.c, self.t) == (o.c, o.t)

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        r = ["%s%s" % ("" if k == 1 else "-" if k == -1 else "%d*" % k, s) for s, k in self.t]
        if self.c or not r:
            r.append(str(self.c))
        return "+".join(r)

    def add(self, o, sign=1):
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + sign * k
        return Form(self.c + sign * o.c, d)

    def mul(self, n):
        return Form(self.c * n, {s: k * n for s, k in self.t})


class Interval(object):
    """a linear form as a sort key; undecided comparisons are type errors"""

    def __init__(self, pol, f):
        self.pol, self.f = pol, f

    def cmp(self, o):
        g = o.f if isinstance(o, Interval) else Form(o)
        lo, hi = self.pol.bounds(self.f.add(g, -1))
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == hi == 0:
            return 0
        raise TypeError("undecided order")

    def __eq__(self, o):
        return self.cmp(o) == 0

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __gt__(self, o):
        return self.cmp(o) > 0


SETOPS = {"Sub": "difference", "BitOr": "union", "BitAnd": "intersection", "BitXor": "symmetric_difference"}


class _Unknown(Exception):
    pass


class Holes(Policy):
    exact = True
    max_depth = 40
    max_states = 10 ** 6
    loop_iters = 400
    unroll = 2000
    max_recursion = 6
    max_objs = 20000
    max_while = 20000
    longest = 10 ** 9           # no text is longer

    def __init__(self):
        self.n = 0
        self.range = {}         # symbol -> (lo, hi)
        self.forms = {}         # tag -> Form
        self.holes = []         # (tag or text symbol, width)
        self.hidx = {}
        self.textof = {}        # text symbol -> hole index
        self.skeleton = {}      # symbol of a length -> length with one character per hole
        self.lost = []          # places where precision was lost
        self.notes = []         # (node, what) noticed on the way

    def key(self, st):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ symbols
    def sym(self, name, lo, hi):
        self.range[name] = (lo, hi)
        return V(self.atom(Form(0, {name: 1})))

    def atom(self, f):
        if not f.t:
            return K(f.c)
        tag = "#" + repr(f)
        self.forms[tag] = f
        return Pr("int", {tag})

    def form(self, v):
        if len(v) != 1:
            return None
        a = next(iter(v))
        if a[0] == "k" and isinstance(a[2], int):
            return Form(int(a[2]))
        if a[0] == "p" and len(a[2]) == 1:
            return self.forms.get(next(iter(a[2])))
        return None

    def bounds(self, f):
        lo = hi = f.c
        for s, k in f.t:
            a, b = self.range[s]
            lo += min(a * k, b * k)
            hi += max(a * k, b * k)
        return lo, hi

    def hole(self, what, w):
        k = (what, w)
        if k not in self.hidx:
            self.hidx[k] = len(self.holes)
            self.holes.append(k)
        i = self.hidx[k]
        return "".join(chr(BASE + i * 8 + p) for p in range(max(w, 1)))

    def text(self, name):
        """an arbitrary text without reserved characters"""
        return self.hole("text:" + name, 0)

    def floattext(self, name):
        """the text of an arbitrary floating point number"""
        return self.hole("float:" + name, 0)

    def floating(self, name):
        return "float " + name

    def flt(self, v):
        """the name of an abstract floating point number"""
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == "p" and len(a[2]) == 1 and next(iter(a[2])).startswith("float:"):
                return next(iter(a[2]))[6:]
        return None

    def dec(self, f, w=0):
        """the decimal text of a form"""
        if not f.t:
            return ("%%0%dd" % w) % f.c if w else str(f.c)
        lo, hi = self.bounds(f)
        if lo >= 0:
            if w and hi >= 10 ** w:
                return None
            return self.hole("#" + repr(f), w)
        if hi < 0 and not w:
            return "-" + self.hole("#" + repr(f.mul(-1)), 0) if self.reg(f.mul(-1)) else None
        return None

    def reg(self, f):
        self.atom(f)
        return True

    def num(self, s):
        """the form a text denotes, or None"""
        m = re.match(r"^\s*([+-]?)(.*?)\s*$", s, re.S)
        sign, body = m.group(1), m.group(2)
        f = None
        if body and all(_hole(c) for c in body):
            i, p = divmod(ord(body[0]) - BASE, 8)
            what, w = self.holes[i]
            if p == 0 and what[0] == "#" and len(body) == max(w, 1) and all(ord(c) - BASE == i * 8 + q for q, c in enumerate(body)):
                f = self.forms[what]
        elif re.match(r"^\d+$", body):
            f = Form(int(body))
        if f is not None and sign == "-":
            f = f.mul(-1)
        return f

    def shape(self, s):
        """the text with hole characters replaced by a typical character"""
        return "".join(("7" if self.holes[(ord(c) - BASE) // 8][0][0] in "#f" else "a") if _hole(c) else c for c in s)

    def show(self, s):
        r = ""
        for c in s:
            if _hole(c):
                i, p = divmod(ord(c) - BASE, 8)
                if p == 0:
                    what, w = self.holes[i]
                    r += "<%s%s>" % (what.replace("#", "").replace("text:", "").replace("float:", ""), "/%d" % w if w else "")
            elif c == UNKNOWN:
                r += "<?>"
            else:
                r += c
        return r

    # ------------------------------------------------------------ operations
    def binop(self, ip, st, op, l, r, node):
        if op == "Mod":
            ok, s = const_of(l)
            if ok and isinstance(s, str):
                return self.percent(ip, st, s, r)
        if op in SETOPS and len(l) == 1 and r and len(r) == 1:
            a, b = next(iter(l)), next(iter(r))
            x, y = self.exact_set(st, a), self.exact_set(st, b)
            if x is not None and y is not None:
                out = self.combine(ip, st, SETOPS[op], x, y, node)
                return None if out is None else V(ip.new_seq(st, "set", out, node, "setop"))
        f, g = self.form(l), self.form(r) if r else None
        if f is None:
            return None
        if op == "USub":
            return V(self.atom(f.mul(-1)))
        if op == "UAdd":
            return l
        if g is None or not (f.t or g.t):
            return None
        if op in ("Add", "Sub"):
            return V(self.atom(f.add(g, 1 if op == "Add" else -1)))
        if op == "Mult" and (not f.t or not g.t):
            return V(self.atom(f.mul(g.c) if not g.t else g.mul(f.c)))
        if op in ("Div", "FloorDiv", "Mod") and not g.t and g.c > 0:
            k = g.c
            q, m = self.divmod(f, k)
            x = m if op == "Mod" else q
            if x is not None:
                return V(self.atom(x))
            self.lost.append(node)
            if op == "Mod":
                return V(self.fresh("%s%%%d" % (f, k), 0, k - 1))
            lo, hi = self.bounds(f)
            return V(self.fresh("%s/%d" % (f, k), lo // k, hi // k))
        return None

    def fresh(self, name, lo, hi):
        name = "(" + name + ")"
        self.range[name] = (lo, hi)
        return self.atom(Form(0, {name: 1}))

    def divmod(self, f, k):
        big = {s: c // k for s, c in f.t if c % k == 0}
        rest = Form(f.c % k, {s: c for s, c in f.t if c % k})
        lo, hi = self.bounds(rest)
        if lo // k == hi // k:
            j = lo // k
            return Form(f.c // k + j, big), rest.add(Form(j * k), -1)
        rest = Form(f.c, {s: c for s, c in f.t if c % k})
        lo, hi = self.bounds(rest)
        if lo // k == hi // k:
            j = lo // k
            return Form(j, big), rest.add(Form(j * k), -1)
        return None, None

    def percent(self, ip, st, s, r):
        args = None
        if len(r) == 1:
            a = next(iter(r))
            if a[0] == "o" and st.heap.get(a[1]).kind == "tuple":
                args = st.heap.get(a[1]).items
            elif a[0] != "o" or "%s" in s or "%r" in s:
                args = [r]
        if args is None:
            return V(K(s + UNKNOWN))
        parts = re.split(r"(%%|%[-+0# ]*\d*(?:\.\d+)?[sdifrxX])", s)
        out, i = "", 0
        for p in parts:
            if p == "%%":
                out += "%"
            elif p[:1] == "%" and len(p) > 1:
                if i >= len(args):
                    return V(K(UNKNOWN))
                t = self.fmt(ip, st, p, args[i])
                i += 1
                out += UNKNOWN if t is None else t
            else:
                out += p
        return V(K(out))

    def fmt(self, ip, st, spec, v):
        ok, c = const_of(v)
        if ok and spec[-1] in "dirsx" and not (isinstance(c, str) and spec != "%s"):
            try:
                return spec % c
            except Exception:
                return None
        if ok and isinstance(c, str) and spec == "%s":
            return c
        f = self.form(v)
        m = re.match(r"^%(0\d)?[dis]$", spec)
        if f is not None and m:
            return self.dec(f, int(m.group(1)) if m.group(1) else 0)
        if spec == "%s":
            return self.textval(ip, st, v)
        return None

    def textval(self, ip, st, v):
        """str() of a value"""
        ok, c = const_of(v)
        if ok:
            return c if isinstance(c, str) else str(c) if isinstance(c, (int, type(None))) else None
        f = self.form(v)
        if f is not None:
            return self.dec(f)
        f = self.flt(v)
        if f is not None:
            return self.floattext(f)
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind == "inst" and o.cls and all(c.find("__str__") for c in o.cls):
                    m = ip.get_attr(st, v, "__str__", NODE)
                    r = self.once(ip, m[0][0], m[0][1], [], NODE) if len(m) == 1 and m[0][0] is st else None
                    ok, c = const_of(r) if r is not None else (False, None)
                    if ok and isinstance(c, str):
                        return c
        return None

    def index(self, ip, st, v):
        """positions count a hole as one character"""
        f = self.form(v)
        if f is not None and any(s in self.skeleton for s, _k in f.t):
            c = f.c + sum(k * self.skeleton[s] for s, k in f.t if s in self.skeleton)
            return V(self.atom(Form(c, {s: k for s, k in f.t if s not in self.skeleton})))
        return v

    def literal(self, node):
        """a number other than 0, 1 and -1 is written in the comparison"""
        for x in [node.get("left")] + list(node.get("comparators") or ()):
            if x is not None and x.t == "Num" and x.n not in (0, 1, -1):
                return True
            if x is not None and x.t in ("Tuple", "List") and x.elts and all(y.t == "Num" for y in x.elts):
                return True
        return False

    def compare(self, ip, st, op, l, r, node):
        if op in ("Is", "IsNot"):
            return None
        if self.skeleton and not self.literal(node):
            l2, r2 = self.index(ip, st, l), self.index(ip, st, r)
            if (l2, r2) != (l, r):
                ok1, a = const_of(l2)
                ok2, b = const_of(r2)
                if ok1 and ok2 and op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
                    return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if op in ("In", "NotIn") and len(l) == 1 and len(r) == 1:
            a, b = next(iter(l)), next(iter(r))
            o = st.heap.get(b[1]) if b[0] == "o" else None
            if o is not None and o.kind in ("set", "list", "tuple") and isinstance(o.items, list) and not o.multi and not o.elems:
                i = self.find(ip, st, o.items, l, node, o.kind == "set")
                if i is not None:
                    return (i >= 0) == (op == "In")
            if o is not None and o.kind == "set" and not o.multi and o.items is None and not o.sym and a[0] == "k":
                els = o.elems | o.keys
                if all(x[0] == "k" for x in els):
                    return (a in els) == (op == "In")
            ok1, a = const_of(l)
            ok2, b = const_of(r)
            if ok1 and ok2 and isinstance(a, str) and isinstance(b, str) and any(_hole(c) for c in a) and not any(_hole(c) for c in b):
                return (self.shape(a) in b) == (op == "In")
            return None
        if op in ("Eq", "NotEq"):
            t = self.equal(st, l, r, ip, node)
            if t is not None:
                return t == (op == "Eq")
        f, g = self.form(l), self.form(r)
        if f is None or g is None or not (f.t or g.t):
            return None
        lo, hi = self.bounds(f.add(g, -1))
        if op in ("Eq", "NotEq"):
            if lo == hi == 0:
                return op == "Eq"
            if lo > 0 or hi < 0:
                return op == "NotEq"
        for o, sure, never in (("Lt", hi < 0, lo >= 0), ("LtE", hi <= 0, lo > 0), ("Gt", lo > 0, hi <= 0), ("GtE", lo >= 0, hi < 0)):
            if op == o:
                return True if sure else False if never else None
        return None

    def equal(self, st, l, r, ip=None, node=None, d=0):
        """definite equality of plain values and of sequences and maps of them"""
        if len(l) != 1 or len(r) != 1:
            return None
        a, b = next(iter(l)), next(iter(r))
        if a[0] == "o" and b[0] == "o":
            x, y = st.heap.get(a[1]), st.heap.get(b[1])
            if x.multi or y.multi or x.elems or y.elems or x.sym or y.sym:
                return None
            if x.kind in ("list", "tuple") and y.kind in ("list", "tuple"):
                if x.kind != y.kind:
                    return False
                if not isinstance(x.items, list) or not isinstance(y.items, list):
                    return None
                if len(x.items) != len(y.items):
                    return False
                ts = [self.equal(st, i, j, ip, node, d + 1) for i, j in zip(x.items, y.items)]
                return False if False in ts else None if None in ts else True
            if x.kind == "dict" and y.kind == "dict" and isinstance(x.items, dict) and isinstance(y.items, dict):
                if set(x.items) != set(y.items):
                    return False
                ts = [self.equal(st, v, y.items[k], ip, node, d + 1) for k, v in x.items.items()]
                return False if False in ts else None if None in ts else True
            if x.kind == "set" and y.kind == "set" and ip is not None:
                l, r = self.exact_set(st, a), self.exact_set(st, b)
                if l is None or r is None:
                    return None
                u, w = self.combine(ip, st, "difference", l, r, node), self.combine(ip, st, "difference", r, l, node)
                return False if u or w else None if u is None or w is None else True
            if d and ip is not None and x.kind == "inst" and y.kind == "inst":
                if a == b:
                    return True
                if x.cls and not any(c.find("__eq__") or c.find("__cmp__") for c in x.cls):
                    return False
                m = ip.get_attr(st, l, "__eq__", node)
                if len(m) == 1 and m[0][0] is st and all(z[0] == "bm" for z in m[0][1]):
                    v = self.once(ip, st, m[0][1], [r], node)
                    if v is not None:
                        ok, c = const_of(v)
                        return bool(c) if ok else None
            return None
        if a[0] == "k" and b[0] == "k":
            return a[2] == b[2]
        if self.flt(l) is not None and self.flt(l) == self.flt(r):
            return True
        f, g = self.form(l), self.form(r)
        if f is not None and g is not None:
            lo, hi = self.bounds(f.add(g, -1))
            return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        if (f is not None and f.t and b[0] in ("k", "o")) or (g is not None and g.t and a[0] in ("k", "o")):
            return False
        return None

    def instance(self, ip, st, a, names):
        if a[1] == "int" and self.form(V(a)) is not None and "int" in names:
            return True
        return None

    def truth(self, ip, st, a):
        if a[0] == "p":
            f = self.form(V(a))
            if f is not None:
                lo, hi = self.bounds(f)
                if lo > 0 or hi < 0:
                    return True
        return None

    def read_field(self, ip, st, oid, field, node):
        o = st.heap.get(oid)
        if o.path == "stream" and field in ("write", "getvalue", "close", "read", "readline", "flush", "seek", "reset"):
            return V(("bb", ("o", oid), field))
        if o.path == "element" and field in ("append", "getchildren", "set", "get", "find", "findall", "iter"):
            return V(("bb", ("o", oid), field))
        return None

    def builtin(self, ip, st, name, recv, args, kws, node):
        if recv is not None and recv[0] == "o":
            o = st.heap.get(recv[1])
            if o is not None and o.path == "stream":
                return self.stream(ip, st, recv[1], name, args, node)
            if o is not None and o.path == "element":
                return self.element(ip, st, recv[1], name, args, node)
            if o is not None and o.kind == "set":
                return self.setmeth(ip, st, recv, name, args, node)
            if o is not None and name in ("remove", "index", "count") and o.kind == "list" and len(args) == 1:
                ex = ip.exact_iter(st, V(recv))
                i = self.find(ip, st, ex, args[0], node) if ex is not None else None
                if i is not None:
                    if name == "count":
                        return None if i >= 0 else [(st, V(K(0)))]
                    if i < 0:
                        ip.may(st, "ValueError", node, True)
                        return []
                    if name == "index":
                        return [(st, V(K(i)))]
                    self.mutate(ip, st, recv[1], name, args, node)
                    n = st.heap.get(recv[1]).copy()
                    n.items = ex[:i] + ex[i + 1:]
                    st.heap.put(recv[1], n)
                    return [(st, VNONE)]
                return None
            if o is not None and name == "sort" and o.kind == "list":
                ex = ip.exact_iter(st, V(recv))
                if ex is not None:
                    fn = kws.get("key"), kws.get("cmp") or (args[0] if args else None)
                    out = self.sort(ip, st, ex, fn[0], fn[1], kws.get("reverse"), node)
                    if out is not None:
                        self.mutate(ip, st, recv[1], "sort", args, node)
                        n = st.heap.get(recv[1]).copy()
                        n.items = out
                        st.heap.put(recv[1], n)
                        return [(st, VNONE)]
                self.lost.append(node)
            return None
        if recv is not None and recv[0] == "k" and isinstance(recv[2], str) and recv[1] == "str":
            return self.strmeth(ip, st, name, recv[2], args, node)
        if name in ("cStringIO.StringIO", "StringIO.StringIO"):
            oid = ip.alloc(st, "inst", node, None, tag="stream")
            o = st.heap.get(oid).copy()
            o.path = "stream"
            o.fields["buf"] = args[0] if args else V(K(""))
            o.fields["pos"] = V(K(0))
            st.heap.put(oid, o)
            return [(st, V(("o", oid)))]
        if name in ("xml.etree.cElementTree.Element", "xml.etree.cElementTree.SubElement"):
            sub = name.endswith("SubElement")
            oid = self.new_element(ip, st, args[1 if sub else 0], node)
            if sub:
                for a in args[0]:
                    if a[0] == "o":
                        self.add_child(st, a[1], oid)
            return [(st, V(("o", oid)))]
        if name == "builtin.float" and len(args) == 1:
            ok, c = const_of(args[0])
            if ok and isinstance(c, str):
                if len(c) == 1 and _hole(c) and self.holes[(ord(c) - BASE) // 8][0].startswith("float:"):
                    return [(st, V(Pr("float", {self.holes[(ord(c) - BASE) // 8][0]})))]
                if any(_hole(x) or x == UNKNOWN for x in c):
                    self.lost.append(node)
            if self.flt(args[0]) is not None:
                return [(st, args[0])]
        if name in ("builtin.str", "builtin.unicode") and args and len(args[0]) == 1:
            f = self.flt(args[0])
            if f is not None:
                return [(st, V(K(self.floattext(f))))]
            f = self.form(args[0])
            if f is not None and f.t:
                t = self.dec(f)
                return [(st, V(K(t if t is not None else UNKNOWN)))]
        if name in ("builtin.int", "builtin.long") and len(args) == 1:
            ok, c = const_of(args[0])
            if ok and isinstance(c, str):
                f = self.num(c)
                if f is not None:
                    return [(st, V(self.atom(f)))]
                if any(_hole(x) or x == UNKNOWN for x in c):
                    self.lost.append(node)
                    return [(st, V(Pr("int")))]
            f = self.form(args[0])
            if f is not None:
                return [(st, V(self.atom(f)))]
        if name == "builtin.abs" and args:
            f = self.form(args[0])
            if f is not None and f.t:
                lo, hi = self.bounds(f)
                if lo >= 0:
                    return [(st, args[0])]
                if hi <= 0:
                    return [(st, V(self.atom(f.mul(-1))))]
        if name == "builtin.divmod" and len(args) == 2:
            f, g = self.form(args[0]), self.form(args[1])
            if f is not None and g is not None and f.t and not g.t:
                q = self.binop(ip, st, "FloorDiv", args[0], args[1], node)
                m = self.binop(ip, st, "Mod", args[0], args[1], node)
                if q is not None and m is not None:
                    return [(st, V(ip.new_seq(st, "tuple", [q, m], node, "divmod")))]
            elif f is not None and g is not None and g.c:
                q, m = divmod(f.c, g.c)
                return [(st, V(ip.new_seq(st, "tuple", [V(K(q)), V(K(m))], node, "divmod")))]
        if name == "builtin.cmp" and len(args) == 2:
            ok1, a = const_of(args[0])
            ok2, b = const_of(args[1])
            if ok1 and ok2:
                try:
                    return [(st, V(K((a > b) - (a < b))))]
                except TypeError:
                    return None
            f, g = self.form(args[0]), self.form(args[1])
            if f is not None and g is not None:
                lo, hi = self.bounds(f.add(g, -1))
                if lo == hi == 0 or lo > 0 or hi < 0:
                    return [(st, V(K((lo > 0) - (hi < 0))))]
                return [(st, V(Pr("int", {"cmp"})))]
        if name == "builtin.len" and args:
            ok, c = const_of(args[0])
            if ok and isinstance(c, str) and any(_hole(x) and self.holes[(ord(x) - BASE) // 8][1] == 0 for x in c):
                v = self.fresh("len %s" % self.show(c), len(c), self.longest)
                self.skeleton["(len %s)" % self.show(c)] = len(c)
                return [(st, V(v))]
        if name in ("uuid.uuid4", "uuid.uuid1"):
            t = self.text("generated %d" % len(self.random))
            self.random = set(self.random) | {t}
            return [(st, V(K(t)))]
        if name == "builtin.sorted" and args:
            ex = ip.exact_iter(st, args[0])
            if ex is not None:
                out = self.sort(ip, st, ex, kws.get("key"), kws.get("cmp") or (args[1] if len(args) > 1 else None), kws.get("reverse"), node)
                if out is not None:
                    return [(st, V(ip.new_seq(st, "list", out, node, "sorted")))]
            self.lost.append(node)
        if name == "builtin.reversed" and args:
            ex = ip.exact_iter(st, args[0])
            if ex is not None:
                return [(st, V(ip.new_seq(st, "list", ex[::-1], node, "reversed")))]
        return None

    def strmeth(self, ip, st, name, s, args, node):
        cs = [const_of(v) for v in args]
        if name == "format":
            out, i = "", 0
            for p in re.split(r"(\{\d*\})", s):
                if re.match(r"^\{\d*\}$", p):
                    j = int(p[1:-1]) if len(p) > 2 else i
                    i += 1
                    t = self.textval(ip, st, args[j]) if j < len(args) else None
                    out += UNKNOWN if t is None else t
                else:
                    out += p
            return [(st, V(K(out)))]
        if name == "join" and args:
            ex = ip.exact_iter(st, args[0])
            if ex is not None:
                ts = [const_of(v) for v in ex]
                if all(t[0] and isinstance(t[1], str) for t in ts):
                    return [(st, V(K(s.join(t[1] for t in ts))))]
            return [(st, V(K(UNKNOWN)))]
        if name in ("isdigit", "isalpha", "isalnum", "isspace") and any(_hole(c) for c in s):
            return [(st, V(K(getattr(self.shape(s), name)())))]
        if name in ("encode", "decode"):
            return [(st, V(K(s)))]
        if name in ("strip", "lstrip", "rstrip") and all(c[0] for c in cs):
            t = s
            if UNKNOWN not in s:
                t = self.shape(s)
                a = len(t) - len(t.lstrip(*[c[1] for c in cs])) if name != "rstrip" else 0
                b = len(t.rstrip(*[c[1] for c in cs])) if name != "lstrip" else len(t)
                t = s[a:max(a, b)]
            elif args:
                t = UNKNOWN
            else:
                t = getattr(s, name)()
            return [(st, V(K(t)))]
        return None

    def sort(self, ip, st, items, key, cmpf, rev, node):
        keys = []
        for v in items:
            k = v
            if key is not None and key != VNONE:
                k = self.once(ip, st, key, [v], node)
                if k is None:
                    return None
            keys.append(k)
        if len(items) < 2:
            return items
        ks = [self.conc(st, k) for k in keys]
        order = None
        if (cmpf is None or cmpf == VNONE) and None not in ks:
            try:
                order = sorted(range(len(items)), key=lambda i: ks[i])
            except TypeError:
                order = None
            if order is not None and self.random and self.generated(ks):
                self.notes.append((node, "the order depends on generated identifiers"))
        if order is None:
            def cmp(i, j):
                if cmpf is not None and cmpf != VNONE:
                    r = self.once(ip, st, cmpf, [keys[i], keys[j]], node)
                    ok, c = const_of(r) if r is not None else (False, None)
                    if not ok or not isinstance(c, int):
                        raise _Unknown()
                    return c
                return -1 if self.less(ip, st, keys[i], keys[j], node) else 1 if self.less(ip, st, keys[j], keys[i], node) else 0
            try:
                order = sorted(range(len(items)), key=functools.cmp_to_key(cmp))
            except _Unknown:
                if self.strict_sort:
                    raise AnalysisBroken("the order of a sort cannot be decided")
                return None
        if rev is not None and const_of(rev)[1]:
            order.reverse()
        return [items[i] for i in order]

    strict_sort = False
    reverse_maps = False        # walk maps the other way round: their order is not defined

    def order(self, items):
        return list(reversed(items)) if self.reverse_maps else items

    random = ()         # hole characters of generated identifiers

    def generated(self, ks):
        """whether two keys are told apart by generated identifiers only"""
        def plain(k):
            if isinstance(k, tuple):
                return tuple(plain(x) for x in k)
            return "".join("?" if c in self.random else c for c in k) if isinstance(k, str) else k
        ps = [repr(plain(k)) for k in ks]
        return any(p == q and ks[i] != ks[j] for i, p in enumerate(ps) for j, q in enumerate(ps) if i < j)

    def once(self, ip, st, fn, args, node):
        """the value of a call with a single outcome, in the same state; None otherwise (and the state is as before)"""
        x = st.fork()
        pend = ip.pend
        ip.pend = []
        try:
            out = ip.do_call(x, fn, args, {}, node)
            fine = len(out) == 1 and not ip.pend
        finally:
            ip.pend = pend
        if not fine:
            return None
        st.heap, st.client = out[0][0].heap, out[0][0].client
        return out[0][1]

    def less(self, ip, st, a, b, node):
        """definite a < b"""
        x, y = self.conc(st, a), self.conc(st, b)
        if x is not None and y is not None:
            try:
                return x < y
            except TypeError:
                raise _Unknown()
        if len(a) == 1 and len(b) == 1:
            p, q = next(iter(a)), next(iter(b))
            if p[0] == "o" and q[0] == "o":
                o, w = st.heap.get(p[1]), st.heap.get(q[1])
                if o.kind in ("tuple", "list") and w.kind == o.kind and isinstance(o.items, list) and isinstance(w.items, list):
                    for i, j in zip(o.items, w.items):
                        if self.less(ip, st, i, j, node):
                            return True
                        if self.less(ip, st, j, i, node):
                            return False
                    return len(o.items) < len(w.items)
                for magic in ("__lt__", "__cmp__"):
                    if o.kind == "inst" and o.cls and all(c.find(magic) for c in o.cls):
                        m = ip.get_attr(st, a, magic, node)
                        if len(m) == 1 and m[0][0] is st:
                            r = self.once(ip, st, m[0][1], [b], node)
                            ok, c = const_of(r) if r is not None else (False, None)
                            if ok and isinstance(c, (bool, int)):
                                return bool(c) if magic == "__lt__" else c < 0
                        break
        raise _Unknown()

    def conc(self, st, v, d=3):
        """a concrete sort key, or None"""
        ok, c = const_of(v)
        if ok:
            if isinstance(c, str) and UNKNOWN in c:
                return None
            return (0,) if c is None else (1, c) if isinstance(c, (int, float)) else (2, c)
        f = self.form(v)
        if f is not None:
            return (1, Interval(self, f))
        if len(v) == 1 and d:
            a = next(iter(v))
            if a[0] == "o":
                o = st.heap.get(a[1])
                if o.kind in ("tuple", "list") and isinstance(o.items, list) and not o.elems:
                    r = [self.conc(st, x, d - 1) for x in o.items]
                    return None if any(x is None for x in r) else (3, tuple(r))
        return None

    # ------------------------------------------------------------ sets
    def same(self, ip, st, a, b, node):
        return a == b and len(a) == 1 or self.equal(st, a, b, ip, node, 1)

    def unhashed(self, st, v):
        """an object that sets tell apart by identity"""
        a = next(iter(v))
        o = st.heap.get(a[1]) if a[0] == "o" else None
        return o is not None and o.kind == "inst" and bool(o.cls) and not any(c.find("__hash__") for c in o.cls)

    def find(self, ip, st, items, v, node, hashed=False):
        """position of the first equal item, -1, or None when that is not known"""
        for i, x in enumerate(items):
            if hashed and len(x) == len(v) == 1 and (self.unhashed(st, x) or self.unhashed(st, v)):
                t = x == v
            else:
                t = self.same(ip, st, x, v, node)
            if t is None:
                return None
            if t:
                return i
        return -1

    def distinct(self, ip, st, items, node):
        out = []
        for v in items:
            i = self.find(ip, st, out, v, node, True)
            if i is None:
                return None
            if i < 0:
                out.append(v)
        return out

    def combine(self, ip, st, op, l, r, node):
        """items of l op r for exact collections, or None"""
        def keep(xs, ys, want):
            out = []
            for v in xs:
                i = self.find(ip, st, ys, v, node, True)
                if i is None:
                    return None
                if (i >= 0) == want:
                    out.append(v)
            return out
        if l is None or r is None:
            return None
        if op == "union":
            return self.distinct(ip, st, l + r, node)
        if op == "symmetric_difference":
            a, b = keep(l, r, False), keep(r, l, False)
            return None if a is None or b is None else self.distinct(ip, st, a + b, node)
        return keep(l, r, op == "intersection")

    def exact_set(self, st, a):
        o = st.heap.get(a[1]) if a[0] == "o" else None
        return list(o.items) if o is not None and o.kind == "set" and isinstance(o.items, list) and not o.multi and not o.elems else None

    def setmeth(self, ip, st, recv, name, args, node):
        mine = self.exact_set(st, recv)
        if mine is None:
            return None
        put = None
        r = VNONE
        other = ip.exact_iter(st, args[0]) if len(args) == 1 else None
        if name in ("add", "remove", "discard") and len(args) == 1:
            i = self.find(ip, st, mine, args[0], node, True)
            if i is None:
                return None
            if name == "remove" and i < 0:
                ip.may(st, "KeyError", node, True)
                return []
            put = mine + [args[0]] if name == "add" and i < 0 else mine[:i] + mine[i + 1:] if name != "add" and i >= 0 else mine
        elif name == "clear":
            put = []
        elif name in ("update", "difference_update", "intersection_update") and len(args) == 1:
            put = self.combine(ip, st, {"update": "union", "difference_update": "difference"}.get(name, "intersection"), mine, other, node)
            if put is None:
                return None
        elif name == "copy":
            return [(st, V(ip.new_seq(st, "set", mine, node, name)))]
        elif name in ("union", "difference", "intersection", "symmetric_difference") and len(args) == 1:
            out = self.combine(ip, st, name, mine, other, node)
            return None if out is None else [(st, V(ip.new_seq(st, "set", out, node, name)))]
        elif name in ("issubset", "issuperset", "isdisjoint") and other is not None:
            x, y = (other, mine) if name == "issuperset" else (mine, other)
            out = self.combine(ip, st, "intersection" if name == "isdisjoint" else "difference", x, y, node)
            return None if out is None else [(st, V(K(not out)))]
        if put is None:
            return None
        self.mutate(ip, st, recv[1], name, args, node)
        o = st.heap.get(recv[1]).copy()
        o.items = put
        st.heap.put(recv[1], o)
        return [(st, r)]

    # ------------------------------------------------------------ streams and elements
    def stream(self, ip, st, oid, name, args, node):
        o = st.heap.get(oid).copy()
        ok, buf = const_of(o.fields["buf"])
        if name == "write":
            t = self.textval(ip, st, args[0])
            o.fields["buf"] = V(K(buf + (UNKNOWN if t is None else t)))
            st.heap.put(oid, o)
            return [(st, VNONE)]
        if name == "getvalue":
            return [(st, o.fields["buf"])]
        if name == "read":
            p = const_of(o.fields["pos"])[1]
            o.fields["pos"] = V(K(len(buf)))
            st.heap.put(oid, o)
            return [(st, V(K(buf[p:])))]
        if name == "readline":
            p = const_of(o.fields["pos"])[1]
            e = buf.find("\n", p) + 1 or len(buf)
            o.fields["pos"] = V(K(e))
            st.heap.put(oid, o)
            return [(st, V(K(buf[p:e])))]
        if name in ("seek", "reset"):
            o.fields["pos"] = V(K(0))
            st.heap.put(oid, o)
        return [(st, VNONE)]

    def new_element(self, ip, st, tag, node):
        oid = ip.alloc(st, "inst", node, None, tag="element")
        o = st.heap.get(oid).copy()
        o.path = "element"
        o.fields["tag"] = tag
        o.fields["text"] = VNONE
        o.fields["tail"] = VNONE
        at = ip.alloc(st, "dict", node, tag="attrib")
        o.fields["attrib"] = V(("o", at))
        kids = ip.alloc(st, "list", node, tag="kids")
        o.fields["*kids"] = V(("o", kids))
        st.heap.put(oid, o)
        return oid

    def add_child(self, st, oid, child):
        k = next(iter(st.heap.get(oid).fields["*kids"]))[1]
        o = st.heap.get(k).copy()
        o.items = o.items + [V(("o", child))]
        st.heap.put(k, o)

    def element(self, ip, st, oid, name, args, node):
        o = st.heap.get(oid)
        if name == "append":
            for a in args[0]:
                if a[0] == "o":
                    self.add_child(st, oid, a[1])
            return [(st, VNONE)]
        if name == "getchildren":
            k = next(iter(o.fields["*kids"]))[1]
            return [(st, V(ip.new_seq(st, "list", list(st.heap.get(k).items), node, "kids")))]
        if name == "set":
            at = next(iter(o.fields["attrib"]))[1]
            n = st.heap.get(at).copy()
            n.items = dict(n.items)
            n.items[next(iter(args[0]))] = args[1]
            st.heap.put(at, n)
            return [(st, VNONE)]
        return [(st, V(Pr("any")))]


class Run(object):
    """Scenario steps on one interpreter; every step must have exactly one outcome unless asked for all."""

    def __init__(self, ctx, pol=None):
        self.ctx = ctx
        self.pol = pol or Holes()
        self.ip = ctx.interp(self.pol)
        self.st = self.ip.new_state()
        self.exc = []

    def cls(self, name):
        c = self.ctx.prog.cls(name)
        if c is None:
            raise AnalysisBroken("class %s not found" % name)
        return c

    def outcomes(self, fn, args=(), kws=None, node=None):
        """[(state, value)], [(state, exception value)]"""
        self.ip.pend = []
        self.ip.steps = 0
        st = self.st.fork()
        if isinstance(fn, frozenset):
            out = self.ip.do_call(st, fn, [self.val(a) for a in args], {k: self.val(v) for k, v in (kws or {}).items()}, node or NODE)
        else:
            out = fn(st)
        exc = [(s, v) for s, v, _n in self.ip.take_exc()]
        return out, exc

    def val(self, a):
        return a if isinstance(a, frozenset) else VNONE if a is None else V(K(a))

    def call(self, fn, *args, **kws):
        """the value of a call; None (and self.failed) when it raises. Several outcomes are explored one after the other by explore()."""
        out, exc = self.outcomes(fn, args, kws)
        n = len(out) + len(exc)
        if n == 0:
            self.failed = ["no outcome at all"]
            return None
        i = 0
        if n > 1:
            if self.choices is None:
                raise AnalysisBroken("a scenario has %d outcomes and %d exceptions (%s): %s" % (
                    len(out), len(exc), [self.excname(v) for _s, v in exc], [self.plain(v) for _s, v in out][:4]))
            if self.pos == len(self.choices):
                self.choices.append([0, n])
            i = self.choices[self.pos][0]
            self.pos += 1
        if i >= len(exc):           # failures first
            self.st, v = out[i - len(exc)]
            return v
        s, v = exc[i]
        self.st = s
        self.failed = [self.excname(v)]
        return None

    choices = None
    pos = 0

    def explore(self, fn, limit=60):
        """run a scenario once per combination of outcomes of its calls"""
        st0 = self.st
        self.choices = []
        n = 0
        while True:
            self.pos = 0
            self.st = st0
            n += 1
            if fn() is False:
                break           # a violation: enough
            while self.choices and self.choices[-1][0] + 1 >= self.choices[-1][1]:
                self.choices.pop()
            if not self.choices:
                break
            self.choices[-1][0] += 1
            if n >= limit:
                self.choices = None
                raise AnalysisBroken("a scenario has more than %d combinations of outcomes" % limit)
        self.choices = None
        self.st = st0
        return n

    def excname(self, v):
        for a in v:
            if a[0] == "o":
                c = self.st.heap.get(a[1])
                return ",".join(x.name for x in (c.cls or ())) if c is not None else "?"
            if a[0] in ("ext", "cl"):
                return str(a[1])
        return "?"

    def new(self, cls, *args, **kws):
        c = self.cls(cls) if isinstance(cls, str) else cls
        return self.call(V(("cl", c)), *args, **kws)

    def attr(self, v, name):
        out = self.ip.get_attr(self.st, v, name, NODE)
        if len(out) != 1:
            raise AnalysisBroken("attribute %s has %d outcomes" % (name, len(out)))
        self.st = out[0][0]
        return out[0][1]

    def meth(self, v, name, *args, **kws):
        m = self.attr(v, name)
        if not m or all(a[0] == "p" for a in m):
            raise AnalysisBroken("no method %s" % name)
        return self.call(m, *args, **kws)

    def static(self, cls, name, *args, **kws):
        c = self.cls(cls)
        m = self.attr(V(("cl", c)), name)
        if not m or all(a[0] == "p" for a in m):
            raise AnalysisBroken("no method %s of %s" % (name, c.full))
        return self.call(m, *args, **kws)

    def func(self, mod, name, *args, **kws):
        fi = [f for f in self.ctx.prog.functions if f.full == "%s:%s" % (mod, name)][0]
        return self.call(V(("fn", fi, None)), *args, **kws)

    def stream(self):
        r = self.pol.builtin(self.ip, self.st, "cStringIO.StringIO", None, [], {}, NODE)
        return r[0][1]

    def element(self, tag="root"):
        return V(("o", self.pol.new_element(self.ip, self.st, V(K(tag)), NODE)))

    def list(self, items=()):
        return V(self.ip.alloc_seq(self.st, items)) if hasattr(self.ip, "alloc_seq") else V(self.ip.new_seq(self.st, "list", list(items), NODE, "scenario"))

    def dict(self, items=None):
        oid = self.ip.alloc(self.st, "dict", NODE, tag="scenario")
        if items:
            o = self.st.heap.get(oid).copy()
            o.items = {K(k): self.val(v) for k, v in items.items()}
            self.st.heap.put(oid, o)
        return V(("o", oid))

    def buf(self, stream):
        return const_of(self.st.heap.get(next(iter(stream))[1]).fields["buf"])[1]

    def plain(self, v, d=8):
        """a Python rendering of an abstract value: constants, forms, lists, dicts"""
        ok, c = const_of(v)
        if ok:
            return c
        f = self.pol.form(v)
        if f is not None:
            return f
        f = self.pol.flt(v)
        if f is not None:
            return self.pol.floating(f)
        if len(v) == 1 and d:
            a = next(iter(v))
            if a[0] == "o":
                o = self.st.heap.get(a[1])
                if o.path == "element":
                    return self.xml(v)
                if o.kind in ("list", "tuple") and isinstance(o.items, list) and not o.elems:
                    l = [self.plain(x, d - 1) for x in o.items]
                    return l if o.kind == "list" else tuple(l)
                if o.kind == "dict" and isinstance(o.items, dict) and not o.elems:
                    return {k[2] if k[0] == "k" else k: self.plain(x, d - 1) for k, x in o.items.items()}
        return ("unknown", tuple(sorted(repr(a[:2]) for a in v))[:4])

    def xml(self, v):
        """(tag, text, attributes, [children])"""
        o = self.st.heap.get(next(iter(v))[1])
        kids = self.st.heap.get(next(iter(o.fields["*kids"]))[1]).items
        return (const_of(o.fields["tag"])[1], self.plain(o.fields["text"]), self.plain(o.fields["attrib"]), [self.xml(k) for k in kids])


class _Node(object):
    ln = 0
    t = "Scenario"
    f = {}

    def get(self, _k, d=None):
        return d


NODE = _Node()
