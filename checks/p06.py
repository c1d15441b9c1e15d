"""P06: the time zone database opens only files inside its directory."""
from pyan import front
from pyan.ai import V, K, Pr, VNONE, Policy, TRUE, FALSE, const_of
from pyan.front import AnalysisBroken
from .valid import put

INFO = {
    "level": "other",
    "technique": "taint and path-term analysis: abstract interpretation of every look-up by identifier with symbolic file names, facts established by prefix tests",
    "note": "Every path from a look-up by identifier to an operation on a file is examined with the identifier and the directory symbolic; "
            "symbolic links inside the directory are out of scope.",
    "explanation": "The look-up entry points are interpreted abstractly with an arbitrary identifier; file names are terms over join, "
                   "normalisation and concatenation; a file may be opened only under a true test that its normalised name starts with the "
                   "directory followed by a separator. Every other function of the library that opens files is enumerated.",
    "assumptions": ["the directory contains no symbolic links that lead out of it"],
}

NORM = {"normpath", "abspath", "realpath"}
SINKS = {"open", "file", "fdopen", "mkdir", "makedirs", "remove", "unlink", "rename", "rmdir", "rmtree", "listdir", "walk"}
ENTRY = [("getTimezone", True), ("getTimezoneInCalendar", True), ("isStandardTimezone", True), ("_getTimezone", False),
         ("_isStandardTimezone", False), ("cacheTimezone", False)]
# command line tools that open the files they are given
TOOLS = {"pycalendar.validator", "pycalendar.manager"}


class P06(Policy):
    exact = True
    max_depth = 12

    def __init__(self):
        self.terms = {}
        self.opened = []
        self.n = 0

    def key(self, st):
        self.n += 1
        return self.n

    # terms
    def mk(self, *t):
        s = "%s(%s)" % (t[0], ",".join(map(str, t[1:])))
        self.terms[s] = t
        return V(Pr("str", [s]))

    def term(self, st, v):
        """term name of a value, None if not one"""
        ok, c = const_of(v)
        if ok and isinstance(c, str):
            s = "const(%r)" % c
            self.terms[s] = ("const", c)
            return s
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == "ext" and a[1] in ("os.sep", "os.path.sep"):
                return self.term(st, V(K("/")))
            if a[0] == "ext" and a[1] in ("os.pardir", "os.path.pardir"):
                return self.term(st, V(K("..")))
            if a[0] == "p" and len(a[2]) == 1:
                t = next(iter(a[2]))
                if t in self.terms:
                    return t
        tg = set()
        for a in v:
            if a[0] == "p":
                tg |= set(a[2])
            elif a[0] == "o":
                o = st.heap.get(a[1])
                for i in (o.items if isinstance(o.items, list) else [o.elems]):
                    t = self.term(st, i)
                    if t:
                        tg.add(t)
        s = "mix(%s)" % ";".join(sorted(tg))
        self.terms[s] = ("mix",) + tuple(sorted(tg))
        return s

    def strip(self, t):
        """a term without trailing separator and outer normalisations"""
        while self.terms[t][0] in ("sep", "norm"):
            t = self.terms[t][1]
        return t

    def is_base(self, t):
        return self.strip(t) == "dbpath()"

    def builtin(self, ip, st, name, recv, args, kws, node):
        n = name.split(".")[-1]
        if name.startswith("os.path.") or name.startswith("posixpath."):
            if n == "join" and args:
                ts = [self.term(st, a) for a in args]
                if self.terms[ts[-1]] == ("const", ""):
                    rest = ts[:-1]
                    inner = rest[0] if len(rest) == 1 else next(iter(next(iter(self.mk("join", *rest)))[2]))
                    return [(st, self.mk("sep", inner))]
                return [(st, self.mk("join", *ts))]
            if n in NORM and args:
                t = self.term(st, args[0])
                while self.terms[t][0] in ("norm", "sep"):
                    t = self.terms[t][1]
                return [(st, self.mk("norm", t))]
            if n == "relpath" and len(args) == 2:
                return [(st, self.mk("rel", self.term(st, args[0]), self.term(st, args[1])))]
            if n == "dirname" and args:
                return [(st, self.mk("dirname", self.term(st, args[0])))]
            if n in ("isfile", "exists", "isdir", "lexists"):
                return [(st, V(Pr("bool", ["fs"])))]
            if n == "commonprefix":
                return [(st, self.mk("chars", *[self.term(st, a) for a in args]))]
            return None
        if n in ("startswith",) and recv is not None and recv[0] in ("p", "k") and args:
            x, y = self.term(st, V(recv)), self.term(st, args[0])
            tx, ty = self.terms[x], self.terms[y]
            yes, no = st.fork(), st.fork()
            if ty[0] == "sep" and self.is_base(y) and tx[0] == "norm":
                self.fact(yes, self.strip(x))
            if tx[0] == "rel" and self.is_base(tx[2]) and ty in (("const", ".."),):
                self.fact(no, self.strip(tx[1]))
            return [(yes, V(TRUE)), (no, V(FALSE))]
        if n in SINKS and (recv is None) and args and not name.startswith("posixpath"):
            if name in ("builtin.open", "builtin.file") or name.split(".")[0] in ("os", "io", "codecs", "shutil"):
                x = self.term(st, args[0])
                self.opened.append((node, ip.frames[-1][0], x, self.strip(x) in st.client.get("inside", ())))
                return [(st, V(Pr("any", ["file"])))]
        return None

    def fact(self, st, t):
        st.client = dict(st.client)
        st.client["inside"] = tuple(sorted(set(st.client.get("inside", ())) | {t}))

    def binop(self, ip, st, op, l, r, node):
        if op == "Add":
            a, b = self.term(st, l), self.term(st, r)
            if "tzid" in a + b or "dbpath" in a + b:
                if self.terms[b] == ("const", "/"):
                    return self.mk("sep", a)
                return self.mk("cat", a, b)
        if op == "Mod":
            ok, f = const_of(l)
            if ok and isinstance(f, str):
                t = None
                for a in r:
                    o = st.heap.get(a[1]) if a[0] == "o" else None
                    if o is not None and isinstance(o.items, list):
                        ts = [self.term(st, i) for i in o.items]
                    else:
                        ts = [self.term(st, V(a))]
                    if f == "%s/" and len(ts) == 1:
                        return self.mk("sep", ts[0])
                    t = self.mk("fmt", repr(f), *ts)
                return t
        return None

    def call(self, ip, st, fi, recv, args, kws, node):
        if fi.name in ("parseComponent", "readFoldedLine", "addComponent", "duplicate", "getComponents"):
            return [(st, V(Pr("any")))]
        if fi.name == "getTimezone" and fi.cls is not None and fi.cls.name == "Calendar":
            return [(st, V(Pr("any"))), (st.fork(), VNONE)]
        return None


def run(ctx):
    ctx.rule("contained: a file whose name depends on the requested identifier is opened only where its normalised name has been found to start "
             "with the database directory followed by a separator")
    ctx.rule("openers: no other function of the library opens, lists, creates or removes files (command line tools excepted)")
    cls = ctx.prog.cls("pycalendar.timezonedb:TimezoneDatabase")
    seen = {}
    for name, static in ENTRY:
        fi = cls.find(name)
        if fi is None:
            continue
        pol = P06()
        ip = ctx.interp(pol)
        st = ip.new_state()
        pol.terms["tzid()"] = ("tzid",)
        pol.terms["dbpath()"] = ("dbpath",)
        oid, o = put(st, "db", "inst", cls, "database")
        o.fields["dbpath"] = V(Pr("str", ["dbpath()"]))
        for f in ("tzcache",):
            d, _x = put(st, f, "dict")
            o.fields[f] = V(("o", d))
        for f in ("stdtzcache", "notstdtzcache"):
            d, _x = put(st, f, "set")
            o.fields[f] = V(("o", d))
        cid, c = put(st, "cal", "inst", ctx.prog.cls("pycalendar.icalendar.calendar:Calendar"), "calendar")
        o.fields["calendar"] = V(("o", cid))
        tz = V(Pr("str", ["tzid()"]))
        base_call = pol.call

        def call(ip_, s, f, recv, args, kws, node, base_call=base_call):
            if f.name == "getTimezoneDatabase":
                return [(s, V(("o", oid)))]
            return base_call(ip_, s, f, recv, args, kws, node)
        pol.call = call
        if static:
            ip.call_atom(st, ("fn", fi, None), [tz], {}, fi.node)
        else:
            ip.invoke(st, fi, [V(("o", oid)), tz], {}, fi.node, recv=("o", oid))
        ip.take_exc()
        ctx.used(*ip.inlined)
        ctx.count("entries")
        for node, f, term, ok in pol.opened:
            w = "%s:%d %s" % (f.module.rel, node.ln, f.full)
            seen[id(node)] = 1
            ctx.oblige(ok, "contained", "%s|%s" % (name, f.name), w,
                       "a file named %s is opened without a test that it lies inside the database directory" % term)
        ctx.sample("%s: %d file operations" % (fi.full, len(pol.opened)))
    for m in ctx.prog.modules.values():
        if not m.name.startswith("pycalendar") or ".tests" in m.name or m.name in TOOLS:
            continue
        for n in front.walk(m.tree):
            if n.t != "Call":
                continue
            f = n.func
            nm = f.id if f.t == "Name" else f.attr if f.t == "Attribute" and f.value.t == "Name" and f.value.id in ("os", "io", "codecs", "shutil") else None
            if nm in SINKS:
                ctx.oblige(id(n) in seen, "openers", "%s|%s" % (m.name, nm), "%s:%d" % (m.rel, n.ln),
                           "%s is called outside the examined look-ups" % nm)
    ctx.count("modules", len([m for m in ctx.prog.modules if m.startswith("pycalendar")]))
    ctx.floor("contained", 1)
    ctx.floor("entries", 4)
