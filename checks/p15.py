"""P15: component structure - the parsers' loops against a reference automaton of nested delimiters."""
from pyan.ai import V, K, Pr, VNONE, Policy, TRUE, FALSE
from pyan import live
from pyan.front import AnalysisBroken
from .valid import put

INFO = {
    "level": "other",
    "technique": "abstract interpretation of the parser loops in product with a reference automaton of begin/end lines, to a fixpoint over abstract states",
    "note": "Each parser loop is explored over every sequence, of any length, of the line classes begin/end of the container and of two component "
            "types, property, VERSION, blank line and end of input, up to three open components at once; property values are abstracted away.",
    "explanation": "The line reader is replaced by a choice among line classes and the loop is run to a fixpoint over (parser state, reference "
                   "state) pairs. No acceptance may coincide with an unbalanced, truncated, stray or unversioned reference state, no rejection "
                   "with a balanced one, and each property and component must go to the component that encloses it.",
    "assumptions": ["nesting deeper than three open components behaves like nesting of three (the parsers keep a stack, not a counter)"],
}

DEPTH = 3


class Everything(object):
    def __contains__(self, x):
        return True


class P15(Policy):
    exact = True
    max_depth = 12
    max_states = 10 ** 6
    loop_iters = 10 ** 6

    def __init__(self, ctx, mode, root):
        self.ctx, self.mode, self.root = ctx, mode, root
        self.seen = set()
        self.bad = []               # (rule, key, node, message)
        self.comps = {}
        self.n = 0
        self.read = 0
        self.reset_client = {}

    # ------------------------------------------------------------ keys
    liveness = {}

    def key(self, st):
        self.n += 1             # paths are never joined; revisited states are cut at the line reader
        return self.n

    def loop_key(self, ip, st):
        return self.fp(ip, st)

    def fp(self, ip, st):
        return (self.shape(st, ip.envs + [st.env]), tuple(sorted((k, repr(v)) for k, v in st.client.items())),
                tuple(tuple(sorted((k, self.fpv(st, v, 4)) for k, v in env.items() if k in keep or k[0] == "%"))
                      for env, keep in zip(ip.envs + [st.env], self.live(ip))))

    def live(self, ip):
        """per frame, the variables that still matter when the next line is read"""
        fis = [None] + list(ip.stack)
        n = len(ip.envs) + 1
        fis = (fis + [None] * n)[:n] if len(fis) <= n else [None] * n
        return [self.live_in(ip, fi) if i and i == n - 1 else Everything() for i, fi in enumerate(fis)]

    def live_in(self, ip, fi):
        if fi is None or fi.lambda_:
            return Everything()
        if fi not in self.liveness:
            def reader(call):
                f = call.func
                name = f.id if f.t == "Name" else f.attr if f.t == "Attribute" else ""
                return name == "readFoldedLine" or name in ip.generator_names()
            names = live.line_loop(fi.node, reader)
            self.liveness[fi] = Everything() if names is None else names
        return self.liveness[fi]

    def fpv(self, st, v, d):
        return tuple(sorted({self.fpa(st, a, d) for a in v}))

    def fpa(self, st, a, d):
        if a[0] != "o":
            return repr(a[:3])[:60]
        o = st.heap.get(a[1])
        if o is None or d == 0 or o.kind == "inst" or not isinstance(o.items, list):
            return repr(a[1]) if o is None or o.kind == "inst" and a[1][0] == "v" else o.kind
        return repr([self.fpv(st, i, d - 1) for i in o.items])

    # ------------------------------------------------------------ reference automaton
    def lines(self, ref):
        root = self.root
        if ref[0]:      # nothing but closing everything could still end in acceptance
            return ["END:" + root, "VERSION:1", None] + (["END:VEVENT", "END:VALARM"] if self.mode != "card" else [])
        r = ["BEGIN:" + root, "END:" + root, "SUMMARY:x", "VERSION:1", "", None]
        if self.mode != "card":
            deep = len(ref[1]) > DEPTH or ref[3] >= 2
            r += ["END:VEVENT", "END:VALARM"] + ([] if deep else ["BEGIN:VEVENT", "BEGIN:VALARM"])
            if deep:
                r.remove("BEGIN:" + root)
        else:
            r += ["BEGIN:VEVENT", "END:VEVENT"]
            if ref[2] >= 3:
                r.remove("BEGIN:" + root)
        return r

    def step(self, ref, line, version):
        """(poison, stack, containers, begins after poison) after a line, plus the actions the parser owes"""
        poison, stack, n, late = ref
        if poison:
            return (poison, stack, n, late + (1 if line.startswith("BEGIN:") else 0)), None
        if not stack:
            if line == "":
                return ref, ()
            if line == "BEGIN:" + self.root:
                return ("", (self.root,), n + 1 if self.mode == "card" else min(n + 1, 2), late), ()
            return ("content outside a component", stack, n, late), None
        top = stack[-1]
        if line == "":
            return ref, ()
        if line.startswith("BEGIN:"):
            what = line[6:]
            if what == self.root or self.mode == "card":
                return ("a %s opened inside another component" % what, stack, n, late), None
            return ("", stack + (what,), n, late), ()
        if line.startswith("END:"):
            if line[4:] != top:
                return ("%s while %s is open" % (line, top), stack, n, late), None
            if len(stack) == 1:
                if self.mode == "card" and not version:
                    return ("a card without VERSION", (), n, late), None
                return ("", (), n, late), (("fin", 0),) if self.mode != "first" else ()
            return ("", stack[:-1], n, late), (("add", len(stack) - 2, len(stack) - 1), ("fin", len(stack) - 1))
        if self.mode == "first" and len(stack) == 1:
            return ref, ()
        return ref, (("prop", len(stack) - 1),)

    # ------------------------------------------------------------ hooks
    def comp(self, st, name, depth, parent):
        key = ("comp", name, depth)
        cls = self.ctx.prog.cls("pycalendar.icalendar.vunknown:UnknownComponent")
        oid, o = put(st, key, "inst", cls, "%s at depth %d" % (name, depth))
        o.fields["mType"] = V(K(name))
        o.fields["mParentComponent"] = parent
        o.fields["mBeginDelimiter"] = V(K("BEGIN:" + name))
        o.fields["mEndDelimiter"] = V(K("END:" + name))
        # whatever the class calls them, the delimiters come from its getters
        return oid

    def depth_of(self, st, v):
        r = set()
        for a in v:
            if a[0] != "o":
                return None
            if a[1][0] == "v" and a[1][1][0] == "comp":
                r.add(a[1][1][2])
            elif a[1][0] == "v" and a[1][1][0] == "root":
                r.add(self.root_depth(st, a[1][1][1]))
            else:
                return None
        return r.pop() if len(r) == 1 else None

    def root_depth(self, st, idx):
        """0, or 'another container' if this one has been used for an earlier container"""
        if self.mode != "card":
            return 0
        n = st.client["ref"][2]
        bind = dict(st.client.get("bind", ()))
        if bind.get(n, idx) != idx or idx in [v for k, v in bind.items() if k != n]:
            return "of another container"
        bind[n] = idx
        st.client = dict(st.client)
        st.client["bind"] = tuple(sorted(bind.items()))
        return 0

    def act(self, st, *what):
        st.client = dict(st.client)
        st.client["acts"] = tuple(sorted(st.client.get("acts", ()) + (what,), key=repr))

    def settle(self, ip, st, node):
        """what the parser did with the last line is what the reference says"""
        line, want = st.client.get("line", ""), st.client.get("want", ())
        acts = st.client.get("acts", ())
        if want is not None and not st.client["ref"][0]:
            if tuple(sorted(want, key=repr)) != acts:
                def show(x):
                    return ", ".join({"fin": "finalise component at depth %s", "prop": "add the property to depth %s",
                                      "add": "add to depth %s the component at depth %s"}[i[0]] % i[1:] for i in x) or "nothing"
                self.bad.append(("placed", "%s|%s" % (self.mode, line.split(":")[0] or "blank"), node,
                                 "on a line %r with %d open, the parser has to: %s; it did: %s" %
                                 (line, len(st.client["ref"][1]), show(sorted(want)), show(acts))))
        st.client = dict(st.client)
        st.client.pop("acts", None)

    def call(self, ip, st, fi, recv, args, kws, node):
        n = fi.name
        if n == "readFoldedLine":
            return self.next_line(ip, st, args, node)
        if n in ("mergeTimezones", "validProperty"):
            return [(st, V(TRUE))]
        if n == "makeComponent":
            argv = args[1:] if fi.kind == "classmethod" or len(args) > 2 else args
            name = [a[2] for a in argv[0] if a[0] == "k"]
            par = argv[1] if len(argv) > 1 else kws.get("parent", VNONE)
            if len(name) != 1 or self.depth_of(st, par) is None:
                raise AnalysisBroken("makeComponent called with something the analysis does not know: %r %r" % (name, par))
            d = self.depth_of(st, par) + 1
            return [(st, V(("o", self.comp(st, name[0], d, par))))]
        if n in ("getBeginDelimiter", "getEndDelimiter") and recv is not None and recv[0] == "o" and recv[1][0] == "v":
            k = recv[1][1]
            name = k[1] if k[0] == "comp" else self.root
            return [(st, V(K(("BEGIN:" if "Begin" in n else "END:") + name)))]
        if n == "getType" and recv is not None and recv[0] == "o" and recv[1][0] == "v" and recv[1][1][0] == "comp":
            return [(st, V(K(recv[1][1][1])))]
        if n == "finalise":
            self.act(st, "fin", self.depth_of(st, args[0]))
            return [(st, VNONE)]
        if n == "addComponent":
            d = self.depth_of(st, args[0])
            self.act(st, "add", d, self.depth_of(st, args[1]))
            if d == 0:
                self.fill(st, args[0], "mComponents", args[1])
            return [(st, VNONE)]
        if n == "addProperty":
            d = self.depth_of(st, args[0])
            self.act(st, "prop", d)
            p = [st.heap.get(a[1]) for a in args[1] if a[0] == "o"]
            if d == 0 and p and p[0].fields.get("mName") == V(K("VERSION")):
                st.client["version"] = True
            if d == 0 and p:
                self.fill(st, args[0], "mProperties", p[0].fields.get("mName"))
            return [(st, VNONE)]
        if n == "hasProperty" and len(args) == 2 and args[1] == V(K("VERSION")):
            return [(st, V(K(bool(st.client.get("version")))))]
        if n == "parseText" and fi.cls is not None and "Property" in fi.cls.name:
            argv = args[-1]
            line = [a[2] for a in argv if a[0] == "k"]
            if len(line) != 1:
                raise AnalysisBroken("a property is parsed from something other than the current line")
            name = line[0].split(":")[0]
            cls = self.ctx.prog.cls("pycalendar.%s.property:Property" % ("vcard" if self.mode == "card" else "icalendar"))
            oid, o = put(st, ("prop", name), "inst", cls, "property " + name)
            o.fields["mName"] = V(K(name))
            return [(st, V(("o", oid)))]
        return None

    def fill(self, st, recv, field, what):
        """the container's list has one more entry (two stand for two or more)"""
        for a in recv:
            v = st.heap.get(a[1]).fields.get(field)
            for b in v or ():
                if b[0] == "o":
                    o = st.heap.get(b[1]).copy()
                    if o.kind == "list" and (o.items is None or o.items):
                        o.items = None          # two or more
                        o.elems = o.elems | what
                    elif isinstance(o.items, list):
                        o.items = [what]
                    elif isinstance(o.items, dict):
                        o.items = {K("VERSION" if st.client.get("version") else "SUMMARY"): V(Pr("any"))}
                    st.heap.put(b[1], o)

    def shape(self, st, v):
        r = []
        for env in v:
            for a in env.get("self", ()):
                if a[0] == "o" and a[1] == ("v", ("root", 0)):
                    for f in ("mComponents", "mProperties"):
                        for b in st.heap.get(a[1]).fields.get(f, ()):
                            o = st.heap.get(b[1]) if b[0] == "o" else None
                            r.append(repr(sorted(o.items) if o is not None and isinstance(o.items, dict) else "many" if o is not None and o.items is None else bool(o.items) if o is not None else None))
        return tuple(r)

    def truth(self, ip, st, a):
        if a[0] == "o":
            o = st.heap.get(a[1])
            if o is not None and o.kind == "list" and o.items is None and o.elems and a[1][0] == "v":
                return True
        return None

    def builtin(self, ip, st, name, recv, args, kws, node):
        if name in ("new:Card", "new:Calendar"):
            key = ("root", st.client.get("made", 0))
            st.client = dict(st.client)
            st.client["made"] = st.client.get("made", 0) + 1
            st.client.pop("version", None)
            oid, o = put(st, key, "inst", recv[1], "container %d" % key[1])
            did, _d = put(st, key + ("props",), "dict")
            lid, _l = put(st, key + ("comps",), "list")
            o.fields["mProperties"] = V(("o", did))
            o.fields["mComponents"] = V(("o", lid))
            return [(st, V(("o", oid)))]
        return None

    def next_line(self, ip, st, args, node):
        self.read += 1
        self.settle(ip, st, node)
        ref = st.client["ref"]
        st.client.pop("line", None)
        st.client.pop("want", None)
        st.client = dict(st.client)
        k = (id(node), tuple(f.full for f in ip.stack), self.fp(ip, st))
        if k in self.seen:
            return []
        self.seen.add(k)
        la = [a for a in args[1] if a[0] == "o"]
        if len(la) != 1:
            raise AnalysisBroken("the line buffer is not one list")
        out = []
        for line in self.lines(ref):
            s = st.fork()
            s.client = dict(s.client)
            if line is None:
                s.client["eof"] = True
                s.client["line"] = "<end>"
                s.client["want"] = ()
                out.append((s, V(FALSE)))
                continue
            o = s.heap.get(la[0][1]).copy()
            if not isinstance(o.items, list) or not o.items:
                raise AnalysisBroken("the line buffer is not a list of lines")
            o.items = [V(K(line))] + [VNONE] * (len(o.items) - 1)
            s.heap.put(la[0][1], o)
            s.client["ref"], want = self.step(ref, line, s.client.get("version"))
            s.client["line"] = line
            s.client["want"] = want
            out.append((s, V(TRUE)))
        return out


def accepted(mode, st, v):
    """'yes', 'no' or None (not known)"""
    r = set()
    for a in v:
        if a[0] == "k":
            r.add(bool(a[2]))
        elif a[0] == "n" or a == next(iter(VNONE)):
            r.add(False)
        elif a[0] == "o":
            o = st.heap.get(a[1])
            if o.kind == "list":
                if not isinstance(o.items, list):
                    return None
                ids = [next(iter(i))[1] for i in o.items if len(i) == 1 and next(iter(i))[0] == "o"]
                want = [("v", ("root", i)) for _n, i in st.client.get("bind", ())]
                r.add(len(o.items) if ids == want else -1)
            else:
                r.add(True)
        else:
            return None
    return r.pop() if len(r) == 1 else None


def explore(ctx, mode, full, root, fname):
    cls = ctx.prog.cls(full)
    fi = cls.find(fname)
    if fi is None:
        raise AnalysisBroken("%s.%s not found" % (full, fname))
    pol = P15(ctx, mode, root)
    ip = ctx.interp(pol)
    st = ip.new_state()
    st.client = {"ref": ("", (), 0, 0)}
    if mode == "card":
        recv, a0 = None, V(("cl", cls))
        rets = ip.call_atom(st, ("bm", fi, ("cl", cls)), [V(Pr("any"))], {}, fi.node)
    else:
        oid, o = put(st, ("root", 0), "inst", cls, "container")
        did, _d = put(st, ("rootprops", 0), "dict")
        lid, _l = put(st, ("rootcomps", 0), "list")
        o.fields["mProperties"] = V(("o", did))
        o.fields["mComponents"] = V(("o", lid))
        rets = ip.invoke(st, fi, [V(("o", oid)), V(Pr("any"))], {}, fi.node, recv=("o", oid))
    excs = ip.take_exc()
    ctx.used(*ip.inlined)
    where = "%s:%d %s" % (fi.module.rel, fi.node.ln, fi.full)
    if len(pol.seen) < 8:
        raise AnalysisBroken("%s: only %d parser states reached" % (fi.full, len(pol.seen)))
    ctx.sample("%s: %d parser states, %d normal and %d failing exits" % (fi.full, len(pol.seen), len(rets), len(excs)))
    done = set()
    for s, v in rets:
        pol.settle(ip, s, fi.node)
        poison, stack, n, _late = s.client["ref"]
        acc = accepted(mode, s, v)
        version = bool(s.client.get("version"))
        if mode == "parse" and not poison and not stack and n and not version:
            poison = "no VERSION"
        if stack and not poison:
            poison = "input ends with %s open" % stack[-1]
        if poison:
            ok = acc is False or acc == 0
            done.add(poison)
            ctx.oblige(ok, "reject", "%s|%s" % (fname, poison), where, "accepted although: %s" % poison)
        elif n and not (mode == "first" and acc is False):
            ok = acc == n if mode == "card" else acc is True
            ctx.oblige(ok, "accept", "%s|%d" % (fname, n), where,
                       "well-formed input of %d container(s) ends without %s" % (n, "all of them in the result" if mode == "card" else "success"))
    for s, v, n in excs:
        poison, stack, cnt, _late = s.client["ref"]
        if s.client.get("eof") and (stack or mode == "parse" and cnt and not s.client.get("version")):
            poison = poison or "incomplete"
        ln = getattr(n, "ln", 0)
        if not poison:
            ctx.oblige(False, "accept", "%s|%s" % (fname, s.client.get("line")), "%s:%d %s" % (fi.module.rel, ln or fi.node.ln, fi.full),
                       "well-formed input is rejected at a line %r" % s.client.get("line"))
        else:
            ctx.oblige(True, "reject", "%s|%s" % (fname, poison), where, "")
    for rule, key, node, msg in pol.bad:
        ctx.oblige(False, rule, key, where, msg)
    ctx.oblige(True, "placed", "%s|all" % fname, where, "")


def run(ctx):
    ctx.rule("reject: no path accepts input whose begin/end lines do not nest, that ends with something open, has content outside, or lacks VERSION")
    ctx.rule("accept: no path rejects input whose lines nest properly, and every container ends up in the result")
    ctx.rule("placed: each property is added to the component that encloses it, and each closed component is finalised and added to its parent")
    explore(ctx, "parse", "pycalendar.icalendar.calendar:Calendar", "VCALENDAR", "parse")
    explore(ctx, "first", "pycalendar.icalendar.calendar:Calendar", "VCALENDAR", "parseComponent")
    explore(ctx, "card", "pycalendar.vcard.card:Card", "VCARD", "parseMultipleTextData")
    ctx.floor("reject", 12)
    ctx.floor("accept", 3)
