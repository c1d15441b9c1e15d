"""Live variables at the head of a function's loop."""
from .front import walk, walk_scope, Node


def reads(n):
    if n is None:
        return set()
    if isinstance(n, list):
        return set().union(*[reads(x) for x in n]) if n else set()
    return {x.id for x in walk(n) if x.t == "Name"}


def block(stmts, out, brk, cont):
    for s in reversed(stmts):
        out = stmt(s, out, brk, cont)
    return out


def names(t):
    """names a target always assigns, names it reads"""
    if t.t == "Name":
        return {t.id}, set()
    if t.t in ("Tuple", "List"):
        a, r = set(), set()
        for x in t.elts:
            p, q = names(x)
            a |= p
            r |= q
        return a, r
    return set(), reads(t)


def head(s, out):
    """live at every evaluation of a loop's test (of the next item)"""
    live = set(out)
    while True:
        if s.t == "While":
            new = live | reads(s.test) | block(s.body, live, out, live) | block(s.orelse, out, out, out)
        else:
            a, r = names(s.target)
            new = live | (block(s.body, live, out, live) - a) | r | block(s.orelse, out, out, out)
        if new == live:
            return live
        live = new


def stmt(s, out, brk, cont):
    if s.t == "Assign":
        a, r = set(), set()
        for t in s.targets:
            p, q = names(t)
            a |= p
            r |= q
        return (out - a) | r | reads(s.value)
    if s.t == "Return":
        return reads(s.get("value"))
    if s.t == "Break":
        return set(brk)
    if s.t == "Continue":
        return set(cont)
    if s.t == "If":
        return reads(s.test) | block(s.body, out, brk, cont) | block(s.orelse, out, brk, cont)
    if s.t in ("While", "For"):
        live = head(s, out)
        return live | reads(s.iter) if s.t == "For" else live
    # anything else: what it mentions and what is live after it, kills nothing
    r = set(out) | reads(s)
    if any(isinstance(x, Node) and x.t in ("Break", "Continue") for x in walk(s)):
        r |= brk | cont
    return r


def line_loop(fn, reader):
    """names live at the head of the only outermost loop, if the reader is called there and nowhere else; None otherwise"""
    loops = []

    def outer(stmts):
        for s in stmts:
            if s.t in ("While", "For"):
                loops.append(s)
                continue
            for v in s.f.values():
                if isinstance(v, list) and v and isinstance(v[0], Node) and s.t not in ("FunctionDef", "ClassDef"):
                    outer([x for x in v if isinstance(x, Node)])
    outer(fn.body)
    if len(loops) != 1 or any(x.t in ("Lambda", "FunctionDef", "Global", "TryFinally") for x in walk_scope(fn)):
        return None
    l = loops[0]

    def calls(n):
        return sum(1 for x in walk(n) if x.t == "Call" and reader(x))
    if not calls(fn) or calls(fn) != calls(l.test if l.t == "While" else l.iter):
        return None
    found = {}

    def find(stmts, out, brk, cont):
        """live after each statement, down to the loop"""
        for s in reversed(stmts):
            if s is l:
                found["live"] = head(s, out)
            elif any(x is l for x in walk(s)):
                return False
            out = stmt(s, out, brk, cont)
        return True
    if not find(fn.body, set(), set(), set()) or "live" not in found:
        return None
    return found["live"]
