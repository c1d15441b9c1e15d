"""Front end: Python 2.7 sources of /repo/src -> Node trees.

The parsing is done by Jython's own ``ast`` module (the interpreter the
project is built and tested with); see jydump.py.  Nothing of the target is
imported or run.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("PYAN_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class AnalysisBroken(Exception):
    """The analysis lost an anchor: an error of the check, never a pass."""


class Node(object):
    __slots__ = ("t", "ln", "co", "f", "parent")

    def __init__(self, t, ln, co, f):
        self.t = t
        self.ln = ln
        self.co = co
        self.f = f
        self.parent = None

    def __getattr__(self, name):
        try:
            return self.f[name]
        except KeyError:
            raise AttributeError("%s has no %s" % (self.t, name))

    def get(self, name, default=None):
        return self.f.get(name, default)

    def __repr__(self):
        return "<%s %s>" % (self.t, unparse(self)[:60])


class Uni(str):
    """A unicode literal (u'...'); compares equal to the plain string."""


def build(j):
    if isinstance(j, list):
        return [build(i) for i in j]
    if isinstance(j, dict):
        t = j["t"]
        if t == "$str":
            return j["v"]
        if t == "$uni":
            return Uni(j["v"])
        if t == "$bytes":
            return bytes(j["v"]).decode("latin-1")
        if t == "$long":
            return int(j["v"])
        if t == "$float":
            return float(j["v"])
        if t == "$cplx":
            return complex(j["v"])
        f = {}
        for k, v in j.items():
            if k in ("t", "ln", "co"):
                continue
            f[k] = build(v)
        if t == "Compare" and len(f["ops"]) > 1 and all(twice(x) for x in f["comparators"][:-1]):
            # a < b < c is a < b and b < c
            ls = [f["left"]] + f["comparators"]
            return Node("BoolOp", j.get("ln", 0), j.get("co", 0), {
                "op": Node("And", 0, 0, {}),
                "values": [Node("Compare", j.get("ln", 0), j.get("co", 0), {"left": ls[i], "ops": [o], "comparators": [ls[i + 1]]})
                           for i, o in enumerate(f["ops"])]})
        n = Node(t, j.get("ln", 0), j.get("co", 0), f)
        return n
    return j


def twice(n):
    """evaluating the expression a second time changes nothing"""
    for x in walk(n):
        if x.t == "Call":
            name = x.func.id if x.func.t == "Name" else x.func.attr if x.func.t == "Attribute" else ""
            if name not in ("abs", "len", "int", "ord", "min", "max") and not name.startswith("get"):
                return False
    return True


def children(n):
    for v in n.f.values():
        if isinstance(v, Node):
            yield v
        elif isinstance(v, list):
            for i in v:
                if isinstance(i, Node):
                    yield i


def set_parents(n):
    stack = [n]
    while stack:
        x = stack.pop()
        for c in children(x):
            c.parent = x
            stack.append(c)


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def walk_scope(n, skip_root=True):
    """Walk without entering nested function/class scopes."""
    stack = list(reversed(list(children(n)))) if skip_root else [n]
    while stack:
        x = stack.pop()
        yield x
        if x.t in ("FunctionDef", "ClassDef", "Lambda"):
            continue
        stack.extend(reversed(list(children(x))))


_OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
        "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>",
        "Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
        "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in",
        "Not": "not ", "USub": "-", "UAdd": "+", "Invert": "~", "And": "and", "Or": "or"}


def opname(x):
    return x.t if isinstance(x, Node) else str(x)


def unparse(n):
    """Short readable form, for reports only (no rule compares it)."""
    if n is None:
        return ""
    if isinstance(n, list):
        return ", ".join(unparse(i) for i in n)
    if not isinstance(n, Node):
        return repr(n)
    t = n.t
    if t == "Name":
        return n.id
    if t == "Num":
        return repr(n.n)
    if t == "Str":
        return repr(str(n.s))
    if t == "Attribute":
        return "%s.%s" % (unparse(n.value), n.attr)
    if t == "Call":
        a = [unparse(i) for i in n.args or []]
        a += ["%s=%s" % (k.arg, unparse(k.value)) for k in n.keywords or []]
        if n.get("starargs"):
            a.append("*" + unparse(n.starargs))
        if n.get("kwargs"):
            a.append("**" + unparse(n.kwargs))
        return "%s(%s)" % (unparse(n.func), ", ".join(a))
    if t == "Subscript":
        return "%s[%s]" % (unparse(n.value), unparse(n.slice))
    if t == "Index":
        return unparse(n.value)
    if t == "Slice":
        return "%s:%s" % (unparse(n.lower), unparse(n.upper))
    if t == "BinOp":
        return "(%s %s %s)" % (unparse(n.left), _OPS.get(opname(n.op), "?"), unparse(n.right))
    if t == "BoolOp":
        return "(%s)" % ((" %s " % _OPS[opname(n.op)]).join(unparse(v) for v in n.values))
    if t == "UnaryOp":
        return "%s%s" % (_OPS[opname(n.op)], unparse(n.operand))
    if t == "Compare":
        s = unparse(n.left)
        for o, c in zip(n.ops, n.comparators):
            s += " %s %s" % (_OPS.get(opname(o), "?"), unparse(c))
        return s
    if t == "IfExp":
        return "%s if %s else %s" % (unparse(n.body), unparse(n.test), unparse(n.orelse))
    if t == "List":
        return "[%s]" % unparse(n.elts)
    if t == "Tuple":
        return "(%s)" % unparse(n.elts)
    if t == "Dict":
        return "{%s}" % ", ".join("%s: %s" % (unparse(k), unparse(v)) for k, v in zip(n.f["keys"], n.f["values"]))
    if t == "Assign":
        return "%s = %s" % (unparse(n.targets), unparse(n.value))
    if t == "AugAssign":
        return "%s %s= %s" % (unparse(n.target), _OPS.get(opname(n.op), "?"), unparse(n.value))
    if t == "Return":
        return "return %s" % unparse(n.value)
    if t == "Raise":
        return "raise %s" % unparse(n.get("type") or n.get("excepttype"))
    if t == "Expr":
        return unparse(n.value)
    if t == "If":
        return "if %s:" % unparse(n.test)
    if t == "While":
        return "while %s:" % unparse(n.test)
    if t == "For":
        return "for %s in %s:" % (unparse(n.target), unparse(n.iter))
    if t == "Lambda":
        return "lambda: %s" % unparse(n.body)
    if t in ("ListComp", "GeneratorExp", "SetComp"):
        return "[%s for ...]" % unparse(n.elt)
    if t == "FunctionDef":
        return "def %s" % n.name
    if t == "ClassDef":
        return "class %s" % n.name
    return t


def source_digest(root):
    h = hashlib.sha256()
    n = 0
    for dp, dns, fns in os.walk(root):
        dns[:] = sorted(d for d in dns if d not in ("tests", "test") and not d.startswith("."))
        for fn in sorted(fns):
            if fn.endswith(".py"):
                p = os.path.join(dp, fn)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                n += 1
    return h.hexdigest(), n


def load(repo=None):
    """-> {relative file name: Module node} for every non-test source file."""
    repo = repo or REPO
    root = os.path.join(repo, "src")
    digest, nfiles = source_digest(root)
    with open(os.path.join(HERE, "jy", "jydump.py"), "rb") as fh:
        digest = hashlib.sha256((digest + hashlib.sha256(fh.read()).hexdigest()).encode()).hexdigest()
    cache = os.environ.get("PYAN_CACHE")
    data = None
    if cache:
        cf = os.path.join(cache, digest + ".json")
        if os.path.exists(cf):
            with open(cf) as fh:
                data = json.load(fh)
    if data is None:
        tmp = tempfile.mkdtemp(prefix="pyan-")
        try:
            out = os.path.join(tmp, "ast.json")
            env = dict(os.environ)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["LC_ALL"] = "C.UTF-8"
            for k in ("PYTHONPATH", "JYTHONPATH", "CLASSPATH", "JAVA_TOOL_OPTIONS"):
                env.pop(k, None)
            last = None
            for _attempt in range(2):
                p = subprocess.run(["jython", "-B", "-S", os.path.join(HERE, "jy", "jydump.py"), root, out], env=env, cwd=tmp,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                last = p
                if p.returncode == 0 and os.path.exists(out):
                    break
            if last.returncode != 0 or not os.path.exists(out):
                raise AnalysisBroken("cannot parse the sources: %s" % last.stdout.decode("utf-8", "replace")[-800:])
            with open(out) as fh:
                data = json.load(fh)
            if cache:
                os.makedirs(cache, exist_ok=True)
                shutil.copy(out, cf)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(data) != nfiles:
        raise AnalysisBroken("parsed %d of %d files" % (len(data), nfiles))
    trees = {}
    for rel, j in data.items():
        n = build(j)
        set_parents(n)
        trees[rel] = n
    return trees


if __name__ == "__main__":
    import time
    t = time.time()
    r = load(sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(r), "files", sum(1 for m in r.values() for _ in walk(m)), "nodes", round(time.time() - t, 2), "s")
