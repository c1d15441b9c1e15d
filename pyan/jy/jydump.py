# Runs under Jython (Python 2.7 grammar).  argv: root out.json
# Parses every non-test .py file below root with the Jython ast module and
# writes a plain JSON form of the trees.  Nothing of the target is imported
# or executed.
import ast
import json
import os
import sys


def conv(n):
    if isinstance(n, ast.AST):
        d = {"t": n.__class__.__name__}
        ln = getattr(n, "lineno", None)
        if ln is not None:
            d["ln"] = int(ln)
            d["co"] = int(getattr(n, "col_offset", 0))
        for f in (n._fields or ()):
            if f == "ctx":
                c = getattr(n, "ctx", None)
                d["ctx"] = c.__class__.__name__ if isinstance(c, ast.AST) else str(c)
                continue
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)):
        return [conv(i) for i in n]
    if n is None or isinstance(n, (bool, int)):
        return n
    if isinstance(n, long):
        return {"t": "$long", "v": str(n)}
    if isinstance(n, float):
        return {"t": "$float", "v": repr(n)}
    if isinstance(n, str):
        try:
            n.decode("ascii")
            return {"t": "$str", "v": n}
        except Exception:
            return {"t": "$bytes", "v": [ord(c) for c in n]}
    if isinstance(n, unicode):
        return {"t": "$uni", "v": n}
    if isinstance(n, complex):
        return {"t": "$cplx", "v": repr(n)}
    # identifiers may come back as java strings
    return {"t": "$str", "v": str(n)}


def main(root, out):
    res = {}
    for dp, dns, fns in os.walk(root):
        dns[:] = sorted(d for d in dns if d not in ("tests", "test") and not d.startswith("."))
        for fn in sorted(fns):
            if not fn.endswith(".py"):
                continue
            p = os.path.join(dp, fn)
            rel = os.path.relpath(p, root)
            f = open(p, "rb")
            src = f.read()
            f.close()
            res[rel] = conv(ast.parse(src, p))
    f = open(out, "w")
    json.dump(res, f)
    f.close()


main(sys.argv[1], sys.argv[2])
