"""P02: duplicates share no mutable state with the original."""
from . import dup

INFO = {
    "level": "other",
    "technique": "abstract interpretation: points-to/escape analysis",
    "note": "Every concrete duplicate() is executed abstractly; no mutable object of the original may be reachable from the result.",
    "explanation": "Abstract execution of every concrete duplicate() (constructors, super() chain and addComponent inlined, "
                   "nested duplicate() calls taken as fresh copies by induction) on a symbolic receiver; the points-to graph of "
                   "the result is searched for mutable objects of the original.",
    "assumptions": ["duplicate() of a nested object is itself checked (induction over the class table)",
                    "strings, numbers and tuples of them are immutable"],
}


def run(ctx):
    ctx.rule("no list, map, date, value, property or component reachable from the original is reachable from the object "
             "duplicate() returns (the parent pointer and the master pointer to another component excepted)")
    for c, fi in dup.targets(ctx):
        fi, runs = dup.run_class(ctx, c)
        for ignore, ip, pol, rets, fixed in runs:
            if not rets:
                dup.AnalysisBroken("no return from %s" % fi.full)
            for st, val in rets:
                for a in val:
                    if a[0] != "o":
                        continue
                    bad = dup.shared(st, a)
                    ctx.count("results")
                    for chain, p, o in bad:
                        f = chain.split(".")[1].split("[")[0] if "." in chain else ""
                        if f in dup.UNOWNED and p != "self":
                            continue
                        ctx.report("shared", "%s.duplicate|%s" % (c.name, chain), fi.where,
                                   "the copy's %s is the original's own %s (%s)" % (chain, p, o.kind))
                    ctx.oblige(True, "class", "", "", "")
        ctx.sample("%s: %d results" % (c.full, len(rets)))
    ctx.floor("results", 40)
    ctx.floor("class", 40)
