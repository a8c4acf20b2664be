"""Helpers shared by the rules."""
import ai, dom
from dom import c_eq, c_lt, c_not, show, showloc, add, sub, root, isconst, is_ptr
from prog import AnalysisBroken, rel

THIS = ('O', 'this')


def F(loc, name, owner):
    return ('F', loc, name, owner)


def eq(path, a, b):
    """True when the path proves a == b, False when it refutes it or both are known and differ, None otherwise."""
    c = c_eq(a, b)
    d = path.facts.decide(c)
    return d


def findfield(P, rec, pred):
    """[(owner, field)] satisfying pred(field, type)"""
    out = []
    for ct, f, r in P.fields(rec):
        t = r["tu"].types[f["t"]]
        if pred(f, t):
            out.append((ct, f, t))
    return out


def fieldby(P, rec, name, pred=None, what=""):
    """A field by name, else the only field satisfying pred (renamed)."""
    fs = P.fields(rec)
    for ct, f, r in fs:
        if f["n"] == name:
            return ct, f, r["tu"].types[f["t"]]
    if pred:
        c = [(ct, f, r["tu"].types[f["t"]]) for ct, f, r in fs if pred(f, r["tu"].types[f["t"]])]
        if len(c) == 1:
            return c[0]
    raise AnalysisBroken("field %s of %s not found" % (name, rec["ct"]))


def tyis(t, ct):
    return t["k"] == "rec" and t.get("ct") == ct


def pathdesc(p, n=6):
    ls = [str(x) for x in p.choices if isinstance(x, int)]
    return "branches at lines " + ",".join(ls[:14]) if ls else "straight path"


def walk(node):
    """All AST nodes below node."""
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            todo.extend(x)


def calls_in(d):
    """(callee fundict, node) of every call in a function definition."""
    r = d.cache.get("calls")
    if r is None:
        r = []
        for top in [d.body] + [i["e"] for i in d.inits]:
            for x in walk(top):
                if x["k"] in ("call", "ctor", "fref", "mref") and "fi" in x:
                    r.append((d.tu.funs[x["fi"]], x))
        d.cache["calls"] = r
    return r


def callers(P, key):
    cg = getattr(P, "_callers", None)
    if cg is None:
        cg = {}
        for d in P.defs.values():
            for f, n in calls_in(d):
                cg.setdefault(f["u"], []).append((d, n))
        P._callers = cg
    return cg.get(key, [])


def vars_of(d):
    """Local variable declarations of a function definition."""
    return [v for x in walk(d.body) if x["k"] == "decl" for v in x["d"] if isinstance(v, dict) and "n" in v]
