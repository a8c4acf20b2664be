"""swap exchanges the complete state of two objects; constructors leave no scalar field unset."""
import ai, dom
from dom import show, is_ptr
from .util import *


def subfields(P, rec):
    return [(ct, f, b) for ct, f, b in P.fields(rec)]


def bare(q):
    """Qualified name without template arguments."""
    out, n = "", 0
    for ch in q:
        n += ch == "<"
        if not n:
            out += ch
        n -= ch == ">"
    return out


def kind(t):
    while t["k"] == "arr":
        t = t["tu"].types[t["pt"]] if "pt" in t else {"k": "?"}
    return t["k"]


class Exchange:
    """Every field carries one symbolic content; swap of two fields exchanges what they carry."""

    def __init__(self, P, cfg):
        self.P = P
        m = cfg.models
        m["std::swap"] = self.swap
        for q in ("std::vector", "std::deque", "std::list", "std::map", "std::set", "std::queue", "std::stack", "std::string", "std::basic_string", "std::pair", "std::unique_ptr", "std::auto_ptr"):
            m[q + "::swap"] = self.swap
        m["std::swap_ranges"] = self.ranges
        cfg.model_pred.insert(0, (lambda f: f["n"] == "swap", self.swap))
        cfg.model_pred.insert(0, (lambda f: f["k"] == "ctor" and (f.get("copy") or f.get("move")), self.copyctor))

    def content(self, I, l):
        """{relative path: value} of everything stored at or below l."""
        out = {}
        for x in I.store:
            p, y = (), x
            while y != l and y[0] in ('F', 'I', 'M'):
                p = ((y[0], y[2]) + tuple(y[3:]),) + p
                y = y[1]
            if y == l:
                out[p] = (x, I.store[x])
        return out

    def build(self, l, p):
        for k in p:
            l = (k[0], l) + k[1:]
        return l

    def exchange(self, I, a, b):
        A, B = self.content(I, a), self.content(I, b)
        for x, _ in list(A.values()) + list(B.values()):
            I.store.pop(x, None)
        for p, (x, v) in A.items():
            I.store[self.build(b, p)] = v
        for p, (x, v) in B.items():
            I.store[self.build(a, p)] = v

    def swap(self, I, c):
        if len(c.args) == 2 and c.obj is None:
            a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
        elif len(c.args) == 1 and c.obj is not None:
            a, b = c.obj, I.evloc(c.args[0])
        else:
            return NotImplemented
        if a is None or b is None:
            raise ai.PathEnd("swap of unknown objects")
        I.ev('swap', 'swap', a, (('&', b),), None, c.node)
        self.exchange(I, a, b)
        return 0

    def copyctor(self, I, c):
        a = I.evloc(c.args[0]) if c.args else None
        if a is None or c.obj is None:
            return NotImplemented
        for p, (x, v) in self.content(I, a).items():
            I.store[self.build(c.obj, p)] = v
        return 0

    def ranges(self, I, c):
        return NotImplemented


def leaves(P, l, rec):
    """(location of the content, name) of every field."""
    out = []
    for ct, f, b in P.fields(rec):
        t = b["tu"].types[f["t"]]
        if stays(b, t):
            continue
        x = ('F', l, f["n"], bare(b["q"]))
        k = t["k"]
        if k == "arr":
            n = t.get("n")
            if not isinstance(n, int) or n > 64:
                out.append((('F', x, '#content', ''), f["n"], t))
                continue
            et = b["tu"].types[t["pt"]]
            for i in range(n):
                y = ('I', x, i) if i else x
                out.append((y if et["k"] != "rec" else ('F', y, '#content', ''), "%s[%d]" % (f["n"], i), et))
            continue
        out.append((x if k not in ("rec",) else ('F', x, '#content', ''), f["n"], t))
    return out


def stays(b, t):
    """State that belongs to the object, not to its value: reference counts and pointers to a singleton."""
    if bare(b["q"]).split("::")[-1].find("counted_object") >= 0 or bare(b["q"]).split("::")[-1].find("reference_count") >= 0:
        return True
    return t["k"] == "ptr" and t["tu"].types[t["pt"]].get("ct") in ("stxxl::block_manager", "stxxl::config")


def swap_rule(ctx, P, d, rule, skip=()):
    """d: C::swap(C&)"""
    rec = P.canon(d.rec)
    cfg = ai.base_config()
    cfg.unroll = 70
    X = Exchange(P, cfg)
    I = ctx.interp(P, cfg)
    O = ('O', 'other')
    la, lb = leaves(P, THIS, rec), leaves(P, O, rec)
    worst, opened, n = None, None, 0

    def setup(I):
        for (l, name, t), tag in [(x, 'a') for x in la] + [(x, 'b') for x in lb]:
            s = ('s', '%s of %s' % (name, tag))
            I.store[l] = ('&', ('O', '%s of %s' % (name, tag))) if t["k"] in ("ptr", "ref") else s
    for p in I.paths(d, setup=setup, args=[('&', O)], this=THIS):
        if p.why == 'abort' or dom.infeasible(p.facts):
            continue
        if p.out != 'ret':
            opened = opened or "path ended: %s" % p.why
            continue
        n += 1
        if any(str(f).find("this") >= 0 and str(f).find("other") >= 0 for f in ()):
            continue
        for side, mine, tag in (("this object", la, 'b'), ("the other object", lb, 'a')):
            for l, name, t in mine:
                if name in skip:
                    continue
                v = p.store.get(l)
                w = ('&', ('O', '%s of %s' % (name, tag))) if t["k"] in ("ptr", "ref") else ('s', '%s of %s' % (name, tag))
                if v != w:
                    if v is None or str(v).find(" of a") < 0 and str(v).find(" of b") < 0:
                        opened = opened or "field %s of %s after the swap is not determined" % (name, side)
                    else:
                        worst = worst or "after the swap, field %s of %s is not the one the other object had" % (name, side)
    ctx.used(I)
    inst = d.fn
    if worst:
        ctx.bad(rule, inst, wh(d), worst)
    elif opened or not n:
        ctx.undecided(rule, inst, wh(d), opened or "no path")
    else:
        ctx.ok(rule, inst, wh(d), "%d fields" % len(la))


def wh(d):
    import core
    return core.where(d)
