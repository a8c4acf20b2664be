"""C25, deque: a ring over an external vector."""
import ai, dom
from dom import isconst, show, is_ptr
from .util import *
from .c13 import Judge
from .c14 import methods
from .c25 import R, val, ivalue

DQ = "stxxl::deque"
V = ('F', THIS, 'm_vector', DQ)
M64 = 1 << 64


class Vec:
    """stxxl::vector as an array of elements; only the deque's use of it is judged."""

    def __init__(self, cfg):
        m = cfg.models
        q = "stxxl::vector::"
        m[q + "vector"] = self.ctor
        m[q + "~vector"] = lambda I, c: 0
        m[q + "size"] = lambda I, c: self.n(I, c.obj)
        m[q + "resize"] = self.resize
        m[q + "clear"] = self.clear
        m[q + "operator[]"] = self.at
        m[q + "const_element"] = self.at
        m[q + "element"] = self.at
        m["std::copy"] = self.copy
        m["std::equal"] = self.equal
        m["std::lexicographical_compare"] = self.less

    def el(self, l, i):
        e = ('F', l, 'elem', 'V')
        return ('I', e, i) if i else e

    def n(self, I, l):
        n = I.user["len"].get(l)
        if n is None:
            raise ai.PathEnd("unknown vector")
        return n

    def ctor(self, I, c):
        n = I.argval(c.args[0]) if c.args else 0
        if not isconst(n):
            return NotImplemented
        I.user["len"][c.obj] = n
        return 0

    def resize(self, I, c):
        n = I.argval(c.args[0])
        if not isconst(n):
            raise ai.PathEnd("size not determined")
        I.user["len"][c.obj] = n
        return 0

    def clear(self, I, c):
        I.user["len"][c.obj] = 0
        for l in [l for l in I.store if l == self.el(c.obj, 0) or l[0] == 'I' and l[1] == self.el(c.obj, 0)]:
            del I.store[l]
        return 0

    def misuse(self, I, c, t):
        I.user.setdefault("misuse", []).append((c.node.get("l"), t, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    def at(self, I, c):
        i = I.argval(c.args[0])
        if not isconst(i):
            raise ai.PathEnd("index not determined")
        if not 0 <= i < self.n(I, c.obj):
            self.misuse(I, c, "accesses element %d of a vector of %d elements" % (i, self.n(I, c.obj)))
        return ('&', self.el(c.obj, i))

    def obj(self, I, a):
        v = I.argval(a)
        for _ in range(4):
            if isinstance(v, tuple) and v and v[0] in ('obj', '&'):
                return v[1]
        return None

    def iter(self, I, a):
        """(vector, position) of a vector iterator."""
        l = self.obj(I, a)
        if l is None:
            return None
        for q in ("stxxl::vector_iterator", "stxxl::const_vector_iterator"):
            o, v = I.store.get(F(F(l, 'offset', q), 'pos', 'stxxl::double_blocked_index')), I.store.get(F(l, 'p_vector', q))
            if isconst(o) and is_ptr(v):
                return I.deref(v), o
        return None

    def copy(self, I, c):
        w = [self.iter(I, a) for a in c.args]
        if None in w or w[0][0] != w[1][0]:
            raise ai.PathEnd("range not determined")
        (a, i), (_, j), (b, k) = w
        if not 0 <= i <= j <= self.n(I, a) or k < 0 or k + j - i > self.n(I, b):
            self.misuse(I, c, "copies outside the vector")
        for x in range(j - i):
            v = I.store.get(self.el(a, i + x))
            if v is None:
                I.store.pop(self.el(b, k + x), None)
            else:
                I.store[self.el(b, k + x)] = v
        return 0

    # ---- comparison of deques through their iterators
    def dit(self, I, a):
        l = self.obj(I, a)
        if l is None:
            return None
        for q in ("stxxl::deque_iterator", "stxxl::const_deque_iterator"):
            o, v = I.store.get(F(l, 'm_offset', q)), I.store.get(F(l, 'm_deque', q))
            if isconst(o) and is_ptr(v):
                return I.deref(v), o
        return None

    def rng(self, I, a, b):
        if a is None or b is None or a[0] != b[0]:
            raise ai.PathEnd("range not determined")
        v = F(a[0], 'm_vector', DQ)
        s = self.n(I, v)
        return [I.store.get(self.el(v, (a[1] + x) % s)) for x in range((b[1] - a[1]) % s)]

    def equal(self, I, c):
        w = [self.dit(I, a) for a in c.args]
        r = self.rng(I, w[0], w[1])
        v = F(w[2][0], 'm_vector', DQ)
        s = self.n(I, v)
        t = [I.store.get(self.el(v, (w[2][1] + x) % s)) for x in range(len(r))]
        n = (ivalue_(I, F(w[2][0], 'm_end', DQ)) - w[2][1]) % s
        if len(c.args) == 4:
            t = self.rng(I, w[2], w[3])
        elif n < len(r):
            self.misuse(I, c, "compares beyond the end of a deque")
        return int(r == t)

    def less(self, I, c):
        w = [self.dit(I, a) for a in c.args]
        return int(self.rng(I, w[0], w[1]) < self.rng(I, w[2], w[3]))


def ivalue_(I, l):
    v = I.store.get(l)
    if not isconst(v):
        raise ai.PathEnd("not determined")
    return v


def states(thorough):
    for S in (3, 4) if not thorough else (2, 3, 4, 5):
        for b in range(S):
            for n in range(S):
                yield S, b, n


def put(I, d, S, b, n, vs=None):
    I.user.setdefault("len", {})[F(d, 'm_vector', DQ)] = S
    for k, v in (('m_begin', b), ('m_end', (b + n) % S), ('m_size', n)):
        I.store[F(d, k, DQ)] = v
    v = F(d, 'm_vector', DQ)
    W = Vec.el
    for i in range(n):
        I.store[W(None, v, (b + i) % S)] = vs[i] if vs else val(i)


def judge(J, p, d, want, desc, free=0):
    """The deque at d holds exactly want (None: any value)."""
    v = F(d, 'm_vector', DQ)
    S = p.I.user["len"].get(v)
    f = [ivalue(p, F(d, x, DQ)) for x in ('m_begin', 'm_end', 'm_size')]
    if S is None or None in f:
        return J.open("order", "the deque's state is not determined (%s)" % desc)
    b, e, n = f
    if n != len(want):
        return J.bad("order", "the deque has size %d instead of %d (%s)" % (n, len(want), desc))
    if not 0 <= b < S or not 0 <= e < S:
        return J.bad("order", "the deque's ends lie outside its vector (%s)" % desc)
    if (e - b) % S != n:
        return J.bad("order", "the deque's ends are not %d elements apart (%s)" % (n, desc))
    for i, x in enumerate(want):
        y = p.store.get(Vec.el(None, v, (b + i) % S))
        if x is not None and y != x:
            return J.bad("order", "element %d of the deque is %s instead of %s (%s)" % (i + 1, show(y) if y is not None else "lost", show(x), desc))


def interp(ctx, P):
    cfg = ai.base_config()
    cfg.unroll = 12
    Vec(cfg)
    return ctx.interp(P, cfg)


def op(ctx, P, M, name):
    new = ('O', 'value')
    for d in M.get(name, []):
        if d.body is None or d.f.get("imp"):
            continue
        J = Judge(ctx, R, d)
        pk = [d.tu.types[x[2]]["k"] for x in d.params]
        for S, b, n in states(ctx.thorough) if name != "deque" else [(None, None, None)]:
            if name in ("pop_front", "pop_back", "front", "back") and not n:
                continue
            for a in {"operator[]": range(n or 0), "resize": range((n or 0) + 2 * (S or 0) + 2), "deque": (0, 3) if pk else (None,)}.get(name, (None,)):
                if name == "deque" and pk not in ([], ["int"]):
                    continue
                I = interp(ctx, P)
                desc = "new" if S is None else "%d elements from place %d of %d" % (n, b, S)
                if a is not None:
                    desc += ", argument %d" % a
                vs = [val(i) for i in range(n or 0)]

                def setup(I):
                    I.user["len"] = {}
                    I.store[new] = ('s', 'pushed')
                    if S is not None:
                        put(I, THIS, S, b, n)
                    if name == "swap":
                        put(I, ('O', 'other'), 5, 4, 2, [('s', 'w0'), ('s', 'w1')])
                args = [('&', new)] if name.startswith("push") else [('&', ('O', 'other'))] if name == "swap" else [a] if a is not None else []
                if name == "swap":
                    I.cfg.models["std::swap"] = vswap
                for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
                    if p.out == 'throw':
                        continue
                    want = vs
                    if name == "push_back":
                        want = vs + [('s', 'pushed')]
                    elif name == "push_front":
                        want = [('s', 'pushed')] + vs
                    elif name == "pop_back":
                        want = vs[:-1]
                    elif name == "pop_front":
                        want = vs[1:]
                    elif name == "clear":
                        want = []
                    elif name == "resize":
                        want = (vs + [None] * a)[:a]
                    elif name == "deque":
                        want = [None] * (a or 0)
                    elif name == "swap":
                        want = [('s', 'w0'), ('s', 'w1')]
                        judge(J, p, ('O', 'other'), vs, desc)
                    judge(J, p, THIS, want, desc)
                    if name in ("size", "empty"):
                        w = n if name == "size" else int(not n)
                        result(J, p, w, name, desc)
                    if name in ("front", "back", "operator[]"):
                        k = {"front": 0, "back": n - 1}.get(name, a)
                        elem(J, p, p.val, S, (b + k) % S, k, desc)
                    if name in ("begin", "end", "cbegin", "cend"):
                        place(J, p, S, (b + (n if name.endswith("end") else 0)) % S, desc)
        J.done()


def vswap(I, c):
    a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
    if a is None or b is None:
        raise ai.PathEnd("swap of unknown objects")
    L = I.user["len"]
    if a in L or b in L:
        for i in range(max(L.get(a, 0), L.get(b, 0))):
            x, y = I.store.pop(Vec.el(None, a, i), None), I.store.pop(Vec.el(None, b, i), None)
            if y is not None:
                I.store[Vec.el(None, a, i)] = y
            if x is not None:
                I.store[Vec.el(None, b, i)] = x
        L[a], L[b] = L.get(b), L.get(a)
        return 0
    x, y = I.store.get(a), I.store.get(b)
    if x is None or y is None:
        raise ai.PathEnd("swap of unknown values")
    I.store[a], I.store[b] = y, x
    return 0


def result(J, p, w, name, desc):
    v = p.val
    if v is not None and not isconst(v):
        lo, hi = p.facts.bounds(v)
        v = lo if lo == hi else None
    if v is None:
        J.open("order", "result not determined (%s)" % desc)
    elif (v - w) % M64 and (not isinstance(w, bool)):
        J.bad("order", "%s is %s, not %s (%s)" % (name, v, w, desc))


def elem(J, p, v, S, at, k, desc):
    l = p.I.deref(v) if v is not None and is_ptr(v) else None
    if l is None:
        J.open("order", "result not determined (%s)" % desc)
    elif l != Vec.el(None, V if l[0] != 'X' else V, at):
        J.bad("order", "returns another element than element %d (%s)" % (k + 1, desc))


def itval(p, l):
    for q in ("stxxl::deque_iterator", "stxxl::const_deque_iterator"):
        o, v = p.store.get(F(l, 'm_offset', q)), p.store.get(F(l, 'm_deque', q))
        if o is not None and v is not None:
            return ivalue(p, F(l, 'm_offset', q)), v
    return None


def place(J, p, S, at, desc, l=None, deque=THIS):
    v = p.val
    if l is None:
        l = v[1] if isinstance(v, tuple) and v and v[0] in ('obj', '&') else None
    t = itval(p, l) if l is not None else None
    if t is None or t[0] is None:
        return J.open("order", "iterator not determined (%s)" % desc)
    if t[1] != ('&', deque):
        return J.bad("order", "iterator of another deque (%s)" % desc)
    if t[0] != at:
        J.bad("order", "the iterator is at place %d instead of %d (%s)" % (t[0], at, desc))


OPS = ("operator-", "operator+", "operator-=", "operator+=", "operator*", "operator->", "operator[]", "operator++", "operator--",
       "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=")


def iter_op(ctx, P, M, cls, name):
    import operator as o
    D, O = ('O', 'deque'), ('O', 'other')
    for d in M.get(name, []):
        if d.body is None or d.f.get("imp"):
            continue
        J = Judge(ctx, R, d)
        t = [d.tu.types[x[2]] for x in d.params]
        rec = bool(t) and t[0]["k"] == "ref"
        for S, b, n in states(ctx.thorough):
            for i in range(n + 1):
                if rec or name in ("operator-", "operator+", "operator-=", "operator+=", "operator[]"):
                    ks = range(n + 1)
                else:
                    ks = (None,)
                for k in ks:
                    # k: the position reached, or the other iterator's
                    if name in ("operator*", "operator->") and i == n or name == "operator[]" and k == n:
                        continue
                    if name == "operator++" and i == n or name == "operator--" and i == 0:
                        continue
                    step(J, ctx, P, d, cls, name, rec, S, b, n, i, k, t, D, O)
        J.done()


def step(J, ctx, P, d, cls, name, rec, S, b, n, i, k, t, D, O):
    import operator as o
    I = interp(ctx, P)
    desc = "%d elements from place %d of %d, iterator at %d" % (n, b, S, i)
    if k is not None:
        desc += (", the other at %d" if rec else ", moved to %d") % k
    oc = None
    if rec:
        oc = "stxxl::const_deque_iterator" if "const_deque_iterator" in str(d.tu.types[t[0]["pt"]].get("ct", d.tu.types[t[0]["pt"]])) else "stxxl::deque_iterator"

    def setup(I):
        put(I, D, S, b, n)
        I.store[F(THIS, 'm_deque', cls)] = ('&', D)
        I.store[F(THIS, 'm_offset', cls)] = (b + i) % S
        if rec:
            I.store[F(O, 'm_deque', oc)] = ('&', D)
            I.store[F(O, 'm_offset', oc)] = (b + k) % S
    delta = None if k is None else (i - k if name in ("operator-", "operator-=") else k - i) % M64
    args = [('&', O)] if rec else [delta] if k is not None else [0] if len(t) == 1 else []
    for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
        if p.out == 'throw':
            continue
        at = lambda j: (b + j) % S
        v = F(D, 'm_vector', DQ)
        stay = i
        if rec:
            if name == "operator-":
                result(J, p, i - k, "the difference", desc)
            else:
                w = {"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}[name[8:]](i, k)
                result(J, p, int(w), "the comparison", desc)
        elif name in ("operator*", "operator->", "operator[]"):
            j = i if k is None else k
            l = p.I.deref(p.val) if p.val is not None and is_ptr(p.val) else None
            if l is None:
                J.open("order", "result not determined (%s)" % desc)
            elif l != Vec.el(None, v, at(j)):
                J.bad("order", "shows another element than element %d (%s)" % (j + 1, desc))
        elif name in ("operator+", "operator-"):
            place(J, p, S, at(k), desc, deque=D)
        elif name in ("operator+=", "operator-="):
            stay = k
        else:
            stay = i + (1 if name == "operator++" else -1)
            if len(t) == 1:
                place(J, p, S, at(i), desc, deque=D)
        place(J, p, S, at(stay), desc, l=THIS, deque=D)


def compare(ctx, P, name):
    A, B = ('O', 'a'), ('O', 'b')
    for d in P.defs.values():
        t = [d.tu.types[x[2]] for x in d.params]
        if d.f["n"] != name or d.f["k"] == "method" or len(t) != 2 or d.body is None:
            continue
        if any(x["k"] != "ref" or str(d.tu.types[x["pt"]].get("ct", "")).replace("const ", "") != "stxxl::deque" for x in t):
            continue
        J = Judge(ctx, R, d)
        for x in ([], [1], [2], [1, 2], [1, 1]):
            for y in ([], [1], [2], [1, 2], [1, 1]):
                for b1, b2 in ((0, 1), (2, 0), (2, 2)):
                    I = interp(ctx, P)
                    desc = "%s and %s" % (x, y)

                    def setup(I):
                        put(I, A, 3, b1, len(x), x)
                        put(I, B, 3, b2, len(y), y)
                    for p in J.paths(I, desc, setup=setup, args=[('&', A), ('&', B)], this=None):
                        if p.out == 'throw':
                            continue
                        result(J, p, int(x == y if name == "operator==" else x < y), "the comparison of " + desc, "")
        J.done()


def run(ctx, P):
    ds = [q for q in {P.canon(d.rec)["q"] for d in P.defs.values() if d.rec is not None} if q.startswith("stxxl::deque<")]
    M = methods(P, "stxxl::deque<")
    M = {n: [d for d in x if d.fn.split("(")[0].rsplit("::", 1)[0].endswith(">") or True] for n, x in M.items()}
    for n in ("deque", "push_back", "push_front", "pop_back", "pop_front", "front", "back", "operator[]", "size", "empty", "clear", "resize", "swap", "begin", "end", "cbegin", "cend"):
        ctx.sub("stxxl::deque::%s" % n, op, ctx, P, M, n)
    for c in ("stxxl::deque_iterator", "stxxl::const_deque_iterator"):
        M = methods(P, c + "<")
        for n in OPS:
            ctx.sub("%s::%s" % (c, n), iter_op, ctx, P, M, c, n)
    for n in ("operator==", "operator<"):
        ctx.sub("stxxl::deque %s" % n, compare, ctx, P, n)
