"""C16: positions, iterators, wide integers and comparisons of vectors compute like the integers and sequences they stand for."""
import os, re
import ai, dom, prog
from dom import isconst, show, is_ptr
from .util import *
from .c08 import NamedJudge
from .c29 import World, insts, recq, V, VI, CVI, DBI, VEC, B

R = ("value", "order", "element")
UP = "stxxl::uint_pair"
THIS = ('O', 'this', 'u')
OTHER = ('O', 'other', 'u')
LIMIT = 13
CMP = {"operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b, "operator<": lambda a, b: a < b,
       "operator<=": lambda a, b: a <= b, "operator>": lambda a, b: a > b, "operator>=": lambda a, b: a >= b}


class Case:
    """Runs one function from many states and compares the outcome with exact integers."""

    def __init__(self, ctx, P, name, d):
        self.ctx, self.P, self.d = ctx, P, d
        cfg = ai.base_config()
        self.W = World(cfg, P)
        cfg.unroll = 40
        self.cfg = cfg
        self.I = ctx.interp(P, cfg)
        self.J = NamedJudge(ctx, R, d)
        self.J.name = name

    def run(self, desc, body):
        for p in self.J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                self.J.bad("value", "throws (%s)" % desc)
                continue
            yield p

    def eq(self, rule, what, got, want, desc):
        if isinstance(got, (tuple, dom.Lin)) and not is_ptr(got) and not isinstance(want, tuple) or got is None:
            self.J.open(rule, "%s not determined (%s)" % (what, desc))
        elif got != want:
            self.J.bad(rule, "%s is %s instead of %s (%s)" % (what, show(got), show(want), desc))

    def ptype(self, i):
        t = self.d.tu.types[self.d.params[i][2]]
        while t["k"] in ("ref", "rref"):
            t = t["tu"].types[t["pt"]]
        return t


def where_of(v):
    return v[1] if isinstance(v, tuple) and v and v[0] in ('obj', '&') else None


# ------------------------------------------------------------------ double_blocked_index
def put_index(I, l, p, m1, m2):
    for n, v in (('pos', p), ('block2', p // (m1 * m2)), ('block1', p // m1 % m2), ('offset', p % m1)):
        I.store[F(l, n, DBI)] = v
    return ('&', l)


def see_index(C, I, what, l, p, m1, m2, desc):
    if l is None:
        return C.J.open("value", "%s not determined (%s)" % (what, desc))
    for n, v in (('pos', p), ('block2', p // (m1 * m2)), ('block1', p // m1 % m2), ('offset', p % m1)):
        C.eq("value", "%s: %s" % (what, {'pos': "position", 'block2': "outer block", 'block1': "inner block", 'offset': "offset"}[n]), I.load(F(l, n, DBI)), v, desc)


def index(ctx, P, q, n, d):
    m2, m1 = [int(x) for x in re.findall(r"\d+", q.split(",", 1)[1])]
    C = Case(ctx, P, "%s::%s%s" % (q, n, "" if not d.params else "(%s)" % C_name(d)), d)
    k = len(d.params)
    rec = k == 1 and C.ptype(0)["k"] == "rec"
    new = n == "double_blocked_index"
    if new and rec:
        return
    for a in [0] if new and not k else range(LIMIT):
        others = [None] if k == 0 or k == 3 else range(LIMIT)
        if k == 1 and not rec and n in ("operator++", "operator--"):
            others = [0]
        if new and k == 1:
            others = [None]
        for b in others:
            if n in ("operator-", "operator-=") and not rec and b > a or n == "operator--" and a == 0:
                continue
            if n == "operator>>=" and b > 4:
                continue
            desc = "at %d" % a if b is None or n in ("operator++", "operator--") else "at %d with %d" % (a, b)
            if new:
                args = [] if not k else [a] if k == 1 else [a // (m1 * m2), a // m1 % m2, a % m1]
            else:
                args = []

            def body(I):
                if not new:
                    put_index(I, THIS, a, m1, m2)
                xs = args if new else [] if b is None else [put_index(I, OTHER, b, m1, m2)] if rec else [b]
                I.user["r"] = I.enter(d, THIS, xs)
                return 0
            for p in C.run(desc, body):
                I, r = p.I, p.I.user["r"]
                see = lambda what, l, v: see_index(C, I, what, l, v, m1, m2, desc)
                after = a
                if new:
                    after = a if k else 0
                elif n in CMP:
                    C.eq("order", "the result", r, int(CMP[n](a, b)), desc)
                elif n in ("operator++", "operator--"):
                    after = a + (1 if n == "operator++" else -1)
                    see("the result", where_of(r), a if k else after)
                elif n in ("operator+", "operator-"):
                    v = a + b if n == "operator+" else a - b
                    if rec:
                        C.eq("value", "the difference", r, v % 2 ** 64 if r is not None and isconst(r) and r >= 0 and v < 0 else v, desc)
                    else:
                        see("the result", where_of(r), v)
                elif n in ("operator+=", "operator-=", "operator>>=", "operator="):
                    after = {"operator+=": a + (b or 0), "operator-=": a - b, "operator>>=": a >> b, "operator=": b}[n]
                    if not rec:
                        C.eq("value", "the returned object", where_of(r), THIS, desc)
                elif n in ("get_pos", "get_block2", "get_block1", "get_offset"):
                    v = r if isconst(r) else I.load(where_of(r)) if where_of(r) else None
                    C.eq("value", "the result", v, {"get_pos": a, "get_block2": a // (m1 * m2), "get_block1": a // m1 % m2, "get_offset": a % m1}[n], desc)
                elif n != "set":
                    C.J.open("value", "no rule for this function")
                else:
                    after = b
                see("the position afterwards", THIS, after)
    C.J.done()


def C_name(d):
    out = []
    for v, x, t in d.params:
        t = d.tu.types[t]
        while t["k"] in ("ref", "rref", "ptr"):
            t = t["tu"].types[t["pt"]]
        out.append((t.get("ct") or t.get("s") or t["k"]).split("::")[-1])
    return ", ".join(out)


# ------------------------------------------------------------------ iterators
class Iter(Case):
    def __init__(self, ctx, P, name, d, ps, const):
        Case.__init__(self, ctx, P, name, d)
        self.W.PS, self.ps, self.const = ps, ps, const
        self.N = 3 * ps * B
        for n in ("element", "const_element"):
            self.cfg.models[V + "::" + n] = lambda I, c, n=n: self.designate(I, c, n)

    def designate(self, I, c, n):
        p, b, i = self.W.index(I, c)
        k = (p * self.ps + b) * B + i
        I.user["acc"] = (n, k)
        return ('&', ('O', 'element%d' % k, 'u'))

    def see(self, I, what, l, want, desc, const=None):
        if l is None:
            return self.J.open("value", "%s not determined (%s)" % (what, desc))
        ct = (CVI, VI)[not self.const if const is None else not const]
        o = F(l, 'offset', ct)
        if I.load(F(l, 'p_vector', ct)) != ('&', VEC):
            self.J.bad("value", "%s belongs to another vector (%s)" % (what, desc))
        see_index(self, I, what, o, want, B, self.ps, desc)


def iterator(ctx, P, q, n, d, ps, const):
    name = "%s, %d-block pages, %s%s" % ("stxxl::const_vector_iterator" if const else "stxxl::vector_iterator", ps, n, "" if not d.params else "(%s)" % C_name(d))
    C = Iter(ctx, P, name, d, ps, const)
    k = len(d.params)
    rec = k == 1 and C.ptype(0)["k"] == "rec"
    oconst = rec and C.ptype(0)["ct"] == CVI
    if n.startswith("~") or k > 1 or n in ("bid", "flush", "block_externally_updated"):          # C14, C29
        return
    new = n in ("vector_iterator", "const_vector_iterator")
    if new and not rec or n == "operator=":
        return
    stepping = n in ("operator++", "operator--")
    for a in range(C.N):
        others = [None] if k == 0 else [0] if stepping else range(C.N)
        if new:
            others = [a]
        for b in others:
            if n in ("operator-", "operator-=") and not rec and b > a or n == "operator--" and a == 0:
                continue
            if n == "operator[]" and a + b >= C.N:
                continue
            desc = "at %d" % a if b is None or stepping or new else "at %d with %d" % (a, b)

            def body(I):
                I.user["N"] = C.N
                I.store[F(VEC, 'm_size', V)] = C.N
                if not new:
                    C.W.iter(I, THIS, a, const)
                xs = [] if b is None else [C.W.iter(I, OTHER, b, oconst)] if rec else [b]
                I.user["r"] = I.enter(d, THIS, xs)
                return 0
            for p in C.run(desc, body):
                I, r = p.I, p.I.user["r"]
                after = a
                if new:
                    pass
                elif n in CMP:
                    C.eq("order", "the result", r, int(CMP[n](a, b)), desc)
                elif stepping:
                    after = a + (1 if n == "operator++" else -1)
                    C.see(I, "the result", where_of(r), a if k else after, desc)
                elif n in ("operator+", "operator-"):
                    v = a + b if n == "operator+" else a - b
                    if rec:
                        C.eq("value", "the difference", r, v, desc)
                    else:
                        C.see(I, "the result", where_of(r), v, desc)
                elif n in ("operator+=", "operator-="):
                    after = a + b if n == "operator+=" else a - b
                    C.eq("value", "the returned object", where_of(r), THIS, desc)
                elif n in ("operator*", "operator->", "operator[]"):
                    i = a + (b or 0)
                    C.eq("element", "the designated element", r, ('&', ('O', 'element%d' % i, 'u')), desc)
                    if (const or d.f.get("cst")) and I.user.get("acc", ("",))[0] == "element":
                        C.J.bad("element", "an access through a constant iterator marks the element as modified (%s)" % desc)
                elif n == "block_offset":
                    C.eq("value", "the result", r, a % B, desc)
                elif n == "parent_vector":
                    C.eq("value", "the result", r, ('&', VEC), desc)
                else:
                    C.J.open("value", "no rule for this function")
                C.see(I, "the position afterwards", THIS, after, desc)
    C.J.done()


# ------------------------------------------------------------------ the vector's own access functions
def access(ctx, P, n, d, ps):
    C = Iter(ctx, P, "stxxl::vector, %d-block pages, %s%s" % (ps, n, " const" if d.f.get("cst") else ""), d, ps, False)
    cst = bool(d.f.get("cst"))
    N = 3 * ps * B
    for N in (0, 1, 2, 3, 5):
        for a in range(N) if n in ("operator[]", "at") else [None]:
            if N == 0 and n in ("front", "back"):
                continue
            desc = "vector of %d%s" % (N, "" if a is None else ", element %d" % a)

            def body(I):
                I.user["N"] = N
                I.store[F(VEC, 'm_size', V)] = N
                I.user["r"] = I.enter(d, VEC, [] if a is None else [a])
                return 0
            for p in C.run(desc, body):
                I, r = p.I, p.I.user["r"]
                if n == "size":
                    C.eq("value", "the result", r, N, desc)
                elif n == "empty":
                    C.eq("value", "the result", r, int(N == 0), desc)
                elif n in ("begin", "end", "cbegin", "cend"):
                    C.see(I, "the result", where_of(r), 0 if n.endswith("begin") else N, desc, const=cst)
                else:
                    i = a if a is not None else 0 if n == "front" else N - 1
                    C.eq("element", "the designated element", r, ('&', ('O', 'element%d' % i, 'u')), desc)
                    if cst and I.user.get("acc", ("",))[0] == "element":
                        C.J.bad("element", "a constant access marks the element as modified (%s)" % desc)
    C.J.done()


# ------------------------------------------------------------------ comparisons of vectors
class Comp(Iter):
    def __init__(self, ctx, P, name, d):
        Iter.__init__(self, ctx, P, name, d, 2, False)
        self.cfg.models["std::equal"] = self.equal
        self.cfg.models["std::lexicographical_compare"] = self.less

    def at(self, I, a):
        l = I.evloc(a)
        for ct in (VI, CVI):
            v, p = I.store.get(F(l, 'p_vector', ct)), I.store.get(F(F(l, 'offset', ct), 'pos', DBI))
            if v is not None and isconst(p) and where_of(v) in I.user["vecs"]:
                return where_of(v), p
        raise ai.PathEnd("iterator not determined")

    def span(self, I, c, i, j):
        (v, a), (w, b) = self.at(I, c.args[i]), self.at(I, c.args[j])
        if v != w or not 0 <= a <= b <= len(I.user["vecs"][v]):
            self.W.foul(I, "compares an impossible range", c)
        return I.user["vecs"][v][a:b]

    def equal(self, I, c):
        x = self.span(I, c, 0, 1)
        w, b = self.at(I, c.args[2])
        y = I.user["vecs"][w][b:] if len(c.args) < 4 else self.span(I, c, 2, 3)
        if len(c.args) > 3:
            return int(x == y)
        for i, e in enumerate(x):
            if i >= len(y):
                self.W.foul(I, "compares beyond the end of the second vector", c)
            if e != y[i]:
                return 0
        return 1

    def less(self, I, c):
        return int(self.span(I, c, 0, 1) < self.span(I, c, 2, 3))


def compare(ctx, P, n, d):
    C = Comp(ctx, P, "%s of vectors" % n, d)
    vals = [[], [1], [2], [1, 1], [1, 2], [2, 1], [1, 2, 3], [1, 2, 1], [1, 1, 1, 1, 1]]
    a, b = ('O', 'left', 'u'), ('O', 'right', 'u')
    for x in vals:
        for y in vals:
            desc = "%s and %s" % (x, y)

            def body(I):
                I.user["vecs"] = {a: x, b: y}
                I.store[F(a, 'm_size', V)], I.store[F(b, 'm_size', V)] = len(x), len(y)
                I.user["r"] = I.enter(d, None, [('&', a), ('&', b)])
                return 0
            for p in C.run(desc, body):
                C.eq("order", "the result", p.I.user["r"], int(CMP[n](x, y)), desc)
    C.J.done()


# ------------------------------------------------------------------ uint40, uint48
def wide(ctx, P, q, n, d):
    hb = 8 if "char" in q or "uint8" in q else 16
    bits = 32 + hb
    M = 2 ** bits
    C = Case(ctx, P, "stxxl::uint%d::%s%s" % (bits, n, "" if not d.params else "(%s)" % C_name(d)), d)
    vals = sorted({x for c in (0, 2 ** 32, 2 ** 33, 2 ** 31, 2 ** (bits - 1), M - 2 ** 32, 5 * 2 ** 32 + 7, M) for x in (c - 2, c - 1, c, c + 1) if 0 <= x < M})
    k = len(d.params)
    t = C.ptype(0) if k == 1 else None
    rec = k == 1 and t["k"] == "rec"
    new = n == "uint_pair"

    def put(I, l, v):
        I.store[F(l, 'low', UP)], I.store[F(l, 'high', UP)] = v & 0xffffffff, v >> 32
        return ('&', l)

    def see(I, what, l, v, desc):
        if l is None:
            return C.J.open("value", "%s not determined (%s)" % (what, desc))
        lo, hi = I.load(F(l, 'low', UP)), I.load(F(l, 'high', UP))
        if not isconst(lo) or not isconst(hi):
            return C.J.open("value", "%s not determined (%s)" % (what, desc))
        g = lo | hi << 32
        if not 0 <= lo < 2 ** 32 or not 0 <= hi < 2 ** hb or g != v:
            C.J.bad("value", "%s is %d instead of %d (%s)" % (what, g, v, desc))
    if new:
        if k == 0:
            return
        w = None if rec or k == 2 else (t.get("w") or 64)
        s = t.get("sg") if t else None
        cases = []
        for x in vals:
            if rec or k == 2 or w == 64:
                cases.append((x, x))
            elif s:
                if x < 2 ** 31:
                    cases += [(x, x), (-x, -x % M), (-x - 1, (-x - 1) % M)]
            elif x < 2 ** 32:
                cases.append((x, x))
        for arg, want in cases:
            desc = "from %d" % arg

            def body(I):
                xs = [put(I, OTHER, arg)] if rec else [arg & 0xffffffff, arg >> 32] if k == 2 else [arg]
                for i, x in enumerate(xs):
                    if d.tu.types[d.params[i][2]]["k"] in ("ref", "rref") and not rec:
                        l = ('O', 'arg%d' % i, 'u')
                        I.store[l] = x
                        xs[i] = ('&', l)
                I.enter(d, THIS, xs)
                return 0
            for p in C.run(desc, body):
                see(p.I, "the number", THIS, want, desc)
        return C.J.done()
    if not d.params and n in ("min", "max", "lowest"):
        for p in C.run("called", lambda I: I.user.__setitem__("r", I.enter(d, None, [])) or 0):
            see(p.I, "the result", where_of(p.I.user["r"]), M - 1 if n == "max" else 0, "called")
        return C.J.done()
    for a in vals:
        for b in [None] if k == 0 or not rec else vals:
            desc = "%d" % a if b is None else "%d with %d" % (a, b)

            def body(I):
                put(I, THIS, a)
                I.user["r"] = I.enter(d, THIS, [] if k == 0 else [put(I, OTHER, b)] if rec else [0])
                return 0
            for p in C.run(desc, body):
                I, r = p.I, p.I.user["r"]
                after = a
                if n in CMP:
                    C.eq("order", "the result", r, int(CMP[n](a, b)), desc)
                elif n in ("operator++", "operator--", "operator+=", "operator-="):
                    after = (a + {"operator++": 1, "operator--": -1}.get(n, b if n == "operator+=" else -(b or 0))) % M
                    if k and not rec:
                        see(I, "the result", where_of(r), a, desc)
                    else:
                        C.eq("value", "the returned object", where_of(r), THIS, desc)
                elif n in ("operator+", "operator-"):
                    see(I, "the result", where_of(r), (a + b if n == "operator+" else a - b) % M, desc)
                elif n in ("ull", "u64") or n.startswith("operator ") or n.startswith("operator unsigned") or n == "operator uint64":
                    C.eq("value", "the result", r, a, desc)
                else:
                    C.J.open("value", "no rule for this function")
                see(I, "the number afterwards", THIS, after, desc)
    C.J.done()


def jobs(ctx, P):
    out = []
    for q, M in sorted(insts(P, DBI + "<").items()):
        for n, ds in sorted(M.items()):
            for d in ds:
                if not n.startswith("~"):
                    out.append(("%s::%s" % (q, n), index, (ctx, P, q, n, d)))
    for cls, const in ((VI, False), (CVI, True)):
        for q, M in sorted(insts(P, cls + "<").items()):
            ps = int(re.findall(r"\d+", q)[-1])
            for n, ds in sorted(M.items()):
                for d in ds:
                    out.append(("%s::%s, %d" % (cls, n, ps), iterator, (ctx, P, q, n, d, ps, const)))
    for q, M in sorted(insts(P, UP + "<").items()):
        for n, ds in sorted(M.items()):
            for d in ds:
                if n not in ("low_max", "high_max") and not n.startswith("~"):
                    out.append(("%s::%s" % (q, n), wide, (ctx, P, q, n, d)))
    for q, M in sorted(insts(P, "std::numeric_limits<stxxl::uint_pair<").items()):
        for n in ("min", "max", "lowest"):
            for d in M.get(n, []):
                out.append(("%s::%s" % (q, n), wide, (ctx, P, q, n, d)))
    for q, M in sorted(insts(P, V + "<").items()):
        ps = 2 if re.search(r"unsigned int, 2,", q) else 1
        for n in ("operator[]", "at", "front", "back", "size", "empty", "begin", "end", "cbegin", "cend"):
            for d in M.get(n, []):
                out.append(("%s::%s" % (V, n), access, (ctx, P, n, d, ps)))
    for d in P.defs.values():
        if d.rec is None and d.n in CMP and len(d.params) == 2 and recq(d, 0).startswith(V + "<"):
            out.append((d.n, compare, (ctx, P, d.n, d)))
    return out


def run(ctx):
    ctx.rule("value", "positions, iterators and wide integers hold and return exactly what integer arithmetic gives, and outer block, inner block and offset agree with the position")
    ctx.rule("order", "comparisons give what the integers or sequences give")
    ctx.rule("element", "an iterator or access function designates the element at its position, without marking it modified when constant")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "index.cpp")])
    ctx.fan(jobs(ctx, P))
