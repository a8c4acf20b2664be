"""C29: streams, scans and buffered vector access visit every element exactly once, in order."""
import itertools, os
import ai, dom, prog
from dom import isconst, show, is_ptr, add
from .util import *
from .c08 import NamedJudge
from .c25 import Elems, val
from core import where

R = ("elements", "rest", "blocks", "result")
V, VI, CVI, DBI = "stxxl::vector", "stxxl::vector_iterator", "stxxl::const_vector_iterator", "stxxl::double_blocked_index"
ST = "stxxl::stream::"
VEC = ('O', 'vec', 'u')
NODE = ('O', 'node', 'u')
B = 2                                   # elements per block (drivers/stream.cpp)
VALID, UNINIT, DIRTY, CACHED = "on disk", "never written", "modified", "cached"
CODE = {VALID: 0, CACHED: 0, UNINIT: 1, DIRTY: 2}
NEVER = ('s', 'never written')


def insts(P, prefix):
    """{printed class: {member: [definitions]}} of the instances of a class template."""
    out = {}
    for d in P.defs.values():
        if d.rec is not None:
            q = P.canon(d.rec).get("q", "")
            if q.startswith(prefix):
                ds = out.setdefault(q, {}).setdefault(d.n, [])
                if d not in ds:
                    ds.append(d)
    return out


class World(Elems):
    """A vector with its page cache (its own rules are C14's), prefetchers and writers (C13's), functors and input streams."""

    def __init__(self, cfg, P):
        Elems.__init__(self, cfg, P, B)
        self.PS = 2
        m = cfg.models
        v = V + "::"
        m[v + "element"] = lambda I, c: self.element(I, c, True)
        m[v + "const_element"] = lambda I, c: self.element(I, c, False)
        m[v + "flush"] = self.flush
        m[v + "block_externally_updated"] = self.updated
        m[v + "resize"] = self.resize
        p = "stxxl::block_prefetcher::"
        m[p + "block_prefetcher"] = self.pf_new
        m[p + "pull_block"] = self.pf_pull
        m[p + "block_consumed"] = self.pf_next
        m[p + "~block_prefetcher"] = self.pf_del
        p = "stxxl::buffered_writer::"
        m[p + "buffered_writer"] = self.bw_new
        m[p + "get_free_block"] = self.bw_get
        m[p + "write"] = self.bw_write
        m[p + "flush"] = self.bw_flush
        m[p + "~buffered_writer"] = self.bw_del
        self.dtor = next((d for d in P.defs.values() if d.n == "~buf_istream" and P.canon(d.rec).get("q", "").startswith("stxxl::buf_istream<")), None)
        m["std::unique_ptr::reset"] = m["std::auto_ptr::reset"] = self.up_reset
        m["std::unique_ptr::~unique_ptr"] = m["std::auto_ptr::~auto_ptr"] = lambda I, c: self.up_del(I, I.load(c.obj))
        m["stxxl::config::disks_number"] = lambda I, c: 2
        m["stxxl::config::get_max_device_id"] = lambda I, c: 2
        m["stxxl::compute_prefetch_schedule"] = lambda I, c: 0
        m["std::reverse_copy"] = self.reverse_copy
        for c in ("in", "tin"):
            d = "drv::%s::operator" % c
            m[d + "*"] = m[d + "->"] = self.in_deref
            m[d + "++"] = self.in_next
            m["drv::%s::empty" % c] = lambda I, c: int(self.stream(I, c.obj)[1] >= len(self.stream(I, c.obj)[0]))
        m["drv::op::operator()"] = self.op
        m["drv::fun::operator()"] = self.fun
        m["drv::gen::operator()"] = self.gen
        m["drv::same::operator()"] = self.same

    def foul(self, I, t, c=None):
        I.user.setdefault("misuse", []).append((c.node.get("l") if c is not None else "?", t, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    # ---- functors and modelled streams
    def vals(self, I, c):
        return [I.argval(a) for a in c.args]

    def op(self, I, c):
        v = self.vals(I, c)
        r = ('s', 'op(%s)' % ", ".join(show(x) for x in v))
        I.user["calls"].append(r)
        return r

    def fun(self, I, c):
        l = I.evloc(c.args[0])
        v = I.load(l)
        I.user["calls"].append(v)
        I.put(l, ('s', 'f(%s)' % show(v)), c.node)
        return 0

    def gen(self, I, c):
        n = len(I.user["calls"])
        I.user["calls"].append(('s', 'g%d' % n))
        return I.user["calls"][-1]

    def same(self, I, c):
        a, b = self.vals(I, c)
        if not isconst(a) or not isconst(b):
            raise ai.PathEnd("values not determined")
        return int(a // 10 == b // 10)

    def stream(self, I, o):
        s = I.user["in"].get(o)
        if s is None:
            raise ai.PathEnd("input stream not determined")
        return s

    def in_deref(self, I, c):
        s = self.stream(I, c.obj)
        if s[1] >= len(s[0]):
            self.foul(I, "reads an input stream past its end", c)
        v = s[0][s[1]]
        n = I.user["ntmp"] = I.user.get("ntmp", 0) + 1
        l = ('O', 'input %d' % n, 'u')
        if isinstance(v, list):
            for (f, o), x in zip(TF, v):
                I.store[F(l, f, o)] = x
        else:
            I.store[l] = v
        return ('&', l)

    def in_next(self, I, c):
        s = self.stream(I, c.obj)
        if s[1] >= len(s[0]):
            self.foul(I, "advances an input stream past its end", c)
        s[1] += 1
        return ('&', c.obj)

    # ---- the vector
    def put(self, I, n, states, ps, values=None):
        u = I.user
        self.PS = ps
        u.update({"calls": [], "in": {}, "disk": {}, "page": {}, "bad": [], "pf": {}, "bw": {}, "inflight": set(), "N": n})
        u.setdefault("live", set())
        nb = -(-n // B)
        f = lambda x: F(VEC, x, V)
        I.store[f('m_size')] = n
        self.S.put(I, f('m_bids'), [(lambda k: lambda l: self.setbid(I, l, k))(b + 1) for b in range(nb)], "std::vector")
        vals = values or [val(i) for i in range(nb * B)]
        for p in range(-(-nb // ps)):
            st = states[p % len(states)]
            u["page"][p] = [VALID if st in (DIRTY, CACHED) else st, None]
            for b in range(p * ps, min((p + 1) * ps, nb)):
                u["disk"][b] = [NEVER] * B if st == UNINIT else [('s', 'old %d' % i) for i in range(b * B, b * B + B)] if st == DIRTY else vals[b * B:b * B + B]
            if st in (DIRTY, CACHED):
                self.load_page(I, p)
                for i in range(ps * B):
                    if p * ps * B + i < nb * B:
                        I.store[self.cell(I, p, i)] = vals[p * ps * B + i]
                u["page"][p][0] = DIRTY if st == DIRTY else VALID

    def cell(self, I, p, i):
        l = ('O', 'page%d.%d' % (p, I.user["page"][p][1]), 'u')
        return ('I', l, i) if i else l

    def load_page(self, I, p):
        u = I.user
        g = u["ngen"] = u.get("ngen", 0) + 1
        u["page"][p][1] = g
        for b in range(self.PS):
            k = p * self.PS + b
            src = u["disk"].get(k, [NEVER] * B)
            if u["page"][p][0] == UNINIT:
                src = [NEVER] * B
            if k in u["inflight"]:
                src = [('s', 'being written')] * B
            for i in range(B):
                I.store[self.cell(I, p, b * B + i)] = src[i]

    def index(self, I, c):
        """(page, block in page, element in block) an argument designates."""
        a = c.args[0]
        t = I.ty(a)
        while t["k"] in ("ref", "rref"):
            t = t["tu"].types[t["pt"]]
        if t["k"] == "rec":
            l = I.evloc(a)
            x = [I.load(F(l, n, DBI)) for n in ('pos', 'block2', 'block1', 'offset')]
            if not all(isconst(y) for y in x):
                raise ai.PathEnd("index not determined")
            if not (0 <= x[2] < self.PS and 0 <= x[3] < B) or x[0] != (x[1] * self.PS + x[2]) * B + x[3]:
                self.foul(I, "the index of element %d says block %d of page %d, element %d" % (x[0], x[2], x[1], x[3]), c)
            return x[1], x[2], x[3]
        x = I.argval(a)
        if not isconst(x):
            raise ai.PathEnd("index not determined")
        return x // (self.PS * B), x // B % self.PS, x % B

    def element(self, I, c, write):
        p, b, i = self.index(I, c)
        if p not in I.user["page"] or (p * self.PS + b) * B + i >= -(-I.user["N"] // B) * B:
            self.foul(I, "accesses element %d of a vector of %d" % ((p * self.PS + b) * B + i, I.user["N"]), c)
        if I.user["page"][p][1] is None:
            self.load_page(I, p)
        if write:
            I.user["page"][p][0] = DIRTY
        return ('&', self.cell(I, p, b * B + i))

    def flush(self, I, c):
        for p, s in I.user["page"].items():
            if s[1] is not None:
                if s[0] == DIRTY:
                    for b in range(self.PS):
                        k = p * self.PS + b
                        if k in I.user["disk"]:
                            if k in I.user["inflight"]:
                                I.user["bad"].append(("blocks", "a page is written back while one of its blocks is being written"))
                            I.user["disk"][k] = [I.load(self.cell(I, p, b * B + i)) for i in range(B)]
                    s[0] = VALID
                s[1] = None
        return 0

    def updated(self, I, c):
        p = self.index(I, c)[0]
        s = I.user["page"].get(p)
        if s is None:
            self.foul(I, "marks page %d of a vector of %d elements" % (p, I.user["N"]), c)
        if s[0] == DIRTY:
            self.foul(I, "marks a page as updated on disk whose modified copy is in the cache", c)
        s[0], s[1] = VALID, None
        return 0

    def resize(self, I, c):
        n = I.argval(c.args[0])
        if not isconst(n):
            raise ai.PathEnd("size not determined")
        u = I.user
        f = lambda x: F(VEC, x, V)
        have = len(self.S.elems(I, f('m_bids')))
        nb = -(-n // B)
        if nb > have:
            self.S.put(I, f('m_bids'), [(lambda k: lambda l: self.setbid(I, l, k))(b + 1) for b in range(nb)], "std::vector")
            for b in range(have, nb):
                u["disk"][b] = [NEVER] * B
                u["page"].setdefault(b // self.PS, [UNINIT, None])
        u["N"] = n
        I.store[f('m_size')] = n
        return 0

    def iter(self, I, l, pos, const=False):
        ct = CVI if const else VI
        o = F(l, 'offset', ct)
        for n, v in (('pos', pos), ('block2', pos // (self.PS * B)), ('block1', pos // B % self.PS), ('offset', pos % B)):
            I.store[F(o, n, DBI)] = v
        I.store[F(l, 'p_vector', ct)] = ('&', VEC)
        return ('&', l)

    def posof(self, I, l):
        for ct in (VI, CVI):
            x = [I.store.get(F(F(l, 'offset', ct), n, DBI)) for n in ('pos', 'block2', 'block1', 'offset')]
            if all(isconst(y) for y in x):
                if x[0] != (x[1] * self.PS + x[2]) * B + x[3]:
                    return "inconsistent"
                return x[0] if I.store.get(F(l, 'p_vector', ct)) == ('&', VEC) else "elsewhere"
        return None

    def content(self, I):
        u = I.user
        out = []
        for i in range(u["N"]):
            p = i // (self.PS * B)
            s = u["page"].get(p)
            if s is None:
                out.append("missing")
            elif s[1] is not None:
                out.append(I.store.get(self.cell(I, p, i % (self.PS * B))))
            elif s[0] == UNINIT:
                out.append(NEVER)
            else:
                out.append(u["disk"].get(i // B, [None] * B)[i % B])
        return out

    # ---- prefetching
    def pf_new(self, I, c):
        a, b = self.S.norm(I, c.args[0]), self.S.norm(I, c.args[1])
        if a is None and b is None:
            x, y = I.argval(c.args[0]), I.argval(c.args[1])
            i, j = 0, dom.sub(y, x)
            if not isconst(j) or not 0 < j < 40:
                raise ai.PathEnd("range of blocks not determined")
            ls = [I.deref(add(x, k)) for k in range(j)]
        elif a is None or b is None or a[0] != 'seqit':
            raise ai.PathEnd("range of blocks not determined")
        else:
            ls = self.S.elems(I, a[1])
            i, j = self.S.pos(I, a), self.S.pos(I, b)
        if not 0 <= i <= j <= len(ls):
            self.foul(I, "reads blocks %d to %d of %d" % (i, j, len(ls)), c)
        if i == j:
            self.foul(I, "prefetches no blocks", c)
        ns = [self.num(I, l) - 1 for l in ls[i:j]]
        u = I.user
        for n in ns:
            if u["page"].get(n // self.PS, [VALID])[0] == DIRTY:
                u["bad"].append(("elements", "reads a block from disk whose modified copy is in the vector's cache"))
        u["pf"][c.obj] = {"ns": ns, "at": 0, "seen": {n: list(u["disk"][n]) for n in ns}, "held": None, "open": True}
        return 0

    def pf(self, I, c):
        s = I.user["pf"].get(c.obj)
        if s is None or not s["open"]:
            self.foul(I, "uses a prefetcher that does not exist", c)
        return s

    def pull(self, I, s, c):
        n = s["ns"][s["at"]]
        s["at"] += 1
        if I.user["disk"][n] != s["seen"][n]:
            I.user["bad"].append(("elements", "block %d was read before it was changed" % n))
        k = I.user["nrb"] = I.user.get("nrb", 0) + 1
        b = ('O', 'read%d' % k, 'u')
        self.set(I, b, s["seen"][n])
        s["held"] = b
        return ('&', b)

    def pf_pull(self, I, c):
        s = self.pf(I, c)
        if s["at"] >= len(s["ns"]):
            self.foul(I, "pulls a block beyond the last one", c)
        return self.pull(I, s, c)

    def pf_next(self, I, c):
        s = self.pf(I, c)
        l = I.evloc(c.args[0])
        if I.load(l) != ('&', s["held"]):
            self.foul(I, "gives back a block it does not have", c)
        self.set(I, s["held"], [('s', 'recycled')] * B)
        if s["at"] >= len(s["ns"]):
            return 0
        I.put(l, self.pull(I, s, c), c.node)
        return 1

    def pf_del(self, I, c):
        self.pf(I, c)["open"] = False
        return 0

    def reverse_copy(self, I, c):
        a, b, o = [self.S.norm(I, x) for x in c.args[:3]]
        if None in (a, b):
            raise ai.PathEnd("range not determined")
        src = self.S.elems(I, a[1])[self.S.pos(I, a):self.S.pos(I, b)]
        if o is None:
            p = I.argval(c.args[2])
            dst = [I.deref(add(p, k)) for k in range(len(src))]
        else:
            dst = self.S.elems(I, o[1])[self.S.pos(I, o):]
        if len(dst) < len(src):
            self.foul(I, "copies beyond the end of a container", c)
        for x, y in zip(reversed(src), dst):
            k = self.bidof(I, x)
            I.store[F(y, 'storage', 'stxxl::BID')], I.store[F(y, 'offset', 'stxxl::BID')] = k
        return 0

    def up_del(self, I, v):
        if is_ptr(v):
            if self.dtor is None:
                raise ai.PathEnd("the stream's destructor is not found")
            I.enter(self.dtor, I.deref(v), [])
        return 0

    def up_reset(self, I, c):
        old = I.load(c.obj)
        I.store[c.obj] = I.argval(c.args[0]) if c.args else 0
        return self.up_del(I, old)

    # ---- writing
    def bw_new(self, I, c):
        I.user["bw"][c.obj] = {"held": None, "open": True, "mine": set()}
        return 0

    def bw(self, I, c):
        s = I.user["bw"].get(c.obj)
        if s is None or not s["open"]:
            self.foul(I, "uses a writer that does not exist", c)
        return s

    def fresh_block(self, I, s):
        k = I.user["nwb"] = I.user.get("nwb", 0) + 1
        s["held"] = ('O', 'write%d' % k, 'u')
        self.set(I, s["held"], [('s', 'unset')] * B)
        return ('&', s["held"])

    def bw_get(self, I, c):
        return self.fresh_block(I, self.bw(I, c))

    def bw_write(self, I, c):
        s = self.bw(I, c)
        b = I.argval(c.args[0])
        if b != ('&', s["held"]):
            self.foul(I, "writes a block it does not have", c)
        n = self.num(I, I.evloc(c.args[1])) - 1
        u = I.user
        if n not in u["disk"]:
            self.foul(I, "writes a block the vector does not have", c)
        if n in u["inflight"]:
            u["bad"].append(("blocks", "block %d is written twice" % n))
        u["disk"][n] = list(self.get(I, s["held"]))
        u["inflight"].add(n)
        s["mine"].add(n)
        self.set(I, s["held"], [('s', 'handed over')] * B)
        return self.fresh_block(I, s)

    def bw_flush(self, I, c):
        I.user["inflight"] -= self.bw(I, c)["mine"]
        return 0

    def bw_del(self, I, c):
        s = self.bw(I, c)
        I.user["inflight"] -= s["mine"]
        left = [x for x in self.get(I, s["held"]) if x != ('s', 'unset')] if s["held"] else []
        s["open"] = False
        return 0


TF = [(n, 'stxxl::tuple') for n in ("first", "second", "third", "fourth", "fifth", "sixth")]


def config(P):
    cfg = ai.base_config()
    W = World(cfg, P)
    cfg.unroll = 40
    cfg.array_ctor = True
    return cfg, W


class Test:
    def __init__(self, ctx, P, name, d):
        self.ctx, self.P = ctx, P
        cfg, self.W = config(P)
        self.I = ctx.interp(P, cfg)
        self.J = NamedJudge(ctx, R, d)
        self.J.name = name

    def run(self, desc, body):
        J = self.J
        for p in J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                J.bad("result", "throws (%s)" % desc)
                continue
            u = p.I.user
            for r, t in u.get("bad", []):
                J.bad(r, "%s (%s)" % (t, desc))
            for s in u.get("pf", {}).values():
                if s["open"]:
                    J.bad("blocks", "a prefetcher is never destroyed (%s)" % desc)
            for s in u.get("bw", {}).values():
                if s["open"]:
                    J.bad("blocks", "a writer is never destroyed (%s)" % desc)
            yield p

    def val(self, I, v):
        """The value a returned reference designates."""
        if v is None:
            return None
        if is_ptr(v) or isinstance(v, dom.Lin):
            return I.load(I.deref(v))
        return v

    def same(self, what, got, want, desc, rule="elements"):
        if list(got) == list(want):
            return True
        if any(x is None for x in got):
            self.J.open(rule, "%s not determined (%s)" % (what, desc))
            return False
        i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
        g = show(got[i]) if i < len(got) else "nothing"
        w = show(want[i]) if i < len(want) else "nothing"
        self.J.bad(rule, "%s: item %d is %s instead of %s (%s)" % (what, i + 1, g, w, desc))
        return False

    def content(self, p, want, desc):
        """want: what every element must be; None where it was never written."""
        got = self.W.content(p.I)
        if len(got) != len(want):
            self.J.bad("rest", "the vector has %d elements instead of %d (%s)" % (len(got), len(want), desc))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            if w is not None and g != w:
                if g is None:
                    self.J.open("rest", "element %d not determined (%s)" % (i, desc))
                else:
                    self.J.bad("elements" if w[0] == 's' and w[1][0] in "gfi" else "rest", "element %d is %s instead of %s (%s)" % (i, show(g), show(w), desc))
                return


def ctor(M, cls, n):
    """Constructors of the class with n parameters that are not copies."""
    return [d for d in M.get(cls, []) if len(d.params) == n]


def drain(W, I, T, M, node, limit, arrow=True):
    """Pulls a stream until it is empty."""
    out = []
    while True:
        e = I.enter(M["empty"][0], node, [])
        if not isconst(e):
            raise ai.PathEnd("whether the stream is empty is not determined")
        if e:
            return out
        if len(out) >= limit:
            I.user["bad"].append(("elements", "the stream does not end"))
            return out
        v = T.val(I, I.enter(M["operator*"][0], node, []))
        if arrow and "operator->" in M and T.val(I, I.enter(M["operator->"][0], node, [])) != v:
            I.user["bad"].append(("elements", "-> and * of the stream differ"))
        out.append(v)
        I.enter(M["operator++"][0], node, [])


def begin(I, u=None):
    I.user.update({"calls": [], "in": {}, "disk": {}, "page": {}, "bad": [], "pf": {}, "bw": {}, "inflight": set(), "N": 0})


def inputs(I, ls):
    """Input streams with the given values."""
    out = []
    for k, l in enumerate(ls):
        o = ('O', 'in%d' % k, 'u')
        I.user["in"][o] = [l, 0]
        out.append(('&', o))
    return out


def nodes(ctx, P, q, M, kind_):
    """transform and make_tuple of any number of inputs: as many results as the shortest input has, in step."""
    cls = kind_
    d = [x for x in M[cls] if len(x.params) >= 2]
    if not d:
        raise prog.AnalysisBroken("no constructor of " + q)
    d = d[0]
    k = len(d.params) - (1 if cls == "transform" else 0)
    T = Test(ctx, P, ST + "%s of %d" % (cls, k), d)
    lens = [(n,) * k for n in (0, 1, 2, 3)] + [tuple(1 if j == i else 3 for j in range(k)) for i in range(k)] + [tuple(0 if j == i else 2 for j in range(k)) for i in range(k)]
    for ls in sorted(set(lens)):
        desc = "inputs of length %s" % " ".join(map(str, ls))
        data = [[('s', '%s%d' % ("abcdef"[j], i)) for i in range(n)] for j, n in enumerate(ls)]
        n = min(ls)

        def body(I):
            begin(I)
            ins = inputs(I, data)
            I.enter(d, NODE, ([('&', ('O', 'op', 'u'))] if cls == "transform" else []) + ins)
            if cls == "transform":
                I.user["got"] = drain(T.W, I, T, M, NODE, 8)
                return 0
            out = []
            while not I.enter(M["empty"][0], NODE, []):
                l = I.deref(I.enter(M["operator*"][0], NODE, []))
                out.append(tuple(I.load(F(l, f, o)) for f, o in TF[:k]))
                if len(out) > 8:
                    break
                I.enter(M["operator++"][0], NODE, [])
            I.user["got"] = out
            return 0
        for p in T.run(desc, body):
            if cls == "transform":
                want = [('s', 'op(%s)' % ", ".join(show(c[i]) for c in data)) for i in range(n)]
                if T.same("results", p.I.user["got"], want, desc) and p.I.user["calls"] != want:
                    T.J.bad("elements", "the operation is called %d times for %d results (%s)" % (len(p.I.user["calls"]), n, desc))
            else:
                want = [tuple(c[i] for c in data) for i in range(n)]
                got = p.I.user["got"]
                if got != want:
                    if any(None in x for x in got):
                        T.J.open("elements", "tuple not determined (%s)" % desc)
                    else:
                        T.J.bad("elements", "the tuples are %s instead of %s (%s)" % ([tuple(map(show, x)) for x in got], [tuple(map(show, x)) for x in want], desc))
    T.J.done()


def chooses(ctx, P, q, M):
    d = M["choose"][0]
    k = int(q.rstrip("> ").split(",")[-1])
    T = Test(ctx, P, ST + "choose of component %d" % k, d)
    for n in range(0, 4):
        data = [[('s', '%s%d' % (c, i)) for c in "abcdef"] for i in range(n)]
        desc = "%d tuples" % n

        def body(I):
            begin(I)
            I.enter(d, NODE, inputs(I, [data]))
            I.user["got"] = drain(T.W, I, T, M, NODE, 8)
            return 0
        for p in T.run(desc, body):
            T.same("components", p.I.user["got"], [x[k - 1] for x in data], desc)
    T.J.done()


def uniques(ctx, P, q, M):
    d = [x for x in M["unique"] if x.params][0]
    pred = len(d.params) == 2
    T = Test(ctx, P, ST + "unique" + (" with a predicate" if pred else ""), d)
    for n in range(0, 6):
        for pat in itertools.product((0, 1), repeat=max(n - 1, 0)):
            data, x = [], 10
            for i in range(n):
                if i and pat[i - 1]:
                    x += 10
                data.append(x + (i if pred else 0))
            want, last = [], None
            for v in data:
                if last is None or v // 10 != last // 10:
                    want.append(v)
                last = v
            desc = "input %s" % " ".join(map(str, data))

            def body(I):
                begin(I)
                I.enter(d, NODE, inputs(I, [data]) + ([('&', ('O', 'pred', 'u'))] if pred else []))
                I.user["got"] = drain(T.W, I, T, M, NODE, 8)
                return 0
            for p in T.run(desc, body):
                T.same("values", p.I.user["got"], want, desc)
    T.J.done()


def generators(ctx, P, q, M):
    d = [x for x in M["generator2stream"] if x.tu.types[x.params[0][2]]["k"] == "rec"][0]
    T = Test(ctx, P, ST + "generator2stream", d)

    def body(I):
        begin(I)
        I.enter(d, NODE, [('&', ('O', 'generator', 'u'))])
        out = []
        for i in range(3):
            if I.enter(M["empty"][0], NODE, []):
                I.user["bad"].append(("elements", "a generator's stream is empty"))
            out.append(T.val(I, I.enter(M["operator*"][0], NODE, [])))
            if T.val(I, I.enter(M["operator->"][0], NODE, [])) != out[-1]:
                I.user["bad"].append(("elements", "-> and * of the stream differ"))
            I.enter(M["operator++"][0], NODE, [])
        I.user["got"] = out
        return 0
    for p in T.run("three steps", body):
        T.same("values", p.I.user["got"], [('s', 'g%d' % i) for i in range(3)], "three steps")
    T.J.done()


SIZES = (6, 7)
STATES = ((VALID,), (DIRTY,), (CACHED,), (DIRTY, VALID), (VALID, DIRTY))


def ranges(n, empty=True):
    for b in range(n + 1):
        for e in range(b if empty else b + 1, n + 1):
            yield b, e


def describe(n, st, ps):
    return "vector of %d elements, %d to a block, %d block%s to a page; pages %s" % (n, B, ps, "s" if ps > 1 else "", ", ".join(st))



def recq(d, i):
    """The printed class of a record parameter."""
    t = d.tu.types[d.params[i][2]]
    while t["k"] in ("ref", "rref"):
        t = d.tu.types[t["pt"]]
    return d.tu.recs[t["rid"]].get("q", "") if t["k"] == "rec" else ""


def isconstit(q):
    return "const_vector_iterator<" in q.split("stxxl::", 1)[-1][:30]


def pagesize(q):
    """Blocks per page of the vector an iterator belongs to."""
    return int(q.rstrip("> ").split(",")[-1])


def start(T, I, n, st, ps, values=None):
    T.W.put(I, n, st, ps, values)


def finalvals(n, st, ps, values=None):
    """What the elements are before the operation (None: never written)."""
    vals = values or [val(i) for i in range(n)]
    return [None if st[(i // (ps * B)) % len(st)] == UNINIT else vals[i] for i in range(n)]


class Scan(Test):
    """for_each, for_each_m, generate, find and materialize over ranges of a vector."""

    def __init__(self, ctx, P, name, d, at):
        Test.__init__(self, ctx, P, name, d)
        self.d = d
        q = recq(d, at)
        self.const, self.ps = isconstit(q), pagesize(q)
        self.name = name

    def two(self, I, b, e):
        return [self.W.iter(I, ('O', 'first', 'u'), b, self.const), self.W.iter(I, ('O', 'last', 'u'), e, self.const)]

    def result(self, I, v):
        """Position of a returned iterator."""
        return self.W.posof(I, v[1] if isinstance(v, tuple) and v and v[0] == 'obj' else I.deref(v))

    def quiet(self, p, desc):
        if p.I.user["inflight"]:
            self.J.bad("blocks", "returns while blocks are being written (%s)" % desc)

    def each(self, mutate):
        for n in SIZES:
            for st in STATES:
                for b, e in ranges(n):
                    desc = "elements %d to %d; %s" % (b, e, describe(n, st, self.ps))

                    def body(I):
                        start(self, I, n, st, self.ps)
                        I.enter(self.d, None, self.two(I, b, e) + [('&', ('O', 'functor', 'u')), 0])
                        return 0
                    for p in self.run(desc, body):
                        old = finalvals(n, st, self.ps)
                        self.quiet(p, desc)
                        if self.same("elements visited", p.I.user["calls"], old[b:e], desc):
                            self.content(p, [('s', 'f(%s)' % show(v)) if mutate and b <= i < e else v for i, v in enumerate(old)], desc)
        self.J.done()

    def generate(self):
        for n in SIZES:
            for st in STATES + ((UNINIT,), (UNINIT, VALID), (VALID, UNINIT)):
                for b, e in ranges(n):
                    desc = "elements %d to %d; %s" % (b, e, describe(n, st, self.ps))

                    def body(I):
                        start(self, I, n, st, self.ps)
                        I.enter(self.d, None, self.two(I, b, e) + [('&', ('O', 'functor', 'u')), 0])
                        return 0
                    for p in self.run(desc, body):
                        self.quiet(p, desc)
                        new = [('s', 'g%d' % i) for i in range(e - b)]
                        if self.same("calls", p.I.user["calls"], new, desc):
                            old = finalvals(n, st, self.ps)
                            self.content(p, old[:b] + new + old[e:], desc)
        self.J.done()

    def find(self):
        for n in SIZES:
            values = [3, 1, 4, 1, 5, 9, 2, 6][:n + n % 2]
            for st in STATES[:3]:
                for b, e in ranges(n):
                    for x in (3, 1, 5, 2, 7):
                        desc = "find %d in elements %d to %d of %s; %s" % (x, b, e, " ".join(map(str, values[:n])), describe(n, st, self.ps))

                        def body(I):
                            start(self, I, n, st, self.ps, values)
                            I.store[('O', 'wanted', 'u')] = x
                            I.user["res"] = self.result(I, I.enter(self.d, None, self.two(I, b, e) + [('&', ('O', 'wanted', 'u')), 0]))
                            return 0
                        for p in self.run(desc, body):
                            want = next((i for i in range(b, e) if values[i] == x), e)
                            self.pos(p, want, desc)
                            self.content(p, finalvals(n, st, self.ps, values), desc)
        self.J.done()

    def pos(self, p, want, desc):
        got = p.I.user["res"]
        if got is None:
            self.J.open("result", "the iterator returned is not determined (%s)" % desc)
        elif got != want:
            self.J.bad("result", "returns position %s instead of %s (%s)" % (got, want, desc))

    def materialize(self, bounded):
        for n in SIZES:
            for st in STATES + ((UNINIT,), (VALID, UNINIT)):
                for b, e in ranges(n):
                    if not bounded and e < n - 1:
                        continue
                    for k in ((0, 1, 3, n - b, 8) if bounded else range(0, n - b + 1) if e == n else ()):
                        src = [('s', 'in%d' % i) for i in range(k)]
                        desc = "%d elements into %d%s; %s" % (k, b, " to %d" % e if bounded else "", describe(n, st, self.ps))

                        def body(I):
                            start(self, I, n, st, self.ps)
                            args = inputs(I, [src]) + (self.two(I, b, e) if bounded else self.two(I, b, e)[:1])
                            I.user["res"] = self.result(I, I.enter(self.d, None, args + [0]))
                            return 0
                        for p in self.run(desc, body):
                            m = min(k, e - b) if bounded else k
                            self.quiet(p, desc)
                            self.pos(p, b + m, desc)
                            if p.I.user["in"][('O', 'in0', 'u')][1] != m:
                                self.J.bad("elements", "takes %d elements of the stream and stores %d (%s)" % (p.I.user["in"][('O', 'in0', 'u')][1], m, desc))
                            old = finalvals(n, st, self.ps)
                            self.content(p, old[:b] + [('s', 'in%d' % i) for i in range(m)] + old[b + m:], desc)
        self.J.done()

    def plain(self, bounded):
        """materialize into memory."""
        for k in range(0, 4):
            for room in (0, 1, 3, 5) if bounded else (5,):
                desc = "%d elements into room for %d" % (k, room)
                m = ('O', 'memory', 'u')

                def body(I):
                    begin(I)
                    src = inputs(I, [[('s', 'in%d' % i) for i in range(k)]])
                    for i in range(5):
                        I.store[('I', m, i) if i else m] = ('s', 'old%d' % i)
                    I.user["res"] = I.enter(self.d, None, src + [('&', m)] + ([add(('&', m), room) if room else ('&', m)] if bounded else []))
                    return 0
                for p in self.run(desc, body):
                    x = min(k, room)
                    got = [p.store.get(('I', m, i) if i else m) for i in range(5)]
                    self.same("memory", got, [('s', 'in%d' % i) if i < x else ('s', 'old%d' % i) for i in range(5)], desc)
                    if p.I.user["res"] != (add(('&', m), x) if x else ('&', m)):
                        self.J.bad("result", "returns the wrong place (%s)" % desc)
        self.J.done()

    def discard(self):
        for k in range(0, 4):
            desc = "%d elements" % k

            def body(I):
                begin(I)
                I.enter(self.d, None, inputs(I, [[('s', 'in%d' % i) for i in range(k)]]))
                return 0
            for p in self.run(desc, body):
                if p.I.user["in"][('O', 'in0', 'u')][1] != k:
                    self.J.bad("elements", "leaves elements in the stream (%s)" % desc)
        self.J.done()


class Reader(Test):
    """Streams over ranges of a vector: every element once, in (reverse) order."""

    def __init__(self, ctx, P, name, d, M, q, ps, const, rev=False):
        Test.__init__(self, ctx, P, name, d)
        self.d, self.M, self.q, self.ps, self.const, self.rev = d, M, q, ps, const, rev
        self.rec = P.canon(d.rec)

    def make(self, I, b, e):
        d = self.d
        if len(d.params) == 2 and "vector_iterator" not in recq(d, 0).split("<")[0]:
            I.enter(d, NODE, [('&', VEC), 0])
        else:
            its = [self.W.iter(I, ('O', 'first', 'u'), b, self.const), self.W.iter(I, ('O', 'last', 'u'), e, self.const)]
            I.enter(d, NODE, its + ([0] if len(d.params) > 2 else []))

    def whole(self):
        return len(self.d.params) == 2 and "vector_iterator" not in recq(self.d, 0).split("<")[0]

    def all(self):
        for n in SIZES + (0,):
            for st in STATES:
                for b, e in ([(0, n)] if self.whole() else ranges(n)):
                    self.one(n, st, b, e)
        self.J.done()

    def order(self, vs):
        return list(reversed(vs)) if self.rev else list(vs)

    def one(self, n, st, b, e):
        M, W = self.M, self.W
        desc = "elements %d to %d; %s" % (b, e, describe(n, st, self.ps))
        sized = "size" in M
        want = self.order(finalvals(n, st, self.ps)[b:e])

        def body(I):
            start(self, I, n, st, self.ps)
            self.make(I, b, e)
            if sized and I.enter(M["size"][0], NODE, []) != e - b:
                I.user["bad"].append(("result", "size() is %s instead of %d" % (show(I.enter(M["size"][0], NODE, [])), e - b)))
            I.user["got"] = drain(W, I, self, M, NODE, 10)
            I.run_dtor(NODE, self.rec)
            return 0
        for p in self.run(desc, body):
            if self.same("elements read", p.I.user["got"], want, desc):
                self.content(p, finalvals(n, st, self.ps), desc)
        if "rewind" in M and st == (VALID,):
            for k in range(0, e - b + 1):
                desc2 = "rewound after %d elements; %s" % (k, desc)

                def body2(I):
                    start(self, I, n, st, self.ps)
                    self.make(I, b, e)
                    out = []
                    x = ('O', 'out', 'u')
                    for i in range(k):
                        I.enter(M["operator>>"][0], NODE, [('&', x)])
                        out.append(I.load(x))
                        if sized and I.enter(M["size"][0], NODE, []) != e - b - i - 1:
                            I.user["bad"].append(("result", "size() is wrong after %d elements" % (i + 1)))
                    I.enter(M["rewind"][0], NODE, [])
                    I.user["first"] = out
                    I.user["got"] = drain(W, I, self, M, NODE, 10)
                    I.run_dtor(NODE, self.rec)
                    return 0
                for p in self.run(desc2, body2):
                    self.same("elements read", p.I.user["first"], want[:k], desc2)
                    self.same("elements read after rewinding", p.I.user["got"], want, desc2)
        elif "rewind" not in M and st == (VALID,):
            # a stream left in the middle
            desc2 = "left in the middle; %s" % desc

            def body3(I):
                start(self, I, n, st, self.ps)
                self.make(I, b, e)
                if e - b > 1:
                    I.enter(M["operator++"][0], NODE, [])
                I.run_dtor(NODE, self.rec)
                return 0
            for p in self.run(desc2, body3):
                self.content(p, finalvals(n, st, self.ps), desc2)
            for d in M[self.d.n]:
                if len(d.params) != 1 or recq(d, 0).split("<")[0] != self.q.split("<")[0]:
                    continue
                for k in range(0, e - b + 1):
                    desc3 = "copied after %d elements; %s" % (k, desc)

                    def body4(I):
                        start(self, I, n, st, self.ps)
                        self.make(I, b, e)
                        out = []
                        for i in range(k):
                            out.append(self.val(I, I.enter(M["operator*"][0], NODE, [])))
                            I.enter(M["operator++"][0], NODE, [])
                        copy = ('O', 'copy', 'u')
                        I.enter(d, copy, [('&', NODE)])
                        I.run_dtor(NODE, self.rec)
                        I.user["got"] = out + drain(W, I, self, M, copy, 10)
                        I.run_dtor(copy, self.rec)
                        return 0
                    for p in self.run(desc3, body4):
                        self.same("elements read", p.I.user["got"], want, desc3)


class Writer(Test):
    """vector_bufwriter: what is written appears in the vector, which grows as needed."""

    def __init__(self, ctx, P, name, d, M, ps):
        Test.__init__(self, ctx, P, name, d)
        self.d, self.M, self.ps = d, M, ps
        self.rec = P.canon(d.rec)

    def all(self):
        whole = "vector_iterator" not in recq(self.d, 0).split("<")[0]
        for n in (0, 2, 3, 4, 6, 7):
            for st in STATES[:3] + ((UNINIT,),):
                for b in ([0] if whole else range(n + 1)):
                    for k in range(0, 11 - b):
                        for end in ("finish", "destruction", "finish, more"):
                            if end != "destruction" and st in STATES[1:3] and k % 2:
                                continue
                            self.one(n, st, b, k, end, whole)
        self.J.done()

    def one(self, n, st, b, k, end, whole):
        M = self.M
        desc = "%d elements from %d on, then %s; %s" % (k, b, end, describe(n, st, self.ps))
        if end == "finish, more" and b + k > n:
            return
        extra = 1 if end == "finish, more" else 0

        def body(I):
            start(self, I, n, st, self.ps)
            I.enter(self.d, NODE, [('&', VEC) if whole else self.W.iter(I, ('O', 'first', 'u'), b), 0])
            l = ('O', 'value', 'u')
            for i in range(k + extra):
                if i == k:
                    I.enter(M["finish"][0], NODE, [])
                if i % 2:
                    I.store[l] = ('s', 'in%d' % i)
                    I.enter(M["operator<<"][0], NODE, [('&', l)])
                else:
                    x = I.deref(I.enter(M["operator*"][0], NODE, []))
                    I.store[x] = ('s', 'in%d' % i)
                    I.enter(M["operator++"][0], NODE, [])
            if end == "finish":
                I.enter(M["finish"][0], NODE, [])
                if I.user["inflight"]:
                    I.user["bad"].append(("blocks", "finish returns while blocks are being written"))
            I.run_dtor(NODE, self.rec)
            return 0
        for p in self.run(desc, body):
            if p.I.user["inflight"]:
                self.J.bad("blocks", "blocks are still being written (%s)" % desc)
            old = finalvals(n, st, self.ps)
            new = [('s', 'in%d' % i) for i in range(k + extra)]
            self.content(p, old[:b] + new + old[b + len(new):], desc)


class Blocks(Test):
    """buf_istream, buf_istream_reverse and buf_ostream over a sequence of blocks."""

    def __init__(self, ctx, P, cls, M):
        self.cls = cls
        self.M = M
        d = [x for x in M[cls] if x.params][0]
        Test.__init__(self, ctx, P, "stxxl::" + cls, d)
        self.d = d
        self.rec = P.canon(d.rec)

    def bids(self, I, i):
        k = self.W.S.key(I, F(VEC, 'm_bids', V), i)
        l = ('O', 'bid iterator %d' % i, 'u')
        I.store[l] = k
        return ('&', l)

    def read(self):
        M = self.M
        rev = self.cls.endswith("reverse")
        for nb in range(1, 5):
            for i, j in [(i, j) for i in range(nb) for j in range(i + 1, nb + 1)]:
                for way in ("++", ">>", "current") + (("blocks",) if "next_block" in M else ()):
                    for stop in (0, 1, 3):
                        desc = "blocks %d to %d read with %s%s" % (i, j, way, ", %d elements left" % stop if stop else "")
                        count = max((j - i) * B - stop, 0)

                        def body(I):
                            start(self, I, nb * B, (VALID,), 2)
                            I.enter(self.d, NODE, [self.bids(I, i), self.bids(I, j), 4])
                            out = []
                            x = ('O', 'out', 'u')
                            if way == "blocks":
                                for k in range(count // B):
                                    b = I.deref(I.enter(M["block"][0], NODE, []))
                                    out += list(self.W.get(I, b))
                                    I.enter(M["next_block"][0], NODE, [])
                            else:
                                for k in range(count):
                                    if way == ">>":
                                        I.enter(M["operator>>"][0], NODE, [('&', x)])
                                        out.append(I.load(x))
                                    else:
                                        out.append(self.val(I, I.enter(M["operator*" if way == "++" else "current"][0], NODE, [])))
                                        I.enter(M["operator++"][0], NODE, [])
                            I.user["got"] = out
                            I.run_dtor(NODE, self.rec)
                            return 0
                        for p in self.run(desc, body):
                            want = [val(k) for k in range(i * B, j * B)]
                            if rev:
                                want.reverse()
                            self.same("elements", p.I.user["got"], want[:count // B * B if way == "blocks" else count], desc)
        self.J.done()

    def write(self):
        M = self.M
        for nb in range(1, 5):
            for i in range(nb):
                for k in range(0, (nb - i) * B + 1):
                    for way in ("++", "<<", "current"):
                        for end in ("fill", "flush", ""):
                            if not end and k % B:
                                continue
                            if end == "flush" and (i * B + k) // B >= nb:
                                continue
                            # the block after the one that was finished early
                            nxt = (-(-(i * B + k) // B) if end == "fill" else (i * B + k) // B + 1) * B
                            more = range(nxt, nxt + B) if end and way == "++" and nxt + B <= nb * B else range(0)
                            desc = "%d elements written with %s from block %d of %d on%s%s" % (k, way, i, nb, ", then " + end if end else "", ", then another block" if more else "")

                            def body(I):
                                start(self, I, nb * B, (VALID,), 2)
                                I.enter(self.d, NODE, [self.bids(I, i), 4])
                                l = ('O', 'value', 'u')
                                for j in range(k):
                                    if way == "<<":
                                        I.store[l] = ('s', 'in%d' % j)
                                        I.enter(M["operator<<"][0], NODE, [('&', l)])
                                    else:
                                        I.store[I.deref(I.enter(M["operator*" if way == "++" else "current"][0], NODE, []))] = ('s', 'in%d' % j)
                                        I.enter(M["operator++"][0], NODE, [])
                                if end:
                                    I.store[l] = ('s', 'filler')
                                    I.enter(M[end][0], NODE, [('&', l)] if end == "fill" else [])
                                for j in more:
                                    I.store[I.deref(I.enter(M["operator*"][0], NODE, []))] = ('s', 'in%d' % j)
                                    I.enter(M["operator++"][0], NODE, [])
                                I.run_dtor(NODE, self.rec)
                                return 0
                            for p in self.run(desc, body):
                                if p.I.user["inflight"]:
                                    self.J.bad("blocks", "blocks are still being written after destruction (%s)" % desc)
                                want = [val(j) for j in range(nb * B)]
                                for j in range(k):
                                    want[i * B + j] = ('s', 'in%d' % j)
                                last = -(-(i * B + k) // B) * B
                                if end == "fill":
                                    for j in range(i * B + k, last):
                                        want[j] = ('s', 'filler')
                                elif end == "flush":
                                    for j in range(i * B + k, (i * B + k) // B * B + B):
                                        want[j] = None
                                for j in more:
                                    want[j] = ('s', 'in%d' % j)
                                self.content(p, want, desc)
        self.J.done()


def jobs(ctx, P):
    """(name, function, arguments) of every test."""
    out = []
    for q, M in sorted(insts(P, ST).items()):
        c = q.split("<")[0].split("::")[-1]
        if not M.get("empty") or not M.get("operator*"):
            continue                            # not instantiated in full
        if c in ("transform", "make_tuple"):
            out.append((q, nodes, (ctx, P, q, M, c)))
        elif c == "choose":
            out.append((q, chooses, (ctx, P, q, M)))
        elif c == "unique":
            out.append((q, uniques, (ctx, P, q, M)))
        elif c == "generator2stream":
            out.append((q, generators, (ctx, P, q, M)))
        elif c in ("vector_iterator2stream", "vector_iterator2stream_sr", "iterator2stream") and "vector_iterator<" in q:
            qi = q[q.index("<") + 1:-1]
            d = [x for x in M[c] if len(x.params) >= 2][0]
            name = "%s%s over %s" % (ST, c, "const iterators" if isconstit(qi) else "iterators")
            out.append((name, lambda *a: Reader(*a).all(), (ctx, P, name, d, M, q, pagesize(qi), isconstit(qi))))
    for cls in ("vector_bufreader", "vector_bufreader_reverse"):
        for q, M in sorted(insts(P, "stxxl::%s<" % cls).items()):
            qi = q[q.index("<") + 1:-1]
            if not M.get("rewind") or not M.get("operator*") or not M.get("operator>>"):
                continue
            for d in M[cls]:
                if len(d.params) >= 2:
                    name = "stxxl::%s of %s, %d-block pages, %s" % (cls, "const iterators" if isconstit(qi) else "iterators", pagesize(qi), "range" if len(d.params) > 2 else "vector")
                    out.append((name, lambda *a: Reader(*a).all(), (ctx, P, name, d, M, q, pagesize(qi), isconstit(qi), cls.endswith("reverse"))))
    for q, M in sorted(insts(P, "stxxl::vector_bufwriter<").items()):
        ps = pagesize(q[q.index("<") + 1:-1])
        for d in M["vector_bufwriter"]:
            if len(d.params) == 2:
                name = "stxxl::vector_bufwriter, %d-block pages, from %s" % (ps, "an iterator" if "vector_iterator" in recq(d, 0).split("<")[0] else "the vector's start")
                out.append((name, lambda *a: Writer(*a).all(), (ctx, P, name, d, M, ps)))
    for cls in ("buf_istream", "buf_istream_reverse", "buf_ostream"):
        for q, M in sorted(insts(P, "stxxl::%s<" % cls).items()):
            if "operator*" in M and "current" in M:
                out.append(("stxxl::" + cls, lambda cls, M: getattr(Blocks(ctx, P, cls, M), "write" if cls == "buf_ostream" else "read")(), (cls, M)))
    for d in P.defs.values():
        if d.rec is not None or not d.fn.startswith("stxxl::") or not d.fn.split("::")[-1] in ("for_each", "for_each_m", "generate", "find", "materialize", "discard"):
            continue
        n = d.fn.split("::")[-1]
        at = 1 if n == "materialize" else 0
        vec = n != "discard" and "vector_iterator<" in recq(d, at)
        name = d.fn
        if vec:
            q = recq(d, at)
            name += " over %s, %d-block pages%s" % ("const iterators" if isconstit(q) else "iterators", pagesize(q), ", bounded" if n == "materialize" and len(d.params) == 4 else "")
        elif n == "materialize":
            name += " into memory" + (", bounded" if len(d.params) == 3 else "")
        if vec:
            S = lambda name=name, d=d, at=at: Scan(ctx, P, name, d, at)
            f = {"for_each": lambda S: S().each(False), "for_each_m": lambda S: S().each(True), "generate": lambda S: S().generate(), "find": lambda S: S().find(),
                 "materialize": lambda S, k=len(d.params): S().materialize(k == 4)}[n]
            out.append((name, f, (S,)))
        elif n in ("materialize", "discard"):
            def g(name=name, d=d, n=n):
                s = Scan.__new__(Scan)
                Test.__init__(s, ctx, P, name, d)
                s.d = d
                s.discard() if n == "discard" else s.plain(len(d.params) == 3)
            out.append((name, g, ()))
    return out


def run(ctx):
    ctx.rule("elements", "every element is delivered, computed or stored exactly once, in order")
    ctx.rule("rest", "elements outside the range, and the size of the vector, are left as they were")
    ctx.rule("blocks", "every prefetcher and writer is destroyed, no block is written twice or left in flight, and only blocks of the vector are used")
    ctx.rule("result", "the returned iterator, stream, function object or size is the right one; empty() holds exactly at the end")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "stream.cpp")])
    ctx.fan(jobs(ctx, P))
