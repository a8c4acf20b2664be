"""C15: the caches of the B+-tree and of the hash map."""
import itertools, os
import ai, dom, prog, seqmodel
from dom import isconst, show, is_ptr
from .util import *
from .c12 import at_abort
from .c13 import World, Judge, key, READ, WRITE
from .c14 import methods, cell, VALID

BT = "stxxl::btree::"
NC = BT + "node_cache"
N = 3                     # nodes in the cache
R = ("write-back", "stale", "slots", "pins")


class Blocks(World):
    """Blocks with contents; what a read delivers is there only once it is waited for."""

    me = None             # f(block): location of the block's own id inside it

    def io(self, I, c, op):
        t = World.io(self, I, c, op)
        e = [x for x in I.trace if x.k == 'io'][-1]
        b, k, r = c.obj, e.a[0], e.a[1]
        mem, disk = I.user.setdefault("mem", {}), I.user.setdefault("disk", {})
        for r2, (b2, k2, ty) in I.user.get("req", {}).items():
            if r2 != r and k2 == k and r2 not in I.user.get("done", ()) and (ty == WRITE or op == "write"):
                I.user.setdefault("races", []).append("%s of a block on disk while a %s of it is in progress" % (op, "write" if ty == WRITE else "read"))
        if op == "write":
            disk[k] = mem.get(b, "nothing")
            m = self.meof(I, b)
            if m is not None and m != k:
                I.user.setdefault("races", []).append("writes a block to the place of another one")
        else:
            mem[b] = "data still being read"
            self.setme(I, b, None)
        return t

    def meof(self, I, b):
        if not self.me:
            return None
        l = self.me(b)
        return (I.store.get(F(l, 'storage', 'stxxl::BID')), I.store.get(F(l, 'offset', 'stxxl::BID')))

    def setme(self, I, b, k):
        if self.me:
            l = self.me(b)
            I.store[F(l, 'storage', 'stxxl::BID')] = k[0] if k else ('s', 'undefined')
            I.store[F(l, 'offset', 'stxxl::BID')] = k[1] if k else ('s', 'undefined')

    def fin(self, I, r):
        if r not in I.user.get("done", ()):
            b, k, ty = I.user["req"][r]
            if ty == READ:
                I.user["mem"][b] = I.user["disk"].get(k, "nothing")
                self.setme(I, b, k)
        World.fin(self, I, r)


def lru(cfg):
    """The pager: least recently used, starting in any rotation."""
    m = cfg.models

    def order(I):
        if "order" not in I.user:
            k = I.choose(N, ("order", 0))
            I.user["order"] = [(k + i) % N for i in range(N)]
        return I.user["order"]

    def hit(I, c):
        v = I.argval(c.args[0])
        o = order(I)
        if not isconst(v) or v not in o:
            I.user.setdefault("misuse", []).append((c.node.get("l"), "counts a use of the node %s that does not exist" % show(v), I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        o.remove(v)
        o.insert(0, v)
        I.ev('hit', 'hit', c.obj, (v,), None, c.node)
        return 0
    m["stxxl::lru_pager::kick"] = lambda I, c: order(I)[-1]
    m["stxxl::lru_pager::hit"] = hit
    m["stxxl::lru_pager::size"] = lambda I, c: N
    m["stxxl::lru_pager::lru_pager"] = lambda I, c: 0


def blocks(cfg, W):
    """The block manager."""
    m = cfg.models

    def new_block(I, c):
        l = I.evloc(c.args[1])
        n = I.user["nbid"] = I.user.get("nbid", 100) + 1
        W.setbid(I, l, n)
        I.ev('newblock', 'new_block', l, (key(n),), None, c.node)
        return 0

    def delete_block(I, c):
        I.ev('delblocks', 'delete_block', None, (W.bidof(I, I.evloc(c.args[0])),), None, c.node)
        return 0
    m["stxxl::block_manager::new_block"] = new_block
    m["stxxl::block_manager::delete_block"] = delete_block
    m["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'block_manager'))


def config(P, kind):
    cfg = ai.base_config()
    W = Blocks(cfg, P)
    cfg.unroll = 8
    cfg.array_ctor = True
    lru(cfg)
    blocks(cfg, W)
    meta = BT + kind + "::metainfo_type"
    W.me = lambda b: F(F(b, 'info', 'stxxl::mng_local::block_w_info'), 'me', meta)
    return cfg, W


# state of a node: (bid or None, dirty, fixed, request)  request: 0 none, 1 completed, 2 read in progress
def states(thorough):
    opts = [None, (0, 0, 0), (1, 0, 1), (1, 1, 0), (0, 1, 1), (0, 0, 2)]
    if not thorough:
        for s in itertools.combinations_with_replacement(opts, N):
            yield s
        return
    for s in itertools.product(opts, repeat=N):
        yield s


def describe(s):
    t = []
    for i, x in enumerate(s):
        t.append("free" if x is None else " ".join(w for w, b in (("modified", x[0]), ("fixed", x[1]), ("being read", x[2] == 2)) if b) or "unmodified")
    return "nodes: " + ", ".join(t)


def nodeobj(i, fid=0):
    return ('O', 'node%d_%d' % (fid, i), 'u')


def blockobj(i, fid=0):
    return ('O', 'block%d_%d' % (fid, i), 'u')


def put(I, W, this, s, kind, fid=0):
    f = lambda n: F(this, n, NC)
    u = I.user
    mem, disk = u.setdefault("mem", {}), u.setdefault("disk", {})
    want = u.setdefault("want", {})
    K = BT + kind

    def request(l, i, x):
        d = F(l, 'm_ptr', 'stxxl::counting_ptr')
        I.store[d] = 0
        if x and x[2]:
            r = W.newreq(I, blockobj(i, fid), key(10 * fid + i + 1), READ, done=x[2] == 1)
            I.store[d] = ('&', r)
    W.S.put(I, f('m_nodes'), [('&', nodeobj(i, fid)) for i in range(N)], "std::vector")
    W.S.put(I, f('m_reqs'), [lambda l, i=i, x=x: request(l, i, x) for i, x in enumerate(s)], "std::vector")
    W.S.put(I, f('m_fixed'), [x[1] if x else 0 for x in s], "std::vector")
    W.S.put(I, f('m_dirty'), [x[0] if x else 1 for x in s], "std::vector")
    W.S.put(I, f('m_free_nodes'), [i for i, x in enumerate(s) if x is None], "std::vector")

    def entry(i):
        def g(kl, vl):
            W.setbid(I, kl, 10 * fid + i + 1)
            I.store[vl] = i
        return g
    W.H.put(I, f('m_bid2node'), [entry(i) for i, x in enumerate(s) if x is not None])
    for i, x in enumerate(s):
        b = blockobj(i, fid)
        I.store[F(nodeobj(i, fid), 'm_block', K)] = ('&', b)
        I.store[F(nodeobj(i, fid), 'm_btree', K)] = ('&', ('O', 'btree%d' % fid))
        mem[b] = "old content of a free node"
        if x:
            k = key(10 * fid + i + 1)
            want[k] = "node %d of tree %d" % (i + 1, fid)
            disk[k] = "an old version of node %d" % (i + 1) if x[0] else want[k]
            mem[b] = want[k] if x[2] != 2 else "data still being read"
            W.setme(I, b, k if x[2] != 2 else None)
    for i in (8, 9):
        k = key(10 * fid + i)
        want[k] = disk[k] = "node %d of tree %d" % (i, fid)
    I.store[f('m_btree')] = ('&', ('O', 'btree%d' % fid))
    I.store[f('m_bm')] = ('&', ('O', 'block_manager'))


def boolval(p, l):
    v = p.store.get(l)
    if isinstance(v, tuple):
        lo, hi = p.facts.bounds(v)
        v = lo if lo is not None and lo == hi else None
    return v


class After:
    def __init__(self, p, W, this):
        f = lambda n: F(this, n, NC)
        I, st = p.I, p.store
        self.p, self.W, self.ok, self.why = p, W, False, "the cache is not followed"
        e = {n: W.S.elems(I, f(n)) for n in ('m_nodes', 'm_reqs', 'm_fixed', 'm_dirty', 'm_free_nodes')}
        nodes = W.H.nodes(I, f('m_bid2node'))
        if None in e.values() or nodes is None:
            return
        self.why = "the cache's state is not determined"
        self.nodes = [I.deref(st[l]) if is_ptr(st.get(l)) else None for l in e['m_nodes']]
        self.fixed = [boolval(p, l) for l in e['m_fixed']]
        self.dirty = [boolval(p, l) for l in e['m_dirty']]
        self.free = [boolval(p, l) for l in e['m_free_nodes']]
        self.map = {}
        for n in nodes:
            k = W.bidof(I, ('F', n, 'first', 'std::pair'))
            v = boolval(p, ('F', n, 'second', 'std::pair'))
            if v is None or None in k:
                return
            self.map[k] = v
        self.reqs = []
        for l in e['m_reqs']:
            v = st.get(F(l, 'm_ptr', 'stxxl::counting_ptr'))
            self.reqs.append(I.deref(v) if is_ptr(v) else None)
        if None in self.nodes or None in self.free:
            return
        self.ok = True

    def pending(self, i):
        return self.reqs[i] is not None and self.reqs[i] in self.p.I.user.get("req", {}) and self.reqs[i] not in self.p.I.user.get("done", ())

    def problems(self, K, gone=()):
        I, W = self.p.I, self.W
        mem, disk, want = I.user["mem"], I.user["disk"], I.user["want"]
        n = len(self.nodes)
        if not n == len(self.fixed) == len(self.dirty) == len(self.reqs):
            yield "slots", "the tables of the cache have different sizes"
            return
        owner = {}
        for k, i in self.map.items():
            if not 0 <= i < n:
                yield "slots", "a block is recorded for node %s of %d" % (i, n)
                return
            if i in owner:
                yield "slots", "two blocks are recorded for the same node"
            owner[i] = k
        for i in range(n):
            c = self.free.count(i)
            if c > 1:
                yield "slots", "a node is in the free list twice"
            if c and i in owner:
                yield "slots", "a node in use is in the free list"
            if not c and i not in owner:
                yield "slots", "a node is neither in use nor free"
            if c and self.fixed[i]:
                yield "pins", "a free node stays fixed"
            if c and self.pending(i):
                yield "stale", "a node is free while it is being read or written"
        for r, (b, k, ty) in I.user.get("req", {}).items():
            if r not in I.user.get("done", ()) and r not in self.reqs:
                yield "stale", "a transfer in progress is forgotten"
        for k, t in sorted(want.items(), key=str):
            if k in gone:
                if k in self.map:
                    yield "slots", "a deleted node stays in the cache"
                continue
            i = self.map.get(k)
            if i is None:
                if disk.get(k) != t:
                    yield "write-back", "%s is lost: the disk holds %s" % (t, disk.get(k))
                continue
            b = I.deref(self.p.store.get(F(self.nodes[i], 'm_block', K)))
            if self.pending(i):
                rb, rk, ty = I.user["req"][self.reqs[i]]
                if rb != b or rk != k:
                    yield "stale", "the transfer in progress for %s fills another node" % t
                if disk.get(k) != t:
                    yield "write-back", "%s is read again before it was written" % t
                continue
            if mem.get(b) != t:
                yield "stale", "the cache shows %s in place of %s" % (mem.get(b), t)
            elif not self.dirty[i] and disk.get(k) != t:
                yield "write-back", "%s was modified but counts as unmodified" % t
            if W.meof(I, b) != k:
                yield "stale", "the node of %s does not carry its block's id" % t
        for t in I.user.get("races", []):
            yield "stale", t


def node_cache_op(ctx, P, M, name, kind):
    K = BT + kind
    for d in M.get(name, []):
        J = Judge(ctx, R, d)
        for s in states(ctx.thorough):
            cached = [i for i, x in enumerate(s) if x is not None]
            cases = [("bid", i + 1) for i in cached] + [("bid", 9)]
            if name == "get_new_node":
                cases = [None]
            if name == "unfix_node":
                cases = [("bid", i + 1) for i in cached if s[i][1]]
            if name in ("~node_cache", "swap"):
                cases = [None]
            if name in ("get_node", "get_const_node"):
                cases = [c + (x,) for c in cases for x in (0, 1)]
            if name in ("delete_node",):
                cases = [c for c in cases if c[1] == 9 or not s[c[1] - 1][1] or True]
            for c in cases:
                one(ctx, P, d, J, name, kind, s, c)
        J.done()


def one(ctx, P, d, J, name, kind, s, c):
    K = BT + kind
    cfg, W = config(P, kind)
    I = ctx.interp(P, cfg)
    desc = describe(s) + ("" if c is None else "; block of node %d" % c[1] if c[1] < 9 else "; block not in the cache") + (", to be fixed" if c and len(c) > 2 and c[2] else "")
    arg = ('O', 'bid')

    def setup(I):
        put(I, W, THIS, s, kind)
        if name == "swap":
            put(I, W, ('O', 'other'), ((1, 0, 0), (0, 1, 1), (0, 0, 2)), kind, 1)
        if c is not None:
            W.setbid(I, arg, c[1])
    args = [('&', arg)] + ([c[2]] if c and len(c) > 2 else []) if name not in ("~node_cache", "swap") else []
    if name == "swap":
        args = [('&', ('O', 'other'))]
    for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
        u, st = p.I.user, p.store
        if p.out == 'throw':
            J.bad("slots", "throws (%s)" % desc)
            continue
        dele = [k for e in p.trace if e.k == 'delblocks' for k in e.a]
        if name == "~node_cache":
            for r, (b, k, ty) in u.get("req", {}).items():
                if r not in u.get("done", ()):
                    J.bad("stale", "the destructor frees a node that is being read or written (%s)" % desc)
            for k, t in u["want"].items():
                if u["disk"].get(k) != t:
                    J.bad("write-back", "%s is lost when the cache is destroyed: the disk holds %s (%s)" % (t, u["disk"].get(k), desc))
            for i in range(N):
                n = len([e for e in p.trace if e.k == 'freed' and e.o == nodeobj(i)])
                if n != 1:
                    J.bad("slots", "the destructor frees node %d %d times (%s)" % (i + 1, n, desc))
            continue
        a = After(p, W, THIS)
        if not a.ok:
            J.open("slots", "%s (%s)" % (a.why, desc))
            continue
        k = key(c[1]) if c else None
        if name == "swap":
            b = After(p, W, ('O', 'other'))
            if not b.ok:
                J.open("slots", "%s (%s)" % (b.why, desc))
                continue
            full = dict(u["want"])
            for x, fid in ((b, 0), (a, 1)):
                u["want"] = {k: t for k, t in full.items() if t.endswith("tree %d" % fid)}
                held = {k for k in x.map}
                if held - set(u["want"]):
                    J.bad("slots", "swap leaves nodes of one tree in the cache of the other (%s)" % desc)
                    continue
                for r, t in x.problems(K):
                    if t != "a transfer in progress is forgotten":
                        J.bad(r, "after swap: %s (%s)" % (t, desc))
                t2 = ('&', ('O', 'btree%d' % (1 - fid)))
                for nd in x.nodes:
                    if st.get(F(nd, 'm_btree', K)) != t2:
                        J.bad("slots", "after swap a node belongs to the other tree (%s)" % desc)
            for x, ss, fid in ((b, s, 0), (a, ((1, 0, 0), (0, 1, 1), (0, 0, 2)), 1)):
                for i, y in enumerate(ss):
                    if y and x.fixed[i] != y[1]:
                        J.bad("pins", "after swap the wrong nodes are fixed (%s)" % desc)
            continue
        u2 = dict(u["want"])
        new = [e.a[0] for e in p.trace if e.k == 'newblock']
        v = p.val
        if name == "get_new_node":
            nb = W.bidof(p.I, arg)
            if v == 0:
                if new:
                    J.bad("slots", "allocates a block but returns no node (%s)" % desc)
            else:
                if new != [nb]:
                    J.bad("slots", "the new node's block is not the one allocated (%s)" % desc)
                u["want"][nb] = u["mem"].get(p.I.deref(st.get(F(p.I.deref(v), 'm_block', K))))
        gone = (k,) if name == "delete_node" else ()
        for r, t in a.problems(K, gone):
            J.bad(r, "%s (%s)" % (t, desc))
        u["want"] = u2
        # pinned nodes stay
        for i, x in enumerate(s):
            if x and x[1] and key(i + 1) not in gone:
                if a.map.get(key(i + 1)) != i:
                    J.bad("pins", "a fixed node is thrown out of the cache (%s)" % desc)
                elif c is None or c[1] != i + 1:
                    if not a.fixed[i]:
                        J.bad("pins", "unfixes another node (%s)" % desc)
        if name == "delete_node":
            if dele != [k]:
                J.bad("slots", "frees %d blocks instead of the deleted node's (%s)" % (len(dele), desc))
            if any(e.k == 'io' and e.a[0] == k and e.n == 'write' for e in p.trace):
                J.bad("write-back", "writes a node that is deleted (%s)" % desc)
            continue
        if dele:
            J.bad("slots", "frees a block (%s)" % desc)
        if name == "unfix_node":
            if a.fixed[c[1] - 1]:
                J.bad("pins", "the node stays fixed (%s)" % desc)
            continue
        if name == "prefetch_node":
            if k not in a.map and not all(x and x[1] for x in s):
                J.bad("slots", "the node is not fetched (%s)" % desc)
            if c[1] == 9 and k in a.map and (a.dirty[a.map[k]] or a.fixed[a.map[k]]):
                J.bad("write-back" if a.dirty[a.map[k]] else "pins", "a node read ahead counts as modified or fixed (%s)" % desc)
            continue
        if v == 0:
            if not all(x and x[1] for x in s):
                J.bad("slots", "finds no place in a cache that has one (%s)" % desc)
            continue
        if v is None or not is_ptr(v):
            J.open("slots", "result not determined (%s)" % desc)
            continue
        nd = p.I.deref(v)
        if name == "get_new_node":
            k = W.bidof(p.I, arg)
        i = a.map.get(k)
        if i is None or a.nodes[i] != nd:
            J.bad("slots", "returns a node that is not the one recorded for the block (%s)" % desc)
            continue
        if a.pending(i):
            J.bad("stale", "returns a node that is still being read (%s)" % desc)
        if name in ("get_node", "get_new_node") and not a.dirty[i]:
            J.bad("write-back", "a node handed out for modification does not count as modified (%s)" % desc)
        if name == "get_const_node" and a.dirty[i] and not (c[1] < 9 and s[c[1] - 1][0]):
            J.bad("write-back", "a node that is only read counts as modified (%s)" % desc)
        if name == "get_new_node":
            if a.fixed[i]:
                J.bad("pins", "a new node is fixed (%s)" % desc)
            z = p.store.get(F(F(p.I.deref(st.get(F(nd, 'm_block', K))), 'info', 'stxxl::mng_local::block_w_info'), 'cur_size', K + '::metainfo_type'))
            if z != 0:
                J.bad("stale", "a new node is not empty (%s)" % desc)
        elif a.fixed[i] != c[2]:
            J.bad("pins", "the node is%s fixed (%s)" % ("" if a.fixed[i] else " not", desc))
        if ('hit', (i,)) not in [(e.k, e.a) for e in p.trace]:
            J.bad("slots", "the use of a node is not recorded (%s)" % desc)


# ------------------------------------------------------------------ block cache of the hash map
HM = "stxxl::hash_map::"
BC = HM + "block_cache"
WB = HM + "block_cache_write_buffer"
SUB = 4096


class HBlocks(World):
    """Blocks of two subblocks that are read and written separately.

    mem[(block, sub)], disk[(n, sub)] hold contents; block n lies at 8192 n."""

    def place(self, I, c):
        """(block, list of subblocks) of the object read or written."""
        for b in I.user["blocks"]:
            if c.obj == b:
                return b, (0, 1)
            if I.under(c.obj, b):
                l = c.obj
                while l != b and l[0] != 'I':
                    l = l[1]
                i = l[2] if l != b else 0
                return b, (i,) if isconst(i) else None
        return None, None

    def io(self, I, c, op):
        b, subs = self.place(I, c)
        u = I.user
        k = self.bidof(I, I.evloc(c.args[0]))
        if b is None or subs is None or not isconst(k[1]) or k[0] != ('&', ('O', 'f')):
            raise ai.PathEnd("block to %s not determined" % op)
        off = k[1] // SUB
        r = self.newreq(I, (b, subs), k, READ if op == "read" else WRITE)
        I.ev('io', op, c.obj, (k, r), None, c.node)
        u["sync"] = u.get("sync", set())
        for r2, (bs2, k2, ty) in u["req"].items():
            if r2 == r or r2 in u.get("done", ()):
                continue
            o2 = k2[1] // SUB
            n2 = len(bs2[1])
            if o2 < off + len(subs) and off < o2 + n2 and (ty == WRITE or op == "write"):
                u.setdefault("races", []).append("%s of a block on disk while a %s of it is in progress" % (op, "write" if ty == WRITE else "read"))
            if bs2[0] == b and set(bs2[1]) & set(subs) and (ty == READ or op == "read"):
                u.setdefault("races", []).append("%s of a block in memory that is being %s" % (op, "written" if ty == WRITE else "read"))
        for j, sb in enumerate(subs):
            d = divmod(off + j, 2)
            if d[1] != sb:
                u.setdefault("races", []).append("%s of a part of a block at the place of another part" % op)
            if op == "write":
                u["disk"][d] = u["mem"].get((b, sb), "nothing")
            else:
                u["mem"][(b, sb)] = "data still being read"
        t = I.tmploc()
        I.store[F(t, 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
        return ('obj', t)

    def fin(self, I, r):
        u = I.user
        if r not in u.get("done", ()):
            (b, subs), k, ty = u["req"][r]
            if ty == READ:
                for j, sb in enumerate(subs):
                    u["mem"][(b, sb)] = u["disk"].get(divmod(k[1] // SUB + j, 2), "nothing")
        World.fin(self, I, r)


def hkey(n):
    return (('&', ('O', 'f')), 2 * SUB * n)


def hconfig(P):
    cfg = ai.base_config()
    W = HBlocks(cfg, P)
    cfg.unroll = 8
    cfg.array_ctor = True
    lru(cfg)
    return cfg, W


# slot: (modified, retained, valid subblock or 2 for all, request: 0 none, 1 done, 2 read in progress)
HOPT = [None, (0, 0, 2, 1), (1, 0, 2, 1), (1, 1, 2, 0), (0, 0, 2, 2), (0, 2, 1, 0), (0, 0, 0, 0)]
# write buffers: block number being written, finished
WOPT = [(None, None), ((9, 0), None), ((9, 0), (8, 1)), ((8, 0), (9, 1))]


def hstates(thorough):
    if thorough:
        return itertools.product(HOPT, repeat=N)
    return itertools.combinations_with_replacement(HOPT, N)


def hdescribe(s, w):
    t = []
    for x in s:
        if x is None:
            t.append("free")
        else:
            v = [t for t, b in (("modified", x[0]), ("retained", x[1]), ("part %d only" % x[2], x[2] < 2), ("being read", x[3] == 2)) if b]
            t.append(" ".join(v) or "unmodified")
    r = "cached blocks: " + ", ".join(t)
    v = ["of block %d %s" % (x[0], "finished" if x[1] else "in progress") for x in w if x]
    return r + ("; writes " + ", ".join(v) if v else "")


def hb(i, fid=0):
    return ('O', 'block%d_%d' % (fid, i), 'u')


def wb(i, fid=0):
    return ('O', 'wblock%d_%d' % (fid, i), 'u')


def hnum(fid, i):
    return 10 * fid + i + 1


def hput(I, W, this, s, w, fid=0):
    f = lambda n: F(this, n, BC)
    g = lambda n: F(F(this, 'write_buffer_', BC), n, WB)
    u = I.user
    mem, disk, want = u.setdefault("mem", {}), u.setdefault("disk", {}), u.setdefault("want", {})
    u.setdefault("blocks", []).extend([hb(i, fid) for i in range(N)] + [wb(i, fid) for i in range(2)])

    def content(n):
        for j in (0, 1):
            want[(n, j)] = disk[(n, j)] = "part %d of block %d" % (j, n)
    for n in (8, 9) if not fid else (18, 19):
        content(n)
    for i, x in enumerate(s):
        content(hnum(fid, i))
        for j in (0, 1):
            mem[(hb(i, fid), j)] = "old content of a free block"
        if x:
            n = hnum(fid, i)
            for j in (0, 1):
                if x[0]:
                    disk[(n, j)] = "an old version of part %d of block %d" % (j, n)
                if x[3] == 2:
                    mem[(hb(i, fid), j)] = "data still being read"
                elif x[2] == 2 or x[2] == j:
                    mem[(hb(i, fid), j)] = want[(n, j)]

    def request(l, b, n, ty, done):
        r = 0
        if n is not None:
            r = ('&', W.newreq(I, (b, (0, 1)), hkey(n), ty, done))
        I.store[F(l, 'm_ptr', 'stxxl::counting_ptr')] = r
    V = "std::vector"
    W.S.put(I, f('blocks_'), [('&', hb(i, fid)) for i in range(N)], V)
    W.S.put(I, f('bids_'), [lambda l, i=i, x=x: W.setbid(I, l, 2 * hnum(fid, i) if x else None) for i, x in enumerate(s)], V)
    W.S.put(I, f('retain_count_'), [x[1] if x else 3 for x in s], V)
    W.S.put(I, f('dirty_'), [x[0] if x else 1 for x in s], V)
    W.S.put(I, f('valid_subblock_'), [x[2] if x else 0 for x in s], V)
    W.S.put(I, f('free_blocks_'), [i for i, x in enumerate(s) if x is None], V)
    W.S.put(I, f('reqs_'), [lambda l, i=i, x=x: request(l, hb(i, fid), hnum(fid, i) if x and x[3] else None, READ, x and x[3] == 1) for i, x in enumerate(s)], V)

    def entry(i):
        def h(kl, vl):
            W.setbid(I, kl, 2 * hnum(fid, i))
            I.store[vl] = i
        return h
    W.H.put(I, f('bid_map_'), [entry(i) for i, x in enumerate(s) if x is not None])
    for n in STATS:
        I.store[f(n)] = 100 + len(n) + 1000 * fid
    for j, x in enumerate(w):
        for k in (0, 1):
            mem[(wb(j, fid), k)] = want[(x[0] + 10 * fid, k)] if x else "old content of a buffer"
    W.S.put(I, g('blocks_'), [('&', wb(j, fid)) for j in (0, 1)], V)
    W.S.put(I, g('reqs_'), [lambda l, j=j, x=x: request(l, wb(j, fid), x[0] + 10 * fid if x else None, WRITE, x and x[1]) for j, x in enumerate(w)], V)
    W.S.put(I, g('bids_'), [lambda l, x=x: W.setbid(I, l, 2 * (x[0] + 10 * fid) if x else None) for x in w], V)
    W.S.put(I, g('free_blocks_'), [j for j, x in enumerate(w) if not x], V)
    W.S.put(I, g('busy_blocks_'), [j for j, x in enumerate(w) if x], "std::list")


STATS = ("n_found", "n_not_found", "n_read", "n_written", "n_clean_forced", "n_wrong_subblock")


class HAfter:
    def __init__(self, p, W, this):
        f = lambda n: F(this, n, BC)
        g = lambda n: F(F(this, 'write_buffer_', BC), n, WB)
        I, st = p.I, p.store
        self.p, self.W, self.ok, self.why = p, W, False, "the cache is not followed"
        e = {n: W.S.elems(I, f(n)) for n in ('blocks_', 'bids_', 'retain_count_', 'dirty_', 'valid_subblock_', 'free_blocks_', 'reqs_')}
        b = {n: W.S.elems(I, g(n)) for n in ('blocks_', 'bids_', 'reqs_', 'free_blocks_', 'busy_blocks_')}
        nodes = W.H.nodes(I, f('bid_map_'))
        if None in e.values() or None in b.values() or nodes is None:
            return
        self.why = "the cache's state is not determined"
        ptr = lambda l: I.deref(st[l]) if is_ptr(st.get(l)) else None
        bid = lambda l: (st.get(F(l, 'storage', 'stxxl::BID')), st.get(F(l, 'offset', 'stxxl::BID')))
        req = lambda l: (lambda v: I.deref(v) if v is not None and is_ptr(v) else None)(st.get(F(l, 'm_ptr', 'stxxl::counting_ptr')))
        num = lambda l: boolval(p, l)
        self.blocks, self.bids, self.reqs = [ptr(l) for l in e['blocks_']], [bid(l) for l in e['bids_']], [req(l) for l in e['reqs_']]
        self.retain, self.dirty, self.valid = [num(l) for l in e['retain_count_']], [num(l) for l in e['dirty_']], [num(l) for l in e['valid_subblock_']]
        self.free = [num(l) for l in e['free_blocks_']]
        self.wblocks, self.wbids, self.wreqs = [ptr(l) for l in b['blocks_']], [bid(l) for l in b['bids_']], [req(l) for l in b['reqs_']]
        self.wfree, self.busy = [num(l) for l in b['free_blocks_']], [num(l) for l in b['busy_blocks_']]
        self.map = {}
        for n in nodes:
            k = W.bidof(I, ('F', n, 'first', 'std::pair'))
            v = num(('F', n, 'second', 'std::pair'))
            if v is None or not isconst(k[1]):
                return
            self.map[k[1] // (2 * SUB)] = v
        if None in self.blocks + self.wblocks + self.free + self.wfree + self.busy:
            return
        self.ok = True

    def pending(self, r):
        u = self.p.I.user
        return r is not None and r in u.get("req", {}) and r not in u.get("done", ())

    def problems(self, mine, lost=()):
        u = self.p.I.user
        mem, disk, want = u["mem"], u["disk"], u["want"]
        n = len(self.blocks)
        if len({n, len(self.bids), len(self.retain), len(self.dirty), len(self.valid), len(self.reqs)}) > 1 or \
           len({len(self.wblocks), len(self.wbids), len(self.wreqs)}) > 1:
            yield "slots", "the tables of the cache have different sizes"
            return
        allb = self.blocks + self.wblocks
        if len(set(allb)) != len(allb) or len(allb) != N + 2:
            yield "slots", "a block of memory is used twice or lost"
        if sorted(self.wfree + self.busy) != list(range(len(self.wblocks))):
            yield "slots", "a write buffer is not exactly once in the lists of free and busy ones"
        for i in self.wfree:
            if 0 <= i < len(self.wreqs) and self.pending(self.wreqs[i]):
                yield "stale", "a write buffer is free while it is being written"
        for i in self.busy:
            if 0 <= i < len(self.wreqs) and self.pending(self.wreqs[i]):
                bs, k, ty = u["req"][self.wreqs[i]]
                if self.wbids[i] != k or bs[0] != self.wblocks[i]:
                    yield "stale", "a write buffer is recorded as written to another place"
        owner = {}
        for k, i in self.map.items():
            if not 0 <= i < n:
                yield "slots", "a block is recorded in place %s of %d" % (i, n)
                return
            if i in owner:
                yield "slots", "two blocks are recorded in the same place"
            owner[i] = k
            if self.bids[i] != hkey(k):
                yield "slots", "the block recorded in a place is not the one it is written to"
        for i in range(n):
            c = self.free.count(i)
            if c > 1:
                yield "slots", "a place is in the free list twice"
            if c and i in owner:
                yield "slots", "a place in use is in the free list"
            if not c and i not in owner:
                yield "slots", "a place is neither in use nor free"
            if c and self.pending(self.reqs[i]):
                yield "stale", "a block is free while it is being read or written"
        for r, (bs, k, ty) in u.get("req", {}).items():
            if r not in u.get("done", ()) and r not in self.reqs and r not in self.wreqs and r not in u.get("others", ()):
                yield "stale", "a transfer in progress is forgotten"
        for k in sorted({k for k, j in want if k in mine}):
            if k in lost:
                continue
            i = self.map.get(k)
            both = [want[(k, j)] for j in (0, 1)]
            ond = [disk.get((k, j)) for j in (0, 1)]
            if i is None:
                if ond != both:
                    yield "write-back", "block %d is lost: the disk holds %s" % (k, ond[0])
                continue
            b = self.blocks[i]
            if self.pending(self.reqs[i]):
                bs, rk, ty = u["req"][self.reqs[i]]
                if bs[0] != b or rk != hkey(k):
                    yield "stale", "the transfer in progress for block %d fills another one" % k
                if self.valid[i] != 2:
                    yield "stale", "a block being read counts as read in part"
                if ond != both:
                    yield "write-back", "block %d is read again before it was written" % k
                if self.dirty[i]:
                    yield "write-back", "a block counts as modified while it is being read"
                continue
            for j in (0, 1) if self.valid[i] == 2 else (self.valid[i],):
                if mem.get((b, j)) != want.get((k, j)):
                    yield "stale", "the cache shows %s in place of %s" % (mem.get((b, j)), want.get((k, j)))
            if ond != both and (not self.dirty[i] or self.valid[i] != 2):
                yield "write-back", "block %d was modified but counts as unmodified" % k
            if self.dirty[i] and self.valid[i] != 2:
                yield "write-back", "a block read in part counts as modified as a whole"
        for t in u.get("races", []):
            yield "stale", t


HOPS = {"get_subblock": 2, "make_dirty": 1, "retain_block": 1, "release_block": 1, "prefetch_block": 1, "flush": 0, "clear": 0, "~block_cache": 0, "swap": 0}
HOTHER = ((1, 0, 2, 1), (0, 2, 1, 0), (0, 0, 2, 2))


def block_cache_op(ctx, P, M, name):
    for d in M.get(name, []):
        J = Judge(ctx, R, d)
        for s in hstates(ctx.thorough):
            cached = [i + 1 for i, x in enumerate(s) if x is not None]
            ws = WOPT if name in ("get_subblock", "prefetch_block") and (ctx.thorough or None not in s) else WOPT[1:2] + WOPT[3:] if HOPS[name] == 0 else WOPT[1:3]
            for w in ws:
                cases = [()]
                if HOPS[name]:
                    cases = [(n,) for n in cached + [9]]
                if HOPS[name] == 2:
                    cases = [c + (j,) for c in cases for j in (0, 1)]
                for c in cases:
                    hone(ctx, P, d, J, name, s, w, c)
        J.done()


def hone(ctx, P, d, J, name, s, w, c):
    cfg, W = hconfig(P)
    I = ctx.interp(P, cfg)
    desc = hdescribe(s, w)
    if c:
        desc += "; block %d" % c[0] if c[0] < 8 else "; block not in the cache"
    if len(c) > 1:
        desc += ", part %d" % c[1]
    arg = ('O', 'bid')

    def setup(I):
        hput(I, W, THIS, s, w)
        if name == "swap":
            hput(I, W, ('O', 'other'), HOTHER, (None, (8, 0)), 1)
        if c:
            W.setbid(I, arg, 2 * c[0])
    args = [('&', arg)] + list(c[1:]) if c else []
    if name == "swap":
        args = [('&', ('O', 'other'))]
    kw = dict(setup=setup, args=args, this=THIS)
    if name == "~block_cache":
        rec = d.tu.recs[d.f["rid"]]

        def body(I):
            setup(I)
            I.run_dtor(THIS, rec)
        kw = dict(body=body)
    for p in J.paths(I, desc, **kw):
        u, st = p.I.user, p.store
        full = bool(c) and c[0] == 9 and all(x and x[1] for x in s)
        if name == "~block_cache":
            if p.out == 'throw':
                J.bad("slots", "throws (%s)" % desc)
                continue
            for r in u.get("req", {}):
                if r not in u.get("done", ()):
                    J.bad("stale", "the destructor frees a block that is being read or written (%s)" % desc)
            for k, t in u["want"].items():
                if u["disk"].get(k) != t:
                    J.bad("write-back", "%s is lost when the cache is destroyed: the disk holds %s (%s)" % (t, u["disk"].get(k), desc))
            for b in u["blocks"]:
                n = len([e for e in p.trace if e.k == 'freed' and e.o == b])
                if n != 1:
                    J.bad("slots", "the destructor frees a block of memory %d times (%s)" % (n, desc))
            continue
        if p.out == 'throw' and not (full and name in ("get_subblock", "prefetch_block")):
            J.bad("slots", "throws although a block could be thrown out (%s)" % desc)
            continue
        a = HAfter(p, W, THIS)
        if not a.ok:
            J.open("slots", "%s (%s)" % (a.why, desc))
            continue
        mine = set(range(1, 10))
        if name == "swap":
            b = HAfter(p, W, ('O', 'other'))
            if not b.ok:
                J.open("slots", "%s (%s)" % (b.why, desc))
                continue
            for x, fid, ss in ((b, 0, s), (a, 1, HOTHER)):
                u["others"] = {r for r, y in u["req"].items() if (y[1][1] // (2 * SUB) >= 10) != bool(fid)}
                own = {n + 10 * fid for n in mine}
                if set(x.map) - own:
                    J.bad("slots", "swap leaves blocks of one map in the cache of the other (%s)" % desc)
                    continue
                for r, t in x.problems(own):
                    J.bad(r, "after swap: %s (%s)" % (t, desc))
                if any(y and x.retain[i] != y[1] for i, y in enumerate(ss)):
                    J.bad("pins", "after swap the wrong blocks are retained (%s)" % desc)
                for n in STATS:
                    if boolval(p, F((THIS if fid else ('O', 'other')), n, BC)) != 100 + len(n) + 1000 * fid:
                        J.bad("slots", "swap does not exchange the statistics (%s)" % desc)
            continue
        if name == "clear":
            if a.map or sorted(a.free) != list(range(N)):
                J.bad("slots", "the cache is not empty after clear (%s)" % desc)
            for r in u.get("req", {}):
                if r not in u.get("done", ()):
                    J.bad("stale", "a transfer is still in progress after clear (%s)" % desc)
            for r, t in a.problems(()):
                J.bad(r, "%s (%s)" % (t, desc))
            continue
        for r, t in a.problems(mine):
            J.bad(r, "%s (%s)" % (t, desc))
        for i, x in enumerate(s):
            n = i + 1
            if not x:
                continue
            if x[1] and (a.map.get(n) != i or a.blocks[i] != hb(i)):
                J.bad("pins", "a retained block is thrown out of the cache or moved (%s)" % desc)
            elif a.map.get(n) == i:
                w_ = x[1] + (1 if name == "retain_block" and c[0] == n else -1 if name == "release_block" and c[0] == n and x[1] else 0)
                if a.retain[i] != w_:
                    J.bad("pins", "block %d is retained %s times, not %d (%s)" % (n, a.retain[i], w_, desc))
        if p.out == 'throw':
            continue
        v = p.val
        if isinstance(v, tuple) and not is_ptr(v):
            lo, hi = p.facts.bounds(v)
            v = lo if lo is not None and lo == hi else v
        if name in ("retain_block", "release_block", "make_dirty"):
            x = s[c[0] - 1] if c[0] < 8 else None
            if v != int(bool(x and (x[1] or name != "release_block"))):
                J.bad("pins" if name != "make_dirty" else "write-back", "%s reports %s (%s)" % (name, "success" if v else "failure", desc))
        if name == "make_dirty":
            i = a.map.get(c[0])
            if i is not None and (not a.dirty[i] or a.pending(a.reqs[i])):
                J.bad("write-back", "the block does not count as modified, or is still being read (%s)" % desc)
        if name == "flush":
            for r in u.get("req", {}):
                if r not in u.get("done", ()):
                    J.bad("write-back", "a write is still in progress after flush (%s)" % desc)
            for k, t in u["want"].items():
                if u["disk"].get(k) != t:
                    J.bad("write-back", "%s is not on disk after flush (%s)" % (t, desc))
        if name == "prefetch_block":
            if full:
                J.bad("pins", "reads a block into a cache of retained ones (%s)" % desc)
            i = a.map.get(c[0])
            if i is None or a.valid[i] != 2:
                J.bad("slots", "the block is not fetched (%s)" % desc)
            elif c[0] == 9 and (a.dirty[i] or a.retain[i]):
                J.bad("write-back" if a.dirty[i] else "pins", "a block read ahead counts as modified or retained (%s)" % desc)
        if name == "get_subblock":
            i = a.map.get(c[0])
            if i is None:
                J.bad("slots", "the block is not recorded in the cache (%s)" % desc)
                continue
            if c[0] == 9 and (a.dirty[i] or a.retain[i]):
                J.bad("write-back" if a.dirty[i] else "pins", "a block that was only read counts as modified or retained (%s)" % desc)

            class C:
                obj = p.I.deref(v)
            b, subs = W.place(p.I, C)
            if b is None:
                J.open("stale", "result not determined (%s)" % desc)
                continue
            if b != a.blocks[i] or subs is None or c[1] not in subs:
                J.bad("stale", "returns another part or block than the one asked for (%s)" % desc)
                continue
            if u["mem"].get((b, c[1])) != u["want"][(c[0], c[1])]:
                J.bad("stale", "returns %s in place of %s (%s)" % (u["mem"].get((b, c[1])), u["want"][(c[0], c[1])], desc))
            if a.valid[i] not in (2, c[1]):
                J.bad("stale", "another part of the block counts as read (%s)" % desc)


# ------------------------------------------------------------------ reader of a sequence of blocks through the cache
BR = HM + "buffered_reader"
SEQ = (1, 2, 8)           # the blocks the reader passes
SUBSIZE = SUB // 8
BSIZE = 2 * SUBSIZE


def rstates(thorough):
    """(slots, position of the current block, value index, modified flag, read ahead: None or position)"""
    cur = [(0, 1, 2, 1), (1, 1, 2, 1), (0, 1, 0, 0), (0, 2, 2, 2)]
    nxt = [(0, 0, 2, 1), None, (0, 0, 1, 0), (1, 0, 2, 1), (0, 1, 2, 2)]
    oth = [(0, 0, 2, 1), (1, 2, 2, 1)]
    for c in cur:
        vals = (0, 5, SUBSIZE - 1) + ((SUBSIZE, BSIZE - 1) if c[2] == 2 else ())
        for i in vals:
            for k in (0, 1):
                for x in nxt:
                    if k == 1 and x is None:
                        continue
                    for o in oth if thorough else oth[:1 + (i == BSIZE - 1)]:
                        for pf in (None, k + 1, 3):
                            s = (c, x, o) if k == 0 else (x, c, o)
                            yield s, k, i, c[0], pf
    for x in nxt[1:3]:
        yield ((0, 0, 2, 1), x, oth[1]), 3, 0, 0, None


def reader_op(ctx, P, M, name):
    for d in M.get(name, []):
        J = Judge(ctx, R, d)
        for s, k, i, dirty, pf in rstates(ctx.thorough):
            if k == 3 and name in ("value", "const_value"):
                continue
            targets = [None]
            if name == "skip_to":
                targets = [(b, j) for b in range(k, 3) for j in (0, 1)] + [(3, 0)] if k < 3 else []
            if name == "buffered_reader":
                if k or i:
                    continue
                targets = [(0, 3, j, x) for j in (0, 1) for x in (0, 1)] + [(1, 3, 0, 1), (3, 3, 0, 1)]
            for t in targets:
                rone(ctx, P, d, J, name, s, k, i, dirty, pf, t)
        J.done()


def rone(ctx, P, d, J, name, s, k, i, dirty, pf, t):
    cfg, W = hconfig(P)

    def tuning(I, c):
        l = ('O', 'tuning')
        I.store[F(l, 'prefetch_page_size', HM + 'tuning')] = 1
        I.store[F(l, 'prefetch_pages', HM + 'tuning')] = 2
        return ('&', l)
    cfg.model_pred.insert(0, (lambda f: f["n"] == "get_instance" and "tuning" in f.get("q", "") + f.get("ct", "") + f.get("fn", "") + str(f["tu"].types[f["rt"]].get("s", "")), tuning))
    cfg.models["stxxl::singleton::get_instance"] = tuning
    I = ctx.interp(P, cfg)
    f = lambda n: F(THIS, n, BR)
    cache = ('O', 'cache')
    bids = ('O', 'bids')
    desc = "reader at value %d of block %s%s%s; %s" % (i, "end" if k == 3 else k + 1, ", modified" if dirty else "", "" if pf is None else ", reading ahead to block %d" % (pf + 1), hdescribe(s, ()))
    if t is not None:
        desc += "; %s %s" % (name, t)

    def setup(I):
        hput(I, W, cache, s, (None, None))
        W.S.put(I, bids, [lambda l, n=n: W.setbid(I, l, 2 * n) for n in SEQ], "std::vector")
        if name == "buffered_reader":
            return
        I.store[f('i_value_')] = i
        I.store[f('begin_bid_')] = W.S.key(I, bids, 0)
        I.store[f('curr_bid_')] = W.S.key(I, bids, k)
        I.store[f('end_bid_')] = W.S.key(I, bids, 3)
        I.store[f('pref_bid_')] = W.S.key(I, bids, pf) if pf is not None else ('s', 'singular')
        I.store[f('cache_')] = ('&', cache)
        I.store[f('prefetch_')] = int(pf is not None)
        I.store[f('page_size_')] = 1
        I.store[f('prefetch_pages_')] = 2
        I.store[f('dirty_')] = dirty
        I.store[f('retained_')] = int(k < 3)
        b = ('F', hb(k) if k < 2 else hb(0), 'elem', 'stxxl::mng_local::element_block')
        j = i // SUBSIZE
        I.store[f('subblock_')] = ('&', ('I', b, j) if j else b)

    if name == "skip_to":
        args = lambda I: [itarg(I, W, bids, t[0], 'to'), t[1]]
    elif name == "buffered_reader":
        args = lambda I: [itarg(I, W, bids, t[0], 'b'), itarg(I, W, bids, t[1], 'e'), ('&', cache), t[2], t[3]]
    else:
        args = lambda I: []

    def body(I):
        setup(I)
        I.user["initial"] = set(I.user.get("req", {}))
        return I.enter(d, THIS, args(I))
    for p in J.paths(I, desc, body=body):
        u, st = p.I.user, p.store
        base = [x[1] if x else 0 for x in s]
        if k < 2 and name != "buffered_reader":
            base[k] -= 1
        full = all(x and x[1] for x in s)
        if p.out == 'throw':
            if not full and sum(1 for x in s if x and x[1]) < 2:
                J.bad("slots", "throws although a block could be thrown out (%s)" % desc)
            continue
        a = HAfter(p, W, cache)
        if not a.ok:
            J.open("slots", "%s (%s)" % (a.why, desc))
            continue
        for r, tx in a.problems(set(range(1, 10))):
            J.bad(r, "%s (%s)" % (tx, desc))
        cur = W.S.normv(p.I, ('&', f('curr_bid_')))
        iv = boolval(p, f('i_value_'))
        if name == "~buffered_reader":
            at = None
        else:
            if cur is None or iv is None:
                J.open("stale", "the reader's position is not determined (%s)" % desc)
                continue
            at = W.S.pos(p.I, cur)
        # where the reader should be
        if name == "operator++":
            w = (k, i + 1) if i + 1 < BSIZE else (k + 1, 0)
        elif name == "next_subblock":
            w = (k, SUBSIZE) if i < SUBSIZE else (k + 1, 0)
        elif name == "skip_to":
            w = (t[0], t[1] * SUBSIZE) if t[0] < 3 else (None, None)
        elif name == "buffered_reader":
            w = (t[0], t[2] * SUBSIZE)
        else:
            w = (k, i)
        if k == 3 and name != "buffered_reader":
            w = (3, None)
        if at is not None and w[0] is not None and (at != w[0] or w[0] < 3 and iv != w[1]):
            J.bad("stale", "the reader is at value %s of block %s, not at value %s of block %s (%s)" % (iv, at + 1, w[1], w[0] + 1, desc))
            continue
        # what it retains
        want = {i_ + 1: n for i_, n in enumerate(base)}
        if name != "~buffered_reader" and w[0] is not None and w[0] < 3:
            want[SEQ[w[0]]] = want.get(SEQ[w[0]], 0) + 1
        for n in set(want) | set(a.map):
            sl = a.map.get(n)
            have = a.retain[sl] if sl is not None else 0
            if have != want.get(n, 0):
                J.bad("pins", "block %d is retained %s times, not %d (%s)" % (n, have, want.get(n, 0), desc))
        rf = boolval(p, f('retained_'))
        if name != "~buffered_reader" and rf is not None and bool(rf) != (w[0] is not None and w[0] < 3):
            J.bad("pins", "the reader takes its block for %sretained although it is%s (%s)" % ("" if rf else "un", " not" if rf else "", desc))
        if name == "~buffered_reader" or w[0] is None or w[0] == 3:
            if name in ("operator++", "next_subblock") and name == "operator++" and p.val not in (0, None):
                J.bad("stale", "the end is not reported (%s)" % desc)
            continue
        if name == "operator++" and p.val == 0:
            J.bad("stale", "the end is reported too early (%s)" % desc)
        sl = a.map.get(SEQ[w[0]])
        if sl is None:
            continue                                   # reported above

        class C:
            obj = p.I.deref(st.get(f('subblock_'), 0))
        b, subs = W.place(p.I, C)
        j = w[1] // SUBSIZE
        if b is None:
            J.bad("stale", "the reader refers to no block of the cache (%s)" % desc)
        elif b != a.blocks[sl] or subs != ((j,) if C.obj != b else subs) or (C.obj[0] == 'F' and j):
            J.bad("stale", "the reader refers to another part or block than its own (%s)" % desc)
        elif a.pending(a.reqs[sl]) and a.reqs[sl] in u["initial"] and name in ("operator++", "next_subblock", "skip_to", "buffered_reader") and (w[0], j) != (k, i // SUBSIZE):
            J.bad("stale", "the reader's block is still being read (%s)" % desc)
        elif not a.pending(a.reqs[sl]) and u["mem"].get((b, j)) != u["want"].get((SEQ[w[0]], j)):
            J.bad("stale", "the reader shows %s (%s)" % (u["mem"].get((b, j)), desc))
        if name == "value":
            if not a.dirty[sl]:
                J.bad("write-back", "a value handed out for modification does not mark the block as modified (%s)" % desc)
        df = boolval(p, f('dirty_'))
        if df and not a.dirty[sl]:
            J.bad("write-back", "the reader takes its block for marked as modified although it is not (%s)" % desc)
        if name in ("value", "const_value"):
            r = p.I.deref(p.val)
            x = r
            if x[0] == 'I' and isconst(x[2]):
                ok = x[2] == i % SUBSIZE
                x = x[1]
            else:
                ok = i % SUBSIZE == 0

            class C2:
                obj = x
            b2, s2 = W.place(p.I, C2)
            if b2 != a.blocks[sl] or not ok or (s2 == (0,)) != (j == 0) and s2 != (0, 1):
                J.bad("stale", "another value is returned (%s)" % desc)


def itarg(I, W, bids, pos, n):
    l = ('O', 'it_' + n)
    I.store[l] = W.S.key(I, bids, pos)
    return ('&', l)


ROPS = ("operator++", "next_subblock", "skip_to", "value", "const_value", "enable_prefetching", "buffered_reader", "~buffered_reader")


def run(ctx):
    ctx.rule("write-back", "A modified node or block is written to its own place before its memory is reused")
    ctx.rule("stale", "What the cache hands out is the current content of the block asked for, completely read")
    ctx.rule("slots", "Every cached node is free or holds exactly one block")
    ctx.rule("pins", "A fixed or retained node is never thrown out, and only its holder releases it")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "assoc.cpp")])
    for kind in ("normal_leaf", "normal_node"):
        M = methods(P, "%snode_cache<%s%s<" % (BT, BT, kind))
        for n in ("get_node", "get_const_node", "get_new_node", "delete_node", "prefetch_node", "unfix_node", "~node_cache", "swap"):
            ctx.sub("%s::%s" % (NC, n), node_cache_op, ctx, P, M, n, kind)

    M = methods(P, BC + "<")
    for n in HOPS:
        ctx.sub("%s::%s" % (BC, n), block_cache_op, ctx, P, M, n)
    M = methods(P, BR + "<")
    for n in ROPS:
        ctx.sub("%s::%s" % (BR, n), reader_op, ctx, P, M, n)
