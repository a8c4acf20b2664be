"""C08: the external hash map behaves as a dictionary; its iterators follow their values."""
import itertools, os
import ai, dom, prog, mapmodel, seqmodel, multimodel
from dom import isconst, is_ptr, show
from .util import *
from .c13 import Judge
from .c14 import methods
from core import where

HM, HH = "stxxl::hash_map::hash_map", "stxxl::hash_map::"
R = ("content", "result", "structure", "iterators", "blocks")
SS, SPB = 2, 2                 # values per subblock, subblocks per block (see drivers/hmap.cpp)
EB = 'stxxl::mng_local::element_block'
NODE, BUCKET, BASE = HH + "node", HH + "bucket", HH + "hash_map_iterator_base"
FILE = ('&', ('O', 'f'))
INTERNAL, EXTERNAL, UNKNOWN = 0, 1, 2


def rank(k):
    """Order of the keys: by hash value, then by key (the functors of drivers/hmap.cpp)."""
    return (3 - ((k >> 1) & 3), k)


def bucket_of(k, n):
    return min((3 - ((k >> 1) & 3)) * n // 4, n - 1)


class HW:
    """Memory, disk and iterator registry of a small hash map."""

    def __init__(self, cfg, P):
        self.P = P
        cfg.unroll = 60
        cfg.max_paths = 8
        mapmodel.Maps(cfg)
        self.S = seqmodel.Seqs(cfg, 24)
        self.H = multimodel.MultiMaps(cfg, self.S)
        m = cfg.models
        for t in ("std::allocator", "__gnu_cxx::new_allocator", "std::__new_allocator", "std::allocator_traits"):
            m[t + "::allocate"] = self.allocate
            m[t + "::deallocate"] = self.deallocate
        b = HH + "block_cache::"
        m[b + "get_subblock"] = self.get_subblock
        m[b + "retain_block"] = self.retain
        m[b + "release_block"] = self.release
        m[b + "make_dirty"] = self.dirty
        m[b + "prefetch_block"] = lambda I, c: (self.num(I, I.evloc(c.args[0])), 0)[1]
        m[b + "flush"] = lambda I, c: (self.flush(I), 0)[1]
        m[b + "clear"] = self.clear
        m[b + "block_cache"] = lambda I, c: ([I.argval(a) for a in c.args], 0)[1]
        w = "stxxl::buffered_writer::"
        m[w + "buffered_writer"] = lambda I, c: ([I.argval(a) for a in c.args], 0)[1]
        m[w + "~buffered_writer"] = lambda I, c: 0
        m[w + "get_free_block"] = lambda I, c: ('&', self.wblock(I))
        m[w + "write"] = self.write
        m[w + "flush"] = lambda I, c: 0
        m["stxxl::config::disks_number"] = lambda I, c: 1
        m["stxxl::singleton::get_instance"] = self.instance
        m["stxxl::block_manager::new_blocks"] = self.new_blocks
        m["stxxl::block_manager::delete_blocks"] = self.delete_blocks
        m["stxxl::striping::striping"] = lambda I, c: 0
        m["std::pair::pair"] = self.pairctor
        self.cctor = {}
        for d in P.defs.values():
            if d.kind == "ctor" and d.f.get("copy") and d.rec is not None and d.rec["ct"].startswith(HH + "hash_map_"):
                self.cctor[P.canon(d.rec)["q"]] = d

    def copyrec(self, I, dst, src, t):
        if t["k"] == "ref" or t["k"] == "rref":
            t = t["tu"].types[t["pt"]]
        q = self.P.canon(t["tu"].recs[t["rid"]]).get("q")
        if q in self.cctor:
            rec = self.P.canon(t["tu"].recs[t["rid"]])
            I.dyn.setdefault(dst, rec)
            I.enter(self.cctor[q], dst, [('&', src)])
        else:
            self.S.rekey(I, src, dst, keep=True)

    def pairctor(self, I, c):
        t = c.objtype
        if len(c.args) == 1:
            a = I.ty(c.args[0])
            src = I.evloc(c.args[0])
            ta = [a["tu"].types[x[1]] for x in a.get("ta", []) if x[0] == "t"]
            if len(ta) != 2:
                return NotImplemented
            for n, et in zip(("first", "second"), ta):
                d, s = F(c.obj, n, 'std::pair'), F(src, n, 'std::pair')
                if et["k"] == "rec":
                    self.copyrec(I, d, s, et)
                else:
                    I.store[d] = I.load(s, et)
            return 0
        if len(c.args) == 2:
            for n, a in zip(("first", "second"), c.args):
                d, et = F(c.obj, n, 'std::pair'), I.ty(a)
                if et["k"] == "rec":
                    self.copyrec(I, d, I.evloc(a), et)
                else:
                    I.store[d] = I.eval(a) if not a.get("lv") else I.load(I.evloc(a), et)
            return 0
        ta = [t["tu"].types[x[1]] for x in t.get("ta", []) if x[0] == "t"] if t else []
        for n, et in zip(("first", "second"), ta):
            d = F(c.obj, n, 'std::pair')
            if et["k"] == "rec":
                I.zero(d, et)
            else:
                I.store[d] = 0
        return 0

    def instance(self, I, c):
        o = ('O', 'singleton', 'u')
        for n, v in (("prefetch_page_size", 1), ("prefetch_pages", 2), ("blockcache_size", 4)):
            I.store[F(o, n, HH + "tuning")] = v
        return ('&', o)

    def race(self, I, r, t):
        I.user.setdefault("races", []).append((r, t))

    # ---- nodes
    def allocate(self, I, c):
        for a in c.args:
            I.argval(a)
        n = I.user["nnode"] = I.user.get("nnode", 0) + 1
        l = ('O', 'node%d' % n, 'u')
        I.user["nodes"].add(l)
        return ('&', l)

    def deallocate(self, I, c):
        v = I.argval(c.args[0])
        for a in c.args[1:]:
            I.argval(a)
        if not is_ptr(v) or v[0] != '&':
            raise ai.PathEnd("freed node not determined")
        if v[1] not in I.user["nodes"]:
            self.race(I, "structure", "a node is freed twice")
        I.user["nodes"].discard(v[1])
        return 0

    # ---- blocks
    def setbid(self, I, l, n):
        I.store[F(l, 'storage', 'stxxl::BID')] = FILE
        I.store[F(l, 'offset', 'stxxl::BID')] = n * 4096

    def num(self, I, l):
        s, o = I.load(F(l, 'storage', 'stxxl::BID')), I.load(F(l, 'offset', 'stxxl::BID'))
        if s != FILE or not isconst(o):
            raise ai.PathEnd("block not determined")
        n = o // 4096
        if n not in I.user["live"]:
            self.race(I, "blocks", "a block that is not allocated is used")
        return n

    def bidvec(self, I, m):
        out = []
        for l in self.S.elems(I, m) or []:
            o = I.store.get(F(l, 'offset', 'stxxl::BID'))
            out.append(o // 4096 if isconst(o) else None)
        return out

    def pair(self, l):
        return F(F(l, 'first', 'std::pair'), 'k', 'drv::key'), F(l, 'second', 'std::pair')

    def elem(self, b, i):
        e = F(b, 'elem', EB)
        return ('I', e, i) if i else e

    def getpair(self, I, l):
        a, b = self.pair(l)
        return I.store.get(a), I.store.get(b)

    def setpair(self, I, l, kv):
        a, b = self.pair(l)
        I.store[a], I.store[b] = kv

    def get_subblock(self, I, c):
        n = self.num(I, I.evloc(c.args[0]))
        i = I.eval(c.args[1])
        if not isconst(i):
            raise ai.PathEnd("subblock not determined")
        if not 0 <= i < SPB:
            I.user.setdefault("misuse", []).append((I.fr.line if hasattr(I.fr, "line") else "?", "subblock %d of a block of %d is accessed" % (i, SPB), I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        return ('&', self.cached(I, n, i))

    def cached(self, I, n, i):
        u = I.user
        l = ('O', 'sub%d.%d' % (n, i), 'u')
        if (n, i) not in u["cache"]:
            u["cache"].add((n, i))
            for j in range(SS):
                self.setpair(I, self.elem(l, j), u["disk"].get((n, i * SS + j), (('s', 'unset key'), ('s', 'unset'))))
        return l

    def retain(self, I, c):
        n = self.num(I, I.evloc(c.args[0]))
        if not any(x[0] == n for x in I.user["cache"]):
            return 0
        I.user["pins"][n] = I.user["pins"].get(n, 0) + 1
        return 1

    def release(self, I, c):
        n = self.num(I, I.evloc(c.args[0]))
        k = I.user["pins"].get(n, 0)
        if k <= 0:
            self.race(I, "blocks", "a block is released more often than it was retained")
        I.user["pins"][n] = k - 1
        return 1

    def dirty(self, I, c):
        I.user["dirty"].add(self.num(I, I.evloc(c.args[0])))
        return 1

    def flush(self, I):
        u = I.user
        for n, i in sorted(u["cache"]):
            if n in u["dirty"]:
                l = ('O', 'sub%d.%d' % (n, i), 'u')
                for j in range(SS):
                    u["disk"][n, i * SS + j] = self.getpair(I, self.elem(l, j))
        u["dirty"] = set()

    def clear(self, I, c):
        I.user["cache"], I.user["dirty"] = set(), set()
        if any(v > 0 for v in I.user["pins"].values()):
            self.race(I, "blocks", "the cache is cleared while a block is retained")
        return 0

    def wblock(self, I):
        n = I.user["nw"] = I.user.get("nw", 0) + 1
        return ('O', 'wblock%d' % n, 'u')

    def write(self, I, c):
        b = I.argval(c.args[0])
        n = self.num(I, I.evloc(c.args[1]))
        if not is_ptr(b) or b[0] != '&':
            raise ai.PathEnd("written block not determined")
        for i in range(SPB):
            s = self.elem(b[1], i)
            for j in range(SS):
                I.user["disk"][n, i * SS + j] = self.getpair(I, self.elem(s, j))
        return ('&', self.wblock(I))

    def rangeof(self, I, a, b):
        na, nb = self.S.norm(I, a), self.S.norm(I, b)
        if na is None or nb is None:
            raise ai.PathEnd("range of blocks not determined")
        return self.S.elems(I, na[1])[self.S.pos(I, na):self.S.pos(I, nb)]

    def new_blocks(self, I, c):
        for l in self.rangeof(I, c.args[1], c.args[2]):
            n = I.user["nbid"] = I.user.get("nbid", 50) + 1
            self.setbid(I, l, n)
            I.user["live"].add(n)
        return 0

    def delete_blocks(self, I, c):
        for l in self.rangeof(I, c.args[0], c.args[1]):
            n = self.num(I, l)
            I.user["live"].discard(n)
            if I.user["pins"].get(n, 0) > 0:
                self.race(I, "blocks", "a block is freed while a reader holds it")
        return 0

    # ---- the map
    def put(self, I, st, maxbuf=100, oblivious=0):
        """st: per bucket (external [(key, value)], internal [(key, value, deleted)]), both sorted by rank."""
        u = I.user
        u.update(nodes=set(), live=set(), disk={}, cache=set(), pins={}, dirty=set())
        f = lambda n: F(THIS, n, HM)
        pos, nn = 0, 0
        puts = []
        for ext, inn in st:
            start = pos
            for k, v in ext:
                u["disk"][1 + pos // (SS * SPB), pos % (SS * SPB)] = (k, v)
                pos += 1
            head = 0
            for k, v, d in reversed(inn):
                n = u["nnode"] = u.get("nnode", 0) + 1
                l = ('O', 'node%d' % n, 'u')
                u["nodes"].add(l)
                nn += 1
                if d:
                    head = ('tag', head, 1) if head else 1
                I.store[F(l, 'next_and_del_', NODE)] = head
                self.setpair(I, F(l, 'value_', NODE), (k, v))
                head = ('&', l)

            def fill(l, head=head, n=len(ext), start=start):
                for nm, x in (("list_", head), ("n_external_", n), ("i_block_", start // (SS * SPB)), ("i_subblock_", start % (SS * SPB) // SS)):
                    I.store[F(l, nm, BUCKET)] = x
            puts.append(fill)
            pos = (pos // SS + 1) * SS
        nb = (pos // (SS * SPB) + 1 + 2) // 3 * 3
        u["live"] = set(range(1, nb + 1))
        self.S.put(I, f('buckets_'), puts, "std::vector")
        self.S.put(I, f('bids_'), [(lambda n: lambda l: self.setbid(I, l, n))(n) for n in range(1, nb + 1)], "std::vector")
        I.store[f('buffer_size_')] = nn
        I.store[f('max_buffer_size_')] = maxbuf if maxbuf else nn + 1
        I.store[f('oblivious_')] = oblivious
        I.store[f('num_total_')] = len(content(st))
        I.store[f('opt_load_factor_')] = ('f', 0.875)
        for n in ("n_subblocks_loaded", "n_found_internal", "n_found_external", "n_not_found"):
            I.store[f(n)] = 0
        im = f('iterator_map_')
        I.store[F(im, 'map_', HH + "iterator_map")] = ('&', THIS)
        self.H.put(I, F(im, 'it_map_', HH + "iterator_map"), [])

    def chain(self, p, head):
        """[(node location, key, value, deleted)], or a text saying what is wrong."""
        out, seen = [], set()
        while head != 0:
            if not (isinstance(head, tuple) and head[0] == '&'):
                return "a bucket's chain is not determined: %s" % show(head)
            l = head[1]
            if l in seen:
                return "a bucket's chain has a cycle"
            seen.add(l)
            nd = p.store.get(F(l, 'next_and_del_', NODE))
            d = 0
            if isinstance(nd, tuple) and nd and nd[0] == 'tag':
                nd, d = nd[1], nd[2]
            elif isconst(nd) and nd in (0, 1):
                nd, d = 0, int(nd)
            a, b = self.pair(F(l, 'value_', NODE))
            out.append((l, p.store.get(a), p.store.get(b), d))
            head = nd
        return out

    def external(self, p, b, bids):
        """[(key, value)] of a bucket's values on disk."""
        g = lambda n: p.store.get(F(b, n, BUCKET))
        n, ib, isb = g('n_external_'), g('i_block_'), g('i_subblock_')
        if not (isconst(n) and isconst(ib) and isconst(isb)):
            return "a bucket's place on disk is not determined"
        out = []
        for i in range(n):
            a = isb + i // SS
            nb = ib + a // SPB
            if nb >= len(bids) or bids[nb] is None or bids[nb] not in p.I.user["live"]:
                return "a bucket's values lie outside the map's blocks"
            k = bids[nb], a % SPB
            if k in p.I.user["cache"]:
                l = ('O', 'sub%d.%d' % k, 'u')
                x = self.pair(self.elem(l, i % SS))
                v = p.store.get(x[0]), p.store.get(x[1])
                if v != p.I.user["disk"].get((k[0], k[1] * SS + i % SS)) and k[0] not in p.I.user["dirty"]:
                    return "a value changed in the cache is not written back"
            else:
                v = p.I.user["disk"].get((k[0], k[1] * SS + i % SS), (None, None))
            out.append(v)
        return out

    def state(self, p, J, desc):
        """The map after an operation: per bucket (location, external, internal), or None."""
        f = lambda n: F(THIS, n, HM)
        for r, t in p.I.user.get("races", []):
            J.bad(r, "%s (%s)" % (t, desc))
        bs = self.S.elems(p.I, f('buckets_'))
        if bs is None or self.S.elems(p.I, f('bids_')) is None:
            J.open("structure", "buckets not determined (%s)" % desc)
            return None
        bids = self.bidvec(p.I, f('bids_'))
        out = []
        nodes = 0
        for i, b in enumerate(bs):
            ch = self.chain(p, p.store.get(F(b, 'list_', BUCKET)))
            ex = self.external(p, b, bids)
            for x in (ch, ex):
                if isinstance(x, str):
                    J.bad("structure", "%s (%s)" % (x, desc))
                    return None
            for what, ks in (("chain", [c[1] for c in ch]), ("part on disk", [e[0] for e in ex])):
                if not all(isconst(k) for k in ks):
                    J.bad("structure", "a bucket's %s contains a value that was never stored (%s)" % (what, desc))
                    return None
                if [rank(k) for k in ks] != sorted(set(rank(k) for k in ks)):
                    J.bad("structure", "a bucket's %s is not in order: %s (%s)" % (what, " ".join(map(str, ks)), desc))
                    return None
                if any(bucket_of(k, len(bs)) != i for k in ks):
                    J.bad("structure", "a key lies in another bucket than the one it is looked for (%s)" % desc)
                    return None
            for c in ch:
                if c[0] not in p.I.user["nodes"]:
                    J.bad("structure", "a freed node is still part of a bucket's chain (%s)" % desc)
            nodes += len(ch)
            out.append((b, ex, ch))
        if nodes != len(p.I.user["nodes"]):
            J.bad("structure", "%d nodes are allocated, %d are in the buckets (%s)" % (len(p.I.user["nodes"]), nodes, desc))
        if p.store.get(f('buffer_size_')) != nodes:
            J.bad("structure", "the buffer holds %d nodes, counted are %s (%s)" % (nodes, show(p.store.get(f('buffer_size_'))), desc))
        if len(set(bids)) != len(bids) or set(bids) != p.I.user["live"]:
            J.bad("blocks", "the map's blocks are not the allocated ones: %s, %s (%s)" % (bids, sorted(p.I.user["live"]), desc))
        return out


def content(st):
    """{key: value} of a state."""
    d = {}
    for ext, inn in st:
        for x in ext:
            d[x[0]] = x[1]
        for k, v, dl in [x[-3:] for x in inn]:
            if dl:
                d.pop(k, None)
            else:
                d[k] = v
    return d


def listing(st):
    """Keys in iteration order."""
    d = content(st)
    return [k for ext, inn in st for k in sorted(set([x[0] for x in ext] + [x[-3] for x in inn]), key=rank) if k in d]


def V(k, w):
    return ('s', '%s%d' % (w, k))


# keys of bucket 0 and 1 of two, in their order
K0, K1 = (6, 7, 4, 5), (2, 3, 0, 1)


def bucket_states(keys):
    """Every combination of value on disk and node (none, live, deleted) for each key."""
    for c in itertools.product(range(6), repeat=len(keys)):
        ext = [(k, V(k, 'x')) for k, s in zip(keys, c) if s % 2]
        inn = [(k, V(k, 'i') if s // 2 == 1 else V(k, 'd'), int(s // 2 == 2)) for k, s in zip(keys, c) if s // 2]
        yield ext, inn


OTHER = ([(6, V(6, 'x')), (4, V(4, 'x'))], [(7, V(7, 'i'), 0), (4, V(4, 'd'), 1)])
# shorter, so that the second bucket starts in the middle of a block
SHORT = ([(6, V(6, 'x'))], [(7, V(7, 'i'), 0), (4, V(4, 'd'), 1)])
OTHER1 = ([(2, V(2, 'x')), (0, V(0, 'x'))], [(2, V(2, 'd'), 1), (3, V(3, 'i'), 0)])


def states(thorough, keys=3):
    """Two buckets, one of them in every state of a few keys."""
    for s in bucket_states(K1[:keys]):
        yield [SHORT if len(s[0]) > 2 or s[0] and s[0][0][0] == K1[1] else OTHER, s]
    for s in bucket_states(K0[:keys]):
        yield [s, OTHER1]


def show_state(st):
    return " | ".join("disk %s, buffer %s" % (" ".join(str(k) for k, v in e) or "-", " ".join(("-%d" if d else "%d") % k for k, v, d in i) or "-") for e, i in st)


def setup(I, W, st, key=None, **kw):
    W.put(I, st, **kw)
    if key is not None:
        I.store[F(('O', 'key', 'u'), 'k', 'drv::key')] = key
        W.setpair(I, ('O', 'value', 'u'), (key, ('s', 'new')))


def it_field(p, l, n):
    return p.store.get(F(l, n, BASE))


def check_it(W, p, J, l, st, key, desc, what="the returned iterator"):
    """The iterator at l designates key (None: the end) in the final state st and is registered once, under its bucket."""
    reg = [p.store.get(F(x, 'first', 'std::pair')) for x in W.H.nodes(p.I, F(F(THIS, 'iterator_map_', HM), 'it_map_', HH + "iterator_map")) or []
           if p.store.get(F(x, 'second', 'std::pair')) == ('&', l)]
    end = it_field(p, l, 'end_')
    if key is None:
        if end != 1:
            J.bad("iterators" if what != "the returned iterator" else "result", "%s is not the end (%s)" % (what, desc))
        elif reg:
            J.bad("iterators", "%s is the end and still registered (%s)" % (what, desc))
        return
    if end != 0:
        J.bad("iterators" if what != "the returned iterator" else "result", "%s is the end instead of key %d (%s)" % (what, key, desc))
        return
    ib = bucket_of(key, len(st))
    if it_field(p, l, 'map_') != ('&', THIS) or it_field(p, l, 'i_bucket_') != ib:
        J.bad("iterators", "%s refers to bucket %s instead of %d (%s)" % (what, show(it_field(p, l, 'i_bucket_')), ib, desc))
        return
    if reg != [ib]:
        J.bad("iterators", "%s is registered under %s instead of bucket %d (%s)" % (what, ", ".join(show(x) for x in reg) or "nothing", ib, desc))
    b, ext, ch = st[ib]
    src = it_field(p, l, 'source_')
    ie, ev, node = it_field(p, l, 'i_external_'), it_field(p, l, 'ext_valid_'), it_field(p, l, 'node_')
    if p.store.get(F(F(l, 'key_', BASE), 'k', 'drv::key')) != key:
        J.bad("iterators", "%s carries key %s instead of %d (%s)" % (what, show(p.store.get(F(F(l, 'key_', BASE), 'k', 'drv::key'))), key, desc))
    mine = [c for c in ch if c[1] == key]
    if mine:
        if src != INTERNAL or node != ('&', mine[0][0]):
            J.bad("iterators", "%s does not refer to the node that holds key %d (%s)" % (what, key, desc))
        nxt = len([e for e in ext if rank(e[0]) <= rank(key)])
        if ev == 1 and ie != nxt:
            J.bad("iterators", "%s expects the next value on disk at place %s instead of %d (%s)" % (what, show(ie), nxt, desc))
    else:
        at = [i for i, e in enumerate(ext) if e[0] == key]
        if not at or src != EXTERNAL or ev != 1 or ie != at[0]:
            J.bad("iterators", "%s refers to place %s on disk instead of %s (%s)" % (what, show(ie), at, desc))
        elif node != 0 and node not in [('&', c[0]) for i, c in enumerate(ch) if not any(rank(x[1]) > rank(key) for x in ch[:i])]:
            J.bad("iterators", "%s refers to a node that is not before the successors of key %d in its bucket (%s)" % (what, key, desc))


def check_content(W, p, J, after, want, desc, total=True):
    got = content([(e, i) for b, e, i in after])
    if got != want:
        diff = sorted(set(got) ^ set(want)) or sorted(k for k in got if got[k] != want[k])
        J.bad("content", "key %d %s (%s)" % (diff[0], "is lost" if diff[0] not in got else "must not be present" if diff[0] not in want else "has value %s instead of %s" % (show(got[diff[0]]), show(want[diff[0]])), desc))
    o, n = p.store.get(F(THIS, 'oblivious_', HM)), p.store.get(F(THIS, 'num_total_', HM))
    if o == 0 and n != len(want) and got == want:
        J.bad("content", "%d values are stored, counted are %s (%s)" % (len(want), show(n), desc))


def watch(I, W, name, st, key, form):
    """Puts an iterator that designates key into the state, registered under its bucket."""
    l = ('O', name, 'u')
    ib = bucket_of(key, len(st))
    ext, inn = st[ib]
    I.dyn[l] = W.P.canon(W.itrec)
    node = [i for i, x in enumerate(inn) if x[0] == key]
    first = sum(len(s[1]) for s in st[:ib]) + 1
    count = lambda j: sum(len(s[1]) for s in st[:ib]) + len(inn) - j      # nodes are numbered from the end of each chain
    f = {'map_': ('&', THIS), 'reader_': 0, 'prefetch_': 0, 'i_bucket_': ib, 'end_': 0}
    if node:
        nxt = len([e for e in ext if rank(e[0]) <= rank(key)])
        f.update(source_=INTERNAL, node_=('&', ('O', 'node%d' % count(node[0]), 'u')), ext_valid_=form, i_external_=nxt if form else 0)
    else:
        at = [i for i, e in enumerate(ext) if e[0] == key][0]
        less = [i for i, x in enumerate(inn) if rank(x[0]) < rank(key)]
        f.update(source_=EXTERNAL, node_=('&', ('O', 'node%d' % count(less[-1]), 'u')) if less and form else 0, ext_valid_=1, i_external_=at)
    for n, v in f.items():
        I.store[F(l, n, BASE)] = v
    I.store[F(F(l, 'key_', BASE), 'k', 'drv::key')] = key
    m = F(F(THIS, 'iterator_map_', HM), 'it_map_', HH + "iterator_map")
    x = W.H.new(I, m)
    I.store[F(x, 'first', 'std::pair')] = ib
    I.store[F(x, 'second', 'std::pair')] = ('&', l)
    s = W.H.st(I)[m]
    same = [j for j, y in enumerate(s) if I.store[F(y, 'first', 'std::pair')] == ib]
    k = same[-1] + 1 if same else len(s)
    W.H.st(I)[m] = s[:k] + [x] + s[k:]
    return l


class Op:
    """One operation of the map, applied in every state."""

    def __init__(self, ctx, P, M, d, name):
        self.ctx, self.P, self.d, self.name = ctx, P, d, name
        self.cfg = ai.base_config()
        self.W = HW(self.cfg, P)
        self.W.itrec = itrec(P, 1)
        self.I = ctx.interp(P, self.cfg)
        self.J = Judge(ctx, R, d)
        self.keyed = name not in ("clear", "rehash", "size", "max_buffer_size", "opt_load_factor")

    def args(self, I):
        n = self.name
        K, VV = ('&', ('O', 'key', 'u')), ('&', ('O', 'value', 'u'))
        if n in ("insert", "insert_oblivious"):
            return [VV]
        if n == "erase iterator":
            return [('&', self.pos)]
        if n == "rehash":
            return [self.desired]
        if n == "max_buffer_size":
            return [0]
        if n in ("clear", "size", "empty"):
            return []
        return [K]

    def go(self, st, key, desc, maxbuf=100, oblivious=0, forms=(0, 1), total=None):
        W, J, n = self.W, self.J, self.name
        if self.enough():
            return
        D = content(st)
        here = {}
        if n == "erase iterator" and key not in D:
            return

        def body(I):
            setup(I, W, st, key, maxbuf=maxbuf, oblivious=oblivious)
            if total is not None:
                I.store[F(THIS, 'num_total_', HM)] = total
            here.clear()
            for k in D:
                for f in forms:
                    here[k, f] = watch(I, W, "watcher %d.%d" % (k, f), st, k, f)
            if n == "erase iterator":
                self.pos = here[key, forms[0]]
                p = ('O', 'position', 'u')
                I.enter(W.cctor[self.P.canon(W.itrec)["q"]], p, [('&', self.pos)])
                self.pos = p
            return I.enter(self.d, THIS, self.args(I))
        for p in J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                J.bad("result", "throws %s (%s)" % (show(p.exc.args)[:80] if p.exc else "", desc))
                continue
            after = W.state(p, J, desc)
            if after is None:
                continue
            want = dict(D)
            new = ('s', 'new')
            if n == "insert":
                want.setdefault(key, new)
            elif n == "insert_oblivious":
                want[key] = new
            elif n.startswith("erase"):
                want.pop(key, None)
            elif n == "operator[]":
                want.setdefault(key, 0)
            elif n == "clear":
                want = {}
            check_content(W, p, J, after, want, desc)
            for (k, f), l in here.items():
                check_it(W, p, J, l, after, k if k in want else None, desc, "an iterator at key %d%s" % (k, ", which knows the place of the next value on disk," if f else ""))
            v = p.val
            if n in ("insert", "insert_oblivious", "find"):
                it = None
                if isinstance(v, tuple) and v[0] == 'obj':
                    it = F(v[1], 'first', 'std::pair') if n == "insert" else v[1]
                if it is None:
                    J.open("result", "returned iterator not determined (%s)" % desc)
                    continue
                check_it(W, p, J, it, after, key if key in want else None, desc)
                if n == "insert" and p.store.get(F(v[1], 'second', 'std::pair')) != int(key not in D):
                    J.bad("result", "reports that the value was %s (%s)" % ("not inserted" if key not in D else "inserted", desc))
            elif n == "equal_range":
                order = listing(st) + [None]
                if not (isinstance(v, tuple) and v[0] == 'obj'):
                    J.open("result", "returned range not determined (%s)" % desc)
                    continue
                a, b = F(v[1], 'first', 'std::pair'), F(v[1], 'second', 'std::pair')
                check_it(W, p, J, a, after, key if key in D else None, desc)
                check_it(W, p, J, b, after, order[order.index(key) + 1] if key in D else None, desc, "the end of the returned range")
            elif n in ("erase", "count", "size"):
                w = len(D) if n == "size" else int(key in D)
                if v != w:
                    J.bad("result", "returns %s instead of %d (%s)" % (show(v), w, desc))
            elif n == "operator[]":
                mine = [('&', F(F(c[0], 'value_', NODE), 'second', 'std::pair')) for b, e, ch in after for c in ch if c[1] == key]
                if v not in mine:
                    J.bad("result", "returns a reference to something else than the value of the key (%s)" % desc)

    def enough(self):
        """A violation was found, or too many states could not be decided to go on."""
        self.tried = getattr(self, "tried", 0) + 1
        return self.J.worst or self.J.opened and self.tried - self.J.n > 40

    def all(self):
        th = self.ctx.thorough
        for st in states(th):
            for key in ((K1 if st[0] is OTHER or st[0] is SHORT else K0) if self.keyed else (None,)):
                self.go(st, key, "%s%s: %s" % (self.name, "" if key is None else " %d" % key, show_state(st)))
        self.full(th)
        if self.name in ("size", "insert_oblivious"):
            # the number of values is only estimated after oblivious operations
            for st in states(th):
                for t in (0, 1, 9):
                    self.go(st, K1[1] if self.keyed else None, "%s after oblivious operations: %s" % (self.name, show_state(st)), oblivious=1, total=t)
        self.J.done()

    def full(self, th):
        """The buffer is about to overflow: the operation reorganises the map."""
        for st in states(th, 3 if th else 2):
            for key in ((K1 if st[0] is OTHER or st[0] is SHORT else K0)[:3] if self.keyed else (None,)):
                self.go(st, key, "%s%s, buffer full: %s" % (self.name, "" if key is None else " %d" % key, show_state(st)), maxbuf=0)


class NamedJudge(Judge):
    def done(self):
        for r in self.rules:
            if r in self.worst:
                self.ctx.bad(r, self.name, where(self.d), self.worst[r])
            elif r in self.opened or not self.n:
                self.ctx.undecided(r, self.name, where(self.d), self.opened.get(r) or "no complete path")
            else:
                self.ctx.ok(r, self.name, where(self.d), "%d paths" % self.n)


class Now:
    """The state in the middle of a script, in the form of a finished path."""

    def __init__(self, I):
        self.I, self.store = I, I.store


class Iters(Op):
    """Iterators of one kind: their methods in every state, alone and between operations of the map."""

    def __init__(self, ctx, P, M, const):
        self.ctx, self.P, self.M = ctx, P, M
        self.const = const
        self.cls = HH + ("hash_map_const_iterator" if const else "hash_map_iterator")
        self.cfg = ai.base_config()
        self.W = HW(self.cfg, P)
        self.W.itrec = itrec(P, const)
        self.I = ctx.interp(P, self.cfg)
        self.W.itrec0 = itrec(P, 0)
        self.IM = methods(P, self.cls + "<")
        self.first = [d for d in M["begin"] if d.tu.types[d.f["rt"]].get("ct") == self.cls][0]
        self.last = [d for d in M["end"] if d.tu.types[d.f["rt"]].get("ct") == self.cls][0]
        self.look = [d for d in M["find"] if d.tu.types[d.f["rt"]].get("ct") == self.cls][0]
        self.inc, self.deref = self.IM["operator++"][0], self.IM["operator*"][0]
        same = lambda n: [d for d in self.IM[n] if kind(d) == self.cls][0]
        self.eq, self.ne, self.copy, self.assign = same("operator=="), same("operator!="), same(self.cls.split("::")[-1]), same("operator=")
        self.J = NamedJudge(ctx, R, self.inc)

    def at(self, I, l, key, desc, what, deref=True, st=None):
        """The iterator at l designates key; its value is that of the map."""
        p = Now(I)
        if st is None:
            st = self.W.state(p, self.J, desc)
        if st is None:
            return False
        check_it(self.W, p, self.J, l, st, key, desc, what)
        if key is not None and deref and I.load(F(l, 'end_', BASE)) == 0:
            v = I.enter(self.deref, l, [])
            got = self.W.getpair(I, v[1]) if isinstance(v, tuple) and v[0] == '&' else (None, v)
            want = key, content([(e, i) for b, e, i in st]).get(key)
            if got != want:
                self.J.bad("result", "%s yields %s, %s instead of %s, %s (%s)" % ((what,) + tuple(show(x) for x in got + want) + (desc,)))
                return False
        return not self.J.worst

    def obj(self, I, v, desc):
        if isinstance(v, tuple) and v[0] == 'obj':
            I.dyn[v[1]] = self.P.canon(self.W.itrec)
            return v[1]
        raise ai.PathEnd("iterator not determined")

    def some(self, states, n):
        """The iterator kinds share most code: every state for one of them, a selection for the other."""
        for i, st in enumerate(states):
            if self.ctx.thorough or not self.const or i % n == 0:
                yield st

    def script(self, st, desc, f, **kw):
        if self.enough():
            return

        def body(I):
            setup(I, self.W, st, **kw)
            return f(I)
        for p in self.J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                self.J.bad("result", "throws (%s)" % desc)
            for r, t in p.I.user.get("races", []):
                self.J.bad(r, "%s (%s)" % (t, desc))

    def gone(self, I, objs, desc):
        """After its last iterator is destroyed no block is retained and nothing is registered."""
        for l in objs:
            I.run_dtor(l, self.P.canon(self.W.itrec))
        left = [n for n, k in sorted(I.user["pins"].items()) if k]
        if left:
            self.J.bad("blocks", "block %d is still retained after the iterators were destroyed (%s)" % (left[0], desc))
        reg = self.W.H.nodes(I, F(F(THIS, 'iterator_map_', HM), 'it_map_', HH + "iterator_map"))
        if reg:
            self.J.bad("iterators", "an iterator is still registered after it was destroyed (%s)" % desc)

    def walk(self, I, l, keys, desc, what, deref, skip=None):
        """skip: a key inserted during the walk; it need not be met."""
        for k in keys:
            if skip is not None and k == skip and (I.store.get(F(l, 'end_', BASE)) == 1 or I.store.get(F(F(l, 'key_', BASE), 'k', 'drv::key')) != k):
                continue
            if not self.at(I, l, k, desc, what, deref(k)):
                return
            if k is not None:
                I.enter(self.inc, l, [])

    def walks(self):
        """begin() and ++ to the end, with and without looking at every value."""
        for st in self.some(states(self.ctx.thorough), 3):
            order = listing(st) + [None]
            for name, dr in (("", lambda k: True), (", skipping values", lambda k: k in (6, 3, 0))):
                desc = "walk%s: %s" % (name, show_state(st))

                def f(I):
                    l = self.obj(I, I.enter(self.first, THIS, []), desc)
                    self.walk(I, l, order, desc, "the iterator", dr)
                    e = self.obj(I, I.enter(self.last, THIS, []), desc)
                    if not self.J.worst and not I.enter(self.eq, l, [('&', e)]):
                        self.J.bad("result", "the iterator does not equal end() at the end (%s)" % desc)
                    self.gone(I, [l, e], desc)
                self.script(st, desc, f)
        self.J.done()

    def writes(self):
        """A walk that changes every value."""
        for st in states(self.ctx.thorough):
            order = listing(st)
            desc = "walk, changing every value: %s" % show_state(st)

            def f(I):
                l = self.obj(I, I.enter(self.first, THIS, []), desc)
                for k in order:
                    v = I.enter(self.deref, l, [])
                    I.store[F(v[1], 'second', 'std::pair')] = ('s', 'w%d' % k)
                    I.enter(self.inc, l, [])
                after = self.W.state(Now(I), self.J, desc)
                if after is not None:
                    check_content(self.W, Now(I), self.J, after, {k: ('s', 'w%d' % k) for k in order}, desc)
                self.gone(I, [l], desc)
            self.script(st, desc, f)
        self.J.done()

    def starts(self):
        """++ from every value, from iterators that do and do not know the next place on disk, and from find()."""
        for st in self.some(states(self.ctx.thorough), 3):
            order = listing(st) + [None]
            for j, k in enumerate(order[:-1]):
                for form in (0, 1, 2):
                    desc = "++ from key %d%s: %s" % (k, (", next place on disk not known", "", ", found")[form], show_state(st))

                    def f(I):
                        if form == 2:
                            l = self.obj(I, I.enter(self.look, THIS, [('&', ('O', 'key', 'u'))]), desc)
                        else:
                            l = watch(I, self.W, "watcher", st, k, form)
                        self.walk(I, l, order[j:j + 3], desc, "the iterator", lambda x: x != k)
                        self.gone(I, [l], desc)
                    self.script(st, desc, f, key=k)
        self.J.done()

    def copies(self):
        """Copy, assignment, comparison, writing through an iterator."""
        for st in self.some(states(self.ctx.thorough, 2), 4):
            order = listing(st)
            for j, k in enumerate(order):
                for form in (0, 1):
                    desc = "copies of an iterator at key %d%s: %s" % (k, "" if form else ", next place on disk not known", show_state(st))

                    def f(I, k=k, j=j):
                        W, J = self.W, self.J
                        l = watch(I, W, "watcher", st, k, form)
                        o = watch(I, W, "other", st, order[0], 1)
                        e = self.obj(I, I.enter(self.last, THIS, []), desc)
                        c = ('O', 'copy', 'u')
                        I.dyn[c] = P_(self)
                        if not self.const and j % 2:
                            I.enter(self.deref, l, [])          # the original has a reader
                        I.enter(self.copy, c, [('&', l)])
                        if not self.at(I, c, k, desc, "the copy", False) or not self.at(I, l, k, desc, "the original", False):
                            return
                        for x, y, want in ((l, c, 1), (o, l, int(k == order[0])), (l, e, 0), (e, l, 0), (o, e, 0)):
                            if I.enter(self.eq, x, [('&', y)]) != want or I.enter(self.ne, x, [('&', y)]) != 1 - want:
                                J.bad("result", "%s equal iterators compare %sequal (%s)" % ("two" if want else "two un", "un" if want else "", desc))
                                return
                        nxt = (order + [None])[j + 1]
                        I.enter(self.inc, c, [])
                        ok = self.at(I, c, nxt, desc, "the copy after ++") and self.at(I, l, k, desc, "the original after ++ of the copy")
                        if not ok:
                            return
                        if nxt is not None and I.enter(self.eq, l, [('&', c)]):
                            J.bad("result", "iterators at different keys compare equal (%s)" % desc)
                        I.enter(self.assign, c, [('&', l)])
                        if not self.at(I, c, k, desc, "the assigned iterator") or not self.at(I, l, k, desc, "the assignment's source"):
                            return
                        I.enter(self.assign, c, [('&', c)])
                        if not self.at(I, c, k, desc, "the self-assigned iterator"):
                            return
                        I.enter(self.assign, o, [('&', c)])
                        I.enter(self.inc, o, [])
                        if not self.at(I, o, nxt, desc, "the assigned iterator after ++"):
                            return
                        I.enter(self.assign, o, [('&', e)])
                        I.enter(self.assign, e, [('&', c)])
                        if not self.at(I, o, None, desc, "the iterator assigned from end()") or not self.at(I, e, k, desc, "the iterator that was the end"):
                            return
                        if not self.const:
                            v = I.enter(self.deref, c, [])
                            I.store[F(v[1], 'second', 'std::pair')] = ('s', 'written')
                            after = W.state(Now(I), J, desc)
                            if after is None:
                                return
                            want = dict(content(st))
                            want[k] = ('s', 'written')
                            check_content(W, Now(I), J, after, want, desc + ", written through")
                        self.gone(I, [l, o, e, c], desc)
                    self.script(st, desc, f)
        self.J.done()

    def live(self, op):
        """An iterator in the middle of a walk, then an operation on the map, then the rest of the walk."""
        M = self.M
        d = [x for x in M[op] if x.params and (kind(x) == "drv::key" or kind(x) == "std::pair" or op == "rehash")][0]
        for st in self.some(states(self.ctx.thorough, 2), 4):
            D = content(st)
            order = listing(st)
            mine = K1 if st[0] is OTHER or st[0] is SHORT else K0
            for j in range(len(order)):
                for key in mine[:3] if op != "rehash" else (None,):
                    for maxbuf in ((100, 0) if not op.startswith("erase") or op == "erase_oblivious" else (100,)):
                        desc = "%s%s%s while an iterator has walked to key %d: %s" % (op, "" if key is None else " %d" % key, "" if maxbuf else " with a full buffer", order[j], show_state(st))

                        def f(I, key=key, j=j, op=op):
                            W, J = self.W, self.J
                            l = self.obj(I, I.enter(self.first, THIS, []), desc)
                            for x in range(j):
                                I.enter(self.inc, l, [])
                            if I.store.get(F(F(l, 'key_', BASE), 'k', 'drv::key')) != order[j]:
                                return
                            I.enter(self.deref, l, [])
                            r = I.enter(d, THIS, [('&', ('O', 'value', 'u'))] if op.startswith("insert") else [5] if op == "rehash" else [('&', ('O', 'key', 'u'))])
                            if isinstance(r, tuple) and r[0] == 'obj':
                                it = F(r[1], 'first', 'std::pair') if op == "insert" else r[1]
                                I.run_dtor(it, self.P.canon(self.W.itrec0))
                            after = W.state(Now(I), J, desc)
                            if after is None:
                                return
                            now = listing([(e, i) for b, e, i in after])
                            if order[j] not in now:
                                self.at(I, l, None, desc, "the iterator at the erased key")
                                self.gone(I, [l], desc)
                                return
                            self.walk(I, l, now[now.index(order[j]):] + [None], desc, "the iterator", lambda k: True, None if key in D else key)
                            self.gone(I, [l], desc)
                        self.script(st, desc, f, key=key, maxbuf=maxbuf)
        self.J.done()


def P_(self):
    return self.P.canon(self.W.itrec)


def itrec(P, const):
    want = HH + ("hash_map_const_iterator" if const else "hash_map_iterator")
    for d in P.defs.values():
        if d.rec is not None and d.rec["ct"] == want and "drv::key" in P.canon(d.rec).get("q", ""):
            return d.rec
    raise AnalysisBroken("no iterator class")


def kind(d):
    """Which of the overloads: the parameter's type."""
    if not d.params:
        return ""
    t = d.tu.types[d.params[0][2]]
    while t["k"] in ("ref", "rref"):
        t = d.tu.types[t["pt"]]
    return t.get("ct", t["k"])


def run(ctx):
    ctx.rule("content", "after an operation the map contains exactly the values a dictionary would, and counts them correctly")
    ctx.rule("result", "an operation returns what a dictionary would: the iterator, the count, whether a value was inserted")
    ctx.rule("structure", "each bucket's chain and its part on disk are ordered, belong to the bucket and are counted; nodes are neither lost nor used after they are freed")
    ctx.rule("iterators", "iterators that existed before the operation still designate their value, or the end if it was erased, and are registered under its bucket")
    ctx.rule("blocks", "the map's blocks are the allocated ones; blocks are retained and released in pairs")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "hmap.cpp")])
    M = methods(P, HM + "<")
    jobs = []

    def iters(const, meth, args, name):
        it = Iters(ctx, P, M, const)
        it.J.name = it.cls + " " + name
        getattr(it, meth)(*args)

    for name in ("insert", "insert_oblivious", "erase", "erase_oblivious", "operator[]", "find", "count", "clear", "size", "equal_range"):
        for d in M[name]:
            if name == "insert" and kind(d) != "std::pair":
                continue
            n = "erase iterator" if name == "erase" and kind(d) != "drv::key" else name
            jobs.append(("%s::%s" % (HM, n), lambda ctx, d, n: Op(ctx, P, M, d, n).all(), (ctx, d, n)))
    for const in (0, 1):
        for name in ("walks", "starts", "copies") + (() if const else ("writes",)):
            jobs.append(("%s of %s iterators" % (name, "const" if const else "non-const"), lambda c, n: iters(c, n, (), n), (const, name)))
        for op in ("insert", "insert_oblivious", "erase", "erase_oblivious", "rehash"):
            jobs.append(("%s iterators and %s" % ("const" if const else "non-const", op), lambda c, o: iters(c, "live", (o,), "around " + o), (const, op)))
    ctx.fan(jobs)
