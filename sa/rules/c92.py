"""C92: the B+-tree behaves as an ordered dictionary; its iterators follow their values."""
import os
import ai, dom, prog, seqmodel, multimodel
from dom import isconst, is_ptr, show
from .util import *
from .c08 import NamedJudge, Now, kind
from .c14 import methods
from core import where

B = "stxxl::btree::"
BT, LEAF, NODE, CACHE, IMAP, BASE = B + "btree", B + "normal_leaf", B + "normal_node", B + "node_cache", B + "iterator_map", B + "btree_iterator_base"
KEY, BID = IMAP + "::Key", "stxxl::BID"
R = ("content", "result", "structure", "iterators", "blocks")
EB, WI = 'stxxl::mng_local::element_block', 'stxxl::mng_local::block_w_info'
FILE = ('&', ('O', 'f'))
MAXN, MINN, ROOM = 4, 2, 5            # values per leaf, children per node (see drivers/btree.cpp); places in a block
SLOTS = 3                             # the smallest cache that the constructors accept
LAST = 0                              # the key that compares greater than every other: larger numbers come first
NOBID = ('s', 'no block')
THIS = ('O', 'this', 'u')

LEAVES = {'drv::key': (('k', 'drv::key'),),
          BID: (('storage', BID), ('offset', BID)),
          KEY: ((('bid', KEY), ('storage', BID)), (('bid', KEY), ('offset', BID)), ('pos', KEY))}


def sub_(l, path):
    if isinstance(path[0], tuple):
        for n, o in path:
            l = F(l, n, o)
        return l
    return F(l, *path)


def copyleaf(I, dst, src, ct):
    if dst != src:
        for x in LEAVES[ct]:
            v = I.store.get(sub_(src, x))
            if v is None:
                I.store.pop(sub_(dst, x), None)
            else:
                I.store[sub_(dst, x)] = v


def plain(t):
    while t["k"] in ("ref", "rref"):
        t = t["tu"].types[t["pt"]]
    return t


class Maps(multimodel.MultiMaps):
    """The iterator map (std::multimap) and the root node (std::map), keyed by the records of the tree."""

    def __init__(self, cfg, seqs):
        multimodel.MultiMaps.__init__(self, cfg, seqs, order=self.rank)
        M = cfg.models
        for k in list(M):
            if k.startswith("std::multimap::"):
                n = k[len("std::multimap::"):].replace("multimap", "map")
                M["std::map::" + n] = M[k]
        M["std::map::insert"] = self.w(self.uinsert)
        M["std::map::operator[]"] = self.w(self.index)

    def rank(self, I, l):
        k = I.store.get(F(l, 'k', 'drv::key'))
        if k is not None:
            if not isconst(k):
                raise ai.PathEnd("key in the root not determined")
            return (-k,)
        o, p, s = (I.store.get(sub_(l, x)) for x in (LEAVES[KEY][1], LEAVES[KEY][2], LEAVES[KEY][0]))
        if not (isconst(o) and isconst(p)):
            raise ai.PathEnd("position of an iterator not determined")
        return (int(s != 0), o, p)

    def same(self, I, a, b, tag):
        return self.rank(I, a) == self.rank(I, b)

    def swap2(self, I, a, b):
        return multimodel.MultiMaps.swap2(self, I, a, b)

    def entry(self, I, m, src, at):
        l = self.new(I, m)
        for n, cts in (('first', ('drv::key', KEY)), ('second', (BID,))):
            s, d = F(src, n, 'std::pair'), F(l, n, 'std::pair')
            for ct in cts:
                if any(sub_(s, x) in I.store for x in LEAVES[ct]):
                    copyleaf(I, d, s, ct)
                    break
            else:
                I.store[d] = I.load(s)
        s = self.st(I)[m]
        self.st(I)[m] = s[:at] + [l] + s[at:]
        return l

    def minsert(self, I, c, m):
        src = I.evloc(c.args[-1])
        o = self.rank(I, self.first(src))
        at = len([x for x in self.st(I)[m] if self.rank(I, self.first(x)) <= o])
        return self.it(I, c, ('hashit', m, self.entry(I, m, src, at)))

    def put1(self, I, m, src):
        o = self.rank(I, self.first(src))
        s = self.st(I)[m]
        for x in s:
            if self.rank(I, self.first(x)) == o:
                return x, 0
        return self.entry(I, m, src, len([x for x in s if self.rank(I, self.first(x)) < o])), 1

    def uinsert(self, I, c, m):
        if len(c.args) == 2 and I.ty(c.args[0])["k"] == "ptr":
            for l in ptrrange(I, c.args[0], c.args[1]):
                self.put1(I, m, l)
            return 0
        l, new = self.put1(I, m, I.evloc(c.args[-1]))
        if len(c.args) == 2:
            return self.it(I, c, ('hashit', m, l))
        return self.pairres(I, c, m, l, new)

    def index(self, I, c, m):
        t = I.tmploc()
        copyleaf(I, F(t, 'first', 'std::pair'), self.keyloc(I, c.args[0]), 'drv::key')
        I.store[F(F(t, 'second', 'std::pair'), 'storage', BID)] = 0
        I.store[F(F(t, 'second', 'std::pair'), 'offset', BID)] = 0
        return ('&', F(self.put1(I, m, t)[0], 'second', 'std::pair'))


def at(b, i):
    return ('I', b, i) if i else b


def place(I, v):
    """(array, index) of a pointer into a block."""
    l = I.deref(v)
    if l[0] == 'I':
        if not isconst(l[2]):
            raise ai.PathEnd("place in a block not determined")
        return l[1], l[2]
    return l, 0


def ptr(l):
    """A pointer to an element, in the form that arithmetic on the block's begin yields."""
    return dom.add(('&', l[1]), l[2]) if l[0] == 'I' else ('&', l)


def ptrrange(I, a, b):
    (x, i), (y, j) = place(I, I.eval(a)), place(I, I.eval(b))
    if x != y:
        raise ai.PathEnd("range between two blocks")
    return [at(x, k) for k in range(i, j)]


class TW:
    """Caches, disk and iterator registry of a small tree."""

    def __init__(self, cfg, P):
        self.P = P
        cfg.unroll = 60
        cfg.max_paths = 8
        self.S = seqmodel.Seqs(cfg, 40)
        self.H = Maps(cfg, self.S)
        m = cfg.models
        c = CACHE + "::"
        m[c + "node_cache"] = lambda I, c: ([I.argval(a) for a in c.args], 0)[1]
        m[c + "~node_cache"] = lambda I, c: 0
        m[c + "get_node"] = lambda I, c: self.get(I, c, True)
        m[c + "get_const_node"] = lambda I, c: self.get(I, c, False)
        m[c + "get_new_node"] = self.get_new
        m[c + "unfix_node"] = self.unfix
        m[c + "delete_node"] = self.delete
        m[c + "prefetch_node"] = self.prefetch
        m[c + "nfixed"] = lambda I, c: len(self.side(I, c)["fixed"])
        m[c + "size"] = lambda I, c: 1000
        m["std::lower_bound"] = lambda I, c: self.bound(I, c, 0)
        m["std::upper_bound"] = lambda I, c: self.bound(I, c, 1)
        prev = m["std::copy"]
        m["std::copy"] = lambda I, c: self.copy(I, c) if I.ty(c.args[0])["k"] == "ptr" else prev(I, c)
        m["std::pair::pair"] = self.pairctor
        m["std::pair::operator="] = self.pairasg
        m["std::make_pair"] = self.pairctor
        m["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'block manager', 'u'))
        self.cctor = {}
        for d in P.defs.values():
            if d.kind == "ctor" and d.f.get("copy") and d.rec is not None and d.rec["ct"] in (B + "btree_iterator", B + "btree_const_iterator"):
                self.cctor[P.canon(d.rec)["q"]] = d

    # ---- pairs
    def copyrec(self, I, dst, src, t):
        t = plain(t)
        if t.get("ct") in LEAVES:
            return copyleaf(I, dst, src, t["ct"])
        rec = self.P.canon(t["tu"].recs[t["rid"]])
        if rec.get("q") in self.cctor:
            I.dyn.setdefault(dst, rec)
            I.enter(self.cctor[rec["q"]], dst, [('&', src)])
        else:
            self.S.rekey(I, src, dst, keep=True)

    def pairctor(self, I, c):
        if c.f["n"] == "make_pair":
            obj, args = I.tmploc(), c.args
        else:
            obj, args = c.obj, c.args
        if len(args) == 1:
            src = I.evloc(args[0])
            self.pcopy(I, obj, src, plain(I.ty(args[0])))
        elif len(args) == 2:
            for n, a in zip(("first", "second"), args):
                d, et = F(obj, n, 'std::pair'), plain(I.ty(a))
                if et["k"] == "rec":
                    self.copyrec(I, d, I.evloc(a), et)
                else:
                    I.store[d] = I.eval(a) if not a.get("lv") else I.load(I.evloc(a), et)
        else:
            t = c.objtype
            for n, et in zip(("first", "second"), [t["tu"].types[x[1]] for x in t.get("ta", []) if x[0] == "t"] if t else []):
                d = F(obj, n, 'std::pair')
                if et.get("ct") == BID:
                    I.store[F(d, 'storage', BID)] = I.store[F(d, 'offset', BID)] = 0
                elif et.get("ct") == 'drv::key':
                    I.store[F(d, 'k', 'drv::key')] = 0
                elif et["k"] == "rec":
                    I.zero(d, et)
                else:
                    I.store[d] = 0
        return ('obj', obj) if c.f["n"] == "make_pair" else 0

    def pcopy(self, I, dst, src, t):
        ta = [t["tu"].types[x[1]] for x in t.get("ta", []) if x[0] == "t"]
        if len(ta) != 2:
            raise ai.PathEnd("type of a pair not determined")
        for n, et in zip(("first", "second"), ta):
            d, s = F(dst, n, 'std::pair'), F(src, n, 'std::pair')
            if et["k"] == "rec":
                self.copyrec(I, d, s, et)
            else:
                I.store[d] = I.load(s, et)

    def pairasg(self, I, c):
        t = plain(I.ty(c.args[0]))
        src = I.evloc(c.args[0])
        if t.get("ct") != "std::pair":
            return NotImplemented
        if src != c.obj:
            self.pcopy(I, c.obj, src, t)
        return ('&', c.obj)

    # ---- algorithms on pointers into blocks
    def bound(self, I, c, up):
        if I.ty(c.args[0])["k"] != "ptr" or len(c.args) != 4:
            return NotImplemented
        r = ptrrange(I, c.args[0], c.args[1])
        last = I.eval(c.args[1])
        x, ct = I.evloc(c.args[2]), plain(I.ty(c.args[3]))
        f = I.evloc(c.args[3])
        rec = self.P.canon(ct["tu"].recs[ct["rid"]])
        op = [d for d in self.P.defs.values() if d.n == "operator()" and d.rec is not None and self.P.canon(d.rec) is rec and len(d.params) == 2]
        if not op:
            return NotImplemented
        for l in r:
            a, b = (x, l) if up else (l, x)
            v = I.enter(op[0], f, [('&', a), ('&', b)])
            if not isconst(v):
                raise ai.PathEnd("comparison of keys not determined")
            if bool(v) == bool(up):
                return ptr(l)
        return last

    def copy(self, I, c):
        r = ptrrange(I, c.args[0], c.args[1])
        b, i = place(I, I.eval(c.args[2]))
        t = I.ty(c.args[0])
        t = plain(t["tu"].types[t["pt"]])
        if t.get("ct") != "std::pair":
            return NotImplemented
        for k, l in enumerate(r):
            if at(b, i + k) != l:
                self.pcopy(I, at(b, i + k), l, t)
        return dom.add(('&', b), i + len(r))

    # ---- blocks
    def race(self, I, r, t):
        I.user.setdefault("races", []).append((r, t))

    def setbid(self, I, l, n):
        I.store[F(l, 'storage', BID)] = FILE if n is not None else 0
        I.store[F(l, 'offset', BID)] = n * 4096 if n is not None else 0

    def getbid(self, store, l):
        """Block number; None: no block; NOBID: something else."""
        s, o = store.get(F(l, 'storage', BID)), store.get(F(l, 'offset', BID))
        if s == 0:
            return None
        return o // 4096 if s == FILE and isconst(o) else NOBID

    def num(self, I, l, what):
        n = self.getbid(I.store, l)
        if n == NOBID:
            raise ai.PathEnd("block not determined")
        if n is None or n not in I.user["live"]:
            self.foul(I, "%s a block that is not allocated" % what)
        return n

    def foul(self, I, t):
        I.user.setdefault("misuse", []).append((I.fr.line if hasattr(I.fr, "line") else "?", t, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    def side(self, I, c):
        n = c.obj[2] if c.obj is not None and c.obj[0] == 'F' else None
        s = I.user["sides"].get(n)
        if s is None:
            raise ai.PathEnd("cache not determined")
        return s

    def slotblock(self, slot):
        return ('O', 'block of ' + slot[1], 'u')

    def fill(self, I, s, slot, n):
        """Puts block n's content into a slot."""
        d, b = s["disk"][n], self.slotblock(slot)
        info = F(b, 'info', WI)
        mt = s["meta"]
        self.setbid(I, F(info, 'me', mt), d["me"])
        if s["leaf"]:
            self.setbid(I, F(info, 'pred', mt), d["pred"])
            self.setbid(I, F(info, 'succ', mt), d["succ"])
        I.store[F(info, 'cur_size', mt)] = d["size"]
        e = F(b, 'elem', EB)
        for i in range(ROOM):
            k, v = d["elem"][i] if i < len(d["elem"]) else (('s', 'unset key'), ('s', 'unset'))
            x = at(e, i)
            I.store[F(F(x, 'first', 'std::pair'), 'k', 'drv::key')] = k
            y = F(x, 'second', 'std::pair')
            if s["leaf"]:
                I.store[y] = v
            else:
                I.store[F(y, 'storage', BID)], I.store[F(y, 'offset', BID)] = (FILE, v * 4096) if isconst(v) else (v, v)

    def read(self, store, s, slot):
        """The content of a slot, as fill() takes it."""
        b = self.slotblock(slot)
        info, mt = F(b, 'info', WI), s["meta"]
        d = {"me": self.getbid(store, F(info, 'me', mt)), "size": store.get(F(info, 'cur_size', mt)), "elem": []}
        if s["leaf"]:
            for n in ("pred", "succ"):
                d[n] = self.getbid(store, F(info, n, mt))
        e = F(b, 'elem', EB)
        for i in range(ROOM):
            x = at(e, i)
            y = F(x, 'second', 'std::pair')
            d["elem"].append((store.get(F(F(x, 'first', 'std::pair'), 'k', 'drv::key')), store.get(y) if s["leaf"] else self.getbid(store, y)))
        return d

    def now(self, I, s, n, store=None):
        """Content of block n: in the cache (if it would be written back) or on disk."""
        if n in s["in"] and n in s["dirty"]:
            return self.read(I.store if store is None else store, s, s["in"][n])
        return s["disk"].get(n)

    def slot(self, I, s, n):
        """A slot of the smallest cache for block n: the one used least recently that is not fixed; its content is written back."""
        if s["empty"]:
            slot = s["empty"].pop()
        elif s["slots"] < SLOTS:
            slot = self.newslot(I, s)
        else:
            free = [x for x in s["mru"] if x not in s["fixed"]]
            if not free:
                self.foul(I, "needs another block when every place of the cache is fixed")
            old = free[0]
            slot = s["in"].pop(old)
            s["mru"].remove(old)
            if old in s["dirty"]:
                s["disk"][old] = self.read(I.store, s, slot)
                s["dirty"].discard(old)
        s["in"][n] = slot
        s["mru"].append(n)
        return slot

    def newslot(self, I, s):
        k = s["slots"] = s["slots"] + 1
        cls = LEAF if s["leaf"] else NODE
        slot = ('O', '%s slot %d' % ("leaf" if s["leaf"] else "node", k), 'u')
        I.store[F(slot, 'm_block', cls)] = ('&', self.slotblock(slot))
        I.store[F(slot, 'm_btree', cls)] = ('&', THIS)
        return slot

    def get(self, I, c, write):
        s = self.side(I, c)
        n = self.num(I, I.evloc(c.args[0]), "reads")
        fix = I.eval(c.args[1]) if len(c.args) > 1 else 0
        if n not in s["disk"] and n not in s["in"]:
            self.foul(I, "reads a block of the other kind")
        slot = s["in"].get(n)
        if slot is None:
            slot = self.slot(I, s, n)
            self.fill(I, s, slot, n)
        s["mru"].remove(n)
        s["mru"].append(n)
        (s["fixed"].add if fix else s["fixed"].discard)(n)
        if write:
            s["dirty"].add(n)
        return ('&', slot)

    def get_new(self, I, c):
        s = self.side(I, c)
        n = I.user["nbid"] = I.user["nbid"] + 1
        I.user["live"].add(n)
        self.setbid(I, I.evloc(c.args[0]), n)
        slot = self.slot(I, s, n)
        s["disk"][n] = dict(me=n, size=0, elem=[], pred=None, succ=None)
        self.fill(I, s, slot, n)
        s["dirty"].add(n)
        return ('&', slot)

    def unfix(self, I, c):
        s = self.side(I, c)
        n = self.num(I, I.evloc(c.args[0]), "releases")
        s["fixed"].discard(n)
        return 0

    def delete(self, I, c):
        s = self.side(I, c)
        n = self.num(I, I.evloc(c.args[0]), "frees")
        if n not in s["disk"] and n not in s["in"]:
            self.foul(I, "frees a block of the other kind")
        I.user["live"].discard(n)
        s["disk"].pop(n, None)
        for x in ("fixed", "dirty"):
            s[x].discard(n)
        if n in s["in"]:
            s["empty"].append(s["in"].pop(n))
            s["mru"].remove(n)
        return 0

    def prefetch(self, I, c):
        s = self.side(I, c)
        n = self.num(I, I.evloc(c.args[0]), "prefetches")
        if n not in s["in"]:
            slot = self.slot(I, s, n)
            self.fill(I, s, slot, n)
        return 0

    # ---- the tree
    def put(self, I, tree, height, splits, prefetching=1):
        """tree: nested lists, the innermost ones hold keys; splits: how the splitter of a leaf is chosen."""
        u = I.user
        leaf = dict(leaf=True, meta=LEAF + "::metainfo_type", disk={}, dirty=set(), fixed=set(), mru=[], empty=[], slots=0)
        node = dict(leaf=False, meta=NODE + "::metainfo_type", disk={}, dirty=set(), fixed=set(), mru=[], empty=[], slots=0)
        leaf["in"], node["in"] = {}, {}
        u.update(live=set(), nbid=0, sides={'m_leaf_cache': leaf, 'm_node_cache': node})
        f = lambda n: F(THIS, n, BT)
        order = []
        self.where = {}

        def new():
            u["nbid"] += 1
            u["live"].add(u["nbid"])
            return u["nbid"]

        def build(t, h, last):
            """(splitter, block)"""
            if h == 1:
                n = new()
                leaf["disk"][n] = dict(me=n, size=len(t), elem=[(k, V(k)) for k in t], pred=None, succ=None)
                if order:
                    leaf["disk"][order[-1]]["succ"] = n
                    leaf["disk"][n]["pred"] = order[-1]
                order.append(n)
                for i, k in enumerate(t):
                    self.where[k] = n, i
                return LAST if last else t[-1] - (2 if splits == "loose" else 0), n
            es = [build(x, h - 1, last and i == len(t) - 1) for i, x in enumerate(t)]
            n = new()
            node["disk"][n] = dict(me=n, size=len(es), elem=es)
            return es[-1][0], n
        es = [build(x, height - 1, i == len(tree) - 1) for i, x in enumerate(tree)]
        r = []
        for k, n in es:
            def g(a, b, k=k, n=n):
                I.store[F(a, 'k', 'drv::key')] = k
                self.setbid(I, b, n)
            r.append(g)
        self.H.put(I, f('m_root_node'), r)
        I.store[f('m_size')] = len(self.where)
        I.store[f('m_height')] = height
        I.store[f('m_prefetching_enabled')] = prefetching
        I.store[f('m_bm')] = ('&', ('O', 'block manager', 'u'))
        im = f('m_iterator_map')
        I.store[F(im, 'm_btree', IMAP)] = ('&', THIS)
        self.reg = F(im, 'm_it2addr', IMAP)
        self.H.put(I, self.reg, [])
        end = f('m_end_iterator')
        I.dyn[end] = self.rec0
        n = order[-1]
        self.watch(I, end, n, leaf["disk"][n]["size"])

    def watch(self, I, l, n, pos):
        """An iterator at place pos of leaf n, registered."""
        I.store[F(l, 'btree', BASE)] = ('&', THIS)
        self.setbid(I, F(l, 'bid', BASE), n)
        I.store[F(l, 'pos', BASE)] = pos
        t = I.tmploc()
        k = F(t, 'first', 'std::pair')
        self.setbid(I, F(k, 'bid', KEY), n)
        I.store[F(k, 'pos', KEY)] = pos
        I.store[F(t, 'second', 'std::pair')] = ('&', l)
        o = self.H.rank(I, k)
        self.H.entry(I, self.reg, t, len([x for x in self.H.st(I)[self.reg] if self.H.rank(I, self.H.first(x)) <= o]))

    def registered(self, I, store, l):
        """Places under which the iterator at l is registered."""
        out = []
        for x in self.H.st(I)[self.reg]:
            if store.get(F(x, 'second', 'std::pair')) == ('&', l):
                k = F(x, 'first', 'std::pair')
                out.append((self.getbid(store, F(k, 'bid', KEY)), store.get(F(k, 'pos', KEY))))
        return out

    def state(self, p, J, desc):
        """[(leaf number, [(key, value)])] after an operation, or None."""
        I, st = p.I, p.store
        f = lambda n: F(THIS, n, BT)
        if self.fouls(p, J, desc):
            return None
        u = I.user
        leaf, node = u["sides"]['m_leaf_cache'], u["sides"]['m_node_cache']
        h = st.get(f('m_height'))
        root = self.H.nodes(I, f('m_root_node'))
        if root is None or not isconst(h) or not 2 <= h <= 6:
            J.bad("structure", "the tree's height is %s (%s)" % (show(h), desc))
            return None
        if not root or len(root) > MAXN or h > 2 and len(root) < 2:
            J.bad("structure", "the root has %d entries at height %d (%s)" % (len(root), h, desc))
            return None
        leaves, used = [], set()
        bad = lambda t: J.bad("structure", "%s (%s)" % (t, desc))

        def down(n, h, hi, top=None):
            """Collects the leaves below block n, whose keys come after those seen and not after hi."""
            s = leaf if h == 1 else node
            what = "leaf" if h == 1 else "node"
            if n in used:
                return bad("two entries refer to the same %s" % what)
            used.add(n)
            d = self.now(I, s, n, st) if n in u["live"] else None
            if d is None:
                return bad("an entry refers to no %s" % what)
            sz = d["size"]
            if not isconst(sz) or not 0 <= sz <= ROOM:
                return bad("a %s's size is %s" % (what, show(sz)))
            if d["me"] != n:
                return bad("a %s carries another block's address" % what)
            if sz > MAXN or sz < MINN and not (h == 1 and top):
                return bad("a %s has %d entries" % (what, sz))
            es = d["elem"][:sz]
            if not all(isconst(k) for k, v in es):
                return bad("a %s contains an entry that was never stored" % what)
            ks = [k for k, v in es]
            if any(a <= b for a, b in zip(ks, ks[1:])):
                return bad("a %s's keys are not in order: %s" % (what, " ".join(map(str, ks))))
            if h == 1:
                for k in ks:
                    if k < hi or leaves and lo[0] is not None and k >= lo[0]:
                        return bad("key %d is not in the leaf where it is looked for" % k)
                leaves.append((n, es, d))
                lo[0] = hi
                return True
            if ks[-1] != hi:
                return bad("a node's last key %d differs from its parent's key %d" % (ks[-1], hi))
            return all(down(v, h - 1, k) for k, v in es)
        lo = [None]
        for i, l in enumerate(root):
            k = st.get(F(F(l, 'first', 'std::pair'), 'k', 'drv::key'))
            n = self.getbid(st, F(l, 'second', 'std::pair'))
            if i == len(root) - 1 and k != LAST:
                return bad("the last key of the root is %s" % show(k))
            if not down(n, h - 1, k, len(root) == 1):
                return None
        for i, (n, es, d) in enumerate(leaves):
            pr, su = leaves[i - 1][0] if i else None, leaves[i + 1][0] if i + 1 < len(leaves) else None
            if d["pred"] != pr or d["succ"] != su:
                bad("the %s link of a leaf is wrong" % ("backward" if d["pred"] != pr else "forward"))
                return None
        if used != u["live"]:
            J.bad("blocks", "%d blocks are allocated, the tree uses %d (%s)" % (len(u["live"]), len(used), desc))
        for s in (leaf, node):
            if s["fixed"]:
                J.bad("blocks", "a block stays fixed in the cache (%s)" % desc)
        self.check_place(p, J, f('m_end_iterator'), (leaves[-1][0], len(leaves[-1][1])), desc, "end()")
        return [(n, es) for n, es, d in leaves]

    def fouls(self, p, J, desc):
        for r, t in p.I.user.get("races", []):
            J.bad(r, "%s (%s)" % (t, desc))
        return bool(p.I.user.get("races"))

    def check_place(self, p, J, l, want, desc, what, rule="iterators"):
        st = p.store
        got = self.getbid(st, F(l, 'bid', BASE)), st.get(F(l, 'pos', BASE))
        if want is not None and got != want:
            J.bad(rule, "%s is at place %s of leaf %s instead of place %d of leaf %d (%s)" % (what, show(got[1]), show(got[0]), want[1], want[0], desc))
            return False
        if st.get(F(l, 'btree', BASE)) != ('&', THIS):
            J.bad(rule, "%s does not belong to the tree (%s)" % (what, desc))
            return False
        reg = self.registered(p.I, st, l)
        if reg != [got]:
            J.bad("iterators", "%s is registered %s (%s)" % (what, "at another place than it designates" if len(reg) == 1 else "%d times" % len(reg), desc))
            return False
        return True


def V(k):
    return ('s', 'v%d' % k)


def spot(leaves, key):
    """Place of a key; None: past the last one."""
    for n, es in leaves:
        for i, (k, v) in enumerate(es):
            if k == key:
                return n, i
    return leaves[-1][0], len(leaves[-1][1])


STEP = 4


def number(shape, count=None):
    """Nested lists of sizes -> nested lists of keys (descending, STEP apart)."""
    if count is None:
        def total(s):
            return s if isinstance(s, int) else sum(total(x) for x in s)
        count = [total(shape) * STEP + 3]
    if isinstance(shape, int):
        out = []
        for _ in range(shape):
            out.append(count[0])
            count[0] -= STEP
        return out
    return [number(x, count) for x in shape]


def flat(t):
    return [t] if isinstance(t, int) else [y for x in t for y in flat(x)]


def lists(t):
    """The leaves of a tree."""
    return [t] if t == [] or isinstance(t[0], int) else [y for x in t for y in lists(x)]


def shapes2(th):
    """Trees of height 2, by the sizes of their leaves."""
    for n in range(MAXN + 1):
        yield [n]
    for a in (2, 3, 4):
        for b in (2, 3, 4):
            yield [a, b]
    vals = (2, 3, 4) if th else (2, 4)
    for a in vals:
        for b in vals:
            for c in vals:
                yield [a, b, c]
    for s in ([2, 2, 2, 2], [4, 2, 2, 2], [2, 4, 2, 2], [2, 2, 4, 2], [2, 2, 2, 4], [3, 3, 3, 3], [4, 4, 4, 4]):
        yield s


# trees of height 3 and 4 whose nodes are as small or as full as they can be
SHAPES3 = ([[2, 2], [2, 2]], [[2, 2], [2, 2, 2]], [[2, 2, 2], [2, 2]], [[2, 2], [2, 2, 2, 2]], [[2, 2, 2, 2], [2, 2]], [[2, 4], [4, 2]], [[2, 2], [2, 2], [2, 2]],
           [[4, 4, 4, 4], [2, 2]], [[2, 2], [4, 4, 4, 4]], [[4, 2], [2, 4], [2, 2, 2]])
FULL3 = ([[2, 2, 2, 4], [2, 2], [2, 2], [2, 2]], [[2, 2], [4, 2, 2, 2], [2, 2], [2, 2]], [[2, 2], [2, 2], [2, 2], [2, 2, 4, 2]])
SHAPES4 = ([[[2, 2], [2, 2]], [[2, 2], [2, 2]]], [[[2, 2], [2, 2]], [[2, 2], [2, 2], [2, 2]]], [[[2, 2], [2, 2], [2, 2]], [[2, 2], [2, 2]]],
           [[[2, 2], [2, 2], [2, 2], [2, 2]], [[2, 2], [2, 2]]], [[[2, 2], [2, 2]], [[2, 2], [2, 2], [2, 2], [2, 2]]],
           [[[2, 2], [2, 2]], [[2, 2], [2, 2]], [[2, 2], [2, 2]]])
FULL4 = ([[[2, 2], [2, 2], [2, 4, 2, 2], [2, 2]], [[2, 2], [2, 2]], [[2, 2], [2, 2]], [[2, 2], [2, 2]]],
         [[[2, 2], [2, 2]], [[2, 2], [2, 2]], [[2, 2], [2, 2]], [[2, 2], [2, 2], [2, 2], [2, 2, 2, 4]]])


def height(s):
    return 1 if isinstance(s, int) else 1 + max(height(x) for x in s)


def show_tree(t):
    return " ".join(map(str, t)) if t == [] or isinstance(t[0], int) else "(%s)" % " | ".join(show_tree(x) for x in t)


class Op:
    """One operation of the tree, applied in every state."""

    def __init__(self, ctx, P, d, name):
        self.ctx, self.P, self.d, self.name = ctx, P, d, name
        self.cfg = ai.base_config()
        self.W = TW(self.cfg, P)
        self.W.rec0 = itrec(P, 0)
        self.I = ctx.interp(P, self.cfg)
        self.J = NamedJudge(ctx, R, d)
        self.J.name = "%s::%s%s" % (BT, name, " const" if d.f.get("const") else "")

    def start(self, I, tree, splits, key, near=None):
        """Sets the state up; returns {key: iterator} of the iterators on its values."""
        W = self.W
        W.put(I, tree, height(self.shape), splits)
        if key is not None:
            I.store[F(('O', 'key', 'u'), 'k', 'drv::key')] = key
            v = ('O', 'value', 'u')
            I.store[F(F(v, 'first', 'std::pair'), 'k', 'drv::key')] = key
            I.store[F(v, 'second', 'std::pair')] = ('s', 'new')
        here = {}
        for k in sorted(W.where, reverse=True):
            if near is None or abs(k - near) <= 9 * STEP:
                l = ('O', 'watcher %d' % k, 'u')
                I.dyn[l] = W.rec0
                W.watch(I, l, *W.where[k])
                here[k] = l
        return here

    def args(self, I, here, key):
        K, VV = ('&', ('O', 'key', 'u')), ('&', ('O', 'value', 'u'))
        n = self.name
        if n == "insert":
            return [VV]
        if n in ("erase iterator", "insert with a hint"):
            p = ('O', 'position', 'u')
            I.enter(self.W.cctor[self.P.canon(self.W.rec0)["q"]], p, [('&', here[key] if n == "erase iterator" else sorted(here.items())[0][1])])
            return [('&', p)] + ([VV] if n != "erase iterator" else [])
        return [K] if self.d.params else []

    def enough(self):
        """A violation was found, or too many states could not be decided to go on."""
        self.tried = getattr(self, "tried", 0) + 1
        return self.J.worst or self.J.opened and self.tried - self.J.n > 40

    def go(self, shape, splits, key, near=None):
        W, J, n = self.W, self.J, self.name
        if self.enough():
            return
        tree = number(shape)
        keys = flat(tree)
        if n == "erase iterator" and key not in keys or n == "insert with a hint" and not keys:
            return
        self.shape = shape
        desc = "%s%s: %s%s" % (n, "" if key is None else " %d" % key, show_tree(tree), "" if splits == "tight" else ", separating keys between the leaves")
        here = {}

        def body(I):
            here.clear()
            here.update(self.start(I, tree, splits, key, near))
            r = I.enter(self.d, THIS, self.args(I, here, key))
            return r
        for p in J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                J.bad("result", "throws %s (%s)" % (show(p.exc.args)[:80] if p.exc else "", desc))
                continue
            self.judge(p, keys, key, here, desc)

    def judge(self, p, keys, key, here, desc):
        W, J, n = self.W, self.J, self.name
        leaves = W.state(p, J, desc)
        if leaves is None:
            return
        want = {k: V(k) for k in keys}
        if n in ("insert", "insert with a hint"):
            want.setdefault(key, ('s', 'new'))
        elif n == "operator[]":
            want.setdefault(key, 0)
        elif n.startswith("erase"):
            want.pop(key, None)
        elif n == "clear":
            want = {}
        got = dict(e for m, es in leaves for e in es)
        if got != want:
            diff = sorted(set(got) ^ set(want)) or sorted(k for k in got if got[k] != want[k])
            J.bad("content", "key %d %s (%s)" % (diff[0], "is lost" if diff[0] not in got else "must not be present" if diff[0] not in want else "has value %s instead of %s" % (show(got[diff[0]]), show(want[diff[0]])), desc))
            return
        c = p.store.get(F(THIS, 'm_size', BT))
        if c != len(want):
            J.bad("content", "%d values are stored, counted are %s (%s)" % (len(want), show(c), desc))
        for k, l in here.items():
            if not W.check_place(p, J, l, spot(leaves, k) if k in want else None, desc, "an iterator at key %d" % k if k in want else "the iterator at the erased key") and J.worst:
                return
        v = p.val
        order = sorted(want, reverse=True)
        if n in ("find", "lower_bound", "upper_bound", "begin", "end", "insert", "insert with a hint", "equal_range"):
            if not (isinstance(v, tuple) and v[0] == 'obj'):
                J.open("result", "returned iterator not determined (%s)" % desc)
                return
            after = lambda k: next((x for x in order if x < k), None)
            notbefore = lambda k: next((x for x in order if x <= k), None)
            a = F(v[1], 'first', 'std::pair') if n in ("insert", "equal_range") else v[1]
            w = {"find": key if key in want else None, "begin": order[0] if order else None, "end": None, "lower_bound": notbefore(key or 0), "upper_bound": after(key or 0),
                 "equal_range": notbefore(key or 0), "insert": key, "insert with a hint": key}[n]
            W.check_place(p, J, a, spot(leaves, w), desc, "the returned iterator" + (", which must be the end," if w is None else ""), "result")
            if n == "equal_range":
                W.check_place(p, J, F(v[1], 'second', 'std::pair'), spot(leaves, after(key)), desc, "the end of the returned range", "result")
            if n == "insert" and p.store.get(F(v[1], 'second', 'std::pair')) != int(key not in keys):
                J.bad("result", "reports that the value was %s (%s)" % ("not inserted" if key not in keys else "inserted", desc))
        elif n in ("erase", "count", "size", "empty"):
            w = len(keys) if n == "size" else int(not keys) if n == "empty" else int(key in keys)
            if v != w:
                J.bad("result", "returns %s instead of %d (%s)" % (show(v), w, desc))
        elif n == "operator[]":
            m, i = spot(leaves, key)
            s = p.I.user["sides"]['m_leaf_cache']
            if m not in s["in"] or v != ('&', F(at(F(W.slotblock(s["in"][m]), 'elem', EB), i), 'second', 'std::pair')):
                J.bad("result", "returns a reference to something else than the value of the key (%s)" % desc)

    def all(self):
        th, n = self.ctx.thorough, self.name
        keyed = bool(self.d.params)
        small = list(shapes2(th))
        for s in small + list(SHAPES3):
            if not keyed:
                self.go(s, "tight", None)
                continue
            ks = flat(number(s))
            for k in ks:
                self.go(s, "tight", k, k if len(ks) > 16 else None)
            if n in ("erase iterator",):
                continue
            for k in ([ks[0] + 1] if ks else [1]) + [k - 2 for k in ks]:
                self.go(s, "tight", k, k if len(ks) > 16 else None)
            if height(s) == 2 and len(s) < 2:
                continue
            ends = [l[-1] for l in lists(number(s))]
            for k in ends:
                for x in (k, k - 1, k - 2, k - 3):
                    self.go(s, "loose", x, k if len(ks) > 16 else None)
        for s in FULL3 + SHAPES4 + FULL4:
            if not keyed:
                self.go(s, "tight", None, 0)
                continue
            t = number(s)
            ls = lists(t)
            full = [l for l in ls if len(l) == MAXN]
            mine = full if n.startswith("insert") or n == "operator[]" else ls
            for l in mine:
                for k in (l if n.startswith("erase") and len(ls) < 10 else l[-1:]):
                    self.go(s, "tight", k, k)
                if not n.startswith("erase"):
                    for k in (l[-1] - 2, l[0] - 2):
                        self.go(s, "tight", k, k)
        self.J.done()


class Iters(Op):
    """The methods of the iterators, at every place of every tree."""

    def __init__(self, ctx, P, M, const):
        self.ctx, self.P, self.const, self.name = ctx, P, const, "iterator"
        self.cls = B + ("btree_const_iterator" if const else "btree_iterator")
        self.cfg = ai.base_config()
        self.W = TW(self.cfg, P)
        self.W.rec0 = itrec(P, 0)
        self.rec = itrec(P, const)
        self.I = ctx.interp(P, self.cfg)
        self.IM = methods(P, self.cls + "<")
        g = lambda n: [d for d in M[n] if d.tu.types[d.f["rt"]].get("ct") == self.cls][0]
        self.first, self.last, self.look = g("begin"), g("end"), g("find")
        self.op = lambda n, post=0: [d for d in self.IM[n] if len(d.params) == post][0]
        same = lambda n: [d for d in self.IM[n] if kind(d) == self.cls][0]
        self.eq, self.ne, self.copy, self.assign = same("operator=="), same("operator!="), same(self.cls.split("::")[-1]), same("operator=")
        self.dflt = [d for d in P.defs.values() if d.kind == "ctor" and d.rec is not None and P.canon(d.rec) is self.rec and not d.params]
        self.J = NamedJudge(ctx, R, self.op("operator++"))
        self.J.name = self.cls

    def at(self, I, l, key, desc, what, deref=True):
        """The iterator at l designates key (None: the end); its value is that of the tree."""
        leaves = self.leaves(I)
        if not self.W.check_place(Now(I), self.J, l, spot(leaves, key), desc, what):
            return False
        if key is not None and deref:
            for n in ("operator*", "operator->"):
                v = I.enter(self.op(n), l, [])
                got = None
                if not isconst(v):
                    e = I.deref(v)
                    got = I.store.get(F(F(e, 'first', 'std::pair'), 'k', 'drv::key')), I.store.get(F(e, 'second', 'std::pair'))
                if got != (key, V(key)):
                    self.J.bad("result", "%s yields %s instead of key %d and its value (%s)" % (what, show(got), key, desc))
                    return False
        return True

    def leaves(self, I):
        s = I.user["sides"]['m_leaf_cache']
        n = [x for x in sorted(I.user["live"]) if (x in s["disk"] or x in s["in"])]
        out = [(x, s["disk"][x]["elem"][:s["disk"][x]["size"]]) for x in n]
        return out

    def obj(self, I, v):
        if isinstance(v, tuple) and v[0] == 'obj':
            I.dyn[v[1]] = self.rec
            return v[1]
        raise ai.PathEnd("iterator not determined")

    def script(self, shape, desc, f, key=None, pf=1):
        if self.enough():
            return
        self.shape = shape
        tree = number(shape)

        def body(I):
            self.W.put(I, tree, height(shape), "tight", pf)
            if key is not None:
                I.store[F(('O', 'key', 'u'), 'k', 'drv::key')] = key
            return f(I, flat(tree))
        for p in self.J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                self.J.bad("result", "throws (%s)" % desc)
            elif not self.J.worst:
                self.W.state(p, self.J, desc)

    def gone(self, I, objs, desc):
        for l in objs:
            I.run_dtor(l, self.rec)
        if len(self.W.H.st(I)[self.W.reg]) != 1:
            self.J.bad("iterators", "%d iterators are registered after all were destroyed (%s)" % (len(self.W.H.st(I)[self.W.reg]) - 1, desc))

    def walks(self):
        """begin(), ++ to the end, -- back to the beginning; every value looked at, or none."""
        for s in list(shapes2(self.ctx.thorough)) + list(SHAPES3[:4]):
            for look in (1, 0):
                for pf in (1, 0):
                    desc = "walk%s%s: %s" % ("" if look else " without looking at values", "" if pf else ", no prefetching", show_tree(number(s)))

                    def f(I, keys):
                        l = self.obj(I, I.enter(self.first, THIS, []))
                        e = self.obj(I, I.enter(self.last, THIS, []))
                        for i, k in enumerate(keys + [None]):
                            if not self.at(I, l, k, desc, "the iterator after %d steps" % i, look):
                                return
                            if I.enter(self.eq, l, [('&', e)]) != int(k is None) or I.enter(self.ne, e, [('&', l)]) != int(k is not None):
                                self.J.bad("result", "an iterator at %s compares as %s end() (%s)" % (k or "the end", "different from" if k is None else "equal to", desc))
                                return
                            if k is not None:
                                I.enter(self.op("operator++"), l, [])
                        for i, k in enumerate(reversed(keys)):
                            I.enter(self.op("operator--"), l, [])
                            if not self.at(I, l, k, desc, "the iterator %d steps back" % (i + 1), look):
                                return
                        self.gone(I, [l, e], desc)
                    self.script(s, desc, f, pf=pf)
        self.J.done()

    def copies(self):
        """Postfix operators, copy, assignment, comparison, writing through an iterator."""
        for s in [[1], [4], [2, 2], [3, 4], [2, 3, 4], [2, 2, 2, 2], [[2, 2], [2, 3]]]:
            keys = flat(number(s))
            for j, key in enumerate(keys):
                desc = "copies of an iterator at key %d: %s" % (key, show_tree(number(s)))

                def f(I, keys, j=j, key=key):
                    J = self.J
                    l = self.obj(I, I.enter(self.look, THIS, [('&', ('O', 'key', 'u'))]))
                    e = self.obj(I, I.enter(self.last, THIS, []))
                    b = self.obj(I, I.enter(self.first, THIS, []))
                    c = ('O', 'copy', 'u')
                    I.dyn[c] = self.rec
                    I.enter(self.copy, c, [('&', l)])
                    nxt, prv = (keys + [None])[j + 1], keys[j - 1] if j else None
                    for x, y, want in ((l, c, 1), (l, e, 0), (e, c, 0), (b, l, int(j == 0)), (l, b, int(j == 0))):
                        if I.enter(self.eq, x, [('&', y)]) != want or I.enter(self.ne, x, [('&', y)]) != 1 - want:
                            J.bad("result", "%s iterators compare %s (%s)" % ("equal" if want else "different", "different" if want else "equal", desc))
                            return
                    o = self.obj(I, I.enter(self.op("operator++", 1), c, [0]))
                    if not (self.at(I, o, key, desc, "the value of it++") and self.at(I, c, nxt, desc, "the iterator after it++") and self.at(I, l, key, desc, "the original")):
                        return
                    q = self.obj(I, I.enter(self.op("operator--", 1), c, [0]))
                    if not (self.at(I, q, nxt, desc, "the value of it--") and self.at(I, c, key, desc, "the iterator after it--")):
                        return
                    if prv is not None:
                        I.enter(self.op("operator--"), c, [])
                        if not self.at(I, c, prv, desc, "the iterator after --it"):
                            return
                    I.enter(self.assign, c, [('&', e)])
                    I.enter(self.assign, e, [('&', l)])
                    I.enter(self.assign, l, [('&', l)])
                    if not (self.at(I, c, None, desc, "the iterator assigned end()") and self.at(I, e, key, desc, "the iterator that was the end") and self.at(I, l, key, desc, "the self-assigned iterator")):
                        return
                    more = []
                    if self.dflt:
                        d = ('O', 'default', 'u')
                        I.dyn[d] = self.rec
                        I.enter(self.dflt[0], d, [])
                        I.enter(self.assign, d, [('&', l)])
                        if not self.at(I, d, key, desc, "a default iterator after assignment"):
                            return
                        more = [d]
                    if not self.const:
                        v = I.enter(self.op("operator*"), l, [])
                        I.store[F(I.deref(v), 'second', 'std::pair')] = ('s', 'written')
                        n, i = spot(self.leaves(I), key)
                        x = self.W.now(I, I.user["sides"]['m_leaf_cache'], n)
                        if x["elem"][i] != (key, ('s', 'written')):
                            J.bad("result", "a value changed through an iterator is not written back (%s)" % desc)
                    self.gone(I, [l, e, b, c, o, q] + more, desc)
                self.script(s, desc, f, key=key)
        self.J.done()


class Build(Op):
    """Construction, insertion of ranges, destruction."""

    def __init__(self, ctx, P, d, name):
        its = ("stxxl::vector_iterator", "stxxl::const_vector_iterator")
        if its[0] not in seqmodel.ITERS:
            seqmodel.ITERS += its
        Op.__init__(self, ctx, P, d, name)
        m, S = self.cfg.models, self.W.S
        for k in list(m):
            if k.startswith("std::vector::"):
                m["stxxl::vector::" + k.split("::")[2]] = m[k]

        def ctor(I, c):
            I.user.setdefault("seq", {})[c.obj] = []
            I.user.setdefault("seqct", {})[c.obj] = "std::vector"
            return 0
        m["stxxl::vector::vector"] = ctor
        m["stxxl::vector::~vector"] = lambda I, c: (I.user["seq"].pop(c.obj, None), 0)[1]
        prev = m["std::map::insert"]

        def insert(I, c):
            if len(c.args) == 2 and I.ty(c.args[0]).get("ct") in its:
                r = S.rng(I, c)
                if r is None:
                    raise ai.PathEnd("range not determined")
                for l in S.elems(I, r[0])[r[1]:r[2]]:
                    self.W.H.put1(I, c.obj, l)
                return 0
            return prev(I, c)
        m["std::map::insert"] = insert

    def fresh(self, I):
        """What a constructor finds: no member initialised."""
        W = self.W
        W.put(I, [[1]], 2, "tight")
        for s in I.user["sides"].values():
            s["disk"].clear()
        I.user["live"].clear()
        f = lambda n: F(THIS, n, BT)
        W.H.st(I)[W.reg] = []
        for x in [x for x in I.store if x[0] == 'F' and (x in (f('m_size'), f('m_height'), f('m_prefetching_enabled')) or I.under(x, f('m_end_iterator')))]:
            del I.store[x]
        W.H.st(I)[f('m_root_node')] = []

    def go(self, keys, tree=None, fill=(0.75, 0.6)):
        """tree: the shape before; without one the function is a constructor; fill: how far it fills nodes, leaves."""
        W, J = self.W, self.J
        if self.enough():
            return
        desc = "%s%s: %s" % (self.name, " of %s into %s" % (" ".join(map(str, keys)), show_tree(number(tree))) if tree else "", " ".join(map(str, keys)) or "nothing")
        if fill != (0.75, 0.6):
            desc += ", filled to %g, %g" % fill
        v = ('O', 'input', 'u')
        have = flat(number(tree)) if tree else []

        def body(I):
            if tree:
                self.W.put(I, number(tree), height(tree), "tight")
            else:
                self.fresh(I)
            for i, k in enumerate(keys):
                l = at(v, i)
                I.store[F(F(l, 'first', 'std::pair'), 'k', 'drv::key')] = k
                I.store[F(l, 'second', 'std::pair')] = V(k) if k not in keys[:i] + have else ('s', 'later')
            args = []
            fl = 0
            for vid, nm, t in self.d.params:
                ty = self.d.tu.types[t]
                if ty["k"] == "ptr":
                    args.append(dom.add(('&', v), len(keys) if args else 0))
                elif ty["k"] == "float":
                    args.append(('f', fill[fl]))
                    fl += 1
                elif ty["k"] in ("ref", "rec"):
                    args.append(('&', ('O', 'comparator', 'u')))
                else:
                    args.append(int(self.sorted) if nm == "range_sorted" or ty.get("s") == "bool" or ty.get("b") else 65536)
            return I.enter(self.d, THIS, args)
        for p in J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                J.bad("result", "throws %s (%s)" % (show(p.exc.args)[:80] if p.exc else "", desc))
                continue
            leaves = W.state(p, J, desc)
            if leaves is None:
                continue
            got = [e for m, es in leaves for e in es]
            want = [(k, V(k)) for k in sorted(set(keys + have), reverse=True)]
            if got != want:
                J.bad("content", "the tree contains %s (%s)" % (" ".join(show(k) for k, x in got), desc))
            elif p.store.get(F(THIS, 'm_size', BT)) != len(want):
                J.bad("content", "%d values are stored, counted are %s (%s)" % (len(want), show(p.store.get(F(THIS, 'm_size', BT))), desc))

    def ctor(self):
        if not any(self.d.tu.types[t]["k"] == "ptr" for v, n, t in self.d.params):
            self.go([])
            self.J.done()
            return
        self.sorted = True
        for n in list(range(0, 32 if not self.ctx.thorough else 60)) + [40, 54, 55]:
            self.go(list(range(n, 0, -1)))
        for fill in ((1.0, 1.0), (0.5, 0.75), (0.75, 0.5), (1.0, 0.5)):
            for n in list(range(3, 10)) + [15, 16, 17, 18, 19, 21, 23, 25] + (list(range(26, 52)) + [65, 67, 81, 83] if self.ctx.thorough else [33, 35]):
                self.go(list(range(n, 0, -1)), fill=fill)
        self.go([9, 9, 8, 8, 8, 7, 5, 5, 4, 4])
        self.go([9, 9, 9])
        self.sorted = False
        for keys in ([], [3], [3, 3], [5, 1, 9, 7, 3, 5, 2], [1, 2, 3, 4, 5, 6, 7, 8, 9], [9, 8, 7, 6, 5, 4, 3, 2, 1]):
            self.go(keys)
        self.J.done()

    def ranges(self):
        for keys in ([], [3], [9, 5, 5, 1], [4, 6, 8, 10, 12], [7, 3]):
            for t in ([0], [3], [2, 2], [4, 4]):
                self.go(keys, t)
        self.J.done()

    def dtor(self):
        """The destructor returns every block."""
        for s in list(shapes2(0)) + list(SHAPES3[:4]) + list(SHAPES4[:2]):
            desc = "destruction of %s" % show_tree(number(s))
            for p in self.J.paths(self.I, desc, body=lambda I: (self.W.put(I, number(s), height(s), "tight"), I.enter(self.d, THIS, []))[1]):
                if p.out == 'throw':
                    self.J.bad("result", "throws (%s)" % desc)
                elif p.I.user["live"]:
                    self.J.bad("blocks", "%d blocks are not returned (%s)" % (len(p.I.user["live"]), desc))
        self.J.done()


def itrec(P, const):
    want = B + ("btree_const_iterator" if const else "btree_iterator")
    for d in P.defs.values():
        if d.rec is not None and d.rec["ct"] == want and "drv::key" in P.canon(d.rec).get("q", ""):
            return P.canon(d.rec)
    raise AnalysisBroken("no iterator class")


def run(ctx):
    ctx.rule("content", "after an operation the tree contains exactly the values a dictionary would, in order, and counts them correctly")
    ctx.rule("result", "an operation returns what an ordered dictionary would: the iterator, the bound, the count, whether a value was inserted")
    ctx.rule("structure", "every node has between half and all of its places taken, in order, within its parent's keys; leaves are linked in order")
    ctx.rule("iterators", "iterators that existed before the operation still designate their value and are registered under its place; end() is past the last value")
    ctx.rule("blocks", "the blocks of the tree are the allocated ones; no block stays fixed in a cache")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "btree.cpp")])
    M = methods(P, BT + "<")
    jobs = []
    for name in ("insert", "erase", "operator[]", "find", "count", "lower_bound", "upper_bound", "equal_range", "begin", "end", "size", "empty", "clear"):
        for d in M[name]:
            n = name
            if name == "insert":
                if kind(d) not in ("std::pair", B + "btree_iterator"):
                    continue
                n = "insert" if kind(d) == "std::pair" else "insert with a hint"
            if name == "erase" and kind(d) != "drv::key":
                n = "erase iterator"
            jobs.append(("%s::%s" % (BT, n), lambda ctx, d, n: Op(ctx, P, d, n).all(), (ctx, d, n)))
    def build(d, n, meth):
        b = Build(ctx, P, d, n)
        b.J.name = BT + "::" + n
        getattr(b, meth)()
    for d in M["btree"]:
        n = "constructor from a range" if any(d.tu.types[t]["k"] == "ptr" for v, x, t in d.params) else "constructor"
        jobs.append(("%s::%s %d" % (BT, n, len(jobs)), build, (d, n, "ctor")))
    for d in M["insert"]:
        if len(d.params) == 2 and d.tu.types[d.params[0][2]]["k"] == "ptr":
            jobs.append((BT + "::insert of a range", build, (d, "insert of a range", "ranges")))
    for d in M["~btree"]:
        jobs.append((BT + "::~btree", build, (d, "~btree", "dtor")))
    for const in (0, 1):
        for n in ("walks", "copies"):
            jobs.append(("%s of %s iterators" % (n, "const" if const else "non-const"), lambda c, n: getattr(Iters(ctx, P, M, c), n)(), (const, n)))
    ctx.fan(jobs)
