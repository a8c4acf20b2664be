"""C14: cached pages and blocks are written back and never stale (vector)."""
import itertools, os
import ai, dom, prog, seqmodel
from dom import add, sub, c_eq, c_lt, isconst, show, is_ptr
from core import where
from .util import *
from .c11 import decide_eq, report
from .c12 import at_abort
from .c13 import World, Judge, key, READ, WRITE

V = "stxxl::vector"
VALID, UNINIT, DIRTY = 0, 1, 2
PS, NS = 2, 2           # blocks per page, cache slots
EPB = 1024              # elements per block


def methods(P, prefix):
    """Member functions of the class instance whose printed type starts with prefix: {name: [defs]}."""
    out = {}
    for r in [r for rs in P.recs_by_ct.values() for r in rs if r.get("q", "").startswith(prefix)]:
        for d in P.defs.values():
            if d.rec is not None and P.canon(d.rec) is P.canon(r):
                if d not in out.setdefault(d.n, []):
                    out[d.n].append(d)
    return out


def block(i):
    b = ('O', 'cache', 'u')
    return ('I', b, i) if i else b


class Cache(World):
    """Blocks of a page cache with the contents they hold."""

    def io(self, I, c, op):
        t = World.io(self, I, c, op)
        e = [x for x in I.trace if x.k == 'io'][-1]
        b, k = c.obj, e.a[0]
        mem, disk = I.user["mem"], I.user["disk"]
        if op == "write":
            disk[k] = mem.get(b, "nothing")
        else:
            mem[b] = disk.get(k, "nothing")
        return t


def config(P):
    cfg = ai.base_config()
    W = Cache(cfg, P)
    cfg.unroll = 8
    cfg.array_ctor = True
    m = cfg.models

    def kick(I, c):
        v = I.user.get("kick")
        if v is None:
            v = I.user["kick"] = I.choose(NS, ("kick", len(I.trace)))
        return v

    def hit(I, c):
        v = I.argval(c.args[0])
        I.ev('hit', 'hit', c.obj, (v,), None, c.node)
        I.user["kick"] = None
        return 0
    for t in ("stxxl::lru_pager", "stxxl::random_pager"):
        m[t + "::kick"] = kick
        m[t + "::hit"] = hit
        m[t + "::size"] = lambda I, c: NS
        m[t + "::" + t.split("::")[1]] = lambda I, c: 0
    m["stxxl::config::disks_number"] = lambda I, c: 2

    def new_blocks(I, c):
        a = [I.argval(x) if I.ty(x)["k"] != "rec" else I.evloc(x) for x in c.args]
        its = []
        for x in c.args[1:3]:
            l = I.evloc(x) if I.ty(x)["k"] == "rec" else None
            v = W.S.norm(I, x) if hasattr(W.S, "norm") else None
            its.append(v)
        if its[0] is None or its[1] is None or its[0][0] != 'seqit':
            raise ai.PathEnd("range of blocks to allocate not determined")
        s = W.S.elems(I, its[0][1])
        i, j = W.S.pos(I, its[0]), W.S.pos(I, its[1])
        off = I.argval(c.args[3]) if len(c.args) > 3 else 0
        if I.user.get("may_fail") and I.choose(2, ("allocation fails", len(I.trace))):
            I.ev('newblocks', 'fail', its[0][1], (i, j, off), None, c.node)
            I.throw_ext("stxxl::bad_ext_alloc", c.node)
        I.ev('newblocks', 'new_blocks', its[0][1], (i, j, off), None, c.node)
        for x in range(i, j):
            n = I.user["nbid"] = I.user.get("nbid", 100) + 1
            W.setbid(I, s[x], n)
        return 0

    def delete_blocks(I, c):
        its = [W.S.norm(I, x) for x in c.args[:2]]
        if None in its or its[0][0] != 'seqit':
            raise ai.PathEnd("range of blocks to free not determined")
        s = W.S.elems(I, its[0][1])
        ks = tuple(W.bidof(I, l) for l in s[W.S.pos(I, its[0]):W.S.pos(I, its[1])])
        I.ev('delblocks', 'delete_blocks', None, ks, None, c.node)
        return 0
    m["stxxl::block_manager::new_blocks"] = new_blocks
    m["stxxl::block_manager::delete_blocks"] = delete_blocks
    m["stxxl::block_manager::delete_block"] = lambda I, c: (I.ev('delblocks', 'delete_block', None, (W.bidof(I, I.evloc(c.args[0])),), None, c.node), 0)[1]
    m["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'block_manager'))
    pr = cfg.model_pred
    isfile = lambda n: (lambda f: f["n"] == n and f["k"] == "method" and f.get("ct") == "stxxl::file")

    def setsize(I, c):
        I.ev('setsize', 'set_size', c.obj, (I.argval(c.args[0]),), None, c.node)
        return 0
    pr.insert(0, (isfile("set_size"), setsize))
    return cfg, W


def states(thorough):
    """Per page (slot or None, status): every state the cache can be in, for 3 pages and 2 slots."""
    st = []
    opts = [(None, VALID), (None, UNINIT)] + [(s, x) for s in range(NS) for x in (VALID, UNINIT, DIRTY)]
    for a in itertools.product(opts, repeat=3):
        slots = [s for s, x in a if s is not None]
        if len(set(slots)) == len(slots):
            if thorough or slots == sorted(slots):
                st.append(a)
    return st


def put(I, W, this, pages, nblocks, frm=None, fid=0, size=None):
    """A vector whose pages are in the given states; fid distinguishes the blocks of two vectors."""
    f = lambda n: F(this, n, V)
    I.user.setdefault("mem", {})
    I.user.setdefault("disk", {})
    cache = ('O', 'cache' + str(fid or ''), 'u')
    sv = ('O', 'cachevec' + str(fid or ''), 'u')
    I.store[f('m_size')] = nblocks * EPB if size is None else size
    W.S.put(I, f('m_bids'), [(lambda k: lambda l: W.setbid(I, l, k))(100 * fid + b + 1) for b in range(nblocks)], "std::vector")
    W.S.put(I, f('m_page_status'), [x for s, x in pages], "std::vector")
    W.S.put(I, f('m_page_to_slot'), [-1 if s is None else s for s, x in pages], "std::vector")
    arr = ('O', 'slot_to_page' + str(fid or ''), 'u')
    SV = 'stxxl::simple_vector'
    I.store[F(f('m_slot_to_page'), 'm_array', SV)] = ('&', arr)
    I.store[F(f('m_slot_to_page'), 'm_size', SV)] = NS
    of = {s: p for p, (s, x) in enumerate(pages) if s is not None}
    for s in range(NS):
        I.store[('I', arr, s) if s else arr] = of.get(s, s)
    W.S.put(I, f('m_free_slots'), [s for s in range(NS) if s not in of], "std::queue")
    I.store[f('m_cache')] = ('&', sv)
    I.store[F(sv, 'm_array', SV)] = ('&', cache)
    I.store[F(sv, 'm_size', SV)] = NS * PS
    I.store[f('m_from')] = ('&', ('O', 'f')) if frm else 0
    I.store[f('m_bm')] = ('&', ('O', 'block_manager'))
    I.store[f('m_exported')] = 0
    want = {}
    for p, (s, x) in enumerate(pages):
        for b in range(p * PS, min((p + 1) * PS, nblocks)):
            k = key(100 * fid + b + 1)
            if x != UNINIT:
                t = "block %d of vector %d" % (b, fid)
                want[(p, b)] = t
                I.user["disk"][k] = t if x == VALID else "old data of block %d" % b
                if s is not None:
                    I.user["mem"][cell(cache, s * PS + b % PS)] = t
            elif s is not None:
                I.user["mem"][cell(cache, s * PS + b % PS)] = "garbage"
    return want


def cell(base, i):
    return ('I', base, i) if i else base


def ints(p, ls):
    """Concrete values at locations, None if some is not known."""
    out = []
    for l in ls:
        v = p.store.get(l)
        if isinstance(v, tuple) and not isconst(v):
            lo, hi = p.facts.bounds(v)
            v = lo if lo is not None and lo == hi else None
        if v is None or not isinstance(v, int):
            return None
        out.append(v)
    return out


def signed(v):
    return [x - (1 << 64) if x >= 1 << 63 else x for x in v]


class After:
    """The cache state at the end of a path."""

    def __init__(self, p, W, this, fid=0):
        self.p, self.ok = p, False
        f = lambda n: F(this, n, V)
        I, st = p.I, p.store
        e = [W.S.elems(I, f(n)) for n in ('m_bids', 'm_page_status', 'm_page_to_slot', 'm_free_slots')]
        if None in e:
            self.why = "a container is not followed"
            return
        self.bids = [(st.get(F(l, 'storage', 'stxxl::BID')), st.get(F(l, 'offset', 'stxxl::BID'))) for l in e[0]]
        self.status, self.slot, self.free = [ints(p, x) for x in e[1:]]
        a = st.get(F(f('m_slot_to_page'), 'm_array', 'stxxl::simple_vector'))
        self.page = None
        if a is not None and is_ptr(a):
            # the record of a free slot need not be initialized
            self.page = [(ints(p, [cell(I.deref(a), i)]) or [-99])[0] if self.slot is None or cell(I.deref(a), i) in st else -99 for i in range(NS)]
        c = st.get(f('m_cache'))
        self.cache = None
        if c is not None and is_ptr(c):
            a = st.get(F(c[1], 'm_array', 'stxxl::simple_vector'))
            self.cache = a[1] if a is not None and is_ptr(a) else None
        if None in (self.status, self.slot, self.free, self.page):
            self.why = "page state not determined"
            return
        self.slot, self.page = signed(self.slot), signed(self.page)
        self.ok = True

    def problems(self, want, gone=()):
        """(rule, text) for everything wrong with the state: want = {(page, block): content}."""
        mem, disk = self.p.I.user.setdefault("mem", {}), self.p.I.user.setdefault("disk", {})
        n = len(self.slot)
        mapped = {}
        for p, s in enumerate(self.slot):
            if s < 0:
                continue
            if s >= NS:
                yield "slots", "page %d is in slot %d of %d" % (p, s, NS)
                return
            if s in mapped:
                yield "slots", "pages %d and %d share a cache slot" % (mapped[s], p)
            mapped[s] = p
            if s in self.free:
                yield "slots", "the slot of page %d counts as free" % p
            if self.page[s] != p:
                yield "slots", "the slot of page %d is recorded for page %d" % (p, self.page[s])
        for s in range(NS):
            if self.free.count(s) > 1:
                yield "slots", "slot %d is free twice" % s
            if s not in mapped and s not in self.free:
                yield "slots", "slot %d is lost" % s
        if len(self.status) < len(self.slot):
            yield "slots", "fewer page states than pages"
            return
        last = -(-len(self.bids) // PS)
        for p in range(last, n):
            if self.slot[p] >= 0:
                yield "slots", "page %d is cached but the vector has only %d pages" % (p, last)
        for p in range(n):
            if self.slot[p] < 0 and self.status[p] & DIRTY:
                yield "write-back", "page %d is marked modified but not cached" % p
        for (p, b), t in sorted(want.items()):
            if p >= n or b >= len(self.bids):
                yield "write-back", "block %d is gone" % b
                continue
            k = self.bids[b]
            if self.status[p] == UNINIT:
                yield "write-back", "page %d counts as never written" % p
                continue
            if self.slot[p] >= 0:
                m = mem.get(cell(self.cache, self.slot[p] * PS + b % PS)) if self.cache else None
                if m != t:
                    yield "stale", "the cache shows %s in place of %s" % (m, t)
                if not self.status[p] & DIRTY and disk.get(k) != t:
                    yield "write-back", "the modified page %d counts as unmodified" % p
            elif disk.get(k) != t:
                yield "write-back", "%s is lost: the disk holds %s" % (t, disk.get(k))


def describe(pages, nb):
    def one(s, x):
        return ("slot %d" % s if s is not None else "on disk") + (" modified" if x == DIRTY else " never written" if x == UNINIT else "")
    return "%d blocks, pages: %s" % (nb, "; ".join(one(*x) for x in pages))


R = ("write-back", "stale", "slots")


def transfers(J, p, desc):
    for e in p.trace:
        if e.k == 'io' and e.a[2]:
            J.bad("stale", "starts a %s of a cache block whose previous transfer is still in progress (%s)" % (e.n, desc))
    for r in p.I.user.get("req", {}):
        if r not in p.I.user.get("done", ()):
            J.bad("stale", "returns while a transfer of the cache is still in progress (%s)" % desc)


def access(ctx, P, M, name):
    """element / const_element: from every cache state, for every page, block and offset."""
    for d in [x for x in M.get(name, []) if P_is_index(x)]:
        J = Judge(ctx, R + ("lru", "clean"), d)
        for pages in states(ctx.thorough):
            for nb in (6, 5):
                for pg in range(3):
                    for b1, off in ((0, 0), (1, EPB - 1)) if ctx.thorough else ((0, 0),) if pg == 1 else ((1, 7),):
                        if pg * PS + b1 >= nb:
                            b1 = 0
                        cfg, W = config(P)
                        I = ctx.interp(P, cfg)
                        desc = "%s; access to page %d" % (describe(pages, nb), pg)

                        def setup(I):
                            I.user["want"] = put(I, W, THIS, pages, nb)
                            D = 'stxxl::double_blocked_index'
                            ix = ('O', 'index')
                            for n, v in (('pos', (pg * PS + b1) * EPB + off), ('block2', pg), ('block1', b1), ('offset', off)):
                                I.store[F(ix, n, D)] = v
                        for p in J.paths(I, desc, setup=setup, args=[('&', ('O', 'index'))], this=THIS):
                            if p.out == 'throw':
                                J.bad("slots", "throws (%s)" % desc)
                                continue
                            a = After(p, W, THIS)
                            if not a.ok:
                                J.open("slots", "%s (%s)" % (a.why, desc))
                                continue
                            for r, t in a.problems(p.I.user["want"]):
                                J.bad(r, "%s (%s)" % (t, desc))
                            transfers(J, p, desc)
                            s = a.slot[pg]
                            if s < 0:
                                J.bad("slots", "the accessed page is not cached (%s)" % desc)
                                continue
                            if not any(e.k == 'hit' and e.a == (s,) for e in p.trace):
                                J.bad("lru", "an access does not count as use of its page (%s)" % desc)
                            for q in range(3):
                                if a.status[q] & DIRTY and pages[q][1] != DIRTY and (q != pg or name == "const_element"):
                                    J.bad("clean", "reading marks page %d modified (%s)" % (q, desc))
                            for e in p.trace:
                                if e.k == 'io' and e.n == 'write' and not any(e.a[0] == key(q * PS + x + 1) for q in range(3) for x in range(PS) if pages[q][1] == DIRTY):
                                    J.bad("clean", "writes a page that was not modified (%s)" % desc)
                            if name == "element" and not a.status[pg] & DIRTY:
                                J.bad("write-back", "a page handed out for writing is not marked modified (%s)" % desc)
                            v = p.val
                            l = p.I.deref(v) if v is not None and not (isinstance(v, tuple) and v and v[0] == 'obj') else None
                            w = cell(a.cache, s * PS + b1)
                            got = elempos(l)
                            if got is None:
                                J.open("stale", "the reference handed out is not determined (%s)" % desc)
                            elif got != (w, off):
                                J.bad("stale", "hands out element %s of %s instead of element %d of %s (%s)" % (got[1], dom.showloc(got[0]), off, dom.showloc(w), desc))
        J.done()


def elempos(l):
    """(block location, element index) of an element location of a typed_block."""
    if l is None:
        return None
    i = 0
    if l[0] == 'I':
        i, l = l[2], l[1]
    if l[0] == 'F' and l[2] == 'elem':
        b = l[1]
        while b[0] == 'F':
            b = b[1]
        return b, i
    return None


def P_is_index(d):
    t = d.tu.types[d.params[0][2]]
    return t["k"] == "ref"


def op(ctx, P, M, name):
    """Operations on the whole vector, from every cache state: (arguments, what must hold afterwards)."""
    for d in M.get(name, []):
        if name == "vector" and not d.params:
            continue
        J = Judge(ctx, R + ("capacity",), d)
        for pages in states(ctx.thorough):
            for nb in (6, 5):
                for frm in (False, True):
                    for arg in cases(name, d, nb, frm):
                        one_op(ctx, P, d, J, name, pages, nb, frm, arg)
        J.done()


def cases(name, d, nb, frm):
    if name == "_resize":
        return [n for n in (0, 1, EPB * 2, EPB * 2 + 1, EPB * 4, EPB * 5 - 1)] + [nb * EPB, nb * EPB + 1, 8 * EPB + 1]
    if name == "_resize_shrink_capacity":
        return [0, 1, EPB * 2, EPB * 3 + 5, EPB * 4, nb * EPB, 8 * EPB]
    if name == "reserve":
        return [0, nb * EPB, nb * EPB + 1, 7 * EPB, 9 * EPB]
    if name == "page_externally_updated":
        return [0, 1, 2]
    if frm and name in ("flush", "deallocate_page_cache"):
        return []
    return [None]


def one_op(ctx, P, d, J, name, pages, nb, frm, arg):
    if name == "page_externally_updated" and pages[arg][1] == DIRTY:
        return
    cfg, W = config(P)
    I = ctx.interp(P, cfg)
    desc = describe(pages, nb) + (", mapped to a file" if frm else "") + ("" if arg is None else "; argument %s" % arg)
    size = nb * EPB - 3
    if name == "_resize_shrink_capacity" and not any(x == DIRTY for s, x in pages) and nb == 5:
        size = nb * EPB

    def setup(I):
        I.user["want"] = put(I, W, THIS, pages, nb, frm, 0, size)
        if name == "reserve" or name.startswith("_resize"):
            I.user["may_fail"] = True
        if name == "swap":
            I.user["want2"] = put(I, W, ('O', 'other'), ((1, DIRTY), (None, VALID)), 3, False, 1)
    args = [] if arg is None else [arg]
    if name == "swap":
        args = [('&', ('O', 'other'))]
    f = lambda n: F(THIS, n, V)
    for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
        st, u = p.store, p.I.user
        want = u["want"]
        transfers(J, p, desc)
        if name == "~vector":
            after_dtor(J, p, want, nb, frm, size, desc)
            continue
        a = After(p, W, THIS)
        if not a.ok:
            J.open("slots", "%s (%s)" % (a.why, desc))
            continue
        dele = [k for e in p.trace if e.k == 'delblocks' for k in e.a]
        news = [e for e in p.trace if e.k == 'newblocks' and e.n == 'new_blocks']
        keep = dict(want)
        n2, nb2 = size, nb
        if name.startswith("_resize") or name == "reserve":
            n2 = arg if name != "reserve" else size
            nb2 = -(-arg // EPB) if name == "_resize_shrink_capacity" else max(nb, -(-arg // EPB))
            for (pg, b) in list(keep):
                if b * EPB >= n2:
                    del keep[(pg, b)]
        if p.out == 'throw':
            if any(e.k == 'newblocks' and e.n == 'fail' for e in p.trace):
                keep, n2, nb2 = dict(want), size, nb
                desc2 = desc + ", no space for new blocks"
                if len(a.bids) != nb:
                    J.bad("capacity", "a failed growth changes the capacity (%s)" % desc2)
                    continue
                if st.get(f('m_size')) != size:
                    J.bad("capacity", "a failed growth changes the size (%s)" % desc2)
            else:
                J.bad("slots", "throws (%s)" % desc)
                continue
        if name == "clear":
            keep, n2, nb2 = {}, 0, 0
        if name == "swap":
            b = After(p, W, ('O', 'other'))
            if not b.ok:
                J.open("slots", "%s (%s)" % (b.why, desc))
                continue
            for r, t in b.problems(want):
                J.bad(r, "after swap: %s (%s)" % (t, desc))
            for r, t in a.problems(u["want2"]):
                J.bad(r, "after swap: %s (%s)" % (t, desc))
            if (st.get(f('m_from')) != 0, st.get(F(('O', 'other'), 'm_from', V)) != 0) != (False, frm):
                J.bad("capacity", "swap does not exchange the files (%s)" % desc)
            for x, y, n in ((a, 3 * EPB, 3), (b, size, nb)):
                if len(x.bids) != n or p.store.get(F(THIS if x is a else ('O', 'other'), 'm_size', V)) != y:
                    J.bad("capacity", "swap does not exchange the sizes (%s)" % desc)
            continue
        for r, t in a.problems(keep):
            J.bad(r, "%s (%s)" % (t, desc))
        if st.get(f('m_size')) != n2:
            J.bad("capacity", "the size becomes %s instead of %d (%s)" % (show(st.get(f('m_size'))), n2, desc))
        if len(a.bids) != nb2:
            J.bad("capacity", "%d blocks instead of %d (%s)" % (len(a.bids), nb2, desc))
            continue
        if len(a.status) < -(-nb2 // PS) or len(a.slot) < -(-nb2 // PS):
            J.bad("slots", "%d page states for %d blocks (%s)" % (len(a.status), nb2, desc))
            continue
        # blocks gained and lost
        if not frm:
            lost = [key(b + 1) for b in range(nb2, nb)]
            if sorted(map(str, dele)) != sorted(map(str, lost)):
                J.bad("capacity", "frees %d blocks, gives up %d (%s)" % (len(dele), len(lost), desc))
            got = [x for e in news for x in range(e.a[0], e.a[1])]
            if sorted(got) != list(range(nb, nb2)):
                J.bad("capacity", "allocates blocks %s instead of %s (%s)" % (got, list(range(nb, nb2)), desc))
            if any(e.a[2] != e.a[0] for e in news):
                J.bad("capacity", "allocates blocks from position %s of the allocation strategy for block %d (%s)" % (show(news[0].a[2]), news[0].a[0], desc))
        else:
            ss = [e.a[0] for e in p.trace if e.k == 'setsize']
            if dele or news:
                J.bad("capacity", "allocates or frees blocks of a file it was given (%s)" % desc)
            if nb2 != nb and name != "clear" and ss[-1:] != [nb2 * 4096]:
                J.bad("capacity", "the file is not resized to %d blocks (%s)" % (nb2, desc))
            for b in range(nb, nb2):
                if a.bids[b] != (('&', ('O', 'f')), b * 4096):
                    J.bad("capacity", "block %d is not placed at its offset in the file (%s)" % (b, desc))
        for pg in range(min(len(a.status), 3)):
            # whatever the vector keeps must be readable: a page that was never written may not claim content that does not exist
            if pages[pg][1] != UNINIT and (pg, pg * PS) in keep and a.status[pg] == UNINIT:
                J.bad("write-back", "page %d counts as never written (%s)" % (pg, desc))
        if name in ("flush", "deallocate_page_cache"):
            for (pg, b), t in want.items():
                if u["disk"].get(key(b + 1)) != t:
                    J.bad("write-back", "%s is not on disk after flush (%s)" % (t, desc))
        if name == "page_externally_updated" and a.slot[arg] >= 0:
            J.bad("stale", "an externally updated page stays in the cache (%s)" % desc)
        if name == "page_externally_updated" and a.status[arg] != VALID:
            J.bad("stale", "an externally updated page is not read from disk (%s)" % desc)
        if name == "deallocate_page_cache":
            if st.get(f('m_cache')) != 0:
                J.bad("slots", "the freed cache is still referred to (%s)" % desc)


def after_dtor(J, p, want, nb, frm, size, desc):
    dele = [k for e in p.trace if e.k == 'delblocks' for k in e.a]
    ss = [e.a[0] for e in p.trace if e.k == 'setsize']
    if not frm:
        if sorted(map(str, dele)) != sorted(str(key(b + 1)) for b in range(nb)):
            J.bad("capacity", "the destructor frees %d of %d blocks (%s)" % (len(dele), nb, desc))
    else:
        if dele:
            J.bad("capacity", "the destructor frees blocks of a file it was given (%s)" % desc)
        if ss != [(size // EPB) * 4096 + size % EPB * 4]:
            J.bad("capacity", "the destructor sets the file's size to %s for %d elements of 4 bytes (%s)" % (", ".join(map(show, ss)) or "nothing", size, desc))
        for (pg, b), t in want.items():
            if p.I.user["disk"].get(key(b + 1)) != t:
                J.bad("write-back", "%s is not in the file when the vector is destroyed (%s)" % (t, desc))
    i = next((i for i, e in enumerate(p.trace) if e.k == 'delblocks'), None)
    if i is not None and any(e.k == 'io' for e in p.trace[i:]):
        J.bad("write-back", "transfers blocks after freeing them (%s)" % desc)
    if not any(e.k == 'freed' and e.o == ('O', 'cachevec', 'u') for e in p.trace):
        J.bad("slots", "the destructor leaves the cache allocated (%s)" % desc)


def ctors(ctx, P, M):
    """Constructors: every block allocated, no page cached, all slots free."""
    for d in [x for x in M.get("vector", [])]:
        t = [d.tu.types[x[2]] for x in d.params]
        if not t:
            continue
        mode = "file" if t[0]["k"] == "ptr" else "copy" if t[0]["k"] == "ref" else "n"
        J = Judge(ctx, ("capacity", "slots"), d)
        for n in (0, 1, 7, EPB, EPB + 1, 4 * EPB, 5 * EPB - 1):
            for m in (0, 5, 4096) if mode == "file" else (None,):
                cfg, W = config(P)
                I = ctx.interp(P, cfg)
                desc = "%d elements" % n
                args = [n, NS]
                if mode == "file":
                    desc = "file of %d bytes" % (n * 4 + m) if m else "%d elements, in a file" % n
                    args = [('&', ('O', 'f')), -1 & (2 ** 64 - 1) if m else n, NS]
                    size = (n * 4 + m) // 4 if m else n
                    cfg.model_pred.insert(0, (lambda f: f["n"] == "size" and f["k"] == "method" and f.get("ct") == "stxxl::file", lambda I, c, b=n * 4 + m: b))
                elif mode == "copy":
                    args = [('&', ('O', 'other'))]
                    desc = "copy of %d elements" % n
                    size = n
                else:
                    size = n
                copies = []

                def copy(I, c):
                    ps = []
                    for x in c.args:
                        l = I.evloc(x)
                        D = 'stxxl::double_blocked_index'
                        its = [k for k in ("p_vector", "offset")]
                        q = [v for k, v in I.store.items() if k[0] == 'F' and k[2] == 'p_vector' and l in (k[1],)]
                        ps.append((q[0] if q else None, tuple(sorted((k[2], v) for k, v in I.store.items() if k[0] == 'F' and k[1][0] == 'F' and k[1][1] == l and not k[2].startswith('p_')))))
                    copies.append(ps)
                    I.ev('copy', 'copy', None, tuple(ps), None, c.node)
                    return 0
                cfg.models["std::copy"] = copy

                def setup(I):
                    if mode == "copy":
                        put(I, W, ('O', 'other'), ((0, DIRTY), (None, VALID), (1, VALID)), -(-n // EPB), False, 1, n)
                    I.user["may_fail"] = False
                for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
                    if p.out == 'throw':
                        J.bad("capacity", "throws (%s)" % desc)
                        continue
                    a = After(p, W, THIS)
                    if not a.ok:
                        J.open("slots", "%s (%s)" % (a.why, desc))
                        continue
                    nb = -(-size // EPB)
                    sz = p.store.get(F(THIS, 'm_size', V))
                    if sz != size:
                        J.bad("capacity", "constructs a vector of %s elements (%s)" % (show(sz), desc))
                    if len(a.bids) != nb or len(a.status) < -(-nb // PS) or len(a.slot) < -(-nb // PS):
                        J.bad("capacity", "%d blocks and %d pages (%s)" % (len(a.bids), len(a.status), desc))
                        continue
                    for r, tx in a.problems({}):
                        J.bad("slots", "%s (%s)" % (tx, desc))
                    want = VALID if mode == "file" else UNINIT
                    if any(x >= 0 for x in a.slot):
                        J.bad("slots", "a page of a new vector counts as cached (%s)" % desc)
                    if any(x != want for x in a.status[:-(-nb // PS)]):
                        J.bad("slots", "pages of a new vector are marked %s (%s)" % (a.status, desc))
                    if a.cache is None:
                        J.bad("slots", "no cache is allocated (%s)" % desc)
                    news = [x for e in p.trace if e.k == 'newblocks' for x in range(e.a[0], e.a[1])]
                    if mode == "file":
                        if news:
                            J.bad("capacity", "allocates blocks for a vector in a file (%s)" % desc)
                        if a.bids != [(('&', ('O', 'f')), i * 4096) for i in range(nb)]:
                            J.bad("capacity", "the blocks are not placed consecutively in the file (%s)" % desc)
                        ss = [e.a[0] for e in p.trace if e.k == 'setsize']
                        if ss and (not isinstance(ss[-1], int) or ss[-1] < nb * 4096):
                            J.bad("capacity", "the file is cut to %s bytes (%s)" % (show(ss[-1]), desc))
                        if p.store.get(F(THIS, 'm_from', V)) != ('&', ('O', 'f')):
                            J.bad("capacity", "does not keep the file (%s)" % desc)
                    else:
                        if sorted(news) != list(range(nb)):
                            J.bad("capacity", "allocates blocks %s of %d (%s)" % (news, nb, desc))
                        if p.store.get(F(THIS, 'm_from', V)) != 0:
                            J.bad("capacity", "does not own its blocks (%s)" % desc)
                    if mode == "copy" and not any(e.k == 'copy' for e in p.trace):
                        J.open("capacity", "the elements are not copied with std::copy")
        J.done()


def pagers(ctx, P):
    """lru_pager: after any sequence of hits, the page to evict is the one hit least recently."""
    for rec in [r for r in P.recs_by_ct.get("stxxl::lru_pager", []) if "<8>" in r.get("q", "")][:1]:
        M = methods(P, rec["q"])
        if not all(k in M for k in ("lru_pager", "hit", "kick")):
            return
        J = Judge(ctx, ("lru",), M["kick"][0])
        N = 3
        for hits in itertools.product(range(N), repeat=4 if ctx.thorough else 3):
            for swap in (False, True):
                cfg, W = config(P)
                for k in [k for k in cfg.models if k.startswith("stxxl::lru_pager::")]:
                    del cfg.models[k]
                I = ctx.interp(P, cfg)

                def body(I):
                    for o in (THIS, ('O', 'other')):
                        I.enter([x for x in M["lru_pager"] if x.params][0], o, [N])
                    o = ('O', 'other') if swap else THIS
                    for i, h in enumerate(hits):
                        if swap and "swap" in M and i == 1:
                            I.enter(M["swap"][0], THIS, [('&', o)])
                            o = THIS
                        I.enter(M["hit"][0], o, [h])
                    return I.enter(M["kick"][0], THIS, [])
                desc = "hits %s%s" % (",".join(map(str, hits)), ", swapped after the first" if swap else "")
                for p in J.paths(I, desc, body=body):
                    v = p.val
                    if not isinstance(v, int):
                        J.open("lru", "page to evict not determined (%s)" % desc)
                        continue
                    last = {x: i for i, x in enumerate(hits)}
                    want = min(last.get(x, -1) for x in range(N))
                    if v >= N or last.get(v, -1) != want:
                        J.bad("lru", "evicts page %d although another was used longer ago (%s)" % (v, desc))
        J.done()


def run(ctx):
    ctx.rule("clean", "Reading an element marks no page modified, and no page that was not modified is written")
    ctx.rule("lru", "The page to evict is the least recently used one, and always a page of the cache")
    ctx.rule("write-back", "A modified page is written to its blocks before its cache slot is reused or given up")
    ctx.rule("stale", "What an access sees is the last content of the addressed block, never another block's or an older one")
    ctx.rule("slots", "Cache slots, the pages in them and the list of free slots always agree")
    ctx.rule("capacity", "Blocks, size and capacity change together: every block given up is freed once, every block added is allocated, a failed growth changes nothing")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "cont.cpp")])
    M = methods(P, V + "<unsigned int, 2,")
    for n in ("element", "const_element"):
        ctx.sub("%s::%s" % (V, n), access, ctx, P, M, n)
    ctx.sub("stxxl::lru_pager", pagers, ctx, P)
    ctx.sub("%s::vector" % V, ctors, ctx, P, M)
    for n in ("flush", "~vector", "_resize", "_resize_shrink_capacity", "reserve", "page_externally_updated", "clear", "swap", "deallocate_page_cache"):
        ctx.sub("%s::%s" % (V, n), op, ctx, P, M, n)
