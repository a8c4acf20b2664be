"""C25: external stacks, queues, sequences and deques keep their elements in order."""
import itertools, os
import ai, dom, prog, seqmodel
from dom import isconst, show, is_ptr, add
from .util import *
from .c13 import World, Judge, key, READ, WRITE
from .c14 import methods

R = ("order", "blocks", "pending")
EB = 'stxxl::mng_local::element_block'
ALLOC = 50                # blocks allocated during an operation are numbered from here


def val(i):
    return ('s', 'v%d' % i)


class Elems(World):
    """Blocks as arrays of B elements; contents on disk by block number."""

    def __init__(self, cfg, P, B):
        World.__init__(self, cfg, P)
        self.B = B
        m = cfg.models
        m["stxxl::block_manager::new_blocks"] = self.new_blocks
        m["stxxl::block_manager::new_block"] = self.new_block
        m["stxxl::block_manager::delete_blocks"] = self.delete_blocks
        m["stxxl::block_manager::delete_block"] = self.delete_block
        m["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'block_manager'))
        m["std::copy"] = self.copy
        m["std::copy_backward"] = self.copy
        m["stxxl::RC::RC"] = lambda I, c: 0          # the order of the disks is C05's

    # ---- memory
    def el(self, b, i):
        e = F(b, 'elem', EB)
        return ('I', e, i) if i else e

    def eptr(self, b, i):
        e = ('&', F(b, 'elem', EB))
        return add(e, i) if i else e

    def get(self, I, b):
        return tuple(I.store.get(self.el(b, i)) for i in range(self.B))

    def set(self, I, b, vs):
        for i in range(self.B):
            I.store[self.el(b, i)] = vs[i] if i < len(vs) else ('s', 'unset')

    def where(self, I, p):
        """(block, index) a pointer to an element refers to."""
        l = I.deref(p)
        i = 0
        if l[0] == 'I' and l[1][0] == 'F' and l[1][2] == 'elem':
            l, i = l[1], l[2]
        if l[0] == 'F' and l[2] == 'elem' and isconst(i):
            return l[1], i
        return None

    def num(self, I, l):
        k = self.bidof(I, l)
        if k[0] != ('&', ('O', 'f')) or not isconst(k[1]):
            raise ai.PathEnd("block id not determined")
        return k[1] // 4096

    # ---- transfers
    def start(self, I, b, n, op):
        u = I.user
        live = u["live"]
        if n not in live:
            u.setdefault("races", []).append(("blocks", "%s of a block that is not allocated" % op))
        for r2, (b2, k2, ty) in u.get("req", {}).items():
            if r2 in u.get("done", ()):
                continue
            if k2 == key(n) and (ty == WRITE or op == "write"):
                u.setdefault("races", []).append(("pending", "%s of a block on disk while a %s of it is in progress" % (op, "write" if ty == WRITE else "read")))
            if b2 == b and (ty == READ or op == "read"):
                u.setdefault("races", []).append(("pending", "%s of a buffer that is being %s" % (op, "written" if ty == WRITE else "read into")))
        r = self.newreq(I, b, key(n), READ if op == "read" else WRITE)
        if op == "write":
            u["disk"][n] = self.get(I, b)
            u.setdefault("snap", {})[r] = u["disk"][n]
        else:
            self.set(I, b, [('s', 'being read')] * self.B)
            u.setdefault("src", {})[r] = u["disk"].get(n, (('s', 'never written'),) * self.B)
        return r

    def io(self, I, c, op):
        n = self.num(I, I.evloc(c.args[0]))
        r = self.start(I, c.obj, n, op)
        I.ev('io', op, c.obj, (n, r), None, c.node)
        t = I.tmploc()
        I.store[F(t, 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
        return ('obj', t)

    def fin(self, I, r):
        u = I.user
        if r in u["req"] and r not in u.get("done", ()):
            b, k, ty = u["req"][r]
            if ty == READ:
                self.set(I, b, u["src"][r])
            elif r in u.get("snap", {}) and self.get(I, b) != u["snap"][r]:
                u.setdefault("races", []).append(("pending", "a buffer is changed while it is being written"))
        World.fin(self, I, r)

    def pend(self, I):
        return [r for r in I.user.get("req", {}) if r not in I.user.get("done", ())]

    # ---- block manager
    def fresh(self, I, l):
        n = I.user["nbid"] = I.user.get("nbid", ALLOC) + 1
        self.setbid(I, l, n)
        I.user["live"].add(n)
        return n

    def rangeof(self, I, a, b):
        na, nb = self.S.norm(I, a), self.S.norm(I, b)
        if na is None or nb is None:
            raise ai.PathEnd("range of blocks not determined")
        return self.S.elems(I, na[1])[self.S.pos(I, na):self.S.pos(I, nb)]

    def new_blocks(self, I, c):
        for l in self.rangeof(I, c.args[1], c.args[2]):
            n = self.fresh(I, l)
            I.ev('newblock', 'new_blocks', l, (n,), None, c.node)
        return 0

    def new_block(self, I, c):
        n = self.fresh(I, I.evloc(c.args[1]))
        I.ev('newblock', 'new_block', None, (n,), None, c.node)
        return 0

    def free(self, I, n, c):
        u = I.user
        if n not in u["live"]:
            u.setdefault("races", []).append(("blocks", "frees a block that is not allocated"))
        for r in self.pend(I):
            if u["req"][r][1] == key(n) and u["req"][r][2] == WRITE:
                u.setdefault("races", []).append(("pending", "frees a block while it is being written"))
        u["live"].discard(n)
        I.ev('delblocks', 'delete_block', None, (n,), None, c.node)

    def delete_blocks(self, I, c):
        for l in self.rangeof(I, c.args[0], c.args[1]):
            self.free(I, self.num(I, l), c)
        return 0

    def delete_block(self, I, c):
        self.free(I, self.num(I, I.evloc(c.args[0])), c)
        return 0

    # ---- std::copy on elements in memory
    def copy(self, I, c):
        v = [I.argval(a) for a in c.args]
        w = [self.where(I, x) if x is not None else None for x in v]
        if None in w or w[0][0] != w[1][0]:
            return NotImplemented
        n = w[1][1] - w[0][1]
        back = c.f["n"] == "copy_backward"
        d = w[2][1] - (n if back else 0)
        if n < 0 or w[0][1] < 0 or w[1][1] > self.B or d < 0 or d + n > self.B:
            I.user.setdefault("misuse", []).append((c.node.get("l"), "copies outside a block", I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        for k in (range(n - 1, -1, -1) if back else range(n)):
            I.store[self.el(w[2][0], d + k)] = I.store.get(self.el(w[0][0], w[0][1] + k))
        return self.eptr(w[2][0], d if back else d + n)


class Pool:
    """A read/write pool (its own rules are C13's): hands out fresh blocks, takes blocks back, writes and reads."""

    def __init__(self, cfg, W):
        self.W = W
        m = cfg.models
        p = "stxxl::read_write_pool::"
        m[p + "steal"] = self.steal
        m[p + "add"] = self.add
        m[p + "write"] = self.write
        m[p + "read"] = self.read
        m[p + "hint"] = self.hint
        m[p + "invalidate"] = self.invalidate
        m[p + "size_write"] = lambda I, c: 4
        m[p + "size_prefetch"] = lambda I, c: I.user.get("npref", 2)
        m[p + "read_write_pool"] = lambda I, c: 0
        m[p + "~read_write_pool"] = self.destroy

    def steal(self, I, c):
        n = I.user["nsteal"] = I.user.get("nsteal", 0) + 1
        b = ('O', 'pool%d' % n, 'u')
        self.W.set(I, b, [('s', 'rubbish')] * self.W.B)
        I.user["own"].add(b)
        I.ev('steal', 'steal', b, (), None, c.node)
        return ('&', b)

    def give(self, I, a, c, what):
        l = I.evloc(a)
        v = I.load(l)
        b = I.deref(v) if is_ptr(v) else None
        if b not in I.user["own"]:
            I.user.setdefault("races", []).append(("blocks", "%s the pool a block it does not have" % what))
        I.user["own"].discard(b)
        I.put(l, 0, c.node)
        return b

    def add(self, I, c):
        self.give(I, c.args[0], c, "gives back to")
        return 0

    def res(self, I, r):
        t = I.tmploc()
        I.store[F(t, 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
        return ('obj', t)

    def write(self, I, c):
        n = self.W.num(I, I.evloc(c.args[1]))
        b = self.give(I, c.args[0], c, "gives to")
        if b is None:
            raise ai.PathEnd("block not determined")
        r = self.W.newreq(I, b, key(n), WRITE, done=True)
        if n not in I.user["live"]:
            I.user.setdefault("races", []).append(("blocks", "writes a block that is not allocated"))
        I.user["disk"][n] = self.W.get(I, b)
        I.ev('io', 'write', b, (n, r), None, c.node)
        return self.res(I, r)

    def read(self, I, c):
        n = self.W.num(I, I.evloc(c.args[1]))
        l = I.evloc(c.args[0])
        v = I.load(l)
        b = I.deref(v) if is_ptr(v) else None
        if b not in I.user["own"]:
            I.user.setdefault("races", []).append(("blocks", "reads into a block it does not have"))
            raise ai.PathEnd("block not determined")
        # the pool may exchange the block for one it holds
        I.user["own"].discard(b)
        k = I.user["nsteal"] = I.user.get("nsteal", 0) + 1
        b = ('O', 'pool%d' % k, 'u')
        I.user["own"].add(b)
        r = self.W.start(I, b, n, "read")
        I.put(l, ('&', b), c.node)
        I.ev('io', 'read', b, (n, r), None, c.node)
        return self.res(I, r)

    def hint(self, I, c):
        if self.W.num(I, I.evloc(c.args[0])) not in I.user["live"]:
            I.user.setdefault("races", []).append(("blocks", "prefetches a block that is not allocated"))
        I.user.setdefault("hints", set()).add(self.W.num(I, I.evloc(c.args[0])))
        return 1

    def invalidate(self, I, c):
        I.user.setdefault("hints", set()).discard(self.W.num(I, I.evloc(c.args[0])))
        return 1

    def destroy(self, I, c):
        I.ev('pooldtor', 'pool', c.obj, (), None, c.node)
        return 0


def races(J, p, desc):
    for r, t in p.I.user.get("races", []):
        J.bad(r, "%s (%s)" % (t, desc))


def ivalue(p, l):
    v = p.store.get(l)
    if v is not None and not isconst(v):
        lo, hi = p.facts.bounds(v)
        v = lo if lo is not None and lo == hi else v
    return v if isconst(v) else None


# ------------------------------------------------------------------ stacks
ST = "stxxl::"
BPP, SB = 2, 2            # blocks per page, elements per block
PG = BPP * SB


def cacheblock(i):
    b = ('O', 'cache', 'u')
    return ('I', b, i) if i else b


def page(i):
    return [cacheblock(BPP * i + j) for j in range(BPP)]


def setpage(I, W, i, vs):
    for j, b in enumerate(page(i)):
        W.set(I, b, vs[j * SB:(j + 1) * SB])


def getpage(p, W, first):
    """Contents of the page of memory starting at block location first."""
    out = []
    for j in range(BPP):
        b = cacheblock(j) if first == cacheblock(0) else cacheblock(BPP + j)
        out += list(W.get(p.I, b))
    return out


class Normal:
    cls = "normal_stack"

    def states(self):
        for n in range(0, 3):
            for c in range(1, 2 * PG + 1):
                for o in (0, 1):
                    yield n, c, o
        yield 0, 0, 0
        yield 0, 0, 1

    def describe(self, s):
        return "%d pages on disk, %d elements in memory%s" % (s[0], s[1], ", buffers exchanged" if s[2] else "")

    def size(self, s):
        return s[0] * PG + s[1]

    def put(self, I, W, this, s, tag=0):
        n, c, o = s
        f = lambda x: F(this, x, ST + self.cls)
        vs = [val(100 * tag + i) for i in range(n * PG + c)]
        diskpages(I, W, f('bids'), vs[:n * PG], tag)
        mem = vs[n * PG:]
        setpage(I, W, o, mem[:PG])
        setpage(I, W, 1 - o, mem[PG:])
        I.store[f('m_size')] = len(vs)
        I.store[f('cache_offset')] = c
        I.store[f('back_page')] = ('&', page(o)[0])
        I.store[f('front_page')] = ('&', page(1 - o)[0])
        b = page(o if c <= PG else 1 - o)
        i = (c - 1) % PG if c else 0
        I.store[f('current_element')] = W.eptr(b[i // SB], i % SB)
        cachevec(I, f('cache'))
        return vs

    def get(self, p, W, this, J, desc):
        f = lambda x: F(this, x, ST + self.cls)
        c = ivalue(p, f('cache_offset'))
        bids = W.S.elems(p.I, f('bids'))
        pg = {x: p.I.deref(p.store[f(x)]) if p.store.get(f(x)) is not None else None for x in ('back_page', 'front_page')}
        if c is None or bids is None or any(x not in (page(0)[0], page(1)[0]) for x in pg.values()):
            return None
        if pg['back_page'] == pg['front_page']:
            J.bad("order", "both halves of the buffer are the same (%s)" % desc)
            return None
        for r in W.pend(p.I):
            J.bad("pending", "returns while its buffer is still being read or written (%s)" % desc)
        out = []
        for l in bids:
            out += list(p.I.user["disk"].get(W.num(p.I, l), (('s', 'never written'),) * SB))
        if not 0 <= c <= 2 * PG:
            J.bad("order", "offset %d outside the buffer (%s)" % (c, desc))
            return None
        mem = getpage(p, W, pg['back_page']) + getpage(p, W, pg['front_page'])
        return out + mem[:c], [W.num(p.I, l) for l in bids], (c, len(bids))


class GrowShrink(Normal):
    cls = "grow_shrink_stack"

    def states(self):
        for n in range(0, 4):
            for c in range(1, PG + 1):
                for o in (0, 1):
                    for rq in ((0, 0), (0, 2)) if n else (None, (1, 1)):
                        for ty in (READ, WRITE) if n else (WRITE,):
                            yield n, c, o, rq, ty
        yield 0, 0, 0, None, WRITE
        yield 0, 0, 1, (1, 1), WRITE

    def describe(self, s):
        r = "no transfer" if s[3] is None else " and ".join("finished" if x == 1 else "%s in progress" % ("read" if s[4] == READ else "write") if x == 0 else "%s finished" % ("read" if s[4] == READ else "write") for x in s[3])
        return "%d pages on disk, %d elements in memory%s, second buffer: %s" % (s[0], s[1], ", buffers exchanged" if s[2] else "", r)

    def put(self, I, W, this, s, tag=0):
        n, c, o, rq, ty = s
        f = lambda x: F(this, x, ST + self.cls)
        vs = [val(100 * tag + i) for i in range(n * PG + c)]
        nums = diskpages(I, W, f('bids'), vs[:n * PG], tag)
        setpage(I, W, o, vs[n * PG:])
        setpage(I, W, 1 - o, vs[(n - 1) * PG:n * PG] if n else [])
        a = ('O', 'requests', 'u')
        for i in range(BPP):
            l = ('I', a, i) if i else a
            v = 0
            if rq is not None:
                b = page(1 - o)[i]
                k = nums[-BPP + i] if n else 40 + i
                v = ('&', self.request(I, W, b, k, ty, rq[i] != 0))
            I.store[F(l, 'm_ptr', 'stxxl::counting_ptr')] = v
        I.store[F(f('requests'), 'm_array', 'stxxl::simple_vector')] = ('&', a)
        I.store[F(f('requests'), 'm_size', 'stxxl::simple_vector')] = BPP
        I.store[f('m_size')] = len(vs)
        I.store[f('cache_offset')] = c
        I.store[f('cache_buffers')] = ('&', page(o)[0])
        I.store[f('overlap_buffers')] = ('&', page(1 - o)[0])
        i = (c - 1) % PG if c else 0
        I.store[f('current_element')] = W.eptr(page(o)[i // SB], i % SB)
        cachevec(I, f('cache'))
        return vs

    def request(self, I, W, b, k, ty, done):
        r = W.newreq(I, b, key(k), ty, done)
        if not done:
            if ty == READ:
                I.user.setdefault("src", {})[r] = W.get(I, b)
                W.set(I, b, [('s', 'being read')] * SB)
            else:
                I.user.setdefault("snap", {})[r] = W.get(I, b)
        return r

    def get(self, p, W, this, J, desc):
        f = lambda x: F(this, x, ST + self.cls)
        I = p.I
        c = ivalue(p, f('cache_offset'))
        bids = W.S.elems(I, f('bids'))
        pg = {x: I.deref(p.store[f(x)]) if p.store.get(f(x)) is not None else None for x in ('cache_buffers', 'overlap_buffers')}
        if c is None or bids is None or any(x not in (page(0)[0], page(1)[0]) for x in pg.values()):
            return None
        if pg['cache_buffers'] == pg['overlap_buffers']:
            J.bad("order", "both buffers are the same (%s)" % desc)
            return None
        nums = [W.num(I, l) for l in bids]
        over = page(0) if pg['overlap_buffers'] == page(0)[0] else page(1)
        cur = page(1) if over == page(0) else page(0)
        u = I.user
        a = p.store.get(F(f('requests'), 'm_array', 'stxxl::simple_vector'))
        a = I.deref(a)
        rs = [p.store.get(F(('I', a, i) if i else a, 'm_ptr', 'stxxl::counting_ptr')) for i in range(BPP)]
        rs = [I.deref(x) if is_ptr(x) else None for x in rs]
        if (rs[0] is None) != (rs[1] is None):
            J.bad("pending", "only part of a page's transfers is recorded (%s)" % desc)
        for r in W.pend(I):
            b, k, ty = u["req"][r]
            if b in cur:
                J.bad("pending", "the buffer in use is still being read or written (%s)" % desc)
            elif r not in rs:
                J.bad("pending", "a transfer in progress is forgotten (%s)" % desc)
        # the second buffer holds the last page, once its transfers are finished
        if nums:
            for i, b in enumerate(over):
                r = [r for r in W.pend(I) if u["req"][r][0] == b]
                have = W.get(I, b) if not r or u["req"][r[0]][2] == WRITE else u["src"][r[0]]
                if have != u["disk"].get(nums[len(nums) - BPP + i]):
                    J.bad("order", "the second buffer does not hold the last page on disk (%s)" % desc)
        out = []
        for n in nums:
            out += list(u["disk"].get(n, (('s', 'never written'),) * SB))
        if not 0 <= c <= PG:
            J.bad("order", "offset %d outside the buffer (%s)" % (c, desc))
            return None
        return out + getpage(p, W, pg['cache_buffers'])[:c], nums, (c, len(nums))


def diskpages(I, W, loc, vs, tag):
    nums = [1 + i + 20 * tag for i in range(len(vs) // W.B)]
    for i, n in enumerate(nums):
        I.user["disk"][n] = tuple(vs[i * W.B:(i + 1) * W.B])
        I.user["live"].add(n)
    W.S.put(I, loc, [lambda l, n=n: W.setbid(I, l, n) for n in nums], "std::vector")
    return nums


def cachevec(I, loc):
    I.store[F(loc, 'm_array', 'stxxl::simple_vector')] = ('&', ('O', 'cache', 'u'))
    I.store[F(loc, 'm_size', 'stxxl::simple_vector')] = 2 * BPP


def start(I):
    I.user["disk"], I.user["live"], I.user["own"] = {}, set(), set()


def stack_op(ctx, P, M, K, name):
    for d in M.get(name, []):
        J = Judge(ctx, R, d)
        for s in K.states():
            n = K.size(s)
            if name in ("pop", "top") and n == 0:
                continue
            cfg = ai.base_config()
            W = Elems(cfg, P, SB)
            cfg.array_ctor = True
            I = ctx.interp(P, cfg)
            desc = K.describe(s)
            arg = ('O', 'value')
            new = ('s', 'pushed')

            def setup(I):
                start(I)
                I.user["vs"] = K.put(I, W, THIS, s)
                I.store[arg] = new
            for p in J.paths(I, desc, setup=setup, args=[('&', arg)] if name == "push" else [], this=THIS):
                if p.out == 'throw':
                    continue
                races(J, p, desc)
                vs = p.I.user["vs"]
                u = p.I.user
                if name == "~" + K.cls:
                    for r in W.pend(p.I):
                        J.bad("pending", "the destructor frees a buffer that is being read or written (%s)" % desc)
                    if u["live"]:
                        J.bad("blocks", "the destructor keeps blocks (%s)" % desc)
                    continue
                if name in ("size", "empty"):
                    w = n if name == "size" else int(n == 0)
                    v = p.val
                    if v is not None and not isconst(v):
                        lo, hi = p.facts.bounds(v)
                        v = lo if lo == hi else None
                    if v is None:
                        J.open("order", "result not determined (%s)" % desc)
                    elif v != w:
                        J.bad("order", "%s() is %s, not %s (%s)" % (name, v, w, desc))
                    continue
                g = K.get(p, W, THIS, J, desc)
                if g is None:
                    J.open("order", "the stack's state is not determined (%s)" % desc)
                    continue
                have, nums, (c, nb) = g
                want = vs + [new] if name == "push" else vs[:-1] if name == "pop" else vs
                f = lambda x: F(THIS, x, ST + K.cls)
                ms = ivalue(p, f('m_size'))
                if ms is not None and ms != len(want):
                    J.bad("order", "counts %d elements instead of %d (%s)" % (ms, len(want), desc))
                if have != want:
                    i = [i for i in range(max(len(have), len(want))) if i >= len(have) or i >= len(want) or have[i] != want[i]][0]
                    J.bad("order", "element %d becomes %s instead of %s (%s)" % (i + 1, show(have[i]) if i < len(have) else "missing", show(want[i]) if i < len(want) else "none", desc))
                if set(nums) != u["live"] or len(set(nums)) != len(nums):
                    J.bad("blocks", "the blocks recorded are not the ones allocated (%s)" % desc)
                if len(nums) % BPP or not c and nums:
                    J.bad("order", "no element left in memory or half a page on disk (%s)" % desc)
                if want:
                    t = p.val if name == "top" else p.store.get(f('current_element'))
                    t = W.where(p.I, t) if t is not None else None
                    if t is None:
                        J.open("order", "top element not determined (%s)" % desc)
                    elif p.store.get(W.el(*t)) != want[-1] or (name != "top") and not K.intop(p, W, t, c):
                        J.bad("order", "the top element is not the last one (%s)" % desc)
        J.done()


def intop(self, p, W, t, c):
    """The top element is the one at offset c - 1 of the buffer."""
    f = lambda x: F(THIS, x, ST + self.cls)
    first = p.I.deref(p.store[f('back_page' if self.cls == "normal_stack" else 'cache_buffers')])
    k = 0 if first == page(0)[0] else 1
    i = c - 1
    if i >= PG:
        k, i = 1 - k, i - PG
    return t == (page(k)[i // SB], i % SB)


Normal.intop = intop



# ------------------------------------------------------------------ containers on a block pool
QB = 3                    # elements per block


class Linear:
    """Common to stack2, queue and sequence: what an operation does to the list of elements."""
    B = QB

    def check(self, ctx, P, M, name, what, nargs, result):
        """what(list, new) -> list after; result: None or f(list) -> the element referred to, or ('=', value)"""
        for d in M.get(name, []):
            J = Judge(ctx, R, d)
            for s in self.states(ctx.thorough):
                if result is not None and result[0] == 'el' and self.size(s) == 0 or name.startswith("pop") and self.size(s) == 0:
                    continue
                self.one(ctx, P, d, J, name, s, what, nargs, result)
            J.done()

    def interp(self, ctx, P):
        cfg = ai.base_config()
        cfg.unroll = 8
        cfg.array_ctor = True
        W = Elems(cfg, P, self.B)
        W.pool = Pool(cfg, W)
        return ctx.interp(P, cfg), W

    def one(self, ctx, P, d, J, name, s, what, nargs, result):
        I, W = self.interp(ctx, P)
        desc = self.describe(s)
        arg = ('O', 'value')
        new = ('s', 'pushed')
        args = {0: [], 1: [('&', arg)]}[nargs]

        def setup(I):
            start(I)
            I.user["vs"] = self.put(I, W, THIS, s)
            I.store[arg] = new
        kw = dict(setup=setup, args=args, this=THIS)
        for p in J.paths(I, desc, **kw):
            if p.out == 'throw':
                continue
            races(J, p, desc)
            vs, u = p.I.user["vs"], p.I.user
            if name.startswith("~"):
                self.destroyed(J, p, W, desc)
                continue
            if result is not None and result[0] == '=':
                v = p.val
                if v is not None and not isconst(v):
                    lo, hi = p.facts.bounds(v)
                    v = lo if lo == hi else None
                if v is None:
                    J.open("order", "result not determined (%s)" % desc)
                elif v != result[1](vs):
                    J.bad("order", "%s() is %s, not %s (%s)" % (name, v, result[1](vs), desc))
                continue
            if result is not None:
                t = W.where(p.I, p.val) if p.val is not None else None
                if t is None:
                    J.open("order", "result not determined (%s)" % desc)
                elif p.store.get(W.el(*t)) != result[1](vs):
                    J.bad("order", "%s() is %s, not %s (%s)" % (name, show(p.store.get(W.el(*t))), show(result[1](vs)), desc))
                continue
            self.after(J, p, W, THIS, what(vs, new), desc)
        J.done

    def after(self, J, p, W, this, want, desc):
        u = p.I.user
        g = self.get(p, W, this, J, desc)
        if g is None:
            J.open("order", "the container's state is not determined (%s)" % desc)
            return
        have, nums, held = g
        if have != want:
            i = [i for i in range(max(len(have), len(want))) if i >= len(have) or i >= len(want) or have[i] != want[i]][0]
            J.bad("order", "element %d becomes %s instead of %s (%s)" % (i + 1, show(have[i]) if i < len(have) else "missing", show(want[i]) if i < len(want) else "none", desc))
        if set(nums) != u["live"] or len(set(nums)) != len(nums):
            J.bad("blocks", "the blocks recorded are not the ones allocated (%s)" % desc)
        if set(held) != u["own"]:
            J.bad("blocks", "a buffer is lost or used without being its own (%s)" % desc)
        for r in W.pend(p.I):
            J.bad("pending", "returns while its buffer is still being read (%s)" % desc)

    def destroyed(self, J, p, W, desc):
        u = p.I.user
        if u["live"]:
            J.bad("blocks", "the destructor keeps blocks (%s)" % desc)
        freed = [e.o for e in p.trace if e.k == 'freed']
        left = [b for b in u["own"] if b not in freed]
        if left:
            J.bad("blocks", "the destructor loses a buffer (%s)" % desc)
        if [b for b in freed if freed.count(b) > 1]:
            J.bad("blocks", "the destructor frees a buffer twice (%s)" % desc)


def bidq(I, W, loc, n, vs, ct):
    nums = [1 + i for i in range(n)]
    for i, k in enumerate(nums):
        I.user["disk"][k] = tuple(vs[i * W.B:(i + 1) * W.B])
        I.user["live"].add(k)
    W.S.put(I, loc, [lambda l, k=k: W.setbid(I, l, k) for k in nums], ct)


def pointer(p, l):
    v = p.store.get(l)
    return p.I.deref(v) if v is not None and (is_ptr(v) or not isconst(v)) else None


class Stack2(Linear):
    cls = "stxxl::grow_shrink_stack2"

    def states(self, thorough):
        for n in range(0, 4):
            for c in range(1 if n else 0, QB + 1):
                for a in (0, 1, 5):
                    yield n, c, a

    def size(self, s):
        return s[0] * QB + s[1]

    def describe(self, s):
        return "%d blocks on disk, %d elements in memory, prefetching %d" % s

    def put(self, I, W, this, s):
        n, c, a = s
        f = lambda x: F(this, x, self.cls)
        vs = [val(i) for i in range(n * QB + c)]
        bidq(I, W, f('bids'), n, vs, "std::vector")
        b = ('O', 'cache', 'u')
        W.set(I, b, vs[n * QB:])
        I.user["own"].add(b)
        I.store[f('cache')] = ('&', b)
        I.store[f('cache_offset')] = c
        I.store[f('m_size')] = len(vs)
        I.store[f('pref_aggr')] = a
        I.store[f('owned_pool')] = 0
        I.store[f('pool')] = ('&', ('O', 'pool'))
        return vs

    def get(self, p, W, this, J, desc):
        f = lambda x: F(this, x, self.cls)
        c, n = ivalue(p, f('cache_offset')), ivalue(p, f('m_size'))
        b = pointer(p, f('cache'))
        bids = W.S.elems(p.I, f('bids'))
        if c is None or n is None or b is None or bids is None:
            return None
        nums = [W.num(p.I, l) for l in bids]
        out = []
        for k in nums:
            out += list(p.I.user["disk"].get(k, (('s', 'never written'),) * QB))
        if not 0 <= c <= QB:
            J.bad("order", "offset %d outside the block (%s)" % (c, desc))
            return None
        out += list(W.get(p.I, b))[:c]
        if n != len(out):
            J.bad("order", "counts %d elements instead of %d (%s)" % (n, len(out), desc))
        if not c and nums:
            J.bad("order", "no element left in memory (%s)" % desc)
        return out, nums, [b]


class Queue(Linear):
    cls = "stxxl::queue"
    N = dict(size="m_size", front_block="front_block", back_block="back_block", front_element="front_element", back_element="back_element",
             bids="bids", pool="pool", bm="bm", pref="blocks2prefetch", count="alloc_count", owns="delete_pool")

    def states(self, thorough):
        """(one block?, front position, back position, blocks on disk, prefetching, owns its pool)"""
        for a in (0, 2) if not thorough else (0, 1, 2, 3):
            for f in range(QB):
                for b in range(f, QB):
                    yield 1, f, b, 0, a, a > 0
            for f in range(QB):                      # empty
                if self.cls == "stxxl::sequence" or f < QB:
                    yield 1, f, f - 1, 0, a, a > 0
            for n in range(3):
                for f in range(QB):
                    for b in range(QB):
                        yield 0, f, b, n, a, a > 0

    def size(self, s):
        return s[2] - s[1] + 1 if s[0] else QB - s[1] + s[3] * QB + s[2] + 1

    def describe(self, s):
        if s[0]:
            return "one block with the elements %d to %d" % (s[1], s[2]) if s[2] >= s[1] else "empty at element %d" % s[1]
        return "front block from element %d, %d blocks on disk, back block up to element %d, prefetching %d" % (s[1], s[3], s[2], s[4])

    def put(self, I, W, this, s):
        one, fp, bp, n, a, owns = s
        f = lambda x: F(this, self.N[x], self.cls)
        vs = [val(i) for i in range(self.size(s))]
        fb, bb = ('O', 'front', 'u'), ('O', 'front' if one else 'back', 'u')
        I.user["own"] |= {fb, bb}
        pad = [('s', 'gap')] * fp
        if one:
            W.set(I, fb, pad + vs)
            mid = []
        else:
            W.set(I, fb, pad + vs[:QB - fp])
            mid = vs[QB - fp:QB - fp + n * QB]
            W.set(I, bb, vs[QB - fp + n * QB:])
        bidq(I, W, f('bids'), n, mid, "std::deque")
        I.store[f('size')] = len(vs)
        I.store[f('front_block')], I.store[f('back_block')] = ('&', fb), ('&', bb)
        I.store[f('front_element')], I.store[f('back_element')] = W.eptr(fb, fp), W.eptr(bb, bp)
        I.store[f('pool')] = ('&', ('O', 'pool', 'u'))
        I.store[f('owns')] = int(owns)
        I.store[f('bm')] = ('&', ('O', 'block_manager'))
        I.store[f('count')] = 7
        I.store[f('pref')] = a
        return vs

    def get(self, p, W, this, J, desc):
        f = lambda x: F(this, self.N[x], self.cls)
        n = ivalue(p, f('size'))
        fb, bb = pointer(p, f('front_block')), pointer(p, f('back_block'))
        bids = W.S.elems(p.I, f('bids'))
        w = [W.where(p.I, p.store[f(x)]) if p.store.get(f(x)) is not None else None for x in ('front_element', 'back_element')]
        if n is None or fb is None or bb is None or bids is None or None in w:
            return None
        nums = [W.num(p.I, l) for l in bids]
        if w[0][0] != fb or w[1][0] != bb or not 0 <= w[0][1] <= QB or not -1 <= w[1][1] < QB:
            J.bad("order", "the front or back element lies outside its block (%s)" % desc)
            return None
        x, y = w[0][1], w[1][1]
        if fb == bb:
            out = list(W.get(p.I, fb))[x:y + 1]
            if nums:
                J.bad("order", "blocks on disk between the two ends of a single block (%s)" % desc)
            if y < x - 1 or n and x >= QB:
                J.bad("order", "the front element lies behind the back element (%s)" % desc)
        else:
            out = list(W.get(p.I, fb))[x:]
            for k in nums:
                out += list(p.I.user["disk"].get(k, (('s', 'never written'),) * QB))
            out += list(W.get(p.I, bb))[:y + 1]
            if x >= QB or y < 0:
                J.bad("order", "the front or the back block is empty (%s)" % desc)
        if n != len(out):
            J.bad("order", "counts %d elements instead of %d (%s)" % (n, len(out), desc))
        if not n and (x, y) != (0, -1) and not 0 <= x < QB:
            J.bad("order", "an empty container refers outside its block (%s)" % desc)
        return out, nums, [fb, bb]


class Sequence(Queue):
    cls = "stxxl::sequence"
    N = {k: "m_" + v for k, v in dict(Queue.N, size="size", count="alloc_count", owns="owns_pool").items()}


LIST = {
    "push": (lambda v, x: v + [x], 1, None),
    "push_back": (lambda v, x: v + [x], 1, None),
    "push_front": (lambda v, x: [x] + v, 1, None),
    "pop_front": (lambda v, x: v[1:], 0, None),
    "pop_back": (lambda v, x: v[:-1], 0, None),
    "top": (None, 0, ('el', lambda v: v[-1])),
    "back": (None, 0, ('el', lambda v: v[-1])),
    "front": (None, 0, ('el', lambda v: v[0])),
    "size": (None, 0, ('=', lambda v: len(v))),
    "empty": (None, 0, ('=', lambda v: int(not v))),
}


def linear_op(ctx, P, M, K, name):
    if name == "pop":
        w = ((lambda v, x: v[:-1]) if K.cls == Stack2.cls else (lambda v, x: v[1:]), 0, None)
    elif name.startswith("~"):
        w = (None, 0, None)
    else:
        w = LIST[name]
    K.check(ctx, P, M, name, *w)


# ------------------------------------------------------------------ streams over a sequence
def stream_op(ctx, P, K, which, name):
    cls = "stxxl::sequence::" + which
    M = methods(P, "stxxl::sequence<unsigned int, 12, stxxl::RC, unsigned long long>::%s" % which)
    rev = which == "reverse_stream"
    for d in M.get(name, []):
        if name == which and d.f.get("imp") or d.body is None:
            continue
        J = Judge(ctx, R, d)
        for s in K.states(ctx.thorough):
            n = K.size(s)
            if s[5]:
                continue
            for i in range(n + 1) if name != which else (None,):
                if i == n and name in ("operator++", "operator*"):
                    continue
                stream_one(ctx, P, d, J, K, which, name, cls, rev, s, n, i)
        J.done()


def span(s, n):
    """Per element of the sequence: (block, index); block is 'front', 'back' or the number of a block on disk."""
    if s[0]:
        return [('front', s[1] + i) for i in range(n)]
    return [('front', i) for i in range(s[1], QB)] + [(k + 1, i) for k in range(s[3]) for i in range(QB)] + [('back', i) for i in range(s[2] + 1)]


def stream_one(ctx, P, d, J, K, which, name, cls, rev, s, n, i):
    I, W = K.interp(ctx, P)
    f = lambda x: F(THIS, x, cls)
    seq = ('O', 'sequence')
    desc = K.describe(s) + ("" if i is None else "; at element %d of %d" % (i + 1, n))
    at = span(s, n)
    if rev:
        at = at[::-1]
    front, back = ('O', 'front', 'u'), ('O', 'front' if s[0] else 'back', 'u')
    own = ('O', 'own', 'u')

    def bid(I, k):
        """Iterator to the k-th next block on disk."""
        q = F(seq, 'm_bids', K.cls)
        if not rev:
            return W.S.key(I, q, k)
        return ('rev', q, k)

    def setup(I):
        start(I)
        I.user["vs"] = K.put(I, W, seq, s)
        if i is None:
            return
        I.store[f('m_sequence')] = ('&', seq)
        I.store[f('m_size')] = n - i
        b, e = at[i] if i < n else (at[n - 1] if n else ('front', s[2] if rev else s[1]))
        blk = {'front': front, 'back': back}.get(b, own)
        if blk == own:
            I.user["own"].add(own)
            W.set(I, own, I.user["disk"][b])
        I.store[f('m_current_block')] = ('&', blk)
        I.store[f('m_current_element')] = W.eptr(blk, e) if i < n else (0 if n and e == (0 if rev else QB - 1) else W.eptr(blk, e + (-1 if rev else 1)) if n else W.eptr(blk, e))
        disk = [k for k, _ in at if not isinstance(k, str)]
        order = []
        for k in disk:
            if k not in order:
                order.append(k)
        seen = [k for k, _ in at[:i + 1] if not isinstance(k, str)]
        I.store[f('m_next_bid')] = bid(I, len(set(seen)))
        I.user["nextbid"] = len(set(seen))
    if rev:
        riter(W, I.cfg)
    args = [('&', seq)] if name == which else []
    for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
        if p.out == 'throw':
            continue
        races(J, p, desc)
        u = p.I.user
        vs = u["vs"][::-1] if rev else u["vs"]
        if name == "~" + which:
            if u["own"] != {front, back}:
                J.bad("blocks", "the stream %s (%s)" % ("keeps its buffer" if len(u["own"] - {front, back}) else "gives away a block of the sequence", desc))
            continue
        if name in ("size", "empty"):
            w = n - i if name == "size" else int(n == i)
            v = p.val
            if v is not None and not isconst(v):
                lo, hi = p.facts.bounds(v)
                v = lo if lo == hi else None
            if v is None:
                J.open("order", "result not determined (%s)" % desc)
            elif v != w:
                J.bad("order", "%s() is %s, not %s (%s)" % (name, v, w, desc))
            continue
        if name == "operator*":
            t = W.where(p.I, p.val) if p.val is not None else None
            if t is None:
                J.open("order", "result not determined (%s)" % desc)
            elif p.store.get(W.el(*t)) != vs[i]:
                J.bad("order", "the stream shows %s, not element %d (%s)" % (show(p.store.get(W.el(*t))), i + 1, desc))
            continue
        j = i + 1 if name == "operator++" else 0
        m = ivalue(p, f('m_size'))
        if m is None:
            J.open("order", "the stream's state is not determined (%s)" % desc)
            continue
        if m != n - j:
            J.bad("order", "the stream has %d elements left instead of %d (%s)" % (m, n - j, desc))
        cur = pointer(p, f('m_current_block'))
        extra = u["own"] - {front, back}
        if {front, back} - u["own"]:
            J.bad("blocks", "the stream gives away a block of the sequence (%s)" % desc)
        if extra != ({cur} - {front, back}):
            J.bad("blocks", "the stream loses its buffer (%s)" % desc)
        for r in W.pend(p.I):
            J.bad("pending", "returns while its buffer is still being read (%s)" % desc)
        if j < n:
            t = p.store.get(f('m_current_element'))
            t = W.where(p.I, t) if t is not None else None
            if t is None or cur is None:
                J.open("order", "the stream's position is not determined (%s)" % desc)
                continue
            if t[0] != cur or not 0 <= t[1] < QB:
                J.bad("order", "the stream's element lies outside its block (%s)" % desc)
            elif p.store.get(W.el(*t)) != vs[j]:
                J.bad("order", "the stream moves to %s instead of element %d (%s)" % (show(p.store.get(W.el(*t))), j + 1, desc))
            elif cur not in (front, back) and t[1] != at[j][1] or at[j][0] in ('front', 'back') and cur != {'front': front, 'back': back}[at[j][0]]:
                J.bad("order", "the stream is at another place than its element (%s)" % desc)
            nb = p.store.get(f('m_next_bid'))
            k = (W.S.pos(p.I, W.S.normv(p.I, ('&', f('m_next_bid')))) if not rev and W.S.normv(p.I, ('&', f('m_next_bid'))) else nb[2] if rev and isinstance(nb, tuple) and nb[0] == 'rev' else None)
            w = len({x for x, _ in at[:j + 1] if not isinstance(x, str)})
            if k is not None and k != w and any(not isinstance(x, str) for x, _ in at[j + 1:]):
                J.bad("order", "the stream would continue with another block (%s)" % desc)


def riter(W, cfg):
    """std::reverse_iterator over a sequence of block ids: ('rev', container, steps from the end)."""
    m = cfg.models
    q = "std::reverse_iterator::"

    def norm(I, a):
        v = I.argval(a)
        return normv(I, v)

    def normv(I, v):
        for _ in range(6):
            if isinstance(v, tuple) and v and v[0] in ('obj', '&'):
                v = I.store.get(v[1])
        return v if isinstance(v, tuple) and v and v[0] == 'rev' else None

    def mk_(n):
        def h(I, c):
            l = c.obj
            return I.result(('rev', l, n(I, l)), I.ty(c.node), None, c.node)
        return h
    for ct in ("std::deque", "std::vector"):
        for x in ("rbegin", "crbegin"):
            m["%s::%s" % (ct, x)] = mk_(lambda I, l: 0)
        for x in ("rend", "crend"):
            m["%s::%s" % (ct, x)] = mk_(lambda I, l: len(W.S.elems(I, l)))

    def ctor(I, c):
        v = norm(I, c.args[0]) if c.args else None
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return 0

    def asg(I, c):
        v = norm(I, c.args[0])
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return ('&', c.obj)

    def deref(I, c):
        v = normv(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        e = W.S.elems(I, v[1])
        if not 0 <= v[2] < len(e):
            I.user.setdefault("misuse", []).append((c.node.get("l"), "dereferences the end of the blocks", I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        return ('&', e[len(e) - 1 - v[2]])

    def inc(I, c):
        v = normv(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        I.store[c.obj] = ('rev', v[1], v[2] + 1)
        return I.result(v, I.ty(c.node), None, c.node) if c.args else ('&', c.obj)

    def plus(I, c):
        v = normv(I, ('obj', c.obj))
        k = I.argval(c.args[0])
        if v is None or not isconst(k):
            return NotImplemented
        return I.result(('rev', v[1], v[2] + k), I.ty(c.node), None, c.node)

    def cmp(ne):
        def h(I, c):
            if len(c.args) != 2:
                return NotImplemented
            a, b = norm(I, c.args[0]), norm(I, c.args[1])
            if a is None or b is None:
                return NotImplemented
            return int((a == b) != ne)
        return h
    m[q + "reverse_iterator"] = ctor
    m[q + "operator="] = asg
    m[q + "operator*"] = deref
    m[q + "operator++"] = inc
    m[q + "operator+"] = plus
    m["std::operator=="] = chain(m.get("std::operator=="), cmp(False))
    m["std::operator!="] = chain(m.get("std::operator!="), cmp(True))


def chain(a, b):
    def h(I, c):
        r = b(I, c)
        if r is NotImplemented and a is not None:
            r = a(I, c)
        return r
    return h


# ------------------------------------------------------------------ constructors of the stacks
def simple_ctor(cfg, B):
    """simple_vector(n): the two arrays a stack owns."""
    def h(I, c):
        n = I.argval(c.args[0]) if c.args else 0
        lo, hi = I.facts.bounds(n) if n is not None else (None, None)
        if lo is None or lo != hi or c.obj[0] != 'F':
            return NotImplemented
        a = ('O', 'requests' if c.obj[2] == 'requests' else 'cache', 'u')
        if c.obj[2] == 'requests':
            for i in range(lo):
                I.store[F(('I', a, i) if i else a, 'm_ptr', 'stxxl::counting_ptr')] = 0
        I.store[F(c.obj, 'm_array', 'stxxl::simple_vector')] = ('&', a)
        I.store[F(c.obj, 'm_size', 'stxxl::simple_vector')] = lo
        return 0
    cfg.models["stxxl::simple_vector::simple_vector"] = h


def stack_ctor(ctx, P, M, K):
    for d in M.get(K.cls, []):
        if d.f.get("imp") or d.body is None:
            continue
        par = d.params
        J = Judge(ctx, R, d)
        for n in (range(0, 2 * PG + 6) if par else (None,)):
            cfg = ai.base_config()
            cfg.unroll = 2 * PG + 8
            W = Elems(cfg, P, SB)
            W.S.limit = 2 * PG + 8
            cfg.array_ctor = True
            simple_ctor(cfg, SB)
            I = ctx.interp(P, cfg)
            src = ('O', 'source')
            desc = "copying %d elements" % n if n is not None else "empty"

            def setup(I):
                start(I)
                if n is not None:
                    W.S.put(I, src, [val(i) for i in range(n)], "std::stack")
                W.set(I, cacheblock(0), [])
            for p in J.paths(I, desc, setup=setup, args=[('&', src)] if par else [], this=THIS):
                if p.out == 'throw':
                    continue
                races(J, p, desc)
                g = K.get(p, W, THIS, J, desc)
                if g is None:
                    J.open("order", "the stack's state is not determined (%s)" % desc)
                    continue
                have, nums, (c, nb) = g
                want = [val(i) for i in range(n or 0)]
                f = lambda x: F(THIS, x, ST + K.cls)
                if ivalue(p, f('m_size')) != len(want):
                    J.bad("order", "counts %s elements instead of %d (%s)" % (ivalue(p, f('m_size')), len(want), desc))
                if have != want:
                    J.bad("order", "the copy holds other elements than the source (%s)" % desc)
                if set(nums) != p.I.user["live"]:
                    J.bad("blocks", "the blocks recorded are not the ones allocated (%s)" % desc)
                if K.cls == "grow_shrink_stack" and not p.I.user.get("req"):
                    a = p.I.deref(p.store.get(F(f('requests'), 'm_array', 'stxxl::simple_vector')))
                    if p.store.get(F(a, 'm_ptr', 'stxxl::counting_ptr')) != 0:
                        J.bad("pending", "starts with a transfer that was never begun (%s)" % desc)
        J.done()


# ------------------------------------------------------------------ constructors and settings of the pool containers
def linear_ctor(ctx, P, M, K):
    name = K.cls.split("::")[1]
    for d in M.get(name, []):
        if d.f.get("imp") or d.body is None:
            continue
        J = Judge(ctx, R, d)
        for a in (0, 1, 3) if K.cls == Stack2.cls else (-1, 0, 2):
            I, W = K.interp(ctx, P)
            I.cfg.models["stxxl::block_manager::get_instance"] = lambda I, c: ('&', ('O', 'block_manager'))
            pool = ('O', 'pool', 'u')
            kinds = paramkinds(P, d)
            args = [('&', pool) if k == 'ref' else 4 for k in kinds]
            if args and kinds[-1] != 'ref' and not (K.cls != Stack2.cls and len(kinds) == 1):
                args[-1] = a
            desc = "arguments %s" % ", ".join("a pool" if x == ('&', pool) else str(x) for x in args)
            for p in J.paths(I, desc, setup=start, args=args, this=THIS):
                if p.out == 'throw':
                    continue
                races(J, p, desc)
                f = lambda x: F(THIS, K.N[x] if hasattr(K, "N") else x, K.cls)
                if K.cls == Stack2.cls and (pointer(p, f('cache')) or (0,))[0] == 'H':
                    p.I.user["own"].add(pointer(p, f('cache')))          # its buffer is created with it
                K.after(J, p, W, THIS, [], desc)
                given = kinds.count('ref') == 1
                if K.cls == Stack2.cls:
                    o = p.store.get(f('owned_pool'))
                    pl = p.store.get(f('pool'))
                    if given and (pl != ('&', pool) or o != 0) or not given and (o == 0 or o != pl):
                        J.bad("blocks", "takes the pool for %s (%s)" % ("its own" if given else "somebody else's", desc))
                else:
                    o = ivalue(p, f('owns'))
                    if o is not None and o != int(not given):
                        J.bad("blocks", "takes the pool for %s (%s)" % ("its own" if given else "somebody else's", desc))
                    if given and p.store.get(f('pool')) != ('&', pool):
                        J.bad("blocks", "does not use the pool it is given (%s)" % desc)
        J.done()


def paramkinds(P, d):
    out = []
    for vid, name, x in d.params:
        t = d.tu.types[x]
        out.append('ref' if t.get("k") == "ref" else 'val')
    return out


def set_aggr(ctx, P, M, K):
    for d in M.get("set_prefetch_aggr", []):
        J = Judge(ctx, R, d)
        for s in K.states(ctx.thorough):
            for a in (0, 1, 2, 6) + ((-1,) if K.cls != Stack2.cls else ()):
                I, W = K.interp(ctx, P)
                desc = K.describe(s) + "; new value %d" % a

                def setup(I):
                    start(I)
                    I.user["vs"] = K.put(I, W, THIS, s)
                for p in J.paths(I, desc, setup=setup, args=[a], this=THIS):
                    if p.out == 'throw':
                        continue
                    races(J, p, desc)
                    K.after(J, p, W, THIS, p.I.user["vs"], desc)
        J.done()


# ------------------------------------------------------------------ migrating stack
class Migrating:
    cls = "stxxl::migrating_stack"
    CRIT = 4

    def model(self, cfg):
        """Both implementations are lists of elements."""
        m = cfg.models
        e = "stxxl::normal_stack::"

        def lst(I, c):
            return I.user.setdefault("lists", {}).get(c.obj)

        def w(h):
            def g(I, c):
                v = lst(I, c)
                if v is None:
                    I.user.setdefault("races", []).append(("order", "uses a stack that does not exist"))
                    raise ai.PathEnd("no stack")
                return h(I, c, v)
            return g

        def push(I, c, v):
            a = c.args[0]
            I.user["lists"][c.obj] = v + [I.load(I.evloc(a))]
            return 0

        def pop(I, c, v):
            if not v:
                I.user.setdefault("races", []).append(("order", "removes an element from an empty stack"))
            I.user["lists"][c.obj] = v[:-1]
            return 0

        def top(I, c, v):
            l = ('O', 'top of ' + dom.showloc(c.obj))
            I.store[l] = v[-1] if v else ('s', 'nothing')
            return ('&', l)

        def ctor(I, c):
            a = c.args
            if not a:
                I.user.setdefault("lists", {})[c.obj] = []
            else:
                v = I.user.setdefault("lists", {}).get(I.evloc(a[0]))
                if v is None:
                    return NotImplemented
                I.user["lists"][c.obj] = list(v)
            return 0

        def dtor(I, c):
            if I.user.setdefault("lists", {}).pop(c.obj, None) is None:
                I.user.setdefault("races", []).append(("blocks", "destroys a stack twice"))
            return 0
        for q, s in (("stxxl::normal_stack::", "normal_stack"), ("std::stack::", "stack")):
            m[q + "push"], m[q + "pop"], m[q + "top"] = w(push), w(pop), w(top)
            m[q + "size"] = w(lambda I, c, v: len(v))
            m[q + "empty"] = w(lambda I, c, v: int(not v))
            m[q + s], m[q + "~" + s] = ctor, dtor

    def run(self, ctx, P, M, name):
        f = lambda x: F(THIS, x, self.cls)
        it, ex = ('O', 'internal', 'u'), ('O', 'external', 'u')
        for d in M.get(name, []):
            if d.f.get("imp") or d.body is None:
                continue
            J = Judge(ctx, R, d)
            for ext, n in [(0, i) for i in range(self.CRIT)] + [(1, i) for i in range(self.CRIT + 2)] if name != "migrating_stack" else [(None, 0)]:
                if name in ("pop", "top") and not n:
                    continue
                cfg = ai.base_config()
                cfg.models["operator delete"] = lambda I, c: 0
                self.model(cfg)
                I = ctx.interp(P, cfg)
                arg, new = ('O', 'value'), ('s', 'pushed')
                desc = "new" if ext is None else "%d elements %s" % (n, "external" if ext else "internal")
                vs = [val(i) for i in range(n)]

                def setup(I):
                    I.user["lists"] = {}
                    I.store[arg] = new
                    if ext is None:
                        return
                    I.user["lists"][ex if ext else it] = list(vs)
                    I.store[f('int_impl')] = 0 if ext else ('&', it)
                    I.store[f('ext_impl')] = ('&', ex) if ext else 0
                for p in J.paths(I, desc, setup=setup, args=[('&', arg)] if name == "push" else [], this=THIS):
                    if p.out == 'throw':
                        continue
                    races(J, p, desc)
                    L = p.I.user["lists"]
                    if name.startswith("~"):
                        if L:
                            J.bad("blocks", "the destructor keeps its implementation (%s)" % desc)
                        continue
                    if name in ("size", "empty", "internal", "external"):
                        w = {"size": n, "empty": int(not n), "internal": int(not ext), "external": int(bool(ext))}[name]
                        v = p.val
                        if v is not None and not isconst(v):
                            lo, hi = p.facts.bounds(v)
                            v = lo if lo == hi else None
                        if v is None:
                            J.open("order", "result not determined (%s)" % desc)
                        elif v != w:
                            J.bad("order", "%s() is %s, not %s (%s)" % (name, v, w, desc))
                        continue
                    ps = [p.store.get(f(x)) for x in ('int_impl', 'ext_impl')]
                    live = [p.I.deref(x) for x in ps if x is not None and x != 0]
                    if None in ps:
                        J.open("order", "the stack's state is not determined (%s)" % desc)
                        continue
                    if len(live) != 1:
                        J.bad("order", "%s implementation in use (%s)" % ("no" if not live else "more than one", desc))
                        continue
                    if set(L) != set(live):
                        J.bad("blocks", "an implementation is lost or used after it was destroyed (%s)" % desc)
                        continue
                    want = vs + [new] if name == "push" else vs[:-1] if name == "pop" else vs
                    if L[live[0]] != want:
                        J.bad("order", "the elements are not the expected ones (%s)" % desc)
                    if name == "top":
                        v = p.I.store.get(p.I.deref(p.val)) if p.val is not None and is_ptr(p.val) else None
                        if v is None:
                            J.open("order", "top element not determined (%s)" % desc)
                        elif v != vs[-1]:
                            J.bad("order", "the top element is not the last one (%s)" % desc)
            J.done()


def run(ctx):
    ctx.rule("order", "After every operation the elements are those of an in-memory container, in the same order")
    ctx.rule("blocks", "Every allocated block belongs to the container and every released one is freed once")
    ctx.rule("pending", "Buffers and blocks are neither used nor freed while they are read or written")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "tiny.cpp")])
    for K in (Normal(), GrowShrink()):
        M = methods(P, ST + K.cls + "<")
        for n in ("push", "pop", "top", "size", "empty", "~" + K.cls):
            ctx.sub("%s%s::%s" % (ST, K.cls, n), stack_op, ctx, P, M, K, n)
        ctx.sub("%s%s::%s" % (ST, K.cls, K.cls), stack_ctor, ctx, P, M, K)
    for K, ops in ((Stack2(), ("push", "pop", "top", "size", "empty", "~grow_shrink_stack2")),
                   (Queue(), ("push", "pop", "front", "back", "size", "empty", "~queue")),
                   (Sequence(), ("push_back", "push_front", "pop_back", "pop_front", "front", "back", "size", "empty", "~sequence"))):
        M = {n: [d for d in ds if P.canon(d.rec).get("q", "").endswith(">")] for n, ds in methods(P, K.cls + "<").items()}
        for n in ops:
            ctx.sub("%s::%s" % (K.cls, n), linear_op, ctx, P, M, K, n)
        ctx.sub("%s::%s" % (K.cls, K.cls.split("::")[1]), linear_ctor, ctx, P, M, K)
        ctx.sub("%s::set_prefetch_aggr" % K.cls, set_aggr, ctx, P, M, K)
    M = methods(P, "stxxl::migrating_stack<")
    for n in ("push", "pop", "top", "size", "empty", "internal", "external", "migrating_stack", "~migrating_stack"):
        ctx.sub("stxxl::migrating_stack::%s" % n, Migrating().run, ctx, P, M, n)
    for w in ("stream", "reverse_stream"):
        for n in (w, "operator++", "operator*", "size", "empty", "~" + w):
            ctx.sub("stxxl::sequence::%s::%s" % (w, n), stream_op, ctx, P, Sequence(), w, n)
    from . import c25d
    c25d.run(ctx, P)
