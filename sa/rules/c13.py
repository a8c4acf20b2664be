"""C13: buffers with I/O in flight are neither reused nor freed, and no buffer is lost (pools, buffered writer, prefetcher)."""
import os
import ai, dom, prog, mapmodel, seqmodel, hashmodel
from dom import add, sub, c_eq, c_lt, c_not, isconst, show, is_ptr
from core import where
from .util import *
from .c11 import pos, decide_eq, report, verdict
from .c12 import at_abort

WP, PP, RW = "stxxl::write_pool", "stxxl::prefetch_pool", "stxxl::read_write_pool"
REF = 'stxxl::atomic_counted_object'
READ, WRITE = 0, 1


def blk(i):
    return ('&', bo(i))


def bo(i):
    return ('O', 'B%d' % i, 'u')


class World:
    """Blocks B0.., requests, what is known about their completion."""

    def __init__(self, cfg, P):
        self.P = P
        cfg.unroll = 6
        cfg.max_paths = 3000
        self.M = mapmodel.Maps(cfg)
        self.S = seqmodel.Seqs(cfg)
        self.H = hashmodel.Hashes(cfg, self.S)
        m = cfg.models
        for op in ("read", "write"):
            m["stxxl::typed_block::" + op] = lambda I, c, op=op: self.io(I, c, op)
        pr = cfg.model_pred
        for n, h in (("wait", self.wait), ("poll", self.poll), ("cancel", self.cancel), ("get_type", self.gettype), ("check_errors", lambda I, c: 0)):
            pr.insert(0, (lambda f, n=n: f["n"] == n and f.get("ct", "").startswith("stxxl::request") and f["k"] == "method", h))
        m["stxxl::wait_any"] = self.wait_any
        m["stxxl::wait_all"] = self.wait_all
        cfg.delete_hook = None

    # requests: ('O', 'R<n>'); user["req"][loc] = (block loc, bid key, type)
    def newreq(self, I, block, bid, typ, done=False):
        k = I.user["nreq"] = I.user.get("nreq", 0) + 1
        r = ('O', 'R%d' % k, 'u')
        I.user.setdefault("req", {})[r] = (block, bid, typ)
        if done:
            I.user.setdefault("done", set()).add(r)
        I.store[F(r, 'm_reference_count', REF)] = 1000
        return r

    def bidof(self, I, b):
        return (I.load(F(b, 'storage', 'stxxl::BID')), I.load(F(b, 'offset', 'stxxl::BID')))

    def io(self, I, c, op):
        b = I.evloc(c.args[0]) if c.args else None
        bid = self.bidof(I, b)
        r = self.newreq(I, c.obj, bid, READ if op == "read" else WRITE)
        if len(c.args) > 1:
            hl = I.argval(c.args[1])
            I.user.setdefault("handler", {})[r] = hl
        busy = [x for x, y in I.user.get("req", {}).items() if y[0] == c.obj and x != r and x not in I.user.get("done", ())]
        I.ev('io', op, c.obj, (bid, r, tuple(busy)), None, c.node)
        t = I.tmploc()
        I.store[F(t, 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
        return ('obj', t)

    def fin(self, I, r):
        I.user.setdefault("done", set()).add(r)

    def wait(self, I, c):
        I.ev('waitreq', 'wait', c.obj, (), None, c.node)
        if c.obj in I.user.get("req", {}):
            fail = I.user.get("may_fail") and c.obj not in I.user.get("done", ()) and I.choose(2, ("io fails", len(I.trace)))
            self.fin(I, c.obj)
            if fail:
                I.throw_ext("stxxl::io_error", c.node)
        else:
            self.unknown(I, c)
        return 0

    def unknown(self, I, c):
        if isinstance(c.obj, tuple) and c.obj[0] == 'D' and c.obj[1] == 0 or c.obj is None:
            I.user.setdefault("misuse", []).append((c.node.get("l"), "uses a request that does not exist", I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        raise ai.PathEnd('unknown request %s' % (dom.showloc(c.obj),))

    def poll(self, I, c):
        if c.obj not in I.user.get("req", {}):
            self.unknown(I, c)
        d = c.obj in I.user.get("done", ()) or I.choose(2, ("poll", len(I.trace)))
        if d:
            self.fin(I, c.obj)
        I.ev('poll', 'poll', c.obj, (), int(d), c.node)
        return int(d)

    def cancel(self, I, c):
        if c.obj not in I.user.get("req", {}):
            self.unknown(I, c)
        r = 0 if c.obj in I.user.get("done", ()) else I.choose(2, ("cancel", len(I.trace)))
        if r:
            self.fin(I, c.obj)
        I.user.setdefault("cancelled", set()).add(c.obj)
        I.ev('cancel', 'cancel', c.obj, (), r, c.node)
        return r

    def gettype(self, I, c):
        if c.obj not in I.user.get("req", {}):
            self.unknown(I, c)
        return I.user["req"][c.obj][2]

    def reqin(self, I, loc):
        """The request a sequence element refers to (a request_ptr or an entry holding one)."""
        out = []
        d = F(loc, 'm_ptr', 'stxxl::counting_ptr')
        for x in ([d] if d in I.store else I.store):
            if x[0] == 'F' and x[2] == 'm_ptr' and I.under(x, loc) and is_ptr(I.store[x]):
                out.append(I.deref(I.store[x]))
        return out[0] if len(out) == 1 else None

    def wait_any(self, I, c):
        a, b = I.argval(c.args[0]), I.argval(c.args[1])
        na, nb = self.S.normv(I, a), self.S.normv(I, b)
        if na and na[0] == 'seqit':
            ls = self.S.elems(I, na[1])[self.S.pos(I, na):self.S.pos(I, nb)]
        elif is_ptr(a) and isconst(b):
            base = I.deref(a)
            ls = [('I', base, i) if i else base for i in range(b)]
        else:
            raise ai.PathEnd("requests to wait for not determined")
        rs = [self.reqin(I, l) for l in ls]
        if None in rs:
            raise ai.PathEnd("requests to wait for not determined")
        if not rs:
            I.user.setdefault("misuse", []).append((c.node.get("l"), "waits for any of no requests", I.fr.fun.fn))
            raise ai.PathEnd('misuse')
        k = I.choose(len(rs), ("any", len(I.trace))) if len(rs) > 1 else 0
        self.fin(I, rs[k])
        I.ev('waitany', 'wait_any', rs[k], tuple(rs), k, c.node)
        if na and na[0] == 'seqit':
            return I.result(self.S.key(I, na[1], self.S.pos(I, na) + k), I.ty(c.node), None, c.node)
        return k

    def wait_all(self, I, c):
        a, b = I.argval(c.args[0]), I.argval(c.args[1])
        na, nb = self.S.normv(I, a), self.S.normv(I, b)
        if na and na[0] == 'seqit':
            ls = self.S.elems(I, na[1])[self.S.pos(I, na):self.S.pos(I, nb)]
        elif is_ptr(a) and isconst(b):
            base = I.deref(a)
            ls = [('I', base, i) if i else base for i in range(b)]
        else:
            raise ai.PathEnd("requests to wait for not determined")
        for l in ls:
            r = self.reqin(I, l)
            if r is None:
                raise ai.PathEnd("requests to wait for not determined")
            self.fin(I, r)
            I.ev('waitreq', 'wait_all', r, (), None, c.node)
        return 0

    # ---- bids
    def setbid(self, I, loc, k):
        """BID number k: a block of file 'f' at offset 4096*k."""
        I.store[F(loc, 'storage', 'stxxl::BID')] = ('&', ('O', 'f')) if k is not None else 0
        I.store[F(loc, 'offset', 'stxxl::BID')] = 4096 * k if k is not None else 0


def key(k):
    return (('&', ('O', 'f')), 4096 * k)


def config(P):
    cfg = ai.base_config()
    W = World(cfg, P)
    return cfg, W


# ------------------------------------------------------------------ pools
def put_wpool(I, W, this, free, busy):
    """free: block numbers; busy: (block number, bid number or None, done)"""
    fl, bl = F(this, 'free_blocks', WP), F(this, 'busy_blocks', WP)
    W.S.put(I, fl, [blk(i) for i in free], "std::list")

    def entry(i, k, done):
        def f(l):
            r = W.newreq(I, bo(i), key(k) if k is not None else None, WRITE, done)
            I.store[F(l, 'block', WP + "::busy_entry")] = blk(i)
            I.store[F(F(l, 'req', WP + "::busy_entry"), 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
            W.setbid(I, F(l, 'bid', WP + "::busy_entry"), k)
        return f
    W.S.put(I, bl, [entry(*b) for b in busy], "std::list")


def put_ppool(I, W, this, free, busy):
    """busy: (block number, bid number, type, done)"""
    W.S.put(I, F(this, 'free_blocks', PP), [blk(i) for i in free], "std::list")
    I.store[F(this, 'free_blocks_size', PP)] = len(free)

    def entry(i, k, typ, done):
        def f(kl, vl):
            r = W.newreq(I, bo(i), key(k), typ, done)
            W.setbid(I, kl, k)
            I.store[F(vl, 'first', 'std::pair')] = blk(i)
            I.store[F(F(vl, 'second', 'std::pair'), 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
        return f
    W.H.put(I, F(this, 'busy_blocks', PP), [entry(*b) for b in busy])


def read_wpool(p, W, this):
    """(free pointers, [(block pointer, request loc, bid)]) or None."""
    I, st = p.I, p.store
    fl, bl = W.S.elems(I, F(this, 'free_blocks', WP)), W.S.elems(I, F(this, 'busy_blocks', WP))
    if fl is None or bl is None:
        return None
    E = WP + "::busy_entry"
    busy = []
    for l in bl:
        r = st.get(F(F(l, 'req', E), 'm_ptr', 'stxxl::counting_ptr'))
        bl_ = F(l, 'bid', E)
        busy.append((st.get(F(l, 'block', E)), r[1] if r is not None and is_ptr(r) else r, (st.get(F(bl_, 'storage', 'stxxl::BID')), st.get(F(bl_, 'offset', 'stxxl::BID')))))
    return [st.get(l) for l in fl], busy


def read_ppool(p, W, this):
    I, st = p.I, p.store
    fl, ns = W.S.elems(I, F(this, 'free_blocks', PP)), W.H.nodes(I, F(this, 'busy_blocks', PP))
    if fl is None or ns is None:
        return None
    busy = []
    for l in ns:
        k, v = F(l, 'first', 'std::pair'), F(l, 'second', 'std::pair')
        r = st.get(F(F(v, 'second', 'std::pair'), 'm_ptr', 'stxxl::counting_ptr'))
        busy.append((st.get(F(v, 'first', 'std::pair')), r[1] if r is not None and is_ptr(r) else r, (st.get(F(k, 'storage', 'stxxl::BID')), st.get(F(k, 'offset', 'stxxl::BID')))))
    return [st.get(l) for l in fl], busy, st.get(F(this, 'free_blocks_size', PP))


def undetermined(x):
    """Some block, request or bid is unknown."""
    if x is None:
        return True
    for b in x[0]:
        if b is None or not is_ptr(b):
            return True
    for b, r, k in x[1]:
        if b is None or not is_ptr(b) or r is None or not isinstance(r, tuple) or None in k:
            return True
    return False


class Judge:
    """Checks common to all pool operations."""

    def __init__(self, ctx, rules, d):
        self.ctx, self.rules, self.d = ctx, rules, d
        self.worst, self.opened, self.n = {}, {}, 0

    def bad(self, r, t):
        self.worst.setdefault(r if r in self.rules else self.rules[0], t)

    def open(self, r, t):
        self.opened.setdefault(r if r in self.rules else self.rules[0], t)

    def paths(self, I, desc, fun=None, **kw):
        for p in I.paths(None if "body" in kw else self.d, **kw):
            if p.why == 'misuse':
                m = p.I.user["misuse"][0]
                self.bad("conserve", "%s at line %s of %s (%s)" % (m[1], m[0], m[2], desc))
                continue
            if dom.infeasible(p.facts):
                continue
            if p.why == 'abort':
                self.bad("conserve", "an assertion fails%s (%s)" % (at_abort(p), desc))
                continue
            if p.out not in ('ret', 'throw'):
                self.open("conserve", "path ended: %s (%s)" % (p.why, desc))
                continue
            self.n += 1
            yield p
        self.ctx.used(I)

    def done(self):
        report(self.ctx, self.rules, self.d, self.worst, self.opened, self.n)

    # ---- the state after an operation
    def common(self, p, W, before, pools, given, taken, desc):
        """before: block numbers in the pools and handed in; pools: states read back; taken: block pointers handed out or deleted."""
        req = p.I.user.get("req", {})
        done = p.I.user.get("done", set())
        have = [b for s in pools for b in s[0]] + [b for s in pools for b, r, k in s[1]] + list(taken)
        if any(b is None or not is_ptr(b) for b in have):
            return self.open("conserve", "a block is not determined (%s)" % desc)
        fresh = [e.o for e in p.trace if e.k == 'new']
        want = sorted([str(blk(i)) for i in before] + [str(('&', o)) for o in fresh])
        got = sorted(str(b) for b in have)
        if got != want:
            lost = [x for x in want if want.count(x) > got.count(x)]
            dup = [x for x in got if got.count(x) > want.count(x)]
            self.bad("conserve", "%s (%s)" % ("a block is lost" if lost and not dup else "a block is in the pool (or handed out) twice" if dup and not lost else "a block is replaced by another", desc))
        for e in p.trace:
            if e.k == 'io' and e.a[2] and any(x not in e.a[2] or True for x in e.a[2]):
                self.bad("in-flight", "starts a %s of a block whose previous transfer is still in progress (%s)" % (e.n, desc))
        last = {}
        for r, (b, k, t) in sorted(req.items(), key=lambda x: int(x[0][1][1:])):
            last[b] = r
        for s in pools:
            for b in s[0]:
                for r, (bl, k, t) in req.items():
                    if ('&', bl) == b and r not in done:
                        self.bad("in-flight", "a block counts as free although its %s is still in progress (%s)" % ("write" if t else "read", desc))
            for b, r, k in s[1]:
                if r not in req:
                    self.open("conserve", "a request is not determined (%s)" % desc)
                elif ('&', req[r][0]) != b:
                    self.bad("in-flight", "a block is kept with the request of another block (%s)" % desc)
                elif k[0] != 0 and req[r][1] is not None and k != req[r][1]:
                    self.bad("fresh", "a block is kept under another address than it was transferred for (%s)" % desc)

    def idle(self, p, b, what, desc):
        """Block pointer b has no transfer in progress."""
        for r, (bl, k, t) in p.I.user.get("req", {}).items():
            if ('&', bl) == b and r not in p.I.user.get("done", set()):
                self.bad("in-flight", "%s although its %s is still in progress (%s)" % (what, "write" if t else "read", desc))


def deleted(p, n=8):
    """Pointers of the tracked blocks that were deleted."""
    return [('&', e.o) for e in p.trace if e.k == 'freed' and e.o is not None and (e.o[0] == 'O' and str(e.o[1]).startswith('B') or any(x.k == 'new' and x.o == e.o for x in p.trace))]


WSTATES = [((), ()), ((0,), ()), ((0, 1), ()), ((), ((0, 1, False),)), ((0,), ((1, 1, False),)), ((), ((0, 1, False), (1, 2, False))), ((), ((0, 1, True), (1, 2, False))),
           ((), ((0, None, False), (1, 1, False)))]


def wdesc(s):
    return "%d free blocks, %d being written" % (len(s[0]), len(s[1]))


def blocks(s):
    return list(s[0]) + [b[0] for b in s[1]]


def wpool(ctx, P, fn, kind):
    R = ("conserve", "in-flight", "fresh")
    for d in [x for x in P.find(WP + "::" + fn) if kind is None or kind(x)][:1]:
        J = Judge(ctx, R, d)
        for s in WSTATES:
            extra = {"write": [(9, 1), (9, 3)], "add": [(9, None)], "steal_request": [(None, 1), (None, 3)], "has_request": [(None, 1), (None, 3)],
                     "resize": [(None, k) for k in (0, 1, 2, 3)], "steal": [(None, None)], "size": [(None, None)], "~write_pool": [(None, None)], "swap": [(None, None)],
                     "check_all_busy": [(None, None)]}[fn]
            if fn == "steal" and not blocks(s):
                continue
            for b, k in extra:
                cfg, W = config(P)
                I = ctx.interp(P, cfg)
                desc = wdesc(s) + ("" if k is None else ", block address %s" % ("in the pool" if any(x[1] == k for x in s[1]) else "not in the pool") if fn != "resize" else ", to size %d" % k)

                def setup(I):
                    put_wpool(I, W, THIS, *s)
                    if b is not None:
                        I.store[('O', 'bp')] = blk(b)
                    if k is not None and fn != "resize":
                        W.setbid(I, ('O', 'bid'), k)
                    if fn == "swap":
                        put_wpool(I, W, ('O', 'other'), (5,), ((6, 7, False),))
                args = []
                if b is not None:
                    args.append(('&', ('O', 'bp')))
                if k is not None:
                    args.append(k if fn == "resize" else ('&', ('O', 'bid')))
                if fn == "swap":
                    args = [('&', ('O', 'other'))]
                for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
                    st = read_wpool(p, W, THIS)
                    ios = [e for e in p.trace if e.k == 'io']
                    gone = deleted(p)
                    if fn == "~write_pool":
                        for e in [e for e in p.trace if e.k == 'freed']:
                            early(J, p, e, desc)
                        want = sorted(str(blk(x)) for x in blocks(s))
                        if sorted(map(str, gone)) != want:
                            J.bad("conserve", "the destructor frees %d of %d blocks (%s)" % (len(gone), len(want), desc))
                        continue
                    if undetermined(st):
                        J.open("conserve", "state not determined (%s)" % desc)
                        continue
                    taken, given = list(gone), []
                    if p.out == 'throw':
                        J.bad("conserve", "throws (%s)" % desc)
                        continue
                    if fn == "steal":
                        taken.append(p.val)
                        if p.val is None or not is_ptr(p.val):
                            J.open("conserve", "stolen block not determined")
                            continue
                        J.idle(p, p.val, "hands out a block", desc)
                    for g in gone:
                        J.idle(p, g, "frees a block", desc)
                    if fn == "steal_request":
                        v = p.val[1] if p.val else None
                        bp, rp = p.store.get(F(v, 'first', 'std::pair')), p.store.get(F(F(v, 'second', 'std::pair'), 'm_ptr', 'stxxl::counting_ptr'))
                        match = [x for x in s[1] if x[1] == k]
                        if match:
                            if bp is None or rp is None or not is_ptr(bp) and bp != 0:
                                J.open("fresh", "stolen request not determined")
                                continue
                            if bp != blk(match[0][0]) or rp == 0 or rp[1] not in p.I.user["req"] or p.I.user["req"][rp[1]][0] != bo(match[0][0]):
                                J.bad("fresh", "returns %s for an address that is being written from another block or request (%s)" % (show(bp), desc))
                                continue
                            taken.append(bp)
                        elif decide_eq(p, bp, 0) is False:
                            J.bad("fresh", "returns a block for an address that is not being written (%s)" % desc)
                            continue
                    if fn == "has_request":
                        J_bool(J, p, p.val, any(x[1] == k for x in s[1]), "fresh", "has_request", desc)
                    if fn == "size":
                        verdict(J.worst, J.opened, "conserve", decide_eq(p, p.val, len(blocks(s))), "size() is %s (%s)" % (show(p.val), desc))
                    if fn == "resize":
                        n2 = len(st[0]) + len(st[1])
                        if n2 != k:
                            J.bad("conserve", "%d blocks after resize(%d) (%s)" % (n2, k, desc))
                    before = blocks(s) + ([b] if b is not None else [])
                    if fn == "swap":
                        st2 = read_wpool(p, W, ('O', 'other'))
                        if undetermined(st2):
                            J.open("conserve", "state not determined")
                            continue
                        if sorted(st[0]) != [blk(5)] or [x[0] for x in st[1]] != [blk(6)] or sorted(st2[0]) != sorted(blk(x) for x in s[0]) or [x[0] for x in st2[1]] != [blk(x[0]) for x in s[1]]:
                            J.bad("conserve", "swap does not exchange the pools (%s)" % desc)
                        continue
                    J.common(p, W, before, [st], given, taken, desc)
                    if fn == "write":
                        if len(ios) != 1 or ios[0].n != "write" or ios[0].o != bo(9) or ios[0].a[0] != key(k):
                            J.bad("fresh", "does not write the given block to the given address exactly once (%s)" % desc)
                            continue
                        here = [x for x in st[1] if x[2] == key(k)]
                        if len(here) != 1 or here[0][1] != ios[0].a[1]:
                            J.bad("fresh", "%s under the address that was just written (%s)" % ("an older block is still found" if len(here) > 1 else "the new block is not found", desc))
                        v = p.val[1] if p.val else None
                        rp = p.store.get(F(v, 'm_ptr', 'stxxl::counting_ptr')) if v else None
                        if rp is not None and rp != ('&', ios[0].a[1]):
                            J.bad("fresh", "does not return the request of the write (%s)" % desc)
                        if p.store.get(('O', 'bp')) != 0:
                            J.bad("in-flight", "leaves the caller a block that is being written (%s)" % desc)
                    if fn == "add":
                        if blk(9) not in st[0]:
                            J.bad("conserve", "the added block is not free (%s)" % desc)
                        if p.store.get(('O', 'bp')) != 0:
                            J.bad("conserve", "leaves the caller a block that the pool owns now (%s)" % desc)
        J.done()


def early(J, p, e, desc):
    """A freed block must have no transfer in progress at that moment."""
    i = p.trace.index(e)
    done = set()
    for r, (b, k, t) in p.I.user.get("req", {}).items():
        if b != e.o:
            continue
        ok = r in p.I.user.get("done0", ()) or any(x.o == r and (x.k == 'waitreq' or x.k == 'poll' and x.r == 1 or x.k == 'cancel' and x.r == 1 or x.k == 'waitany') for x in p.trace[:i])
        if not ok:
            J.bad("in-flight", "frees a block although its %s is still in progress (%s)" % ("write" if t else "read", desc))


def J_bool(J, p, v, want, rule, name, desc):
    c = p.I.as_cond(v) if v is not None else None
    if isinstance(v, int):
        r = bool(v)
    else:
        r = p.facts.decide(c) if c is not None else None
    if r is None:
        J.open(rule, "%s not determined (%s)" % (name, desc))
    elif r != want:
        J.bad(rule, "%s returns %s (%s)" % (name, str(r).lower(), desc))


PSTATES = [((), ()), ((0,), ()), ((0, 1), ()), ((), ((0, 1, READ, False),)), ((0,), ((1, 1, READ, False),)), ((0,), ((1, 1, WRITE, False), (2, 2, READ, True))), ((), ((0, 1, READ, True), (1, 2, READ, False)))]


def pdesc(s):
    return "%d free blocks, %d prefetched" % (len(s[0]), len(s[1]))


def find1(P, fn, n):
    return [x for x in P.find(fn) if len(x.params) == n][:1]


def ppool(ctx, P, fn, nargs):
    R = ("conserve", "in-flight", "fresh")
    for d in find1(P, PP + "::" + fn, nargs):
        J = Judge(ctx, R, d)
        withw = fn in ("hint", "read") and d.tu.types[d.params[-1][2]]["k"] == "ref" and nargs == {"hint": 2, "read": 3}[fn]
        for s in PSTATES:
            ks = {"hint": (1, 3), "read": (1, 3), "invalidate": (1, 2, 3), "find": (1, 3), "poll": (1, 3), "in_prefetching": (1, 3), "resize": (0, 1, 2, 3)}.get(fn, (None,))
            if fn == "steal" and not s[0]:
                continue
            for k in ks:
                for ws in (((), ()), ((7,), ((8, 3, False),)), ((7,), ((8, 1, False),))) if withw else (None,):
                    if ws and any(x[1] == k for x in ws[1]) and any(x[1] == k for x in s[1]):
                        continue        # an address is in one pool only
                    cfg, W = config(P)
                    I = ctx.interp(P, cfg)
                    inw = bool(ws) and any(x[1] == k for x in ws[1])
                    mine = next((x for x in s[1] if x[1] == k), None)
                    desc = pdesc(s) + ("" if k is None else ", block address %s" % ("prefetched" if mine else "being written by the write pool" if inw else "not in the pool") if fn != "resize" else ", to size %d" % k)

                    def setup(I):
                        put_ppool(I, W, THIS, *s)
                        I.user["done0"] = set(I.user.get("done", ()))
                        if ws:
                            put_wpool(I, W, ('O', 'wp'), *ws)
                        I.store[('O', 'bp')] = blk(9)
                        if k is not None:
                            W.setbid(I, ('O', 'bid'), k)
                        if fn == "swap":
                            put_ppool(I, W, ('O', 'other'), (5,), ((6, 7, READ, False),))
                    args = {"add": [('&', ('O', 'bp'))], "resize": [k], "swap": [('&', ('O', 'other'))], "steal": [], "~prefetch_pool": [], "size": [], "free_size": [], "busy_size": []}.get(fn)
                    if args is None:
                        args = ([('&', ('O', 'bp'))] if fn == "read" else []) + [('&', ('O', 'bid'))] + ([('&', ('O', 'wp'))] if ws else [])
                    for p in J.paths(I, desc, setup=setup, args=args, this=THIS):
                        st = read_ppool(p, W, THIS)
                        sw = read_wpool(p, W, ('O', 'wp')) if ws else None
                        ios = [e for e in p.trace if e.k == 'io']
                        gone = deleted(p)
                        if fn == "~prefetch_pool":
                            for e in [e for e in p.trace if e.k == 'freed']:
                                early(J, p, e, desc)
                            want = sorted(str(blk(x)) for x in blocks(s))
                            if sorted(map(str, gone)) != want:
                                J.bad("conserve", "the destructor frees %d of %d blocks (%s)" % (len(gone), len(want), desc))
                            continue
                        if undetermined(st) or ws and undetermined(sw):
                            J.open("conserve", "state not determined (%s)" % desc)
                            continue
                        if p.out == 'throw':
                            J.bad("conserve", "throws (%s)" % desc)
                            continue
                        verdict(J.worst, J.opened, "conserve", decide_eq(p, st[2], len(st[0])), "free_blocks_size is %s with %d free blocks (%s)" % (show(st[2]) if st[2] is not None else None, len(st[0]), desc))
                        taken = list(gone)
                        before = blocks(s) + (blocks(ws) if ws else []) + ([9] if fn in ("read", "add") else [])
                        v = p.val
                        if fn == "swap":
                            st2 = read_ppool(p, W, ('O', 'other'))
                            if undetermined(st2):
                                J.open("conserve", "state not determined")
                            elif st[0] != [blk(5)] or [x[0] for x in st[1]] != [blk(6)] or st2[0] != [blk(x) for x in s[0]] or sorted(x[0] for x in st2[1]) != sorted(blk(x[0]) for x in s[1]) or st2[2] != len(s[0]):
                                J.bad("conserve", "swap does not exchange the pools (%s)" % desc)
                            continue
                        if fn == "steal":
                            if v is None or not is_ptr(v):
                                J.open("conserve", "stolen block not determined")
                                continue
                            taken.append(v)
                        if fn == "read":
                            bp = p.store.get(('O', 'bp'))
                            rp = p.store.get(F(v[1], 'm_ptr', 'stxxl::counting_ptr')) if v else None
                            if bp is None or rp is None or not is_ptr(bp) or not is_ptr(rp) or rp[1] not in p.I.user["req"]:
                                J.open("fresh", "result not determined (%s)" % desc)
                                continue
                            taken.append(bp)
                            rb, rk, rt = p.I.user["req"][rp[1]]
                            src = mine[0] if mine else next(x[0] for x in ws[1] if x[1] == k) if inw else 9
                            if ('&', rb) != bp:
                                J.bad("in-flight", "returns a block with the request of another block (%s)" % desc)
                            elif bp != blk(src):
                                J.bad("fresh", "returns %s instead of the block that holds the address (%s)" % (show(bp), desc))
                            if (mine or inw) and ios:
                                J.bad("fresh", "reads from disk although the pool holds the block (%s)" % desc)
                            if not (mine or inw) and (len(ios) != 1 or ios[0].n != "read" or ios[0].a[0] != key(k) or ios[0].o != bo(9)):
                                J.bad("fresh", "does not read the address into the given block (%s)" % desc)
                        for g in gone:
                            J.idle(p, g, "frees a block", desc)
                        pools = [st] + ([sw] if ws else [])
                        J.common(p, W, before, pools, (), taken, desc)
                        here = [x for x in st[1] if x[2] == key(k)] if k is not None and fn != "resize" else []
                        if fn == "hint":
                            got = bool(here)
                            J_bool(J, p, v, got, "fresh", "hint", desc)
                            if len(here) > 1:
                                J.bad("fresh", "an address is prefetched twice (%s)" % desc)
                            want = bool(mine) or bool(s[0])
                            if got != want:
                                J.bad("fresh", "%s (%s)" % ("does not prefetch although a block is free" if want else "prefetches without a free block", desc))
                            if got and not mine and inw and (ios or here[0][0] != blk(8)):
                                J.bad("fresh", "does not take over the block that is being written to the address (%s)" % desc)
                            if got and not mine and not inw and (len(ios) != 1 or ios[0].n != "read" or ios[0].a[0] != key(k) or ('&', ios[0].o) != here[0][0]):
                                J.bad("fresh", "does not read the hinted address (%s)" % desc)
                            if mine and ios:
                                J.bad("fresh", "reads an address again that is already prefetched (%s)" % desc)
                        if fn == "invalidate":
                            J_bool(J, p, v, bool(mine), "fresh", "invalidate", desc)
                            if here:
                                J.bad("fresh", "an invalidated address is still found (%s)" % desc)
                            if len(st[1]) != len(s[1]) - bool(mine):
                                J.bad("fresh", "%d addresses are forgotten by invalidating one (%s)" % (len(s[1]) - len(st[1]), desc))
                        if fn == "in_prefetching":
                            J_bool(J, p, v, bool(mine), "fresh", "in_prefetching", desc)
                        if fn == "find":
                            rp = p.store.get(F(v[1], 'm_ptr', 'stxxl::counting_ptr')) if v else None
                            if rp is None:
                                J.open("fresh", "found request not determined")
                            elif mine and (not is_ptr(rp) or p.I.user["req"].get(rp[1], (None,))[0] != bo(mine[0])) or not mine and rp != 0:
                                J.bad("fresh", "find returns %s (%s)" % (show(rp), desc))
                        if fn == "poll" and not mine:
                            J_bool(J, p, v, False, "fresh", "poll", desc)
                        if fn == "poll" and mine:
                            r = next((e.r for e in p.trace if e.k == 'poll'), None)
                            if r is not None:
                                J_bool(J, p, v, bool(r), "fresh", "poll", desc)
                        if fn in ("size", "free_size", "busy_size"):
                            w = {"size": len(blocks(s)), "free_size": len(s[0]), "busy_size": len(s[1])}[fn]
                            verdict(J.worst, J.opened, "conserve", decide_eq(p, v, w), "%s() is %s (%s)" % (fn, show(v), desc))
                        if fn == "resize":
                            n2 = len(st[0]) + len(st[1])
                            w = max(k, len(s[1]))
                            if n2 != w:
                                J.bad("conserve", "%d blocks after resize(%d) (%s)" % (n2, k, desc))
                            verdict(J.worst, J.opened, "conserve", decide_eq(p, v, n2), "resize returns %s with %d blocks (%s)" % (show(v), n2, desc))
                        if fn == "add":
                            if blk(9) not in st[0]:
                                J.bad("conserve", "the added block is not free (%s)" % desc)
                            if p.store.get(('O', 'bp')) != 0:
                                J.bad("conserve", "leaves the caller a block that the pool owns now (%s)" % desc)
        J.done()


def rwpool_write(ctx, P):
    """A write through the combined pool leaves no outdated prefetched copy."""
    R = ("conserve", "in-flight", "fresh")
    for d in P.find(RW + "::write")[:1]:
        J = Judge(ctx, R, d)
        for s in PSTATES:
            for ws in (((), ()), ((7,), ((8, 3, False),)), ((), ((8, 1, False),))):
                for k in (1, 3):
                    if any(x[1] == k for x in ws[1]) and any(x[1] == k for x in s[1]):
                        continue
                    cfg, W = config(P)
                    I = ctx.interp(P, cfg)
                    mine = next((x for x in s[1] if x[1] == k), None)
                    desc = pdesc(s) + ", " + wdesc(ws) + ", block address %s" % ("prefetched" if mine else "in the write pool" if any(x[1] == k for x in ws[1]) else "in neither pool")

                    def setup(I):
                        put_ppool(I, W, ('O', 'pp'), *s)
                        put_wpool(I, W, ('O', 'wp'), *ws)
                        I.store[F(THIS, 'w_pool', RW)] = ('&', ('O', 'wp'))
                        I.store[F(THIS, 'p_pool', RW)] = ('&', ('O', 'pp'))
                        I.store[('O', 'bp')] = blk(9)
                        W.setbid(I, ('O', 'bid'), k)
                    for p in J.paths(I, desc, setup=setup, args=[('&', ('O', 'bp')), ('&', ('O', 'bid'))], this=THIS):
                        st, sw = read_ppool(p, W, ('O', 'pp')), read_wpool(p, W, ('O', 'wp'))
                        if undetermined(st) or undetermined(sw):
                            J.open("conserve", "state not determined (%s)" % desc)
                            continue
                        if p.out == 'throw':
                            J.bad("conserve", "throws (%s)" % desc)
                            continue
                        J.common(p, W, blocks(s) + blocks(ws) + [9], [st, sw], (), deleted(p), desc)
                        wr = [e for e in p.trace if e.k == 'io' and e.n == 'write']
                        if len(wr) != 1 or wr[0].o != bo(9) or wr[0].a[0] != key(k):
                            J.bad("fresh", "does not write the given block to the given address exactly once (%s)" % desc)
                            continue
                        i = p.trace.index(wr[0])
                        for b, r, kk in [x for x in st[1] + sw[1] if x[2] == key(k)]:
                            later = [e for e in p.trace[i + 1:] if e.k == 'io' and e.n == 'read' and e.a[1] == r]
                            if b != blk(9) and not later:
                                J.bad("fresh", "an outdated copy of the block is still found after the write (%s)" % desc)
                        if not any(x[2] == key(k) for x in st[1] + sw[1]):
                            J.bad("fresh", "the written block is found in neither pool (%s)" % desc)
        J.done()


def rwpool_rest(ctx, P):
    """The combined pool passes every operation on to the right pool."""
    R = ("conserve",)
    want = {"size_write": ("w", "size"), "size_prefetch": ("p", "size"), "resize_write": ("w", "resize"), "resize_prefetch": ("p", "resize"), "steal": ("w", "steal"), "add": ("w", "add"),
            "hint": ("p", "hint"), "invalidate": ("p", "invalidate"), "read": ("p", "read"), "find_hint": ("p", "find"), "poll_hint": ("p", "poll"), "add_prefetch": ("p", "add"),
            "steal_prefetch": ("p", "steal"), "in_prefetching": ("p", "in_prefetching"), "free_size_prefetch": ("p", "free_size"), "busy_size_prefetch": ("p", "busy_size")}
    for fn, (pool, op) in sorted(want.items()):
        for d in P.find(RW + "::" + fn)[:1]:
            J = Judge(ctx, R, d)
            cfg, W = config(P)

            def rec(I, c):
                vals = tuple(('&', I.evloc(a)) if a.get('lv') else I.argval(a) for a in c.args)
                I.ev('pool', c.f["n"], c.obj, vals, None, c.node)
                v = ('s', 'result of ' + c.f["n"])
                return I.result(v, I.ty(c.node), None, c.node)
            cfg.model_pred.insert(0, (lambda f: f.get("ct") in (WP, PP) and f["k"] == "method", rec))
            I = ctx.interp(P, cfg)

            def setup(I):
                I.store[F(THIS, 'w_pool', RW)] = ('&', ('O', 'wp'))
                I.store[F(THIS, 'p_pool', RW)] = ('&', ('O', 'pp'))
            args = [("&", ('O', 'arg%d' % i)) if d.tu.types[t]["k"] in ("ref", "rref", "rec") else ('s', 'arg%d' % i) for i, (v, n, t) in enumerate(d.params)]
            for p in J.paths(I, fn, setup=setup, args=args, this=THIS):
                es = [e for e in p.trace if e.k == 'pool']
                if len(es) != 1 or es[0].n != op or es[0].o != ('O', pool + 'p'):
                    J.bad("conserve", "%s is passed on to %s" % (fn, ", ".join("%s of the %s pool" % (e.n, "write" if e.o == ('O', 'wp') else "prefetch") for e in es) or "no pool"))
                    continue
                if fn in ("hint", "read") and not any(('&', ('O', 'wp')) == a or a == ('O', 'wp') for a in es[0].a):
                    J.bad("conserve", "%s does not consider the write pool" % fn)
            J.done()


# ------------------------------------------------------------------ buffered writer
BW, BP = "stxxl::buffered_writer", "stxxl::block_prefetcher"


def pairs(P, cls):
    """Member functions per instance of a class template: {name: def}."""
    out = {}
    for d in P.defs.values():
        if d.fn.startswith(cls + "::") and d.fn.count("::") == cls.count("::") + 1:
            out.setdefault(d.f.get("cq") or d.f.get("ct"), {}).setdefault(d.n, d)
    return [x for _, x in sorted(out.items(), key=lambda x: str(x[0]))]


def pending(I, b):
    """Requests of block location b that are not known to be complete."""
    return [r for r, (bl, k, t) in I.user.get("req", {}).items() if bl == b and r not in I.user.get("done", set())]


def writer(ctx, P):
    R = ("conserve", "in-flight", "fresh")
    ms = pairs(P, BW)
    if not ms or not all(x in ms[0] for x in ("buffered_writer", "get_free_block", "write", "flush", "~buffered_writer")):
        raise prog.AnalysisBroken("buffered_writer not found")
    m = ms[0]
    J = Judge(ctx, R, m["write"])
    hist = [(n, b, k, end) for n, b in ((2, 1), (3, 1), (3, 2), (0, 0)) for k in (0, 1, 3, 4) for end in ("flush", "dtor")]
    for n, batch, k, end in hist:
        cfg, W = config(P)
        cfg.array_ctor = True
        cfg.max_paths = 6000
        cfg.models["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'disk_queues'))
        cfg.models["stxxl::disk_queues::set_priority_op"] = lambda I, c: 0
        I = ctx.interp(P, cfg)
        desc = "%d buffers, batch size %d, %d blocks written, then %s" % (n, batch, k, "flush" if end == "flush" else "destruction")

        def body(I):
            say = lambda t: I.user.setdefault("bad", []).append(t)
            I.enter(m["buffered_writer"], THIS, [n, batch])
            held = I.enter(m["get_free_block"], THIS, [])
            log = []

            def handed(v):
                if v is None or I.deref(v)[0] == 'D':
                    raise ai.PathEnd("block not determined: %s" % (v if v is None else show(v)))
                v = I.deref(v)
                if pending(I, v):
                    say(("in-flight", "hands out a block that is still being written"))
                if any(b == v and not e for b, kk, e in unsent(I, log)):
                    say(("fresh", "hands out a block that was given for writing and is not written yet"))
            handed(held)
            for j in range(k):
                W.setbid(I, ('O', 'bid'), 3 * j % 7 + 1)
                log.append((I.deref(held), key(3 * j % 7 + 1)))
                held = I.enter(m["write"], THIS, [held, ('&', ('O', 'bid'))])
                W.setbid(I, ('O', 'bid'), 99)
                handed(held)
            if end == "flush":
                I.enter(m["flush"], THIS, [])
            else:
                I.enter(m["~buffered_writer"], THIS, [])
            I.user["log"] = log
            for b, kk, e in unsent(I, log):
                if not e:
                    say(("fresh", "a block given for writing is never written"))
            ws = [e for e in I.trace if e.k == 'io']
            if len(ws) > len(log):
                say(("fresh", "%d transfers for %d blocks" % (len(ws), len(log))))
            for e in ws:
                if pending(I, e.o):
                    say(("in-flight", "%s returns before every write is complete" % ("flush" if end == "flush" else "the destructor")))
            if end == "flush":
                seen = []
                for j in range(max(n, 2)):
                    v = I.enter(m["get_free_block"], THIS, [])
                    handed(v)
                    if v in seen:
                        say(("conserve", "hands out a block twice"))
                    seen.append(v)
            return 0

        def unsent(I, log):
            """(block, bid, written?) for every block given, matching transfers in order."""
            ws = [(e.o, e.a[0]) for e in I.trace if e.k == 'io' and e.n == 'write']
            out = []
            for x in log:
                ok = x in ws
                if ok:
                    ws.remove(x)
                out.append((x[0], x[1], ok))
            return out
        for p in J.paths(I, desc, body=body, fun=m["write"]):
            if p.out == 'throw':
                J.bad("conserve", "throws (%s)" % desc)
            for r, t in p.I.user.get("bad", ()):
                J.bad(r, "%s (%s)" % (t, desc))
            for e in p.trace:
                if e.k == 'io' and e.a[2]:
                    J.bad("in-flight", "starts a write of a block whose previous write is still in progress (%s)" % desc)
                if e.k == 'freed' and e.o is not None:
                    j = p.trace.index(e)
                    for r, (b, kk, t) in p.I.user.get("req", {}).items():
                        if dom.root(b) == dom.root(e.o) and b[0] in ('I', 'H', 'O') and (b == e.o or b[0] == 'I' and b[1] == e.o) and not before(p.trace[:j], r):
                            J.bad("in-flight", "frees the buffers while a block is still being written (%s)" % desc)
    J.done()


def before(trace, r):
    """The request is known to be complete at the end of this trace."""
    return any(x.o == r and (x.k == 'waitreq' or x.k in ('poll', 'cancel') and x.r == 1 or x.k == 'waitany') for x in trace)


# ------------------------------------------------------------------ prefetcher
def switch_of(I, hl):
    """The on/off switch a completion handler sets, following what the handler object holds."""
    seen, todo = set(), [hl]
    while todo:
        l = todo.pop()
        if l in seen or l is None:
            continue
        seen.add(l)
        for x, v in list(I.store.items()):
            if x == l or x[0] in ('F', 'I') and I.under(x, l):
                v = v[1] if isinstance(v, tuple) and v and v[0] == 'alias' else v
                if isinstance(v, ai.dom.Lin) or not isinstance(v, (tuple,)):
                    if isinstance(v, ai.dom.Lin):
                        o = I.deref(v)
                        if o in I.user["switches"]:
                            return o
                    continue
                if is_ptr(v):
                    if v[1] in I.user["switches"]:
                        return v[1]
                    if v[1][0] in ('H', 'T', 'L'):
                        todo.append(v[1])
    return None


def prefetcher(ctx, P):
    R = ("conserve", "in-flight", "fresh")
    for m in pairs(P, BP):
        if not all(x in m for x in ("block_prefetcher", "pull_block", "block_consumed", "~block_prefetcher")):
            continue
        prefetcher1(ctx, P, m, R)
        return
    raise prog.AnalysisBroken("block_prefetcher not found")


def prefetcher1(ctx, P, m, R):
    J = Judge(ctx, R, m["block_consumed"])
    ptr = m["block_prefetcher"].tu.types[m["block_prefetcher"].params[0][2]]
    for n, nb, order in ((1, 1, (0,)), (1, 3, (0,)), (3, 1, (0, 1, 2)), (3, 2, (0, 1, 2)), (3, 2, (1, 0, 2)), (4, 2, (0, 2, 1, 3)), (3, 3, (2, 1, 0)), (3, 5, (0, 1, 2))):
        for stop in (False, True):
            cfg, W = config(P)
            cfg.array_ctor = True
            cfg.max_paths = 6000
            OS = "stxxl::onoff_switch"

            def osw(h):
                def f(I, c):
                    I.user.setdefault("switches", {}).setdefault(c.obj, False)
                    return h(I, c)
                return f

            def octor(I, c):
                I.user.setdefault("switches", {})[c.obj] = bool(c.args and I.argval(c.args[0]) == 1)
                return 0

            def complete(I, sw):
                for r, l in I.user.get("handler", {}).items():
                    if r in I.user["done"] and not I.user.get("handled", {}).get(r):
                        if l is not None:
                            I.user["switches"][l] = True
                            I.user.setdefault("handled", {})[r] = True

            def is_on(I, c):
                complete(I, c.obj)
                return int(I.user["switches"][c.obj])

            def wait_on(I, c):
                complete(I, c.obj)
                if not I.user["switches"][c.obj]:
                    rs = [r for r, l in I.user.get("handler", {}).items() if l == c.obj and r not in I.user["done"]]
                    if not rs:
                        I.user.setdefault("misuse", []).append((c.node.get("l"), "waits for a block that nothing reads", I.fr.fun.fn))
                        raise ai.PathEnd('misuse')
                    W.fin(I, rs[0])
                    I.ev('waitreq', 'switch', rs[0], (), None, c.node)
                    I.user["switches"][c.obj] = True
                return 0
            for k, h in (("is_on", is_on), ("wait_for_on", wait_on)):
                cfg.models[OS + "::" + k] = osw(h)
            cfg.models[OS + "::onoff_switch"] = octor
            cfg.models[OS + "::~onoff_switch"] = lambda I, c: 0

            def io(I, c):
                t = W.io(I, c, "read")
                e = [x for x in I.trace if x.k == 'io'][-1]
                r = e.a[1]
                hl = None
                if len(c.args) > 1:
                    l = I.evloc(c.args[1])
                    hl = switch_of(I, l)
                    if hl is None:
                        raise ai.PathEnd("completion handler not determined")
                I.user.setdefault("handler", {})[r] = hl
                I.user.setdefault("done", set())
                held = I.user.get("held")
                if held is not None and held == c.obj:
                    I.user.setdefault("bad", []).append(("in-flight", "reads into a block the user still holds"))
                return t
            cfg.models["stxxl::typed_block::read"] = io
            cfg.models["stxxl::stats::get_instance"] = cfg.models["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'stats'))
            for k in ("wait_started", "wait_finished", "read_started", "read_finished"):
                cfg.models["stxxl::stats::" + k] = lambda I, c: 0
            I = ctx.interp(P, cfg)
            desc = "%d blocks, %d buffers, prefetch order %s%s" % (n, nb, ",".join(map(str, order)), ", destroyed early" if stop else "")

            def body(I):
                I.user["switches"] = {}
                say = lambda r, t: I.user.setdefault("bad", []).append((r, t))
                seq, pre = ('O', 'seq'), ('O', 'pre')
                vals = []
                for j in range(n):
                    vals.append((lambda j: lambda l: W.setbid(I, l, j + 1))(j))
                W.S.put(I, seq, vals, "std::vector")
                for j, x in enumerate(order):
                    I.store[('I', pre, j) if j else pre] = x
                b, e = W.S.key(I, seq, 0), W.S.key(I, seq, n)
                if ptr["k"] == "ptr":
                    b, e = ('&', seqmodel.el(seq, 0)), add(('&', seqmodel.el(seq, 0)), n)
                    for j in range(n):
                        W.setbid(I, seqmodel.el(seq, j), j + 1)
                t = ('O', 'noh')
                I.store[F(t, 'm_ptr', 'stxxl::completion_handler')] = 0
                its = []
                for q, v in (("cb", b), ("ce", e)):
                    if ptr["k"] == "rec":
                        I.store[('O', q)] = v
                        its.append(('&', ('O', q)))
                    else:
                        its.append(v)
                I.enter(m["block_prefetcher"], THIS, its + [('&', pre), nb, ('&', t)])

                def check(v, k):
                    if v is None or I.deref(v)[0] == 'D':
                        raise ai.PathEnd("block not determined: %s" % (v if v is None else show(v)))
                    b = I.deref(v)
                    rs = [r for r, (bl, kk, t) in I.user["req"].items() if bl == b]
                    if not rs:
                        say("fresh", "block %d of the sequence is a buffer nothing was read into" % k)
                        return b
                    r = max(rs, key=lambda r: int(r[1][1:]))
                    if I.user["req"][r][1] != key(k + 1):
                        say("fresh", "block %d of the sequence is a buffer with another block's content" % k)
                    if pending(I, b):
                        say("in-flight", "hands out a block that is still being read")
                    return b
                v = I.enter(m["pull_block"], THIS, [])
                I.user["held"] = check(v, 0)
                for k in range(1, n + 1):
                    if stop and k == n - 1:
                        break
                    I.store[('O', 'buf')] = v
                    I.user["held"] = None
                    more = I.enter(m["block_consumed"], THIS, [('&', ('O', 'buf'))])
                    if more is None or not isconst(more):
                        raise ai.PathEnd("result of block_consumed not determined")
                    if bool(more) != (k < n):
                        say("conserve", "block_consumed returns %s after %d of %d blocks" % (str(bool(more)).lower(), k, n))
                        break
                    if k < n:
                        v = I.load(('O', 'buf'))
                        I.user["held"] = check(v, k)
                I.user["held"] = None
                if not stop:
                    got = sorted(e.a[0][1] // 4096 for e in I.trace if e.k == 'io')
                    if got != list(range(1, n + 1)):
                        say("fresh", "reads blocks %s of a sequence of %d" % (", ".join(map(str, got)), n))
                I.enter(m["~block_prefetcher"], THIS, [])
                for r in I.user["req"]:
                    if r not in I.user["done"]:
                        say("in-flight", "the destructor returns while a block is still being read")
                return 0
            for p in J.paths(I, desc, body=body):
                if p.out == 'throw':
                    J.bad("conserve", "throws (%s)" % desc)
                for r, t in p.I.user.get("bad", ()):
                    J.bad(r, "%s (%s)" % (t, desc))
                for e in p.trace:
                    if e.k == 'io' and e.a[2]:
                        J.bad("in-flight", "starts a read into a block whose previous read is still in progress (%s)" % desc)
                    if e.k == 'freed' and e.o is not None:
                        j = p.trace.index(e)
                        for r, (b, kk, t) in p.I.user.get("req", {}).items():
                            if (b == e.o or b[0] == 'I' and b[1] == e.o) and not before(p.trace[:j], r):
                                J.bad("in-flight", "frees the buffers while a block is still being read (%s)" % desc)
    J.done()


def switch_handler(ctx, P):
    """The handler of a prefetch runs the user's handler before it lets the waiting consumer go on."""
    for d in P.find("stxxl::set_switch_handler::operator()")[:1]:
        J = Judge(ctx, ("in-flight",), d)
        cfg, W = config(P)
        cfg.models["stxxl::completion_handler::operator()"] = lambda I, c: I.ev('user handler', 'handler', c.obj, (), None, c.node) and 0
        cfg.models["stxxl::onoff_switch::on"] = lambda I, c: I.ev('on', 'on', c.obj, (), None, c.node) and 0
        I = ctx.interp(P, cfg)

        def setup(I):
            I.store[F(THIS, 'switch_', "stxxl::set_switch_handler")] = ('&', ('O', 'switch'))
        for p in J.paths(I, "", setup=setup, this=THIS):
            es = [e.k for e in p.trace if e.k in ('user handler', 'on')]
            if es != ['user handler', 'on'] or [e.o for e in p.trace if e.k == 'on'] != [('O', 'switch')]:
                J.bad("in-flight", "does not call the user's handler and then switch on, once each")
        J.done()


# ------------------------------------------------------------------ write buffers of wbtl_file
WB = "stxxl::wbtl_file"


def wbtl(ctx, P):
    """Histories of block writes, overwrites, discards and reads against a file of write blocks."""
    R = ("in-flight", "fresh")
    get = lambda n: next((d for d in P.defs.values() if d.fn == WB + "::" + n), None)
    m = {n: get(n) for n in ("wbtl_file", "~wbtl_file", "set_size", "swrite", "sread", "discard")}
    if None in m.values():
        raise prog.AnalysisBroken("wbtl_file not found")
    J = Judge(ctx, R, m["swrite"])
    B = 4096
    hist = [("w0 w1", 4), ("w0 w1 w0 w2 w3", 6), ("w0 w1 w2 w0 w3 w1 w4 w2", 8), ("w0 w1 w2", 4), ("w0 w1 w2 w3 w4", 6), ("w0 w1 w0 w0 w2", 6), ("w0 w0 w0 w0 w0 w1", 6), ("w2 d2 w1 w0 w2 w2", 6), ("w0 w1 w2 w3 d0 d1 w4 w5 w4", 8), ("w0 w1 w2 w1 w3 w0 w1", 8)]
    for per in (1, 2, 3):
        for h, nblk in hist:
            cfg, W = config(P)
            cfg.max_paths = 200
            W.H = None
            for r in P.recs_by_ct.get(WB, []):
                cfg.dyn[THIS] = r
            M = cfg.models
            num = iter(range(1000))

            def alloc(I, c):
                k = I.user["nwb"] = I.user.get("nwb", 0) + 1
                for a in c.args:
                    I.argval(a)
                return ('&', ('O', 'wb%d' % k, 'u'))

            def dealloc(I, c):
                v = I.argval(c.args[0])
                I.ev('freed', 'freed', I.deref(v), (), None, c.node)
                return 0
            M["stxxl::aligned_alloc"] = alloc
            M["stxxl::aligned_dealloc"] = dealloc
            M["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'stats'))
            for n in ("read_cached", "write_cached"):
                M["stxxl::stats::" + n] = lambda I, c: [I.argval(a) for a in c.args] and 0
            cells = lambda l, n: [('I', l[1], add(l[2], B * i)) if l[0] == 'I' else (('I', l, B * i) if i else l) for i in range(n // B)]

            def norm(l):
                return l[1] if l[0] == 'I' and l[2] == 0 else l

            def copy(I, dst, src, n):
                for a, b in zip(cells(dst, n), cells(src, n)):
                    I.user["mem"][norm(a)] = I.user["mem"].get(norm(b), "nothing")

            def memcpy(I, c):
                d, s_, n = [I.argval(a) for a in c.args]
                if not isconst(n) or n % B or n > 16 * B:
                    raise ai.PathEnd("copied size not determined")
                d, s_ = I.deref(d), I.deref(s_)
                for x in cells(d, n):
                    for r, (b, a, nn) in I.user["wr"].items():
                        if r not in I.user.get("done", ()) and dom.root(x) == dom.root(b):
                            say(I, "in-flight", "overwrites a write buffer that the backend is still reading")
                copy(I, d, s_, n)
                return 0

            def say(I, r, t):
                I.user.setdefault("bad", []).append((r, t))

            def memset(I, c):
                d, v, n = [I.argval(a) for a in c.args]
                d = I.deref(d)
                if isconst(n):
                    for x in cells(d, n):
                        I.user["mem"][norm(x)] = "anything"
                return 0
            for ns in ("", "std::"):
                M[ns + "memcpy"], M[ns + "memset"] = memcpy, memset
                M[ns + "malloc"] = lambda I, c: ([I.argval(a) for a in c.args], ('&', ('O', 'junk', 'u')))[1]
                M[ns + "free"] = lambda I, c: [I.argval(a) for a in c.args] and 0

            def aio(kind):
                def f(I, c):
                    a = [I.argval(x) for x in c.args[:3]]
                    buf, off, n = I.deref(a[0]), a[1], a[2]
                    if not isconst(off) or not isconst(n) or n % B or off % B:
                        raise ai.PathEnd("transfer not determined")
                    for r, (b, o, nn) in I.user["wr"].items():
                        if r not in I.user.get("done", ()) and o < off + n and off < o + nn:
                            say(I, "in-flight", "starts a %s of a region of the backend file that a pending write covers" % kind)
                    r = W.newreq(I, buf, None, READ if kind == "read" else WRITE)
                    I.ev('io', kind, buf, ((off, n), r, ()), None, c.node)
                    if kind == "write":
                        I.user["wr"][r] = (buf, off, n)
                        for i, x in enumerate(cells(buf, n)):
                            I.user["disk"][off + B * i] = I.user["mem"].get(norm(x), "nothing")
                    else:
                        for i, x in enumerate(cells(buf, n)):
                            I.user["mem"][norm(x)] = I.user["disk"].get(off + B * i, "nothing")
                    t = I.tmploc()
                    I.store[F(t, 'm_ptr', 'stxxl::counting_ptr')] = ('&', r)
                    return ('obj', t)
                return f
            isbk = lambda n: (lambda f: f["n"] == n and f["k"] == "method" and f.get("ct") == "stxxl::file")
            for n in ("aread", "awrite"):
                cfg.model_pred.insert(0, (isbk(n), aio(n[1:])))

            def setsize(I, c):
                I.user["bsize"] = I.argval(c.args[0])
                return 0
            cfg.model_pred.insert(0, (isbk("size"), lambda I, c: I.user.get("bsize", 0)))
            cfg.model_pred.insert(0, (isbk("set_size"), setsize))
            cfg.model_pred.insert(0, (isbk("discard"), lambda I, c: [I.argval(a) for a in c.args] and 0))
            I = ctx.interp(P, cfg)
            desc = "%d blocks per write buffer, history %s" % (per, h)

            def body(I):
                I.user.update(mem={}, disk={}, wr={}, req={}, done=set())
                I.store[F(F(('O', 'backend', 'u'), 'm_request_ref', 'stxxl::file'), 'm_reference_count', REF)] = 0
                I.enter(m["wbtl_file"], THIS, [('&', ('O', 'backend', 'u')), per * B, 2, 0, -1][:len(m["wbtl_file"].params)])
                I.enter(m["set_size"], THIS, [(nblk + 2 * per) // per * per * B])
                want, src, dst = {}, ('O', 'src', 'u'), ('O', 'dst', 'u')

                def readall():
                    for k in sorted(want):
                        I.user["mem"].pop(dst, None)
                        I.enter(m["sread"], THIS, [('&', dst), k * B, B])
                        got = I.user["mem"].get(dst, "nothing")
                        if got != want[k]:
                            say(I, "fresh", "block %d reads as %s instead of %s after %s" % (k, got, want[k], what))
                what = ""
                for i, s in enumerate(h.split()):
                    what = (what + " " + s).strip()
                    k = int(s[1:])
                    if s[0] == 'w':
                        I.user["mem"][src] = want[k] = "the data of write %d" % (i + 1)
                        I.enter(m["swrite"], THIS, [('&', src), k * B, B])
                    elif k in want:
                        I.enter(m["discard"], THIS, [k * B, B])
                        del want[k]
                    readall()
                I.enter(m["~wbtl_file"], THIS, [])
                return 0
            for p in J.paths(I, desc, body=body):
                if p.out == 'throw':
                    J.open("fresh", "throws (%s)" % desc)
                for r, t in p.I.user.get("bad", ()):
                    J.bad(r, "%s (%s)" % (t, desc))
                for j, e in enumerate(p.trace):
                    if e.k == 'freed':
                        for r, (b, o, n) in p.I.user["wr"].items():
                            if dom.root(b) == dom.root(e.o) and not before(p.trace[:j], r):
                                J.bad("in-flight", "frees a write buffer that the backend is still reading (%s)" % desc)
    J.done()


def run(ctx):
    ctx.rule("conserve", "Every block stays in exactly one place: free, busy, handed out, or freed; the sizes the pools report match")
    ctx.rule("in-flight", "A block whose transfer is still in progress is never handed out alone, counted as free, transferred again or freed")
    ctx.rule("fresh", "A block address names at most one buffer, the one last written or read for it, together with its own request")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "mng.cpp"), os.path.join(prog.REPO, "lib/io/wbtl_file.cpp")])
    one = lambda n: lambda d: len(d.params) == n
    for fn, k in (("write", None), ("steal", one(0)), ("add", None), ("steal_request", None), ("has_request", None), ("resize", None), ("size", None), ("swap", None), ("~write_pool", None), ("check_all_busy", None)):
        ctx.sub(WP + "::" + fn, wpool, ctx, P, fn, k)
    for fn, n in (("add", 1), ("steal", 0), ("hint", 1), ("hint", 2), ("invalidate", 1), ("find", 1), ("poll", 1), ("in_prefetching", 1), ("read", 2), ("read", 3), ("resize", 1), ("swap", 1),
                  ("size", 0), ("free_size", 0), ("busy_size", 0), ("~prefetch_pool", 0)):
        ctx.sub("%s::%s/%d" % (PP, fn, n), ppool, ctx, P, fn, n)
    ctx.sub(RW + "::write", rwpool_write, ctx, P)
    ctx.sub(RW, rwpool_rest, ctx, P)
    ctx.sub(BW, writer, ctx, P)
    ctx.sub(BP, prefetcher, ctx, P)
    ctx.sub("stxxl::set_switch_handler", switch_handler, ctx, P)
    ctx.sub(WB, wbtl, ctx, P)
