"""C12: the block manager hands out and takes back blocks on the right disks (block_manager, allocation strategies)."""
import os
import ai, dom, prog, seqmodel
from dom import add, sub, c_eq, c_lt, c_not, isconst, show, is_ptr
from core import where
from .util import *
from .c11 import pos, decide_eq, report, verdict

BM, DA = "stxxl::block_manager", "stxxl::disk_allocator"
BS = 4096


def elem(name, i):
    b = ('O', name)
    return ('I', b, i) if i else b


def offs(d, j):
    return 0x1000000 * (d + 1) + 0x3000 * j


def config(P, ndisks):
    cfg = ai.base_config()
    cfg.unroll = 6
    cfg.max_paths = 4000
    cfg.array_ctor = True
    S = seqmodel.Seqs(cfg)
    M = cfg.models

    def assign(I, c):
        arg = I.argval(c.args[-1])
        d = I.choose(ndisks, ("disk", len(I.trace)))
        I.ev('assign', 'assign', c.obj, (arg, d), d, c.node)
        return d
    cfg.model_pred.insert(0, (lambda f: f["n"] == "operator()" and f["k"] == "method" and f["fn"].rsplit("::", 2)[-2] in STRATS, assign))

    def memset(I, c):
        p, v, n = [I.argval(a) for a in c.args]
        if is_ptr(p) and isconst(n) and n <= 256:
            l = I.deref(p)
            for i in range(n // 4):
                I.store[('I', l, i) if i else l] = v
        return p
    M["memset"] = memset
    M["std::memset"] = memset

    def disk(I, loc):
        for d in range(ndisks):
            if loc == ('O', 'alloc%d' % d):
                return d
        raise ai.PathEnd("unknown allocator " + dom.showloc(loc) if loc else "unknown allocator")

    def filedisk(I, loc):
        for d in range(ndisks):
            if loc == ('O', 'file%d' % d):
                return d
        raise ai.PathEnd("unknown file")

    def newblocks(I, c):
        d = disk(I, c.obj)
        vals = [I.argval(a) if I.ty(a)["k"] == "ptr" else I.evloc(a) for a in c.args]
        if len(vals) == 1:
            a = vals[0]
            sv = [k for k in (F(a, 'm_array', 'stxxl::simple_vector'),)]
            beg, n = I.store.get(sv[0]), I.store.get(F(a, 'm_size', 'stxxl::simple_vector'))
        else:
            beg, n = vals[0], sub(vals[1], vals[0])
            if isconst(n):
                n = n // 16 if n and n % 16 == 0 else n
        if not is_ptr(beg) or not isconst(n):
            raise ai.PathEnd("blocks to allocate not determined")
        I.ev('alloc', 'alloc', c.obj, (d, n), None, c.node)
        if I.user.get("may_fail") and I.choose(2, ("allocation fails", len(I.trace))):
            I.throw_ext("stxxl::bad_ext_alloc", c.node)
        k = I.user.setdefault(("next", d), 0)
        l = I.deref(beg)
        for j in range(n):
            e = ('I', l, j) if j else l
            I.store[F(e, 'storage', 'stxxl::BID')] = ('&', ('O', 'file%d' % d))
            I.store[F(e, 'offset', 'stxxl::BID')] = offs(d, k + j)
        I.user[("next", d)] = k + n
        return 0

    def delblock(I, c):
        d = disk(I, c.obj)
        b = I.evloc(c.args[0])
        I.ev('delblock', 'delete_block', c.obj, (d, I.load(F(b, 'offset', 'stxxl::BID')), I.load(F(b, 'storage', 'stxxl::BID'))), None, c.node)
        return 0
    M[DA + "::new_blocks"] = newblocks
    M[DA + "::delete_block"] = delblock
    for n in ("get_total_bytes", "get_free_bytes"):
        M[DA + "::" + n] = lambda I, c, n=n: (I.ev('sum', n, c.obj, (disk(I, c.obj),), None, c.node), ('s', "%s%d" % (n, disk(I, c.obj))))[1]
    cfg.model_pred.insert(0, (lambda f: f["n"] == "get_allocator_id" and f["k"] == "method", lambda I, c: I.user["ids"](I, c.obj) if "ids" in I.user else filedisk(I, c.obj)))

    def discard(I, c):
        I.ev('discard', 'discard', c.obj, tuple(I.argval(a) for a in c.args), None, c.node)
        return 0
    cfg.model_pred.insert(0, (lambda f: f["n"] == "discard" and f["k"] == "method", discard))
    return cfg, S


STRATS = ("striping", "FR", "SR", "RC", "RC_disk", "RC_flash", "single_disk", "offset_allocator",
          "interleaved_striping", "interleaved_FR", "interleaved_SR", "interleaved_RC", "first_disk_only", "basic_allocation_strategy")


def disks(I, nd):
    I.store[F(THIS, 'ndisks', BM)] = nd
    I.store[F(THIS, 'disk_allocators', BM)] = ('&', ('O', 'allocs'))
    I.store[F(THIS, 'disk_files', BM)] = ('&', ('O', 'files'))
    for d in range(nd):
        I.store[elem('allocs', d)] = ('&', ('O', 'alloc%d' % d))
        I.store[elem('files', d)] = ('&', ('O', 'file%d' % d))


COUNTERS = ("m_total_allocation", "m_current_allocation", "m_maximum_allocation")


def new_blocks(ctx, P, ds):
    R = ("assignment", "placement", "counters", "all-or-nothing")
    worst, opened, n_ok = {}, {}, 0
    rep = ds[0]
    seen = set()
    for d in ds:
        outt = d.tu.types[d.params[-1][2]]
        if outt["k"] != "ptr" or d.params[1][2] in seen:
            continue
        if len(seen) >= (4 if ctx.thorough else 1):
            break
        seen.add(d.params[1][2])
        for nd, nb in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)) + (((3, 3),) if ctx.thorough else ()):
            for fail in (False, True):
                cfg, S = config(P, nd)
                I = ctx.interp(P, cfg)
                off = pos(I, "first", 0)
                tot, cur, mx = (pos(I, n, 0) for n in ("total0", "current0", "maximum0"))

                def setup(I):
                    disks(I, nd)
                    I.user["may_fail"] = fail
                    for n, v in zip(COUNTERS, (tot, cur, mx)):
                        I.store[F(THIS, n, BM)] = v
                args = [nb, ('&', ('O', 'functor')), off, ('&', ('O', 'out'))]
                if d.tu.types[d.params[1][2]]["k"] != "ref":
                    continue
                for p in I.paths(d, setup=setup, args=args, this=THIS):
                    if p.why == 'misuse':
                        worst.setdefault("placement", "%s" % (p.I.user["misuse"][0][1]))
                        continue
                    if p.why == 'abort' and not dom.infeasible(p.facts):
                        worst.setdefault("placement", "an assertion fails%s (%d blocks on %d disks)" % (at_abort(p), nb, nd))
                        continue
                    if p.out not in ('ret', 'throw'):
                        opened.setdefault("placement", "path ended: %s" % p.why)
                        continue
                    if dom.infeasible(p.facts):
                        continue
                    n_ok += 1
                    asg = [x for x in p.trace if x.k == 'assign']
                    als = [x for x in p.trace if x.k == 'alloc']
                    chosen = [x.a[1] for x in asg]
                    desc = "%d blocks, %d disks, chosen disks %s" % (nb, nd, chosen)
                    if p.out == 'throw':
                        got = {d_: p.I.user.get(("next", d_), 0) for d_ in range(nd)}
                        back = [(x.a[0], x.a[1]) for x in p.trace if x.k == 'delblock']
                        want = sorted((d_, offs(d_, j)) for d_ in got for j in range(got[d_]))
                        if any(not isconst(o) for _, o in back):
                            opened.setdefault("all-or-nothing", "freed blocks not determined")
                        elif sorted(back) != want:
                            worst.setdefault("all-or-nothing", "when a disk cannot provide its blocks, %s (%s)" % (
                                "blocks of the other disks stay allocated" if set(back) < set(want) else "blocks that were not allocated are freed", desc))
                        for n, v in zip(COUNTERS, (tot, cur, mx)):
                            verdict(worst, opened, "all-or-nothing", decide_eq(p, p.store.get(F(THIS, n, BM)), v), "%s changes although the allocation fails" % n)
                        continue
                    # the strategy is asked once per block, with the position of the block
                    if len(asg) != nb:
                        worst.setdefault("assignment", "the strategy is asked %d times for %d blocks" % (len(asg), nb))
                        continue
                    for i, x in enumerate(asg):
                        verdict(worst, opened, "assignment", decide_eq(p, x.a[0], add(off, i)), "the strategy is asked about position %s instead of %s (%s)" % (show(x.a[0]), show(add(off, i)), desc))
                    want = {d_: chosen.count(d_) for d_ in range(nd)}
                    got = {}
                    for x in als:
                        got[x.a[0]] = got.get(x.a[0], 0) + x.a[1]
                    for d_ in range(nd):
                        if got.get(d_, 0) != want[d_]:
                            worst.setdefault("placement", "%d blocks are allocated on disk %d instead of %d (%s)" % (got.get(d_, 0), d_, want[d_], desc))
                    res = []
                    for i in range(nb):
                        b = elem('out', i)
                        res.append((p.store.get(F(b, 'storage', 'stxxl::BID')), p.store.get(F(b, 'offset', 'stxxl::BID'))))
                    if any(s is None or o is None for s, o in res):
                        worst.setdefault("placement", "block %d is not stored to the output (%s)" % ([i for i, r in enumerate(res) if None in r][0], desc))
                        continue
                    for i, (s, o) in enumerate(res):
                        if s != ('&', ('O', 'file%d' % chosen[i])):
                            if s and is_ptr(s):
                                worst.setdefault("placement", "block %d refers to %s instead of the file of disk %d (%s)" % (i, show(s), chosen[i], desc))
                            else:
                                opened.setdefault("placement", "file of block %d not determined" % i)
                    allowed = {d_: [offs(d_, j) for j in range(want[d_])] for d_ in range(nd)}
                    for i, (s, o) in enumerate(res):
                        if outside(p, o):
                            worst.setdefault("placement", "block %d gets its offset from outside the table of allocated blocks (%s)" % (i, desc))
                        elif not isconst(o):
                            opened.setdefault("placement", "offset of block %d not determined" % i)
                        elif o not in allowed[chosen[i]]:
                            worst.setdefault("placement", "block %d gets offset %s, which %s (%s)" % (
                                i, show(o), "another block got as well" if o in sum((allowed[x] for x in ()), []) or [y for _, y in res].count(o) > 1 else "was not allocated on its disk", desc))
                        else:
                            allowed[chosen[i]].remove(o)
                    if True:
                        st = p.store
                        verdict(worst, opened, "counters", decide_eq(p, st.get(F(THIS, COUNTERS[0], BM)), add(tot, BS * nb)), "total allocation becomes %s after %d blocks of %d bytes" % (show(st.get(F(THIS, COUNTERS[0], BM))), nb, BS))
                        c1 = st.get(F(THIS, COUNTERS[1], BM))
                        verdict(worst, opened, "counters", decide_eq(p, c1, add(cur, BS * nb)), "current allocation becomes %s after %d blocks of %d bytes" % (show(c1), nb, BS))
                        m1 = st.get(F(THIS, COUNTERS[2], BM))
                        big = dom.entails(p.facts, c_lt(mx, c1))
                        if m1 is None or big is None and decide_eq(p, m1, mx) is None and decide_eq(p, m1, c1) is None:
                            opened.setdefault("counters", "maximum allocation not determined: %s" % (show(m1) if m1 is not None else None))
                        elif big is not None:
                            verdict(worst, opened, "counters", decide_eq(p, m1, c1 if big else mx), "maximum allocation becomes %s with %s allocated and %s before" % (show(m1), show(c1), show(mx)))
                ctx.used(I)
    report(ctx, R, rep, worst, opened, n_ok)


def at_abort(p):
    for x in reversed(p.trace):
        if x.k == 'noreturn':
            return " at line %s of %s" % (x.line, x.fn)
    return ""


def outside(p, o):
    """o was read from an element beyond the end of an array of known size."""
    if not isinstance(o, tuple) or o[0] != 's':
        l = o
    else:
        l = o[1]
    while isinstance(l, tuple) and l and l[0] == 'F':
        l = l[1]
    if not (isinstance(l, tuple) and l and l[0] == 'I' and isconst(l[2])):
        return False
    return any(x.k == 'new[]' and x.o == l[1] and isconst(x.a[0]) and l[2] >= x.a[0] for x in p.trace)


def delete_block(ctx, P, ds):
    worst, opened, n_ok = {}, {}, 0
    d = ds[0]
    R = ("release", "counters")
    for kind in ("null", "unmanaged", 0, 1, 2):
        cfg, S = config(P, 3)
        I = ctx.interp(P, cfg)
        off, cur = pos(I, "offset", 0), pos(I, "current0", BS)

        def ids(I, loc):
            if loc == ('O', 'file'):
                return -1 if kind == "unmanaged" else kind
            for x in range(3):
                if loc == ('O', 'file%d' % x):
                    return x
            raise ai.PathEnd("unknown file")

        def setup(I):
            disks(I, 3)
            I.user["ids"] = ids
            b = ('O', 'bid')
            f = 0 if kind == "null" else ('&', ('O', 'file' if kind == "unmanaged" else 'file%d' % kind))
            I.store[F(b, 'storage', 'stxxl::BID')] = f
            I.store[F(b, 'offset', 'stxxl::BID')] = off
            I.store[F(THIS, COUNTERS[1], BM)] = cur
        desc = {"null": "invalid block", "unmanaged": "block of a file without allocator"}.get(kind, "block on disk %s" % kind)
        for p in I.paths(d, setup=setup, args=[('&', ('O', 'bid'))], this=THIS):
            if p.out not in ('ret', 'throw'):
                if isinstance(kind, str) and p.why == 'abort':
                    worst.setdefault("release", "aborts for an %s" % desc)
                opened.setdefault("release", "path ended: %s" % p.why)
                continue
            if dom.infeasible(p.facts):
                continue
            n_ok += 1
            dis = [x for x in p.trace if x.k == 'discard']
            rel = [x for x in p.trace if x.k == 'delblock']
            c1 = p.store.get(F(THIS, COUNTERS[1], BM))
            if isinstance(kind, str):
                if dis or rel:
                    worst.setdefault("release", "%s is passed to %s" % (desc, "an allocator" if rel else "discard()"))
                verdict(worst, opened, "counters", decide_eq(p, c1, cur), "current allocation becomes %s for an %s" % (show(c1), desc))
                continue
            if p.out == 'throw':
                worst.setdefault("release", "throws for a %s" % desc)
                continue
            if len(rel) != 1 or rel[0].a[0] != kind:
                worst.setdefault("release", "a %s is given back %d times%s" % (desc, len(rel), "" if not rel else ", to allocator %d" % rel[0].a[0]))
                continue
            verdict(worst, opened, "release", decide_eq(p, rel[0].a[1], off), "a block at %s is given back at %s" % (show(off), show(rel[0].a[1])))
            for x in dis:
                if x.o != ('O', 'file%d' % kind):
                    worst.setdefault("release", "discards the range of a %s in another file" % desc)
                    continue
                verdict(worst, opened, "release", decide_eq(p, x.a[0], off), "discards at %s the range of a block at %s" % (show(x.a[0]), show(off)))
                verdict(worst, opened, "release", decide_eq(p, x.a[1], BS), "discards %s bytes of a block of %d bytes" % (show(x.a[1]), BS))
                if p.trace.index(x) > p.trace.index(rel[0]):
                    worst.setdefault("release", "discards the range of a block after giving it back (it may be in use again)")
            if not dis:
                worst.setdefault("release", "does not tell the file that the %s is unused" % desc)
            verdict(worst, opened, "counters", decide_eq(p, c1, sub(cur, BS)), "current allocation becomes %s after freeing %d bytes of %s" % (show(c1), BS, show(cur)))
        ctx.used(I)
    report(ctx, R, d, worst, opened, n_ok)


def delete_blocks(ctx, P, ds):
    worst, opened, n_ok = {}, {}, 0
    R = "release"
    for d in [x for x in ds if P_ptr(x)][:1] + [x for x in ds if not P_ptr(x)][:1]:
        cfg, S = config(P, 1)
        I = ctx.interp(P, cfg)
        bs = [('O', 'bids'), ('I', ('O', 'bids'), 1), ('I', ('O', 'bids'), 2)]

        def rec(I, c):
            I.ev('rel', 'delete_block', I.evloc(c.args[0]), (), None, c.node)
            return 0
        cfg.models[BM + "::delete_block"] = rec
        vec = not P_ptr(d)
        for n in (0, 1, 3):
            def setup(I):
                if vec:
                    S.put(I, ('O', 'v'), [lambda l: None] * n)
                    els = S.elems(I, ('O', 'v'))
                    I.user["want"] = list(els)
                    for nm, i in (("b", 0), ("e", n)):
                        I.store[('O', nm)] = S.key(I, ('O', 'v'), i)
                else:
                    I.user["want"] = bs[:n]
                    I.store[('O', 'b')] = ('&', bs[0])
                    I.store[('O', 'e')] = add(('&', bs[0]), n)
            for p in I.paths(d, setup=setup, args=[('&', ('O', 'b')), ('&', ('O', 'e'))], this=THIS):
                if p.out != 'ret':
                    opened.setdefault(R, "path ended: %s" % p.why)
                    continue
                n_ok += 1
                got = [x.o for x in p.trace if x.k == 'rel']
                if got != p.I.user["want"]:
                    worst.setdefault(R, "delete_blocks of %d blocks frees %d (%s)" % (n, len(got), ", ".join(dom.showloc(x) if x else "?" for x in got)))
        ctx.used(I)
    report(ctx, (R,), d, worst, opened, n_ok)


def P_ptr(d):
    t = d.tu.types[d.params[0][2]]
    return t["k"] == "ref" and d.tu.types[t["pt"]]["k"] == "ptr"


def sums(ctx, P, d, part):
    worst, opened, n = {}, {}, 0
    for nd in (1, 2, 3):
        cfg, S = config(P, nd)
        I = ctx.interp(P, cfg)
        for p in I.paths(d, setup=lambda I: disks(I, nd), this=THIS):
            if p.out != 'ret':
                opened.setdefault("counters", p.why)
                continue
            n += 1
            want = 0
            for i in range(nd):
                want = add(want, ('s', "%s%d" % (part, i)))
            verdict(worst, opened, "counters", decide_eq(p, p.val, want), "%s of %d disks is %s" % (d.f["n"], nd, show(p.val)))
        ctx.used(I)
    report(ctx, ("counters",), d, worst, opened, n)


def lifetime(ctx, P):
    """Every disk of the configuration gets its own file and allocator; allocators are destroyed before their files."""
    for d in P.find(BM + "::block_manager"):
        worst, opened, n = {}, {}, 0
        for nd, defq in ((1, 1), (2, 0), (2, 1)):
            cfg, S = config(P, nd)
            I = ctx.interp(P, cfg)
            CF = "stxxl::config"
            cfg.models[CF + "::get_instance"] = lambda I, c: ('&', ('O', 'config'))
            cfg.models["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'config'))
            cfg.models[CF + "::check_initialized"] = lambda I, c: 0
            cfg.models[CF + "::disks_number"] = lambda I, c: nd

            def disk(I, c):
                i = I.argval(c.args[0])
                if not isconst(i):
                    raise ai.PathEnd("disk number not determined")
                return ('&', elem('cfgs', i))
            cfg.models[CF + "::disk"] = disk

            def create(I, c):
                cl = I.evloc(c.args[0])
                k = I.user["nf"] = I.user.get("nf", 0) + 1
                I.ev('create', 'create_file', ('O', 'nf%d' % k), (cl,) + tuple(I.argval(a) for a in c.args[1:]), None, c.node)
                return ('&', ('O', 'nf%d' % k))
            cfg.models["stxxl::create_file"] = create

            def actor(I, c):
                I.ev('actor', 'ctor', c.obj, (I.argval(c.args[0]), I.evloc(c.args[1])), None, c.node)
                return 0
            cfg.models[DA + "::disk_allocator"] = actor

            def setup(I):
                for i in range(nd):
                    I.store[F(elem('cfgs', i), 'queue', 'stxxl::disk_config')] = -1 if defq else 7
            for p in I.paths(d, setup=setup, this=THIS):
                if p.out != 'ret':
                    if p.out != 'throw':
                        opened.setdefault("lifetime", "path ended: %s" % p.why)
                    continue
                n += 1
                st = p.store
                cr = {x.o: x for x in p.trace if x.k == 'create'}
                ac = {x.o: x for x in p.trace if x.k == 'actor'}
                df, da = st.get(F(THIS, 'disk_files', BM)), st.get(F(THIS, 'disk_allocators', BM))
                if not df or not da or not is_ptr(df) or not is_ptr(da):
                    opened.setdefault("lifetime", "tables not determined")
                    continue
                verdict(worst, opened, "lifetime", decide_eq(p, st.get(F(THIS, 'ndisks', BM)), nd), "the number of disks becomes %s with %d configured" % (show(st.get(F(THIS, 'ndisks', BM))), nd))
                for i in range(nd):
                    f = st.get(('I', p.I.deref(df), i) if i else p.I.deref(df))
                    a = st.get(('I', p.I.deref(da), i) if i else p.I.deref(da))
                    if f is None or a is None or not is_ptr(f) or not is_ptr(a):
                        worst.setdefault("lifetime", "disk %d gets no %s" % (i, "file" if f is None else "allocator")) if f is None or a is None else opened.setdefault("lifetime", "entry %d" % i)
                        continue
                    x, y = cr.get(p.I.deref(f)), ac.get(p.I.deref(a))
                    if not x or not y:
                        opened.setdefault("lifetime", "entry %d" % i)
                        continue
                    if x.a[0] != elem('cfgs', i) or decide_eq(p, x.a[2], i) is False:
                        worst.setdefault("lifetime", "the file of disk %d is created for %s with number %s" % (i, dom.showloc(x.a[0]), show(x.a[2])))
                    if y.a[0] != f:
                        worst.setdefault("lifetime", "the allocator of disk %d manages another disk's file" % i)
                    if y.a[1] != elem('cfgs', i):
                        worst.setdefault("lifetime", "the allocator of disk %d is set up for %s" % (i, dom.showloc(y.a[1])))
                for i in range(nd):
                    q = st.get(F(elem('cfgs', i), 'queue', 'stxxl::disk_config'))
                    verdict(worst, opened, "lifetime", decide_eq(p, q, i if defq else 7), "disk %d, whose queue is %s, gets queue %s" % (i, "the default" if defq else "7", show(q)))
                for c in COUNTERS:
                    verdict(worst, opened, "counters", decide_eq(p, st.get(F(THIS, c, BM)), 0), "%s starts at %s" % (c, show(st.get(F(THIS, c, BM)))))
            ctx.used(I)
        report(ctx, ("lifetime", "counters"), d, worst, opened, n)
    for d in P.find(BM + "::~block_manager"):
        worst, opened, n = {}, {}, 0
        for nd in (1, 2, 3):
            cfg, S = config(P, nd)
            I = ctx.interp(P, cfg)

            def gone(I, c):
                I.ev('gone', 'dtor', c.obj, (), None, c.node)
                return 0
            cfg.models[DA + "::~disk_allocator"] = gone
            cfg.model_pred.insert(0, (lambda f: f["n"] == "~file", gone))
            for p in I.paths(d, setup=lambda I: disks(I, nd), this=THIS):
                if p.out != 'ret':
                    opened.setdefault("lifetime", p.why)
                    continue
                n += 1
                g = [x.o for x in p.trace if x.k == 'gone']
                for i in range(nd):
                    a, f = ('O', 'alloc%d' % i), ('O', 'file%d' % i)
                    if g.count(a) != 1 or g.count(f) != 1:
                        worst.setdefault("lifetime", "the destructor destroys the %s of disk %d %d times (%d disks)" % ("allocator" if g.count(a) != 1 else "file", i, g.count(a) if g.count(a) != 1 else g.count(f), nd))
                    elif g.index(a) > g.index(f):
                        worst.setdefault("lifetime", "the destructor destroys the file of disk %d before its allocator" % i)
            ctx.used(I)
        report(ctx, ("lifetime",), d, worst, opened, n)


def run(ctx):
    ctx.rule("assignment", "The allocation strategy is asked once per block, with the block's position in the allocation")
    ctx.rule("placement", "Every block lies in the file of the disk chosen for it, at an offset allocated on that disk and given to no other block")
    ctx.rule("all-or-nothing", "An allocation that fails on one disk keeps no blocks of the others and changes no counter")
    ctx.rule("release", "Freeing gives every valid block of a managed file back to its disk's allocator exactly once, after telling the file; other blocks are left alone")
    ctx.rule("counters", "Allocation counters and capacity sums match the blocks handed out and taken back on all disks")
    ctx.rule("strategy", "An allocation strategy assigns only disks of its range; striping, SR and RC use every disk once in any as many consecutive blocks (of a run, interleaved)")
    ctx.rule("lifetime", "Every configured disk has its own file and allocator, destroyed once, the allocator first")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "mng.cpp"), os.path.join(prog.REPO, "lib/mng/block_manager.cpp")])
    nb = P.find(BM + "::new_blocks_int")
    ctx.sub("new_blocks", new_blocks, ctx, P, nb)
    ctx.sub("delete_block", delete_block, ctx, P, P.find(BM + "::delete_block"))
    ctx.sub("delete_blocks", delete_blocks, ctx, P, P.find(BM + "::delete_blocks"))
    for part in ("get_total_bytes", "get_free_bytes"):
        for d in P.find(BM + "::" + part):
            ctx.sub(d.fn, sums, ctx, P, d, part)
    ctx.sub("lifetime", lifetime, ctx, P)
    strategies(ctx, P)


def strat_config(P, default):
    cfg = ai.base_config()
    cfg.unroll = 14
    cfg.max_paths = 600
    S = seqmodel.Seqs(cfg)

    def rnd(I, c):
        n = I.argval(c.args[0])
        if not isconst(n) or n > 4 or n < 1:
            raise ai.PathEnd("random range not determined")
        return I.choose(n, ("random", len(I.trace)))
    cfg.models["stxxl::random_number::operator()"] = rnd

    def shuffle(I, c):
        a, b = S.normv(I, I.argval(c.args[0])), S.normv(I, I.argval(c.args[1]))
        if not a or not b or a[0] != 'seqit' or a[1] != b[1]:
            raise ai.PathEnd("shuffled range not determined")
        ls = S.elems(I, a[1])[S.pos(I, a):S.pos(I, b)]
        vs = [I.store.get(l) for l in ls]
        for i in range(len(vs) - 1, 0, -1):
            j = I.choose(i + 1, ("shuffle", i, len(I.trace)))
            vs[i], vs[j] = vs[j], vs[i]
        for l, v in zip(ls, vs):
            I.store[l] = v
        I.trace.append(ai.Ev('shuffle', 'random_shuffle'))
        return 0
    cfg.models["std::random_shuffle"] = shuffle
    cfg.models["std::shuffle"] = shuffle
    cfg.models["stxxl::singleton::get_instance"] = lambda I, c: ('&', ('O', 'config'))
    cfg.models["stxxl::config::disks_number"] = lambda I, c: default[2]

    FD = F(('O', 'config'), 'first_flash', 'stxxl::config')
    return cfg, S, FD


CYCLIC = ("striping", "SR", "RC", "RC_disk", "RC_flash")


def strategies(ctx, P):
    for fn, kind in (("drv::assign_seq", "seq"), ("drv::assign_runs", "runs"), ("drv::assign_default", "default"), ("drv::assign_offset", "offset")):
        for d in P.find(fn):
            ctx.sub(fn, strategy, ctx, P, d, kind)


def strategy(ctx, P, d, kind):
    # the strategy is the type of the local variable s
    vt = next((d.tu.types[v["t"]] for v in vars_of(d) if v.get("n") == "s"), None)
    if not vt:
        raise AnalysisBroken("driver variable not found")
    name = vt["ct"].rsplit("::", 1)[-1]
    R = "strategy"
    worst, opened, n_ok = {}, {}, 0
    inst = "%s (%s)" % (name, kind)
    FF, ND = 3, 4            # disks 0..2 regular, 3 flash
    for b, diff in ((0, 1), (0, 3), (2, 2)) if kind != "default" else ((0, ND),):
        for first in (0, 1):
            nrun = 2 if kind == "runs" else 1
            cfg, S, FD = strat_config(P, (0, FF, ND))
            if kind == "default":
                b, diff = {"RC_disk": (0, FF), "RC_flash": (FF, ND - FF), "single_disk": (0, 1)}.get(name, (0, ND))
            if diff > 3:
                cfg.max_paths = 200
            I = ctx.interp(P, cfg)
            n = min(2 * diff * nrun, 12)
            off = 2 if kind == "offset" else 0

            def setup(I):
                I.store[FD] = FF
                I.store[F(('O', 'config'), 'is_initialized', 'stxxl::config')] = 1
                for i in range(ND):
                    pass
                S.put(I, F(("O", "config"), "disks_list", 'stxxl::config'), [lambda l: None] * ND)
            a = {"seq": [b, b + diff], "runs": [nrun, b, b + diff], "default": [], "offset": [off, b, b + diff]}[kind] + [first, n, ('&', ('O', 'out'))] + ([('&', ('O', 'ref'))] if kind == "offset" else [])
            for p in I.paths(d, setup=setup, args=a):
                if p.out != 'ret':
                    opened.setdefault(R, "path ended: %s" % p.why)
                    continue
                out = [p.store.get(elem('out', i)) for i in range(n)]
                if any(not isconst(x) for x in out if x is not None) or None in out:
                    opened.setdefault(R, "assigned disks not determined: %s" % [show(x) if x is not None else None for x in out][:4])
                    continue
                n_ok += 1
                if kind == "offset" and "FR" not in name:
                    ref = [p.store.get(elem('ref', i)) for i in range(n)]
                    if None not in ref and all(isconst(x) for x in ref) and ref != out:
                        worst.setdefault(R, "with offset %d, blocks %d..%d go to disks %s instead of %s" % (off, first, first + n - 1, out, ref))
                desc = "disks [%d,%d), blocks %d..%d%s go to %s" % (b, b + diff, first, first + n - 1, " of 2 runs" if nrun > 1 else "", out)
                if name == "single_disk":
                    want = b
                    if any(x != want for x in out):
                        worst.setdefault(R, "not the one disk %d: %s" % (want, desc))
                    continue
                if any(not b <= x < b + diff for x in out):
                    worst.setdefault(R, "disk outside the range: " + desc)
                    continue
                if name in CYCLIC:
                    for r in range(nrun):
                        run = [out[i] for i in range(n) if (first + i) % nrun == r]
                        for k in range(0, len(run) - diff + 1):
                            if len(set(run[k:k + diff])) != diff:
                                worst.setdefault(R, "%d consecutive blocks%s do not use all %d disks: %s" % (diff, " of a run" if nrun > 1 else "", diff, desc))
            ctx.used(I)
    if R in worst:
        ctx.bad(R, inst, "include/stxxl/bits/mng/block_alloc%s.h" % ("_interleaved" if kind == "runs" else ""), worst[R])
    elif R in opened or not n_ok:
        ctx.undecided(R, inst, where(d), opened.get(R) or "no complete path")
    else:
        ctx.ok(R, inst, where(d), "%d paths" % n_ok)
