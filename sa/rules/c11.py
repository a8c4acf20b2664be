"""C11: accounting of free external memory (disk_allocator, wbtl_file)."""
import os
import ai, dom, prog, mapmodel
from dom import add, sub, c_eq, c_lt, c_not, isconst, show
from core import where
from .util import *

DA, WB = "stxxl::disk_allocator", "stxxl::wbtl_file"


def pos(I, name, lo):
    v = ('s', name)
    dom.tbounds[dom.tid(v)] = (lo, None)
    return v


def decide_eq(p, a, b):
    """True proved, False refuted with a witness, None open."""
    if a is None or b is None:
        return None
    c = c_eq(a, b)
    d = dom.entails(p.facts, c)
    if d is not None:
        return d
    return False if dom.witness(p.facts, c) is not None else None


def same_map(p, got, want):
    """None: equal; a text: differs; ...: open."""
    if len(got) != len(want):
        return "%d free regions instead of %d" % (len(got), len(want))
    got = list(got)
    open_ = False
    for (k, v), (wk, wv) in zip(got, want):
        for what, a, b in (("start", k, wk), ("size", v, wv)):
            d = decide_eq(p, a, b)
            if d is False:
                return "a free region has %s %s instead of %s" % (what, show(a), show(b))
            if d is None:
                open_ = True
    return "" if open_ else None


def layouts(I, k):
    """k regions: list of (start, size), symbolic, separated by at least one byte."""
    cur = pos(I, "lead", 0)
    out = []
    for i in range(k):
        s = pos(I, "size%d" % i, 1)
        out.append((cur, s))
        cur = add(add(cur, s), pos(I, "gap%d" % i, 1))
    return out


def free_scenarios(maxk):
    for k in range(0, maxk + 1):
        for j in range(0, k + 1):
            for la in ((0, 1) if j > 0 else (1,)):
                for ra in ((0, 1) if j < k else (1,)):
                    yield ("free", k, j, la, ra)
        for i in range(k):
            yield ("inside", k, i, 0, 0)
            yield ("across", k, i, 0, 0)


def build(sc):
    """(regions before, position, size, regions after or None when it must be refused)"""
    kind, k, j, la, ra = sc
    S = lambda n, lo: pos(None, n, lo)
    size = S("blocksize", 1)
    if kind == "free":
        regs, cur = [], S("lead", 0)
        newpos = None
        after = []
        for i in range(k + 1):
            if i == j:
                if i > 0 and la:
                    cur = add(cur, S("lgap", 1))
                newpos = cur
                cur = add(cur, size)
                if i < k and ra:
                    cur = add(cur, S("rgap", 1))
            elif i > 0:
                cur = add(cur, S("gap%d" % i, 1))
            if i < k:
                s = S("size%d" % i, 1)
                regs.append((cur, s))
                cur = add(cur, s)
        np, ns = newpos, size
        after = list(regs)
        lo, hi = j, j
        if j > 0 and not la:
            np, ns, lo = regs[j - 1][0], add(regs[j - 1][1], ns), j - 1
        if j < k and not ra:
            ns, hi = add(ns, regs[j][1]), j + 1
        after[lo:hi] = [(np, ns)]
        return regs, newpos, size, after
    regs = layouts(None, k)
    if kind == "inside":
        o, r = S("into", 0), S("rest", 1)
        # region size = into + rest, so the block starts inside it
        regs[j] = (regs[j][0], add(o, r))
        cur = add(regs[j][0], regs[j][1])
        for i in range(j + 1, k):
            cur = add(cur, S("gap%d" % i, 1))
            regs[i] = (cur, regs[i][1])
            cur = add(cur, regs[i][1])
        return regs, add(regs[j][0], o), size, None
    b = S("before", 1)
    # starts b bytes before region j and reaches into it; the gap before the region is at least b
    shift = b
    regs = [r if i < j else (add(r[0], shift), r[1]) for i, r in enumerate(regs)]
    return regs, sub(regs[j][0], b), add(b, S("reach", 1)), None


def scname(sc):
    kind, k, j, la, ra = sc
    if kind == "free":
        return "%d regions, block at position %d, %s left, %s right" % (k, j, "gap" if la else "adjacent", "gap" if ra else "adjacent")
    return "%d regions, block %s region %d" % (k, "starts inside" if kind == "inside" else "reaches into", j)


def config(P):
    cfg = ai.base_config()
    cfg.unroll = 6
    cfg.recursion = 6
    cfg.max_paths = 3000
    M = mapmodel.Maps(cfg)

    def setsize(I, c):
        v = I.argval(c.args[0])
        I.ev('setsize', 'set_size', c.obj, (v,), None, c.node)
        if I.user.get("setsize_fails") and I.choose(2, ("set_size fails", len(I.trace))):
            I.throw_ext("stxxl::io_error", c.node)
        I.ev('grown', 'set_size', c.obj, (v,), None, c.node)
        return 0
    cfg.model_pred.insert(0, (lambda f: f["n"] == "set_size" and f["k"] == "method" and f.get("virt", 0), setsize))
    cfg.models["stxxl::file::set_size"] = setsize
    for n in ("dump", "deallocation_error"):
        cfg.models[DA + "::" + n] = lambda I, c: 0
    return cfg, M


def put(I, M, cls, regs, fb):
    m = F(THIS, 'free_space', cls)
    M.put(I, m, regs)
    I.store[F(THIS, 'free_bytes', cls)] = fb


def total(regs):
    t = 0
    for _, s in regs:
        t = add(t, s)
    return t


def add_region(ctx, P, cls, d, wrap=None):
    """Freeing a region: coalescing, accounting, refusal of double frees."""
    inst0 = d.fn
    worst = {"coalesce": None, "refuse": None}
    count = {"coalesce": 0, "refuse": 0}
    opened = {"coalesce": "", "refuse": ""}
    for sc in free_scenarios(4 if ctx.thorough else 3):
        regs, p0, size, after = build(sc)
        rule = "coalesce" if after is not None else "refuse"
        cfg, M = config(P)
        I = ctx.interp(P, cfg)
        fb = pos(None, "free0", 0)

        def setup(I):
            put(I, M, cls, regs, fb)
            if wrap:
                wrap(I, p0, size)
        args = [p0, size] if not wrap else None
        n = 0
        for p in I.paths(d, setup=setup, args=args, this=THIS):
            if p.why == 'misuse':
                worst[rule] = worst[rule] or "%s at line %s of %s (%s)" % (p.I.user["misuse"][0][1], p.I.user["misuse"][0][0], p.I.user["misuse"][0][2], scname(sc))
                continue
            if dom.infeasible(p.facts):
                continue
            if p.out not in ('ret', 'throw'):
                opened[rule] = opened[rule] or "path ended: %s (%s)" % (p.why, scname(sc))
                continue
            n += 1
            got = M.entries(p.I, p.store, F(THIS, 'free_space', cls))
            f1 = p.store.get(F(THIS, 'free_bytes', cls))
            want, wf = (after, add(fb, size)) if after is not None else (regs, fb)
            if (p.out == 'throw') != (after is None):
                worst[rule] = worst[rule] or ("%s (%s)" % ("throws for a region that is in use" if p.out == 'throw' else "accepts a region that is already free", scname(sc)))
                continue
            m = same_map(p, got, want)
            if m:
                worst[rule] = worst[rule] or "%s (%s)" % (m, scname(sc))
            elif m == "":
                opened[rule] = opened[rule] or "map not determined: %s vs %s (%s)" % (show_map(got), show_map(want), scname(sc))
            e = decide_eq(p, f1, wf)
            if e is False:
                worst[rule] = worst[rule] or "free_bytes becomes %s instead of %s (%s)" % (show(f1), show(wf), scname(sc))
            elif e is None:
                opened[rule] = opened[rule] or "free_bytes not determined: %s" % (show(f1) if f1 is not None else None)
        ctx.used(I)
        if n:
            count[rule] += 1
    for rule in ("coalesce", "refuse"):
        if worst[rule]:
            ctx.bad(rule, inst0, where(d), worst[rule])
        elif opened[rule] or not count[rule]:
            ctx.undecided(rule, inst0, where(d), opened[rule] or "no complete path")
        else:
            ctx.ok(rule, inst0, where(d), "%d layouts" % count[rule])


def merged(p, regs):
    """Joins neighbouring regions that the path proves adjacent."""
    out = []
    for a, n in regs:
        if out and dom.entails(p.facts, c_eq(add(*out[-1]), a)):
            out[-1] = (out[-1][0], add(out[-1][1], n))
        else:
            out.append((a, n))
    return out


def le(p, a, b):
    """a <= b"""
    d = dom.entails(p.facts, c_lt(b, a))
    return None if d is None else not d


def apart(p, a, b):
    """Two regions do not overlap: True, False, None."""
    if le(p, add(*a), b[0]) or le(p, add(*b), a[0]):
        return True
    if dom.entails(p.facts, c_lt(b[0], add(*a))) and dom.entails(p.facts, c_lt(a[0], add(*b))):
        return False
    return None


def within(p, a, regs):
    r = False
    for b in regs:
        lo, hi = le(p, b[0], a[0]), le(p, add(*a), add(*b))
        if lo and hi:
            return True
        if lo is None or hi is None:
            r = None
    return r


def blocks_of(p, n, rec="stxxl::BID"):
    out = []
    for i in range(n):
        v = None
        for base in ([('I', ('O', 'bids'), i), ('O', 'bids')] if i == 0 else [('I', ('O', 'bids'), i)]):
            v = p.store.get(('F', base, 'offset', rec))
            if v is not None:
                break
        out.append(v)
    return out


def new_blocks(ctx, P, d):
    BS = d.rec_targs[0] if getattr(d, "rec_targs", None) else 4096
    worst, opened, n_ok = {}, {}, 0
    rules = ("disjoint", "accounting", "refused-allocation")

    def bad(r, t):
        worst.setdefault(r, t)
    maxk, maxn = (3, 4) if ctx.thorough else (2, 3)
    for k in range(0, maxk + 1):
        for tail in (0, 1):
            for n in range(1, maxn + 1):
                cfg, M = config(P)
                cfg.unroll = n + k + 2
                I = ctx.interp(P, cfg)
                regs = layouts(I, k)
                end = add(*regs[-1]) if regs else 0
                disk = add(end, pos(I, "used_tail", 1)) if tail or not regs else end
                fb = total(regs)

                def setup(I):
                    put(I, M, DA, regs, fb)
                    I.store[F(THIS, 'disk_bytes', DA)] = disk
                    I.user["setsize_fails"] = True
                for p in I.paths(d, setup=setup, args=[('&', ('O', 'bids')), add(('&', ('O', 'bids')), n)], this=THIS):
                    desc = "%d free regions%s, %d blocks; %s" % (k, "" if tail else " up to the end of the disk", n, pathdesc(p))
                    if p.why == 'misuse':
                        bad("accounting", "%s at line %s (%s)" % (p.I.user["misuse"][0][1], p.I.user["misuse"][0][0], desc))
                        continue
                    if p.out not in ('ret', 'throw') or dom.infeasible(p.facts):
                        continue
                    n_ok += 1
                    got = M.entries(p.I, p.store, F(THIS, 'free_space', DA))
                    f1, d1 = p.store.get(F(THIS, 'free_bytes', DA)), p.store.get(F(THIS, 'disk_bytes', DA))
                    e = decide_eq(p, f1, total(got))
                    if e is not True:
                        (bad if e is False else lambda r, t: opened.setdefault(r, t))("accounting", "free_bytes is %s with free regions %s (%s)" % (show(f1), show_map(got), desc))
                    sizes = [x for x in p.trace if x.k == 'setsize']
                    if p.out == 'throw':
                        done = [x for x in p.trace if x.k == 'grown']
                        cur = done[-1].a[0] if done else disk
                        e = decide_eq(p, d1, cur)
                        if e is not True:
                            (bad if e is False else lambda r, t: opened.setdefault(r, t))("refused-allocation", "after an exception disk_bytes is %s, the file has %s (%s)" % (show(d1), show(cur), desc))
                        e = decide_eq(p, total(got), add(total(regs), sub(cur, disk)))
                        if e is not True:
                            (bad if e is False else lambda r, t: opened.setdefault(r, t))("refused-allocation", "after an exception %s is free instead of %s: blocks stay allocated that nobody got (%s)" % (show_map(got), show_map(merged(p, regs + [(disk, sub(cur, disk))] if done else regs)), desc))
                        if not sizes:
                            m = same_map(p, got, regs)
                            if m:
                                bad("refused-allocation", "%s after an exception (%s)" % (m, desc))
                            a = dom.entails(p.facts, c_lt(fb, 4096 * n))
                            if a is False or a is None and dom.witness(p.facts, c_lt(fb, 4096 * n)) is not None:
                                bad("refused-allocation", "refused although %d bytes are free (%s)" % (4096 * n, desc))
                        continue
                    grown = list(regs)
                    cur = disk
                    for x in sizes:
                        ext = sub(x.a[0], cur)
                        grown.append((cur, ext))
                        cur = x.a[0]
                    e = decide_eq(p, d1, cur)
                    if e is not True:
                        (bad if e is False else lambda r, t: opened.setdefault(r, t))("accounting", "disk_bytes is %s, the file has %s (%s)" % (show(d1), show(cur), desc))
                    old = merged(p, grown)
                    bl = blocks_of(p, n)
                    if any(b is None for b in bl):
                        bad("disjoint", "block %d gets no offset (%s)" % (bl.index(None), desc))
                        continue
                    pieces = [(b, 4096) for b in bl]
                    for i, a in enumerate(pieces):
                        w = within(p, a, old)
                        if w is not True:
                            (bad if w is False else lambda r, t: opened.setdefault(r, t))("disjoint", "block %d at %s lies outside the free space %s (%s)" % (i, show(a[0]), show_map(old), desc))
                        for j, b in list(enumerate(pieces))[i + 1:] + [("free", g) for g in got]:
                            x = apart(p, a, b)
                            if x is not True:
                                (bad if x is False else lambda r, t: opened.setdefault(r, t))(
                                    "disjoint", "block %d at %s overlaps %s (%s)" % (i, show(a[0]), ("block %d at %s" % (j, show(b[0]))) if j != "free" else "the free region %s+%s" % (show(b[0]), show(b[1])), desc))
                    for g in got:
                        w = within(p, g, old)
                        if w is False:
                            bad("accounting", "%s becomes free although it was in use (%s)" % (show_map([g]), desc))
                    e = decide_eq(p, add(total(got), 4096 * n), total(grown))
                    if e is not True:
                        (bad if e is False else lambda r, t: opened.setdefault(r, t))("accounting", "free %s and allocated %d do not add up to %s (%s)" % (show_map(got), 4096 * n, show_map(grown), desc))
                ctx.used(I)
    for r in rules:
        if r in worst:
            ctx.bad(r, d.fn, where(d), worst[r])
        elif r in opened or not n_ok:
            ctx.undecided(r, d.fn, where(d), opened.get(r) or "no complete path")
        else:
            ctx.ok(r, d.fn, where(d), "%d paths" % n_ok)


def report(ctx, rules, d, worst, opened, n_ok):
    for t in (worst, opened):
        for r in [r for r in t if r not in rules]:
            t.setdefault(rules[0], t[r])
    for r in rules:
        if r in worst:
            ctx.bad(r, d.fn, where(d), worst[r])
        elif r in opened or not n_ok:
            ctx.undecided(r, d.fn, where(d), opened.get(r) or "no complete path")
        else:
            ctx.ok(r, d.fn, where(d), "%d paths" % n_ok)


def verdict(worst, opened, rule, e, text):
    if e is False:
        worst.setdefault(rule, text)
    elif e is None:
        opened.setdefault(rule, text)


def paths_ok(P, I, worst, rule, desc, it):
    for p in it:
        if p.why == 'misuse':
            worst.setdefault(rule, "%s at line %s of %s (%s)" % (p.I.user["misuse"][0][1], p.I.user["misuse"][0][0], p.I.user["misuse"][0][2], desc))
            continue
        if p.out not in ('ret', 'throw') or dom.infeasible(p.facts):
            continue
        yield p


def delete_block(ctx, P, d):
    """delete_block frees exactly the block's bytes."""
    worst, opened, n = {}, {}, 0
    cfg, M = config(P)
    I = ctx.interp(P, cfg)
    off, fb, disk = pos(I, "offset", 0), pos(I, "free0", 0), pos(I, "disk0", 0)

    def setup(I):
        put(I, M, DA, [], fb)
        I.store[F(('O', 'bid'), 'offset', 'stxxl::BID')] = off
        I.store[F(THIS, 'disk_bytes', DA)] = disk
    for p in paths_ok(P, I, worst, "accounting", "", I.paths(d, setup=setup, args=[('&', ('O', 'bid'))], this=THIS)):
        n += 1
        got = M.entries(p.I, p.store, F(THIS, 'free_space', DA))
        m = same_map(p, got, [(off, 4096)])
        verdict(worst, opened, "accounting", None if m == "" else m is None, "freeing a 4096-byte block at %s makes %s free" % (show(off), show_map(got)))
        verdict(worst, opened, "accounting", decide_eq(p, p.store.get(F(THIS, 'free_bytes', DA)), add(fb, 4096)), "free_bytes becomes %s after freeing a 4096-byte block" % show(p.store.get(F(THIS, 'free_bytes', DA))))
        verdict(worst, opened, "accounting", decide_eq(p, p.store.get(F(THIS, 'disk_bytes', DA)), disk), "disk_bytes changes when a block is freed")
    ctx.used(I)
    report(ctx, ("accounting",), d, worst, opened, n)


def lifetime(ctx, P):
    """The constructor provides the configured space; the destructor gives back what was grown beyond it."""
    rec = [r for r in P.recs_by_ct.get(DA, [])]
    for d in P.find(DA + "::disk_allocator"):
        worst, opened, n = {}, {}, 0
        cfg, M = config(P)
        I = ctx.interp(P, cfg)
        size = pos(I, "cfgsize", 0)

        def setup(I):
            put(I, M, DA, [], None)
            I.store[F(('O', 'cfg'), 'size', 'stxxl::disk_config')] = size
        for p in paths_ok(P, I, worst, "accounting", "constructor", I.paths(d, setup=setup, args=[('&', ('O', 'storage')), ('&', ('O', 'cfg'))], this=THIS)):
            if p.out != 'ret':
                continue
            n += 1
            got = M.entries(p.I, p.store, F(THIS, 'free_space', DA))
            verdict(worst, opened, "accounting", decide_eq(p, total(got), size), "a disk of %s bytes starts with %s free" % (show(size), show_map(got)))
            for f in ("free_bytes", "disk_bytes", "cfg_bytes"):
                v = p.store.get(F(THIS, f, DA))
                verdict(worst, opened, "accounting", decide_eq(p, v, size), "%s of a new disk of %s bytes is %s" % (f, show(size), show(v) if v is not None else None))
            if got:
                verdict(worst, opened, "accounting", decide_eq(p, got[0][0], 0), "the free space of a new disk starts at %s" % show(got[0][0]))
            ss = [x.a[0] for x in p.trace if x.k == 'setsize']
            if ss:
                verdict(worst, opened, "accounting", decide_eq(p, ss[-1], size), "the file of a new disk gets %s bytes instead of %s" % (show(ss[-1]), show(size)))
            else:
                verdict(worst, opened, "accounting", decide_eq(p, size, 0), "the file of a new disk is not given its size")
        ctx.used(I)
        report(ctx, ("accounting",), d, worst, opened, n)
    for d in P.find(DA + "::~disk_allocator"):
        worst, opened, n = {}, {}, 0
        cfg, M = config(P)
        I = ctx.interp(P, cfg)
        a, b = pos(I, "cfg0", 0), pos(I, "disk0", 0)

        def setup(I):
            put(I, M, DA, [], 0)
            I.store[F(THIS, 'cfg_bytes', DA)] = a
            I.store[F(THIS, 'disk_bytes', DA)] = b
        for p in paths_ok(P, I, worst, "accounting", "destructor", I.paths(d, setup=setup, args=[], this=THIS)):
            n += 1
            ss = [x.a[0] for x in p.trace if x.k == 'setsize']
            last = ss[-1] if ss else b
            more = dom.entails(p.facts, c_lt(a, b))
            verdict(worst, opened, "accounting", decide_eq(p, last, a if more else b), "the file of a disk of %s bytes, configured with %s, is left with %s" % (show(b), show(a), show(last)))
        ctx.used(I)
        report(ctx, ("accounting",), d, worst, opened, n)


# ---- wbtl_file
def wconfig(P):
    cfg, M = config(P)
    cfg.havoc_wait = False
    for r in P.recs_by_ct.get(WB, []):
        cfg.dyn[THIS] = r

    def aio(kind):
        def h(I, c):
            a = [I.argval(x) for x in c.args]
            I.ev('aio', kind, c.obj, tuple(a), None, c.node)
            return I.result(('s', 'req'), I.ty(c.node), None, c.node)
        return h

    def disc(I, c):
        a = [I.argval(x) for x in c.args]
        I.ev('discard', 'discard', c.obj, tuple(a), None, c.node)
        return 0
    isbk = lambda n: (lambda f: f["n"] == n and f["k"] == "method" and f.get("ct") == "stxxl::file")
    for n in ("aread", "awrite"):
        cfg.model_pred.insert(0, (isbk(n), aio(n)))
    cfg.model_pred.insert(0, (isbk("discard"), disc))
    cfg.model_pred.insert(0, (isbk("size"), lambda I, c: I.fresh("backend_size", lo=0)))
    cfg.model_pred.insert(0, (lambda f: f.get("ct") == "stxxl::counting_ptr" and f["k"] == "method" and f["n"] in ("operator=", "inc_reference", "dec_reference"), lambda I, c: ([I.argval(x) for x in c.args], ('&', c.obj))[1]))
    cfg.model_pred.insert(0, (lambda f: f["n"] == "wait" and f["k"] == "method" and f.get("ct") in ("stxxl::request_interface", "stxxl::request"), lambda I, c: (I.ev('waitreq', 'wait', c.obj, (), None, c.node), 0)[1]))
    return cfg, M


def w(n):
    return F(THIS, n, WB)


def next_block(ctx, P, d):
    worst, opened, n_ok = {}, {}, 0
    for k in range(0, (4 if ctx.thorough else 3)):
        cfg, M = wconfig(P)
        I = ctx.interp(P, cfg)
        regs, wbs = layouts(I, k), pos(I, "wbs", 1)
        fb = total(regs)

        def setup(I):
            put(I, M, WB, regs, fb)
            I.store[w('write_block_size')] = wbs
        desc = "%d free regions" % k
        for p in paths_ok(P, I, worst, "accounting", desc, I.paths(d, setup=setup, args=[], this=THIS)):
            n_ok += 1
            got = M.entries(p.I, p.store, w('free_space'))
            if p.out == 'throw':
                m = same_map(p, got, regs)
                if m:
                    worst.setdefault("refused-allocation", "%s after an exception (%s)" % (m, desc))
                if any(dom.entails(p.facts, c_lt(s, wbs)) is False or dom.witness(p.facts, c_lt(s, wbs)) is not None for _, s in regs):
                    worst.setdefault("refused-allocation", "no write block found although a free region is large enough (%s)" % desc)
                continue
            v = p.val
            verdict(worst, opened, "disjoint", within(p, (v, wbs), regs), "the write block %s+%s lies outside the free space %s" % (show(v), show(wbs), show_map(regs)))
            for g in got:
                verdict(worst, opened, "disjoint", apart(p, (v, wbs), g), "the write block %s+%s overlaps the remaining free space %s" % (show(v), show(wbs), show_map(got)))
            verdict(worst, opened, "accounting", decide_eq(p, add(total(got), wbs), fb), "free space %s after taking a block of %s from %s" % (show_map(got), show(wbs), show_map(regs)))
            verdict(worst, opened, "accounting", decide_eq(p, p.store.get(w('free_bytes')), total(got)), "free_bytes is %s with %s free" % (show(p.store.get(w('free_bytes'))), show_map(got)))
        ctx.used(I)
    report(ctx, ("disjoint", "accounting", "refused-allocation"), d, worst, opened, n_ok)


def wb_setsize(ctx, P, d):
    worst, opened, n = {}, {}, 0
    for k in (0, 1):
        cfg, M = wconfig(P)
        I = ctx.interp(P, cfg)
        sz, grow = pos(I, "sz0", 0), pos(I, "grow", 0)
        a, b = pos(I, "lead", 0), pos(I, "size0", 1)
        regs = [(a, b)] if k else []
        if k:
            sz = add(add(a, b), pos(I, "used", 1))

        def setup(I):
            put(I, M, WB, regs, total(regs))
            I.store[w('sz')] = sz
        for p in paths_ok(P, I, worst, "accounting", "set_size", I.paths(d, setup=setup, args=[add(sz, grow)], this=THIS)):
            if p.out != 'ret':
                continue
            n += 1
            got = M.entries(p.I, p.store, w('free_space'))
            verdict(worst, opened, "accounting", decide_eq(p, p.store.get(w('sz')), add(sz, grow)), "the file's size becomes %s instead of %s" % (show(p.store.get(w('sz'))), show(add(sz, grow))))
            more = dom.entails(p.facts, c_lt(0, grow))
            if more is None:
                opened.setdefault("accounting", "growth undetermined")
                continue
            m = same_map(p, got, regs + ([(sz, grow)] if more else []))
            verdict(worst, opened, "accounting", None if m == "" else m is None, "growing from %s to %s leaves %s free" % (show(sz), show(add(sz, grow)), show_map(got)))
            ss = [x.a[0] for x in p.trace if x.k == 'setsize']
            verdict(worst, opened, "accounting", decide_eq(p, ss[-1] if ss else sz, add(sz, grow)), "the backend file is not grown with the file")
        ctx.used(I)
    report(ctx, ("accounting",), d, worst, opened, n)


def pairs(got):
    return got


def revmap(I, M, p):
    out = []
    for i in p.I.user["maps"][w('reverse_mapping')]:
        l = mapmodel.nodeloc(w('reverse_mapping'), i)
        s = ('F', l, 'second', 'std::pair')
        v = p.store.get(s)
        a, b = p.store.get(('F', s, 'first', 'std::pair')), p.store.get(('F', s, 'second', 'std::pair'))
        if a is None and isinstance(v, tuple) and v and v[0] == 'obj':
            a, b = (p.store.get(('F', v[1], x, 'std::pair')) for x in ('first', 'second'))
        out.append((p.store.get(('F', l, 'first', 'std::pair')), a, b))
    return out


def wb_discard(ctx, P, d):
    worst, opened, n = {}, {}, 0
    for k in (0, 1, 2):
        for hit in list(range(k)) + [None]:
            cfg, M = wconfig(P)
            I = ctx.interp(P, cfg)
            fb, size = pos(I, "free0", 0), pos(I, "bytes", 1)
            logical = [pos(I, "log0", 0)]
            logical.append(add(logical[0], pos(I, "dlog", 1)))
            phys = [pos(I, "phys0", 0)]
            phys.append(add(phys[0], pos(I, "dphys", 1)))
            off = logical[hit] if hit is not None else add(logical[1], 1)

            def setup(I):
                put(I, M, WB, [], fb)
                M.put(I, w('address_mapping'), [(logical[i], phys[i]) for i in range(k)])
                M.put(I, w('reverse_mapping'), [(phys[i], ('pair', logical[i], size)) for i in range(k)])
            desc = "%d mapped blocks, block %s discarded" % (k, hit)
            for p in paths_ok(P, I, worst, "mapping", desc, I.paths(d, setup=setup, args=[off, size], this=THIS)):
                if p.out != 'ret':
                    continue
                n += 1
                am = M.entries(p.I, p.store, w('address_mapping'))
                rm = revmap(I, M, p)
                rest = [i for i in range(k) if i != hit]
                m = same_map(p, am, [(logical[i], phys[i]) for i in rest])
                verdict(worst, opened, "mapping", None if m == "" else m is None, "the mapping is %s after a discard (%s)" % (show_map(am), desc))
                m = same_map(p, [(a, b) for a, b, c in rm], [(phys[i], logical[i]) for i in rest])
                verdict(worst, opened, "mapping", None if m == "" else m is None, "the reverse mapping is %s after a discard (%s)" % (show_map([(a, b) for a, b, c in rm]), desc))
                got = M.entries(p.I, p.store, w('free_space'))
                m = same_map(p, got, [(phys[hit], size)] if hit is not None else [])
                verdict(worst, opened, "mapping", None if m == "" else m is None, "%s is free after a discard (%s)" % (show_map(got), desc))
                ds = [x.a for x in p.trace if x.k == 'discard']
                for a in ds:
                    e = decide_eq(p, a[0], phys[hit]) if hit is not None else False
                    verdict(worst, opened, "mapping", e, "discards %s of the backend (%s)" % (show(a[0]), desc))
                if hit is not None:
                    f1 = p.store.get(w('free_bytes'))
                    verdict(worst, opened, "mapping", decide_eq(p, f1, add(fb, size)), "free_bytes becomes %s (%s)" % (show(f1), desc))
            ctx.used(I)
    report(ctx, ("mapping",), d, worst, opened, n)


MINUS1 = (1 << 64) - 1


def el(loc, i):
    return ('I', loc, i) if i else loc


def reqptr(P):
    for r in P.recs_by_ct["stxxl::counting_ptr"]:
        for f in r.get("fs", []):
            if r["tu"].types[f["t"]]["k"] == "ptr":
                return f["n"]
    raise AnalysisBroken("pointer member of counting_ptr not found")


def bufset(I, cb, addr, prev, wbs, cp):
    for b, a in ((cb, addr), (1 - cb, prev)):
        I.store[el(w('write_buffer'), b)] = ('&', ('O', 'wbuf%d' % b))
        I.store[el(w('buffer_address'), b)] = a
    I.store[w('curbuf')] = cb
    I.store[w('write_block_size')] = wbs
    I.store[w('curpos')] = cp


def copies(p):
    return [x for x in p.trace if x.n in ('memcpy', 'memmove', '__builtin_memcpy', 'std::memcpy', 'std::memmove') and x.k in ('call', 'stdfn', 'ext')]


def wb_swrite(ctx, P, d):
    """A write goes to the place the mapping then names; buffers are written back before they are reused."""
    worst, opened, n = {}, {}, 0
    R = "write-buffer"
    for cb in (0, 1):
        for mapped in (False, True):
            for filled, had in ((False, False), (True, False), (True, True)):
                cfg, M = wconfig(P)
                I = ctx.interp(P, cfg)
                off, size, wbs = pos(I, "off", 0), pos(I, "bytes", 1), add(pos(I, "bytes", 1), pos(I, "room", 0))
                addr, prev, cp = (pos(I, "addr", 0) if filled else MINUS1), MINUS1, pos(I, "curpos", 0)
                far = pos(I, "far", 1)
                base = add(add(addr if filled else 0, wbs), far)       # free space beyond the current buffer
                fs = add(wbs, pos(I, "spare", 0))
                oldphys = add(add(base, fs), pos(I, "away", 1))

                def setup(I):
                    I.facts.assume(c_lt(wbs, cp), False)
                    if filled:
                        I.facts.assume(c_lt(addr, 1 << 62), True)
                    if not filled:
                        I.store[w('curpos')] = wbs
                    bufset(I, cb, addr, prev, wbs, cp if filled else wbs)
                    I.store[F(w('backend_request'), reqptr(P), 'stxxl::counting_ptr')] = ('&', ('O', 'backend_request')) if had else 0
                    put(I, M, WB, [(base, fs)], fs)
                    M.put(I, w('address_mapping'), [(off, oldphys)] if mapped else [])
                    M.put(I, w('reverse_mapping'), [(oldphys, ('pair', off, size))] if mapped else [])
                desc = "current buffer %s, block %s mapped" % ("in use" if filled else "unused", "already" if mapped else "not")
                for p in paths_ok(P, I, worst, R, desc, I.paths(d, setup=setup, args=[('&', ('O', 'data')), off, size], this=THIS)):
                    if p.out != 'ret':
                        continue
                    n += 1
                    st = p.store
                    dsc = desc + "; " + pathdesc(p)
                    cp0 = cp if filled else wbs
                    fits = dom.entails(p.facts, c_lt(sub(wbs, cp0), size))
                    if fits is None:
                        opened.setdefault(R, "whether the block fits is not determined (%s)" % dsc)
                        continue
                    fits = not fits
                    c2 = st.get(w('curbuf'))
                    if c2 not in (0, 1):
                        opened.setdefault(R, "current buffer not determined: %s (%s)" % (show(c2), dsc))
                        continue
                    if (c2 == cb) != fits:
                        worst.setdefault(R, "%s (%s)" % ("switches buffers although the block fits" if fits else "keeps the full buffer", dsc))
                        continue
                    a2, cp2 = st.get(el(w('buffer_address'), c2)), st.get(w('curpos'))
                    at = cp0 if fits else 0
                    verdict(worst, opened, R, decide_eq(p, cp2, add(at, size)), "the write position becomes %s instead of %s (%s)" % (show(cp2), show(add(at, size)), dsc))
                    cs = copies(p)
                    if len(cs) != 1:
                        worst.setdefault(R, "the data is copied %d times (%s)" % (len(cs), dsc))
                        continue
                    x = cs[0]
                    verdict(worst, opened, R, decide_eq(p, x.a[0], add(('&', ('O', 'wbuf%d' % c2)), at)), "the data is copied to %s instead of %s of buffer %d (%s)" % (show(x.a[0]), show(at), c2, dsc))
                    verdict(worst, opened, R, decide_eq(p, x.a[1], ('&', ('O', 'data'))), "the data is copied from %s (%s)" % (show(x.a[1]), dsc))
                    verdict(worst, opened, R, decide_eq(p, x.a[2], size), "%s bytes are copied (%s)" % (show(x.a[2]), dsc))
                    am = M.entries(p.I, st, w('address_mapping'))
                    m = same_map(p, am, [(off, add(a2, at))])
                    verdict(worst, opened, "mapping", None if m == "" else m is None, "the mapping is %s after a write to %s at position %s (%s)" % (show_map(am), show(a2), show(at), dsc))
                    rm = revmap(I, M, p)
                    rok = len(rm) == 1 and decide_eq(p, rm[0][0], add(a2, at))
                    if rok and (rm[0][1] is None or rm[0][2] is None):
                        rok = None
                    if rok:
                        rok = decide_eq(p, rm[0][1], off) and decide_eq(p, rm[0][2], size)
                    verdict(worst, opened, "mapping", rok, "the reverse mapping is %s after a write (%s)" % ([tuple(show(y) if y is not None else None for y in z) for z in rm], dsc))
                    # free space: old place freed, rest of the full buffer freed, the new write block taken
                    want = [(base, fs)] if fits else ([(add(base, wbs), sub(fs, wbs))] if dom.entails(p.facts, c_lt(wbs, fs)) else [])
                    if not fits and filled and dom.entails(p.facts, c_lt(cp0, wbs)):
                        want.insert(0, (add(addr, cp0), sub(wbs, cp0)))
                    if mapped:
                        want.append((oldphys, size))
                    got = M.entries(p.I, st, w('free_space'))
                    m = same_map(p, got, want)
                    verdict(worst, opened, "mapping", None if m == "" else m is None, "%s is free after a write instead of %s: %s (%s)" % (show_map(got), show_map(want), m, dsc))
                    ws = [x for x in p.trace if x.k == 'aio']
                    if fits or not filled:
                        if ws:
                            worst.setdefault(R, "writes to the backend although no buffer is full (%s)" % dsc)
                        continue
                    if len(ws) != 1 or ws[0].n != 'awrite':
                        worst.setdefault(R, "the full buffer is written back %d times (%s)" % (len(ws), dsc))
                        continue
                    x = ws[0]
                    verdict(worst, opened, R, decide_eq(p, x.a[0], ('&', ('O', 'wbuf%d' % cb))), "writes back %s instead of the full buffer (%s)" % (show(x.a[0]), dsc))
                    verdict(worst, opened, R, decide_eq(p, x.a[1], addr), "writes the full buffer back to %s instead of %s (%s)" % (show(x.a[1]), show(addr), dsc))
                    verdict(worst, opened, R, decide_eq(p, x.a[2], wbs), "writes back %s bytes of the full buffer (%s)" % (show(x.a[2]), dsc))
                    waits = [e for e in p.trace if e.k == 'waitreq']
                    if had and not any(e.o == ('O', 'backend_request') and p.trace.index(e) < p.trace.index(x) for e in waits):
                        worst.setdefault(R, "reuses the other buffer without waiting for its write-back (%s)" % dsc)
                ctx.used(I)
    report(ctx, (R, "mapping"), d, worst, opened, n)


def wb_sread(ctx, P, d):
    worst, opened, n = {}, {}, 0
    R = "read-source"
    for cb in (0, 1):
        for place in ("current", "previous", "disk", "both"):
            cfg, M = wconfig(P)
            I = ctx.interp(P, cfg)
            off, size = pos(I, "off", 0), pos(I, "bytes", 1)
            wbs = add(size, pos(I, "room", 0))
            into = pos(I, "into", 0)
            a = pos(I, "addr", 0)
            far = add(add(a, wbs), pos(I, "gap", 0))
            phys = add(a, into)
            if place == "current":
                addr, prev = a, far
            elif place == "previous":
                addr, prev = far, a
            elif place == "both":
                addr, prev = a, a
            else:
                addr, prev = a, far
                phys = add(add(far, wbs), into)

            def setup(I):
                I.facts.assume(c_lt(sub(wbs, size), into), False)
                I.facts.assume(c_lt(phys, 0xffffffff), True)
                bufset(I, cb, addr, prev, wbs, 0)
                put(I, M, WB, [], 0)
                M.put(I, w('address_mapping'), [(off, phys)])
                M.put(I, w('reverse_mapping'), [(phys, ('pair', off, size))])
            desc = "block in %s" % {"current": "the current write buffer", "previous": "the previous write buffer", "disk": "the backend only", "both": "the range of both write buffers"}[place]
            for p in paths_ok(P, I, worst, R, desc, I.paths(d, setup=setup, args=[('&', ('O', 'dest')), off, size], this=THIS)):
                if p.out != 'ret':
                    continue
                n += 1
                cs, io = copies(p), [x for x in p.trace if x.k == 'aio']
                if place == "disk":
                    if cs or len(io) != 1 or io[0].n != 'aread':
                        worst.setdefault(R, "does not read from the backend (%s)" % desc)
                        continue
                    x = io[0].a
                    verdict(worst, opened, R, decide_eq(p, x[0], ('&', ('O', 'dest'))), "reads to %s (%s)" % (show(x[0]), desc))
                    verdict(worst, opened, R, decide_eq(p, x[1], phys), "reads at %s instead of %s (%s)" % (show(x[1]), show(phys), desc))
                    verdict(worst, opened, R, decide_eq(p, x[2], size), "reads %s bytes (%s)" % (show(x[2]), desc))
                    if not any(e.k == 'waitreq' for e in p.trace[p.trace.index(io[0]):]):
                        worst.setdefault(R, "does not wait for the read (%s)" % desc)
                    continue
                if io or len(cs) != 1:
                    worst.setdefault(R, "does not copy the block from its write buffer (%s)" % desc)
                    continue
                x = cs[0].a
                b = cb if place in ("current", "both") else 1 - cb
                verdict(worst, opened, R, decide_eq(p, x[0], ('&', ('O', 'dest'))), "copies to %s (%s)" % (show(x[0]), desc))
                verdict(worst, opened, R, decide_eq(p, x[1], add(('&', ('O', 'wbuf%d' % b)), into)), "copies from %s instead of position %s of write buffer %d (%s)" % (show(x[1]), show(into), b, desc))
                verdict(worst, opened, R, decide_eq(p, x[2], size), "copies %s bytes (%s)" % (show(x[2]), desc))
            ctx.used(I)
    report(ctx, (R,), d, worst, opened, n)


def show_map(m):
    return "{" + ", ".join("%s: %s" % (show(k) if k is not None else None, show(v) if v is not None else None) for k, v in m) + "}"


def run(ctx):
    ctx.rule("coalesce", "Freeing a region that is in use adds exactly it to the free-space map, merged with adjacent free regions, and adds its size to free_bytes")
    ctx.rule("refuse", "Freeing a region that overlaps free space throws and changes nothing")
    ctx.rule("disjoint", "The blocks handed out by an allocation lie in space that was free (or newly grown), and overlap neither each other nor the remaining free space")
    ctx.rule("accounting", "Free, allocated and total bytes match the free-space map before and after every operation; the file is as large as the accounting says")
    ctx.rule("refused-allocation", "An allocation is refused only when too little is free, and a failed allocation keeps no blocks")
    ctx.rule("mapping", "The write-buffered file keeps its address mapping, its reverse mapping and its free space consistent")
    ctx.rule("write-buffer", "A write to the write-buffered file is copied to the place its mapping then names; a full buffer is written back whole, and not reused before its write-back has finished")
    ctx.rule("read-source", "A read from the write-buffered file takes the data from the write buffer that holds the block (the current one first), otherwise from the mapped place of the backend")
    Pi = ctx.lib()
    Pm = ctx.load([os.path.join(prog.HERE, "drivers", "mng.cpp"), os.path.join(prog.REPO, "lib/mng/disk_allocator.cpp")])
    for P, cls, name in ((Pi, DA, "add_free_region"), (Pi, WB, "_add_free_region")):
        for d in P.find(cls + "::" + name):
            ctx.sub(d.fn, add_region, ctx, P, cls, d)
    for d in Pm.find(DA + "::new_blocks"):
        if len(d.params) == 2:
            ctx.sub(d.fn, new_blocks, ctx, Pm, d)
    for d in Pm.find(DA + "::delete_block"):
        ctx.sub(d.fn, delete_block, ctx, Pm, d)
    ctx.sub("lifetime", lifetime, ctx, Pm)
    for n, f in (("get_next_write_block", next_block), ("set_size", wb_setsize), ("discard", wb_discard), ("swrite", wb_swrite), ("sread", wb_sread)):
        for d in Pi.find(WB + "::" + n):
            ctx.sub(d.fn, f, ctx, Pi, d)
