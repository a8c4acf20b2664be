"""C18: swap exchanges the complete state."""
import os
import ai, dom, prog, mapmodel, seqmodel, multimodel
from .util import *
from .exch import *
from .c13 import Judge

DRIVERS = ("tiny", "cont", "assoc", "mng", "pq")
MAPS = ("stxxl::btree::iterator_map", "stxxl::hash_map::iterator_map")
# decided with the contents of the caches and of the deque, below
ELSEWHERE = ("stxxl::btree::node_cache", "stxxl::hash_map::block_cache", "stxxl::deque")
# not part of any public swap: the queue that would use them has none
UNUSED = ("stxxl::priority_queue_local::int_merger", "stxxl::priority_queue_local::loser_tree", "stxxl::priority_queue_local::parallel_merger_adapter",
          "stxxl::priority_queue_local::ext_merger")
# statistics of the map object, not of its content
STATS = {"stxxl::hash_map::hash_map": ("n_subblocks_loaded", "n_found_internal", "n_found_external", "n_not_found")}


def itermap_swap(ctx, P, d, rule):
    """The registered iterators change places and point to the map that now registers them."""
    rec = P.canon(d.rec)
    q = bare(rec["q"])
    mm = own = None
    for ct, f, b in P.fields(rec):
        t = b["tu"].types[f["t"]]
        if t["k"] == "rec" and t.get("ct") in multimodel.NAMES:
            mm = (f["n"], bare(b["q"]), t)
        elif t["k"] == "ptr":
            own = (f["n"], bare(b["q"]), t)
    if mm is None or own is None:
        return ctx.undecided(rule, d.fn, wh(d), "fields not found")
    O = ('O', 'other')
    its = {}
    # the iterators' own pointer to their map
    it = mm[2]["tu"].types[mm[2]["ta"][1][1]]
    base = it["tu"].types[it["pt"]] if it["k"] == "ptr" else None
    back = None
    if base is not None and base["k"] == "rec":
        for ct, f, b in P.fields(P.canon(base["tu"].recs[base["rid"]])):
            t = b["tu"].types[f["t"]]
            if t["k"] == "ptr" and t["tu"].types[t["pt"]].get("ct") == own[2]["tu"].types[own[2]["pt"]].get("ct"):
                back = (f["n"], bare(b["q"]))
    if back is None:
        return ctx.undecided(rule, d.fn, wh(d), "the iterators' owner not found")
    J = Judge(ctx, (rule,), d)
    for na in range(3):
        for nb in range(3):
            cfg = ai.base_config()
            mapmodel.Maps(cfg)
            S = seqmodel.Seqs(cfg)
            H = multimodel.MultiMaps(cfg, S)
            prev = cfg.models.get("std::swap")
            cfg.models["std::swap"] = lambda I, c, prev=prev: pswap(I, c, prev)
            I = ctx.interp(P, cfg)
            desc = "%d and %d iterators" % (na, nb)
            want = {}

            def setup(I):
                for o, n, tag in ((THIS, na, 'a'), (O, nb, 'b')):
                    owner = ('&', ('O', 'map ' + tag))
                    I.store[F(o, own[0], own[1])] = owner
                    ns = []
                    for i in range(n):
                        x = ('O', 'iterator %s%d' % (tag, i))
                        I.store[F(x, back[0], back[1])] = owner
                        ns.append(lambda k, v, x=x: I.store.__setitem__(v, ('&', x)))
                    H.put(I, F(o, mm[0], mm[1]), ns)
            for p in J.paths(I, desc, setup=setup, args=[('&', O)], this=THIS):
                if p.out == 'throw':
                    continue
                for o, n, tag, mine in ((THIS, nb, 'b', 'a'), (O, na, 'a', 'b')):
                    if p.store.get(F(o, own[0], own[1])) != ('&', ('O', 'map ' + mine)):
                        J.bad(rule, "the map's own iterator registry now belongs to the other map (%s)" % desc)
                        continue
                    ns = p.I.user["hash"].get(F(o, mm[0], mm[1]))
                    if ns is None:
                        J.open(rule, "registered iterators not determined (%s)" % desc)
                        continue
                    got = sorted(str(p.store.get(F(l, 'second', 'std::pair'))) for l in ns)
                    if got != sorted(str(('&', ('O', 'iterator %s%d' % (tag, i)))) for i in range(n)):
                        J.bad(rule, "the registered iterators are not exchanged (%s)" % desc)
                        continue
                    for i in range(n):
                        v = p.store.get(F(('O', 'iterator %s%d' % (tag, i)), back[0], back[1]))
                        if v != ('&', ('O', 'map ' + mine)):
                            J.bad(rule, "an iterator does not follow its elements to the other map (%s)" % desc)
    J.done()


def free_swap(ctx, P, d, rule, ct):
    A, B = ('O', 'first', 'u'), ('O', 'second', 'u')
    cfg = ai.base_config()
    Exchange(P, cfg)
    I = ctx.interp(P, cfg)
    J = Judge(ctx, (rule,), d)

    def setup(I):
        for l, t in ((A, 'a'), (B, 'b')):
            I.store[F(l, '#content', '')] = ('s', t)
    for p in J.paths(I, ct, setup=setup, args=[('&', A), ('&', B)], this=None):
        if p.out == 'ret' and (p.store.get(F(A, '#content', '')), p.store.get(F(B, '#content', ''))) != (('s', 'b'), ('s', 'a')):
            J.bad(rule, "the two objects are not exchanged")
    J.done()


def pswap(I, c, prev):
    """std::swap of pointers."""
    a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
    if a in I.store and b in I.store and a not in I.user.get("hash", {}):
        I.store[a], I.store[b] = I.store[b], I.store[a]
        return 0
    return prev(I, c) if prev else NotImplemented


def run(ctx):
    ctx.rule("exchange", "After a.swap(b) every data member of a is the one b had before, and vice versa")
    ctx.rule("registered", "After a.swap(b) the iterators registered with a are registered with b, refer to b, and vice versa")
    ctx.rule("forward", "std::swap(a, b) and swap(a, b) of two containers exchange them")
    seen = set()
    for n in DRIVERS:
        P = ctx.load([os.path.join(prog.HERE, "drivers", n + ".cpp")])
        for d in list(P.defs.values()):
            if d.f["n"] != "swap" or d.body is None or not d.fn.startswith(("stxxl::", "std::swap")):
                continue
            if d.f["k"] == "method" and len(d.params) == 1:
                rec = P.canon(d.rec)
                q = bare(rec["q"])
                t = d.tu.types[d.params[0][2]]
                if q in seen or q in ELSEWHERE or q in UNUSED or t["k"] != "ref":
                    continue
                seen.add(q)
                if q in MAPS:
                    ctx.sub(d.fn, itermap_swap, ctx, P, d, "registered")
                else:
                    ctx.sub(d.fn, swap_rule, ctx, P, d, "exchange", STATS.get(q, ()))
            elif d.f["k"] != "method" and len(d.params) == 2:
                t = [d.tu.types[x[2]] for x in d.params]
                if any(x["k"] != "ref" for x in t):
                    continue
                r = d.tu.types[t[0]["pt"]]
                if r["k"] != "rec" or not str(r.get("ct", "")).startswith("stxxl::") or ("free", r["ct"]) in seen:
                    continue
                if not d.file.startswith(prog.REPO):
                    continue
                seen.add(("free", r["ct"]))
                ctx.sub("swap of " + r["ct"], free_swap, ctx, P, d, "forward", r["ct"])
    # caches: by contents, as in C15
    from . import c15, c25d
    for r, t in (("slots", "After swap every cached node belongs to the tree or map whose cache holds it"), ("pins", "After swap exactly the other cache's fixed nodes are fixed"),
                 ("write-back", "After swap the modified nodes of the other cache are the modified ones"), ("stale", "After swap the contents are the other cache's"),
                 ("order", "After swap the elements are the other deque's"), ("blocks", "as C25"), ("pending", "as C25")):
        ctx.rule(r, t)
    P = ctx.load([os.path.join(prog.HERE, "drivers", "assoc.cpp")])
    for kind in ("normal_leaf", "normal_node"):
        M = c15.methods(P, "%snode_cache<%s%s<" % (c15.BT, c15.BT, kind))
        ctx.sub("%s::swap" % c15.NC, c15.node_cache_op, ctx, P, M, "swap", kind)
    M = c15.methods(P, c15.BC + "<")
    ctx.sub("%s::swap" % c15.BC, c15.block_cache_op, ctx, P, M, "swap")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "tiny.cpp")])
    ctx.sub("stxxl::deque::swap", c25d.op, ctx, P, c25d.methods(P, "stxxl::deque<"), "swap")
