"""C02: no lost and no spurious wake-up."""
import ai, dom, prog
from dom import c_eq, c_lt, isconst, show, _terms
from core import where
from .util import *


def subst_gen(v, I):
    """Rewrites loads of memory to the current generation."""
    if isinstance(v, dom.Lin):
        r = v.c
        for t, k in v.ts:
            r = dom.add(r, dom.scale(subst_gen(_terms[t], I), k))
        return r
    if isinstance(v, tuple) and v:
        if v[0] == 'ld':
            cur = I.store.get(v[1])
            return cur if cur is not None else ('ld', v[1], I.gen(v[1]))
        if v[0] == 'eq':
            return c_eq(subst_gen(v[1], I), 0)
        if v[0] == 'lt':
            return c_lt(subst_gen(v[1], I), 0)
        if v[0] == 'not':
            return dom.c_not(subst_gen(v[1], I))
        if v[0] == 'op':
            return v[:2] + tuple(subst_gen(x, I) for x in v[2:])
    return v


def loads(v, out):
    if isinstance(v, dom.Lin):
        for t, _ in v.ts:
            loads(_terms[t], out)
    elif isinstance(v, tuple) and v:
        if v[0] == 'ld':
            out.add(v[1])
        else:
            for x in v[1:]:
                if isinstance(x, (tuple, dom.Lin)):
                    loads(x, out)
    return out


def syms(v, out):
    if isinstance(v, dom.Lin):
        for t, _ in v.ts:
            syms(_terms[t], out)
    elif isinstance(v, tuple) and v:
        if v[0] == 's':
            out.add(v)
        elif v[0] == 'ld':
            # a location rooted in a parameter object
            if root(v[1])[0] == 'O' and root(v[1]) != THIS:
                out.add(v)
        else:
            for x in v[1:]:
                if isinstance(x, (tuple, dom.Lin)):
                    syms(x, out)
    return out


def config(snap_key="snap"):
    cfg = ai.base_config()

    def wait(I, c):
        I.user.setdefault("waits", []).append((len(I.trace), dict(I.facts.truth), I.deref(c.arg(0)), I.deref(c.arg(1)), tuple(I.locks),
                                               c.node.get("l"), I.fr.fun))
        return ai.m_wait(I, c)
    cfg.models["pthread_cond_wait"] = wait
    cfg.unroll = 3
    return cfg


def run(ctx):
    ctx.rule("wait-in-loop", "a thread that returns from a condition wait has re-read the condition after the last wake-up, under the same mutex, and found it satisfied")
    ctx.rule("wait-holds-mutex", "the condition is tested and the wait entered while holding the mutex the wait releases")
    ctx.rule("signal-after-change", "a change that can satisfy a waiter's condition is made under the waiter's mutex and is followed on every path by a notification; "
             "a broadcast when the waiters wait for different values")
    ctx.rule("register-or-done", "a waiter is registered with a request under one lock together with the test that the request is unfinished, "
             "and the request becomes finished before its registered waiters are notified, under that lock")
    P = ctx.driver("io")
    L = ctx.lib([f for f in prog.LIB_FILES if "/io/" in f])
    # classes owning condition variables
    waiters = {}
    nw = 0
    all_defs = dict(L.defs)
    all_defs.update(P.defs)
    cands = []
    for d in all_defs.values():
        if "/include/stxxl/" not in d.file and "/lib/" not in d.file or "condition_variable" in d.file:
            continue
        for f, n in calls_in(d):
            if (f["fn"].endswith("condition_variable::wait") or f["fn"] == "pthread_cond_wait"):
                cands.append(d)
                break
    seen = set()
    for d in cands:
        k = (d.fn, d.line)
        if k in seen:
            continue
        seen.add(k)
        PP = P if d.key in P.defs else L
        I = ctx.interp(PP, config())
        viol, n, mviol = None, 0, None
        for p in I.paths(d, this=THIS):
            ws = p.I.user.get("waits", [])
            if not ws or p.out != 'ret':
                continue
            n += 1
            idx, truth, cond, mtx, locks, line, fun = ws[-1]
            guards = [(c, v) for c, v in truth.items() if any(root(l) == THIS for l in loads(c, set()))]
            # the guard of this wait: the latest fact about shared state
            if not guards:
                viol = viol or (p, line, "waits without testing any condition")
                continue
            c, v = guards[-1]
            waiters.setdefault((d.rec["u"] if d.rec else d.fn), []).append((d, c, v, cond, mtx))
            if mtx not in locks:
                mviol = mviol or (p, line, "the mutex given to the wait is not held")
            now = subst_gen(c, p.I)
            st = p.facts.decide(now) if now != c else None
            # evaluate at exit with entry-time stores undone: only the loads matter
            sat = any((p.facts.truth.get(k2) is (not v)) and same_shape(k2, c) and k2 != c for k2 in p.facts.truth)
            if st == (not v) or sat:
                continue
            viol = viol or (p, line, "returns after a wake-up without having found the condition satisfied")
        ctx.used(I)
        if not n:
            ctx.undecided("wait-in-loop", d.fn, where(d), "no path through the wait")
            continue
        nw += 1
        if viol:
            ctx.bad("wait-in-loop", d.fn, where(d), viol[2] + " (spurious or stale wake-up; %s)" % pathdesc(viol[0]))
        else:
            ctx.ok("wait-in-loop", d.fn, where(d), "%d paths" % n)
        if mviol:
            ctx.bad("wait-holds-mutex", d.fn, where(d), mviol[2])
        else:
            ctx.ok("wait-holds-mutex", d.fn, where(d))
    ctx.need(3, "condition waits", nw)
    # notifiers: every method of a class with waiters
    nn = 0
    for ru, ws in waiters.items():
        recs = [d for d in all_defs.values() if d.rec is not None and d.rec["u"] == ru and d.kind in ("method", "conv")]
        conds = {}
        for d, c, v, cond, mtx in ws:
            conds.setdefault((c, v), (d, cond, mtx))
        done = set()
        for d in recs:
            if (d.fn, d.line) in done:
                continue
            done.add((d.fn, d.line))
            PP = P if d.key in P.defs else L
            I = ctx.interp(PP, config())
            res = {}
            for p in I.paths(d, this=THIS):
                if p.out != 'ret':
                    continue
                for (c, v), (wd, cond, mtx) in conds.items():
                    locs = [l for l in loads(c, set()) if root(l) == THIS]
                    for i, e in enumerate(p.trace):
                        if e.k != 'store' or e.o not in locs:
                            continue
                        new = subst_val(c, e.o, e.a[0])
                        # the change cannot satisfy the waiter when the condition still has its blocking truth value
                        F0 = dom.Facts()
                        for k2, v2 in p.facts.truth.items():
                            F0.assume(k2, v2)
                        if e.r is not None:
                            old = subst_val(c, e.o, e.r)
                        else:
                            old = c
                        blocked = F0.decide(old)
                        if blocked is None:
                            if not F0.assume(old, v):
                                blocked = not v
                        if blocked is (not v):
                            continue        # nobody waits in this state
                        nv = F0.decide(new)
                        if nv == v:
                            continue        # still blocked
                        inst = "%s wakes %s" % (d.fn, wd.fn)
                        held = mtx in e.locks
                        later = [x for x in p.trace[i:] if x.k == 'notify' and x.o == cond]
                        specific = bool(syms(c, set()))
                        ok, msg = True, ""
                        if not held:
                            ok, msg = False, "the state is changed without holding the waiters' mutex"
                        elif not later:
                            ok, msg = False, "no notification follows the change"
                        elif specific and not any(x.n == 'broadcast' for x in later):
                            ok, msg = False, "only one waiter is notified, but waiters wait for different values"
                        if res.get(inst, (True,))[0] and not ok:
                            res[inst] = (False, msg, e)
                        res.setdefault(inst, (True, "", e))
            ctx.used(I)
            for inst, (ok, msg, e) in res.items():
                nn += 1
                ctx.check(ok, "signal-after-change", inst, e.where(), msg)
    ctx.need(3, "notifying functions", nn)
    registration(ctx, L)


def same_shape(a, b):
    """Same condition up to the generation of its loads."""
    if type(a) != type(b):
        return False
    if isinstance(a, dom.Lin):
        return a.c == b.c and len(a.ts) == len(b.ts) and all(
            any(k == k2 and same_shape(_terms[t], _terms[t2]) for t2, k2 in b.ts) for t, k in a.ts)
    if isinstance(a, tuple):
        if a and b and a[0] == 'ld' and b[0] == 'ld':
            return a[1] == b[1]
        return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))
    return a == b


def subst_val(v, loc, new):
    if isinstance(v, dom.Lin):
        r = v.c
        for t, k in v.ts:
            r = dom.add(r, dom.scale(subst_val(_terms[t], loc, new), k))
        return r
    if isinstance(v, tuple) and v:
        if v[0] == 'ld':
            return new if v[1] == loc else v
        if v[0] == 'eq':
            return c_eq(subst_val(v[1], loc, new), 0)
        if v[0] == 'lt':
            return c_lt(subst_val(v[1], loc, new), 0)
        if v[0] == 'not':
            return dom.c_not(subst_val(v[1], loc, new))
    return v


def registration(ctx, P):
    """add_waiter / notify_waiters / completion order."""
    rec = P.rec("stxxl::serving_request")
    cfg = ai.base_config()
    cfg.dyn[THIS] = rec
    cfg.havoc_wait = False
    cfg.models["stxxl::file::delete_request_ref"] = lambda I, c: 0
    cfg.models["stxxl::completion_handler::operator()"] = lambda I, c: (I.ev('handler', 'handler', c.obj, (), None, c.node), 0)[1]
    base = P.rec("stxxl::request_interface")

    def virt(name):
        m = [x for x in P.methods(base) if x["n"] == name and x.get("vi")]
        if not m:
            raise AnalysisBroken("request interface lacks " + name)
        f = P.resolve_virtual(rec, m[0])
        if f["u"] not in P.defs:
            raise AnalysisBroken("no definition of request::" + name)
        return P.defs[f["u"]]
    aw, dw = virt("add_waiter"), virt("delete_waiter")
    ins, polls = [], []
    I = ctx.interp(P, cfg)
    bad, n = None, 0
    setloc, mtx = None, None
    sw = ('O', 'sw')
    for p in I.paths(aw, this=THIS, args=[('&', sw)]):
        if p.out != 'ret':
            continue
        inserts = [e for e in p.trace if e.k == 'std' and e.n.split("::")[-1] in ("insert", "push_back", "push_front", "emplace") and root(e.o) == THIS]
        rets = p.facts.decide(c_eq(p.val, 0)) if p.val is not None else None
        n += 1
        if inserts:
            e = inserts[0]
            setloc = e.o
            if not e.locks:
                bad = bad or (e, "the waiter is registered without holding a lock")
            else:
                mtx = e.locks[-1]
                # state read under the same lock, before
                i = p.trace.index(e)
                reads = [x for x in p.trace[:i] if x.k == 'lock' and mtx in x.locks and x.o != mtx]
                lk = [x for x in p.trace[:i] if x.k == 'lock' and x.o == mtx]
                # the state is protected by its own lock; it must be taken after mtx
                if not reads:
                    bad = bad or (e, "the request's state is not tested between taking the registration lock and registering")
            if rets is False:
                bad = bad or (e, "registers the waiter although it reports the request as finished")
        elif rets is True:
            bad = bad or (p.trace[-1], "reports that the waiter was registered without registering it")
    ctx.used(I)
    if not n or (setloc is None and not bad):
        ctx.undecided("register-or-done", aw.fn, where(aw), "registration not recognised")
    else:
        ctx.check(bad is None, "register-or-done", aw.fn, bad[0].where() if bad else where(aw), bad[1] if bad else "")
    if setloc is None:
        return
    # deletion
    I = ctx.interp(P, cfg)
    bad = None
    for p in I.paths(dw, this=THIS, args=[('&', sw)]):
        if p.out != 'ret':
            continue
        er = [e for e in p.trace if e.k == 'std' and e.n.split("::")[-1] in ("erase", "remove", "clear") and e.o == setloc]
        if not er:
            bad = bad or (p.trace[-1], "the waiter stays registered")
        elif mtx is not None and mtx not in er[0].locks:
            bad = bad or (er[0], "the waiter set is changed without its lock")
    ctx.used(I)
    ctx.check(bad is None, "register-or-done", dw.fn, bad[0].where() if bad else where(dw), bad[1] if bad else "")
    # completion: state first, then the waiters under the lock
    st = fieldby(P, P.rec("stxxl::state"), "m_state")
    for name, root_fn in (("completion", "stxxl::request_with_state::completed"), ("cancellation", "stxxl::request_with_state::cancel")):
        for d in P.find(root_fn):
            cfg2 = ai.base_config()
            cfg2.dyn[THIS] = rec
            cfg2.havoc_wait = False
            cfg2.models["stxxl::file::delete_request_ref"] = lambda I, c: 0
            cfg2.models["stxxl::file::get_queue_id"] = lambda I, c: I.fresh("queue")
            cfg2.models["stxxl::completion_handler::operator()"] = cfg.models["stxxl::completion_handler::operator()"]

            def dq(I, c):
                if "disk_queues" in c.f["tu"].types[c.f["rt"]]["s"]:
                    return ('&', ('O', 'queues'))
                return NotImplemented
            cfg2.models["stxxl::singleton::get_instance"] = dq

            def canc(I, c):
                [I.argval(a) for a in c.args]
                r = I.choose(2, ("cancelled", c.node.get("l")))
                I.ev('dequeued', 'cancel', None, (r,), r, c.node)
                return r
            cfg2.models["stxxl::disk_queues::cancel_request"] = canc
            cfg2.models["stxxl::counting_ptr::dec_reference"] = lambda I, c: 0
            I = ctx.interp(P, cfg2)
            bad, n, on = None, 0, False
            for p in I.paths(d, this=THIS):
                if p.out != 'ret':
                    on = on or any(turns_on(e) for e in p.trace)
                    continue
                if name == "cancellation" and not any(e.k == 'dequeued' and e.r == 1 for e in p.trace):
                    continue
                n += 1
                sts = [(i, e) for i, e in enumerate(p.trace) if e.k == 'store' and e.o[0] == 'F' and e.o[2] == st[1]["n"] and root(e.o) == THIS and "state" in str(e.o[3])]
                nt = [(i, e) for i, e in enumerate(p.trace) if uses(e, setloc)]
                on = on or any(turns_on(e) for e in p.trace)
                if not nt:
                    bad = bad or (p.trace[-1], "the registered waiters are not notified")
                elif not sts or sts[0][0] > nt[0][0]:
                    bad = bad or (nt[0][1], "the waiters are notified before the request's state changes")
                elif mtx is not None and mtx not in nt[0][1].locks:
                    bad = bad or (nt[0][1], "the waiters are notified without the registration lock")
            ctx.used(I)
            if n and not on and not bad:
                bad = (p.trace[-1], "no waiter's switch is turned on")
            if not n:
                ctx.undecided("register-or-done", root_fn, where(d), "no complete path")
            else:
                ctx.check(bad is None, "register-or-done", root_fn, bad[0].where() if bad else where(d), bad[1] if bad else "")


def uses(e, setloc):
    """The waiter set is iterated."""
    if e.k == 'std' and e.o == setloc and e.n.split("::")[-1] in ("begin", "cbegin"):
        return True
    if e.k in ('stdfn', 'call') and (any(mention_loc(x, setloc) for x in e.a) or mention_loc(e.r, setloc)):
        return True
    return False


def turns_on(e):
    return (e.k == 'enter' and e.n == "stxxl::onoff_switch::on") or (e.k in ('stdfn', 'call') and "onoff_switch::on" in repr((e.a, e.r)))


def mention_loc(v, loc):
    if v == loc:
        return True
    if isinstance(v, dom.Lin):
        return any(mention_loc(_terms[i], loc) for i, _ in v.ts)
    if isinstance(v, tuple):
        return any(mention_loc(x, loc) for x in v)
    return False
