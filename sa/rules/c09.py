"""C09: operations on sets of requests (wait_all, wait_any, poll_any, cancel_all)."""
import ai, dom, prog
from dom import isconst, show
from core import where
from .util import *

REQS = ('O', 'reqs')


def config(P, n):
    cfg = ai.base_config()
    cfg.unroll = n + 2
    cfg.havoc_wait = False
    cfg.max_paths = 6000
    isreq = {}

    def onreq(name):
        def pred(f):
            if f["n"] != name or f["k"] != "method":
                return False
            ct = f.get("ct")
            if ct not in isreq:
                isreq[ct] = ct in ("stxxl::request_interface", "stxxl::request") or any(
                    P.derived_from(r, "stxxl::request_interface") for r in P.recs_by_ct.get(ct, []))
            return isreq[ct]
        return pred

    def idx(I, c):
        o = c.obj
        if o and o[0] == 'O' and str(o[1]).startswith("req#"):
            return int(o[1][4:])
        raise ai.PathEnd("request not identified")

    def W(I):
        return I.user.setdefault("w", {"done": set(), "err": {}, "reg": {}, "waited": [], "cancel": [], "checked": set(), "bad": []})

    def fail(I, i, node):
        w = W(I)
        if i not in w["err"]:
            w["err"][i] = I.choose(2, ("failed", i))
        if w["err"][i]:
            I.throw_ext("stxxl::io_error", node)
        w["checked"].add(i)

    def isdone(I, i):
        w = W(I)
        if i not in w["done"] and I.choose(2, ("done", i, len(I.trace))):
            w["done"].add(i)
        return i in w["done"]

    def wait(I, c):
        [I.argval(a) for a in c.args]
        i = idx(I, c)
        W(I)["done"].add(i)
        W(I)["waited"].append(i)
        I.ev('wait', 'wait', c.obj, (), None, c.node)
        fail(I, i, c.node)
        return 0

    def poll(I, c):
        i = idx(I, c)
        d = isdone(I, i)
        I.ev('poll', 'poll', c.obj, (), int(d), c.node)
        if d:
            fail(I, i, c.node)
        return int(d)

    def check(I, c):
        i = idx(I, c)
        I.ev('check', 'check', c.obj, (), None, c.node)
        if i in W(I)["done"]:
            fail(I, i, c.node)
        return 0

    def cancel(I, c):
        i = idx(I, c)
        r = I.choose(2, ("cancelled", i))
        if r:
            W(I)["done"].add(i)
        W(I)["cancel"].append((i, r))
        I.ev('cancel', 'cancel', c.obj, (), r, c.node)
        return r

    def add(I, c):
        i = idx(I, c)
        sw = I.deref(c.arg(0))
        d = isdone(I, i)
        I.ev('addw', 'add_waiter', c.obj, (), int(d), c.node)
        if d:
            # a finished request reports its error here or leaves it to check_errors
            w = W(I)
            if i not in w["err"]:
                w["err"][i] = I.choose(2, ("failed", i))
            if w["err"][i]:
                I.throw_ext("stxxl::io_error", c.node)
            return 1
        W(I)["reg"].setdefault(i, set()).add(sw)
        return 0

    def dele(I, c):
        i = idx(I, c)
        sw = I.deref(c.arg(0))
        I.ev('delw', 'delete_waiter', c.obj, (), None, c.node)
        W(I)["reg"].get(i, set()).discard(sw)
        return 0

    def won(I, c):
        w = W(I)
        reg = sorted(i for i, s in w["reg"].items() if c.obj in s)
        missing = [i for i in range(I.user["n"]) if i not in reg]
        if missing:
            w["bad"].append((c.node.get("l"), "waits although the switch is not registered with every request"))
        if not reg:
            raise ai.PathEnd("blocks")
        pend = [i for i in reg if i not in w["done"]]
        k = I.choose(len(reg), ("wakes", c.node.get("l"))) if len(reg) > 1 else 0
        w["done"].add(reg[k])
        I.ev('woken', 'woken', c.obj, (reg[k],), None, c.node)
        return 0
    for n_, h in (("wait", wait), ("poll", poll), ("check_errors", check), ("cancel", cancel), ("add_waiter", add), ("delete_waiter", dele)):
        cfg.model_pred.insert(0, (onreq(n_), h))
    cfg.models["stxxl::onoff_switch::wait_for_on"] = won
    cfg.models["stxxl::onoff_switch::onoff_switch"] = lambda I, c: 0
    for m in ("inc_reference", "dec_reference"):
        cfg.model_pred.insert(0, ((lambda m: lambda f: f.get("ct") == "stxxl::counting_ptr" and f["n"] == m)(m), lambda I, c: 0))
    return cfg


def setup(P, n):
    rec = [r for r in P.recs_by_ct["stxxl::counting_ptr"]]
    fld = None
    for r in rec:
        for f in r.get("fs", []):
            if r["tu"].types[f["t"]]["k"] == "ptr":
                fld = f["n"]
    if fld is None:
        raise AnalysisBroken("pointer member of counting_ptr not found")

    def s(I):
        I.user["n"] = n
        for i in range(n):
            I.store[('F', ('I', REQS, i), fld, 'stxxl::counting_ptr')] = ('&', ('O', 'req#%d' % i))
            if i == 0:
                I.store[('F', REQS, fld, 'stxxl::counting_ptr')] = ('&', ('O', 'req#0'))
    return s


def index(v):
    if is_ptr(v) and v[1] == REQS:
        return 0
    if is_ptr(v) and v[1][0] == 'I' and v[1][1] == REQS and isconst(v[1][2]):
        return v[1][2]
    if isconst(v):
        return v
    k = dom.sub(v, ('&', REQS))
    return k if isconst(k) else None


def run(ctx):
    ctx.rule("wait-all", "wait_all has waited for every request of the range, when it returns")
    ctx.rule("wait-any", "wait_any returns the position of a request that has completed without error; it only sleeps when its switch is registered with every request; "
             "a failed request makes it throw")
    ctx.rule("no-dangling-waiter", "wait_any leaves no request with a reference to its local switch, however it exits")
    ctx.rule("poll-any", "poll_any returns the position of a completed request, or the end (false) when every request was found unfinished")
    ctx.rule("cancel-all", "cancel_all tries to cancel every request once and returns the number of successful cancellations")
    P = ctx.driver("io")
    todo = []
    for name in ("wait_all", "wait_any", "poll_any", "cancel_all"):
        ds = P.find("stxxl::" + name)
        ctx.need(1, name, len(ds))
        for d in ds:
            todo.append((name, d))
    maxn = 4 if ctx.thorough else 3
    for name, d in todo:
        ctx.sub(d.fn, one, ctx, P, name, d, maxn)


def one(ctx, P, name, d, maxn):
    nparam = len(d.params)
    tys = [d.tu.types[t] for t in d.f["ps"]]
    arr = len(tys) >= 2 and tys[1]["k"] == "int"
    inst = "%s(%s)" % (d.fn, "array" if arr else "iterators")
    rule = {"wait_all": "wait-all", "wait_any": "wait-any", "poll_any": "poll-any", "cancel_all": "cancel-all"}[name]
    if not arr and len(tys) != 2:
        return
    bad, dang, n_ok = None, None, 0
    for n in range(0, maxn + 1):
        if name == "wait_any" and n == 0:
            continue
        cfg = config(P, n)
        I = ctx.interp(P, cfg)
        args = [('&', REQS), n if arr else dom.add(('&', REQS), n)]
        if arr and nparam == 3:
            args.append(('&', ('O', 'index')))
        for p in I.paths(d, setup=setup(P, n), args=args):
            if p.out not in ('ret', 'throw'):
                continue
            w = p.I.user.get("w") or {"done": set(), "err": {}, "reg": {}, "waited": [], "cancel": [], "checked": set(), "bad": []}
            w = {k: (set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else list(v)) for k, v in w.items()}
            n_ok += 1
            desc = "%d requests; %s" % (n, " ".join("%s(%s)=%s" % (e.n, e.o[1] if e.o else "", e.r) for e in p.trace if e.k in ('wait', 'poll', 'check', 'cancel', 'addw', 'delw', 'woken'))[:200])
            left = [i for i, s in w["reg"].items() if s]
            if left and dang is None:
                dang = "the switch stays registered with request %d (exit by %s; %s)" % (left[0], "return" if p.out == 'ret' else "exception", desc)
            if w["bad"] and bad is None:
                bad = w["bad"][0][1] + " (" + desc + ")"
            if p.out == 'throw':
                if not any(w["err"].values()) and bad is None:
                    bad = "throws although no request failed (%s)" % desc
                continue
            v = p.val
            if name == "wait_all":
                miss = [i for i in range(n) if i not in w["done"] or i not in w["checked"]]
                if miss:
                    bad = bad or "returned although request %d of %d may be unfinished (%s)" % (miss[0], n, desc)
            elif name == "cancel_all":
                if sorted(i for i, r in w["cancel"]) != list(range(n)):
                    bad = bad or "tried to cancel requests %s of %d" % ([i for i, r in w["cancel"]], n)
                elif isconst(v) and v != sum(r for i, r in w["cancel"]):
                    bad = bad or "returned %d for %d cancelled requests (%s)" % (v, sum(r for i, r in w["cancel"]), desc)
            else:
                if name == "poll_any" and arr:
                    ix = p.store.get(('O', 'index'))
                    ix = ix if isconst(ix) else None
                    found = v if isconst(v) else None
                    if found is None or ix is None:
                        found = ix = None
                    elif found and ix >= n or not found and ix != n and any(e.k == 'poll' and e.r for e in p.trace):
                        bad = bad or "returns %s with index %s (%s)" % (found, ix, desc)
                    i = ix if found else n
                else:
                    i = index(v)
                if i is None:
                    ctx.undecided(rule, inst, where(d), "result not determined: " + show(v)[:80])
                    return
                if i == n and name == "poll_any":
                    if sorted({int(e.o[1][4:]) for e in p.trace if e.k == 'poll' and e.r == 0}) != list(range(n)):
                        bad = bad or "reports that no request is complete without having polled every one unsuccessfully (%s)" % desc
                elif not (0 <= i < n):
                    bad = bad or "returns position %d of %d requests (%s)" % (i, n, desc)
                elif i not in w["done"]:
                    bad = bad or "returns request %d, which has not completed (%s)" % (i, desc)
                elif i not in w["checked"] and w["err"].get(i) is None:
                    bad = bad or "returns request %d without having checked whether it failed (%s)" % (i, desc)
                elif w["err"].get(i):
                    bad = bad or "returns request %d, which failed (%s)" % (i, desc)
        ctx.used(I)
    if not n_ok:
        ctx.undecided(rule, inst, where(d), "no complete path")
        return
    ctx.check(bad is None, rule, inst, where(d), bad or "")
    if name == "wait_any":
        ctx.check(dang is None, "no-dangling-waiter", inst, where(d), dang or "")
