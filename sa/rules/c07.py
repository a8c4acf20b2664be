"""C07: every submitted request is served or cancelled exactly once; queue threads terminate cleanly."""
import itertools
import ai, dom, prog, seqmodel
from dom import c_eq, c_lt, isconst, show, _terms
from core import where
from .util import *

SEMUP, SEMDOWN = "stxxl::semaphore::operator++", "stxxl::semaphore::operator--"


def deep(p, v, d=0):
    """Resolves object terms through the final store, as text."""
    if d > 12:
        return "..."
    if isinstance(v, dom.Lin):
        return "lin(" + ",".join(deep(p, _terms[t], d + 1) for t, _ in v.ts) + ")"
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'obj':
            s = p.store.get(v[1])
            if s is not None and s != v:
                return deep(p, s, d + 1)
            fs = sorted((k for k in p.store if k[0] == 'F' and k[1] == v[1]), key=repr)
            if fs and v[1][0] in ('L', 'T'):
                return "{" + ",".join(deep(p, p.store[k], d + 1) for k in fs) + "}"
            return showloc(v[1])
        return "(" + ",".join(deep(p, x, d + 1) for x in v) + ")"
    return str(v)


def config(P):
    cfg = ai.base_config()

    def sem(kind):
        def h(I, c):
            for a in c.args:
                I.eval(a)
            r = I.fresh("sem", lo=0)
            I.ev('sem', kind, c.obj, (), r, c.node)
            return r
        return h
    cfg.models[SEMUP] = sem('up')
    cfg.models[SEMDOWN] = sem('down')
    cfg.models["stxxl::semaphore::decrement"] = sem('dec')

    def sget(I, c):
        r = I.fresh("state", lo=0)
        I.ev('stateread', 'read', c.obj, (), r, c.node)
        return r
    cfg.models["stxxl::state::operator()"] = sget

    def sset(I, c):
        v = I.argval(c.args[0])
        if is_ptr(v):
            v = I.load(v[1])
        I.ev('stateset', 'set', c.obj, (v,), None, c.node)
        return 0
    cfg.models["stxxl::state::set_to"] = sset

    def popchk(I, c):
        I.ev('popguard', c.f["n"], c.obj, (I.facts.decide(c_lt(0, I.size(c.obj))),), None, c.node)
        return NotImplemented
    cfg.model_pred.insert(0, (lambda f: f["n"] in ("pop_front", "pop_back", "pop") and f["fn"].startswith("std::"), popchk))
    isreq = {}

    def is_serve(f):
        if f["n"] not in ("serve", "post") or f["k"] != "method":
            return False
        u = f.get("cls") or f.get("ct")
        if u not in isreq:
            rs = P.recs_by_ct.get(f.get("ct"), [])
            isreq[u] = any(P.derived_from(r, "stxxl::request_interface") or r["ct"] == "stxxl::request_interface" for r in rs)
        return isreq[u]

    def serve(I, c):
        [I.argval(a) for a in c.args]
        if c.f["n"] == "post":
            r = I.choose(2, ("posted", c.node.get("l")))
        else:
            r = 0
        I.ev('served', c.f["n"], c.obj, (r,), r, c.node)
        return r
    cfg.model_pred.insert(0, (is_serve, serve))

    def completed(I, c):
        a = tuple(I.argval(a) for a in c.args)
        I.ev('completed', c.f["fn"], c.obj, a, None, c.node)
        return 0
    cfg.model_pred.insert(0, (lambda f: f["n"] == "completed" and f["k"] == "method", completed))
    cfg.model_pred.insert(0, (lambda f: f.get("ct") == "stxxl::counting_ptr" and f["n"] in ("inc_reference", "dec_reference"), lambda I, c: 0))

    def sysc(I, c):
        a = tuple(I.argval(x) for x in c.args)
        r = I.fresh("syscall")
        I.ev('syscall', str(a[0]), None, a, r, c.node)
        return r
    cfg.models["syscall"] = sysc
    cfg.havoc_lock = lambda loc: root(loc) == THIS
    return cfg


def locs_in(p, v, out, d=0):
    """Locations below this that a value mentions, resolving objects through the final store."""
    if d > 12:
        return out
    if isinstance(v, dom.Lin):
        for t, _ in v.ts:
            locs_in(p, _terms[t], out, d + 1)
    elif isinstance(v, tuple) and v:
        if v[0] in ('F', 'I') and root(v) == THIS:
            out.add(v)
            return out
        if len(v) == 2 and v[0] == 'obj':
            s = p.store.get(v[1])
            if s is not None and s != v:
                return locs_in(p, s, out, d + 1)
        for x in v:
            locs_in(p, x, out, d + 1)
    return out


CONT = ("push_back", "push_front", "push", "insert", "emplace_back", "emplace")
ERASE = ("erase", "remove")
POP = ("pop_front", "pop_back", "pop")


def cont(e):
    return e.n.split("::")[-1]


def fieldname(loc):
    while loc[0] == 'F' and loc[1] != THIS:
        loc = loc[1]
    return loc[2] if loc[0] == 'F' else showloc(loc)


def conts(p, names):
    return [e for e in p.trace if e.k == 'std' and cont(e) in names and e.o is not None and root(e.o) == THIS]


def net(p, semloc=None):
    n = {}
    for e in p.trace:
        if e.k == 'sem':
            n[e.o] = n.get(e.o, 0) + (1 if e.n == 'up' else -1)
    return {k: v for k, v in n.items() if v}


def run(ctx):
    ctx.rule("submit", "submitting a request puts it into exactly one waiting list and raises that list's counter by one; nothing is counted when submission fails")
    ctx.rule("cancel", "cancelling removes the found request from the list submission puts it into, lowers the counter by one and reports success, or changes nothing and reports failure")
    ctx.rule("serve-once", "in every round the worker takes one token and either takes one request, while it is known to be there, and serves it once, or returns the token")
    ctx.rule("progress", "followed exactly through every sequence of up to three read and write arrivals, one by one, all at once and all at once with the end already requested, under every priority, "
             "the worker serves each request once, in the order of its list, never sleeps or spins while one waits, and ends when asked to")
    ctx.rule("terminate", "the worker ends only after termination was requested and no token is left, and then announces it; "
             "the destructor requests termination, wakes the worker through the counter it sleeps on, and joins it")
    P = ctx.lib([f for f in prog.LIB_FILES if "/io/" in f])
    base = "stxxl::request_queue"
    classes = []
    seen = set()
    for d in P.defs.values():
        if d.f["n"] == "add_request" and d.rec is not None and P.derived_from(d.rec, base) and d.rec["u"] not in seen:
            seen.add(d.rec["u"])
            classes.append(d.rec)
    ctx.need(2, "request queue classes", len(classes))
    for rec in classes:
        ctx.sub("queue " + rec["ct"], queue_class, ctx, P, rec)


def method(P, rec, name):
    for d in P.defs.values():
        if d.rec is not None and d.rec["u"] == rec["u"] and d.f["n"] == name:
            return d
    return None


def request_body(P, I, d, kind, typ):
    """Runs d(request_ptr&) on a request of type typ."""
    rq, req = ('O', 'rq'), ('O', 'req')
    rec = P.rec(kind)
    I.dyn[rq] = rec
    for ct, f, r in P.fields(P.rec("stxxl::counting_ptr")):
        I.store[F(req, f["n"], ct)] = ('&', rq)
    ct, f, t = fieldby(P, rec, "m_type", lambda f, t: t["k"] == "enum")
    I.store[F(rq, f["n"], ct)] = typ
    fr = I.newframe(d, THIS)
    for vid, name, t in d.params:
        I.store[I.lvar(fr, vid, name)] = ('&', req)
    return I.runbody(d, fr)


def queue_class(ctx, P, rec):
    short = rec["ct"].split("::")[-1]
    kind = "stxxl::linuxaio_request" if "aio" in rec["ct"] else "stxxl::serving_request"
    add, cancel = method(P, rec, "add_request"), method(P, rec, "cancel_request")
    if add is None or cancel is None:
        raise AnalysisBroken("%s lacks add_request or cancel_request" % rec["ct"])
    cfg = config(P)
    where_for = {}
    # -------- submit
    for typ, tn in ((0, "read"), (1, "write")):
        I = ctx.interp(P, cfg)
        bad, n = None, 0
        for p in I.paths(None, body=lambda I: request_body(P, I, add, kind, typ)):
            if p.out == 'end':
                continue
            ins = conts(p, CONT)
            nt = net(p)
            if p.out == 'throw':
                if ins or nt:
                    bad = bad or (where(add), "submission fails although the request was already queued or counted")
                continue
            n += 1
            if len(ins) != 1:
                bad = bad or (where(add), "the request is put into %d waiting lists (%s)" % (len(ins), pathdesc(p)))
                continue
            e = ins[0]
            if "rq" not in deep(p, e.a) and "req" not in deep(p, e.a):
                bad = bad or (e.where(), "something else than the submitted request is queued: %s" % deep(p, e.a)[:120])
            if list(nt.values()) != [1]:
                bad = bad or (e.where(), "the counters change by %s when one request is queued" % ({fieldname(k): v for k, v in nt.items()} or 0))
            else:
                where_for.setdefault(tn, set()).add((e.o, list(nt)[0]))
        ctx.used(I)
        if not n:
            ctx.undecided("submit", "%s %s" % (short, tn), where(add), "no complete path")
        else:
            ctx.check(bad is None, "submit", "%s %s" % (short, tn), bad[0] if bad else where(add), bad[1] if bad else "")
    # -------- cancel
    for typ, tn in ((0, "read"), (1, "write")):
        I = ctx.interp(P, cfg)
        bad, n = None, 0
        for p in I.paths(None, body=lambda I: request_body(P, I, cancel, kind, typ)):
            if p.out == 'end':
                continue
            er = conts(p, ERASE + POP)
            nt = net(p)
            if p.out == 'throw':
                if er or nt:
                    bad = bad or (where(cancel), "cancellation throws although the request was already removed")
                continue
            v = p.facts.decide(c_eq(p.val, 0)) if p.val is not None else None
            n += 1
            if v is None:
                bad = bad or (where(cancel), "cancellation returns an undetermined value")
                continue
            ok = not v
            if ok != (len(er) == 1):
                bad = bad or (er[0].where() if er else where(cancel), "cancellation reports %s but removes %d requests (%s)" % ("success" if ok else "failure", len(er), pathdesc(p)))
                continue
            if sum(nt.values()) != (-1 if ok else 0):
                bad = bad or (where(cancel), "cancellation reports %s and changes the counters by %s (%s)" % ("success" if ok else "failure", {fieldname(k): v for k, v in nt.items()} or 0, pathdesc(p)))
                continue
            if ok:
                t = deep(p, er[0].a)
                if "find" in t and "req" not in t and "rq" not in t:
                    bad = bad or (er[0].where(), "another request than the given one is removed: %s" % t[:150])
                elif any(x != er[0].o for x in locs_in(p, er[0].a, set())):
                    bad = bad or (er[0].where(), "the request is removed from %s at a position of another list" % fieldname(er[0].o))
                elif "find" not in t and ("begin" in t or "end" in t or cont(er[0]) in POP):
                    bad = bad or (er[0].where(), "the removed request was not looked up: %s" % t[:150])
                key = (er[0].o, list(nt)[0] if nt else None)
                if tn in where_for and key not in where_for[tn]:
                    bad = bad or (er[0].where(), "a %s request is queued in %s and counted by %s, but cancelled in %s and %s" % (
                        (tn,) + tuple(fieldname(x) for x in list(where_for[tn])[0]) + tuple(fieldname(x) if x else "-" for x in key)))
        ctx.used(I)
        if not n:
            ctx.undecided("cancel", "%s %s" % (short, tn), where(cancel), "no complete path")
        else:
            ctx.check(bad is None, "cancel", "%s %s" % (short, tn), bad[0] if bad else where(cancel), bad[1] if bad else "")
    # -------- threads
    ctors = [d for d in P.defs.values() if d.rec is not None and d.rec["u"] == rec["u"] and d.kind == "ctor"]
    dtors = [d for d in P.defs.values() if d.rec is not None and d.rec["u"] == rec["u"] and d.kind == "dtor"]
    if not ctors or not dtors:
        raise AnalysisBroken("%s: no constructor or destructor" % rec["ct"])
    workers = set()
    I = ctx.interp(P, cfg)
    started = None
    for p in I.paths(ctors[0], this=THIS):
        if p.out != 'ret':
            continue
        st = {}
        for e in p.trace:
            if e.k == 'thread':
                st[e.o] = e.a
        started = st
    ctx.used(I)
    if not started:
        raise AnalysisBroken("%s: no thread is started" % rec["ct"])
    entry = {}
    for tl, a in started.items():
        fn = [x for x in a if isinstance(x, tuple) and x and x[0] in ('fn', 'fref', 'func')]
        k = None
        for x in flatten(a):
            if x in P.defs:
                k = x
        if k is None:
            raise AnalysisBroken("%s: the thread function is not known: %s" % (rec["ct"], show(a)))
        entry[tl] = P.defs[k]
    slots = events(ctx, P, cfg, rec, short) if method(P, rec, "handle_events") else None
    sleeps = {}
    for tl, d in entry.items():
        sleeps[tl] = worker(ctx, P, cfg, rec, short, d, where_for, slots)
        if not slots:
            ctx.sub("progress " + short, progress, ctx, P, rec, short, d, where_for, sleeps[tl][1], kind)
    stop(ctx, P, cfg, short, dtors[0], sleeps)


def flatten(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flatten(x)
    else:
        yield v


def worker(ctx, P, cfg, rec, short, d, where_for, slots):
    """Analyses one thread function; returns (sleeping semaphore, state it tests, termination value, announced value)."""
    inst = "%s %s" % (short, d.f["n"])
    cfg = config(P)
    cfg.unroll = 2
    cfg.dyn_hook = None
    hev = set()

    def handle(I, c):
        a = [I.argval(x) for x in c.args]
        I.ev('handled', 'events', c.obj, tuple(a), None, c.node)
        return 0
    cfg.models[rec["ct"] + "::handle_events"] = handle
    queues = {c: s for tn in where_for for c, s in where_for[tn]}

    def body(I):
        fr = I.newframe(d, None)
        for vid, name, t in d.params:
            I.store[I.lvar(fr, vid, name)] = ('&', THIS)
        return I.runbody(d, fr)
    I = ctx.interp(P, cfg)
    bad, n, served, badt, nt_ = None, 0, 0, None, 0
    first, terms, ann = set(), set(), set()
    for p in I.paths(None, body=body):
        if p.out == 'end':
            if p.why != 'cut' or not I.cut_at:
                continue
            if len(I.cut_at) != 1:
                # cut inside an inner loop
                continue
        elif p.out == 'throw':
            continue
        n += 1
        pops = conts(p, POP + ERASE)
        sv = [e for e in p.trace if e.k == 'served' and e.r != 0 or e.k == 'served' and e.n == 'serve']
        nt = net(p)
        downs = [e for e in p.trace if e.k == 'sem' and e.n != 'up']
        if downs:
            first.add(downs[0].o)
        served += len(sv)
        # balance
        if len(pops) != len(sv):
            bad = bad or (pops[-1].where() if pops else where(d), "%d requests are taken from the queue and %d are served (%s)" % (len(pops), len(sv), pathdesc(p)))
        for e in p.trace:
            if e.k == 'popguard' and e.o in queues and e.a[0] is not True:
                bad = bad or (e.where(), "a request is taken although the queue may be empty at that point")
        # the requests served are the ones taken
        fr_ = [e for e in p.trace if e.k == 'std' and cont(e) == 'front' or e.k == 'std' and cont(e) == 'begin']
        for q, s in queues.items():
            np = len([e for e in pops if e.o == q])
            others = [q2 for q2, s2 in queues.items() if s2 == s]
            np = len([e for e in pops if e.o in others])
            term = 0
            if p.out == 'ret' and downs and downs[0].o == s:
                term = 1
            if pops or s in nt or term:
                if -nt.get(s, 0) != np + term:
                    bad = bad or (where(d), "%d requests are taken and the counter changes by %d%s (%s)" % (
                        np, nt.get(s, 0), " at termination" if term else "", pathdesc(p)))
                    break
        if downs and not sv and not pops and downs[0].o not in queues.values() and nt.get(downs[0].o, 0) != (-1 if p.out == 'ret' else 0):
            bad = bad or (where(d), "a round without a request changes the counter by %d (%s)" % (nt.get(downs[0].o, 0), pathdesc(p)))
        if slots and any(e.n == "post" for e in sv):
            posted, free = slots
            if nt.get(posted, 0) != len(sv) or nt.get(free, 0) != -len(sv):
                bad = bad or (where(d), "%d requests are handed to the kernel, the counter of running requests changes by %d and that of free slots by %d (%s)" % (
                    len(sv), nt.get(posted, 0), nt.get(free, 0), pathdesc(p)))
        if p.out == 'ret':
            nt_ += 1
            idx = [i for i, e in enumerate(p.trace) if e.k == 'sem' and e.n != 'up']
            last = p.trace[idx[-1]] if idx else None
            reads = [e for e in p.trace if e.k == 'stateread']
            sets = [e for e in p.trace if e.k == 'stateset']
            if last is None or p.facts.decide(c_eq(last.r, 0)) is not True:
                badt = badt or (where(d), "the worker ends although tokens may be left (%s)" % pathdesc(p))
            good = None
            for e in reads:
                for v in range(0, 8):
                    if p.facts.decide(c_eq(e.r, v)) is True:
                        good = (e.o, v)
            if good is None:
                badt = badt or (where(d), "the worker ends without having been asked to (%s)" % pathdesc(p))
            else:
                terms.add(good)
            if len(sets) != 1 or p.trace.index(sets[0]) < (idx[-1] if idx else 0):
                badt = badt or (where(d), "the worker does not announce its end exactly once, as its last step")
            else:
                ann.add((sets[0].o, sets[0].a[0]))
                if good and sets[0].o != good[0]:
                    badt = badt or (sets[0].where(), "the worker tests one state and announces its end in another one")
    ctx.used(I)
    if not n:
        ctx.undecided("serve-once", inst, where(d), "no complete round")
    else:
        ctx.check(bad is None, "serve-once", inst, bad[0] if bad else where(d), bad[1] if bad else "")
    if nt_ == 0:
        ctx.undecided("terminate", inst, where(d), "no terminating path")
    else:
        ctx.check(badt is None, "terminate", inst, badt[0] if badt else where(d), badt[1] if badt else "")
    return first, terms, ann, d


SCRIPTS = [t for n in (1, 2, 3) for t in itertools.product(("read", "write"), repeat=n)]


def progress(ctx, P, rec, short, d, where_for, terms, kind):
    """Follows the worker exactly through every short sequence of arrivals, one by one and all at once, under every priority:
    each request is served once, in the order of arrival of its list, before the worker sleeps with nothing to do or ends."""
    inst = "%s %s" % (short, d.f["n"])
    if len(terms) != 1 or set(where_for) != {"read", "write"} or any(len(s) != 1 for s in where_for.values()):
        ctx.undecided("progress", inst, where(d), "lists, counter or end request not known")
        return
    (sloc, term), = terms
    place = {tn: list(s)[0] for tn, s in where_for.items()}
    cfg = config(P)
    seqmodel.Seqs(cfg)
    cfg.unroll = 400
    cfg.havoc_lock = None
    prio = [(F(THIS, f["n"], ct)) for ct, f, r in P.fields(rec) if f["n"] == "m_priority_op"]
    krec = P.rec(kind)
    cptr = [(ct, f) for ct, f, r in P.fields(P.rec("stxxl::counting_ptr"))]

    def arrive(I, i):
        u = I.user
        tn = u["script"][i]
        q, s = place[tn]
        rq = ('O', 'req%d' % i)

        def fill(l):
            for ct, f in cptr:
                I.store[F(l, f["n"], ct)] = ('&', rq)
        l = I.cfg.seqs.newelem(I, q, 0)
        I.user["seq"][q].append(l)
        fill(l)
        u["tok"][s] = u["tok"].get(s, 0) + 1

    def down(I, c):
        for a in c.args:
            I.eval(a)
        u = I.user
        u["rounds"] += 1
        if u["rounds"] > 12 + 8 * len(u["script"]):
            u["stuck"] = "the worker goes round and round without serving the waiting requests"
            raise ai.PathEnd('stuck')
        if u["tok"].get(c.obj, 0) <= 0:
            if u["next"] < len(u["script"]):
                if any(I.user["seq"][q] for q, s in place.values()):
                    u["stuck"] = "the worker sleeps while a request waits"
                    raise ai.PathEnd('stuck')
                arrive(I, u["next"])
                u["next"] += 1
            elif not u["term"]:
                u["term"] = 1
                u["tok"][c.obj] = u["tok"].get(c.obj, 0) + 1
            if u["tok"].get(c.obj, 0) <= 0:
                u["stuck"] = "the worker sleeps for ever although its end was requested"
                raise ai.PathEnd('stuck')
        u["tok"][c.obj] -= 1
        return u["tok"][c.obj]

    def up(I, c):
        for a in c.args:
            I.eval(a)
        I.user["tok"][c.obj] = I.user["tok"].get(c.obj, 0) + 1
        return I.user["tok"][c.obj]

    def sget(I, c):
        return term if I.user["term"] else (1 if term != 1 else 0)

    def serve(I, c):
        for a in c.args:
            I.argval(a)
        I.user["done"].append(root(c.obj)[1])
        return 0
    cfg.models[SEMUP], cfg.models[SEMDOWN] = up, down
    cfg.models["stxxl::semaphore::decrement"] = down
    cfg.models["stxxl::state::operator()"] = sget
    cfg.model_pred.insert(0, (lambda f: f["n"] == "serve" and f["k"] == "method", serve))

    bad, n = None, 0
    for pr in ((0, 1, 2) if prio else (None,)):
        for script in SCRIPTS:
            for once in (0, 1, 2):
                I = ctx.interp(P, cfg)

                def body(I):
                    u = I.user
                    u.update(script=script, next=0, term=0, tok={}, rounds=0, done=[], stuck=None)
                    for q, s in place.values():
                        I.cfg.seqs.put(I, q, [], "std::list")
                    for l in prio:
                        I.store[l] = pr
                    for i in range(len(script)):
                        I.dyn[('O', 'req%d' % i)] = krec
                    if once:
                        for i in range(len(script)):
                            arrive(I, i)
                        u["next"] = len(script)
                    if once == 2:
                        u["term"] = 1
                        for s in set(s for q, s in place.values()):
                            u["tok"][s] += 1
                    fr = I.newframe(d, None)
                    for vid, name, t in d.params:
                        I.store[I.lvar(fr, vid, name)] = ('&', THIS)
                    return I.runbody(d, fr)
                for p in I.paths(None, body=body):
                    u = I.user
                    what = "%s arriving %s%s" % (", ".join(script), ("one by one", "together", "together, then the end is requested")[once], "" if pr is None else ", priority %d" % pr)
                    if u.get("misuse"):
                        bad = bad or (where(d), "%s (%s)" % (u["misuse"][0][1], what))
                        continue
                    if u.get("stuck"):
                        bad = bad or (where(d), "%s (%s, served %s)" % (u["stuck"], what, " ".join(u["done"]) or "nothing"))
                        continue
                    if p.out != 'ret':
                        continue
                    n += 1
                    want = {}
                    for i, tn in enumerate(script):
                        want.setdefault(place[tn][0], []).append('req%d' % i)
                    for q, w in want.items():
                        got = [r for r in u["done"] if r in w]
                        if got != w:
                            bad = bad or (where(d), "%s: %s served, in this order (%s)" % (", ".join(w), " ".join(got) or "nothing", what))
                ctx.used(I)
                if bad:
                    break
    if not bad and n < len(SCRIPTS) * 3 * (3 if prio else 1):
        ctx.undecided("progress", inst, where(d), "only %d of %d sequences could be followed to the end" % (n, len(SCRIPTS) * 3 * (3 if prio else 1)))
    else:
        ctx.check(bad is None, "progress", inst, bad[0] if bad else where(d), bad[1] if bad else "")


def stop(ctx, P, cfg, short, d, sleeps):
    I = ctx.interp(P, cfg)
    bad, n = None, 0
    for p in I.paths(d, this=THIS):
        if p.out != 'ret':
            continue
        n += 1
        joins = [(i, e) for i, e in enumerate(p.trace) if e.k == 'thread' and e.n == 'join']
        if len(joins) < len(sleeps):
            bad = bad or (where(d), "%d of %d threads are joined" % (len(joins), len(sleeps)))
            continue
        ends = [i for i, e in enumerate(p.trace) if e.k == 'syscall' and e.n == '207']
        if ends and ends[0] < joins[-1][0]:
            bad = bad or (p.trace[ends[0]].where(), "the kernel's I/O context is destroyed while a thread still uses it")
        for tl, (first, terms, ann, wd) in sleeps.items():
            j = [i for i, e in joins if mention(e.a, tl) or e.o == tl]
            if not j:
                bad = bad or (where(d), "the thread running %s is not joined" % wd.f["n"])
                continue
            pre = p.trace[:j[0]]
            ups = [i for i, e in enumerate(pre) if e.k == 'sem' and e.n == 'up' and (not first or e.o in first)]
            sets = [i for i, e in enumerate(pre) if e.k == 'stateset' and (e.o, e.a[0]) in terms]
            if terms and not sets:
                bad = bad or (where(d), "the thread running %s is joined without having been asked to end" % wd.f["n"])
            elif not ups:
                bad = bad or (where(d), "the thread running %s is joined without being woken through the counter it sleeps on" % wd.f["n"])
            elif sets and ups[-1] < sets[0]:
                bad = bad or (where(d), "the thread running %s is woken before its end is requested" % wd.f["n"])
    ctx.used(I)
    if not n:
        ctx.undecided("terminate", short + " destructor", where(d), "no complete path")
    else:
        ctx.check(bad is None, "terminate", short + " destructor", bad[0] if bad else where(d), bad[1] if bad else "")


def mention(v, loc):
    if v == loc:
        return True
    if isinstance(v, dom.Lin):
        return any(mention(_terms[t], loc) for t, _ in v.ts)
    if isinstance(v, tuple):
        return any(mention(x, loc) for x in v)
    return False


def events(ctx, P, cfg, rec, short):
    """Each event the kernel reports completes its request once and gives its slot back."""
    d = method(P, rec, "handle_events")
    cfg = config(P)
    cfg.unroll = 2
    I = ctx.interp(P, cfg)
    slots = None
    for N in (1, 2):
        bad, n = None, 0

        def body(I):
            fr = I.newframe(d, THIS)
            ev = ('O', 'events')
            vals = [('&', ev), N, 0]
            for i in range(N):
                l = ev if i == 0 else ('I', ev, i)
                I.store[F(l, 'data', 'io_event')] = ('&', ('H', 'cell%d' % i))
                for ct, f, r in P.fields(P.rec("stxxl::counting_ptr")):
                    I.store[F(('H', 'cell%d' % i), f["n"], ct)] = ('&', ('O', 'rq%d' % i))
                I.dyn[('O', 'rq%d' % i)] = P.rec("stxxl::linuxaio_request")
            for i, (vid, name, t) in enumerate(d.params):
                I.store[I.lvar(fr, vid, name)] = vals[i] if i < 3 else 0
            return I.runbody(d, fr)
        for p in I.paths(None, body=body):
            if p.out != 'ret':
                continue
            n += 1
            comp = [e for e in p.trace if e.k == 'completed']
            objs = [e.o for e in comp]
            nt = net(p)
            if len(comp) != N or len(set(map(repr, objs))) != N:
                bad = bad or (where(d), "%d reported events complete %d requests" % (N, len(set(map(repr, objs)))))
            elif sorted(nt.values()) != [-N, N]:
                bad = bad or (where(d), "%d reported events change the counters by %s" % (N, {fieldname(k): v for k, v in nt.items()}))
            else:
                slots = ([k for k, v in nt.items() if v < 0][0], [k for k, v in nt.items() if v > 0][0])
            dl = [e for e in p.trace if e.k == 'delete' and e.o[0] == 'H']
            if not bad and len(dl) != N:
                bad = (where(d), "%d events release %d references of the I/O system" % (N, len(dl)))
        if not n:
            ctx.undecided("serve-once", "%s %d events" % (short, N), where(d), "no complete path")
        else:
            ctx.check(bad is None, "serve-once", "%s %d events" % (short, N), bad[0] if bad else where(d), bad[1] if bad else "")
    ctx.used(I)
    return slots
