"""C01: a request completes exactly once, after its data moved; handler and waiters see a consistent order."""
import ai, dom, prog
from dom import c_eq, c_lt, isconst, show
from core import where
from .util import *
from .c03 import call_def, fresh_request


def config(P, rec, state=None):
    cfg = ai.base_config()
    cfg.dyn[THIS] = rec
    cfg.havoc_wait = False

    def sget(I, c):
        r = state if state is not None else I.fresh("state", lo=0)
        I.ev('stateread', 'read', c.obj, (), r, c.node)
        return r
    cfg.models["stxxl::state::operator()"] = sget

    def val(I, a):
        v = I.argval(a)
        return I.load(v[1]) if is_ptr(v) else v

    def sset(I, c):
        I.ev('stateset', 'set', c.obj, (val(I, c.args[0]),), None, c.node)
        return 0
    cfg.models["stxxl::state::set_to"] = sset

    def swait(I, c):
        I.ev('statewait', 'wait', c.obj, (val(I, c.args[0]),), None, c.node)
        return 0
    cfg.models["stxxl::state::wait_for"] = swait

    def moved(I, c):
        a = tuple(I.argval(x) for x in c.args)
        I.ev('moved', c.f["fn"], c.obj, a, None, c.node)
        if I.choose(2, ("backend", c.node.get("l"))):
            I.throw_ext("stxxl::io_error", c.node)
        return 0
    isfile = {}

    def is_fserve(f):
        if f["n"] != "serve" or not f.get("vi"):
            return False
        ct = f.get("ct")
        if ct not in isfile:
            isfile[ct] = any(P.derived_from(r, "stxxl::file") or r["ct"] == "stxxl::file" for r in P.recs_by_ct.get(ct, []))
        return isfile[ct]
    cfg.model_pred.insert(0, (is_fserve, moved))
    cfg.models["stxxl::completion_handler::operator()"] = lambda I, c: ([I.argval(a) for a in c.args], I.ev('handler', 'handler', c.obj, (), None, c.node), 0)[2]
    cfg.models["stxxl::file::delete_request_ref"] = lambda I, c: (I.ev('fileref', 'release', c.obj, (), None, c.node), 0)[1]
    cfg.models["stxxl::file::add_request_ref"] = lambda I, c: (I.ev('fileref', 'add', c.obj, (), None, c.node), 0)[1]
    cfg.models["stxxl::request_with_waiters::notify_waiters"] = lambda I, c: (I.ev('notified', 'waiters', c.obj, (), None, c.node), 0)[1]
    cfg.models["stxxl::request::check_nref"] = lambda I, c: 0
    cfg.model_pred.insert(0, (lambda f: f.get("ct") == "stxxl::counting_ptr" and f["n"] in ("inc_reference", "dec_reference"), lambda I, c: 0))
    cfg.model_pred.insert(0, (lambda f: f.get("ct") == "stxxl::stats", lambda I, c: I.fresh("stats")))
    return cfg


def virt(P, rec, base, name):
    m = [x for x in P.methods(P.rec(base)) if x["n"] == name and x.get("vi")]
    if not m:
        raise AnalysisBroken("%s has no %s" % (base, name))
    f = P.resolve_virtual(rec, m[0])
    d = P.defs.get(f["u"])
    if d is None:
        raise AnalysisBroken("no definition of %s::%s" % (rec["ct"], name))
    return d


def finals(ctx, P, rec):
    """(state values for which poll reports completion, values wait waits for)"""
    RI = "stxxl::request_interface"
    poll, wait = virt(P, rec, RI, "poll"), virt(P, rec, RI, "wait")
    F_ = set()
    bad, n = None, 0
    for v in range(0, 4):
        I = ctx.interp(P, config(P, rec, v))
        for p in I.paths(poll, this=THIS):
            if p.out == 'end' and p.why != 'abort':
                continue
            if p.out != 'ret':
                continue
            n += 1
            if p.facts.decide(c_eq(p.val, 0)) is False:
                F_.add(v)
            bad = bad or late_error(p)
        ctx.used(I)
    if not n or not F_:
        ctx.undecided("error-after-state", "poll", where(poll), "poll not recognised")
    else:
        ctx.check(bad is None, "error-after-state", "poll", where(poll), bad or "")
    W = set()
    bad, n = None, 0
    I = ctx.interp(P, config(P, rec))
    for p in I.paths(wait, this=THIS, args=[None] * len(wait.params)):
        if p.out != 'ret':
            continue
        n += 1
        ws = [e for e in p.trace if e.k == 'statewait']
        if not ws:
            bad = bad or "wait() returns without waiting for the request's state (%s)" % pathdesc(p)
        for e in ws:
            W.add((e.o, e.a[0]))
        bad = bad or late_error(p)
    ctx.used(I)
    if not n:
        ctx.undecided("error-after-state", "wait", where(wait), "wait not recognised")
    else:
        ctx.check(bad is None, "error-after-state", "wait", where(wait), bad or "")
    if len(W) != 1:
        raise AnalysisBroken("the state waited for is not unique: %s" % W)
    loc, wv = W.pop()
    if not isconst(wv):
        raise AnalysisBroken("the state waited for is not a constant")
    ctx.check(wv in F_, "error-after-state", "poll agrees with wait", where(poll),
              "poll reports a request as unfinished in the state wait returns in")
    return F_, loc, wv


def late_error(p):
    st = [i for i, e in enumerate(p.trace) if e.k in ('stateread', 'statewait')]
    er = [i for i, e in enumerate(p.trace) if (e.k in ('load', 'enter', 'std') and ("m_error" in showloc(e.o or ('O', '')) or "check_errors" in e.n))]
    if not st:
        return "the request's state is not read"
    if not er or er[-1] < st[-1]:
        return "a recorded error is looked for before the state is read, so a failure recorded in between goes unnoticed"
    return None


def run(ctx):
    ctx.rule("completion-order", "completing a request: data moved, then handler exactly once, then waiters notified and the file reference released exactly once, then the state wait() waits for, as the last step")
    ctx.rule("cancelled-completion", "a cancelled request reaches the final state with its file reference released once and without its handler being called")
    ctx.rule("cancel-result", "cancel reports success exactly when the request was taken out of its queue and completed as cancelled, and changes nothing otherwise")
    ctx.rule("error-after-state", "poll and wait look for a recorded error after they have read the state that says the request is finished")
    ctx.rule("reference-taken", "creating a request takes one reference to its file and keeps the given handler, buffer, offset, length and direction")
    P = ctx.lib([f for f in prog.LIB_FILES if "/io/" in f])
    recs = [P.rec("stxxl::serving_request")] + P.recs_by_ct.get("stxxl::linuxaio_request", [])[:1]
    for rec in recs:
        ctx.sub(rec["ct"], one, ctx, P, rec)


def one(ctx, P, rec):
    short = rec["ct"].split("::")[-1]
    F_, loc, wv = finals(ctx, P, rec)
    runs = []
    comp = virt(P, rec, "stxxl::request_interface", "completed")
    serve = [d for d in P.defs.values() if d.rec is not None and d.rec["u"] == rec["u"] and d.f["n"] == "serve"]
    for d in serve:
        runs.append((d, [], False, True))
    runs.append((comp, [0], False, False))
    runs.append((comp, [1], True, False))
    if len(comp.params) == 1:
        for d in P.defs.values():
            if d.rec is not None and d.rec["u"] == rec["u"] and d.f["n"] == "completed" and len(d.params) == 2:
                runs.append((d, [0, 1], True, False))
    for d, args, canceled, serving in runs:
        rule = "cancelled-completion" if canceled else "completion-order"
        inst = "%s::%s(%s)" % (short, d.f["n"], ",".join(map(str, args)))
        I = ctx.interp(P, config(P, rec))
        bad, n = None, 0
        for p in I.paths(d, this=THIS, args=args):
            if p.out == 'throw':
                bad = bad or (where(d), "an exception leaves the completion of the request (%s)" % pathdesc(p))
                continue
            if p.out != 'ret':
                continue
            n += 1
            b = order(p, F_, loc, wv, canceled, serving)
            bad = bad or b
        ctx.used(I)
        if not n and not bad:
            ctx.undecided(rule, inst, where(d), "no complete path")
        else:
            ctx.check(bad is None, rule, inst, bad[0] if bad else where(d), bad[1] if bad else "")
    cancel(ctx, P, rec, short, F_, loc, wv)
    create(ctx, P, rec, short)


def order(p, F_, loc, wv, canceled, serving):
    T = p.trace
    mv = [i for i, e in enumerate(T) if e.k == 'moved']
    ha = [i for i, e in enumerate(T) if e.k == 'handler']
    no = [i for i, e in enumerate(T) if e.k == 'notified']
    fr = [i for i, e in enumerate(T) if e.k == 'fileref' and e.n == 'release']
    fin = [i for i, e in enumerate(T) if e.k == 'stateset' and e.o == loc and e.a[0] in F_]
    last = [i for i in fin if T[i].a[0] == wv]
    end = T[-1].where() if T else ""
    if not last:
        return (end, "the request never reaches the state its waiters wait for (%s)" % pathdesc(p))
    W = T[last[0]].where()
    if serving:
        if len(mv) != 1:
            return (W, "the data are transferred %d times" % len(mv))
        if mv[0] > fin[0]:
            return (T[fin[0]].where(), "the request is reported as finished before its data have been transferred")
        if ha and ha[0] < mv[0]:
            return (T[ha[0]].where(), "the completion handler runs before the data have been transferred")
    if canceled and ha:
        return (T[ha[0]].where(), "the completion handler of a cancelled request is called")
    if not canceled:
        if len(ha) != 1:
            return (W, "the completion handler is called %d times (%s)" % (len(ha), pathdesc(p)))
        if ha[0] > last[0]:
            return (T[ha[0]].where(), "wait() may return before the completion handler has run")
    if len(fr) != 1:
        return (W, "the request's reference to its file is released %d times" % len(fr))
    if fr[0] > last[0]:
        return (T[fr[0]].where(), "wait() may return, and the file be destroyed, while the request still refers to it")
    if not no:
        return (W, "registered waiters are not notified")
    if no[0] > last[0]:
        return (T[no[0]].where(), "wait() may return before the registered waiters have been notified")
    if len(last) != 1:
        return (T[last[1]].where(), "the request is finished twice")
    return None


def cancel(ctx, P, rec, short, F_, loc, wv):
    d = virt(P, rec, "stxxl::request_interface", "cancel")
    cfg = config(P, rec)

    def queues(I, c):
        if "disk_queues" in c.f["tu"].types[c.f["rt"]]["s"]:
            return ('&', ('O', 'queues'))
        return NotImplemented
    cfg.models["stxxl::singleton::get_instance"] = queues
    cfg.models["stxxl::file::get_queue_id"] = lambda I, c: I.fresh("queue")
    cfg.models["stxxl::disk_queues::get_queue"] = lambda I, c: ([I.eval(a) for a in c.args], ('&', ('O', 'queue')))[1]

    def canc(I, c):
        [I.argval(a) for a in c.args]
        r = I.choose(2, ("cancelled", c.node.get("l")))
        I.ev('dequeued', 'cancel', None, (r,), r, c.node)
        if r and "aio" in short:
            # the asynchronous queue completes what it takes out (checked with the queue)
            I.ev('notified', 'waiters', None, (), None, c.node)
            I.ev('fileref', 'release', None, (), None, c.node)
            I.ev('stateset', 'set', loc, (wv,), None, c.node)
        return r
    cfg.model_pred.insert(0, (lambda f: f["n"] == "cancel_request", canc))
    if "aio" in short:
        cfg.dyn[('O', 'queue')] = P.rec("stxxl::linuxaio_queue")
    I = ctx.interp(P, cfg)
    bad, n, seen = None, 0, set()
    for p in I.paths(d, this=THIS):
        if p.out != 'ret':
            continue
        n += 1
        dq = [e for e in p.trace if e.k == 'dequeued' and e.r == 1]
        v = p.facts.decide(c_eq(p.val, 0))
        if v is None:
            bad = bad or (where(d), "cancel returns an undetermined value")
            continue
        seen.add(not v)
        if (not v) != bool(dq):
            bad = bad or (where(d), "cancel reports %s although the request was %staken out of its queue (%s)" % ("failure" if v else "success", "" if dq else "not ", pathdesc(p)))
            continue
        if dq:
            i = p.trace.index(dq[0])
            q = ai.Path()
            bad = bad or order(p, F_, loc, wv, True, False)
            if any(e.k in ('stateset', 'fileref') for e in p.trace[:i]):
                bad = bad or (dq[0].where(), "the request changes before it has been taken out of its queue")
        elif any(e.k in ('stateset', 'fileref', 'handler', 'notified') for e in p.trace):
            bad = bad or (where(d), "a request that could not be cancelled is changed nevertheless")
    ctx.used(I)
    if not n or True not in seen:
        ctx.undecided("cancel-result", short, where(d), "cancellation not recognised")
    else:
        ctx.check(bad is None, "cancel-result", short, bad[0] if bad else where(d), bad[1] if bad else "")
    # the asynchronous queue completes what it takes out
    if "aio" in short:
        from . import c07
        dd = P.one("stxxl::linuxaio_queue::cancel_request")
        cfg = c07.config(P)
        I = ctx.interp(P, cfg)
        bad, n = None, 0
        for p in I.paths(None, body=lambda I: c07.request_body(P, I, dd, rec["ct"], 0)):
            if p.out != 'ret':
                continue
            n += 1
            co = [e for e in p.trace if e.k == 'completed']
            ok = p.facts.decide(c_eq(p.val, 0)) is False
            if len(co) != (1 if ok else 0):
                bad = bad or (where(dd), "cancellation reports %s and completes %d requests" % ("success" if ok else "failure", len(co)))
            elif ok and co[0].a[-1] != 1:
                bad = bad or (co[0].where(), "the cancelled request is completed as if it had been served")
        ctx.used(I)
        if n:
            ctx.check(bad is None, "cancel-result", "linuxaio_queue", bad[0] if bad else where(dd), bad[1] if bad else "")


def create(ctx, P, rec, short):
    for d in P.defs.values():
        if d.kind != "ctor" or d.rec is None or d.rec["u"] != rec["u"] or len(d.params) != 6:
            continue
        cfg = config(P, rec)
        I = ctx.interp(P, cfg)
        bad, n = None, 0
        names = [p[1] for p in d.params]
        for p in I.paths(d, this=THIS, args=[('&', ('O', 'handler')), ('&', ('O', 'file')), ('s', 'buf'), ('s', 'off'), ('s', 'len'), ('s', 'type')]):
            if p.out != 'ret':
                continue
            n += 1
            ad = [e for e in p.trace if e.k == 'fileref' and e.n == 'add']
            if len(ad) != 1:
                bad = bad or (where(d), "creating the request takes %d references to its file" % len(ad))
            vals = [p.store[k] for k in p.store if k[0] == 'F' and root(k) == THIS]
            for what, v in (("file", ('&', ('O', 'file'))), ("buffer", ('s', 'buf')), ("offset", ('s', 'off')), ("length", ('s', 'len')), ("direction", ('s', 'type'))):
                if v not in vals:
                    bad = bad or (where(d), "the given %s is not kept by the request" % what)
            fs = {k[2]: p.store[k] for k in p.store if k[0] == 'F' and k[1] == THIS}
            for nm, v in (("m_buffer", ('s', 'buf')), ("m_offset", ('s', 'off')), ("m_bytes", ('s', 'len')), ("m_type", ('s', 'type'))):
                if nm in fs and fs[nm] != v:
                    bad = bad or (where(d), "%s is initialised with something else" % nm)
        ctx.used(I)
        if n:
            ctx.check(bad is None, "reference-taken", short, bad[0] if bad else where(d), bad[1] if bad else "")
        else:
            ctx.undecided("reference-taken", short, where(d), "no complete path")
