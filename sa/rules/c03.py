"""C03: a failure of a file operation is never swallowed."""
import ai, dom
from dom import c_eq, c_lt, isconst, show
from core import where
from .util import *

MUST = {"open": 0, "open64": 0, "close": 0, "read": 0, "write": 0, "pread": 0, "pwrite": 0, "pread64": 0, "pwrite64": 0,
        "lseek": 0, "lseek64": 0, "fstat": 0, "fstat64": 0, "stat": 0, "ftruncate": 0, "ftruncate64": 0, "truncate": 0, "fcntl": 0,
        "mmap": 0, "mmap64": 0, "munmap": 0, "unlink": 0, "syscall": 0, "fsync": 0, "fdatasync": 0}
ZERO = {"close", "fstat", "fstat64", "stat", "ftruncate", "ftruncate64", "truncate", "fcntl", "munmap", "unlink", "fsync", "fdatasync"}
# raw system calls whose failure is an answer, not an error: io_destroy (207, teardown), io_cancel (210, "not cancelled")
SYS_EXEMPT = {207, 210}
SYS_RETRY = {206, 208, 209}
EAGAIN, EINTR = 11, 4


def sysmodel(name):
    def h(I, c):
        vals = tuple(I.argval(a) for a in c.args)
        nr = None
        if name == "syscall":
            nr = vals[0] if isconst(vals[0]) else None
            if nr in SYS_EXEMPT:
                return I.fresh("syscall")
        key = name if nr is None else "syscall(%s)" % nr
        if I.choose(2, (key, c.node.get("l"))) == 1:
            # the failure sets errno
            I.user["errno"] = I.fresh("errno", lo=1)
            I.store[('O', 'errno')] = I.user["errno"]
            I.ev('sysfail', key, None, vals, -1, c.node)
            return -1
        if name in ZERO:
            r = 0
        elif name in ("read", "write", "pread", "pwrite", "pread64", "pwrite64"):
            r = I.fresh(name, lo=1)
            n = vals[2]
            I.facts.assume(c_lt(n, r), False)
        elif name in ("mmap", "mmap64"):
            r = ('s', 'mapped#%d' % c.node.get("l", 0))
            dom.tbounds[dom.tid(r)] = (1, None)
        elif name == "syscall":
            r = 1 if nr in (208, 209) else 0
        else:
            r = I.fresh(name, lo=0)
        I.ev('sysok', key, None, vals, r, c.node)
        return r
    return h


def config():
    cfg = ai.base_config()
    for n in MUST:
        cfg.models[n] = sysmodel(n)
    cfg.models["__errno_location"] = lambda I, c: ('&', ('O', 'errno'))
    cfg.model_pred.insert(0, (lambda f: f.get("ct") in ("stxxl::semaphore", "stxxl::state", "stxxl::onoff_switch") and f["k"] == "method",
                              lambda I, c: I.fresh(c.f["n"], I.T(c.node["t"]))))
    cfg.models["stxxl::linuxaio_request::completed"] = lambda I, c: 0
    cfg.models["stxxl::request_with_state::completed"] = lambda I, c: 0
    cfg.model_pred.insert(0, (lambda f: f.get("ct") == "stxxl::counting_ptr" and f["n"] in ("inc_reference", "dec_reference"), lambda I, c: 0))
    # requests waited for inside a backend (linuxaio_file::serve, fileperblock lock) are other obligations
    cfg.unroll = 2
    cfg.max_paths = 3000
    return cfg


def exec_fn(ctx, P, d, cfg):
    """[(failing event, path)] of paths where a failure is not reported; and the number of failing paths."""
    I = ctx.interp(P, cfg)
    bad, nfail, sites = [], 0, set()

    def setup(I):
        pass
    for p in I.paths(d, this=THIS if d.kind != "func" and not d.f.get("st") else None, setup=setup):
        fails = [(i, e) for i, e in enumerate(p.trace) if e.k == 'sysfail']
        for e in p.trace:
            if e.k in ('sysfail', 'sysok'):
                sites.add((e.file, e.line, e.n))
        if p.why == 'cut' or not fails:
            continue
        nfail += 1
        if p.out == 'throw':
            if p.exc.cls == "stxxl::io_error" or (p.exc.rec is not None and P.derived_from(p.exc.rec, "stxxl::io_error")):
                continue
            bad.append((fails[-1][1], p, "ends in a %s instead of an I/O error" % p.exc.cls))
            continue
        if p.why == 'abort':
            continue
        # retried: the last call of the same primitive succeeded, or errno was recognised as transient
        last = fails[-1]
        later = [e for e in p.trace[last[0] + 1:] if e.k == 'sysok' and e.n == last[1].n]
        if last[1].n == "syscall(%s)" % 206 or last[1].n in ("syscall(208)", "syscall(209)"):
            er = p.store.get(('O', 'errno'))
            if later or any(p.facts.decide(c_eq(er, v)) is True for v in (EAGAIN, EINTR)):
                continue
        elif last[1].n in ("open", "open64") and later:
            continue
        if last[1].n not in ("open", "open64") and later and last[1].n.startswith("syscall"):
            continue
        why = "returns normally"
        if p.out == 'ret' and p.val is not None and isconst(p.val):
            why = "returns %s" % p.val
        bad.append((last[1], p, why))
    ctx.used(I)
    return bad, nfail, sites, I


def run(ctx):
    ctx.rule("syscall-failure", "on every path on which an operating-system file operation fails, the function (or the caller a "
             "non-public helper returns to) throws an I/O error, or retries the operation successfully; transient EAGAIN/EINTR of the "
             "asynchronous interface may be retried")
    ctx.rule("error-recorded", "when the backend throws an I/O error while a request is served, waiting for and polling that request throw an I/O error; "
             "when it does not, they do not")
    ctx.rule("aio-result", "the result code the kernel reports for an asynchronous request decides whether the request is marked as failed")
    P = ctx.lib([f for f in __import__("prog").LIB_FILES if "/io/" in f])
    cfg = config()
    roots = []
    site_nodes = set()
    for d in P.defs.values():
        if "/io/" not in d.file:
            continue
        direct = [n for f, n in calls_in(d) if f["fn"] in MUST]
        if direct:
            roots.append(d)
            for f, n in calls_in(d):
                if f["fn"] in MUST and not (f["fn"] == "syscall" and n["a"] and n["a"][0].get("v", n["a"][0].get("e", {}).get("v")) in SYS_EXEMPT):
                    site_nodes.add((d.file, n["l"]))
    ctx.need(10, "functions with file system calls", len(roots))
    visited = set()
    done = {}

    def analyse(d, depth):
        """True when d reports every failure."""
        if d.key in done:
            return done[d.key]
        done[d.key] = []
        bad, nfail, sites, I = exec_fn(ctx, P, d, cfg)
        visited.update((s[0], s[1]) for s in sites)
        out = []
        if bad:
            cs = [(c, n) for c, n in callers(P, d.key) if c.key != d.key]
            helper = (d.kind == "func" or not d.f.get("pub") or d.f.get("st")) and not d.f.get("vi") and d.kind not in ("ctor", "dtor")
            if d.kind != "method" or d.f.get("st"):
                # a static utility that hands the failure code to its caller
                rt = d.tu.types[d.f["rt"]]
                bad = [b for b in bad if not (rt["k"] == "int" and rt.get("sg") and b[1].out == 'ret' and isconst(b[1].val) and b[1].val == -1)]
                if not bad:
                    done[d.key] = out
                    return out
            if helper and cs and depth < 4:
                for c, n in cs:
                    out += analyse(c, depth + 1)
                if not out:
                    ctx.ok("syscall-failure", d.fn + " (through its callers)", where(d))
                done[d.key] = out
                return out
            for e, p, why in bad:
                out.append((d, e, p, why))
        done[d.key] = out
        return out
    for d in roots:
        r = analyse(d, 0)
        if not r:
            ctx.ok("syscall-failure", d.fn, where(d), "every failing path throws or retries")
        seen = set()
        for dd, e, p, why in r:
            k = (dd.fn, e.n, e.line)
            if k in seen:
                continue
            seen.add(k)
            ctx.bad("syscall-failure", "%s %s" % (dd.fn, e.n), e.where(),
                    "when %s fails here, %s %s (%s)" % (e.n, dd.fn, why, pathdesc(p)))
    missed = {s for s in site_nodes if s not in visited}
    for s in sorted(missed):
        ctx.undecided("syscall-failure", "site", "%s:%d" % (rel(s[0]), s[1]), "call not reached by any analysed path")
    ctx.stats["call_sites"] = len(site_nodes)
    ctx.need(14, "file system call sites", len(site_nodes))
    request_rules(ctx, P)
    aio_rule(ctx, P)


def request_cfg(P, throws):
    cfg = ai.base_config()

    def served(I, c):
        for a in c.args:
            I.argval(a)
        I.ev('served', c.f["fn"], c.obj, (), None, c.node)
        if throws:
            I.throw_ext("stxxl::io_error", c.node)
        return 0
    cfg.model_pred.insert(0, (lambda f: f["n"] == "serve" and f.get("ct") != "stxxl::serving_request" and f.get("vi"), served))
    cfg.models["stxxl::file::delete_request_ref"] = lambda I, c: 0
    cfg.models["stxxl::request::check_nref"] = lambda I, c: 0
    cfg.no_inline = {"stxxl::request_with_waiters::notify_waiters"}
    cfg.models["stxxl::request_with_waiters::notify_waiters"] = lambda I, c: 0
    cfg.models["stxxl::completion_handler::operator()"] = lambda I, c: 0
    cfg.havoc_wait = False
    return cfg


def fresh_request(I, P, rec):
    """A request object that has been created but not served."""
    I.dyn[THIS] = rec
    for ct, f, r in P.fields(rec):
        t = r["tu"].types[f["t"]]
        if t["k"] == "rec" and t["ct"] in ("std::unique_ptr", "std::auto_ptr"):
            I.store[F(THIS, f["n"], ct)] = 0


def request_rules(ctx, P):
    rec = P.rec("stxxl::serving_request")
    serve = P.one("stxxl::serving_request::serve")
    f_serve = serve.f
    for name, req in (("wait", None), ("poll", None)):
        cand = [m for m in P.methods(P.rec("stxxl::request_interface")) if m["n"] == name and m.get("vi")]
        if not cand:
            raise AnalysisBroken("request interface has no " + name)
        m = P.resolve_virtual(rec, cand[0])
        d = P.defs.get(m["u"])
        if d is None:
            raise AnalysisBroken("no definition of request " + name)
        for throws in (True, False):
            cfg = request_cfg(P, throws)
            I = ctx.interp(P, cfg)
            n = 0
            for p in I.paths(None, setup=lambda I: fresh_request(I, P, rec), body=lambda I: seq(I, serve, d)):
                if p.why == 'cut' or p.why == 'abort':
                    continue
                if not p.trace or not I.user.get("served_ok"):
                    # serve itself raised
                    if p.out == 'throw' and not I.user.get("served_ok"):
                        ctx.bad("error-recorded", "serve lets the exception escape", where(serve),
                                "an I/O error of the backend leaves the worker's serve() (%s)" % pathdesc(p))
                        n += 1
                        continue
                n += 1
                good = (p.out == 'throw' and p.exc.cls == "stxxl::io_error") if throws else p.out == 'ret'
                ctx.check(good, "error-recorded", "%s after %s serve" % (name, "failed" if throws else "successful"), where(d),
                          "path %s: %s()" % (pathdesc(p), name) + (" does not throw although serving failed" if throws else " throws although serving succeeded"))
            ctx.used(I)
            if n == 0:
                ctx.undecided("error-recorded", name, where(d), "no complete path")


def seq(I, serve, d):
    I.user["served_ok"] = False
    fr0 = serve
    call_def(I, serve, THIS)
    I.user["served_ok"] = True
    return call_def(I, d, THIS, [None] * len(d.params))


def call_def(I, d, this, args=None):
    fr = I.newframe(d, this)
    for i, (vid, name, t) in enumerate(d.params):
        v = args[i] if args and i < len(args) else None
        if v is None:
            ty = d.tu.types[t]
            v = ('s', name)
            I.bound(v, ty)
            if ty["k"] in ("ref", "rref"):
                v = ('&', ('O', name))
        I.store[I.lvar(fr, vid, name)] = v
    return I.runbody(d, fr)


def aio_rule(ctx, P):
    ds = P.find("stxxl::linuxaio_queue::handle_events")
    if not ds:
        raise AnalysisBroken("linuxaio event handling not found")
    d = ds[0]
    for sign, txt in ((-1, "negative"), (1, "complete")):
        cfg = ai.base_config()
        cfg.unroll = 2
        cfg.models["stxxl::request_with_state::completed"] = lambda I, c: (I.ev('completed', c.f["fn"], c.obj, tuple(I.argval(a) for a in c.args), None, c.node), 0)[1]
        cfg.models["stxxl::linuxaio_request::completed"] = cfg.models["stxxl::request_with_state::completed"]
        I = ctx.interp(P, cfg)
        n = 0

        def setup(I):
            pass
        res = {"e": None}

        def body(I):
            fr = I.newframe(d, THIS)
            ev = ('O', 'events')
            vals = [('&', ev), 1, 0]
            reqcell, req = ('H', 'cell'), ('O', 'req')
            I.store[('F', ev, 'data', 'io_event')] = ('&', reqcell)
            I.store[('F', ev, 'obj', 'io_event')] = ('&', ('O', 'iocb'))
            for ct, f, r in P.fields(P.rec("stxxl::counting_ptr")):
                pass
            r = ('s', 'res')
            dom.tbounds[dom.tid(r)] = (None, -1) if sign < 0 else (0, None)
            I.store[('F', ev, 'res', 'io_event')] = r
            for ct, f, rr in P.fields(P.rec("stxxl::counting_ptr")):
                I.store[F(reqcell, f["n"], ct)] = ('&', req)
            recs = P.recs_by_ct.get("stxxl::linuxaio_request")
            I.dyn[req] = recs[0]
            nb = fieldby(P, recs[0], "m_bytes")
            if sign > 0:
                I.store[F(req, "m_bytes", nb[0])] = r
            for i, (vid, name, t) in enumerate(d.params):
                I.store[I.lvar(fr, vid, name)] = vals[i] if i < len(vals) else 0
            return I.runbody(d, fr)
        for p in I.paths(None, setup=setup, body=body):
            if p.why in ('cut', 'abort'):
                continue
            n += 1
            comp = [i for i, e in enumerate(p.trace) if e.k == 'completed']
            err = [i for i, e in enumerate(p.trace) if e.k == 'store' and e.o and e.o[0] == 'F' and e.o[2] == 'm_error' and root(e.o)[1] == 'req' and not (isconst(e.a[0]) and e.a[0] == 0)]
            if sign < 0:
                good = bool(comp) and bool(err) and err[0] < comp[0]
                ctx.check(good, "aio-result", "failed asynchronous request", where(d),
                          "an event with a negative result completes its request without recording an error (%s)" % pathdesc(p))
            else:
                good = bool(comp) and not err
                ctx.check(good, "aio-result", "successful asynchronous request", where(d),
                          "an event with a full-length result does not complete its request cleanly (%s)" % pathdesc(p))
        ctx.used(I)
        if n == 0:
            ctx.undecided("aio-result", txt, where(d))

