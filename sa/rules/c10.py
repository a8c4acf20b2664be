"""C10: the I/O statistics account for every operation, byte and second."""
import itertools
import random
import ai, dom, prog
from dom import isconst, show, is_ptr
from .util import *
from .c08 import NamedJudge
from .c04 import World as FileWorld, READ, WRITE, captured_cfg

R = ("counts", "times", "locked")
ST, SD = "stxxl::stats", "stxxl::stats_data"
THIS, OTHER, S = ('O', 'this', 'u'), ('O', 'other', 'u'), ('O', 'the statistics', 'u')
OPS = ("read_started", "read_finished", "read_canceled", "read_cached", "write_started", "write_finished", "write_canceled", "write_cached", "wait_started", "wait_finished")


def num(v):
    if isinstance(v, tuple) and v and v[0] == 'f':
        return float(v[1])
    return v if isconst(v) else None


def config():
    """The engine ignores statistics by default; here they are the subject."""
    return heed(ai.base_config())


def heed(cfg):
    mine = lambda f: (f.get("ct") or "").startswith(ST)
    cfg.model_pred = [((lambda f, g=g: not mine(f) and g(f)), h) for g, h in cfg.model_pred]
    return cfg


class Ref:
    """What the statistics should say."""

    def __init__(self):
        self.now = 0
        self.zero(0)
        self.act = {k: 0 for k in ("read", "write", "wait", "wait_read", "wait_write")}

    def zero(self, now):
        self.n = {k: 0 for k in ("reads", "writes", "read_volume", "written_volume", "cached_reads", "cached_writes", "cached_read_volume", "cached_written_volume")}
        self.t = {k: 0.0 for k in ("read_time", "write_time", "pread_time", "pwrite_time", "pio_time", "io_wait_time", "wait_read_time", "wait_write_time")}
        self.reset = now

    def pass_(self, dt):
        a, t = self.act, self.t
        self.now += dt
        t["read_time"] += a["read"] * dt
        t["write_time"] += a["write"] * dt
        t["pread_time"] += dt if a["read"] else 0
        t["pwrite_time"] += dt if a["write"] else 0
        t["pio_time"] += dt if a["read"] + a["write"] else 0
        t["io_wait_time"] += a["wait"] * dt
        t["wait_read_time"] += a["wait_read"] * dt
        t["wait_write_time"] += a["wait_write"] * dt

    def apply(self, op, size):
        k, w = op.split("_")
        one, vol = ("reads", "read_volume") if k == "read" else ("writes", "written_volume")
        if k == "wait":
            kinds = ("wait", "wait_read" if size == "read" else "wait_write")
            for x in kinds:
                self.act[x] += 1 if w == "started" else -1
            return
        if w == "cached":
            self.n["cached_" + one] += 1
            self.n["cached_" + vol] += size
            return
        if w == "started":
            self.n[one] += 1
            self.n[vol] += size
            self.act[k] += 1
        else:
            self.act[k] -= 1
        if w == "canceled":
            self.n[one] -= 1
            self.n[vol] -= size

    def settled(self, key):
        a = self.act
        return not {"read_time": a["read"], "pread_time": a["read"], "write_time": a["write"], "pwrite_time": a["write"], "pio_time": a["read"] + a["write"],
                    "io_wait_time": a["wait"], "wait_read_time": a["wait_read"], "wait_write_time": a["wait_write"]}.get(key, 0)


class Hist:
    """Histories of operations on the statistics object."""

    def __init__(self, ctx, P, M, name):
        self.ctx, self.P, self.M = ctx, P, M
        cfg = config()
        cfg.unroll = 10
        cfg.models["stxxl::timestamp"] = lambda I, c: ('f', float(I.user.get("clock", 0)))
        cfg.models["stxxl::logger::get_instance"] = lambda I, c: ('&', ('O', 'logger', 'u'))
        self.I = ctx.interp(P, cfg)
        d = M["stats"][0]
        self.J = NamedJudge(ctx, R, d)
        self.J.name = name

    def one(self, n):
        d = self.M.get(n)
        return d[0] if d else None

    def go(self, script):
        """script: steps (operation, size or kind of wait, seconds before it)."""
        desc = ", ".join("%s%s%s" % (o, "(%s)" % s if s else "", " %g s later" % dt if dt else "") for o, s, dt in script)
        ref = Ref()
        want = []

        def body(I):
            I.user["clock"] = 1000
            ref.__init__()
            ref.now = ref.reset = 1000
            I.enter(self.one("stats"), THIS, [])
            for o, s, dt in script:
                ref.pass_(dt)
                I.user["clock"] = ref.now
                d = self.one(o)
                if o in ("reset",):
                    ref.zero(ref.now)
                    I.enter(d, THIS, [])
                    continue
                ref.apply(o, s)
                args = []
                for vid, n, t in d.params:
                    ty = self.d_ty(d, t)
                    if ty["k"] == "float":
                        args.append(('f', 0.0 if ref.now % 2 else float(ref.now)))
                    elif o.startswith("wait"):
                        args.append({"any": 0, "read": 1, "write": 2}[s])
                    else:
                        args.append(s)
                I.enter(d, THIS, args)
            out = {}
            for k in list(ref.n) + list(ref.t):
                d = self.one("get_" + k)
                if d is not None:
                    out[k] = I.enter(d, THIS, [])
            d = self.one("get_last_reset_time")
            out["last_reset_time"] = I.enter(d, THIS, []) if d is not None else None
            I.user["out"] = out
            return 0
        for p in self.J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                self.J.bad("counts", "throws (%s)" % desc)
                continue
            out = p.I.user["out"]
            exp = dict(ref.n)
            exp.update({k: v for k, v in ref.t.items() if ref.settled(k)})
            exp["last_reset_time"] = ref.reset
            for k, w in exp.items():
                if k not in out:
                    continue
                g = num(out[k])
                rule = "counts" if k in ref.n else "times"
                if g is None:
                    self.J.open(rule, "get_%s() is not determined (%s)" % (k, desc))
                elif abs(g - w) > 1e-6:
                    self.J.bad(rule, "get_%s() is %g instead of %g (%s)" % (k, g, w, desc))
            self.locks(p, desc)

    def d_ty(self, d, t):
        return d.tu.types[t]

    def locks(self, p, desc):
        """Every counter changes under a lock that all changes of it share."""
        for e in p.trace:
            if e.k != 'store' or not e.o or e.o[0] != 'F' or e.o[1] != THIS or e.fn.startswith(ST + "::stats"):
                continue
            f = e.o[2]
            if f == "last_reset":
                continue
            held = frozenset(map(str, e.locks))
            self.cand = getattr(self, "cand", {})
            c = self.cand.get(f)
            self.cand[f] = held if c is None else c & held
            if not self.cand[f]:
                self.J.bad("locked", "%s changes in %s without the lock that guards it elsewhere" % (f, e.fn))

    def all(self):
        for k in ("read", "write"):
            st, fi, ca, cc = k + "_started", k + "_finished", k + "_canceled", k + "_cached"
            self.go([])
            for s in (0, 1, 4096, 1 << 33):
                self.go([(st, s, 0), (fi, 0, 3)])
                self.go([(cc, s, 1)])
                self.go([(st, s, 1), (ca, s, 0), (st, 7, 1), (fi, 0, 2)])
            self.go([(st, 10, 1), (st, 20, 2), (fi, 0, 4), (fi, 0, 8), (st, 40, 16), (fi, 0, 32)])
            self.go([(st, 10, 1), (st, 20, 2), (st, 40, 4), (fi, 0, 8), (fi, 0, 16), (cc, 5, 1), (fi, 0, 32)])
            self.go([(st, 10, 1), (fi, 0, 2), (cc, 3, 1), ("reset", 0, 4), (st, 20, 8), (fi, 0, 16)])
            self.go([(st, 10, 1), (st, 20, 2), (ca, 20, 0), (fi, 0, 4), (st, 5, 8), (fi, 0, 16)])
        self.go([("read_started", 1, 1), ("write_started", 2, 2), ("read_finished", 0, 4), ("write_finished", 0, 8), ("read_started", 4, 16), ("read_finished", 0, 32)])
        self.go([("write_started", 1, 1), ("read_started", 2, 2), ("read_finished", 0, 4), ("read_started", 2, 8), ("write_finished", 0, 16), ("read_finished", 0, 32)])
        for a in ("any", "read", "write"):
            self.go([("wait_started", a, 1), ("wait_finished", a, 2)])
            for b in ("any", "read", "write"):
                self.go([("wait_started", a, 1), ("wait_started", b, 2), ("wait_finished", a, 4), ("wait_finished", b, 8), ("wait_started", b, 16), ("wait_finished", b, 32)])
                self.go([("wait_started", a, 1), ("wait_started", b, 2), ("wait_finished", b, 4), ("wait_finished", a, 8), ("reset", 0, 1), ("wait_started", b, 16), ("wait_finished", b, 32)])
        rnd = random.Random(self.ctx.seed)
        for i in range(60 if not self.ctx.thorough else 1500):
            self.go(self.draw(rnd))
        self.J.done()

    def draw(self, rnd):
        s, act = [], []
        for i in range(rnd.randrange(4, 14)):
            c = rnd.randrange(5)
            dt = rnd.choice((0, 1, 2, 5, 11))
            if c == 0 and act:
                k, x = act.pop(rnd.randrange(len(act)))
                s.append((k + "_finished", x, dt))
            elif c == 1:
                s.append((rnd.choice(("read", "write")) + "_cached", rnd.randrange(1, 99), dt))
            elif c == 2:
                k, x = rnd.choice(("read", "write")), rnd.randrange(1, 99)
                s += [(k + "_started", x, dt), (k + "_canceled", x, 0)]
            elif c == 3:
                w = rnd.choice(("any", "read", "write"))
                act.append(("wait", w))
                s.append(("wait_started", w, dt))
            else:
                k, x = rnd.choice(("read", "write")), rnd.randrange(1, 99)
                act.append((k, x))
                s.append((k + "_started", x, dt))
            if not act and rnd.randrange(6) == 0:
                s.append(("reset", 0, rnd.randrange(3)))
        while act:
            k, x = act.pop(rnd.randrange(len(act)))
            s.append((k + "_finished", x, rnd.randrange(1, 9)))
        return s


# ------------------------------------------------------------------ differences of statistics
def data(ctx, P, M, D):
    getters = sorted(n for n, ds in D.items() if n.startswith("get_") and not ds[0].params)
    plus, minus = D.get("operator+"), D.get("operator-")
    ctors = [d for d in D.get("stats_data", ()) if len(d.params) == 1]
    zero = [d for d in D.get("stats_data", ()) if not d.params]
    cfg = config()
    cfg.models["stxxl::timestamp"] = lambda I, c: ('f', 5000.0)
    I0 = ctx.interp(P, cfg)
    J = NamedJudge(ctx, ("counts",), plus[0])
    J.name = SD
    vals = {}

    def body(I):
        src = {}
        fl = {}
        objs = [('O', 'first', 'u'), ('O', 'second', 'u')]
        for o, l in enumerate(objs):
            st = ('O', 'source %d' % o, 'u')
            I.enter(M["stats"][0], st, [])
            k = 0
            for loc in [x for x in list(I.store) if x[0] == 'F' and x[1] == st]:
                v = num(I.store[loc])
                if v is None:
                    continue
                k += 1
                x = (1 + 3 * o) * 100 + k * (2 - o)
                isf = isinstance(I.store[loc], tuple)
                I.store[loc] = ('f', float(x)) if isf else x
            I.enter(ctors[0], l, [('&', st)])
            for g in getters:
                src[o, g] = I.enter(M[g][0], st, []) if g in M else None
        res = {}
        for o, l in enumerate(objs):
            for g in getters:
                res[o, g] = I.enter(D[g][0], l, [])
        for n, d, (a, b) in (("+", plus[0], (0, 1)), ("-", minus[0], (1, 0))):
            r = I.enter(d, objs[a], [('&', objs[b])])
            l = r[1] if isinstance(r, tuple) and r and r[0] in ('obj', '&') else None
            for g in getters:
                res[n, g] = I.enter(D[g][0], l, []) if l is not None else None
        z = ('O', 'zero', 'u')
        I.enter(zero[0], z, [])
        for g in getters:
            res['0', g] = I.enter(D[g][0], z, [])
        I.user["src"], I.user["res"] = src, res
        return 0
    for p in J.paths(I0, "copies, sums and differences", body=body):
        if p.out == 'throw':
            J.bad("counts", "throws")
            continue
        src, res = p.I.user["src"], p.I.user["res"]
        for g in getters:
            a, b = num(res[0, g]), num(res[1, g])
            if a is None or b is None:
                J.open("counts", "%s() is not determined" % g)
                continue
            for o in (0, 1):
                w = num(src[o, g])
                if w is not None and abs(w - num(res[o, g])) > 1e-6:
                    J.bad("counts", "%s() of a snapshot is %g, of the statistics it was taken from %g" % (g, num(res[o, g]), w))
            for n, w in (("+", a + b), ("-", b - a), ("0", 0)):
                v = num(res[n, g])
                if v is None:
                    J.open("counts", "%s() of a %s is not determined" % (g, n))
                elif abs(v - w) > 1e-6:
                    J.bad("counts", "%s() of the %s is %g instead of %g" % (g, {"+": "sum", "-": "difference", "0": "empty snapshot"}[n], v, w))
    J.done()


# ------------------------------------------------------------------ timers
def record(cfg):
    cfg.models[ST + "::get_instance"] = lambda I, c: ('&', S)
    cfg.models["stxxl::singleton::get_instance"] = lambda I, c: ('&', S)
    for n in OPS:
        def h(I, c, n=n):
            I.ev('stat', n, S, tuple(I.argval(a) for a in c.args), None, c.node)
            return 0
        cfg.models[ST + "::" + n] = h


def stat_events(p):
    return [e for e in p.trace if e.k == 'stat']


def timer(ctx, P, cls, T):
    ctor, dtor, start, stop = T[cls.split("::")[-1]], T["~" + cls.split("::")[-1]], T["start"][0], T["stop"][0]
    ctor = [d for d in ctor if not d.params or d.tu.types[d.params[0][2]]["k"] not in ("ref", "rref")]
    J = NamedJudge(ctx, ("counts",), ctor[0])
    J.name = cls
    cfg = config()
    record(cfg)
    I0 = ctx.interp(P, cfg)
    names = [n for v, n, t in ctor[0].params]
    two = "read_write" in cls
    wait = "wait" in cls
    for n in range(0, 4):
        for seq in itertools.product(("start", "stop"), repeat=n):
            for arg in (((64, 0), (64, 1)) if two else ((1, 1), (2, 1), (2, 0), (0, 1)) if wait else ((64,),)):
                desc = "%s(%s) %s end" % (cls.split("::")[-1], ", ".join(map(str, arg)), " ".join(seq))
                kind = ("write" if arg[1] else "read") if two else "wait" if wait else cls.split("_")[1]
                run = not wait or arg[1]
                want = [(kind + "_started", arg[0])] if run else []
                for i, s in enumerate(seq):
                    if s == "start" and not run:
                        want.append((kind + "_started", arg[0] if wait else 100 + i))
                        run = True
                    elif s == "stop" and run:
                        want.append((kind + "_finished", arg[0] if wait else None))
                        run = False
                if run:
                    want.append((kind + "_finished", arg[0] if wait else None))

                def body(I):
                    I.enter(ctor[0], THIS, list(arg)[:len(ctor[0].params)])
                    for i, s in enumerate(seq):
                        d = start if s == "start" else stop
                        I.enter(d, THIS, [100 + i] if d.params else [])
                    I.enter(dtor[0], THIS, [])
                    return 0
                for p in J.paths(I0, desc, body=body):
                    got = [(e.n, e.a[0] if e.a else None) for e in stat_events(p)]
                    if p.out == 'throw':
                        J.bad("counts", "throws (%s)" % desc)
                    elif got != want:
                        J.bad("counts", "the statistics are told %s instead of %s (%s)" % (say(got), say(want), desc))
    J.done()


def say(x):
    return ", ".join("%s(%s)" % (n, "" if a is None else show(a)) for n, a in x) or "nothing"


# ------------------------------------------------------------------ transfers
def serve(ctx, P, d):
    J = NamedJudge(ctx, ("counts",), d)
    J.name = d.fn
    for wr in (False, True):
        cfg = config()
        cfg.exact_narrow = True
        cfg.unroll = 2
        FileWorld().install(cfg)
        record(cfg)
        I0 = ctx.interp(P, cfg)
        buf, off, n = ('s', 'buffer'), ('s', 'offset'), ('s', 'bytes')
        dom.tbounds[dom.tid(buf)] = (1, None)
        for x in (off, n):
            dom.tbounds[dom.tid(x)] = (0, None)
        I0.ptrterms.add(buf)

        def setup(I):
            I.dyn[THIS] = d.rec
            I.facts.assume(c_lt(0, n), True)
        kind = "write" if wr else "read"
        for p in I0.paths(d, setup=setup, args=[buf, off, n, WRITE if wr else READ], this=THIS):
            if p.out not in ('ret', 'throw'):
                continue
            J.n += 1
            ev = [(e.n, e.a[0] if e.a else None) for e in stat_events(p)]
            started = [x for x in ev if x[0].endswith("_started")]
            ended = [x for x in ev if x[0].endswith("_finished") or x[0].endswith("_canceled")]
            desc = "%s, %s" % (kind, "returns" if p.out == 'ret' else "fails")
            if len(started) != len(ended):
                J.bad("counts", "%d transfers begin and %d end in the statistics (%s)" % (len(started), len(ended), desc))
            elif p.out == 'ret' and len(started) != 1:
                J.bad("counts", "a transfer is counted %d times (%s)" % (len(started), desc))
            elif len(started) > 1:
                J.bad("counts", "a transfer is counted %d times (%s)" % (len(started), desc))
            elif started and started[0][0] != kind + "_started" or ended and not ended[0][0].startswith(kind):
                J.bad("counts", "the statistics are told %s (%s)" % (say(ev), desc))
            elif started and started[0][1] != n:
                J.bad("counts", "%s bytes are counted (%s)" % (show(started[0][1]), desc))
    J.done()


def aio(ctx, P):
    Q = "stxxl::linuxaio_request"
    ds = [d for d in P.defs.values() if d.ct == Q]
    comp = [d for d in ds if d.n == "completed" and len(d.params) == 2]
    post = [d for d in ds if d.n == "post"]
    if not comp or not post:
        ctx.note("no linuxaio backend in this configuration")
        return
    n = ('s', 'bytes')
    dom.tbounds[dom.tid(n)] = (1, None)

    def mk(d):
        cfg = config()
        record(cfg)
        cfg.models["stxxl::request_with_state::completed"] = lambda I, c: 0
        cfg.models["stxxl::timestamp"] = lambda I, c: ('f', 77.0)
        cfg.models["stxxl::linuxaio_request::fill_control_block"] = lambda I, c: 0
        cfg.models["stxxl::disk_queues::get_instance"] = lambda I, c: ('&', ('O', 'queues', 'u'))
        cfg.models["stxxl::disk_queues::get_queue"] = lambda I, c: ('&', ('O', 'queue', 'u'))
        cfg.models["stxxl::linuxaio_queue::get_io_context"] = lambda I, c: 5
        def submit(I, c):
            I.ev('submit', 'io_submit', None, (), None, c.node)
            return (1, 0, -1)[I.choose(3)]
        cfg.models["syscall"] = submit
        I = ctx.interp(P, cfg)
        J = NamedJudge(ctx, ("counts", "times"), d)
        J.name = d.fn
        return I, J

    def setup(I, t):
        rq = "stxxl::request"
        I.store[F(THIS, 'm_type', rq)] = t
        I.store[F(THIS, 'm_bytes', rq)] = n
    I0, J = mk(comp[0])
    for t, k in ((READ, "read"), (WRITE, "write")):
        for posted, canceled in ((1, 0), (1, 1), (0, 1)):
            desc = "%s, posted %d, canceled %d" % (k, posted, canceled)
            want = [(k + "_finished", None)] if not canceled else [(k + "_canceled", n)] if posted else []
            for p in J.paths(I0, desc, body=lambda I: (setup(I, t), I.enter(comp[0], THIS, [posted, canceled]))[1]):
                got = [(e.n, e.a[0] if e.a else None) for e in stat_events(p)]
                if p.out != 'throw' and got != want:
                    J.bad("counts", "the statistics are told %s instead of %s (%s)" % (say(got), say(want), desc))
    J.done()
    I0, J = mk(post[0])
    for t, k in ((READ, "read"), (WRITE, "write")):
        def body(I):
            setup(I, t)
            return I.enter(post[0], THIS, [])
        for p in J.paths(I0, k, body=body):
            got = [(e.n, e.a[0] if e.a else None) for e in stat_events(p)]
            r = p.val if p.out == 'ret' else 0
            if isinstance(r, bool):
                r = int(r)
            if not isconst(r):
                r = {True: 1, False: 0, None: None}[p.facts.decide(c_ne(r, 0)) if not isinstance(r, bool) else r]
            if r is None:
                J.open("counts", "it is not determined whether the request was submitted")
                continue
            want = [[(k + "_started", n)]] if r else [[], [(k + "_started", n), (k + "_canceled", n)]]
            if got not in want:
                J.bad("counts", "the statistics are told %s instead of %s (%s, %s)" % (say(got), " or ".join(say(x) for x in want), k, "submitted" if r else "not submitted"))
                continue
            order = [e.k for e in p.trace if e.k == 'stat' and e.n.endswith("_started") or e.k == 'submit']
            if r and order != ['stat', 'submit']:
                J.bad("times", "the %s is submitted, and may end, before its begin is recorded: its time is then subtracted from the parallel time" % k)
    J.done()


def log(ctx, P):
    """The log-structured backend counts what its buffers serve or take in as cached, and nothing else itself."""
    ds = [d for d in P.defs.values() if d.fn == "stxxl::wbtl_file::serve"]
    for d in ds:
        J = NamedJudge(ctx, ("counts",), d)
        J.name = d.fn
        for wr in (False, True):
            cfg = heed(captured_cfg())
            FileWorld().install(cfg)
            cfg.no_inline = {"stxxl::wbtl_file::_add_free_region", "stxxl::wbtl_file::discard", "stxxl::wbtl_file::get_next_write_block"}
            record(cfg)
            I0 = ctx.interp(P, cfg)
            buf, off, n = ('s', 'buffer'), ('s', 'offset'), ('s', 'bytes')
            I0.ptrterms.add(buf)
            kind = "write" if wr else "read"
            for p in I0.paths(d, args=[buf, off, n, WRITE if wr else READ], this=THIS, setup=lambda I: I.facts.assume(c_lt(0, n), True)):
                if p.out != 'ret':
                    continue
                J.n += 1
                got = [(e.n, e.a[0] if e.a else None) for e in stat_events(p)]
                copied = [e for e in p.trace if e.k == 'copy']
                want = [(kind + "_cached", n)] if copied else []
                if len(copied) <= 1 and got != want:
                    J.bad("counts", "the statistics are told %s instead of %s (%s, %s)" % (say(got), say(want), kind, "served by a buffer" if copied else "not served by a buffer"))
        J.done()


def waits(ctx, P):
    """Waiting for a request is counted as a wait of the request's kind, if asked to, from beginning to end, also when the request failed."""
    ds = [d for d in P.defs.values() if d.ct == "stxxl::request_with_state" and d.n == "wait" and len(d.params) == 1]
    ctx.need(1, "wait of a request", len(ds))
    if not ds:
        return
    d = ds[0]
    cfg = config()
    record(cfg)

    def wait_for(I, c):
        I.ev('waits', 'wait_for', c.obj, (), None, c.node)
        return 0
    cfg.models["stxxl::state::wait_for"] = wait_for
    I0 = ctx.interp(P, cfg)
    J = NamedJudge(ctx, ("counts",), d)
    J.name = d.fn
    for t, k in ((READ, 1), (WRITE, 2)):
        for measure in (0, 1):
            desc = "%s request, %s" % ("read" if t == READ else "write", "timed" if measure else "not timed")

            def body(I):
                I.store[F(THIS, 'm_type', "stxxl::request")] = t
                return I.enter(d, THIS, [measure])
            for p in J.paths(I0, desc, body=body):
                ev = [(e.n, e.a[0] if e.a else None) for e in p.trace if e.k in ('stat', 'waits')]
                got = [x for x in ev if x[0] != 'wait_for']
                want = [("wait_started", k), ("wait_finished", k)] if measure else []
                if ('wait_for', None) not in ev:
                    J.open("counts", "the wait is not seen (%s)" % desc)
                elif got != want:
                    J.bad("counts", "the statistics are told %s instead of %s (%s)" % (say(got), say(want), desc))
                elif measure and not ev.index(want[0]) < ev.index(('wait_for', None)) < ev.index(want[1]):
                    J.bad("counts", "the time of the wait is not the one that is measured (%s)" % desc)
    J.done()


def run(ctx):
    ctx.rule("counts", "operations and bytes are counted once, by kind, in the statistics, in snapshots, and in their sums and differences")
    ctx.rule("times", "the seconds reported are those during which operations were under way: serialised, and in parallel")
    ctx.rule("locked", "all changes of a counter share a lock")
    P = ctx.lib([f for f in prog.LIB_FILES if "/io/" in f])
    M = {}
    for d in P.defs.values():
        if d.ct == ST:
            M.setdefault(d.n, []).append(d)
    D = {}
    for d in P.defs.values():
        if d.ct == SD:
            D.setdefault(d.n, []).append(d)
    jobs = [(ST, lambda ctx: Hist(ctx, P, M, ST).all(), (ctx,)), (SD, data, (ctx, P, M, D))]
    for n in ("scoped_read_write_timer", "scoped_read_timer", "scoped_write_timer", "scoped_wait_timer"):
        T = {}
        for d in P.defs.values():
            if d.ct == ST + "::" + n:
                T.setdefault(d.n, []).append(d)
        if T:
            jobs.append((n, timer, (ctx, P, ST + "::" + n, T)))
    serves = [d for d in P.defs.values() if d.n == "serve" and d.kind == "method" and len(d.params) == 4 and d.rec is not None and P.derived_from(d.rec, "stxxl::file")]
    for d in sorted(serves, key=lambda x: x.fn + x.f["u"]):
        if d.ct in ("stxxl::wbtl_file", "stxxl::linuxaio_file") or "fileperblock" in d.ct:
            continue
        jobs.append((d.fn, serve, (ctx, P, d)))
    jobs.append(("linuxaio", aio, (ctx, P)))
    jobs.append(("waits", waits, (ctx, P)))
    jobs.append(("log-structured", log, (ctx, P)))
    ctx.fan(jobs)
