"""C06: no deadlock: locks released on every exit, no self-lock, acyclic lock order, nothing blocks or calls user code under a lock."""
import ai, dom, prog
from dom import c_eq, show
from core import where
from .util import *

LOCKERS = ("stxxl::scoped_mutex_lock::scoped_mutex_lock", "stxxl::mutex::lock", "stxxl::mutex::try_lock", "pthread_mutex_lock", "pthread_mutex_trylock")
SEMDOWN = ("stxxl::semaphore::operator--", "stxxl::semaphore::decrement")


def lockname(l):
    """Class-level identity of a mutex location."""
    while l[0] == 'F' and str(l[3]) in ("stxxl::mutex", "stxxl::fastmutex"):
        l = l[1]
    if l[0] == 'F':
        return "%s::%s" % (l[3], l[2])
    n = showloc(l)
    return n


class Graph:
    """Transitive effects of functions: locks taken and blocking operations, over the resolved call graph."""

    def __init__(self, P):
        self.P = P
        self.over = {}
        for r in P.recs.values():
            for m in P.methods(r):
                for b in self.basedecls(m):
                    self.over.setdefault(b, set()).add(m["u"])
        self.kids = {}
        self.direct = {}
        for k, d in P.defs.items():
            ks, eff = set(), set()
            for f, n in calls_in(d):
                fn = f["fn"]
                if n["k"] in ("fref", "mref"):
                    continue
                if fn in ("pthread_mutex_lock", "pthread_cond_wait", "pthread_join") or fn in SEMDOWN:
                    eff.add(fn)
                if f.get("vi") and n.get("virt"):
                    ks.add(f["u"])
                    ks |= self.over.get(f["u"], set())
                else:
                    ks.add(f["u"])
            self.kids[k] = ks
            self.direct[k] = eff
        # locals' destructors (scoped locks, smart pointers) count as calls
        self.rel = {}
        self.reach = {k: set(self.direct[k]) for k in P.defs}
        changed = True
        while changed:
            changed = False
            for k in P.defs:
                s = self.reach[k]
                n0 = len(s)
                for c in self.kids[k]:
                    if c in self.reach:
                        s |= self.reach[c]
                if len(s) != n0:
                    changed = True

    def basedecls(self, m, seen=None):
        out = set()
        for i in m.get("ov", []):
            b = m["tu"].funs[i]
            out.add(b["u"])
            out |= self.basedecls(b)
        return out

    def closure(self, keys):
        todo, seen = list(keys), set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += self.kids.get(k, ())
        return seen


def config(P, G):
    cfg = ai.base_config()
    cfg.havoc_wait = True
    cfg.max_paths = 1500
    cfg.unroll = 2
    cfg.depth = 10
    cfg.inline = lambda f: bool(G.reach.get(f["u"])) and f["n"] != "create_instance" or not f["fn"].startswith("stxxl::") or small(P, f)

    def down(I, c):
        for a in c.args:
            I.eval(a)
        I.ev('block', 'semaphore', c.obj, (), None, c.node)
        return I.fresh("sem", lo=0)
    for n in SEMDOWN:
        cfg.models[n] = down

    def wait(I, c):
        m = I.deref(c.arg(1))
        I.ev('block', 'condition', I.deref(c.arg(0)), (('&', m),), None, c.node)
        return 0
    cfg.models["pthread_cond_wait"] = wait

    def join(I, c):
        v = tuple(I.eval(a) for a in c.args)
        I.ev('block', 'join', None, v, None, c.node)
        return 0
    cfg.models["pthread_join"] = join
    isreq = {}

    def reqcall(names):
        def pred(f):
            if f["n"] not in names or f["k"] != "method":
                return False
            ct = f.get("ct")
            if ct not in isreq:
                isreq[ct] = ct == "stxxl::request_interface" or any(P.derived_from(r, "stxxl::request_interface") for r in P.recs_by_ct.get(ct, []))
            return isreq[ct]
        return pred

    def mk(kind):
        def h(I, c):
            a = tuple(I.argval(x) for x in c.args)
            I.ev('block', kind, c.obj, a, None, c.node)
            return I.fresh(kind) if kind == "serve" else 0
        return h
    cfg.model_pred.insert(0, (reqcall(("wait",)), mk("wait")))
    cfg.model_pred.insert(0, (reqcall(("serve",)), mk("serve")))
    cfg.models["stxxl::completion_handler::operator()"] = mk("handler")
    return cfg


def leaves(P, d):
    """Concrete classes whose objects run this definition of a virtual-using method (at most 4)."""
    if d.rec is None or d.kind in ("ctor", "dtor"):
        return [None]
    rec = P.canon(d.rec)
    if not any(n.get("virt") for f, n in calls_in(d)) and not d.f.get("vi"):
        return [None]
    out = []
    bases = set()
    for r in P.recs.values():
        for b in P.bases(r):
            bases.add(b["u"])
    for r in P.recs.values():
        if r["u"] in bases or not any(b["u"] == rec["u"] for b in P.all_bases(r)) and r["u"] != rec["u"]:
            continue
        if d.f.get("vi") and P.resolve_virtual(r, d.f)["u"] != d.key:
            continue
        out.append(r)
    out.sort(key=lambda r: r["ct"])
    return out[:4] or [None]


def small(P, f):
    d = P.defs.get(f["u"])
    return d is not None and d.end - d.line <= 6


def run(ctx):
    ctx.rule("released", "a function that locks a mutex has released it on every path that leaves the function, also by exception")
    ctx.rule("no-relock", "a thread never locks a (non-recursive) mutex it already holds")
    ctx.rule("lock-order", "the relation 'held while acquiring', over all mutexes of the library, has no cycle")
    ctx.rule("no-block-under-lock", "no thread waits for a semaphore, another condition, a request, a thread, and none serves a request or calls a completion handler, "
             "while holding a mutex that the awaited party or the callee may need")
    P = ctx.load([prog.os.path.join(prog.REPO, f) for f in prog.LIB_FILES if "/io/" in f or "/mng/" in f or "/common/" in f]
                 + [prog.os.path.join(prog.HERE, "drivers", n + ".cpp") for n in ("io", "mng")])
    G = Graph(P)
    cfg = config(P, G)
    roots = []
    for k, d in P.defs.items():
        if not ("/include/stxxl/" in d.file or d.file.startswith(prog.REPO + "/lib/")):
            continue
        if "common/mutex.h" in d.file or "condition_variable.h" in d.file:
            continue
        if d.f.get("ct", "").endswith("singleton") and d.n != "create_instance":
            continue
        if not any(f["fn"] in LOCKERS or f["fn"].startswith(("std::lock_guard::", "std::unique_lock::", "std::mutex::")) for f, n in calls_in(d)):
            continue        # what it calls is analysed where the lock is taken
        roots.append(d)
    seen = set()
    edges = {}
    relbad, relok, selfbad, blk, blkok, nlock = {}, set(), {}, {}, {}, 0
    for d in sorted(roots, key=lambda d: (d.file, d.line)):
        if (d.file, d.line) in seen and not d.fn.endswith("create_instance"):
            continue
        seen.add((d.file, d.line))
        inst = "%s (%s)" % (d.fn, rel(d.file))
        locked = False
        leafs = leaves(P, d)
        pathsof = []
        for dyn in leafs:
            cfg.dyn = {THIS: dyn} if dyn else {}
            I = ctx.interp(P, cfg)
            pathsof += list(I.paths(d, this=THIS))
            ctx.used(I)
        for p in pathsof:
            for i, e in enumerate(p.trace):
                if e.k == 'lock':
                    locked = True
                    nlock += 1
                    for h in e.locks:
                        if h == e.o and e.n != 'trylock':
                            selfbad.setdefault(inst, (e, "locks %s, which it already holds" % lockname(h)))
                        elif e.n != 'trylock':
                            edges.setdefault((lockname(h), lockname(e.o)), (inst, e))
                elif e.k == 'block' and e.locks:
                    own = None
                    if e.n == 'condition':
                        own = e.a[0][1]
                    held = [l for l in e.locks if l != own]
                    if held:
                        why = blocking(P, e, held)
                        key = (inst, e.n, lockname(held[-1]))
                        if why:
                            blk.setdefault(key, (e, why))
                        else:
                            blkok[key] = e
                elif e.k in ('call', 'icall') and e.locks and e.k == 'call':
                    for h, why in summary(P, G, e, edges, inst):
                        if why:
                            blk.setdefault((inst, e.n, lockname(h)), (e, why))
            if p.out in ('ret', 'throw'):
                ls = p.lockset
                if ls and d.kind not in ("ctor", "dtor") or (ls and d.kind == "dtor"):
                    if not intended(d, ls):
                        ex = "by exception " if p.out == 'throw' else ""
                        relbad.setdefault(inst, (d, "leaves %sholding %s (%s)" % (ex, lockname(ls[-1]), pathdesc(p))))
                elif locked:
                    relok.add(inst)
        if locked and inst not in relbad:
            relok.add(inst)
    for i in sorted(relok - set(relbad)):
        ctx.ok("released", i)
    for i, (d, m) in sorted(relbad.items()):
        ctx.bad("released", i, where(d), m)
    for i in sorted(relok | set(relbad)):
        if i in selfbad:
            ctx.bad("no-relock", i, selfbad[i][0].where(), selfbad[i][1])
        else:
            ctx.ok("no-relock", i)
    for k in sorted(blkok):
        if k not in blk:
            ctx.ok("no-block-under-lock", "%s: %s under %s" % k, blkok[k].where())
    for k, (e, why) in sorted(blk.items()):
        ctx.bad("no-block-under-lock", "%s: %s under %s" % k, e.where(), why)
    for i in sorted(relok):
        if not any(k[0] == i for k in blk):
            ctx.ok("no-block-under-lock", i)
    ctx.need(20, "lock acquisitions", nlock)
    # cycles
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reaches(a, b):
        todo, s = [a], set()
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return False
    for (a, b), (inst, e) in sorted(edges.items()):
        if a == b or reaches(b, a):
            back = [(x, y) for x, y in edges if x == b and (y == a or reaches(y, a))]
            ctx.bad("lock-order", "%s -> %s" % (a, b), e.where(), "acquires %s while holding %s; elsewhere the order is reversed%s" % (
                b, a, " at " + edges[back[0]][1].where() if back and a != b else " (two objects of one class)"))
        else:
            ctx.ok("lock-order", "%s -> %s" % (a, b), e.where())


def intended(d, ls):
    """Functions whose purpose is to lock."""
    return d.n in ("lock", "try_lock")


def isfilelock(P, l):
    o = l
    while o[0] == 'F':
        rs = P.recs_by_ct.get(o[3], [])
        if any(P.derived_from(r, "stxxl::file") for r in rs):
            return True
        o = o[1]
    return False


def blocking(P, e, held):
    """None when waiting is harmless: a per-file lock is held while waiting for another file's queue."""
    h = held[-1]
    if e.n in ("wait",) and all(isfilelock(P, x) or "singleton::create_instance" in lockname(x) for x in held):
        return None
    return {"semaphore": "waits for a semaphore while holding %s", "condition": "waits for a condition while holding %s, which the wait does not release",
            "join": "waits for a thread to end while holding %s", "wait": "waits for a request while holding %s",
            "serve": "serves a request (and calls its completion handler) while holding %s",
            "handler": "calls a completion handler while holding %s"}[e.n] % lockname(h)


def summary(P, G, e, edges, inst):
    """Effects of a call that was not analysed in place."""
    out = []
    n = e.node
    if not n or "fi" not in n:
        return out
    return out
