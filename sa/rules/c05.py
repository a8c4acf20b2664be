"""C05: shared state is only touched under its mutex."""
import ai, dom, prog
from dom import show
from core import where
from .util import *

# class, mutex member, members it protects, what is protected ("rw", or "w": concurrent readers accept stale values)
GUARDS = [
    ("stxxl::wbtl_file", "mapping_mutex", ("free_space", "free_bytes", "address_mapping", "reverse_mapping"), "rw"),
    ("stxxl::wbtl_file", "buffer_mutex", ("write_buffer", "buffer_address", "curbuf", "curpos", "backend_request"), "rw"),
    ("stxxl::request_queue_impl_qwqr", "m_write_mutex", ("m_write_queue",), "rw"),
    ("stxxl::request_queue_impl_qwqr", "m_read_mutex", ("m_read_queue",), "rw"),
    ("stxxl::request_queue_impl_1q", "m_queue_mutex", ("m_queue",), "rw"),
    ("stxxl::linuxaio_queue", "waiting_mtx", ("waiting_requests",), "rw"),
    ("stxxl::linuxaio_queue", "posted_mtx", ("posted_requests",), "rw"),
    ("stxxl::request_with_waiters", "m_waiters_mutex", ("m_waiters",), "rw"),
    ("stxxl::state", "m_mutex", ("m_state",), "rw"),
    ("stxxl::semaphore", "m_mutex", ("m_v", "v"), "rw"),
    ("stxxl::onoff_switch", "m_mutex", ("m_on",), "rw"),
    ("stxxl::disk_allocator", "mutex", ("free_space", "free_bytes", "disk_bytes"), "rw"),
    ("stxxl::block_manager", "m_allocation_mutex", ("m_total_allocation", "m_current_allocation", "m_maximum_allocation"), "rw"),
    ("stxxl::mem_file", "m_mutex", ("m_ptr", "m_size"), "rw"),
    ("stxxl::stats", "read_mutex", ("reads", "volume_read", "c_reads", "c_volume_read", "t_reads", "p_reads", "p_begin_read", "acc_reads"), "w"),
    ("stxxl::stats", "write_mutex", ("writes", "volume_written", "c_writes", "c_volume_written", "t_writes", "p_writes", "p_begin_write", "acc_writes"), "w"),
    ("stxxl::stats", "io_mutex", ("p_ios", "p_begin_io", "acc_ios"), "w"),
    ("stxxl::stats", "wait_mutex", ("t_waits", "p_waits", "p_begin_wait", "acc_waits", "t_wait_read", "p_wait_read", "p_begin_wait_read", "acc_wait_read",
                                    "t_wait_write", "p_wait_write", "p_begin_wait_write", "acc_wait_write"), "w"),
    ("stxxl::seed_generator_t", "mtx", ("seed",), "rw"),
]


def chain(l):
    while isinstance(l, tuple) and l and l[0] in ('F', 'I'):
        if l[0] == 'F':
            yield l
        l = l[1]


def guarded(table, loc):
    for l in chain(loc):
        g = table.get((str(l[3]), l[2]))
        if g:
            yield l, g


def run(ctx):
    ctx.rule("guarded-by", "every access to a shared member outside construction and destruction is made while holding the mutex that all other accesses hold")
    ctx.rule("seek-transfer", "the file position set by a seek and the transfer that relies on it are under one uninterrupted lock of the descriptor's mutex")
    ctx.rule("atomic-count", "reference counts shared between threads are changed by atomic operations only")
    P = ctx.load([prog.os.path.join(prog.REPO, f) for f in prog.LIB_FILES if "/io/" in f or "/mng/" in f or f.endswith("common/seed.cpp")]
                 + [prog.os.path.join(prog.HERE, "drivers", n + ".cpp") for n in ("io", "mng")])
    ctx.sub("guarded-by", guards, ctx, P)
    ctx.sub("seek-transfer", seeks, ctx, P)
    ctx.sub("atomic-count", counts, ctx, P)


def accessed(e):
    """(location, is it a change) of an event."""
    if e.k == 'store':
        return [(e.o, True)]
    if e.k in ('load', 'acc'):
        return [(e.o, False)]
    if e.k == 'std' and e.o is not None:
        return [(e.o, True)]
    return []


def guards(ctx, P):
    table = {}
    classes = {}
    for ct, m, fs, mode in GUARDS:
        recs = P.recs_by_ct.get(ct)
        if not recs:
            ctx.undecided("guarded-by", ct, "", "class not found")
            continue
        names = {f["n"] for f in recs[0].get("fs", [])}
        if m not in names:
            # renamed: the only other mutex
            ms = [f["n"] for f in recs[0].get("fs", []) if recs[0]["tu"].types[f["t"]].get("ct") in ("stxxl::mutex", "std::mutex")]
            taken = {g[1] for g in GUARDS if g[0] == ct}
            ms = [x for x in ms if x not in taken]
            if len(ms) == 1:
                m = ms[0]
            elif not any(f in names for f in fs):
                continue
            else:
                ctx.undecided("guarded-by", ct + "::" + m, "", "mutex not found")
                continue
        for f in fs:
            if f in names:
                table[ct, f] = (m, mode)
        classes.setdefault(ct, recs[0])
    nacc = 0
    seen = {}
    kids = {}
    for r in P.recs.values():
        for b in P.all_bases(r):
            kids.setdefault(b["ct"], []).append(r)
    for ct in sorted(classes):
        allr = {r["u"] for r in P.recs_by_ct[ct]} | {r["u"] for r in kids.get(ct, [])}
        roots = []
        for d in P.defs.values():
            owner = d.rec is not None and d.rec["u"] in allr
            static = d.rec is None and ct == "stxxl::seed_generator_t" and d.file.endswith("seed.cpp")
            if not (owner or static):
                continue
            if d.kind in ("ctor", "dtor") or d.f.get("imp"):
                continue
            if owner and not d.f.get("pub") and callers(P, d.key) and not d.f.get("vi"):
                # reached through its callers; roots only if someone outside the class calls it
                cs = [c for c, n in callers(P, d.key)]
                if all(c.rec is not None and c.rec["u"] in allr for c in cs):
                    continue
            roots.append(d)
        done = set()
        for d in sorted(roots, key=lambda d: (d.file, d.line)):
            if (d.file, d.line) in done:
                continue
            done.add((d.file, d.line))
            cfg = ai.Config() if ct == "stxxl::stats" else ai.base_config()
            cfg.max_paths = 1500
            cfg.havoc_wait = True
            rec = P.canon(d.rec) if d.rec else None
            if rec is not None and not rec.get("abs"):
                cfg.dyn = {THIS: rec}
            stat = d.f.get("st")
            I = ctx.interp(P, cfg)
            okf, bad = {}, {}
            bases = set()
            for p in I.paths(d, this=None if stat else THIS):
                for e in p.trace:
                    for loc, chg in accessed(e):
                        for l, (m, mode) in guarded(table, loc):
                            if str(l[3]) != ct:
                                continue
                            b = l[1]
                            if root(b)[0] in ('L', 'T', 'H') and ct != "stxxl::seed_generator_t":
                                continue            # an object nobody else knows yet
                            if mode == "w" and not chg:
                                continue
                            g = ('F', b, m, l[3])
                            key = "%s::%s in %s" % (ct, l[2], d.fn)
                            held = any(g in list(chain(h)) for h in e.locks)
                            if held:
                                okf.setdefault(key, e)
                            else:
                                bad.setdefault(key, (e, "%s %s without holding %s" % ("changes" if chg else "reads", l[2], m)))
            ctx.used(I)
            for k, e in okf.items():
                if k not in bad:
                    nacc += 1
                    ctx.ok("guarded-by", k, e.where())
            for k, (e, msg) in bad.items():
                ctx.bad("guarded-by", k, e.where(), msg)
    ctx.need(20, "guarded accesses", nacc)


def seeks(ctx, P):
    n = 0
    for d in list(P.defs.values()):
        if not d.file.startswith(prog.REPO + "/lib/io/"):
            continue
        if not any(f["fn"] in ("lseek", "lseek64") for f, x in calls_in(d)):
            continue
        if not any(f["fn"] in ("read", "write") for f, x in calls_in(d)):
            continue
        cfg = ai.base_config()
        I = ctx.interp(P, cfg)
        bad, k = None, 0
        for p in I.paths(d, this=THIS):
            seek, lk = None, None
            for e in p.trace:
                if e.k == 'call' and e.n in ("lseek", "lseek64"):
                    seek, lk = e, set(e.locks)
                elif e.k == 'unlock' and lk is not None:
                    lk.discard(e.o)
                elif e.k == 'call' and e.n in ("read", "write") and seek is not None:
                    k += 1
                    lk &= set(e.locks)
                    if not lk:
                        bad = bad or (e, "the descriptor's lock is not held from the seek to the transfer; another thread may move the file position")
        ctx.used(I)
        if k:
            n += 1
            ctx.check(bad is None, "seek-transfer", d.fn, bad[0].where() if bad else where(d), bad[1] if bad else "")
    ctx.need(1, "seek/transfer pairs", n)


def counts(ctx, P):
    rec = P.rec("stxxl::atomic_counted_object")
    n = 0
    for d in P.defs.values():
        if d.rec is None or d.rec["ct"] != rec["ct"] or d.kind in ("ctor", "dtor"):
            continue
        I = ctx.interp(P, ai.base_config())
        bad, k = None, 0
        for p in I.paths(d, this=THIS):
            for e in p.trace:
                if e.k == 'atomic':
                    k += 1
                if e.k == 'store' and e.o[0] == 'F' and "reference_count" in e.o[2] and not e.locks:
                    bad = bad or (e, "changes the reference count without an atomic operation")
                    k += 1
        ctx.used(I)
        if k:
            n += 1
            ctx.check(bad is None, "atomic-count", d.fn, bad[0].where() if bad else where(d), bad[1] if bad else "")
    ctx.need(2, "reference count operations", n)
