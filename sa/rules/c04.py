"""C04: a transfer moves exactly the requested bytes between exactly the requested buffer and file range."""
import ai, dom, prog
from dom import c_eq, c_lt, isconst, show, sub, add, parts, _terms
from core import where
from .util import *
from .c03 import call_def

READ, WRITE = 0, 1


def free_eq(p, a, b, free):
    """a == b on every valuation of the free symbols admitted by the path: True / False / None (unknown state involved)."""
    c = c_eq(a, b)
    d = p.facts.decide(c)
    if d is not None:
        return d
    ls = set()
    dom.leaves(sub(a, b), ls)
    if not all(l in free for l in ls):
        return None
    return False if dom.witness(p.facts, c) is not None else None


class World:
    """Models of the system calls that move data; records the transferred segments."""

    def __init__(self):
        self.free = set()

    def install(self, cfg):
        for n in ("lseek", "lseek64"):
            cfg.models[n] = self.lseek
        for n in ("read", "write"):
            cfg.models[n] = self.rw(n == "write", False)
        for n in ("pread", "pread64", "pwrite", "pwrite64"):
            cfg.models[n] = self.rw(n.startswith("pw"), True)
        for n in ("mmap", "mmap64"):
            cfg.models[n] = self.mmap
        cfg.models["munmap"] = lambda I, c: ([I.argval(a) for a in c.args], 0)[1]
        for n in ("memcpy", "memmove", "__builtin_memcpy", "std::memcpy", "std::memmove"):
            cfg.models[n] = self.memcpy
        for n in ("memset", "std::memset"):
            cfg.models[n] = self.memset
        for n in ("fstat", "fstat64"):
            cfg.models[n] = self.fstat
        for n in ("std::copy", "std::copy_n"):
            cfg.models[n] = self.copy

    def lseek(self, I, c):
        fd, off, wh = [I.argval(a) for a in c.args]
        if isconst(wh) and wh == 0:
            I.user[("pos", fd)] = off
            I.facts.assume(c_lt(off, 0), False)
            return off
        if isconst(wh) and wh == 2:
            s = ('s', 'filesize')
            dom.tbounds[dom.tid(s)] = (0, None)
            I.user["filesize"] = s
            I.user[("pos", fd)] = add(s, off)
            return add(s, off)
        I.user[("pos", fd)] = None
        return I.fresh("lseek", lo=0)

    def rw(self, wr, positioned):
        def h(I, c):
            v = [I.argval(a) for a in c.args]
            fd, buf, n = v[:3]
            pos = v[3] if positioned else I.user.get(("pos", fd))
            k = I.choose(2 if wr else 3, (c.f["n"], c.node.get("l")))
            if k == 1:
                raise ai.PathEnd('abort')       # failure: another property
            if k == 2:
                return 0
            r = I.fresh("moved", lo=1)
            self.free.add(r)
            if not I.facts.assume(c_lt(n, r), False):
                raise ai.PathEnd('infeasible')
            I.ev('seg', 'W' if wr else 'R', None, (buf, pos, r), r, c.node)
            if not positioned and pos is not None:
                I.user[("pos", fd)] = add(pos, r)
            return r
        return h

    def mmap(self, I, c):
        v = [I.argval(a) for a in c.args]
        base = ('s', 'mapping#%d' % len(I.taken))
        dom.tbounds[dom.tid(base)] = (1, None)
        I.ptrterms.add(base)
        I.user.setdefault("maps", {})[base] = v
        return base

    def memcpy(self, I, c):
        d, s, n = [I.argval(a) for a in c.args]
        I.ev('copy', 'memcpy', None, (d, s, n), None, c.node)
        return d

    def copy(self, I, c):
        d = [I.argval(a) for a in c.args]
        if c.f["n"] == "copy_n":
            I.ev('copy', 'copy', None, (d[2], d[0], d[1]), None, c.node)
        else:
            I.ev('copy', 'copy', None, (d[2], d[0], sub(d[1], d[0])), None, c.node)
        return I.fresh("copyend")

    def memset(self, I, c):
        d, v, n = [I.argval(a) for a in c.args]
        I.ev('fill', 'memset', None, (d, v, n), None, c.node)
        return d

    def fstat(self, I, c):
        v = [I.argval(a) for a in c.args]
        if is_ptr(v[1]):
            I.clobber(c.args[1], v[1], c.f)
            s = ('s', 'filesize')
            dom.tbounds[dom.tid(s)] = (0, None)
            I.user["filesize"] = s
            for ct in ("stat", "stat64"):
                I.store[('F', v[1][1], 'st_size', ct)] = s
        return 0


def segments(p, wr, buf, off, n, w):
    """(file segments in order) or an explanation of why they cannot be read off."""
    segs, why = [], None
    maps = p.I.user.get("maps", {})
    for e in p.trace:
        if e.k == 'seg':
            segs.append(("file", e.n == 'W', e.a[0], e.a[1], e.a[2], e))
        elif e.k == 'fill':
            segs.append(("fill", False, e.a[0], e.a[1], e.a[2], e))
        elif e.k == 'copy':
            d, s, k = e.a
            # which side is memory given by the caller?
            def has(x, t):
                return dom.tid(t) in parts(x)[1]
            if has(d, buf) and not has(s, buf):
                segs.append(("mem", False, d, s, k, e))
            elif has(s, buf) and not has(d, buf):
                segs.append(("mem", True, s, d, k, e))
            elif has(s, buf) and has(d, buf):
                segs.append(("mem", None, d, s, k, e))
            else:
                segs.append(("other", None, d, s, k, e))
    return segs


def check_serve(ctx, P, d, name, bases, w, dynrec):
    """serve(buffer, offset, bytes, type) of a backend that performs the transfer itself."""
    for wr in (False, True):
        cfg = ai.base_config()
        cfg.exact_narrow = True
        cfg.unroll = 2 if not ctx.thorough else 3
        w.install(cfg)
        I = ctx.interp(P, cfg)
        buf, off, n = ('s', 'buffer'), ('s', 'offset'), ('s', 'bytes')
        dom.tbounds[dom.tid(buf)] = (1, None)
        for x in (off, n):
            dom.tbounds[dom.tid(x)] = (0, None)
        I.ptrterms.add(buf)
        w.free |= {buf, off, n}

        def setup(I):
            I.dyn[THIS] = dynrec
            I.facts.assume(c_lt(0, n), True)
        nok = 0
        verdict = []
        for p in I.paths(d, setup=setup, args=[buf, off, n, WRITE if wr else READ], this=THIS):
            if p.out != 'ret':
                continue
            segs = segments(p, wr, buf, off, n, w)
            maps = p.I.user.get("maps", {})
            inst = "%s %s" % (name, "write" if wr else "read")
            done = 0
            res = True
            msg = ""
            ev = None
            for kind, dirw, m, f, k, e in segs:
                ev = e
                if kind == "other" or dirw is None and kind != "fill":
                    res, msg = None, "a copy that does not involve the caller's buffer"
                    break
                if kind == "fill":
                    fs = p.I.user.get("filesize")
                    c1 = free_eq(p, m, add(buf, done), w.free)
                    if wr or not (isconst(f) and f == 0):
                        res, msg = (False if c1 else None), "the buffer is filled with something other than file contents or zeros"
                        break
                    at_eof = fs is not None and p.facts.decide(c_eq(add(off, done), fs))
                    if c1 is not True:
                        res, msg = c1, "zero fill starts at %s, %s bytes of the request are transferred" % (show(m), show(done))
                        break
                    if at_eof is not True:
                        res, msg = (False if fs is None or at_eof is False else None), "the rest of the buffer is zero-filled although the end of the file was not reached"
                        if fs is not None and at_eof is None:
                            res = False if free_eq(p, add(off, done), fs, w.free | {fs}) is False else None
                        break
                    done = add(done, k)
                    continue
                if dirw != wr:
                    res, msg = False, "a %s request moves data in the other direction" % ("write" if wr else "read")
                    break
                if kind == "mem":
                    # address of the file side: mapping or memory image
                    mp = [b for b in maps if dom.tid(b) in parts(f)[1]]
                    if mp:
                        a = maps[mp[0]]
                        delta = sub(f, mp[0])
                        f = add(a[5], delta)
                        inside = p.facts.decide(c_lt(a[1], add(delta, k)))
                        if inside is True or (inside is None and free_eq(p, add(delta, k), a[1], w.free) is False):
                            res, msg = False, "copies %s bytes of a mapping of %s bytes" % (show(k), show(a[1]))
                            break
                        if wr and isconst(a[3]) and not (a[3] & 1):
                            res, msg = False, "writes to a private mapping never reach the file"
                            break
                        if isconst(a[2]) and not (int(a[2]) & (2 if wr else 1)):
                            res, msg = False, "mapping protection does not allow the transfer"
                            break
                    else:
                        base = sub(f, add(off, done))
                        if any(_terms[t] in w.free for t in parts(base)[1]) or isconst(base):
                            r = all(_terms[t] in w.free or _terms[t][0] == 'ld' for t in parts(base)[1])
                            res, msg = (False if r else None), "file side address is %s for offset %s" % (show(f), show(add(off, done)))
                            break
                        bases.setdefault(name, {}).setdefault(base, (inst, e))
                        f = add(off, done)
                if f is None:
                    res, msg = False, "data is transferred at an unset file position"
                    break
                for what, x, y in (("buffer position", m, add(buf, done)), ("file position", f, add(off, done))):
                    r = free_eq(p, x, y, w.free)
                    if r is not True:
                        res, msg = r, "%s is %s, should be %s" % (what, show(x), show(y))
                        break
                if res is not True:
                    break
                done = add(done, k)
            if res is True:
                res = free_eq(p, done, n, w.free)
                if res is not True:
                    msg = "the request returns after %s of %s bytes" % (show(done), show(n))
            nok += 1
            verdict.append((res, inst, ev, msg, p))
        ctx.used(I)
        report(ctx, "transfer-tiling", "%s %s" % (name, "write" if wr else "read"), verdict, where(d), nok)


def report(ctx, rule, inst, verdict, wh, nok):
    if not nok:
        ctx.undecided(rule, inst, wh, "no complete path")
        return
    bad = [v for v in verdict if v[0] is False]
    if bad:
        v = bad[0]
        ctx.bad(rule, inst, v[2].where() if v[2] is not None else wh, v[3] + " (" + pathdesc(v[4]) + ")")
    elif any(v[0] is None for v in verdict):
        v = [v for v in verdict if v[0] is None][0]
        ctx.undecided(rule, inst, v[2].where() if v[2] is not None else wh, v[3])
    else:
        ctx.ok(rule, inst, wh, "%d paths" % nok)


def captured_cfg():
    cfg = ai.base_config()
    cfg.exact_narrow = True

    def add_req(I, c):
        vals = [I.argval(a) for a in c.args]
        I.ev('queued', c.f["fn"], c.obj, tuple(vals), None, c.node)
        return 0
    cfg.models["stxxl::disk_queues::add_request"] = add_req

    def inst(I, c):
        rt = c.f["tu"].types[c.f["rt"]]
        return ('&', ('O', 'singleton:' + rt["s"]))
    cfg.models["stxxl::singleton::get_instance"] = inst
    cfg.models["stxxl::request::check_nref"] = lambda I, c: 0
    cfg.models["stxxl::file::add_request_ref"] = lambda I, c: 0
    cfg.models["stxxl::file::delete_request_ref"] = lambda I, c: 0
    return cfg


def req_of(I):
    """Location of the request object the path created."""
    for e in I.trace:
        if e.k in ('new', 'pnew') and 'request' in str(e.n):
            return e.o
    return None


def submit_and_run(ctx, P, cls, opname, drive, check):
    """aread/awrite of cls, then drive the created request and compare what reaches the backend."""
    fn = P.find("stxxl::%s::%s" % (cls, opname))
    if not fn:
        raise AnalysisBroken("no %s::%s" % (cls, opname))
    d = fn[0]
    wr = opname == "awrite"
    cfg = captured_cfg()
    buf, off, n = ('s', 'buffer'), ('s', 'pos'), ('s', 'bytes')
    for x in (buf, off, n):
        dom.tbounds[dom.tid(x)] = (1 if x == buf else 0, None)

    def serve(I, c):
        v = tuple(I.argval(a) for a in c.args)
        I.ev('serve', c.f["fn"], c.obj, v, None, c.node)
        return 0
    cfg.model_pred.insert(0, (lambda f: f["n"] == "serve" and f.get("vi") and len(f.get("ps", [0] * 4)) >= 4, serve))
    cfg.model_pred.insert(0, (lambda f: f["n"] in ("notify_waiters", "completed") and f["k"] == "method", lambda I, c: 0))
    cfg.models["stxxl::completion_handler::operator()"] = lambda I, c: 0

    def syscall(I, c):
        v = tuple(I.argval(a) for a in c.args)
        snap = {}
        # the control block list
        cbpp = v[3] if len(v) > 3 else None
        cb = None
        if is_ptr(cbpp):
            cbp = I.load(cbpp[1])
            if is_ptr(cbp):
                cb = cbp[1]
                for k, x in I.store.items():
                    if k[0] == 'F' and k[1] == cb:
                        snap[k[2]] = x
        I.ev('submit', 'syscall', cb, v, None, c.node, x=snap)
        return 1
    cfg.models["syscall"] = syscall
    I = ctx.interp(P, cfg)

    def body(I):
        fr = I.newframe(d, THIS)
        vals = [buf, off, n, ('&', ('O', 'handler'))]
        rl = ('H', 'result')
        for i, (vid, name, t) in enumerate(d.params):
            I.store[I.lvar(fr, vid, name)] = vals[i]
        fr.retloc = rl
        I.runbody(d, fr)
        r = None
        for e in I.trace:
            if e.k == 'new' and e.o is not None and I.dyn.get(e.o) is not None and P.derived_from(I.dyn[e.o], "stxxl::request_interface"):
                r = e.o
        if r is None:
            raise ai.PathEnd('norequest')
        I.user["req"] = r
        drive(I, r)
        return r
    verdict, nok = [], 0
    for p in I.paths(None, body=body):
        if p.out != 'ret':
            if p.why == 'norequest':
                verdict.append((None, None, None, "no request object found", p))
                nok += 1
            continue
        nok += 1
        q = [e for e in p.trace if e.k == 'queued']
        if not q:
            verdict.append((None, "", None, "the request is not handed to the disk queues", p))
            continue
        verdict.append(check(p, wr, buf, off, n))
    ctx.used(I)
    report(ctx, "request-range", "%s::%s" % (cls, opname), verdict, where(d), nok)


def run(ctx):
    ctx.rule("transfer-tiling", "on every path of a backend's transfer routine that returns, the segments moved by read/write/memcpy/mmap/memset tile "
             "[buffer, buffer+bytes) and [offset, offset+bytes) in step, in the direction of the request; zero fill only at the end of the file")
    ctx.rule("request-range", "the backend is asked to move exactly the buffer, offset, length and direction given to aread()/awrite()")
    ctx.rule("same-image", "reads and writes of an in-memory file address the same image")
    ctx.rule("block-range", "block->read/write(bid) moves the block's own storage, its full raw size, at the bid's offset of the bid's file")
    ctx.rule("log-mapping", "the log-structured file records for each written block the address it was put at, and reads it back from there")
    P = ctx.lib([f for f in prog.LIB_FILES if "/io/" in f])
    w = World()
    bases = {}
    serves = [d for d in P.defs.values() if d.n == "serve" and d.kind == "method" and len(d.params) == 4 and d.rec is not None
              and P.derived_from(d.rec, "stxxl::file")]
    nself = 0
    for d in sorted(serves, key=lambda x: x.fn + x.f["u"]):
        # a backend that does the transfer itself: reaches memory/file primitives directly
        if d.ct in ("stxxl::wbtl_file", "stxxl::linuxaio_file"):
            continue
        if "fileperblock" in d.ct:
            fileperblock(ctx, P, d, w)
            continue
        nself += 1
        check_serve(ctx, P, d, d.ct, bases, w, d.rec)
    ctx.need(3, "transfer routines", nself)
    for nm, bs in bases.items():
        ctx.check(True if len(bs) == 1 else None if any(dom.parts(b)[0] == 0 and len(dom.parts(b)[1]) > 1 for b in bs) else False,
                  "same-image", nm, list(bs.values())[0][1].where(), "file image bases: %s" % ", ".join(show(b) for b in bs))

    def drive_serving(I, r):
        d = P.one("stxxl::serving_request::serve")
        call_def(I, d, r)

    def chk_serving(p, wr, buf, off, n):
        s = [e for e in p.trace if e.k == 'serve']
        if len(s) != 1:
            return (False if len(s) == 0 else False, "", s[0] if s else None, "the backend is asked to serve the request %d times" % len(s), p)
        e = s[0]
        for nm, x, y in (("file", e.o, THIS), ):
            if x != y:
                return (None if x[0] == 'D' else False, "", e, "served by another file: %s" % showloc(x), p)
        for nm, x, y in zip(("buffer", "offset", "length", "direction"), e.a, (buf, off, n, WRITE if wr else READ)):
            r = free_eq(p, x, y, {buf, off, n})
            if r is not True:
                return (r, "", e, "%s passed to the backend is %s, requested %s" % (nm, show(x), show(y)), p)
        return (True, "", e, "", p)
    for op in ("aread", "awrite"):
        submit_and_run(ctx, P, "disk_queued_file", op, drive_serving, chk_serving)

    def drive_aio(I, r):
        d = P.one("stxxl::linuxaio_request::post")
        call_def(I, d, r)

    def chk_aio(p, wr, buf, off, n):
        s = [e for e in p.trace if e.k == 'submit' and e.x]
        if not s:
            return (None, "", None, "submission not recognised", p)
        e = s[-1]
        want = {"aio_buf": buf, "aio_nbytes": n, "aio_offset": off, "aio_lio_opcode": 1 if wr else 0}
        for nm, y in want.items():
            if nm not in e.x:
                return (None, "", e, nm + " not set", p)
            r = free_eq(p, e.x[nm], y, {buf, off, n})
            if r is not True:
                return (r, "", e, "%s of the control block is %s, requested %s" % (nm, show(e.x[nm]), show(y)), p)
        return (True, "", e, "", p)
    for op in ("aread", "awrite"):
        submit_and_run(ctx, P, "linuxaio_file", op, drive_aio, chk_aio)
    wbtl(ctx, P, w)
    typed_block(ctx)


def fileperblock(ctx, P, d, w):
    """One file per block: the whole request goes to position 0 of the file named after the offset."""
    buf, off, n = ('s', 'buffer'), ('s', 'offset'), ('s', 'bytes')
    for wr in (False, True):
        cfg = ai.base_config()
        cfg.exact_narrow = True
        cfg.model_pred.insert(0, (lambda f: f["n"] == "serve" and f.get("vi") and f["u"] != d.key,
                                  lambda I, c: (I.ev('serve', c.f["fn"], c.obj, tuple(I.argval(a) for a in c.args), None, c.node), 0)[1]))
        cfg.model_pred.insert(0, (lambda f: f["n"] == "set_size" and f["k"] == "method",
                                  lambda I, c: (I.ev('set_size', c.f["fn"], c.obj, tuple(I.argval(a) for a in c.args), None, c.node), 0)[1]))

        def isfile(f):
            return f["k"] in ("ctor", "dtor") and "rid" in f and P.derived_from(f["tu"].recs[f["rid"]], "stxxl::file") and "fileperblock" not in (f.get("ct") or "")
        cfg.model_pred.insert(0, (isfile, lambda I, c: ([I.argval(a) for a in c.args], 0)[1]))

        def out(I, c):
            vals = tuple(I.argterm(a) if not (a.get("lv") and I.ty(a)["k"] in ("rec", "arr")) else 0 for a in c.args)
            I.ev('name', c.f["fn"], c.obj, vals, None, c.node)
            return NotImplemented
        cfg.model_pred.insert(0, (lambda f: f["n"] in ("operator<<", "to_string", "append", "operator+", "snprintf", "sprintf"), out))
        I = ctx.interp(P, cfg)
        verdict, nok = [], 0
        for p in I.paths(d, args=[buf, off, n, WRITE if wr else READ], this=THIS):
            if p.out != 'ret':
                continue
            nok += 1
            s = [e for e in p.trace if e.k == 'serve']
            if len(s) != 1:
                verdict.append((None if not s else False, "", None, "%d transfers by the base file" % len(s), p))
                continue
            e = s[0]
            res, msg = True, ""
            for nm, x, y in zip(("buffer", "offset", "length", "direction"), e.a, (buf, 0, n, WRITE if wr else READ)):
                r = free_eq(p, x, y, {buf, off, n})
                if r is not True:
                    res, msg = r, "%s of the base transfer is %s, should be %s" % (nm, show(x), show(y))
                    break
            if res is True:
                for z in [z for z in p.trace if z.k == 'set_size']:
                    if p.facts.decide(c_lt(z.a[0], n)) is True or free_eq(p, z.a[0], n, {buf, off, n}) is False and isconst(z.a[0]):
                        res, msg, e = False, "the block's file is cut to %s bytes" % show(z.a[0]), z
            if res is True:
                names = [x for z in p.trace if z.k == 'name' for x in z.a]
                if not any(x == off for x in names):
                    dep = [x for x in names if mentions(x, off)]
                    res, msg = (None, "the file name is not recognisably made from the offset") if not dep else (False, "the block's file name is made from %s, not from the offset" % show(dep[0]))
            verdict.append((res, "", e, msg, p))
        ctx.used(I)
        report(ctx, "transfer-tiling", "fileperblock over %s %s" % (P_name(d), "write" if wr else "read"), verdict, where(d), nok)


def P_name(d):
    for b in ("mmap_file", "syscall_file", "wincall_file", "boostfd_file"):
        if b in d.key:
            return b
    return "?"


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, dom.Lin):
        return any(mentions(_terms[i], t) for i, _ in v.ts)
    if isinstance(v, tuple):
        return any(mentions(x, t) for x in v)
    return False


def wbtl(ctx, P, w):
    buf, off, n = ('s', 'buffer'), ('s', 'offset'), ('s', 'bytes')
    rec = P.rec("stxxl::wbtl_file")
    wb = fieldby(P, rec, "write_buffer", lambda f, t: t["k"] == "arr" and t["tu"].types[t["et"]]["k"] == "ptr" if "et" in t else False)
    ad = fieldby(P, rec, "buffer_address", lambda f, t: t["k"] == "arr" and t["tu"].types[t["et"]]["k"] == "int" if "et" in t else False)
    bs = fieldby(P, rec, "write_block_size")
    WB, AD, BS = F(THIS, wb[1]["n"], wb[0]), F(THIS, ad[1]["n"], ad[0]), F(THIS, bs[1]["n"], bs[0])

    def cfgw():
        cfg = captured_cfg()
        w.install(cfg)
        cfg.no_inline = {"stxxl::wbtl_file::_add_free_region", "stxxl::wbtl_file::discard", "stxxl::wbtl_file::get_next_write_block"}
        return cfg

    def bufidx(v):
        """(index of the write buffer an address points into, displacement)"""
        for t in parts(v)[1]:
            x = _terms[t]
            if x[0] == 'ld' and x[1][0] == 'I' and x[1][1] == WB and parts(v)[1][t] == 1:
                return x[1][2], sub(v, x)
        return None, None
    # reads
    d = P.one("stxxl::wbtl_file::serve")
    for wr in (False, True):
        I = ctx.interp(P, cfgw())
        verdict, nok, flush = [], 0, []
        for p in I.paths(d, args=[buf, off, n, WRITE if wr else READ], this=THIS,
                         setup=lambda I: I.facts.assume(c_lt(0, n), True)):
            if p.out != 'ret':
                continue
            nok += 1
            cps = [e for e in p.trace if e.k == 'copy']
            bk = [e for e in p.trace if e.k == 'call' and e.n in ("stxxl::file::aread", "stxxl::file::awrite", "stxxl::disk_queued_file::aread")]
            if not wr:
                for e in bk:
                    if not e.n.endswith("aread"):
                        verdict.append((False, "", e, "a read request writes to the storage", p))
                mv = [e for e in cps + bk + [x for x in p.trace if x.k == 'fill']]
                if len(mv) != 1:
                    verdict.append((False if not mv else None, "", None, "the request is answered by %d transfers" % len(mv), p))
                    continue
                e = mv[0]
                if e.k == 'copy':
                    i, disp = bufidx(e.a[1])
                    if i is None:
                        verdict.append((None, "", e, "source is not a write buffer", p))
                        continue
                    A = I_load(p, ('I', AD, i))
                    phys = add(disp, A)
                    if isconst(phys):
                        verdict.append((True, "", e, "", p))
                        continue
                    msg, res = "", True
                    for nm, x, y in (("destination", e.a[0], buf), ("length", e.a[2], n)):
                        r = free_eq(p, x, y, {buf, off, n})
                        if r is not True:
                            res, msg = r, "%s is %s" % (nm, show(x))
                    if res is True and not (isinstance(phys, tuple) and mentions(phys, off) and phys[0] == 'ld'):
                        res, msg = False if isinstance(phys, dom.Lin) else None, "reads the write buffer at %s" % show(phys)
                    if res is True:
                        lo = p.facts.decide(c_lt(phys, A))
                        hi = p.facts.decide(c_lt(phys, add(A, I_load(p, BS))))
                        if lo is not False or hi is not True:
                            res, msg = False, "the buffer is read although the address is not known to lie in it"
                    verdict.append((res, "", e, msg, p))
                elif e.k == 'call':
                    res, msg = True, ""
                    for nm, x, y in (("buffer", e.a[0], buf), ("length", e.a[2], n)):
                        r = free_eq(p, x, y, {buf, off, n})
                        if r is not True:
                            res, msg = r, "%s is %s" % (nm, show(x))
                    ph = e.a[1]
                    if res is True and not (isinstance(ph, tuple) and ph[0] == 'ld' and mentions(ph, off)):
                        res, msg = False if isinstance(ph, dom.Lin) or ph == off else None, "storage is read at %s" % show(ph)
                    if res is True:
                        after = p.trace[p.trace.index(e):]
                        if not any(x.k == 'call' and x.n.endswith("::wait") for x in after):
                            res, msg = False, "the read from the storage is not waited for"
                    verdict.append((res, "", e, msg, p))
                else:
                    # zero/undefined fill: only when nothing is mapped at the offset
                    r = all(p.facts.decide(c_eq(e.a[i], y)) is True for i, y in ((0, buf), (2, n)))
                    verdict.append((True if r else False, "", e, "fills %s bytes at %s" % (show(e.a[2]), show(e.a[0])), p))
                continue
            # writes
            cp = [e for e in cps if mentions(e.a[1], buf)]
            if len(cp) != 1:
                verdict.append((False if not cp else None, "", None, "the data is copied %d times" % len(cp), p))
                continue
            e = cp[0]
            i, disp = bufidx(e.a[0])
            if i is None:
                verdict.append((None, "", e, "destination is not a write buffer", p))
                continue
            A = I_load(p, ('I', AD, i))
            want = add(A, disp)
            res, msg = True, ""
            for nm, x, y in (("source", e.a[1], buf), ("length", e.a[2], n)):
                r = free_eq(p, x, y, {buf, off, n})
                if r is not True:
                    res, msg = r, "%s is %s" % (nm, show(x))
            maps = [x for x in p.trace if x.k == 'store' and x.o[0] == 'D' and mentions(x.o, off) and not mentions(x.a[0], buf)]
            ms = [x for x in maps if mentions(x.o, off)]
            if res is True:
                if not ms:
                    res, msg = None, "no recognised mapping update"
                for x in ms:
                    r = p.facts.decide(c_eq(x.a[0], want))
                    if r is not True:
                        res = False if r is False or isinstance(sub(x.a[0], want), (int, dom.Lin)) or True else None
                        msg, e = "block is stored at %s but recorded at %s" % (show(want), show(x.a[0])), x
            if res is True:
                for b in bk:
                    if b.n.endswith("awrite"):
                        j, dj = bufidx(b.a[0])
                        if j is None:
                            continue
                        Aj = ('ld', ('I', AD, j), 0)
                        z = sub(b.a[1], add(Aj, dj))
                        if p.facts.decide(c_eq(z, 0)) is not True:
                            res, msg, e = False, "write buffer %s is written to %s, its blocks are recorded relative to %s" % (show(j), show(b.a[1]), show(Aj)), b
                        elif p.facts.decide(c_eq(b.a[2], I_load(p, BS))) is not True:
                            res, msg, e = False, "only %s bytes of the write buffer are written" % show(b.a[2]), b
            verdict.append((res, "", e, msg, p))
        ctx.used(I)
        report(ctx, "log-mapping", "log-structured " + ("write" if wr else "read"), verdict, where(d), nok)


def I_load(p, loc):
    v = p.store.get(loc)
    return v if v is not None else ('ld', loc, 0)


def typed_block(ctx):
    P = ctx.driver("mng")
    rec = None
    n = 0
    for op in ("read", "write"):
        for d in P.find("stxxl::typed_block::" + op):
            n += 1
            cfg = captured_cfg()

            def xfer(I, c):
                I.ev('xfer', c.f["n"], c.obj, tuple(I.argval(a) for a in c.args), None, c.node)
                return NotImplemented
            cfg.model_pred.insert(0, (lambda f: f["n"] in ("aread", "awrite") and f.get("vi"), xfer))
            I = ctx.interp(P, cfg)
            verdict, nok = [], 0
            bid = ('O', 'bid')
            size = P.canon(d.rec).get("sz")
            for p in I.paths(d, this=THIS, args=[('&', bid), ('&', ('O', 'handler'))]):
                if p.out != 'ret':
                    continue
                nok += 1
                x = [e for e in p.trace if e.k == 'xfer']
                if len(x) != 1:
                    verdict.append((False, "", x[0] if x else None, "%d transfers are started" % len(x), p))
                    continue
                e = x[0]
                res, msg = True, ""
                if (e.n == "awrite") != (op == "write"):
                    res, msg = False, "%s() starts %s()" % (op, e.n)
                st = [k for k in [e.o] if k and k[0] == 'D' and mentions(k, bid) and mentions(k, 'storage')]
                if res is True and not st:
                    res, msg = None, "file is not the bid's storage: %s" % showloc(e.o)
                if res is True:
                    a = e.a
                    addr = a[0]
                    if not (is_ptr(addr) and root(addr[1]) == THIS):
                        res, msg = False, "buffer is %s" % show(addr)
                    elif a[1] != ('ld', F(bid, 'offset', a[1][1][3]) if isinstance(a[1], tuple) and a[1][0] == 'ld' and a[1][1][0] == 'F' else None, 0):
                        res, msg = False, "file position is %s, not the bid's offset" % show(a[1])
                    elif size and not (isconst(a[2]) and a[2] == size):
                        res, msg = (False if isconst(a[2]) else None), "%s of the block's %s bytes are moved" % (show(a[2]), size)
                verdict.append((res, "", e, msg, p))
            ctx.used(I)
            report(ctx, "block-range", "typed_block::" + op, verdict, where(d), nok)
    ctx.need(2, "block transfer functions", n)
