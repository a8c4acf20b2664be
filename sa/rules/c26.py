"""C26: reference-counted objects live exactly as long as they are referenced."""
import os
import ai, dom, prog
from dom import isconst, show, is_ptr
from .util import *
from .c08 import NamedJudge
from .c29 import insts
from .c16 import where_of, C_name

R = ("count", "life", "value")
CP, CCP, ESP = "stxxl::counting_ptr", "stxxl::const_counting_ptr", "stxxl::external_shared_ptr"
CO, ACO = "stxxl::counted_object", "stxxl::atomic_counted_object"
THIS, OTHER = ('O', 'this', 'u'), ('O', 'other', 'u')
OBJ = {n: ('O', n, 'u') for n in ("A", "B", "N")}         # N: new, not referenced yet
ADDR = {None: 0, "A": ('&', OBJ["A"]), "B": ('&', OBJ["B"]), "N": ('&', OBJ["N"])}


class Refs:
    def __init__(self, ctx, P, name, d, base):
        self.ctx, self.P, self.d, self.base = ctx, P, d, base
        cfg = ai.base_config()
        cfg.unroll = 10
        self.I = ctx.interp(P, cfg)
        self.J = NamedJudge(ctx, R, d)
        self.J.name = name

    def mptr(self, l, cls):
        return F(l, 'm_ptr', cls)

    def cnt(self, l):
        return F(l, 'm_reference_count', self.base)

    def run(self, desc, body):
        for p in self.J.paths(self.I, desc, body=body):
            if p.out == 'throw':
                self.J.bad("value", "throws (%s)" % desc)
                continue
            yield p

    def put(self, I, ptrs, extra):
        """ptrs: {location: (class, object)}; extra: references held elsewhere."""
        n = {k: extra.get(k, 0) for k in OBJ}
        for l, (c, o) in ptrs.items():
            I.store[self.mptr(l, c)] = ADDR[o]
            if o:
                n[o] += 1
        for k, l in OBJ.items():
            I.store[self.cnt(l)] = n[k]
        return n

    def check(self, p, before, ptrs, extra, desc, fresh=None):
        """ptrs: what every pointer must designate afterwards; fresh: a pointer to a copy of its object made by the operation."""
        I, J = p.I, self.J
        n = {k: extra.get(k, 0) for k in OBJ}
        for l, (c, o) in ptrs.items():
            v = I.load(self.mptr(l, c))
            if l == fresh:
                if not is_ptr(v) or v[1] in OBJ.values():
                    J.bad("value", "the pointer does not designate a copy of its own (%s)" % desc)
                else:
                    m = I.load(self.cnt(v[1]))
                    if m != 1:
                        J.bad("count", "the count of the new object is %s instead of 1 (%s)" % (show(m), desc)) if isconst(m) else J.open("count", "a count is not determined (%s)" % desc)
                    if any(e.k == 'delete' and e.o == v[1] for e in p.trace):
                        J.bad("life", "the new object is deleted (%s)" % desc)
                continue
            if v is None or not (is_ptr(v) or isconst(v)):
                J.open("value", "a pointer is not determined (%s)" % desc)
            elif v != ADDR[o]:
                J.bad("value", "%s designates %s instead of %s (%s)" % (l[1], show(v), show(ADDR[o]), desc))
            if o:
                n[o] += 1
        dead = [e.o for e in p.trace if e.k == 'delete']
        for k, l in OBJ.items():
            gone = before[k] > 0 and n[k] == 0
            if dead.count(l) > 1:
                J.bad("life", "object %s is deleted twice (%s)" % (k, desc))
            elif gone and l not in dead:
                J.bad("life", "object %s is never deleted (%s)" % (k, desc))
            elif not gone and l in dead:
                J.bad("life", "object %s is deleted while it has %d references (%s)" % (k, n[k], desc))
            if not gone:
                v = I.load(self.cnt(l))
                if not isconst(v):
                    J.open("count", "a count is not determined (%s)" % desc)
                elif v != n[k]:
                    J.bad("count", "the count of object %s is %d, there are %d references (%s)" % (k, v, n[k], desc))
        for x in dead:
            if x not in OBJ.values() and fresh is None:
                J.bad("life", "deletes something else (%s)" % desc)

    def eq(self, what, got, want, desc):
        if got is None or isinstance(got, (tuple, dom.Lin)) and not is_ptr(got) and not isinstance(want, tuple):
            self.J.open("value", "%s not determined (%s)" % (what, desc))
        elif got != want:
            self.J.bad("value", "%s is %s instead of %s (%s)" % (what, show(got), show(want), desc))


def words(x, y, ex, own):
    return "pointer to %s, other to %s%s%s" % (x or "nothing", "itself" if own else y or "nothing", "; A is also held elsewhere" if ex.get("A") else "", "; B too" if ex.get("B") else "")


STATES = [(x, y, {"A": a, "B": b}) for x in (None, "A", "B") for y in (None, "A", "B") for a in (0, 1) for b in (0, 1)]


def pointer(ctx, P, q, n, d, base):
    cls = q.split("<")[0]
    C = Refs(ctx, P, "%s::%s%s" % (q, n, "" if not d.params else "(%s)" % C_name(d)), d, base)
    k = len(d.params)
    t = None
    if k == 1:
        t = d.tu.types[d.params[0][2]]
        while t["k"] in ("ref", "rref"):
            t = t["tu"].types[t["pt"]]
    ocls = t["ct"] if t and t["k"] == "rec" else None
    ctor = n == cls.split("::")[-1]
    raw = t is not None and t["k"] == "ptr"
    states = STATES if k == 0 or ocls else [(x, y, e) for x, y, e in STATES if not y] + [(x, "N", e) for x, y, e in STATES if not y] + [(x, y, e) for x, y, e in STATES if y]
    for x, y, ex in states:
        for own in (False, True) if ocls and not ctor and ocls == cls else (False,):
            if own and y:
                continue
            if ctor and x or k == 0 and y:
                continue
            if raw and y in ("A", "B") and x != y and not ex[y]:
                continue                    # the object must be alive for the caller to have its address
            desc = words(x, y, ex, own)
            ptrs = {THIS: (cls, x)} if not ctor else {}
            if ocls and not own:
                ptrs[OTHER] = (ocls, y)

            def body(I):
                I.user["before"] = C.put(I, ptrs, ex)
                args = [] if k == 0 else [ADDR[y]] if raw else [('&', THIS if own else OTHER)]
                if n.startswith("~"):
                    I.run_dtor(THIS, P.canon(d.rec))
                else:
                    I.user["r"] = I.enter(d, THIS, args)
                return 0
            for p in C.run(desc, body):
                I, r, b = p.I, p.I.user.get("r"), p.I.user["before"]
                z = x if own else y
                after = dict(ptrs)
                fresh = None
                if ctor:
                    after[THIS] = (cls, y)
                elif n.startswith("~"):
                    del after[THIS]
                elif n == "operator=":
                    after[THIS] = (cls, z)
                    C.eq("the returned object", where_of(r), THIS, desc)
                elif n == "swap":
                    if not own:
                        after[THIS], after[OTHER] = (cls, y), (ocls, x)
                elif n == "unify":
                    if x and b[x] > 1:
                        fresh = THIS
                elif n in ("operator==", "operator!="):
                    C.eq("the result", r, int((x == z) == (n == "operator==")), desc)
                elif n in ("operator*", "operator->", "get") or n.startswith("operator ") and "*" in n:
                    if x or n == "get" or n.startswith("operator "):
                        C.eq("the result", r, ADDR[x], desc)
                elif n in ("valid", "empty", "operator bool"):
                    C.eq("the result", r, int(bool(x) != (n == "empty")), desc)
                elif n == "unique":
                    C.eq("the result", r, int(bool(x) and b[x] == 1), desc)
                else:
                    C.J.open("value", "no rule for this function")
                C.check(p, b, after, ex, desc, fresh)
            if n in ("operator*", "operator->") and not x:
                C.J.worst.clear()               # not defined for null pointers
    C.J.done()


def free_swap(ctx, P, d, cls, base):
    C = Refs(ctx, P, "stxxl::swap of %s" % cls, d, base)
    for x, y, ex in STATES:
        desc = words(x, y, ex, False)

        def body(I):
            I.user["before"] = C.put(I, {THIS: (cls, x), OTHER: (cls, y)}, ex)
            I.enter(d, None, [('&', THIS), ('&', OTHER)])
            return 0
        for p in C.run(desc, body):
            C.check(p, p.I.user["before"], {THIS: (cls, y), OTHER: (cls, x)}, ex, desc)
    C.J.done()


def counted(ctx, P, n, d, base):
    C = Refs(ctx, P, "%s::%s%s" % (base, n, "" if not d.params else "(%s)" % C_name(d)), d, base)
    for a in (0, 1, 2, 3):
        for b in (0, 1, 2) if d.params else (0,):
            if n == "dec_reference" and a == 0 or n.startswith("~") and a:
                continue
            desc = "count %d" % a + (", the other's %d" % b if d.params else "")

            def body(I):
                I.store[C.cnt(THIS)], I.store[C.cnt(OTHER)] = a, b
                if n.startswith("~"):
                    I.run_dtor(THIS, P.canon(d.rec))
                else:
                    I.user["r"] = I.enter(d, THIS, [('&', OTHER)] if d.params else [])
                return 0
            for p in C.run(desc, body):
                r, v = p.I.user.get("r"), p.I.load(C.cnt(THIS))
                want = {"inc_reference": a + 1, "dec_reference": a - 1}.get(n, 0 if n == base.split("::")[1] else a)
                if not isconst(v):
                    C.J.open("count", "the count is not determined (%s)" % desc)
                elif v != want and not n.startswith("~"):
                    C.J.bad("count", "the count becomes %d instead of %d (%s)" % (v, want, desc))
                if n == "dec_reference":
                    C.eq("the result", r, int(a == 1), desc)
                elif n == "unique":
                    C.eq("the result", r, int(a == 1), desc)
                elif n == "get_reference_count":
                    C.eq("the result", r, a, desc)
                elif n == "operator=":
                    C.eq("the returned object", where_of(r), THIS, desc)
                if d.params and p.I.load(C.cnt(OTHER)) != b:
                    C.J.bad("count", "the count of the other object changes (%s)" % desc)
    C.J.done()


def shared(ctx, P, q, n, d, base):
    C = Refs(ctx, P, "%s::%s%s" % (ESP, n, "" if not d.params else "(%s)" % C_name(d)), d, base)
    data = F(THIS, 'data', ESP)
    odata = F(OTHER, 'data', ESP)
    ctor = n == ESP.split("::")[1]
    if ctor and (not d.params or "external" in C_name(d)):
        return
    for x, y, ex in STATES:
        if ctor and x or not d.params and y:
            continue
        desc = words(x, y, ex, False)

        def body(I):
            ptrs = {} if ctor else {data: (CP, x)}
            if d.params:
                ptrs[OTHER if ctor else odata] = (CP, y)
            I.user["before"] = C.put(I, ptrs, ex)
            I.user["r"] = I.enter(d, THIS, [('&', OTHER)] if d.params else [])
            return 0
        for p in C.run(desc, body):
            I, r, b = p.I, p.I.user["r"], p.I.user["before"]
            after = {data: (CP, x)}
            if ctor:
                after = {data: (CP, y)}           # the argument is destroyed on return
            elif n == "unwrap":
                after = {}
            elif n == "get":
                l = where_of(r)
                if l is None:
                    C.J.open("value", "the result is not determined (%s)" % desc)
                    continue
                after[l] = (CP, x)
            elif n == "operator==":
                after[odata] = (CP, y)
                C.eq("the result", r, int(x == y), desc)
            else:
                C.J.open("value", "no rule for this function")
            C.check(p, b, after, ex, desc)
    C.J.done()


def jobs(ctx, P):
    out = []
    for cls in (CP, CCP):
        for q, M in sorted(insts(P, cls + "<drv::").items()):
            base = ACO if "aobj" in q else CO
            for n, ds in sorted(M.items()):
                for d in ds:
                    if n not in ("inc_reference", "dec_reference"):       # protected helpers
                        out.append((q + "::" + n, pointer, (ctx, P, q, n, d, base)))
    for base in (CO, ACO):
        for q, M in sorted(insts(P, base).items()):
            for n, ds in sorted(M.items()):
                for d in ds:
                    out.append((q + "::" + n, counted, (ctx, P, n, d, base)))
    for q, M in sorted(insts(P, ESP + "<").items()):
        for n, ds in sorted(M.items()):
            for d in ds:
                if n != "operator<<":
                    out.append((q + "::" + n, shared, (ctx, P, q, n, d, CO)))
    for d in P.defs.values():
        if d.rec is None and d.fn == "stxxl::swap" and len(d.params) == 2:
            t = d.tu.types[d.params[0][2]]
            while t["k"] in ("ref", "rref"):
                t = t["tu"].types[t["pt"]]
            if t["k"] == "rec" and t["ct"] in (CP, CCP):
                q = P.canon(t["tu"].recs[t["rid"]])["q"] if "rid" in t else ""
                out.append(("stxxl::swap", free_swap, (ctx, P, d, t["ct"], ACO if "aobj" in q else CO)))
    return out


def run(ctx):
    ctx.rule("count", "after an operation the count of every object is the number of pointers that designate it")
    ctx.rule("life", "an object is deleted exactly when its last reference goes, once, and never while it is referenced")
    ctx.rule("value", "every pointer designates what a plain pointer would, and observers return what they must")
    P = ctx.load([os.path.join(prog.HERE, "drivers", "refs.cpp")])
    ctx.fan(jobs(ctx, P))
