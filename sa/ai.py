"""Path-partitioned abstract interpreter over the typed program.

One concrete control path at a time is walked (trace partitioning by replayed
decisions); values are constants, affine combinations and uninterpreted terms
(value numbering); branch conditions are decided with interval facts over
affine keys and both ways when undetermined.  Repository functions are
analysed in place of their calls, everything else through models.
"""
import dom
from dom import (add, sub, mul, scale, isconst, c_eq, c_lt, c_not, Facts, is_ptr, Lin, parts, mk, _terms, tid,
                 tbounds, root, show, showloc)
from prog import AnalysisBroken, rel


def fround(x, ty):
    """A floating point constant in the precision of its type."""
    if ty.get("w") == 32:
        import struct
        x = struct.unpack("f", struct.pack("f", x))[0]
    return ('f', x)


def fconst(op, a, b, ty):
    try:
        if op in ("==", "<", "<=", ">", ">=", "!="):
            return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
        if op in ("+", "-", "*", "/"):
            return fround(a / b if op == "/" else {"+": a + b, "-": a - b, "*": a * b}[op], ty)
    except (ZeroDivisionError, OverflowError):
        pass
    return None


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class CppThrow(Exception):
    def __init__(self, cls, loc, tu, line, rec=None):
        self.cls = cls
        self.loc = loc
        self.line = line
        self.rec = rec


class Ev:
    __slots__ = ("k", "n", "o", "a", "r", "line", "file", "fn", "locks", "x", "node")

    def __init__(self, k, n, o=None, a=(), r=None, line=0, file="", fn="", locks=(), x=None, node=None):
        self.k, self.n, self.o, self.a, self.r = k, n, o, a, r
        self.line, self.file, self.fn, self.locks, self.x, self.node = line, file, fn, locks, x, node

    def where(self):
        return "%s:%d (%s)" % (rel(self.file), self.line, self.fn)

    def __repr__(self):
        return "%s %s o=%s a=%s r=%s @%s" % (self.k, self.n, showloc(self.o) if self.o else None,
                                               [show(x) for x in self.a], show(self.r), self.where())


class Frame:
    __slots__ = ("id", "fun", "tu", "this", "ret", "retloc", "rtype")


ACCESSORS = {"begin", "end", "rbegin", "rend", "front", "back", "operator[]", "at", "data", "c_str", "find",
             "lower_bound", "upper_bound", "equal_range", "count", "get", "top", "cbegin", "cend", "capacity",
             "operator*", "operator->", "base", "max_size", "str"}
SEQ = {"std::list", "std::vector", "std::deque", "std::set", "std::map", "std::multimap", "std::multiset",
       "std::queue", "std::stack", "std::priority_queue", "std::basic_string_none"}


class Config:
    """What a rule can adjust."""

    def __init__(self):
        self.models = {}            # qualified name -> handler(I, node, call)
        self.model_pred = []        # [(pred(fundict), handler)]
        self.no_inline = set()
        self.inline = None          # predicate(fundict) -> bool or None
        self.unroll = 2
        self.depth = 14
        self.recursion = 2          # frames of one function on the stack before a call is opaque
        self.max_paths = 4000
        self.may_throw = None       # f(fundict, node) -> [class names]
        self.havoc_wait = True
        self.havoc_lock = None      # predicate(loc)
        self.dyn = {}               # loc -> rec (dynamic type)
        self.dyn_hook = None        # f(I, loc, fundict) -> rec
        self.new_fails = False
        self.uninit = False
        self.array_ctor = False     # construct the elements of new T[n] for small n
        self.on_branch = None
        self.steps = 400000
        self.exact_narrow = False   # model signed narrowing conversions exactly


class Call:
    __slots__ = ("f", "obj", "args", "node", "I", "objtype")

    def arg(self, i):
        return self.I.eval(self.args[i])

    def argloc(self, i):
        return self.I.evloc(self.args[i])


class Path:
    __slots__ = ("out", "val", "exc", "trace", "store", "facts", "I", "why", "lockset", "choices")


class Interp:
    def __init__(self, prog, cfg=None):
        self.P = prog
        self.cfg = cfg or Config()
        self.cut_paths = 0
        self.unsupported = {}
        self.inlined = set()
        self.npaths = 0
        self.exhausted = False

    # ------------------------------------------------------------ driver
    def paths(self, fun, setup=None, args=None, this=None, body=None):
        """Runs every abstract path of fun.  setup(I) prepares the state; args: values or None (symbolic)."""
        forced = []
        n = 0
        while True:
            self.reset(forced)
            p = Path()
            p.I = self
            p.out = p.val = p.exc = p.why = None
            try:
                if setup:
                    setup(self)
                if body is not None:
                    p.val = body(self)
                else:
                    p.val = self.enter(fun, this, args)
                p.out = 'ret'
            except CppThrow as t:
                p.out = 'throw'
                p.exc = t
            except PathEnd as e:
                p.out = 'end'
                p.why = e.why
            except RecursionError:
                p.out = 'end'
                p.why = 'cut'
            p.trace = self.trace
            p.store = self.store
            p.facts = self.facts
            p.lockset = list(self.locks)
            p.choices = [x[2] for x in self.taken]
            if p.why == 'cut':
                self.cut_paths += 1
            n += 1
            self.npaths += 1
            if p.why != 'infeasible':
                yield p
            # next choice vector
            t = self.taken
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            forced = [x[0] for x in t]
            forced[-1] += 1
            if n >= self.cfg.max_paths:
                self.exhausted = True
                return

    def reset(self, forced):
        self.forced = forced
        self.taken = []
        self.trace = []
        self.store = {}
        self.facts = Facts()
        self.frames = []
        self.nframe = 0
        self.nfresh = 0
        self.nheap = 0
        self.locks = []
        self.havocs = []
        self.dyn = dict(self.cfg.dyn)
        self.tmpstack = [[]]
        self.built = set()
        self.steps = 0
        self.exc_stack = []
        self.loops = []
        self.cut_at = None
        self.freed = set()
        self.user = {}

    def enter(self, fun, this=None, args=None):
        vals = []
        tu = fun.tu
        frame = self.newframe(fun, this)
        for i, (vid, name, t) in enumerate(fun.params):
            loc = self.lvar(frame, vid, name)
            ty = tu.types[t]
            if args is not None and i < len(args) and args[i] is not None:
                self.store[loc] = ('alias', args[i][1]) if ty["k"] == "rec" and is_ptr(args[i]) else args[i]
            elif ty["k"] in ("ref", "rref"):
                o = ('O', name or "arg%d" % i)
                self.store[loc] = ('&', o)
                pt = tu.types[ty["pt"]]
            elif ty["k"] == "rec":
                self.store[loc] = ('s', name or "arg%d" % i)
            else:
                v = ('s', name or "arg%d" % i)
                self.bound(v, ty)
                self.store[loc] = v
        return self.runbody(fun, frame)

    def choose(self, n, tag=None):
        i = len(self.taken)
        if i > 400:
            raise PathEnd('cut')
        c = self.forced[i] if i < len(self.forced) else 0
        self.taken.append([c, n, tag])
        return c

    def fresh(self, name, ty=None, lo=None, hi=None):
        self.nfresh += 1
        v = ('s', "%s#%d" % (name, self.nfresh))
        if ty is not None:
            self.bound(v, ty)
        if lo is not None or hi is not None:
            tbounds[tid(v)] = (lo, hi)
        return v

    def bound(self, v, ty):
        if not isinstance(v, tuple):
            return
        k = ty["k"]
        if k == "bool":
            tbounds.setdefault(tid(v), (0, 1))
        elif k == "int" and not ty.get("sg"):
            tbounds.setdefault(tid(v), (0, None))
        elif k == "rec" and ty.get("ct", "").startswith("stxxl::uint_pair"):
            tbounds.setdefault(tid(v), (0, None))

    def newframe(self, fun, this):
        self.nframe += 1
        f = Frame()
        f.id = self.nframe
        f.fun = fun
        f.tu = fun.tu
        f.this = this
        f.retloc = None
        f.ret = None
        return f

    def lvar(self, frame, vid, name):
        return ('L', frame.id, vid, name)

    @property
    def fr(self):
        return self.frames[-1]

    def ty(self, node):
        return self.fr.tu.types[node["t"]]

    def T(self, i):
        return self.fr.tu.types[i]

    def ev(self, k, n, o=None, a=(), r=None, node=None, x=None):
        fr = self.frames[-1] if self.frames else None
        e = Ev(k, n, o, a, r, node.get("l", 0) if node else 0, fr.fun.file if fr else "",
               fr.fun.fn if fr else "", tuple(self.locks), x, node)
        self.trace.append(e)
        return e

    # ------------------------------------------------------------ memory
    def gen(self, loc):
        g = 0
        for p in self.havocs:
            if p(loc):
                g += 1
        return g

    def load(self, loc, ty=None):
        v = self.store.get(loc)
        if v is not None:
            return v
        if root(loc)[0] == 'L' and self.cfg.uninit:
            v = ('s', 'uninit:' + showloc(loc))
            self.store[loc] = v
            return v
        v = ('ld', loc, self.gen(loc))
        if ty is not None:
            self.bound(v, ty)
        return v

    def put(self, loc, v, node=None, kind='store'):
        old = self.store.get(loc)
        if old is None and loc[0] != 'L':
            old = ('ld', loc, self.gen(loc))
        self.store[loc] = v
        if loc[0] != 'L' and not (root(loc)[0] == 'T'):
            self.ev(kind, loc[2] if loc[0] == 'F' else '', loc, (v,), old, node)

    def field(self, loc, name, owner):
        return ('F', loc, name, owner)

    def deref(self, v):
        if is_ptr(v):
            return v[1]
        if isinstance(v, Lin):
            for t, k in v.ts:
                term = _terms[t]
                if k == 1 and is_ptr(term):
                    b, o = term[1], sub(v, term)
                    if b[0] == 'I' and isconst(b[2]) and isconst(o):     # another element of the same array
                        b, o = b[1], b[2] + o
                        return ('I', b, o) if o else b
                    return ('I', b, o)
            for t, k in v.ts:
                term = _terms[t]
                if k == 1 and len(term) and (term[0] in ('ld', 's', 'op')) and self.is_ptr_term(term, v):
                    return ('I', ('D', term), sub(v, term))
        return ('D', v)

    def is_ptr_term(self, term, v):
        # the pointer part of an affine address: the term flagged as pointer when loaded
        return term in self.ptrterms

    ptrterms = set()

    def addr(self, loc):
        if loc[0] == 'I':
            return add(self.addr(loc[1]), loc[2])
        if loc[0] == 'D':
            return loc[1]
        return ('&', loc)

    # ------------------------------------------------------------ conditions
    def truth(self, v, node=None):
        """Branches on v; returns a Python bool and records the fact."""
        c = self.as_cond(v)
        d = self.facts.decide(c)
        if d is None:
            d = self.choose(2, (node.get("l") if node else 0)) == 0
            if not self.facts.assume(c, d):
                raise PathEnd('infeasible')
        return d

    def as_cond(self, v):
        if isconst(v):
            return int(bool(v))
        if isinstance(v, tuple) and v and v[0] in ('eq', 'lt', 'not'):
            return v
        if is_ptr(v):
            return 1
        return c_not(c_eq(v, 0))

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        """Runs statements in a scope; destroys its locals on every exit."""
        scope = []
        self.scopes_push(scope)
        try:
            if not any(s is not None and s["k"] == "label" for s in stmts):
                for s in stmts:
                    self.stmt(s)
                return
            i, had, jumps = 0, {}, 0
            while i < len(stmts):
                had[i] = len(scope)
                try:
                    self.stmt(stmts[i])
                    i += 1
                except Goto as g:
                    to = [j for j, s in enumerate(stmts) if s is not None and s["k"] == "label" and s["n"] == g.label]
                    if not to:
                        raise
                    jumps += to[0] <= i
                    if jumps > 70:
                        raise PathEnd('cut')
                    while to[0] in had and len(scope) > had[to[0]]:
                        scope.pop()()
                    i = to[0]
        finally:
            self.scopes_pop(scope)

    def scopes_push(self, scope):
        self.scope_stack.append(scope)

    def scopes_pop(self, scope):
        import sys
        et = sys.exc_info()[0]
        self.scope_stack.pop()
        if et is not None and issubclass(et, PathEnd):
            return
        for d in reversed(scope):
            d()

    scope_stack = []

    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.cfg.steps:
            raise PathEnd('cut')
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s)
        # expression statement
        self.fullexpr(s)

    def fullexpr(self, e, f=None):
        self.tmpstack.append([])
        import sys
        try:
            return (f or self.eval)(e)
        finally:
            et = sys.exc_info()[0]
            ds = self.tmpstack.pop()
            if not (et is not None and issubclass(et, PathEnd)):
                for d in reversed(ds):
                    d()

    def s_blk(self, s):
        self.block(s["s"])

    def s_null_s(self, s):
        pass

    def s_decl(self, s):
        for d in s["d"]:
            self.vardecl(d)

    def vardecl(self, d):
        fr = self.fr
        ty = self.T(d["t"])
        if d.get("sl"):
            return
        loc = self.lvar(fr, d["id"], d["n"])
        for x in [x for x in self.store if x[0] in ('F', 'I') and root(x) == loc]:
            del self.store[x]
        self.store.pop(loc, None)
        i = d.get("i")
        if ty["k"] in ("ref", "rref"):
            self.ext_scope = self.scope_stack[-1]
            v = self.fullexpr(i, self.evref)
            self.store[loc] = ('&', v) if v[0] not in ('I', 'D') else ('&', v)
            return
        if ty["k"] in ("rec", "arr"):
            if i is not None:
                self.fullexpr(i, lambda e: self.eval_into(e, loc, ty))
            if "d" in d or ty["k"] == "arr":
                self.scope_stack[-1].append(lambda: self.destroy(loc, ty, d))
            return
        if i is not None:
            self.store[loc] = self.fullexpr(i)
        else:
            self.store[loc] = ('s', 'uninit:%s@%d' % (d["n"], d["l"]))

    def evref(self, e):
        """The location a reference binds to."""
        # lifetime extension: temporaries of the initialiser live as long as the scope
        x = e
        while x["k"] == "full":
            x = x["e"]
        if x["k"] == "mat" and x.get("ext"):
            loc = self.tmploc()
            y = x["e"]
            dt = None
            if y["k"] == "tmp":
                dt = y.get("d")
                y = y["e"]
            ty = self.ty(x)
            self.eval_into(y, loc, ty)
            if dt is not None:
                self.scope_stack[-1].append(lambda: self.destroy(loc, ty, {"d": dt}))
            return loc
        return self.evloc(x)

    def s_if(self, s):
        scope = []
        self.scopes_push(scope)
        try:
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.vardecl(s["cv"])
            if self.fullcond(s["e"]):
                self.stmt(s["x"])
            else:
                self.stmt(s["y"])
        finally:
            self.scopes_pop(scope)

    def fullcond(self, e):
        return self.truth(self.fullexpr(e), e)

    def loop(self, s, cond, body, inc, post=False):
        self.loops.append((self.fr.fun.key, s.get("l"), len(self.frames)))
        try:
            self.loop_(s, cond, body, inc, post)
        except PathEnd as e:
            raise
        finally:
            if self.cut_at is None:
                self.loops.pop()

    def loop_(self, s, cond, body, inc, post=False):
        n = 0
        K = self.cfg.unroll
        while True:
            if not (post and n == 0):
                before = len(self.taken)
                if cond is not None:
                    if not self.fullcond(cond):
                        return
                # a loop whose condition is decided by constants may run longer
                if len(self.taken) == before and cond is not None:
                    lim = 70
                else:
                    lim = K
                if n >= lim:
                    self.cut_at = list(self.loops)
                    raise PathEnd('cut')
            n += 1
            try:
                body()
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                self.fullexpr(inc)

    def s_while(self, s):
        def body():
            scope = []
            self.stmt(s["b"])
        self.loop(s, s["e"], body, None)

    def s_do(self, s):
        self.loop(s, s["e"], lambda: self.stmt(s["b"]), None, post=True)

    def s_for(self, s):
        scope = []
        self.scopes_push(scope)
        try:
            self.stmt(s["i"])
            self.loop(s, s["e"], lambda: self.stmt(s["b"]), s["n"])
        finally:
            self.scopes_pop(scope)

    def s_frange(self, s):
        scope = []
        self.scopes_push(scope)
        try:
            self.stmt(s["rg"])
            self.stmt(s["bg"])
            self.stmt(s["en"])

            def body():
                self.block([s["v"], s["b"]])
            self.loop(s, s["e"], body, s["n"])
        finally:
            self.scopes_pop(scope)

    def s_switch(self, s):
        v = self.fullexpr(s["e"])
        items = []

        def flat(st):
            if st is None:
                return
            if st["k"] == "case":
                items.append(("case", st["e"], st.get("e2")))
                flat(st["b"])
            elif st["k"] == "default":
                items.append(("default",))
                flat(st["b"])
            else:
                items.append(("stmt", st))
        b = s["b"]
        for st in (b["s"] if b["k"] == "blk" else [b]):
            flat(st)
        start = None
        dflt = None
        for i, it in enumerate(items):
            if it[0] == "default":
                dflt = i
            elif it[0] == "case" and start is None:
                c = self.eval(it[1])
                if self.truth(c_eq(v, c), s):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            self.block([it[1] for it in items[start:] if it[0] == "stmt"])
        except Break:
            pass

    def s_ret(self, s):
        fr = self.fr
        e = s["e"]
        if e is not None:
            rt = fr.tu.types[fr.fun.f["rt"]]
            if rt["k"] in ("ref", "rref"):
                fr.ret = ('&', self.fullexpr(e, self.evref))
            elif rt["k"] == "rec":
                if fr.retloc is None:
                    fr.retloc = self.tmploc()
                self.fullexpr(e, lambda x: self.eval_into(x, fr.retloc, rt))
                fr.ret = ('obj', fr.retloc)
            else:
                fr.ret = self.fullexpr(e)
        raise Return()

    def s_break(self, s):
        raise Break()

    def s_continue(self, s):
        raise Continue()

    def s_label(self, s):
        self.stmt(s["b"])

    def s_case(self, s):
        self.stmt(s["b"])

    s_default = s_case

    def s_goto(self, s):
        raise Goto(s["n"])

    def s_omp(self, s):
        self.stmt(s["b"])

    def s_unks(self, s):
        self.note_unsupported(s["cls"], s)

    def s_try(self, s):
        depth = len(self.scope_stack)
        tdepth = len(self.tmpstack)
        fdepth = len(self.frames)
        try:
            self.stmt(s["b"])
        except CppThrow as t:
            for h in s["h"]:
                if "t" not in h:
                    ok = True
                    loc = None
                else:
                    ok = self.catches(self.T(h["t"]), t)
                if ok:
                    if "t" in h:
                        self.store[self.lvar(self.fr, h["id"], "exc")] = ('&', t.loc) if self.T(h["t"])["k"] in ("ref", "rref") else ('obj', t.loc)
                    self.ev('catch', t.cls, node=h)
                    self.exc_stack.append(t)
                    try:
                        self.stmt(h["b"])
                    finally:
                        self.exc_stack.pop()
                    return
            raise

    def catches(self, ty, t):
        if ty["k"] in ("ref", "rref"):
            ty = ty["tu"].types[ty["pt"]]
        if ty["k"] != "rec":
            return False
        if ty["ct"] == t.cls:
            return True
        if t.rec is not None:
            return any(b["ct"] == ty["ct"] for b in self.P.all_bases(t.rec))
        return ty["ct"] in ("std::exception",)

    # ------------------------------------------------------------ objects
    def tmploc(self):
        self.nheap += 1
        return ('T', self.nheap)

    def note_unsupported(self, what, node):
        fr = self.frames[-1] if self.frames else None
        k = (what, fr.fun.fn if fr else "", node.get("l", 0))
        self.unsupported[k] = self.unsupported.get(k, 0) + 1

    def destroy(self, loc, ty, d=None):
        """Runs the destructor of the object at loc."""
        k = ty["k"]
        if k == "arr":
            et = ty["tu"].types[ty["pt"]]
            if et["k"] == "rec" and et.get("ntd"):
                for i in range(min(ty["n"], 4) - 1, -1, -1):
                    self.destroy(('I', loc, i), et)
            return
        if k != "rec" or not ty.get("ntd"):
            return
        rec = self.P.canon(ty["tu"].recs[ty["rid"]])
        self.run_dtor(loc, rec)

    def run_dtor(self, loc, rec, virtual_done=True):
        rec = self.P.canon(rec)
        f = rec["tu"].funs[rec["dt"]] if "dt" in rec else None
        h = self.find_model(f) if f else None
        if h:
            c = Call()
            c.f, c.obj, c.args, c.node, c.I, c.objtype = f, loc, [], {}, self, None
            r = h(self, c)
            if r is not NotImplemented:
                return
        if not rec.get("ir"):
            if rec["ct"] in SEQ or rec["ct"].startswith("std::"):
                self.ev('std_dtor', rec["ct"], loc)
            return
        if f is not None:
            d = self.P.defs.get(f["u"])
            self.ev('dtor', rec["ct"], loc)
            if d is not None:
                if not self.can_inline(d, f):
                    return
                fr = self.newframe(d, loc)
                fr.tu = d.tu
                self.runbody(d, fr)
        for n, fld in reversed([(r, x) for r, x in [(rec, x) for x in rec.get("fs", [])]]):
            ft = rec["tu"].types[fld["t"]]
            if ft["k"] == "rec" and ft.get("ntd") or ft["k"] == "arr":
                self.destroy(self.field(loc, fld["n"], rec["ct"]), ft)
        for b in reversed(self.P.bases(rec)):
            if "dt" in b:
                self.run_dtor(loc, b)

    def copy_obj(self, dst, src, ty, assign=False):
        """Memberwise copy."""
        if ty["k"] == "rec":
            rec = self.P.canon(ty["tu"].recs[ty["rid"]])
            self.copy_rec(dst, src, rec)
        else:
            self.put(dst, self.load(src, ty))

    def copy_rec(self, dst, src, rec):
        rec = self.P.canon(rec)
        if rec.get("ir") and rec.get("def"):
            v = self.store.get(src)
            if isinstance(v, tuple) and v and v[0] == 'seqit':      # an iterator of the repository that a model stands for
                self.store[dst] = v
                return
            for b in self.P.bases(rec):
                self.copy_rec(dst, src, b)
            for f in rec.get("fs", []):
                ft = rec["tu"].types[f["t"]]
                d, s = self.field(dst, f["n"], rec["ct"]), self.field(src, f["n"], rec["ct"])
                if ft["k"] == "rec":
                    self.copy_obj(d, s, ft)
                elif ft["k"] == "arr":
                    for i in range(min(ft["n"], 64)):
                        et = ft["tu"].types[ft["pt"]]
                        if et["k"] == "rec":
                            self.copy_obj(('I', d, i), ('I', s, i), et)
                        elif ('I', s, i) in self.store or d in self.store or ft["n"] <= 4:
                            self.store[('I', d, i)] = self.load(('I', s, i), et)
                elif ft["k"] in ("ref", "rref"):
                    self.store[d] = self.load(s)
                else:
                    self.put(d, self.load(s, ft))
            return
        sq = self.user.get("seq")
        if sq is not None and src in sq and dst != src:
            self.cfg.seqs.copystate(self, dst, src)
        v = self.load(src)
        self.put(dst, v)
        if rec["ct"] == "std::pair" and dst != src and getattr(self.cfg, "seqs", None) is not None:
            self.cfg.seqs.rekey(self, src, dst, keep=True)
        for k in ('size', 'ver'):
            if ('M', src, k) in self.store:
                self.store[('M', dst, k)] = self.store[('M', src, k)]
            elif k == 'size' and rec["ct"] in SEQ:
                self.store[('M', dst, k)] = self.size(src)
            else:
                self.store.pop(('M', dst, k), None)

    # modelled container size
    def size(self, loc):
        k = ('M', loc, 'size')
        if k not in self.store:
            v = ('ld', ('F', loc, '#size', ''), self.gen(loc))
            tbounds.setdefault(tid(v), (0, None))
            self.store[k] = v
        return self.store[k]

    def ver(self, loc):
        return self.store.get(('M', loc, 'ver'), self.gen(loc) * 1000)

    def bump(self, loc):
        self.store[('M', loc, 'ver')] = self.ver(loc) + 1

    def eval_into(self, e, loc, ty):
        """Initialises the object at loc from e."""
        k = e["k"]
        if k == "full":
            return self.eval_into(e["e"], loc, ty)
        if k in ("tmp", "mat"):
            return self.eval_into(e["e"], loc, ty)
        if ty["k"] == "rec":
            if k == "ctor":
                if e.get("el") and len(e["a"]) >= 1:
                    a = e["a"][0]
                    x = a
                    while x["k"] in ("mat", "tmp", "full"):
                        x = x["e"]
                    if x["k"] in ("ctor", "call", "cond", "il"):
                        return self.eval_into(x, loc, ty)
                return self.construct(e, loc, ty)
            if k == "call" or k == "icall":
                return self.call(e, loc)
            if k == "il":
                return self.initlist(e, loc, ty)
            if k == "zero":
                return self.zero(loc, ty)
            if k == "cond":
                if self.truth(self.eval(e["e"]), e):
                    return self.eval_into(e["x"], loc, ty)
                return self.eval_into(e["y"], loc, ty)
            if k == "cast":
                return self.eval_into(e["e"], loc, ty)
            if k == "lambda":
                self.store[loc] = ('lambda', e["fi"])
                return
            src = self.evloc(e)
            return self.copy_obj(loc, src, ty)
        if ty["k"] == "arr":
            if k == "il":
                et = ty["tu"].types[ty["pt"]]
                for i, a in enumerate(e["a"]):
                    self.eval_into(a, ('I', loc, i), et)
                for i in range(len(e["a"]), min(ty["n"], 64)):
                    if et["k"] != "rec":
                        self.store[('I', loc, i)] = 0
            elif k == "ctor":
                et = ty["tu"].types[ty["pt"]]
                for i in range(min(ty["n"], 4)):
                    self.construct(e, ('I', loc, i), et)
            elif k == "str":
                self.store[loc] = ('str', e["v"])
            return
        self.put(loc, self.eval(e), e, 'init')

    def zero(self, loc, ty):
        if ty["k"] == "rec":
            rec = self.P.canon(ty["tu"].recs[ty["rid"]])
            for ct, f, r in self.P.fields(rec):
                ft = r["tu"].types[f["t"]]
                l = self.field(loc, f["n"], ct)
                if ft["k"] in ("rec", "arr"):
                    self.zero(l, ft)
                else:
                    self.put(l, 0, None, 'init')
        elif ty["k"] == "arr":
            for i in range(min(ty["n"], 16)):
                self.zero(('I', loc, i), ty["tu"].types[ty["pt"]])
        else:
            self.put(loc, 0, None, 'init')

    def initlist(self, e, loc, ty):
        rec = self.P.canon(ty["tu"].recs[ty["rid"]])
        fl = [(rec["ct"], f, rec) for f in rec.get("fs", [])]
        for (ct, f, r), a in zip(fl, e["a"]):
            self.eval_into(a, self.field(loc, f["n"], ct), r["tu"].types[f["t"]])

    def construct(self, e, loc, ty):
        f = self.fr.tu.funs[e["fi"]]
        if ty["k"] == "rec" and loc[0] in ('H', 'T', 'L', 'F', 'I', 'D', 'O'):
            rec = self.P.canon(ty["tu"].recs[ty["rid"]])
            if rec.get("poly"):
                self.dyn.setdefault(loc, rec)
        if e.get("zi"):
            self.zero(loc, ty)
        self.ctor_call(f, e, loc, ty)

    def ctor_call(self, f, e, loc, ty):
        h = self.find_model(f)
        c = Call()
        c.f, c.obj, c.args, c.node, c.I, c.objtype = f, loc, e["a"], e, self, ty
        if h:
            r = h(self, c)
            if r is not NotImplemented:
                return
        d = self.P.defs.get(f["u"])
        if d is not None and self.can_inline(d, f):
            vals = self.bindargs(d, e["a"])
            fr = self.newframe(d, loc)
            self.setparams(fr, d, vals)
            self.ev('ctor', f["ct"], loc, (), None, e)
            self.runbody(d, fr)
            return
        if f.get("copy") or f.get("move"):
            if e["a"]:
                src = self.evloc(e["a"][0])
                rec = f["tu"].recs[f["rid"]]
                self.copy_rec(loc, src, rec)
                return
        ct = f.get("ct", "")
        if f.get("triv") and not e["a"]:
            return
        if ct in SEQ:
            as_ = [self.eval(a) for a in e["a"] if self.ty(a)["k"] != "rec" or not self.ty(a).get("ct", "").startswith("std::allocator")]
            self.store[('M', loc, 'ver')] = 0
            if not as_:
                self.store[('M', loc, 'size')] = 0
            elif len(e["a"]) >= 1 and self.ty(e["a"][0])["k"] in ("int",):
                self.store[('M', loc, 'size')] = as_[0]
            else:
                self.store[('M', loc, 'size')] = self.fresh('size', lo=0)
            self.store[loc] = ('s', 'obj:%s' % ct)
            self.ev('std_ctor', ct, loc, tuple(as_), None, e)
            return
        vals = tuple(self.argval(a) for a in e["a"])
        if ct == "std::basic_string" and vals and isinstance(vals[0], tuple) and vals[0][0] == 'str':
            self.store[loc] = vals[0]
            return
        if ct == "std::basic_string" and not vals:
            self.store[loc] = ('str', '')
            return
        if ct == "std::pair" and len(vals) == 2:
            for n, a in zip(("first", "second"), e["a"]):
                fl = self.field(loc, n, "std::pair")
                at = self.ty(a)
                if at["k"] == "rec":
                    self.copy_obj(fl, self.evloc(a), at)
                else:
                    self.store[fl] = self.eval(a) if not a.get("lv") else self.load(self.evloc(a), at)
            return
        self.ev('extctor', f["fn"], loc, vals, None, e)
        self.store[loc] = ('op', 'ctor:' + ct) + vals if vals else ('s', 'default:%s' % ct)
        for a, v in zip(e["a"], vals):
            self.havoc_arg(a, v)

    def bindargs(self, d, args):
        """Evaluates the arguments for the parameters of d."""
        out = []
        for i, a in enumerate(args):
            if i < len(d.params):
                pt = d.tu.types[d.params[i][2]]
                if pt["k"] in ("ref", "rref"):
                    out.append(('ref', self.evloc(a)))
                    continue
                if pt["k"] == "rec":
                    loc = self.tmploc()
                    self.eval_into(a, loc, pt)
                    out.append(('rec', loc, pt))
                    continue
            out.append(('val', self.eval(a)))
        return out

    def setparams(self, fr, d, vals):
        for (vid, name, t), v in zip(d.params, vals):
            loc = self.lvar(fr, vid, name)
            if v[0] == 'ref':
                self.store[loc] = ('&', v[1])
            elif v[0] == 'rec':
                # parameter object lives at the temporary
                self.store[loc] = ('alias', v[1])
            else:
                self.store[loc] = v[1]

    def runbody(self, d, fr):
        if len(self.frames) > self.cfg.depth:
            raise PathEnd('cut')
        self.inlined.add(d.key)
        self.frames.append(fr)
        saved = self.scope_stack
        savedtmp = self.tmpstack
        self.scope_stack = [[]]
        self.tmpstack = [[]]
        nlock = len(self.locks)
        try:
            if d.kind == "ctor":
                self.ctor_inits(d, fr)
            try:
                if d.body is not None:
                    self.stmt(d.body)
            except Return:
                pass
            except Goto:
                raise PathEnd('cut')
            rt = d.tu.types[d.f["rt"]]
            if fr.ret is None and rt["k"] not in ("void",) and d.kind not in ("ctor", "dtor"):
                return self.fresh("noret:" + d.n)
            return fr.ret
        finally:
            import sys
            et = sys.exc_info()[0]
            self.scope_stack = saved
            self.tmpstack = savedtmp
            if not (et is not None and issubclass(et, PathEnd)):
                # parameters passed by value are destroyed by the caller's full expression; done here
                for (vid, name, t) in d.params:
                    pt = d.tu.types[t]
                    if pt["k"] == "rec" and pt.get("ntd"):
                        l = self.store.get(self.lvar(fr, vid, name))
                        if isinstance(l, tuple) and l[0] == 'alias':
                            self.destroy(l[1], pt)
            self.frames.pop()

    def ctor_inits(self, d, fr):
        loc = fr.this
        rec = self.P.canon(d.rec)
        done = set()
        for i in d.inits:
            if i.get("dg"):
                self.fullexpr(i["e"], lambda e: self.eval_into(e, loc, self.T(i["e"]["t"])))
                return
            if "bs" in i:
                bt = self.T(i["bs"])
                brec = self.P.canon(bt["tu"].recs[bt["rid"]])
                virt = any(v and d.tu.recs[b]["u"] == brec["u"] for b, v in d.rec.get("bs", []))
                mark = (loc, brec["u"])
                if mark in self.built and (virt or self.is_vbase(brec)):
                    continue
                self.built.add(mark)
                self.fullexpr(i["e"], lambda e: self.eval_into(e, loc, bt))
            elif "m" in i:
                ft = self.T(i["mt"])
                fl = self.field(loc, i["m"], rec["ct"])
                done.add(i["m"])
                if ft["k"] in ("ref", "rref"):
                    self.store[fl] = ('&', self.fullexpr(i["e"], self.evloc))
                elif ft["k"] in ("rec", "arr"):
                    self.fullexpr(i["e"], lambda e: self.eval_into(e, fl, ft))
                else:
                    self.put(fl, self.fullexpr(i["e"]), i["e"], 'init')
        for f in rec.get("fs", []):
            if f["n"] not in done:
                ft = rec["tu"].types[f["t"]]
                if ft["k"] not in ("rec", "arr", "ref", "rref") and not f.get("ici"):
                    fl = self.field(loc, f["n"], rec["ct"])
                    if root(loc)[0] != 'D':
                        self.store[fl] = ('s', 'uninit:' + f["n"] + showloc(loc))

    def is_vbase(self, brec):
        v = getattr(self.P, "_vb", None)
        if v is None:
            v = set()
            for r in self.P.recs.values():
                for i, isv in r.get("bs", []):
                    if isv:
                        v.add(r["tu"].recs[i]["u"])
            self.P._vb = v
        return brec["u"] in v

    # ------------------------------------------------------------ lvalues
    def evloc(self, e):
        k = e["k"]
        m = getattr(self, "l_" + k, None)
        if m:
            return m(e)
        ty = self.ty(e)
        # a prvalue: materialise
        loc = self.tmploc()
        if ty["k"] in ("rec", "arr"):
            self.eval_into(e, loc, ty)
        else:
            self.store[loc] = self.eval(e)
        return loc

    def l_full(self, e):
        return self.evloc(e["e"])

    def l_mat(self, e):
        return self.evloc(e["e"])

    def l_tmp(self, e):
        loc = self.tmploc()
        ty = self.ty(e)
        self.eval_into(e["e"], loc, ty)
        self.tmpstack[-1].append(lambda: self.destroy(loc, ty))
        return loc

    def l_var(self, e):
        sc = e.get("sc")
        if sc in ("g", "sm", "sl"):
            loc = ('G', e["q"])
        else:
            loc = None
            # lambdas: look through the frames for captured variables
            for fr in reversed(self.frames):
                l = self.lvar(fr, e["id"], e["n"])
                if l in self.store or fr is self.frames[-1]:
                    if l in self.store:
                        loc = l
                        break
            if loc is None:
                loc = self.lvar(self.fr, e["id"], e["n"])
            v = self.store.get(loc)
            if isinstance(v, tuple) and v and v[0] == 'alias':
                return v[1]
            if isinstance(v, tuple) and v and v[0] == 'obj':
                return v[1]
        if e.get("r"):
            v = self.load(loc)
            if is_ptr(v):
                return v[1]
            return self.deref(v)
        return loc

    def l_mem(self, e):
        b = e["b"]
        if e.get("ar"):
            base = self.deref(self.eval(b))
        else:
            base = self.evloc(b)
        loc = self.field(base, e["n"], e["oc"])
        if e.get("r"):
            v = self.load(loc)
            return self.deref(v)
        return loc

    def l_un(self, e):
        op = e["op"]
        if op == "*":
            return self.deref(self.eval(e["e"]))
        if op in ("++", "--"):
            self.incdec(e)
            return self.evloc_pure(e["e"])
        if op == "__extension__":
            return self.evloc(e["e"])
        return self.temp_of(e)

    def evloc_pure(self, e):
        return self.last_loc

    def temp_of(self, e):
        loc = self.tmploc()
        self.store[loc] = self.eval(e)
        return loc

    def l_idx(self, e):
        b = self.eval(e["x"])
        i = self.eval(e["y"])
        return self.deref(add(b, i))

    def l_asg(self, e):
        self.eval(e)
        return self.last_loc

    def l_call(self, e):
        ty = self.ty(e)
        v = self.call(e)
        if e.get("lv"):
            if isinstance(v, tuple) and v and v[0] == 'obj':
                return v[1]
            return self.deref(v)
        if isinstance(v, tuple) and v and v[0] == 'obj':
            return v[1]
        loc = self.tmploc()
        self.store[loc] = v
        return loc

    l_icall = l_call

    def l_cond(self, e):
        if e.get("lv") or self.ty(e)["k"] == "rec":
            if self.truth(self.eval(e["e"]), e):
                return self.evloc(e["x"])
            return self.evloc(e["y"])
        return self.temp_of(e)

    def l_cast(self, e):
        if e["e"].get("lv") and e.get("lv"):
            if e.get("ck") == "Dynamic":
                return self.evloc(e["e"])
            return self.evloc(e["e"])
        if self.ty(e)["k"] == "rec":
            return self.evloc(e["e"])
        return self.temp_of(e)

    def l_bin(self, e):
        if e["op"] == ",":
            self.eval(e["x"])
            return self.evloc(e["y"])
        return self.temp_of(e)

    def l_str(self, e):
        return ('G', 'str:' + e["v"])

    def l_this(self, e):
        return self.temp_of(e)

    # ------------------------------------------------------------ rvalues
    def eval(self, e):
        if e is None:
            return 0
        m = getattr(self, "e_" + e["k"], None)
        if m:
            return m(e)
        self.note_unsupported(e["k"] + ":" + e.get("cls", ""), e)
        for c in e.get("c", []):
            self.eval(c)
        return self.fresh("unk", self.ty(e) if "t" in e else None)

    def e_full(self, e):
        return self.eval(e["e"])

    def e_mat(self, e):
        return ('obj', self.evloc(e)) if self.ty(e)["k"] == "rec" else self.eval(e["e"])

    def e_tmp(self, e):
        return ('obj', self.l_tmp(e))

    def e_int(self, e):
        return e["v"]

    def e_float(self, e):
        try:
            return ('f', float(e["v"]))
        except ValueError:
            return ('f', e["v"])

    def e_str(self, e):
        return ('str', e["v"])

    def e_null(self, e):
        return 0

    def e_nop(self, e):
        return 0

    def e_zero(self, e):
        return self.rec_or(e, lambda: 0)

    def e_this(self, e):
        return self.addr(self.fr.this)

    def e_fref(self, e):
        f = self.fr.tu.funs[e["fi"]]
        return ('fn', f["fn"], f["u"])

    def e_var(self, e):
        ty = self.ty(e)
        loc = self.l_var(e)
        if ty["k"] == "rec":
            return ('obj', loc)
        return self.load(loc, ty)

    def e_ld(self, e):
        ty = self.ty(e)
        x = e["e"]
        loc = self.evloc(x)
        if loc[0] == 'G':
            return self.load_global(loc, ty)
        v = self.load(loc, ty)
        if ty["k"] == "ptr" and isinstance(v, tuple):
            self.ptrterms.add(v)
        if loc[0] != 'L' and root(loc)[0] not in ('T',):
            self.ev('load', loc[2] if loc[0] == 'F' else '', loc, (), v, e)
        return v

    def load_global(self, loc, ty):
        v = self.store.get(loc)
        if v is not None:
            return v
        g = self.P.globals.get(loc[1])
        if g is not None and "i" in g and g["tu"].types[g["t"]].get("c") and g["i"]["k"] == "int":
            return g["i"]["v"]
        return self.load(loc, ty)

    def e_mem(self, e):
        ty = self.ty(e)
        loc = self.l_mem(e)
        if ty["k"] == "rec":
            return ('obj', loc)
        if ty["k"] == "arr":
            return ('obj', loc)
        return self.load(loc, ty)

    def e_mref(self, e):
        return self.fresh("mref")

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "fref":
                return self.eval(e["e"])
            return self.addr(self.evloc(e["e"]))
        if op == "*":
            ty = self.ty(e)
            loc = self.deref(self.eval(e["e"]))
            return ('obj', loc) if ty["k"] == "rec" else self.load(loc, ty)
        if op in ("++", "--", "p++", "p--"):
            return self.incdec(e)
        v = self.eval(e["e"])
        if op == "!":
            return c_not(self.as_cond(v))
        if op == "-":
            return scale(self.num(v), -1) if self.isnum(v) else ('op', 'neg', v)
        if op == "+":
            return v
        if op == "~":
            if isconst(v):
                ty = self.ty(e)
                r = ~v
                return r if ty.get("sg") else r & ((1 << ty["w"]) - 1)
            return ('op', '~', v)
        if op == "__extension__":
            return v
        return ('op', op, v)

    def num(self, v):
        return v

    def isnum(self, v):
        return not (isinstance(v, tuple) and v and v[0] in ('f', 'obj', 'str'))

    def incdec(self, e):
        loc = self.evloc(e["e"])
        ty = self.ty(e["e"])
        old = self.load(loc, ty)
        if ty["k"] == "ptr" and isinstance(old, tuple):
            self.ptrterms.add(old)
        d = 1 if "+" in e["op"] else -1
        new = add(old, d) if self.isnum(old) else ('op', e["op"], old)
        if isconst(new) and ty["k"] == "int" and ty["w"] < 32:
            new = self.wrap(new, ty)
        if loc[0] != 'L':
            self.ev('load', loc[2] if loc[0] == 'F' else '', loc, (), old, e)
        self.put(loc, new, e)
        self.last_loc = loc
        return old if e["op"].startswith("p") else new

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            c = self.as_cond(self.eval(e["x"]))
            if not self.truth(c, e):
                return 0
            return int(self.truth(self.eval(e["y"]), e))
        if op == "||":
            c = self.as_cond(self.eval(e["x"]))
            if self.truth(c, e):
                return 1
            return int(self.truth(self.eval(e["y"]), e))
        if op == ",":
            self.eval(e["x"])
            return self.eval(e["y"])
        a = self.eval(e["x"])
        b = self.eval(e["y"])
        return self.arith(op, a, b, self.ty(e), self.ty(e["x"]))

    def cond_to_int(self, v):
        return v

    def arith(self, op, a, b, ty, xt=None):
        fa = isinstance(a, tuple) and a and a[0] == 'f'
        fb = isinstance(b, tuple) and b and b[0] == 'f'
        if fa or fb or (xt is not None and xt["k"] == "float") or ty["k"] == "float":
            if fa and fb:
                r = fconst(op, a[1], b[1], ty)
                if r is not None:
                    return r
            if op in ("==", "<", "<=", ">", ">=", "!="):
                r = ('op', 'f' + op, a, b)
                return c_not(c_eq(r, 0))
            return ('op', 'f' + op, a, b)
        for x in (a, b):
            if isinstance(x, tuple) and x and x[0] == 'obj':
                return self.fresh("objarith", ty)
        if op == "==":
            return self.eqv(a, b)
        if op == "!=":
            return c_not(self.eqv(a, b))
        if op == "<":
            return c_lt(a, b)
        if op == ">":
            return c_lt(b, a)
        if op == "<=":
            return c_not(c_lt(b, a))
        if op == ">=":
            return c_not(c_lt(a, b))
        if op == "+":
            return self.wrap(add(a, b), ty)
        if op == "-":
            return self.wrap(sub(a, b), ty)
        if op == "*":
            return self.wrap(mul(a, b), ty)
        if isconst(a) and isconst(b):
            a, b = int(a), int(b)
            try:
                if op == "/":
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                if op == "%":
                    r = abs(a) % abs(b)
                    return r if a >= 0 else -r
                if op == "<<":
                    return self.wrap(a << b, ty)
                if op == ">>":
                    return a >> b
                if op == "&":
                    return a & b
                if op == "|":
                    return a | b
                if op == "^":
                    return a ^ b
            except (ZeroDivisionError, ValueError):
                raise PathEnd('infeasible')
        if op == "<<" and isconst(b):
            return mul(a, 1 << int(b))
        if op == ">>" and isconst(b) and not (xt or ty).get("sg"):
            return self.div(a, 1 << int(b))
        if op == "/" and isconst(b) and b > 0:
            return self.div(a, int(b))
        if op == "%" and isconst(b) and b > 0:
            return self.mod(a, int(b))
        if op in ("&", "|"):
            for x, y in ((a, b), (b, a)):
                if isconst(y) and isinstance(x, tuple) and x and x[0] in ('&', 'tag'):
                    # flags in the low bits of an aligned pointer
                    pt, tag = (x[1], x[2]) if x[0] == 'tag' else (x, 0)
                    y = int(y) % (1 << 64)
                    if op == "&" and y < 8:
                        return tag & y
                    if op == "&" and y >= (1 << 64) - 8:
                        tag &= y & 7
                        return ('tag', pt, tag) if tag else pt
                    if op == "|" and y < 8:
                        tag |= y
                        return ('tag', pt, tag) if tag else pt
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if isconst(y) and isinstance(x, tuple) and x and x[:2] == ('op', '&'):
                    # (v & c) & y
                    for v, c in ((x[2], x[3]), (x[3], x[2])):
                        if isconst(c):
                            m = int(c) & int(y)
                            return 0 if m == 0 else x if m == int(c) else self.norm_and(v, m, ty)
                if isconst(y) and isinstance(x, tuple) and x and x[:2] == ('op', '|') and any(isinstance(v, tuple) and v and v[0] in ('&', 'tag') for v in x[2:]):
                    # (v | w) & y
                    return self.arith("|", self.arith("&", x[2], y, ty, xt), self.arith("&", x[3], y, ty, xt), ty, xt)
                if isconst(y) and y >= 0 and (int(y) & (int(y) + 1)) == 0 and not ((xt or ty).get("sg")):
                    return self.mod(x, int(y) + 1)
                if isconst(y) and y == 0:
                    return 0
        if op in ("|", "^"):
            if isconst(a) and a == 0:
                return b
            if isconst(b) and b == 0:
                return a
        if op in ("&", "|", "^"):
            x, y = sorted([a, b], key=repr)
            r = ('op', op, x, y)
        else:
            r = ('op', op, a, b)
        self.bound(r, ty)
        return r

    def norm_and(self, v, m, ty):
        x, y = sorted([v, m], key=repr)
        r = ('op', '&', x, y)
        self.bound(r, ty)
        return r

    def eqv(self, a, b):
        sa = isinstance(a, tuple) and a and a[0] in ('str', 'fn')
        sb = isinstance(b, tuple) and b and b[0] in ('str', 'fn')
        if sa and sb:
            return int(a == b)
        if (sa and isconst(b)) or (sb and isconst(a)):
            return 0
        return c_eq(a, b)

    def div(self, a, k):
        c, d = parts(a)
        if k == 1:
            return a
        q = {t: v // k for t, v in d.items() if v % k == 0}
        r = {t: v for t, v in d.items() if v % k != 0}
        cq, cr = divmod(c, k)
        if not r:
            return mk(cq, q)
        rem = mk(cr, r)
        lo, hi = self.facts.bounds(rem)
        if lo is not None and lo >= 0 and hi is not None and hi < k:
            return mk(cq, q)
        if q or cq:
            # only valid when the rest stays non-negative; keep whole
            lo2, _ = self.facts.bounds(rem)
            if lo2 is not None and lo2 >= 0:
                t = ('op', '/', rem, k)
                tbounds.setdefault(tid(t), (0, None))
                return add(mk(cq, q), t)
        t = ('op', '/', a, k)
        lo, hi = self.facts.bounds(a)
        if lo is not None and lo >= 0:
            tbounds.setdefault(tid(t), (0, None))
        return t

    def mod(self, a, k):
        c, d = parts(a)
        r = {t: v for t, v in d.items() if v % k != 0}
        rem = mk(c % k, r)
        if isconst(rem):
            return rem % k
        lo, hi = self.facts.bounds(rem)
        if lo is not None and lo >= 0 and hi is not None and hi < k:
            return rem
        t = ('op', '%', rem, k)
        tbounds.setdefault(tid(t), (0, k - 1))
        return t

    def wrap(self, v, ty):
        if isconst(v) and ty["k"] == "int":
            w = ty["w"]
            v = int(v)
            if ty.get("sg"):
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                    v = (v + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            else:
                # small negative results of unsigned subtraction stay symbolic only through constants
                if v < 0 or v >= (1 << w):
                    v %= (1 << w)
        return v

    def e_asg(self, e):
        op = e["op"]
        ty = self.ty(e["x"])
        if ty["k"] == "rec":
            # built-in assignment of a trivial class
            dst = self.evloc(e["x"])
            src = self.evloc(e["y"])
            self.copy_obj(dst, src, ty)
            self.last_loc = dst
            return ('obj', dst)
        if op == "=":
            v = self.eval(e["y"])
            loc = self.evloc(e["x"])
        else:
            v = self.eval(e["y"])
            loc = self.evloc(e["x"])
            old = self.load(loc, ty)
            if ty["k"] == "ptr" and isinstance(old, tuple):
                self.ptrterms.add(old)
            if loc[0] != 'L':
                self.ev('load', loc[2] if loc[0] == 'F' else '', loc, (), old, e)
            v = self.arith(op[:-1], old, v, ty, ty)
        self.put(loc, v, e)
        self.last_loc = loc
        return v

    def e_cond(self, e):
        if self.truth(self.eval(e["e"]), e):
            return self.eval(e["x"])
        return self.eval(e["y"])

    def e_idx(self, e):
        loc = self.l_idx(e)
        ty = self.ty(e)
        return ('obj', loc) if ty["k"] == "rec" else self.load(loc, ty)

    def e_cast(self, e):
        ck = e["ck"]
        x = e["e"]
        if ck == "ArrayToPointerDecay":
            if x["k"] == "str":
                return ('str', x["v"])
            return self.addr(self.evloc(x))
        if ck == "NullToPointer":
            self.eval(x)
            return 0
        ty = self.ty(e)
        if ty["k"] == "rec":
            return ('obj', self.evloc(x))
        v = self.eval(x)
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            c = self.as_cond(v)
            return c
        if ck == "IntegralCast":
            xt = self.ty(x)
            if isconst(v):
                return self.wrap(int(v), ty) if ty["k"] == "int" else v
            if isinstance(v, tuple) and v and v[0] in ('eq', 'lt', 'not'):
                return int(self.truth(v, e))
            if ty["k"] == "int" and xt["k"] == "int" and ty["w"] < xt["w"]:
                lo, hi = self.facts.bounds(v)
                if lo is not None and hi is not None and lo >= 0 and hi < (1 << (ty["w"] - (1 if ty.get("sg") else 0))):
                    return v
                if ty.get("sg"):
                    if self.cfg.exact_narrow:
                        return ('op', 'sx', v, ty["w"])
                    return v        # narrowing of a count to int: assumed in range
                return self.mod(v, 1 << ty["w"]) if not self.assume_narrow(ty, xt) else v
            return v
        if ck == "IntegralToFloating":
            if isconst(v):
                return fround(float(int(v)), ty)
            return ('op', 'float', v)
        if ck == "FloatingCast" and isinstance(v, tuple) and v and v[0] == 'f':
            return fround(v[1], ty)
        if ck == "FloatingToIntegral":
            if isinstance(v, tuple) and v and v[0] == 'f' and abs(v[1]) < 2.0 ** 64 and v[1] == v[1]:
                return self.wrap(int(v[1]), ty)
            r = ('op', 'int', v)
            self.bound(r, ty)
            return r
        if ck == "Dynamic":
            return self.dyncast(e, v, ty)
        if ck == "ToVoid":
            return 0
        return v

    def assume_narrow(self, ty, xt):
        return False

    def dyncast(self, e, v, ty):
        if ty["k"] != "ptr":
            return v
        pt = ty["tu"].types[ty["pt"]]
        if is_ptr(v) and v[1] in self.dyn and pt["k"] == "rec":
            if self.P.derived_from(self.dyn[v[1]], pt["ct"]):
                return v
            return 0
        return v

    def rec_or(self, e, f):
        ty = self.ty(e)
        if ty["k"] == "rec":
            loc = self.tmploc()
            self.eval_into(e, loc, ty)
            return ('obj', loc)
        return f()

    def e_ctor(self, e):
        loc = self.tmploc()
        self.eval_into(e, loc, self.ty(e))
        return ('obj', loc)

    def e_il(self, e):
        ty = self.ty(e)
        if ty["k"] in ("rec", "arr"):
            return self.rec_or(e, lambda: 0)
        return self.eval(e["a"][0]) if e["a"] else 0

    def e_lambda(self, e):
        loc = self.tmploc()
        self.store[loc] = ('lambda', e["fi"])
        return ('obj', loc)

    def e_typeid(self, e):
        return self.fresh("typeid")

    def e_atomic(self, e):
        for c in e["c"]:
            self.eval(c)
        return self.fresh("atomic", self.ty(e))

    def e_throw(self, e):
        if e["e"] is None:
            if self.exc_stack:
                t = self.exc_stack[-1]
                self.ev('rethrow', t.cls, node=e)
                raise CppThrow(t.cls, t.loc, None, e["l"], t.rec)
            raise CppThrow("?", None, None, e["l"])
        x = e["e"]
        ty = self.ty(x)
        loc = ('T', 'exc%d' % self.nheap)
        self.nheap += 1
        if ty["k"] == "rec":
            self.fullexpr(x, lambda y: self.eval_into(y, loc, ty))
            cls = ty["ct"]
            rec = self.P.canon(ty["tu"].recs[ty["rid"]])
        else:
            self.store[loc] = self.eval(x)
            cls, rec = ty["s"], None
        self.ev('throw', cls, loc, node=e)
        raise CppThrow(cls, loc, None, e["l"], rec)

    def e_new(self, e):
        at = self.T(e["at"])
        pl = e.get("pl")
        on = self.fr.tu.funs[e["on"]]["fn"] if "on" in e else ""
        if pl:
            v = self.eval(pl[0])
            if isinstance(v, tuple) and v and v[0] == 'obj':     # nothrow etc.
                pl = None
            else:
                loc = self.deref(v)
        if "n" in e:
            n = self.eval(e["n"])
            if not pl:
                self.nheap += 1
                loc = ('H', self.nheap)
            self.ev('new[]', at["s"], loc, (n,), None, e, x=on)
            if "i" in e and at["k"] == "rec" and e["i"]["k"] == "ctor":
                f = self.fr.tu.funs[e["i"]["fi"]]
                self.user.setdefault("arrctor", []).append((loc, f))
                if self.cfg.array_ctor and isconst(n) and n <= 16:
                    for i in range(n):
                        self.construct(e["i"], ('I', loc, i) if i else loc, at)
            return self.addr(loc)
        if not pl:
            self.nheap += 1
            loc = ('H', self.nheap)
            self.ev('new', at.get("ct", at["s"]), loc, (), None, e, x=on)
        else:
            self.ev('pnew', at.get("ct", at["s"]), loc, (), None, e)
        if "i" in e and e["i"] is not None:
            if at["k"] == "rec":
                self.eval_into(e["i"], loc, at)
            else:
                self.store[loc] = self.eval(e["i"]) if e["i"]["k"] != "il" or e["i"]["a"] else 0
        return self.addr(loc)

    def e_delete(self, e):
        v = self.eval(e["e"])
        c = c_eq(v, 0)
        if self.facts.decide(c) is True:
            return 0
        loc = self.deref(v)
        if not e.get("arr") and "dt" in e:
            dt = self.T(e["dt"])
            if dt["k"] == "rec":
                if self.facts.decide(c) is None:
                    if self.truth(c, e):
                        return 0
                rec = self.P.canon(dt["tu"].recs[dt["rid"]])
                rec = self.dyn.get(loc, rec)
                self.ev('delete', rec["ct"], loc, (v,), None, e)
                self.run_dtor(loc, rec)
                self.freed.add(loc)
                self.ev('freed', rec["ct"], loc, (v,), None, e)
                return 0
        self.ev('delete[]' if e.get("arr") else 'delete', self.T(e["dt"])["s"] if "dt" in e else "", loc, (v,), None, e)
        self.freed.add(loc)
        return 0

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        ty = self.ty(e)
        if ty["k"] == "rec" and not e.get("lv"):
            loc = self.tmploc()
            self.call(e, loc)
            return ('obj', loc)
        v = self.call(e)
        if e.get("lv"):
            if isinstance(v, tuple) and v and v[0] == 'obj':
                loc = v[1]
            else:
                loc = self.deref(v)
            return ('obj', loc) if ty["k"] == "rec" else self.load(loc, ty)
        return v

    def e_icall(self, e):
        return self.call(e)

    def find_model(self, f):
        h = self.cfg.models.get(f["fn"])
        if h:
            return h
        for p, h in self.cfg.model_pred:
            if p(f):
                return h
        return MODELS.get(f["fn"])

    def can_inline(self, d, f):
        if f["fn"] in self.cfg.no_inline:
            return False
        if self.cfg.inline is not None:
            r = self.cfg.inline(f)
            if r is not None and not r:
                return False
        if sum(1 for x in self.frames if x.fun is d) >= self.cfg.recursion:
            return False
        return True

    def argval(self, a):
        """The value of an argument for an uninterpreted call."""
        ty = self.ty(a)
        if ty["k"] == "rec":
            loc = self.evloc(a)
            return ('obj', loc)
        if a.get("lv"):
            return ('&', self.evloc(a))
        return self.eval(a)

    def call(self, e, into=None):
        if e["k"] == "icall":
            return self.icall(e, into)
        f = self.fr.tu.funs[e["fi"]]
        obj = None
        if "o" in e:
            if e.get("ar"):
                obj = self.deref(self.eval(e["o"]))
            else:
                obj = self.evloc(e["o"])
            # virtual dispatch
            if e.get("virt"):
                rec = self.dyn.get(obj)
                if rec is None and self.cfg.dyn_hook:
                    rec = self.cfg.dyn_hook(self, obj, f)
                if rec is not None:
                    f = self.P.resolve_virtual(rec, f)
        c = Call()
        c.f, c.obj, c.args, c.node, c.I = f, obj, e["a"], e, self
        c.objtype = None
        h = self.find_model(f)
        if h:
            r = h(self, c)
            if r is not NotImplemented:
                if into is not None:
                    if isinstance(r, tuple) and r and r[0] == 'obj':
                        self.move_rec(into, r[1], self.ty(e))
                    else:
                        self.store[into] = r
                return r
        d = self.P.defs.get(f["u"])
        virt_unknown = e.get("virt") and obj is not None and f.get("vi") and (
            obj not in self.dyn and (self.cfg.dyn_hook is None or self.cfg.dyn_hook(self, obj, f) is None))
        if f["k"] == "dtor":
            rec = f["tu"].recs[f["rid"]]
            self.run_dtor(obj, self.dyn.get(obj, rec) if e.get("virt") else rec)
            return 0
        if d is not None and not virt_unknown and self.can_inline(d, f):
            vals = self.bindargs(d, e["a"])
            fr = self.newframe(d, obj)
            self.setparams(fr, d, vals)
            fr.retloc = into
            self.ev('enter', f["fn"], obj, tuple(v[1] if v[0] == 'val' else ('&', v[1]) for v in vals), None, e)
            try:
                r = self.runbody(d, fr)
            finally:
                self.ev('leave', f["fn"], obj, (), None, e)
            return r
        return self.extern(c, into)

    def move_rec(self, dst, src, ty):
        if dst == src:
            return
        self.copy_obj(dst, src, ty)

    def icall(self, e, into=None):
        v = self.eval(e["e"])
        if isinstance(v, tuple) and v and v[0] == 'fn':
            d = self.P.defs.get(v[2])
            if d is not None and self.can_inline(d, d.f):
                vals = self.bindargs(d, e["a"])
                fr = self.newframe(d, None)
                self.setparams(fr, d, vals)
                fr.retloc = into
                return self.runbody(d, fr)
        args = tuple(self.argval(a) for a in e["a"])
        r = self.fresh("icall", self.ty(e))
        self.ev('icall', show(v), None, args, r, e)
        if into is not None:
            self.store[into] = r
        return r

    def havoc_arg(self, a, v):
        """A non-const reference/pointer argument of an uninterpreted function may be written."""

    def throw_ext(self, cls, node):
        loc = ('T', 'exc%d' % self.nheap)
        self.nheap += 1
        rec = None
        rs = self.P.recs_by_ct.get(cls)
        if rs:
            rec = rs[0]
        self.ev('throw_ext', cls, loc, node=node)
        raise CppThrow(cls, loc, None, node.get("l", 0), rec)

    def extern(self, c, into=None):
        f, e = c.f, c.node
        if f.get("nr"):
            self.ev('noreturn', f["fn"], None, (), None, e)
            raise PathEnd('abort')
        n, fn = f["n"], f["fn"]
        ty = self.ty(e)
        if fn.startswith("std::") or fn.startswith("__gnu") or fn.startswith("operator"):
            r = self.std_call(c, ty, into)
            if r is not NotImplemented:
                return r
        # implicit (trivial) assignment
        if n == "operator=" and c.obj is not None and len(c.args) == 1 and (f.get("copy") or f.get("move")) and (
                f.get("imp") or f.get("triv") or f.get("dfd")):
            src = self.evloc(c.args[0])
            self.copy_rec(c.obj, src, f["tu"].recs[f["rid"]])
            return ('&', c.obj)
        vals = tuple(self.argval(a) for a in c.args)
        if self.cfg.may_throw:
            for cls in self.cfg.may_throw(f, c) or ():
                if self.choose(2, ("throws", cls, e.get("l"))) == 1:
                    self.ev('call', fn, c.obj, vals, None, e, x='threw')
                    self.throw_ext(cls, e)
        if into is not None:
            loc = into
        r = self.fresh(n, ty)
        if ty["k"] in ("ptr",):
            self.ptrterms.add(r)
        self.ev('call', fn, c.obj, vals, r, e)
        # out-parameters
        for a, v in zip(c.args, vals):
            self.clobber(a, v, f)
        if ty["k"] == "rec" and not e.get("lv"):
            if into is None:
                into = self.tmploc()
            for x in [x for x in self.store if root(x) == into and x != into]:
                del self.store[x]
            self.store[into] = r
            return ('obj', into)
        return r

    def clobber(self, a, v, f):
        """Locals whose address is passed to an uninterpreted function become unknown."""
        if is_ptr(v):
            t = self.ty(a)
            if t["k"] == "ptr":
                pt = t["tu"].types[t["pt"]]
                if pt.get("c"):
                    return
            if a.get("lv") and t.get("c"):
                return
            loc = v[1]
            for x in [x for x in self.store if x == loc or (x[0] in ('F', 'I') and self.under(x, loc))]:
                del self.store[x]
            if loc[0] in ('L', 'T', 'H'):
                self.store[loc] = self.fresh("out")

    def under(self, x, loc):
        while True:
            if x == loc:
                return True
            if x[0] in ('F', 'I'):
                x = x[1]
            else:
                return False

    # values of opaque library objects
    def objterm(self, loc):
        v = self.store.get(loc)
        if v is None:
            v = ('ld', loc, self.gen(loc))
        k = self.ver(loc)
        return ('v', v, k) if k else v

    def valterm(self, v, a):
        """The contents behind an argument value."""
        if isinstance(v, tuple) and v and v[0] == 'obj':
            return self.objterm(v[1])
        if a.get("lv") and is_ptr(v):
            return self.load(v[1], self.ty(a))
        return v

    def argterm(self, a):
        ty = self.ty(a)
        if ty["k"] == "rec":
            return self.objterm(self.evloc(a))
        if a.get("lv"):
            loc = self.evloc(a)
            return self.load(loc, ty)
        return self.eval(a)

    def std_call(self, c, ty, into):
        f, e = c.f, c.node
        n = f["n"]
        ct = f.get("ct")
        m = None
        if ct in SEQ:
            r = self.seq_call(c, ty, into)
            if r is not NotImplemented:
                return r
        fn = f["fn"]
        if c.obj is not None:
            if n in ("operator++", "operator--"):
                old = self.objterm(c.obj)
                new = ('op', n, old)
                inv = "operator--" if n == "operator++" else "operator++"
                if isinstance(old, tuple) and old[:2] == ('op', inv) and len(old) == 3:
                    new = old[2]
                self.store[c.obj] = new
                self.store.pop(('M', c.obj, 'ver'), None)
                if c.args:      # postfix
                    return self.result(old, ty, into, e)
                return ('&', c.obj)
            if n == "operator=" and len(c.args) == 1:
                if self.ty(c.args[0])["k"] == "rec":
                    src = self.evloc(c.args[0])
                    if (f.get("copy") or f.get("move")):
                        self.copy_rec(c.obj, src, f["tu"].recs[f["rid"]])
                    else:
                        self.store[c.obj] = self.objterm(src)
                else:
                    self.store[c.obj] = self.eval(c.args[0])
                self.ev('stdasg', ct, c.obj, (), None, e)
                return ('&', c.obj)
            o = self.objterm(c.obj)
            args = tuple(self.argterm(a) for a in c.args)
            if n == "operator*" or n == "operator->":
                if isinstance(o, tuple) and o and o[0] == 'iter':
                    l = o[1]
                elif is_ptr(o) or (isinstance(o, Lin)) or (isinstance(o, tuple) and o in self.ptrterms):
                    l = self.deref(o)
                else:
                    l = ('D', ('op', '*', o))
                return ('&', l)
            const = f.get("cst") or n in ACCESSORS
            if not const:
                self.ev('std', fn, c.obj, args, None, e)
                self.bump(c.obj)
            elif root(c.obj)[0] not in ('L', 'T'):
                self.ev('acc', fn, c.obj, args, None, e)
            t = ('op', fn, o) + args
            return self.result(t, ty, into, e)
        if f.get("oo") in ("==", "!=") and len(c.args) == 2:
            a, b = (self.argterm(x) for x in c.args)
            r = self.eqv(a, b)
            return c_not(r) if f["oo"] == "!=" else r
        if n in ("operator new", "operator delete"):
            return NotImplemented
        if n in ("operator<<", "operator>>", "getline", "endl", "flush") and e.get("lv"):
            # streams: the first operand
            l = self.evloc(c.args[0])
            for a in c.args[1:]:
                if n != "operator<<" and a.get("lv"):
                    self.store[self.evloc(a)] = self.fresh("in")
                else:
                    self.argval(a)
            return ('&', l)
        vals = tuple(self.argval(a) for a in c.args)
        args = tuple(self.valterm(v, a) for v, a in zip(vals, c.args))
        t = ('op', fn) + args
        if n in ("rand", "time"):
            t = self.fresh(n)
        self.ev('stdfn', fn, None, vals, t, e)
        return self.result(t, ty, into, e)

    def result(self, t, ty, into, e):
        if e.get("lv"):
            return ('&', ('D', t))
        if ty["k"] == "rec":
            if into is None:
                into = self.tmploc()
            for x in [x for x in self.store if x != into and ((x[0] in ('F', 'I') and root(x) == into) or (x[0] == 'M' and x[1] == into))]:
                del self.store[x]
            self.store[into] = t
            return ('obj', into)
        if isinstance(t, tuple):
            self.bound(t, ty)
        return t

    def seq_call(self, c, ty, into):
        f, e = c.f, c.node
        n, ct, o = f["n"], f["ct"], c.obj
        if n in ("size", "empty", "front", "back") and root(o)[0] not in ('L', 'T'):
            self.ev('acc', f["fn"], o, (), None, e)
        if n == "size":
            return self.size(o)
        if n == "empty":
            return c_eq(self.size(o), 0)
        if n in ("push_back", "push_front", "push", "emplace_back"):
            v = tuple(self.argval(a) for a in c.args)
            self.ev('std', f["fn"], o, v, None, e)
            self.store[('M', o, 'size')] = add(self.size(o), 1)
            if n in ("push_back", "push"):
                self.bump(o)
            else:
                self.bump(o)
            return 0
        if n in ("pop_back", "pop_front", "pop"):
            self.ev('std', f["fn"], o, (), None, e)
            self.store[('M', o, 'size')] = sub(self.size(o), 1)
            self.bump(o)
            return 0
        if n == "clear":
            self.ev('std', f["fn"], o, (), None, e)
            self.store[('M', o, 'size')] = 0
            self.bump(o)
            return 0
        if n == "resize":
            v = tuple(self.argval(a) for a in c.args)
            self.ev('std', f["fn"], o, v, None, e)
            self.store[('M', o, 'size')] = v[0]
            self.bump(o)
            return 0
        if n == "erase":
            args = tuple(self.argterm(a) for a in c.args)
            self.ev('std', f["fn"], o, args, None, e)
            if len(args) == 1 and self.ty(c.args[0])["k"] == "rec" and ct not in ("std::set_key",):
                at = self.ty(c.args[0])
                isit = "terator" in at["s"]
                if isit:
                    self.store[('M', o, 'size')] = sub(self.size(o), 1)
                else:
                    k = self.choose(2, ("erase-key", e.get("l")))
                    self.store[('M', o, 'size')] = sub(self.size(o), k)
            else:
                self.store[('M', o, 'size')] = self.fresh("size", lo=0)
            t = ('op', f["fn"], self.objterm(o)) + args
            self.bump(o)
            return self.result(t, ty, into, e)
        if n in ("insert", "emplace"):
            args = tuple(self.argterm(a) for a in c.args)
            self.ev('std', f["fn"], o, args, None, e)
            if ct in ("std::set", "std::map") and len(args) == 1:
                self.store[('M', o, 'size')] = self.fresh("size", lo=0)
            elif len(args) == 2 or len(args) == 1:
                self.store[('M', o, 'size')] = add(self.size(o), 1)
            else:
                self.store[('M', o, 'size')] = self.fresh("size", lo=0)
            t = ('op', f["fn"], self.objterm(o)) + args
            self.bump(o)
            return self.result(t, ty, into, e)
        if n == "swap":
            o2 = self.evloc(c.args[0])
            self.ev('std', f["fn"], o, (('&', o2),), None, e)
            s1, s2 = self.size(o), self.size(o2)
            v1, v2 = self.objterm(o), self.objterm(o2)
            for x in (o, o2):
                self.store.pop(('M', x, 'ver'), None)
            self.store[o], self.store[o2] = v2, v1
            self.store[('M', o, 'size')], self.store[('M', o2, 'size')] = s2, s1
            return 0
        if n in ("operator[]", "at") and ct in ("std::vector", "std::deque"):
            i = self.eval(c.args[0])
            self.ev('index', f["fn"], o, (i,), None, e)
            return ('&', ('I', ('F', o, '#elems', ''), i))
        if n == "front" and ct == "std::vector":
            return ('&', ('I', ('F', o, '#elems', ''), 0))
        if n == "back" and ct == "std::vector":
            return ('&', ('I', ('F', o, '#elems', ''), sub(self.size(o), 1)))
        return NotImplemented

    # havoc everything other threads can reach
    def havoc_shared(self, pred=None):
        def p(loc, pred=pred):
            r = root(loc)
            if r[0] in ('L', 'T'):
                return False
            if r[0] == 'H':
                return False
            return pred is None or pred(loc)
        self.havocs.append(p)
        for l in [l for l in self.store if l[0] != 'M' and p(l)]:
            del self.store[l]
        for l in [l for l in self.store if l[0] == 'M' and p(l[1])]:
            del self.store[l]


# ---------------------------------------------------------------- models
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


@model("pthread_mutex_lock")
def m_lock(I, c):
    l = I.deref(c.arg(0))
    I.ev('lock', 'lock', l, (), None, c.node)
    I.locks.append(l)
    if I.cfg.havoc_lock:
        I.havoc_shared(I.cfg.havoc_lock)
    return 0


@model("pthread_mutex_trylock")
def m_trylock(I, c):
    l = I.deref(c.arg(0))
    if I.choose(2, ("trylock", c.node.get("l"))) == 0:
        I.ev('lock', 'trylock', l, (), None, c.node)
        I.locks.append(l)
        return 0
    return 16


@model("pthread_mutex_unlock")
def m_unlock(I, c):
    l = I.deref(c.arg(0))
    I.ev('unlock', 'unlock', l, (), None, c.node)
    if l in I.locks:
        I.locks.remove(l)
    return 0


@model("pthread_cond_wait")
def m_wait(I, c):
    cl, ml = I.deref(c.arg(0)), I.deref(c.arg(1))
    I.ev('wait', 'wait', cl, (('&', ml),), None, c.node)
    if I.cfg.havoc_wait:
        I.havoc_shared(None)
    return 0


@model("pthread_cond_signal")
def m_signal(I, c):
    I.ev('notify', 'signal', I.deref(c.arg(0)), (), None, c.node)
    return 0


@model("pthread_cond_broadcast")
def m_bcast(I, c):
    I.ev('notify', 'broadcast', I.deref(c.arg(0)), (), None, c.node)
    return 0


@model("pthread_mutex_init", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutex_destroy")
def m_init(I, c):
    return 0


@model("pthread_create")
def m_create(I, c):
    v = tuple(I.eval(a) for a in c.args)
    I.ev('thread', 'create', I.deref(v[0]), v, None, c.node)
    return 0


@model("pthread_join")
def m_join(I, c):
    v = tuple(I.eval(a) for a in c.args)
    I.ev('thread', 'join', None, v, None, c.node)
    return 0


def m_sync(d, post):
    def h(I, c):
        p = I.deref(c.arg(0))
        k = c.arg(1)
        t = I.ty(c.args[0])
        old = I.load(p)
        new = add(old, k, d)
        if isconst(new) and t["k"] == "ptr":
            new = I.wrap(new, t["tu"].types[t["pt"]])
        I.store[p] = new
        I.ev('atomic', 'add' if d > 0 else 'sub', p, (k,), old, c.node)
        return I.store[p] if post else old
    return h


for sfx in ("", "_1", "_2", "_4", "_8", "_16"):
    MODELS["__sync_add_and_fetch" + sfx] = m_sync(1, True)
    MODELS["__sync_sub_and_fetch" + sfx] = m_sync(-1, True)
    MODELS["__sync_fetch_and_add" + sfx] = m_sync(1, False)
    MODELS["__sync_fetch_and_sub" + sfx] = m_sync(-1, False)


@model("std::swap", "swap")
def m_swap(I, c):
    if len(c.args) != 2 or not c.args[0].get("lv"):
        return NotImplemented
    a, b = c.argloc(0), c.argloc(1)
    ty = I.ty(c.args[0])
    I.ev('swap', 'swap', a, (('&', b),), None, c.node)
    if ty["k"] == "rec":
        rec = I.P.canon(ty["tu"].recs[ty["rid"]])
        if rec.get("ir"):
            t = I.tmploc()
            I.copy_rec(t, a, rec)
            I.copy_rec(a, b, rec)
            I.copy_rec(b, t, rec)
            return 0
        if rec["ct"] in SEQ:
            s1, s2 = I.size(a), I.size(b)
            I.store[('M', a, 'size')], I.store[('M', b, 'size')] = s2, s1
        v1, v2 = I.objterm(a), I.objterm(b)
        for x in (a, b):
            I.store.pop(('M', x, 'ver'), None)
        I.put(a, v2, c.node)
        I.put(b, v1, c.node)
        return 0
    va, vb = I.load(a, ty), I.load(b, ty)
    I.put(a, vb, c.node)
    I.put(b, va, c.node)
    return 0


def minmax(lt):
    def h(I, c):
        if len(c.args) != 2:
            return NotImplemented
        a, b = c.argloc(0), c.argloc(1)
        ty = I.ty(c.args[0])
        if ty["k"] == "rec":
            return NotImplemented
        va, vb = I.load(a, ty), I.load(b, ty)
        # min(a,b): b if b<a else a ; max(a,b): b if a<b else a
        t = I.truth(c_lt(vb, va) if lt else c_lt(va, vb), c.node)
        l = b if t else a
        return ('&', l)
    return h


def fceil(I, c):
    v = I.argval(c.args[0])
    if isinstance(v, tuple) and v and v[0] == 'f':
        import math
        return ('f', float(math.ceil(v[1])))
    return ('op', 'ceil', v)


MODELS["ceil"] = MODELS["std::ceil"] = fceil
MODELS["std::min"] = minmax(True)
MODELS["std::max"] = minmax(False)


@model("__builtin_expect")
def m_expect(I, c):
    return c.arg(0)


@model("std::move", "std::forward")
def m_move(I, c):
    return ('&', c.argloc(0))


@model("std::addressof", "std::__addressof")
def m_addrof(I, c):
    return I.addr(c.argloc(0))


@model("std::make_pair")
def m_mkpair(I, c):
    loc = I.tmploc()
    for n, a in zip(("first", "second"), c.args):
        fl = I.field(loc, n, "std::pair")
        at = I.ty(a)
        if at["k"] == "rec":
            I.copy_obj(fl, I.evloc(a), at)
        else:
            I.store[fl] = I.load(I.evloc(a), at) if a.get("lv") else I.eval(a)
    return ('obj', loc)


def quiet(I, c):
    return I.fresh(c.f["n"])


for n in ("stxxl::print_msg", "stxxl::log_msg"):
    def m_quiet(I, c):
        return 0
    MODELS[n] = m_quiet


# ---- std::unique_ptr / auto_ptr: the stored value is the pointer
def uptr(name):
    def d(f):
        for b in ("std::unique_ptr", "std::auto_ptr"):
            MODELS[b + "::" + name] = f
        return f
    return d


def _upget(I, loc):
    v = I.load(loc)
    if v == ('s', 'default:std::unique_ptr') or v == ('s', 'default:std::auto_ptr'):
        return 0
    return v


@uptr("unique_ptr")
def up_ctor(I, c):
    if len(c.args) == 0:
        I.store[c.obj] = 0
        return 0
    t = I.ty(c.args[0])
    if t["k"] == "rec":
        src = I.evloc(c.args[0])
        I.store[c.obj] = _upget(I, src)
        I.store[src] = 0
        return 0
    I.store[c.obj] = I.eval(c.args[0])
    return 0


MODELS["std::auto_ptr::auto_ptr"] = up_ctor


def _del(I, v, node):
    if isconst(v):
        return
    I.ev('delete', 'unique_ptr', I.deref(v), (v,), None, node)


@uptr("reset")
def up_reset(I, c):
    old = _upget(I, c.obj)
    new = c.arg(0) if c.args else 0
    I.put(c.obj, new, c.node)
    _del(I, old, c.node)
    return 0


@uptr("release")
def up_release(I, c):
    old = _upget(I, c.obj)
    I.put(c.obj, 0, c.node)
    return old


@uptr("get")
def up_get(I, c):
    return _upget(I, c.obj)


@uptr("operator->")
def up_arrow(I, c):
    return _upget(I, c.obj)


@uptr("operator*")
def up_star(I, c):
    return I.addr(I.deref(_upget(I, c.obj)))


@uptr("operator bool")
def up_bool(I, c):
    return c_not(c_eq(_upget(I, c.obj), 0))


@uptr("operator=")
def up_asg(I, c):
    t = I.ty(c.args[0])
    old = _upget(I, c.obj)
    if t["k"] == "rec":
        src = I.evloc(c.args[0])
        I.put(c.obj, _upget(I, src), c.node)
        I.store[src] = 0
    else:
        I.put(c.obj, I.eval(c.args[0]), c.node)
    _del(I, old, c.node)
    return ('&', c.obj)


@uptr("~unique_ptr")
def up_dtor(I, c):
    _del(I, _upget(I, c.obj), c.node)
    return 0


@uptr("swap")
def up_swap(I, c):
    o = c.argloc(0)
    a, b = _upget(I, c.obj), _upget(I, o)
    I.put(c.obj, b, c.node)
    I.put(o, a, c.node)
    return 0


def base_config():
    """Configuration shared by the rules: statistics and messages are no-ops."""
    cfg = Config()

    def is_stats(f):
        ct = f.get("ct") or ""
        return ct.startswith("stxxl::stats") or ct in ("std::basic_ostringstream", "std::basic_ostream", "std::basic_stringstream")

    def noop(I, c):
        for a in c.args:
            if a["k"] in ("asg", "un") or a["k"] == "call":
                I.argval(a)
        ty = I.T(c.node["t"]) if c.node and "t" in c.node else None
        if c.f.get("ct") == "std::basic_ostream" and c.obj is not None:
            return ('&', c.obj)
        if ty is None or ty["k"] == "rec":
            return NotImplemented
        return I.fresh(c.f["n"], ty)

    def stat_noop(I, c):
        for a in c.args:
            I.argval(a)
        return 0

    def get_stats(I, c):
        rt = c.f["tu"].types[c.f["rt"]]
        if "stats" in rt["s"] and rt["k"] == "ptr":
            return ('&', ('O', 'stats'))
        return NotImplemented
    cfg.model_pred.append((lambda f: (f.get("ct") or "").startswith("stxxl::stats") and f["k"] != "dtor", stat_noop))
    cfg.model_pred.append((lambda f: (f.get("ct") or "").startswith("stxxl::stats") and f["k"] == "dtor", stat_noop))
    cfg.models["stxxl::singleton::get_instance"] = get_stats
    return cfg
