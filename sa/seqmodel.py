"""Concrete model of std::vector, deque, list, queue, stack for a known number of elements (values symbolic)."""
import dom
from dom import add, sub, c_eq, c_lt, is_ptr, isconst
import ai

KINDS = ("std::vector", "std::deque", "std::list", "std::queue", "std::stack", "std::priority_queue")
ITERS = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Deque_iterator")


def el(loc, i):
    """Element i of a contiguous container (element 0 is the array itself)."""
    b = ('F', loc, '#elems', '')
    return ('I', b, i) if i else b


class Seqs:
    def __init__(self, cfg, limit=12):
        self.limit = limit
        M = cfg.models
        for ct in KINDS:
            s = ct.split("::")[1]
            for n, h in (("size", self.size), ("empty", self.empty), ("clear", self.clear), ("push_back", self.push_back), ("push", self.push_back),
                         ("emplace_back", self.push_back), ("push_front", self.push_front), ("pop_back", self.pop_back), ("pop_front", self.pop_front),
                         ("front", self.front), ("back", self.back), ("operator[]", self.index), ("at", self.index), ("begin", self.begin), ("cbegin", self.begin),
                         ("end", self.end), ("cend", self.end), ("erase", self.erase), ("insert", self.insert), ("resize", self.resize), ("swap", self.swap), ("splice", self.splice),
                         ("operator=", self.assign), ("top", self.back), ("data", self.data), ("reserve", lambda I, c, s: [I.argval(a) for a in c.args] and 0)):
                M[ct + "::" + n] = self.w(h, ct)
            M[ct + "::pop"] = self.w(self.pop_front if ct == "std::queue" else self.pop_back, ct)
            if ct == "std::priority_queue":
                M[ct + "::pop"] = self.w(self.pqpop, ct)
                M[ct + "::top"] = self.w(self.pqtop, ct)
            M["%s::%s" % (ct, s)] = lambda I, c, ct=ct: self.ctor(I, c, ct)
            M["%s::~%s" % (ct, s)] = lambda I, c, ct=ct: self.dtor(I, c)
        for t in ITERS:
            s = t.split("::")[1]
            M[t + "::" + s] = self.ictor
            M[t + "::operator="] = self.iasg
            M[t + "::operator*"] = self.deref
            M[t + "::operator->"] = self.deref
            M[t + "::operator[]"] = self.ideref
            M[t + "::operator++"] = lambda I, c: self.step(I, c, 1)
            M[t + "::operator--"] = lambda I, c: self.step(I, c, -1)
            M[t + "::operator+="] = lambda I, c: self.jump(I, c, 1)
            M[t + "::operator-="] = lambda I, c: self.jump(I, c, -1)
            M[t + "::operator+"] = lambda I, c: self.plus(I, c, 1)
            M[t + "::operator-"] = lambda I, c: self.plus(I, c, -1)
            M[t + "::base"] = NotImplementedModel
            for op in ("==", "!="):
                self.chain(M, t + "::operator" + op, op)
        for ns in ("__gnu_cxx", "std"):
            for op in ("==", "!=", "<", "<=", ">", ">=", "-"):
                self.chain(M, ns + "::operator" + op, op)
        M["std::_Bit_reference::operator="] = self.bitset
        M["std::_Bit_reference::operator bool"] = self.bitget
        M["std::swap"] = self.stdswap
        M["std::find"] = self.find
        M["std::copy"] = self.copy
        M["std::fill"] = self.fill
        cfg.seqs = self

    def chain(self, M, name, op):
        prev = M.get(name)

        def h(I, c):
            r = self.cmp(I, c, op)
            if r is NotImplemented and prev:
                return prev(I, c)
            return r
        M[name] = h

    # ---- state
    def put(self, I, loc, values, ct="std::vector", rec=None):
        """Declares a container: values are scalars or functions f(elemloc) that fill a record element."""
        st = I.user.setdefault("seq", {})
        st[loc] = []
        I.user.setdefault("seqct", {})[loc] = ct
        for v in values:
            l = self.newelem(I, loc, len(st[loc]))
            st[loc].append(l)
            if callable(v):
                v(l)
            else:
                I.store[l] = v

    def newelem(self, I, m, i):
        if I.user["seqct"].get(m) == "std::vector":
            return el(m, i)
        n = I.user["nel"] = I.user.get("nel", 0) + 1
        return ('O', 'el%d@%s' % (n, dom.showloc(m)))

    def elems(self, I, m):
        """Element locations, None when the container is not followed."""
        return I.user.get("seq", {}).get(m)

    def values(self, I, store, m):
        return [store.get(l) for l in self.elems(I, m) or []]

    def w(self, h, ct):
        def f(I, c):
            s = I.user.get("seq", {})
            if c.obj not in s:
                return NotImplemented
            if h not in (self.size, self.empty, self.begin, self.end, self.front, self.back, self.index, self.data):
                I.ev('std', c.f["fn"], c.obj, (), None, c.node)
            return h(I, c, s[c.obj])
        return f

    def ctor(self, I, c, ct):
        st = I.user.setdefault("seq", {})
        args = [a for a in c.args if not (I.ty(a)["k"] == "rec" and I.ty(a).get("ct", "").startswith("std::allocator"))]
        m = c.obj
        I.user.setdefault("seqct", {})[m] = ct
        if not args:
            st[m] = []
            return 0
        t0 = I.ty(args[0])
        if t0["k"] == "int":
            n = I.eval(args[0])
            if not isconst(n) or n > self.limit:
                st.pop(m, None)
                return NotImplemented
            st[m] = []
            for i in range(n):
                l = self.newelem(I, m, i)
                st[m].append(l)
                if len(args) > 1:
                    self.store(I, l, args[1])
                else:
                    self.default(I, l, self.etype(c.objtype))
            return 0
        if t0["k"] == "rec" and t0.get("ct") == ct:
            src = I.evloc(args[0])
            if src not in st:
                st.pop(m, None)
                return NotImplemented
            self.copystate(I, m, src)
            return 0
        st.pop(m, None)
        return NotImplemented

    def etype(self, ty):
        if ty and ty.get("ta") and ty["ta"][0][0] == "t":
            return ty["tu"].types[ty["ta"][0][1]]
        return None

    def default(self, I, l, t):
        if t is None:
            return
        if t["k"] == "rec":
            rec = I.P.canon(t["tu"].recs[t["rid"]])
            for f in I.P.defs.values():
                if f.kind == "ctor" and not f.params and f.rec is not None and I.P.canon(f.rec) is rec:
                    fr = I.newframe(f, l)
                    I.runbody(f, fr)
                    return
        else:
            I.store[l] = 0

    def dtor(self, I, c):
        I.user.get("seq", {}).pop(c.obj, None)
        return NotImplemented

    def copystate(self, I, dst, src):
        st = I.user["seq"]
        n = len(st[src])
        I.user["seqct"][dst] = I.user["seqct"].get(src)
        st[dst] = []
        for i in range(n):
            l = self.newelem(I, dst, i)
            st[dst].append(l)
            self.rekey(I, st[src][i], l, keep=True)

    def assign(self, I, c, s):
        src = I.evloc(c.args[0])
        if src not in I.user["seq"]:
            I.user["seq"].pop(c.obj)
            return NotImplemented
        if src != c.obj:
            self.copystate(I, c.obj, src)
        return ('&', c.obj)

    def rekey(self, I, a, b, keep=False):
        """Moves (or copies) everything stored at or below location a to b."""
        if a == b:
            return
        for x in [x for x in I.store if x == b or x[0] in ('F', 'I') and self.inel(x, b)]:
            del I.store[x]
        for x in [x for x in I.store if x == a or x[0] in ('F', 'I') and self.inel(x, a)]:
            I.store[self.sub(x, a, b)] = I.store[x]
            if not keep:
                del I.store[x]

    def inel(self, x, a):
        """x is part of element a (element 0 has the location of the whole array)."""
        first = a[0] == 'F' and a[2] == '#elems'
        while x != a:
            if x[0] not in ('F', 'I') or first and x[0] == 'I' and x[1] == a:
                return False
            x = x[1]
        return True

    def sub(self, x, a, b):
        if x == a:
            return b
        return (x[0], self.sub(x[1], a, b)) + x[2:]

    def store(self, I, l, a):
        """Copies an argument into an element."""
        ty = I.ty(a)
        if ty["k"] in ("ref", "rref"):
            ty = ty["tu"].types[ty["pt"]]
        if ty["k"] == "rec":
            I.eval_into(a, l, ty)
        elif a.get("lv"):
            I.store[l] = I.load(I.evloc(a), ty)
        else:
            I.store[l] = I.eval(a)

    # ---- operations
    def it(self, I, c, v):
        return I.result(v, I.ty(c.node), None, c.node) if I.ty(c.node)["k"] == "rec" else v

    def size(self, I, c, s):
        return len(s)

    def empty(self, I, c, s):
        return int(not s)

    def clear(self, I, c, s):
        s[:] = []
        return 0

    def push_back(self, I, c, s):
        if len(s) >= self.limit:
            raise ai.PathEnd('cut')
        l = self.newelem(I, c.obj, len(s))
        self.store(I, l, c.args[0])
        s.append(l)
        return 0

    def push_front(self, I, c, s):
        l = self.newelem(I, c.obj, 0)
        self.store(I, l, c.args[0])
        s.insert(0, l)
        return 0

    def nonempty(self, I, c, s):
        if not s:
            self.misuse(I, c, "%s of an empty container" % c.f["n"])

    def misuse(self, I, c, what):
        I.user.setdefault("misuse", []).append((c.node.get("l"), what, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    def pop_back(self, I, c, s):
        self.nonempty(I, c, s)
        s.pop()
        return 0

    def pop_front(self, I, c, s):
        self.nonempty(I, c, s)
        s.pop(0)
        return 0

    # any element may be the top one (the order is not followed), the same until the next pop or push
    def top(self, I, c, s):
        self.nonempty(I, c, s)
        k = I.user.setdefault("pqtop", {}).get(c.obj)
        if k is None or k[1] != len(s):
            k = (I.choose(len(s), ("top", c.node.get("l"))) if len(s) > 1 else 0, len(s))
            I.user["pqtop"][c.obj] = k
        return k[0]

    def pqtop(self, I, c, s):
        return ('&', s[self.top(I, c, s)])

    def pqpop(self, I, c, s):
        s.pop(self.top(I, c, s))
        I.user["pqtop"].pop(c.obj, None)
        return 0

    def front(self, I, c, s):
        self.nonempty(I, c, s)
        return ('&', s[0])

    def back(self, I, c, s):
        self.nonempty(I, c, s)
        return ('&', s[-1])

    def data(self, I, c, s):
        return ('&', el(c.obj, 0))

    def index(self, I, c, s):
        i = I.eval(c.args[0])
        if not isconst(i):
            lo, hi = I.facts.bounds(i)
            if lo is not None and lo == hi:
                i = lo
            else:
                n = I.choose(len(s) + 1, ("index", c.node.get("l"))) if len(s) else 0
                if n == len(s):
                    cond = c_lt(i, len(s))
                    if I.facts.decide(cond) is True and I.facts.decide(c_lt(i, 0)) is False:
                        raise ai.PathEnd('infeasible')
                    self.misuse(I, c, "index may be outside the container")
                if not I.facts.assume(c_eq(i, n), True):
                    raise ai.PathEnd('infeasible')
                i = n
        I.ev('index', c.f["fn"], c.obj, (i,), None, c.node)
        if not (0 <= i < len(s)):
            self.misuse(I, c, "index %d of a container with %d elements" % (i, len(s)))
        if not c.node.get("lv"):
            # vector<bool>: a proxy, or the value itself
            if I.ty(c.node)["k"] == "rec":
                return I.result(('&', s[i]), I.ty(c.node), None, c.node)
            return I.load(s[i])
        return ('&', s[i])

    def bitloc(self, I, v):
        for _ in range(6):
            if isinstance(v, tuple) and v and v[0] == 'obj':
                v = I.store.get(v[1])
            else:
                break
        return v[1] if isinstance(v, tuple) and v and v[0] == '&' else None

    def bitset(self, I, c):
        l = self.bitloc(I, ('obj', c.obj))
        if l is None:
            return NotImplemented
        t = I.ty(c.args[0])
        v = I.argval(c.args[0])
        if t["k"] == "rec":
            b = self.bitloc(I, v)
            if b is None:
                return NotImplemented
            v = I.load(b)
        I.ev('store', 'bit', l, (v,), None, c.node)
        I.store[l] = v
        return ('&', c.obj)

    def bitget(self, I, c):
        l = self.bitloc(I, ('obj', c.obj))
        return NotImplemented if l is None else I.load(l)

    def key(self, I, m, i):
        """Iterator value for position i."""
        s = self.elems(I, m)
        if I.user["seqct"].get(m) == "std::list":
            return ('seqit', m, s[i] if i < len(s) else 'end')
        return ('seqit', m, i)

    def pos(self, I, v):
        """Position of an iterator value, None when it no longer refers to the container."""
        s = self.elems(I, v[1])
        if s is None:
            return None
        if v[2] == 'end':
            return len(s)
        if isinstance(v[2], int):
            return v[2]
        return s.index(v[2]) if v[2] in s else None

    def begin(self, I, c, s):
        return self.it(I, c, self.key(I, c.obj, 0))

    def end(self, I, c, s):
        return self.it(I, c, self.key(I, c.obj, len(s)))

    def resize(self, I, c, s):
        n = I.eval(c.args[0])
        if not isconst(n) or n > self.limit:
            raise ai.PathEnd('cut')
        while len(s) > n:
            s.pop()
        t = None
        while len(s) < n:
            l = self.newelem(I, c.obj, len(s))
            s.append(l)
            if len(c.args) > 1 and c.args[1]["k"] != "zero":
                self.store(I, l, c.args[1])
            else:
                t = t or self.etype(self.typeof(I, c))
                self.default(I, l, t)
        return 0

    def typeof(self, I, c):
        o = c.node.get("o")
        if o is None:
            return None
        t = I.ty(o)
        if t["k"] in ("ptr", "ref"):
            t = t["tu"].types[t["pt"]]
        return t

    def erase(self, I, c, s):
        v = self.norm(I, c.args[0])
        if v is None:
            return NotImplemented
        i = self.pos(I, v)
        j = i + 1 if i is not None else None
        if len(c.args) > 1:
            v2 = self.norm(I, c.args[1])
            if v2 is None:
                return NotImplemented
            j = self.pos(I, v2)
        if i is None or j is None or i > j or j > len(s) or (i == len(s) and len(c.args) == 1):
            self.misuse(I, c, "erases an invalid position")
        self.remove(I, c.obj, s, i, j)
        return self.it(I, c, self.key(I, c.obj, i))

    def remove(self, I, m, s, i, j):
        if I.user["seqct"].get(m) == "std::vector":
            k = j - i
            for x in range(j, len(s)):
                self.rekey(I, s[x], s[x - k])
            if k:
                del s[len(s) - k:]
        else:
            del s[i:j]

    def insert(self, I, c, s):
        v = self.norm(I, c.args[0])
        if v is None or len(c.args) != 2 or len(s) >= self.limit:
            raise ai.PathEnd('cut')
        i = self.pos(I, v)
        if i is None or i > len(s):
            self.misuse(I, c, "inserts at an invalid position")
        m = c.obj
        if I.user["seqct"].get(m) == "std::vector":
            l = I.tmploc()
            self.store(I, l, c.args[1])
            s.append(el(m, len(s)))
            for x in range(len(s) - 1, i, -1):
                self.rekey(I, s[x - 1], s[x])
            self.rekey(I, l, s[i])
        else:
            l = self.newelem(I, m, i)
            self.store(I, l, c.args[1])
            s.insert(i, l)
        return self.it(I, c, self.key(I, m, i))

    def splice(self, I, c, s):
        """list::splice(position, list, [element])."""
        v = self.norm(I, c.args[0])
        src = I.evloc(c.args[1])
        o = self.elems(I, src)
        if v is None or o is None or len(c.args) > 3:
            raise ai.PathEnd('splice not followed')
        if len(c.args) == 3:
            w = self.norm(I, c.args[2])
            i = self.pos(I, w) if w is not None and w[1] == src else None
            if w is None:
                raise ai.PathEnd('splice not followed')
            if i is None or i >= len(o):
                self.misuse(I, c, "splices an element that is not in the list")
            xs = [o[i]]
        else:
            xs = list(o)
        if v[2] in xs:
            return 0
        if self.pos(I, v) is None:
            self.misuse(I, c, "splices to an invalid position")
        for x in xs:
            o.remove(x)
        i = self.pos(I, v)
        s[i:i] = xs
        return 0

    def swap(self, I, c, s):
        o = I.evloc(c.args[0])
        return self.swap2(I, c.obj, o)

    def swap2(self, I, a, b):
        st = I.user["seq"]
        if a not in st or b not in st:
            return NotImplemented
        if I.user["seqct"].get(a) == "std::vector":
            n, m = len(st[a]), len(st[b])
            # iterators and pointers keep referring to their element
            to = {l: el(b, i) for i, l in enumerate(st[a])}
            to.update({l: el(a, i) for i, l in enumerate(st[b])})
            for x, v in list(I.store.items()):
                if not (isinstance(v, tuple) and len(v) > 1):
                    continue
                if v[0] == 'seqit' and v[1] in (a, b):
                    I.store[x] = (v[0], b if v[1] == a else a) + v[2:]
                elif v[0] == '&':
                    for l, t in to.items():
                        if self.inel(v[1], l):
                            I.store[x] = ('&', self.sub(v[1], l, t))
                            break
            tmp = [I.tmploc() for _ in st[a]]
            for l, t in zip(st[a], tmp):
                self.rekey(I, l, t)
            st[a] = [el(a, i) for i in range(m)]
            for l, t in zip(st[b], st[a]):
                self.rekey(I, l, t)
            st[b] = [el(b, i) for i in range(n)]
            for t, l in zip(tmp, st[b]):
                self.rekey(I, t, l)
        else:
            st[a], st[b] = st[b], st[a]
        return 0

    def stdswap(self, I, c):
        if len(c.args) == 2 and c.args[0].get("lv"):
            a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
            if a in I.user.get("seq", {}) or b in I.user.get("seq", {}):
                return self.swap2(I, a, b)
        return ai.MODELS["std::swap"](I, c)

    # ---- iterators
    def norm(self, I, a):
        v = I.argval(a)
        return self.normv(I, v)

    def normv(self, I, v):
        for _ in range(8):
            if isinstance(v, tuple) and v and v[0] in ('obj', '&'):
                v = I.store.get(v[1])
            else:
                break
        if not (isinstance(v, tuple) and v and v[0] == 'seqit'):
            return None
        if isinstance(v[2], tuple) and v[2] not in self.elems(I, v[1]) if self.elems(I, v[1]) is not None else False:
            # a list element keeps its iterators when lists are swapped or spliced
            for m, s in I.user.get("seq", {}).items():
                if v[2] in s:
                    return ('seqit', m, v[2])
        return v

    def ictor(self, I, c):
        if not c.args:
            I.store[c.obj] = ('s', 'singular-iterator')
            return 0
        v = self.norm(I, c.args[0])
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return 0

    def iasg(self, I, c):
        v = self.norm(I, c.args[0])
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return ('&', c.obj)

    def at(self, I, c, v, d=0):
        p = self.pos(I, v)
        s = self.elems(I, v[1])
        if p is None or not (0 <= p + d < len(s)):
            self.misuse(I, c, "dereferences an iterator outside its container")
        return ('&', s[p + d])

    def deref(self, I, c):
        v = self.normv(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        return self.at(I, c, v)

    def ideref(self, I, c):
        v = self.normv(I, ('obj', c.obj))
        i = I.eval(c.args[0])
        if v is None or not isconst(i):
            return NotImplemented
        return self.at(I, c, v, i)

    def moved(self, I, c, v, d):
        p = self.pos(I, v)
        s = self.elems(I, v[1])
        if p is None or not (0 <= p + d <= len(s)):
            self.misuse(I, c, "moves an iterator outside its container")
        return self.key(I, v[1], p + d)

    def step(self, I, c, d):
        v = self.normv(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        for a in c.args:
            I.eval(a)
        I.store[c.obj] = self.moved(I, c, v, d)
        if c.args:
            return I.result(v, I.ty(c.node), None, c.node)
        return ('&', c.obj)

    def jump(self, I, c, sg):
        v = self.normv(I, ('obj', c.obj))
        d = I.eval(c.args[0])
        if v is None:
            return NotImplemented
        if not isconst(d):
            raise ai.PathEnd('cut')
        I.store[c.obj] = self.moved(I, c, v, sg * d)
        return ('&', c.obj)

    def plus(self, I, c, sg):
        v = self.normv(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        d = I.argval(c.args[0])
        if is_ptr(d):
            d = I.load(d[1])
        if not isconst(d):
            raise ai.PathEnd('cut')
        return self.it(I, c, self.moved(I, c, v, sg * d))

    def cmp(self, I, c, op):
        args = ([{"obj": c.obj}] if c.obj is not None else []) + list(c.args)
        if len(args) != 2:
            return NotImplemented
        for a in c.args:
            if I.ty(a).get("ct") not in ITERS:
                return NotImplemented
        vs = [self.normv(I, ('obj', a["obj"])) if "obj" in a and "k" not in a else self.norm(I, a) for a in args]
        if vs[0] is None or vs[1] is None:
            return NotImplemented
        p, q = (self.pos(I, v) for v in vs)
        if op == "-":
            return p - q if p is not None and q is not None and vs[0][1] == vs[1][1] else NotImplemented
        if vs[0][1] != vs[1][1] or p is None or q is None:
            r = vs[0] == vs[1]
            return int(r if op == "==" else not r)
        return int({"==": p == q, "!=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op])

    # ---- algorithms
    def rng(self, I, c):
        a, b = self.norm(I, c.args[0]), self.norm(I, c.args[1])
        if a is None or b is None or a[1] != b[1]:
            return None
        return a[1], self.pos(I, a), self.pos(I, b)

    def find(self, I, c):
        r = self.rng(I, c)
        if r is None:
            return NotImplemented
        m, i, j = r
        v = I.argval(c.args[2])
        if is_ptr(v) and c.args[2].get("lv"):
            v = I.load(v[1])
        s = self.elems(I, m)
        while i < j:
            if I.truth(c_eq(I.load(s[i]), v), c.node):
                break
            i += 1
        return self.it(I, c, self.key(I, m, i))

    def copy(self, I, c):
        r = self.rng(I, c)
        d = self.norm(I, c.args[2])
        if r is None or d is None:
            return NotImplemented
        m, i, j = r
        s, t, k = self.elems(I, m), self.elems(I, d[1]), self.pos(I, d)
        for x in range(i, j):
            if k >= len(t):
                self.misuse(I, c, "copies beyond the end of a container")
            self.rekey(I, s[x], t[k], keep=True)
            k += 1
        return self.it(I, c, self.key(I, d[1], k))

    def fill(self, I, c):
        r = self.rng(I, c)
        if r is None:
            return NotImplemented
        m, i, j = r
        for x in range(i, j):
            self.store(I, self.elems(I, m)[x], c.args[2])
        return 0


def NotImplementedModel(I, c):
    return NotImplemented
