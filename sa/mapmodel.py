"""Concrete model of std::map for a few symbolic entries (keys ordered as given), used where a rule follows free-space maps."""
import dom
from dom import add, c_eq, c_lt, c_not, is_ptr
import ai


def nodeloc(m, i):
    return ('O', 'node%d@%s' % (i, dom.showloc(m)))


class Maps:
    """Registers models in cfg; maps are declared per path with put()."""

    ITER = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")

    def __init__(self, cfg):
        self.bad = []
        M = cfg.models
        for n in ("begin", "cbegin"):
            M["std::map::" + n] = self.w(lambda I, c, m: self.it(I, c, self.first(I, m)))
        for n in ("end", "cend"):
            M["std::map::" + n] = self.w(lambda I, c, m: self.it(I, c, ('mapit', m, 'end')))
        M["std::map::empty"] = self.w(lambda I, c, m: int(not self.state(I, m)))
        M["std::map::size"] = self.w(lambda I, c, m: len(self.state(I, m)))
        M["std::map::clear"] = self.w(self.clear)
        M["std::map::upper_bound"] = self.w(lambda I, c, m: self.bound(I, c, m, True))
        M["std::map::lower_bound"] = self.w(lambda I, c, m: self.bound(I, c, m, False))
        M["std::map::find"] = self.w(lambda I, c, m: self.it(I, c, self.lookup(I, m, self.val(I, c.args[0]))))
        M["std::map::count"] = self.w(lambda I, c, m: int(self.lookup(I, m, self.val(I, c.args[0]))[2] != 'end'))
        M["std::map::erase"] = self.w(self.erase)
        M["std::map::operator[]"] = self.w(self.index)
        M["std::map::insert"] = self.w(self.insert)
        M["std::map::emplace"] = self.w(self.emplace)
        M["std::find_if"] = self.find_if
        M["std::bind2nd"] = self.bind2nd
        M["std::map::map"] = self.ctor
        for t in self.ITER:
            M[t + "::operator*"] = self.deref
            M[t + "::operator->"] = self.deref
            M[t + "::operator++"] = lambda I, c: self.step(I, c, 1)
            M[t + "::operator--"] = lambda I, c: self.step(I, c, -1)
            M[t + "::" + t.split("::")[1]] = self.ictor
            M[t + "::operator="] = self.iasg
        M["std::pair::operator="] = self.pairasg
        M["std::operator=="] = lambda I, c: self.cmp(I, c, False)
        M["std::operator!="] = lambda I, c: self.cmp(I, c, True)
        M["std::next"] = lambda I, c: self.adv(I, c, 1)
        M["std::prev"] = lambda I, c: self.adv(I, c, -1)

    def ctor(self, I, c):
        if c.args:
            return NotImplemented
        I.user.setdefault("maps", {})[c.obj] = []
        return 0

    # ---- declaration
    def put(self, I, loc, entries, second=None):
        ids = []
        for k, v in entries:
            ids.append(self.newnode(I, loc, k, v))
        I.user.setdefault("maps", {})[loc] = ids

    def newnode(self, I, m, k, v):
        n = I.user.get("nodes", 0)
        I.user["nodes"] = n + 1
        l = nodeloc(m, n)
        I.store[('F', l, 'first', 'std::pair')] = k
        if isinstance(v, tuple) and v and v[0] == 'pair':
            I.store[('F', ('F', l, 'second', 'std::pair'), 'first', 'std::pair')] = v[1]
            I.store[('F', ('F', l, 'second', 'std::pair'), 'second', 'std::pair')] = v[2]
        else:
            I.store[('F', l, 'second', 'std::pair')] = v
        return n

    def entries(self, I, store, m):
        """[(key, value)] of a map at the end of a path."""
        out = []
        for i in I.user["maps"][m]:
            l = nodeloc(m, i)
            out.append((store.get(('F', l, 'first', 'std::pair')), store.get(('F', l, 'second', 'std::pair'))))
        return out

    # ---- helpers
    def state(self, I, m):
        return I.user["maps"][m]

    def w(self, h):
        def f(I, c):
            m = c.obj
            if m not in I.user.get("maps", {}):
                return NotImplemented
            return h(I, c, m)
        return f

    def val(self, I, a):
        v = I.argval(a)
        return I.load(v[1]) if is_ptr(v) else v

    def key(self, I, m, i):
        return I.store[('F', nodeloc(m, i), 'first', 'std::pair')]

    def it(self, I, c, t):
        return I.result(t, I.ty(c.node), None, c.node) if I.ty(c.node)["k"] == "rec" else t

    def first(self, I, m):
        s = self.state(I, m)
        return ('mapit', m, s[0] if s else 'end')

    def truth(self, I, c, tag):
        d = I.facts.decide(c)
        if d is None:
            d = bool(I.choose(2, ("map", tag)))
            if not I.facts.assume(c, d):
                raise ai.PathEnd('infeasible')
        return d

    def lookup(self, I, m, k):
        for i in self.state(I, m):
            if self.truth(I, c_eq(self.key(I, m, i), k), ("find", i)):
                return ('mapit', m, i)
        return ('mapit', m, 'end')

    def bound(self, I, c, m, upper):
        k = self.val(I, c.args[0])
        for i in self.state(I, m):
            nk = self.key(I, m, i)
            cond = c_lt(k, nk) if upper else c_not(c_lt(nk, k))
            if self.truth(I, cond, ("bound", i)):
                return self.it(I, c, ('mapit', m, i))
        return self.it(I, c, ('mapit', m, 'end'))

    def iterval(self, I, a):
        """Iterator value of an argument."""
        v = I.argval(a)
        return self.norm(I, v)

    def norm(self, I, v):
        for _ in range(6):
            if isinstance(v, tuple) and v and v[0] == 'obj':
                v = I.store.get(v[1])
            elif is_ptr(v):
                v = I.store.get(v[1])
            else:
                break
        return v if isinstance(v, tuple) and v and v[0] == 'mapit' else None

    def clear(self, I, c, m):
        I.ev('std', 'std::map::clear', m, (), None, c.node)
        I.user["maps"][m] = []
        return 0

    def erase(self, I, c, m):
        t = I.ty(c.args[0])
        s = self.state(I, m)
        if t["k"] == "rec":
            v = self.iterval(I, c.args[0])
            if v is None:
                raise ai.PathEnd('cut')
            I.ev('std', 'std::map::erase', m, (v,), None, c.node)
            if v[2] == 'end' or v[2] not in s:
                self.misuse(I, c, "erases %s" % ("the end iterator" if v[2] == 'end' else "an entry twice"))
            k = s.index(v[2])
            I.user["maps"][m] = s[:k] + s[k + 1:]
            nxt = s[k + 1] if k + 1 < len(s) else 'end'
            return self.it(I, c, ('mapit', m, nxt))
        v = self.lookup(I, m, self.val(I, c.args[0]))
        I.ev('std', 'std::map::erase', m, (v,), None, c.node)
        if v[2] == 'end':
            return 0
        I.user["maps"][m] = [x for x in s if x != v[2]]
        return 1

    def misuse(self, I, c, what):
        I.user.setdefault("misuse", []).append((c.node.get("l"), what, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    def place(self, I, m, k, v):
        """Inserts a node in key order."""
        s = self.state(I, m)
        pos = 0
        for i in s:
            if self.truth(I, c_lt(self.key(I, m, i), k), ("place", i)):
                pos += 1
            else:
                break
        n = self.newnode(I, m, k, v)
        I.user["maps"][m] = s[:pos] + [n] + s[pos:]
        return n

    def index(self, I, c, m):
        k = self.val(I, c.args[0])
        v = self.lookup(I, m, k)
        n = v[2] if v[2] != 'end' else self.place(I, m, k, 0)
        I.ev('std', 'std::map::operator[]', m, (k,), None, c.node)
        return ('&', ('F', nodeloc(m, n), 'second', 'std::pair'))

    def insert(self, I, c, m):
        v = I.argval(c.args[-1])
        l = v[1] if isinstance(v, tuple) and v[0] in ('obj', '&') else None
        if l is None:
            raise ai.PathEnd('cut')
        k = I.load(('F', l, 'first', 'std::pair'))
        x = I.load(('F', l, 'second', 'std::pair'))
        I.ev('std', 'std::map::insert', m, (k, x), None, c.node)
        f = self.lookup(I, m, k)
        if f[2] == 'end':
            self.place(I, m, k, x)
        return I.result(I.fresh("insert"), I.ty(c.node), None, c.node)

    def emplace(self, I, c, m):
        k, x = (self.val(I, a) for a in c.args[:2])
        I.ev('std', 'std::map::emplace', m, (k, x), None, c.node)
        f = self.lookup(I, m, k)
        if f[2] == 'end':
            self.place(I, m, k, x)
        return I.result(I.fresh("emplace"), I.ty(c.node), None, c.node)

    def deref(self, I, c):
        v = self.norm(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        if v[2] == 'end' or v[2] not in self.state(I, v[1]):
            self.misuse(I, c, "dereferences %s" % ("the end iterator" if v[2] == 'end' else "an iterator to an erased entry"))
        return ('&', nodeloc(v[1], v[2]))

    def stepped(self, I, c, v, d):
        s = self.state(I, v[1])
        if v[2] == 'end':
            k = -1 if d < 0 else 0
            return ('mapit', v[1], s[k] if s else 'end')
        if v[2] not in s:
            self.misuse(I, c, "moves an iterator to an erased entry")
        k = s.index(v[2]) + d
        return ('mapit', v[1], s[k] if 0 <= k < len(s) else 'end')

    def step(self, I, c, d):
        v = self.norm(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        for a in c.args:
            I.eval(a)
        I.store[c.obj] = self.stepped(I, c, v, d)
        if c.args:
            return I.result(v, I.ty(c.node), None, c.node)
        return ('&', c.obj)

    def adv(self, I, c, d):
        v = self.iterval(I, c.args[0])
        if v is None or len(c.args) > 1 and I.eval(c.args[1]) != 1:
            return NotImplemented
        return self.it(I, c, self.stepped(I, c, v, d))

    def ictor(self, I, c):
        if not c.args:
            I.store[c.obj] = ('s', 'singular-iterator')
            return 0
        v = self.iterval(I, c.args[0])
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return 0

    def iasg(self, I, c):
        v = self.iterval(I, c.args[0])
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return ('&', c.obj)

    def cmp(self, I, c, neg):
        if len(c.args) != 2:
            return NotImplemented
        if not all(I.ty(a).get("ct") in self.ITER for a in c.args):
            return NotImplemented
        a, b = (self.iterval(I, x) for x in c.args)
        if a is None or b is None:
            return I.fresh("itercmp", lo=0, hi=1)
        return int((a == b) != neg)

    # ---- searching with a predicate
    def bind2nd(self, I, c):
        ft = I.ty(c.args[0])
        I.argval(c.args[0])
        v = self.val(I, c.args[1])
        return I.result(('bind2nd', ft.get("ct"), ft.get("u") or ft.get("s"), v), I.ty(c.node), None, c.node)

    def find_if(self, I, c):
        a, b = self.iterval(I, c.args[0]), self.iterval(I, c.args[1])
        if a is None or b is None:
            return NotImplemented
        p = I.argval(c.args[2])
        if isinstance(p, tuple) and p[0] in ('obj', '&'):
            p = I.store.get(p[1])
        m = a[1]
        s = self.state(I, m)
        i = len(s) if a[2] == 'end' else s.index(a[2])
        e = len(s) if b[2] == 'end' else s.index(b[2])
        while i < e:
            r = self.apply(I, p, nodeloc(m, s[i]))
            if r is None:
                raise ai.PathEnd('cut')
            if self.truth(I, I.as_cond(r), ("find_if", i)):
                return self.it(I, c, ('mapit', m, s[i]))
            i += 1
        return self.it(I, c, ('mapit', m, s[i] if i < len(s) else 'end'))

    def apply(self, I, p, loc):
        if isinstance(p, tuple) and p and p[0] == 'bind2nd':
            ds = [d for d in I.P.defs.values() if d.n == "operator()" and d.rec is not None and d.rec["ct"] == p[1] and len(d.params) == 2]
            if not ds:
                return None
            return self.run(I, ds[0], [('ref', loc), ('val', p[3])])
        if isinstance(p, tuple) and p and p[0] == 'lambda':
            d = I.P.defs.get(I.fr.tu.funs[p[1]]["u"])
            return self.run(I, d, [('ref', loc)]) if d is not None else None
        return None

    def run(self, I, d, vals):
        fixed = []
        for (vid, name, t), v in zip(d.params, vals):
            pt = d.tu.types[t]
            if pt["k"] in ("ref", "rref") and v[0] == 'val':
                l = I.tmploc()
                I.store[l] = v[1]
                v = ('ref', l)
            elif pt["k"] not in ("ref", "rref", "rec") and v[0] == 'ref':
                v = ('val', I.load(v[1]))
            elif pt["k"] == "rec" and v[0] == 'ref':
                v = ('rec', v[1], pt)
            fixed.append(v)
        fr = I.newframe(d, I.tmploc())
        I.setparams(fr, d, fixed)
        return I.runbody(d, fr)

    def pairasg(self, I, c):
        v = I.argval(c.args[0])
        if not (isinstance(v, tuple) and v and v[0] in ('obj', '&')):
            return NotImplemented
        for n in ("first", "second"):
            x = I.load(('F', v[1], n, 'std::pair'))
            I.put(('F', c.obj, n, 'std::pair'), x, c.node)
        return ('&', c.obj)
