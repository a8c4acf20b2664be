"""Concrete model of std::multimap and std::unordered_multimap for a few entries; create it after mapmodel / seqmodel."""
import ai
from hashmodel import Hashes, IT

RB = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")
NAMES = ("std::multimap", "std::unordered_multimap")


class MultiMaps(Hashes):
    """order(I, key location) -> comparable; needed for std::multimap's order."""
    IT = IT + RB

    def __init__(self, cfg, seqs, order=None):
        Hashes.__init__(self, cfg, seqs)
        self.order = order
        M = cfg.models
        for t in RB:
            for n, h in ((t.rsplit("::", 1)[1], self.ictor), ("operator=", self.iasg), ("operator*", self.deref), ("operator->", self.deref), ("operator++", self.step), ("operator--", self.back)):
                self.chain_(M, t + "::" + n, h)
            for op in ("==", "!="):
                self.chain_(M, t + "::operator" + op, lambda I, c, op=op: self.mcmp(I, c, op))
        for u in NAMES:
            u += "::"
            M[u + u.split("::")[1]] = self.ctor
            M[u + "~" + u.split("::")[1]] = self.dtor
            M[u + "find"] = self.w(lambda I, c, m: self.it(I, c, self.lookup(I, m, c.args[0])))
            M[u + "count"] = self.w(lambda I, c, m: len(self.run(I, m, c.args[0])[1]))
            for n in ("begin", "cbegin"):
                M[u + n] = self.w(lambda I, c, m: self.it(I, c, ('hashit', m, (self.st(I)[m] + ['end'])[0])))
            for n in ("end", "cend"):
                M[u + n] = self.w(lambda I, c, m: self.it(I, c, ('hashit', m, 'end')))
            M[u + "size"] = self.w(lambda I, c, m: len(self.st(I)[m]))
            M[u + "empty"] = self.w(lambda I, c, m: int(not self.st(I)[m]))
            M[u + "clear"] = self.w(self.clear)
            M[u + "erase"] = self.w(self.merase)
            M[u + "insert"] = self.w(self.minsert)
            M[u + "equal_range"] = self.w(self.equal_range)
            M[u + "lower_bound"] = self.w(lambda I, c, m: self.it(I, c, self.bound(I, m, c.args[0], 0)))
            M[u + "upper_bound"] = self.w(lambda I, c, m: self.it(I, c, self.bound(I, m, c.args[0], 1)))
            M[u + "swap"] = self.w(lambda I, c, m: self.swap2(I, m, I.evloc(c.args[0])))

    def chain_(self, M, n, h):
        prev = M.get(n)

        def f(I, c):
            r = h(I, c)
            return prev(I, c) if r is NotImplemented and prev else r
        M[n] = f

    def ctor(self, I, c):
        if c.args and I.ty(c.args[0])["k"] == "rec" and I.ty(c.args[0]).get("ct") in NAMES:
            return NotImplemented
        self.st(I)[c.obj] = []
        return 0

    def dtor(self, I, c):
        self.st(I).pop(c.obj, None)
        return 0

    def stdswap(self, I, c, prev):
        t = I.ty(c.args[0])
        if t["k"] == "rec" and t.get("ct") in NAMES:
            a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
            if a in self.st(I):
                return self.swap2(I, a, b)
        return Hashes.stdswap(self, I, c, prev)

    def first(self, l):
        return ('F', l, 'first', 'std::pair')

    def run(self, I, m, a):
        """(index of the first entry with that key, the entries)."""
        k = self.keyloc(I, a)
        s = self.st(I)[m]
        r = [i for i, l in enumerate(s) if self.same(I, self.first(l), k, l)]
        return (r[0] if r else None), [s[i] for i in r]

    def bound(self, I, m, a, up):
        k, s = self.keyloc(I, a), self.st(I)[m]
        if self.order is None:
            raise ai.PathEnd("order of keys not modelled")
        o = self.order(I, k)
        for l in s:
            x = self.order(I, self.first(l))
            if x > o or not up and x == o:
                return ('hashit', m, l)
        return ('hashit', m, 'end')

    def equal_range(self, I, c, m):
        i, r = self.run(I, m, c.args[0])
        s = self.st(I)[m] + ['end']
        t = I.tmploc()
        if not r:
            a = b = self.bound(I, m, c.args[0], 0)[2] if self.order is not None else 'end'
        else:
            a, b = r[0], s[i + len(r)]
        I.store[('F', t, 'first', 'std::pair')] = ('hashit', m, a)
        I.store[('F', t, 'second', 'std::pair')] = ('hashit', m, b)
        return ('obj', t)

    def merase(self, I, c, m):
        if I.ty(c.args[0]).get("ct") in self.IT:
            if len(c.args) == 2:
                a, b = (self.norm(I, I.argval(x)) for x in c.args)
                if a is None or b is None:
                    raise ai.PathEnd('cut')
                s = self.st(I)[m] + ['end']
                i, j = s.index(a[2]), s.index(b[2])
                self.st(I)[m] = s[:i] + s[j:-1]
                return self.it(I, c, b)
            return self.erase(I, c, m)
        i, r = self.run(I, m, c.args[0])
        self.st(I)[m] = [x for x in self.st(I)[m] if x not in r]
        return len(r)

    def minsert(self, I, c, m):
        src = I.evloc(c.args[-1])
        I.ev('std', c.f["fn"], m, (), None, c.node)
        l = self.new(I, m)
        self.seqs.rekey(I, src, l, keep=True)
        s = self.st(I)[m]
        if self.order is not None:
            o = self.order(I, self.first(l))
            k = len([x for x in s if self.order(I, self.first(x)) <= o])
        else:
            r = [i for i, x in enumerate(s) if self.same(I, self.first(x), self.first(l), l)]
            k = r[-1] + 1 if r else len(s)
        self.st(I)[m] = s[:k] + [l] + s[k:]
        return self.it(I, c, ('hashit', m, l))

    def back(self, I, c):
        v = self.norm(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        for a in c.args:
            I.eval(a)
        s = self.st(I)[v[1]] + ['end']
        k = s.index(v[2]) - 1 if v[2] in s else -1
        if k < 0:
            self.misuse(I, c, "moves an iterator before the beginning")
        I.store[c.obj] = ('hashit', v[1], s[k])
        if c.args:
            return I.result(v, I.ty(c.node), None, c.node)
        return ('&', c.obj)

    def mcmp(self, I, c, op):
        if c.obj is None or len(c.args) != 1:
            return NotImplemented
        a, b = self.norm(I, ('obj', c.obj)), self.norm(I, I.argval(c.args[0]))
        if a is None or b is None:
            return NotImplemented
        return int((a == b) != (op == "!="))
