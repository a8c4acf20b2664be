"""Concrete model of std::unordered_map for a few entries whose keys may be records; create it after mapmodel / seqmodel."""
import dom
from dom import c_eq, is_ptr
import ai

IT = ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator")


class Hashes:
    IT = IT

    def __init__(self, cfg, seqs):
        self.seqs = seqs
        M = cfg.models
        u = "std::unordered_map::"
        M[u + "unordered_map"] = self.ctor
        M[u + "find"] = self.w(lambda I, c, m: self.it(I, c, self.lookup(I, m, c.args[0])))
        M[u + "count"] = self.w(lambda I, c, m: int(self.lookup(I, m, c.args[0])[2] != 'end'))
        for n in ("begin", "cbegin"):
            M[u + n] = self.w(lambda I, c, m: self.it(I, c, ('hashit', m, (self.st(I)[m] + ['end'])[0])))
        for n in ("end", "cend"):
            M[u + n] = self.w(lambda I, c, m: self.it(I, c, ('hashit', m, 'end')))
        M[u + "size"] = self.w(lambda I, c, m: len(self.st(I)[m]))
        M[u + "empty"] = self.w(lambda I, c, m: int(not self.st(I)[m]))
        M[u + "clear"] = self.w(self.clear)
        M[u + "erase"] = self.w(self.erase)
        M[u + "operator[]"] = self.w(self.index)
        M[u + "at"] = self.w(self.index)
        M[u + "insert"] = self.w(self.insert)
        M[u + "emplace"] = self.w(self.emplace)
        M[u + "swap"] = self.w(lambda I, c, m: self.swap2(I, m, I.evloc(c.args[0])))
        for t in IT:
            M[t + "::" + t.rsplit("::", 1)[1]] = self.ictor
            M[t + "::operator="] = self.iasg
            M[t + "::operator*"] = self.deref
            M[t + "::operator->"] = self.deref
            M[t + "::operator++"] = self.step
        for op in ("==", "!="):
            M["std::__detail::operator" + op] = lambda I, c, op=op: self.cmp(I, c, op)
            for n in ("std::operator" + op,):
                seqs.chain(M, n, op) if n not in M else None
                prev = M.get(n)
                M[n] = lambda I, c, op=op, prev=prev: self.chained(I, c, op, prev)
        prevs = M.get("std::swap")
        M["std::swap"] = lambda I, c: self.stdswap(I, c, prevs)
        M["std::pair::operator="] = self.pairasg
        cfg.hashes = self

    def chained(self, I, c, op, prev):
        r = self.cmp(I, c, op)
        return prev(I, c) if r is NotImplemented and prev else r

    def st(self, I):
        return I.user.setdefault("hash", {})

    def put(self, I, m, nodes):
        """nodes: functions f(keyloc, valueloc)."""
        self.st(I)[m] = []
        for f in nodes:
            l = self.new(I, m)
            f(('F', l, 'first', 'std::pair'), ('F', l, 'second', 'std::pair'))
            self.st(I)[m].append(l)

    def new(self, I, m):
        n = I.user["nhash"] = I.user.get("nhash", 0) + 1
        return ('O', 'hn%d@%s' % (n, dom.showloc(m)))

    def nodes(self, I, m):
        return self.st(I).get(m)

    def w(self, h):
        def f(I, c):
            if c.obj not in self.st(I):
                return NotImplemented
            return h(I, c, c.obj)
        return f

    def it(self, I, c, t):
        return I.result(t, I.ty(c.node), None, c.node) if I.ty(c.node)["k"] == "rec" else t

    def ctor(self, I, c):
        args = [a for a in c.args if I.ty(a)["k"] == "rec" and I.ty(a).get("ct") == "std::unordered_map"]
        self.st(I)[c.obj] = []
        if args:
            src = I.evloc(args[0])
            if src not in self.st(I):
                del self.st(I)[c.obj]
                return NotImplemented
            for l in self.st(I)[src]:
                n = self.new(I, c.obj)
                self.seqs.rekey(I, l, n, keep=True)
                self.st(I)[c.obj].append(n)
        return 0

    def swap2(self, I, a, b):
        s = self.st(I)
        if b not in s:
            raise ai.PathEnd("swap with an unknown map")
        s[a], s[b] = s[b], s[a]
        return 0

    def stdswap(self, I, c, prev):
        t = I.ty(c.args[0])
        if t["k"] == "rec" and t.get("ct") == "std::unordered_map":
            a, b = I.evloc(c.args[0]), I.evloc(c.args[1])
            if a in self.st(I):
                return self.swap2(I, a, b)
        return prev(I, c) if prev else NotImplemented

    def norm(self, I, v):
        for _ in range(6):
            if isinstance(v, tuple) and v and v[0] in ('obj', '&'):
                v = I.store.get(v[1])
            else:
                break
        return v if isinstance(v, tuple) and v and v[0] == 'hashit' else None

    def leaves(self, I, loc):
        """Stored scalars at or below loc, by relative path."""
        out = {}
        for x in I.store:
            if x == loc:
                out[()] = I.store[x]
            elif x[0] in ('F', 'I') and I.under(x, loc):
                p, y = [], x
                while y != loc:
                    p.append(y[2])
                    z, y = y, y[1]
                if z[0] == 'F':        # not another element of the array loc starts
                    out[tuple(reversed(p))] = I.store[x]
        return out

    def same(self, I, a, b, tag):
        la, lb = self.leaves(I, a), self.leaves(I, b)
        for k in sorted(set(la) | set(lb), key=str):
            x = la.get(k, ('s', 'field %s of key' % (k,)))
            y = lb.get(k, ('s', 'field %s of key' % (k,)))
            c = c_eq(x, y)
            d = I.facts.decide(c)
            if d is None:
                d = bool(I.choose(2, ("hash", tag)))
                if not I.facts.assume(c, d):
                    raise ai.PathEnd('infeasible')
            if not d:
                return False
        return True

    def keyloc(self, I, a):
        t = I.ty(a)
        if t["k"] == "rec" or a.get("lv"):
            return I.evloc(a)
        l = I.tmploc()
        I.store[l] = I.eval(a)
        return l

    def lookup(self, I, m, a):
        k = self.keyloc(I, a)
        for l in self.st(I)[m]:
            if self.same(I, ('F', l, 'first', 'std::pair'), k, l):
                return ('hashit', m, l)
        return ('hashit', m, 'end')

    def clear(self, I, c, m):
        I.ev('std', c.f["fn"], m, (), None, c.node)
        self.st(I)[m] = []
        return 0

    def misuse(self, I, c, what):
        I.user.setdefault("misuse", []).append((c.node.get("l"), what, I.fr.fun.fn))
        raise ai.PathEnd('misuse')

    def erase(self, I, c, m):
        s = self.st(I)[m]
        I.ev('std', c.f["fn"], m, (), None, c.node)
        if I.ty(c.args[0]).get("ct") in self.IT:
            v = self.norm(I, I.argval(c.args[0]))
            if v is None:
                raise ai.PathEnd('cut')
            if v[2] not in s:
                self.misuse(I, c, "erases the end iterator or an erased entry")
            k = s.index(v[2])
            self.st(I)[m] = s[:k] + s[k + 1:]
            return self.it(I, c, ('hashit', m, (s[k + 1:] + ['end'])[0]))
        v = self.lookup(I, m, c.args[0])
        if v[2] == 'end':
            return 0
        self.st(I)[m] = [x for x in s if x != v[2]]
        return 1

    def typ(self, I, m, i):
        """Key (0) or mapped (1) type of a map."""
        return I.user.get("hashty", {}).get(m, (None, None))[i]

    def add(self, I, m, ka):
        l = self.new(I, m)
        t = I.ty(ka)
        kl = ('F', l, 'first', 'std::pair')
        if t["k"] == "rec":
            I.copy_obj(kl, I.evloc(ka), t)
        else:
            I.store[kl] = I.load(I.evloc(ka), t) if ka.get("lv") else I.eval(ka)
        self.st(I)[m] = self.st(I)[m] + [l]
        return l

    def index(self, I, c, m):
        v = self.lookup(I, m, c.args[0])
        l = v[2]
        if l == 'end':
            if c.f["n"] == "at":
                self.misuse(I, c, "looks up an entry that does not exist")
            l = self.add(I, m, c.args[0])
            I.ev('std', c.f["fn"], m, (), None, c.node)
            I.user.setdefault("defaulted", set()).add(l)
        return ('&', ('F', l, 'second', 'std::pair'))

    def insert(self, I, c, m):
        src = I.evloc(c.args[-1])
        I.ev('std', c.f["fn"], m, (), None, c.node)
        for l in self.st(I)[m]:
            if self.same(I, ('F', l, 'first', 'std::pair'), ('F', src, 'first', 'std::pair'), l):
                return self.pairres(I, c, m, l, 0)
        l = self.new(I, m)
        self.seqs.rekey(I, src, l, keep=True)
        self.st(I)[m] = self.st(I)[m] + [l]
        return self.pairres(I, c, m, l, 1)

    def pairres(self, I, c, m, l, ok):
        t = I.tmploc()
        I.store[('F', t, 'first', 'std::pair')] = ('hashit', m, l)
        I.store[('F', t, 'second', 'std::pair')] = ok
        return ('obj', t)

    def emplace(self, I, c, m):
        v = self.lookup(I, m, c.args[0])
        if v[2] != 'end':
            return self.pairres(I, c, m, v[2], 0)
        l = self.add(I, m, c.args[0])
        t = I.ty(c.args[1])
        vl = ('F', l, 'second', 'std::pair')
        if t["k"] == "rec":
            I.copy_obj(vl, I.evloc(c.args[1]), t)
        else:
            I.store[vl] = I.load(I.evloc(c.args[1]), t) if c.args[1].get("lv") else I.eval(c.args[1])
        return self.pairres(I, c, m, l, 1)

    def ictor(self, I, c):
        if not c.args:
            I.store[c.obj] = ('s', 'singular-iterator')
            return 0
        v = self.norm(I, I.argval(c.args[0]))
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return 0

    def iasg(self, I, c):
        v = self.norm(I, I.argval(c.args[0]))
        if v is None:
            return NotImplemented
        I.store[c.obj] = v
        return ('&', c.obj)

    def deref(self, I, c):
        v = self.norm(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        if v[2] not in self.st(I).get(v[1], []):
            self.misuse(I, c, "dereferences %s" % ("the end iterator" if v[2] == 'end' else "an iterator to an erased entry"))
        return ('&', v[2])

    def step(self, I, c):
        v = self.norm(I, ('obj', c.obj))
        if v is None:
            return NotImplemented
        for a in c.args:
            I.eval(a)
        s = self.st(I)[v[1]]
        if v[2] not in s:
            self.misuse(I, c, "moves an iterator to an erased entry or past the end")
        k = s.index(v[2]) + 1
        I.store[c.obj] = ('hashit', v[1], (s[k:] + ['end'])[0])
        if c.args:
            return I.result(v, I.ty(c.node), None, c.node)
        return ('&', c.obj)

    def cmp(self, I, c, op):
        if len(c.args) != 2 or not all(I.ty(a).get("ct") in self.IT or I.ty(a).get("ct") == "std::__detail::_Node_iterator_base" for a in c.args):
            return NotImplemented
        a, b = (self.norm(I, I.argval(x)) for x in c.args)
        if a is None or b is None:
            return I.fresh("itercmp", lo=0, hi=1)
        return int((a == b) != (op == "!="))

    def pairasg(self, I, c):
        t = I.ty(c.args[0])
        src = I.evloc(c.args[0])
        if src != c.obj:
            t0 = t["tu"].types[t["pt"]] if t["k"] in ("ref", "rref") else t
            ta = [t0["tu"].types[x[1]] for x in t0.get("ta", []) if x[0] == "t"]
            for n, ft in zip(("first", "second"), ta + [None, None]):
                s, d = ('F', src, n, 'std::pair'), ('F', c.obj, n, 'std::pair')
                if ft is not None and ft["k"] == "rec":
                    self.seqs.rekey(I, s, d, keep=True)
                else:
                    I.put(d, I.load(s, ft) if ft else I.load(s), c.node)
        return ('&', c.obj)
