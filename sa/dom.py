"""Abstract values: integers, interned terms, affine combinations; facts (intervals over affine keys)."""

_intern = {}
_terms = []
tbounds = {}      # term id -> (lo, hi)


def tid(t):
    i = _intern.get(t)
    if i is None:
        i = len(_terms)
        _intern[t] = i
        _terms.append(t)
    return i


class Lin:
    """c + sum coef*term, at least one term."""
    __slots__ = ("c", "ts", "h")

    def __init__(self, c, ts):
        self.c = c
        self.ts = ts
        self.h = hash((c, ts))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.ts == o.ts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


def mk(c, d):
    ts = tuple(sorted((k, v) for k, v in d.items() if v))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return _terms[ts[0][0]]
    return Lin(c, ts)


def parts(v):
    """(const, {term id: coef})"""
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, dict(v.ts)
    return 0, {tid(v): 1}


def add(a, b, k=1):
    ca, da = parts(a)
    cb, db = parts(b)
    for t, v in db.items():
        da[t] = da.get(t, 0) + k * v
    return mk(ca + k * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = parts(a)
    return mk(c * k, {t: v * k for t, v in d.items()})


def isconst(v):
    return isinstance(v, (int, bool))


def mul(a, b):
    if isconst(a):
        return scale(b, int(a))
    if isconst(b):
        return scale(a, int(b))
    x, y = sorted([a, b], key=repr)
    return ('op', '*', x, y)


def show(v, d=0):
    if isinstance(v, Lin):
        s = []
        for t, k in v.ts:
            x = show(_terms[t], d + 1)
            s.append(x if k == 1 else ("-" + x if k == -1 else "%d*%s" % (k, x)))
        if v.c:
            s.append(str(v.c))
        return "(" + "+".join(s).replace("+-", "-") + ")"
    if isinstance(v, tuple):
        if d > 6:
            return "..."
        if v and v[0] == '&':
            return "&" + showloc(v[1], d + 1)
        if v and v[0] == 'ld':
            return showloc(v[1], d + 1) + ("'" * min(v[2], 3) if len(v) > 2 and isinstance(v[2], int) else "")
        if v and v[0] == 's':
            return str(v[1])
        if v and v[0] == 'op':
            return str(v[1]) + "(" + ",".join(show(x, d + 1) for x in v[2:]) + ")"
        if v and v[0] in ('eq', 'lt'):
            return show(v[1], d + 1) + ("==0" if v[0] == 'eq' else "<0")
        if v and v[0] == 'not':
            return "!" + show(v[1], d + 1)
        return "(" + ",".join(show(x, d + 1) for x in v) + ")"
    return str(v)


def showloc(l, d=0):
    if not isinstance(l, tuple):
        return str(l)
    if d > 8:
        return "..."
    k = l[0]
    if k == 'F':
        b = showloc(l[1], d + 1)
        return b + "." + str(l[2])
    if k == 'I':
        return showloc(l[1], d + 1) + "[" + show(l[2], d + 1) + "]"
    if k == 'D':
        return "*" + show(l[1], d + 1)
    if k == 'L':
        return str(l[3])
    if k == 'O':
        return str(l[1])
    if k == 'G':
        return str(l[1])
    if k == 'H':
        return "new#%s" % l[1]
    if k == 'T':
        return "tmp#%s" % l[1]
    return "(" + ",".join(show(x, d + 1) for x in l) + ")"


def is_ptr(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == '&'


def root(l):
    while l[0] in ('F', 'I'):
        l = l[1]
    return l


def concrete(l):
    return root(l)[0] in ('L', 'H', 'T', 'G', 'O')


# ---- conditions:  True/False, ('eq', lin), ('lt', lin), ('not', ('eq', lin)), other term = opaque truth
def c_eq(a, b):
    d = sub(a, b)
    if isconst(d):
        return int(d == 0)
    c, t = parts(d)
    # normalise the sign: first term positive
    k = min(t)
    if t[k] < 0:
        d = scale(d, -1)
        c, t = parts(d)
    if c == 0 and len(t) == 2:
        pt = [_terms[x] for x in t]
        if all(is_ptr(x) for x in pt) and sum(t.values()) == 0:
            la, lb = pt[0][1], pt[1][1]
            if la != lb and distinct(la, lb):
                return 0
    if len(t) == 1 and is_ptr(_terms[next(iter(t))]):
        return 0        # the address of an object is not null
    if isinstance(c, int) and len(t) >= 1:
        g = 0
        for v in t.values():
            g = _gcd(g, abs(v))
        if g > 1 and c % g != 0:
            return 0
    return ('eq', d)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def distinct(la, lb):
    """Two locations that cannot be the same."""
    ra, rb = root(la), root(lb)
    if ra == rb:
        # same root: differ if same shape with a different field
        if la[0] == 'F' and lb[0] == 'F' and la[1] == lb[1]:
            return la[2] != lb[2]
        if la[0] == 'I' and lb[0] == 'I' and la[1] == lb[1] and isconst(la[2]) and isconst(lb[2]):
            return la[2] != lb[2]
        return False
    if ra[0] == 'O' and rb[0] == 'O' and len(ra) == 3 and len(rb) == 3:
        return True     # objects a rule set up as different ones
    if ra[0] in ('L', 'H', 'T', 'G') and rb[0] in ('L', 'H', 'T', 'G', 'O', 'D'):
        return rb[0] != 'D' or ra[0] in ('H', 'T', 'L')
    if rb[0] in ('L', 'H', 'T', 'G') and ra[0] in ('O', 'D'):
        return ra[0] != 'D' or rb[0] in ('H', 'T', 'L')
    return False


def c_lt(a, b):
    d = sub(a, b)
    if isconst(d):
        return int(d < 0)
    return ('lt', d)


def c_not(c):
    if isconst(c):
        return int(not c)
    if c[0] == 'not':
        return c[1]
    if c[0] == 'lt':
        # not (d < 0)  <=>  -d - 1 < 0  over the integers
        return ('lt', sub(scale(c[1], -1), 1))
    return ('not', c)


class Facts:
    """Path facts: truth of opaque conditions and intervals of affine keys."""
    __slots__ = ("truth", "iv", "ne", "bad")

    def __init__(self):
        self.truth = {}
        self.iv = {}
        self.ne = {}
        self.bad = False

    @staticmethod
    def key(d):
        """(key, sign, const): d = sign*key + const, key normalised"""
        c, t = parts(d)
        k = min(t)
        g = 0
        for v in t.values():
            g = _gcd(g, abs(v))
        s = g if t[k] > 0 else -g
        key = tuple(sorted((x, v // s) for x, v in t.items()))
        return key, s, c

    def bounds_key(self, key):
        lo, hi = self.iv.get(key, (None, None))
        if len(key) == 1:
            t, v = key[0]
            tl, th = tbounds.get(t, (None, None))
            if tl is not None and (lo is None or tl > lo):
                lo = tl
            if th is not None and (hi is None or th < hi):
                hi = th
        return lo, hi

    def bounds(self, d, deep=True):
        """(lo, hi) of a value"""
        if isconst(d):
            return int(d), int(d)
        key, s, c = self.key(d)
        lo, hi = self.bounds_key(key)
        if deep and len(key) > 1:
            l2 = h2 = 0
            for t, v in key:
                tl, th = self.bounds_key(((t, 1),))
                a, b = (tl, th) if v > 0 else (th, tl)
                l2 = None if l2 is None or a is None else l2 + v * a
                h2 = None if h2 is None or b is None else h2 + v * b
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
            # split into two known keys (bounded transitivity)
            if len(key) <= 4:
                dk = dict(key)
                for k2, (kl, kh) in list(self.iv.items()):
                    if len(k2) < 2 or k2 == key:
                        continue
                    for sg in (1, -1):
                        r = dict(dk)
                        for t, v in k2:
                            r[t] = r.get(t, 0) - sg * v
                        r = {t: v for t, v in r.items() if v}
                        if len(r) >= len(dk) + 1:
                            continue
                        a, b = (kl, kh) if sg > 0 else (None if kh is None else -kh, None if kl is None else -kl)
                        if a is None and b is None:
                            continue
                        if r:
                            rl, rh = self.bounds(mk(0, r), deep=False) if len(r) > 1 else self._b1(r)
                        else:
                            rl = rh = 0
                        if a is not None and rl is not None and (lo is None or a + rl > lo):
                            lo = a + rl
                        if b is not None and rh is not None and (hi is None or b + rh < hi):
                            hi = b + rh
        if s < 0:
            lo, hi = (None if hi is None else hi * s), (None if lo is None else lo * s)
        else:
            lo, hi = (None if lo is None else lo * s), (None if hi is None else hi * s)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def _b1(self, r):
        (t, v), = r.items()
        lo, hi = self.bounds_key(((t, 1),))
        if v < 0:
            return (None if hi is None else hi * v), (None if lo is None else lo * v)
        return (None if lo is None else lo * v), (None if hi is None else hi * v)

    def decide(self, c):
        """True, False or None"""
        if isconst(c):
            return bool(c)
        if c[0] == 'not':
            r = self.decide(c[1])
            return None if r is None else not r
        if c in self.truth:
            return self.truth[c]
        if c[0] == 'eq':
            lo, hi = self.bounds(c[1])
            if lo is not None and lo == hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            key, s, k = self.key(c[1])
            if k % s == 0 and (-k // s) in self.ne.get(key, ()):
                return False
            return None
        if c[0] == 'lt':
            lo, hi = self.bounds(c[1])
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            return None
        return None

    def assume(self, c, v):
        """Records that c has truth value v; returns False when contradictory."""
        d = self.decide(c)
        if d is not None:
            if d != v:
                self.bad = True
            return d == v
        if c[0] == 'not':
            return self.assume(c[1], not v)
        self.truth[c] = v
        if c[0] == 'eq':
            key, s, k = self.key(c[1])
            if k % s == 0:
                x = -k // s
                if v:
                    self.iv[key] = (x, x)
                else:
                    self.ne.setdefault(key, set()).add(x)
                    self.tighten(key)
            elif v:
                return False
        elif c[0] == 'lt':
            d = c[1] if v else sub(scale(c[1], -1), 1)   # d < 0
            key, s, k = self.key(d)
            # s*key + k < 0
            lo, hi = self.iv.get(key, (None, None))
            if s > 0:
                b = (-k - 1) // s
                hi = b if hi is None else min(hi, b)
            else:
                # key > k/(-s)  =>  key >= floor(k/(-s)) + 1
                b = k // (-s) + 1
                lo = b if lo is None else max(lo, b)
            self.iv[key] = (lo, hi)
            self.tighten(key)
        return True

    def tighten(self, key):
        lo, hi = self.bounds_key(key)
        ne = self.ne.get(key, ())
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if lo is not None or hi is not None:
            self.iv[key] = (lo, hi)


# ---- refutation of an equality by a concrete valuation of its symbols
POOL = (0, 1, 2, 3, 5, 7, 8, 16, 63, 64, 511, 512, 513, 4095, 4096, 4097, 8192, 65535, 65536, 1 << 20, (1 << 20) + 1, (1 << 31) - 1,
        1 << 31, (1 << 31) + 7, 1 << 32, (1 << 32) + 1, (1 << 32) + 4096, (1 << 36) + 12345, (1 << 40) + 4096, 1 << 45)


def leaves(v, out):
    """Leaf terms of a value."""
    if isconst(v):
        return
    if isinstance(v, Lin):
        for t, _ in v.ts:
            leaves(_terms[t], out)
        return
    if isinstance(v, tuple) and v and v[0] == 'op' and v[1] in OPS:
        for x in v[2:]:
            leaves(x, out)
        return
    if isinstance(v, tuple) and v and v[0] in ('eq', 'lt', 'not'):
        leaves(v[1], out)
        return
    out.add(v)


def _sx(a, w):
    a &= (1 << w) - 1
    return a - (1 << w) if a >> (w - 1) else a


OPS = {"*": lambda a, b: a * b, "/": lambda a, b: a // b if b > 0 and a >= 0 else None, "%": lambda a, b: a % b if b > 0 else None,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
       "<<": lambda a, b: a << b if 0 <= b < 64 else None, ">>": lambda a, b: a >> b if 0 <= b < 64 else None, "sx": _sx}


def evaluate(v, env):
    """Integer value under env (leaf -> int), None when it cannot be computed."""
    if isconst(v):
        return int(v)
    if isinstance(v, Lin):
        s = v.c
        for t, k in v.ts:
            x = evaluate(_terms[t], env)
            if x is None:
                return None
            s += k * x
        return s
    if v in env:
        return env[v]
    if isinstance(v, tuple) and v:
        if v[0] == 'op' and v[1] in OPS:
            a = [evaluate(x, env) for x in v[2:]]
            return None if any(x is None for x in a) else OPS[v[1]](*a)
        if v[0] in ('eq', 'lt'):
            x = evaluate(v[1], env)
            return None if x is None else int(x == 0 if v[0] == 'eq' else x < 0)
        if v[0] == 'not':
            x = evaluate(v[1], env)
            return None if x is None else int(not x)
    return None


def witness(facts, cond, seed=1, tries=4000):
    """A valuation of all leaf symbols satisfying the path facts under which cond is false; None when none is found."""
    import random
    rnd = random.Random(seed)
    ls = set()
    leaves(cond, ls)
    if evaluate(cond, {l: 1 for l in ls}) is None:
        return None
    rel, grew = [], True
    conds = list(facts.truth.items())
    while grew:
        grew = False
        for c, v in conds:
            if (c, v) in rel:
                continue
            s = set()
            leaves(c, s)
            if s & ls:
                rel.append((c, v))
                if not s <= ls:
                    ls |= s
                    grew = True
    ls = sorted(ls, key=repr)
    if len(ls) > 14:
        return None
    ivs = [(mk(0, dict(k)), b) for k, b in facts.iv.items()]

    def fits(env):
        for l in ls:
            lo, hi = tbounds.get(tid(l), (None, None))
            if (lo is not None and env[l] < lo) or (hi is not None and env[l] > hi):
                return False
        for c, v in rel:
            x = evaluate(c, env)
            if x is not None and bool(x) != v:
                return False
        for k, (lo, hi) in ivs:
            x = evaluate(k, env)
            if x is not None and ((lo is not None and x < lo) or (hi is not None and x > hi)):
                return False
        return True
    for i in range(tries):
        m = rnd.random()
        env = {}
        for l in ls:
            lo, hi = tbounds.get(tid(l), (None, None))
            if hi is not None and lo is not None and hi - lo < 5000:
                env[l] = rnd.randint(lo, hi)
            else:
                env[l] = rnd.choice(POOL) if m < 0.6 else rnd.randrange(0, 20) if m < 0.9 else rnd.choice(POOL) + rnd.randrange(0, 9)
        # derived leaves: repair equalities  l = rest
        for c, v in rel:
            if v and c[0] == 'eq':
                _, d = parts(c[1])
                for t, k in d.items():
                    if abs(k) == 1 and _terms[t] in env and len(d) > 1:
                        x = evaluate(c[1], env)
                        if x is not None and x != 0:
                            env[_terms[t]] -= x * k
                        break
        if fits(env) and evaluate(cond, env) == 0:
            return env
    return None


# ---- polyhedra over the interval facts of a path (Fourier-Motzkin elimination, rational)
def _constraints(facts, extra=()):
    cs = []
    terms = set()
    for key, (lo, hi) in list(facts.iv.items()) + list(extra):
        d = dict(key)
        terms |= set(d)
        if hi is not None:
            cs.append((d, -hi))
        if lo is not None:
            cs.append(({t: -v for t, v in d.items()}, lo))
    for t in terms:
        lo, hi = tbounds.get(t, (None, None))
        if hi is not None:
            cs.append(({t: 1}, -hi))
        if lo is not None:
            cs.append(({t: -1}, lo))
    return cs      # each: sum(d) + c <= 0


def _empty(cs, limit=3000):
    """True when the rational constraints have no solution (False: unknown or satisfiable)."""
    from math import gcd

    def norm(d, c):
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {t: v // g for t, v in d.items()}
            c = -((-c) // g)          # integers: floor of the right-hand side
        return d, c
    work = {}
    for d, c in cs:
        if not d:
            if c > 0:
                return True
            continue
        d, c = norm(d, c)
        k = tuple(sorted(d.items()))
        if k not in work or work[k] < c:
            work[k] = c
    while work:
        cnt = {}
        for k in work:
            for t, v in k:
                p, n = cnt.get(t, (0, 0))
                cnt[t] = (p + 1, n) if v > 0 else (p, n + 1)
        t = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(dict(k), c) for k, c in work.items() if dict(k).get(t, 0) > 0]
        neg = [(dict(k), c) for k, c in work.items() if dict(k).get(t, 0) < 0]
        work = {k: c for k, c in work.items() if not dict(k).get(t, 0)}
        for dp, cp in pos:
            for dn, cn in neg:
                a, b = dp[t], -dn[t]
                r = {}
                for x, v in dp.items():
                    r[x] = r.get(x, 0) + v * b
                for x, v in dn.items():
                    r[x] = r.get(x, 0) + v * a
                c = cp * b + cn * a
                r = {x: v for x, v in r.items() if v}
                if not r:
                    if c > 0:
                        return True
                    continue
                r, c = norm(r, c)
                k = tuple(sorted(r.items()))
                if k not in work or work[k] < c:
                    work[k] = c
        if len(work) > limit:
            return False
    return False


def infeasible(facts):
    return _empty(_constraints(facts))


def entails(facts, c):
    """True/False when the linear facts of the path prove or refute the condition, else None."""
    if isconst(c):
        return bool(c)
    if c[0] == 'not':
        r = entails(facts, c[1])
        return None if r is None else not r
    d0 = facts.decide(c)
    if d0 is not None:
        return d0
    if c[0] not in ('eq', 'lt'):
        return None
    d = c[1]
    cc, t = parts(d)
    key = tuple(sorted(t.items()))

    def emp(lo, hi):
        return _empty(_constraints(facts, [(key, (lo, hi))]))
    if c[0] == 'lt':
        if emp(-cc, None):
            return True
        if emp(None, -cc - 1):
            return False
        return None
    if emp(-cc, -cc):
        return False
    if emp(-cc + 1, None) and emp(None, -cc - 1):
        return True
    return None
