"""Numeric abstract domain: conjunctions of integer linear (in)equalities over unsigned atoms, with gcd
tightening.  Entailment and emptiness by Fourier-Motzkin projection on the relevant rows.  All answers
"entailed"/"empty" are sound; "don't know" is possible."""
from math import gcd
from .term import T, F, fadd, fsub, fscale, _norm_le

LIMIT = 1500


def ub_of(t):
    if t.op == "ite" or t.op == "mask":
        v = []
        for x in t.a[1:]:
            if isinstance(x, int):
                v.append(x)
            elif isinstance(x, T):
                v.append(ub_of(x))
        if v and t.op == "ite":
            return max(v)
    if t.op == "lin" and len(t.a[1]) == 1 and t.a[0] == 0 and t.a[1][0][1] == 1:
        return min((1 << t.w) - 1, ub_of(t.a[1][0][0]))
    return (1 << t.w) - 1


def tighten(c, m):
    g = 0
    for k in m.values():
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        c = -((-c) // g)
        m = {t: k // g for t, k in m.items()}
    return c, m


class Cons:
    __slots__ = ("rows", "eqs", "nes", "cache", "bnd", "facts", "clauses")

    def __init__(self, rows=(), eqs=(), nes=(), facts=None, clauses=()):
        self.rows = rows          # forms <= 0
        self.eqs = eqs            # forms == 0
        self.nes = nes            # forms != 0
        self.facts = facts or {}  # opaque booleans -> truth
        self.clauses = clauses    # tuples of boolean terms, at least one holds
        self.cache = {}
        self.bnd = None

    # ---- interval layer
    def bounds(self):
        if self.bnd is None:
            lo, hi = {}, {}
            for f in list(self.rows) + list(self.eqs) + [fscale(e, -1) for e in self.eqs]:
                if len(f[1]) == 1:
                    t, k = f[1][0]
                    c = f[0]
                    if k > 0:
                        v = (-c) // k
                        if v < hi.get(t, v + 1):
                            hi[t] = v
                    else:
                        v = -((-c) // (-k)) if False else -(-c // -k) if False else _ceil(c, -k)
                        if v > lo.get(t, v - 1):
                            lo[t] = v
            self.bnd = (lo, hi)
        return self.bnd

    def irange(self, f):
        lo, hi = self.bounds()
        a = b = f[0]
        for t, k in f[1]:
            l = lo.get(t, 0)
            h = hi.get(t)
            if h is None:
                h = ub_of(t)
            if k > 0:
                a += k * l
                b += k * h
            else:
                a += k * h
                b += k * l
        return a, b

    # ---- entailment
    def le(self, f):
        """is f <= 0 entailed?"""
        c, m = f
        if not m:
            return c <= 0
        r = self.cache.get(f)
        if r is not None:
            return r
        a, b = self.irange(f)
        if b <= 0:
            r = True
        elif a > 0 :
            r = False
        else:
            r = None
            for g in self.rows:
                if g[1] == m and g[0] >= c:
                    r = True
                    break
            if r is None:
                r = self.infeasible_with(fsub(F(1), f))
        self.cache[f] = r
        return r

    def eq(self, f):
        if not f[1]:
            return f[0] == 0
        return self.le(f) and self.le(fscale(f, -1))

    def ne(self, f):
        """is f != 0 entailed?"""
        if not f[1]:
            return f[0] != 0
        g = 0
        for _, k in f[1]:
            g = gcd(g, k)
        if f[0] % g:
            return True
        if self.le(fadd(f, F(1))) or self.le(fsub(F(1), f)):
            return True
        nf = fscale(f, -1)
        for n in self.nes:
            if n == f or n == nf:
                return True
        return self.infeasible_eq(f)

    def infeasible_eq(self, f):
        key = ("eq", f)
        r = self.cache.get(key)
        if r is None:
            r = fm_infeasible(self, [f, fscale(f, -1)])
            self.cache[key] = r
        return r

    def infeasible_with(self, f):
        return fm_infeasible(self, [f])

    def minmax(self, f, want):
        """best provable integer bound (binary search over entailment from the interval bound)"""
        a, b = self.irange(f)
        if want == "min":
            g = fscale(f, -1)
            lo, hi = a, b
            # largest v with f >= v entailed
            if not self.le(fadd(g, F(lo))):
                return lo
            step = 1
            v = lo
            while v < hi and self.le(fadd(g, F(min(hi, v + step)))):
                v = min(hi, v + step)
                step *= 2
            while step > 1:
                step //= 2
                if v + step <= hi and self.le(fadd(g, F(v + step))):
                    v += step
            return v
        else:
            return -self.minmax(fscale(f, -1), "min")

    # ---- adding facts (returns new Cons or None when empty)
    def add_le(self, f):
        if not f[1]:
            return self if f[0] <= 0 else None
        n = _norm_le(f)
        if self.le(n):
            return self
        if self.le(fsub(F(1), n)):       # f >= 1 entailed
            return None
        rows = [g for g in self.rows if g[1] != n[1]]
        c = Cons(tuple(rows) + (n,), self.eqs, self.nes, self.facts, self.clauses)
        return c.recheck()

    def add_eq(self, f):
        if not f[1]:
            return self if f[0] == 0 else None
        if self.eq(f):
            return self
        if self.ne(f):
            return None
        c = Cons(self.rows, self.eqs + (f,), self.nes, self.facts, self.clauses)
        return c.recheck()

    def add_ne(self, f):
        if not f[1]:
            return self if f[0] != 0 else None
        if self.le(f):
            return self.add_le(fadd(f, F(1)))
        if self.le(fscale(f, -1)):
            return self.add_le(fsub(F(1), f))
        if f in self.nes:
            return self
        return Cons(self.rows, self.eqs, self.nes + (f,), self.facts, self.clauses)

    def recheck(self):
        c = self
        again = True
        while again:
            again = False
            for n in c.nes:
                if c.eq(n):
                    return None
                up = c.le(n)
                dn = c.le(fscale(n, -1))
                if up or dn:
                    nes = tuple(x for x in c.nes if x is not n)
                    g = fadd(n, F(1)) if up else fsub(F(1), n)
                    c = Cons(c.rows + (_norm_le(g),), c.eqs, nes, c.facts, c.clauses)
                    if fm_infeasible(c, [g]):
                        return None
                    again = True
                    break
        return c


def _ceil(c, k):
    # smallest x with -k*x + c <= 0  ->  x >= c/k
    return -((-c) // k)


def fm_infeasible(cons, extra):
    rows = []
    rel = set()
    for f in extra:
        for t, _ in f[1]:
            rel.add(t)
    pend_r = list(cons.rows)
    pend_e = list(cons.eqs)
    rr, ee = [], []
    changed = True
    while changed:
        changed = False
        nr = []
        for f in pend_r:
            if any(t in rel for t, _ in f[1]):
                rr.append(f)
                for t, _ in f[1]:
                    if t not in rel:
                        rel.add(t)
                        changed = True
            else:
                nr.append(f)
        pend_r = nr
        ne = []
        for f in pend_e:
            if any(t in rel for t, _ in f[1]):
                ee.append(f)
                for t, _ in f[1]:
                    if t not in rel:
                        rel.add(t)
                        changed = True
            else:
                ne.append(f)
        pend_e = ne
    work = [(f[0], dict(f[1])) for f in extra] + [(f[0], dict(f[1])) for f in rr]
    eqs = [(f[0], dict(f[1])) for f in ee]
    lo, hi = cons.bounds()
    for t in rel:
        work.append((-hi.get(t, ub_of(t)), {t: 1}))
        l = max(lo.get(t, 0), 0)
        work.append((l, {t: -1}))
    # equalities by substitution where a unit coefficient exists
    while eqs:
        c, m = eqs.pop()
        if not m:
            if c != 0:
                return True
            continue
        g = 0
        for k in m.values():
            g = gcd(g, k)
        if c % g:
            return True
        if g > 1:
            c //= g
            m = {t: k // g for t, k in m.items()}
        u = None
        for t, k in m.items():
            if k in (1, -1):
                u = t
                break
        if u is None:
            work.append((c, dict(m)))
            work.append((-c, {t: -k for t, k in m.items()}))
            continue
        ku = m.pop(u)
        # u = -(c + m)/ku
        def subst(row):
            rc, rm = row
            a = rm.pop(u, 0)
            if a:
                f = -a * ku          # since ku = +-1, 1/ku = ku
                rc += f * c
                for t, k in m.items():
                    v = rm.get(t, 0) + f * k
                    if v:
                        rm[t] = v
                    else:
                        rm.pop(t, None)
            return rc, rm
        work = [subst(r) for r in work]
        eqs = [subst(r) for r in eqs]
    # normalise and dedupe
    best = {}

    def push(c, m):
        if not m:
            return c > 0
        c, m = tighten(c, m)
        key = frozenset((t.id, k) for t, k in m.items())
        o = best.get(key)
        if o is None or o[0] < c:
            best[key] = (c, m)
        return False

    for c, m in work:
        if push(c, m):
            return True
    vars_ = set()
    for c, m in best.values():
        vars_.update(m)
    while vars_:
        cnt = {}
        for c, m in best.values():
            for t, k in m.items():
                p, n = cnt.get(t, (0, 0))
                cnt[t] = (p + 1, n) if k > 0 else (p, n + 1)
        if not cnt:
            return False
        x = min(cnt, key=lambda t: (cnt[t][0] * cnt[t][1] - cnt[t][0] - cnt[t][1], t.id))
        pos, neg, rest = [], [], []
        for key, (c, m) in best.items():
            k = m.get(x, 0)
            if k > 0:
                pos.append((c, m, k))
            elif k < 0:
                neg.append((c, m, -k))
            else:
                rest.append((c, m))
        best = {}
        for c, m in rest:
            push(c, m)
        for c1, m1, k1 in pos:
            for c2, m2, k2 in neg:
                g = gcd(k1, k2)
                a, b = k2 // g, k1 // g
                c = a * c1 + b * c2
                m = {}
                for t, k in m1.items():
                    if t is not x:
                        m[t] = a * k
                for t, k in m2.items():
                    if t is not x:
                        v = m.get(t, 0) + b * k
                        if v:
                            m[t] = v
                        else:
                            m.pop(t, None)
                if push(c, m):
                    return True
        if len(best) > LIMIT:
            return False
        vars_.discard(x)
    return False
