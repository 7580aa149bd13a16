"""Random interpretation of value-number terms: when two terms have different normal forms, they are evaluated
under random interpretations of their leaves that respect the path constraints.  Two equal values can never
come out different, so a difference is definite; agreement leaves the question undecided."""
import hashlib
import math
import random
from . import term as T
from .term import F, fadd, fsub, fscale
from .state import State
from . import spec


class Skip(Exception):
    pass


def prf(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=16).digest(), "little")


class Model:
    """a total assignment of the symbols"""

    def __init__(self, vals, seed):
        self.vals = vals
        self.seed = seed
        self.k0 = {}
        self.ks = {}
        self.memo = {}
        self.cwm = {}

    def form(self, f):
        c = f[0]
        for t, k in f[1]:
            c += k * self.ev(t)
        return c

    def byte(self, base, i):
        return prf(self.seed, "byte", base, i) & 0xff

    def collect(self, *vs):
        """fix, per chain, the chaining values that are taken as opaque: the first of every group of positions that lie
        close together (no term spells out the hundreds of compressions between two groups)"""
        ks = {n: set(x) for n, x in self.ks.items()}
        for v in vs:
            for t in T.leaves(v):
                if t.op == "cw":
                    k = self.form(t.a[1])
                    if k < 0:
                        raise Skip()
                    ks.setdefault(t.a[0], set()).add(k)
        self.ks = ks
        for n, x in ks.items():
            st = []
            last = None
            for k in sorted(x):
                if last is None or k - last > 400:
                    st.append(0 if k <= 64 else k)
                last = k
            self.k0[n] = st

    def chain(self, name, k):
        m = self.cwm.get((name, k))
        if m is not None:
            return m
        ch = spec.Chain.ALL[name]
        k0 = max((x for x in self.k0.get(name, (0,)) if x <= k), default=None)
        w = ch.alg.w
        if k0 is None or k - k0 > 4000 or k - k0 > 400 and k not in self.ks.get(name, ()):
            raise Skip()
        j = k
        while j > k0 and (name, j) not in self.cwm:
            j -= 1
        if j == k0 and (name, j) not in self.cwm:
            if k0 == 0:
                h = [self.ev(x) for x in ch.h0]
            else:
                h = [prf(self.seed, "cw", name, k0, i) & ((1 << w) - 1) for i in range(8)]
            self.cwm[(name, j)] = h
        h = self.cwm[(name, j)]
        wb = ch.alg.wb
        while j < k:
            if ch.first is not None and j == 0:
                m = [self.ev(x) for x in ch.first]
            else:
                off = self.form(ch.off) + j * ch.stride
                m = [sum(self.byte(ch.base, off + wb * i + b) << (8 * b) for b in range(wb)) for i in range(16)]
            c = self.form(ch.cnt) + (j + 1) * ch.alg.block
            h = spec.compress(ch.alg, h, m, c & ((1 << w) - 1), (c >> w) & ((1 << w) - 1), 0, 0)
            j += 1
            self.cwm[(name, j)] = h
        return h

    def ev(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        memo = self.memo
        r = memo.get(v)
        if r is not None:
            return r
        stack = [v]
        while stack:
            t = stack[-1]
            if t in memo:
                stack.pop()
                continue
            todo = [c for c in T.children(t) if c not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[t] = self.one(t)
            stack.pop()
        return memo[v]

    def one(self, t):
        op, w, a = t.op, t.w, t.a
        M = (1 << w) - 1
        g = lambda x: x if isinstance(x, int) else self.memo[x]
        if op == "sym" or op == "bsym":
            v = self.vals.get(t)
            if v is None:
                v = prf(self.seed, "sym", str(a[0]))
                if op == "bsym":
                    v &= 1
                self.vals[t] = v & M
            return v & M
        if op == "lin":
            return (a[0] + sum(k * g(x) for x, k in a[1])) & M
        if op in ("le0", "eq0"):
            v = a[0] + sum(k * g(x) for x, k in a[1])
            return int(v <= 0) if op == "le0" else int(v == 0)
        if op == "ld":
            i = self.form(a[1])
            return sum(self.byte(a[0], i + b) << (8 * b) for b in range(a[2]))
        if op == "cw":
            return self.chain(a[0], self.form(a[1]))[a[2]]
        if op == "cat":
            r = 0
            s = 0
            for x, ww in a:
                r |= (g(x) & ((1 << ww) - 1)) << s
                s += ww
            return r & M
        if op == "xor":
            r = 0
            for x in a:
                r ^= g(x)
            return r & M
        if op == "and":
            r = M
            for x in a:
                r &= g(x)
            return r
        if op == "or":
            r = 0
            for x in a:
                r |= g(x)
            return r & M
        if op == "rot":
            v = g(a[0]) & M
            return ((v >> a[1]) | (v << (w - a[1]))) & M
        if op == "ext":
            return (g(a[0]) >> a[1]) & M
        if op == "shl":
            return (g(a[0]) << a[1]) & M
        if op == "ite":
            return g(a[1]) & M if g(a[0]) else g(a[2]) & M
        if op == "mask":
            return M if g(a[0]) else 0
        if op == "bnot":
            return 1 - g(a[0])
        if op == "band":
            return int(all(g(x) for x in a))
        if op == "bor":
            return int(any(g(x) for x in a))
        if op == "beq":
            return int(g(a[0]) == g(a[1]))
        if op == "tab":
            i = g(a[0])
            return a[1][i] if i < len(a[1]) else 0
        if op == "mul":
            return (g(a[0]) * g(a[1])) & M
        raise Skip()


def open_symbols(st, *vs):
    """widening counters that the path does not express through the inputs"""
    acc = set()
    for v in vs:
        acc |= set(x for x in T.leaves(v) if x.op == "sym")
    for r in list(st.cons.rows) + list(st.cons.eqs) + list(st.cons.nes):
        for t, _ in r[1]:
            acc |= set(x for x in T.leaves(t) if x.op == "sym")
    return [x for x in acc if str(x.a[0]).startswith(("t0.", "t1.", "t2.", "t3.", "t4.", "t5."))]


def pick(lo, hi, rng, w):
    r = rng.random()
    if hi - lo <= 0:
        return lo
    if r < .35:
        return lo + rng.randrange(min(hi - lo, 2) + 1)
    if r < .75:
        return lo + rng.randrange(min(hi - lo, 600) + 1)
    if r < .9:
        return hi - rng.randrange(min(hi - lo, 600) + 1)
    return rng.randrange(lo, hi + 1)


def sample(st, syms, seed):
    """a model of the path constraints, or None"""
    rng = random.Random(seed)
    s = State()
    s.cons = st.cons
    order = sorted(syms, key=lambda t: t.id)
    # a truncation is tied to what it truncates: f = t + 2^w * z
    cut = set(t for r in list(st.cons.rows) + list(st.cons.eqs) + list(st.cons.nes) for t, _ in r[1] if t.op == "lin")
    ties = []
    if cut and len(cut) <= 4 and seed % 4:
        for i, t in enumerate(sorted(cut, key=lambda t: t.id)):
            z = T.sym("cut%d" % i, 64)
            if not s.assume_eq(fsub((t.a[0], t.a[1]), (0, tuple(sorted(((t, 1), (z, 1 << t.w)), key=T._aid))))):
                return None
            ties += [t, z]
    if seed % 3 == 1:
        order.reverse()
    elif seed % 3 == 2:
        rng.shuffle(order)
    for t in ties + order:
        if t in s.slog:
            continue
        if t.op == "bsym":
            r = s.decide(t)
            if r is None:
                if not s.assume(t, rng.random() < .5):
                    return None
            continue
        if str(t.a[0]).startswith("!"):
            continue
        f = (0, ((t, 1),))
        used = t in set(u for r in list(s.cons.rows) + list(s.cons.eqs) + list(s.cons.nes) for u, _ in r[1]) or any(t in T.leaves_cached(b) for b in list(s.cons.facts) + list(s.cons.clauses))
        if used:
            try:
                lo, hi = s.cons.minmax(f, "min"), s.cons.minmax(f, "max")
            except OverflowError:
                lo, hi = 0, (1 << t.w) - 1
        else:
            lo, hi = 0, (1 << t.w) - 1
        lo = max(0, math.ceil(lo))
        hi = min((1 << t.w) - 1, math.floor(hi))
        if lo > hi:
            return None
        v = pick(lo, hi, rng, t.w) if used else rng.randrange(lo, hi + 1)
        if not s.assume_eq(fsub(f, F(v))):
            return None
    vals = {}
    for t in order:
        if t in s.slog:
            g = s.slog[t]
            if g[1]:
                return None
            vals[t] = g[0]
        elif t.op == "bsym":
            vals[t] = int(bool(s.decide(t)))
    m = Model(vals, seed)
    # the assignment must satisfy everything the path knows
    try:
        for r in st.cons.rows:
            if m.form(r) > 0:
                return None
        for r in st.cons.eqs:
            if m.form(r) != 0:
                return None
        for r in st.cons.nes:
            if m.form(r) == 0:
                return None
        facts = list(st.cons.facts.items()) + [(c, True) for c in st.cons.clauses]
        lv = [b for b, _ in facts]
        m.collect(*lv)
        for b, v in facts:
            if bool(m.ev(b)) != v:
                return None
    except Skip:
        return None
    m.memo.clear()
    m.cwm.clear()
    m.k0.clear()
    m.ks.clear()
    return m


def refute(st, pairs, tries=24, outlen=None):
    """-> None, or (index, model values, got, expected) for a definite difference"""
    pairs = [tuple(st.simplify(st.resolve(x)) if isinstance(x, T.T) else x for x in p) for p in pairs]
    pairs = [(i, a, b) for i, (a, b) in enumerate(pairs) if not (a is b or (isinstance(a, int) and isinstance(b, int) and a == b))]
    if not pairs:
        return None
    if open_symbols(st, *[x for _, a, b in pairs for x in (a, b)]):
        return None
    syms = set()
    for _, a, b in pairs:
        for v in (a, b):
            syms |= set(x for x in T.leaves(v) if x.op in ("sym", "bsym"))
    for r in list(st.cons.rows) + list(st.cons.eqs) + list(st.cons.nes):
        for t, _ in r[1]:
            syms |= set(x for x in T.leaves(t) if x.op in ("sym", "bsym"))
    for b in list(st.cons.facts) + list(st.cons.clauses):
        syms |= set(x for x in T.leaves(b) if x.op in ("sym", "bsym"))
    found = 0
    for seed in range(tries):
        m = sample(st, syms, seed)
        if m is None:
            continue
        try:
            m.collect(*[x for _, a, b in pairs for x in (a, b)])
            for i, a, b in pairs:
                x, y = m.ev(a), m.ev(b)
                if outlen is not None and x != y:
                    # only the first `outlen` bytes can be observed
                    nb = m.form(st.rform(outlen)) if isinstance(outlen, tuple) else outlen
                    wb = (a.w if isinstance(a, T.T) else b.w) // 8
                    k = max(0, min(wb, nb - i * wb))
                    x &= (1 << (8 * k)) - 1
                    y &= (1 << (8 * k)) - 1
                if x != y:
                    # leaves that stand for uninitialised or unknown storage make the term unusable
                    vals = {str(t.a[0]): v for t, v in m.vals.items()}
                    return (i, vals, x, y)
        except Skip:
            continue
    return None
