"""Abstract values, memory and path facts."""
from . import term as T
from .term import F, fadd, fsub, fscale, fatom
from .cons import Cons
from .load import Imprecise


class Ptr:
    __slots__ = ("o", "off", "rng")

    def __init__(self, o, off=0, rng=None):
        if type(off) is tuple and not off[1]:
            off = off[0]
        self.o = o
        self.off = off
        self.rng = rng

    def __eq__(self, p):
        return type(p) is Ptr and p.o == self.o and p.off == self.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.o, self.off if isinstance(self.off, int) else T.show_form(self.off))


class FnP:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, p):
        return type(p) is FnP and p.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "fn:" + self.key


class Sel:
    """selection between two non-numeric values"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return type(o) is Sel and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))

    def __repr__(self):
        return "sel(%r,%r,%r)" % (self.c, self.a, self.b)


class Blob:
    __slots__ = ("size", "cells")

    def __init__(self, size, cells):
        self.size = size
        self.cells = cells

    def __eq__(self, o):
        return type(o) is Blob and o.size == self.size and o.cells == self.cells

    def __repr__(self):
        return "Blob(%s,%s)" % (self.size, {k: v[1] for k, v in sorted(self.cells.items())})


class Arr:
    """byte array described by layers, newest first; every coordinate is relative to the array start.
    layer = (start, end, kind, payload, delta): byte x of the layer is byte x+delta of the payload.
    kinds: ld (base array name) | fill (byte) | val (value,nbytes: byte x+delta of the value) | arr (Arr) |
    top (opaque id)"""
    __slots__ = ("size", "layers")

    def __init__(self, size, layers):
        self.size = size
        self.layers = layers

    def __eq__(self, o):
        return type(o) is Arr and o.size == self.size and o.layers == self.layers

    def __hash__(self):
        return hash((self.size, len(self.layers)))

    def __repr__(self):
        def z(f):
            return T.show_form(f) if isinstance(f, tuple) else str(f)
        return "Arr%d[%s]" % (self.size, "; ".join("%s..%s %s %s+%s" % (z(s), z(e), k, p if not isinstance(p, tuple) else "v", z(d)) for s, e, k, p, d in self.layers))


def fm(x):
    return x if type(x) is tuple else (x, ())


def ival(x):
    """int if constant form"""
    if type(x) is tuple:
        if not x[1]:
            return x[0]
    return x


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class ForkNeeded(Exception):
    def __init__(self, cond):
        self.cond = cond


class Obj:
    __slots__ = ("kind", "size", "cells", "own", "name", "align", "data")

    def __init__(self, kind, size, cells, own, name=None, align=1, data=None):
        self.kind = kind      # mem | base | const
        self.size = size      # int, form or None
        self.cells = cells
        self.own = own
        self.name = name
        self.align = align
        self.data = data


class State:
    __slots__ = ("mem", "cons", "tok", "slog", "trace", "ghost", "ren")

    def __init__(self):
        self.mem = {}
        self.cons = Cons()
        self.tok = object()
        self.slog = {}
        self.trace = ()
        self.ghost = {}
        self.ren = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.tok = object()
        self.tok = object()
        s.slog = dict(self.slog)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.ren = self.ren
        return s

    def own(self, oid):
        o = self.mem[oid]
        if o.own is not self.tok:
            o = Obj(o.kind, o.size, dict(o.cells), self.tok, o.name, o.align, o.data)
            self.mem[oid] = o
        return o

    # ---------------------------------------------------------------- numeric views
    def exact(self, v):
        """integer linear form equal to the unsigned value of v"""
        if isinstance(v, bool):
            return (int(v), ())
        if isinstance(v, int):
            return (v, ())
        if v.op == "lin":
            f = v.a
            m = 1 << v.w
            a, b = self.cons.irange(f)
            if a >= 0 and b < m:
                return f
            if (a >= 0 or self.cons.le(fscale(f, -1))) and (b < m or self.cons.le(fadd(f, F(1 - m)))):
                return f
            if f[0] < 0:
                g = fadd(f, F(m))
                # c was normalised to a signed constant; try the unsigned reading
                a, b = self.cons.irange(g)
                if a >= 0 and b < m:
                    return g
            return (0, ((v, 1),))
        return (0, ((v, 1),))

    def decide(self, b):
        if b is True or b is False:
            return b
        if isinstance(b, int):
            return bool(b)
        op = b.op
        c = self.cons
        if op == "le0":
            if c.le(b.a):
                return True
            if c.le(fsub(F(1), b.a)):
                return False
            return self._fact(b)
        if op == "eq0":
            if c.eq(b.a):
                return True
            if c.ne(b.a):
                return False
            return self._fact(b)
        if op == "bnot":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if op == "band":
            res = True
            for x in b.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None:
                return self._fact(b)
            return res
        if op == "bor":
            res = False
            for x in b.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None:
                return self._fact(b)
            return res
        return self._fact(b)

    def _fact(self, b):
        return self.cons.facts.get(b)

    def with_fact(self, b, v):
        c = self.cons
        f = dict(c.facts)
        f[b] = v
        n = Cons(c.rows, c.eqs, c.nes, f, c.clauses)
        n.cache = c.cache
        n.bnd = c.bnd
        self.cons = n

    def assume(self, b, truth=True):
        """restrict the state; returns False if it becomes empty"""
        if not truth:
            b = T.bnot(b)
        if b is True:
            return True
        if b is False:
            return False
        r = self.decide(b)
        if r is not None:
            return r
        op = b.op
        if op == "le0":
            c = self.cons.add_le(b.a)
            if c is None:
                return False
            self.cons = c
            # implied equality
            if c.eq(b.a) and len(b.a[1]) >= 1:
                return self.assume_eq(b.a)
            return self.propagate()
        if op == "eq0":
            return self.assume_eq(b.a) and self.propagate()
        if op == "bnot":
            x = b.a[0]
            if x.op == "eq0":
                c = self.cons.add_ne(x.a)
                if c is None:
                    return False
                self.cons = c
                return self.propagate()
            self.with_fact(x, False)
            return self.propagate()
        if op == "band":
            for x in b.a:
                if not self.assume(x):
                    return False
            return True
        if op == "bor":
            c = self.cons
            n = Cons(c.rows, c.eqs, c.nes, c.facts, c.clauses + (b,))
            n.cache = c.cache
            n.bnd = c.bnd
            self.cons = n
            self.with_fact(b, True)
            return self.propagate()
        self.with_fact(b, True)
        return self.propagate()

    def propagate(self):
        cl = self.cons.clauses
        for b in cl:
            und = []
            sat = False
            for x in b.a:
                r = self.decide(x)
                if r is True:
                    sat = True
                    break
                if r is None:
                    und.append(x)
            if sat:
                continue
            if not und:
                return False
            if len(und) == 1:
                c = self.cons
                n = Cons(c.rows, c.eqs, c.nes, c.facts, tuple(y for y in c.clauses if y is not b))
                n.cache = dict(c.cache)
                n.bnd = c.bnd
                self.cons = n
                return self.assume(und[0])
        return True

    def assume_eq(self, f):
        # pick a substitutable symbol with unit coefficient
        best = None
        for t, k in f[1]:
            if k in (1, -1) and t.op == "sym" and not str(t.a[0]).startswith("!"):
                others = tuple((u, c) for u, c in f[1] if u is not t)
                ok = True
                for u, _ in others:
                    if t in T.leaves(u):
                        ok = False
                        break
                if ok:
                    # prefer eliminating the most recently created symbol
                    if best is None or t.id > best[0].id:
                        best = (t, k)
        if best is None:
            c = self.cons.add_eq(f)
            if c is None:
                return False
            self.cons = c
            return True
        t, k = best
        g = (f[0], tuple((u, c) for u, c in f[1] if u is not t))
        g = fscale(g, -k)
        return self.subst(t, g)

    def subst(self, t, g):
        """replace symbol t by the form g everywhere"""
        cons = self.cons
        lo, hi = cons.bounds()
        top = (1 << t.w) - 1
        repl = g[0] if not g[1] else T.lin(t.w, g[0], g[1])
        # integer-level replacement: forms use g directly
        memo = {}

        def fn(x):
            if x is t:
                return SubstForm(g, t.w)
            return None
        sub = Substituter(t, g)
        rows = []
        c = Cons((), (), (), {}, ())
        new = c
        for r in cons.rows:
            new = new and new.add_le(sub.form(r))
        if new is None:
            return False
        new = new.add_le(fscale(g, -1))
        new = new and new.add_le(fadd(g, F(-top)))
        if new is None:
            return False
        for r in cons.eqs:
            new = new and new.add_eq(sub.form(r))
        if new is None:
            return False
        for r in cons.nes:
            new = new and new.add_ne(sub.form(r))
        if new is None:
            return False
        facts = {}
        pend = []
        for b, v in cons.facts.items():
            b2 = sub.val(b)
            if b2 is b:
                facts[b] = v
            else:
                pend.append((b2, v))
        cl = tuple(sub.val(b) for b in cons.clauses)
        n = Cons(new.rows, new.eqs, new.nes, facts, tuple(b for b in cl if isinstance(b, T.T) and b.op == "bor"))
        self.cons = n
        for oid, o in list(self.mem.items()):
            if o.kind == "mem":
                ch = None
                for k, (sz, v) in o.cells.items():
                    v2 = sub.val(v)
                    if v2 is not v:
                        if ch is None:
                            ch = {}
                        ch[k] = (sz, v2)
                if ch:
                    self.own(oid).cells.update(ch)
            if isinstance(o.size, tuple):
                ns = sub.form(o.size)
                if ns is not o.size:
                    self.own(oid).size = ns
            if o.kind == "base" and isinstance(o.data, tuple):
                ns = sub.form(o.data)
                if ns is not o.data:
                    self.own(oid).data = ns
        for k, v in list(self.slog.items()):
            self.slog[k] = sub.form(v)
        self.slog[t] = g
        for k, v in list(self.ghost.items()):
            self.ghost[k] = sub.val(v)
        for b2, v in pend:
            if not self.assume(b2, v):
                return False
        for b in cl:
            if isinstance(b, bool):
                if not b:
                    return False
            elif b.op != "bor":
                if not self.assume(b):
                    return False
        return True

    def resolve(self, v):
        """rewrite a value written over original symbols into this state's symbols"""
        for t, g in self.slog.items():
            v = Substituter(t, g).val(v)
        return v

    def rform(self, f):
        for t, g in self.slog.items():
            f = Substituter(t, g).form(f)
        return f

    def simplify(self, v, depth=0):
        """resolve selections whose condition this state decides"""
        if not isinstance(v, T.T):
            if isinstance(v, Blob):
                return Blob(v.size, {k: (s, self.simplify(x)) for k, (s, x) in v.cells.items()})
            if isinstance(v, Sel):
                r = self.decide(v.c)
                if r is None:
                    return v
                return self.simplify(v.a if r else v.b)
            return v

        def fn(t):
            if t.w == 1 and t.op in ("le0", "eq0", "bnot", "band", "bor", "bsym", "beq"):
                r = self.decide(t)
                if r is not None:
                    return r
                if t.op in ("le0", "eq0", "bsym", "beq"):
                    return t
            if t.op == "ext" and t.a[1] and isinstance(t.a[0], T.T) and t.a[0].op in ("lin", "sym"):
                f = self.exact(t.a[0])
                if self.cons.le(fadd(f, F(1 - (1 << t.a[1])))):
                    return 0
            if not has_bool(t):
                return t
            if t.op == "cw":
                return t
            return None
        return T.rebuild(v, fn, {})


HB = {}
DEC = ("le0", "eq0", "bnot", "band", "bor", "bsym", "beq")


def decidable_here(t):
    if t.w == 1 and t.op in DEC:
        return True
    return t.op == "ext" and t.a[1] and isinstance(t.a[0], T.T) and t.a[0].op in ("lin", "sym")


def has_bool(t):
    """does t contain a subterm that a state may decide?"""
    r = HB.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in HB:
            stack.pop()
            continue
        if decidable_here(x):
            HB[x] = True
            stack.pop()
            continue
        if x.op == "cw":
            HB[x] = False
            stack.pop()
            continue
        ch = T.children(x)
        todo = [c for c in ch if c not in HB]
        if todo:
            stack.extend(todo)
            continue
        HB[x] = any(HB[c] for c in ch)
        stack.pop()
    return HB[t]


class SubstForm:
    def __init__(self, g, w):
        pass


class Substituter:
    CACHE = {}

    def __new__(cls, t, g):
        k = (t, g)
        s = cls.CACHE.get(k)
        if s is None:
            s = object.__new__(cls)
            s.t = t
            s.g = g
            s.memo = {t: (g[0] & ((1 << t.w) - 1)) if not g[1] else T.lin(t.w, g[0], g[1])}
            s.vm = {}
            cls.CACHE[k] = s
        return s

    def form(self, f):
        if type(f) is not tuple:
            return f
        hit = False
        c = f[0]
        d = {}
        for u, k in f[1]:
            if u is self.t:
                hit = True
                c += k * self.g[0]
                for x, kk in self.g[1]:
                    d[x] = d.get(x, 0) + k * kk
            else:
                v = self.term(u)
                if v is not u:
                    hit = True
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, int):
                        c += k * v
                        continue
                    if v.op == "lin" and u.op != "lin":
                        # a non-lin atom became lin only if it was exact
                        d[v] = d.get(v, 0) + k
                        continue
                d[v] = d.get(v, 0) + k
        if not hit:
            return f
        return (c, tuple(sorted(((t, k) for t, k in d.items() if k), key=T._aid)))

    def term(self, v):
        t = self.t
        if not (v.sy & t.sy) or t not in T.leaves_cached(v):
            return v
        m = self.memo
        r = m.get(v)
        if r is not None:
            return r
        stack = [v]
        while stack:
            x = stack[-1]
            if x in m:
                stack.pop()
                continue
            ch = [c for c in T.children(x) if c not in m]
            if ch:
                stack.extend(ch)
                continue
            m[x] = self.remake(x)
            stack.pop()
        return m[v]

    def remake(self, x):
        op = x.op
        if op in ("le0", "eq0"):
            f = self.form2(x.a)
            return T.le0(f) if op == "le0" else T.eq0(f)
        if op == "ld":
            return T.ld(x.a[0], self.form2(x.a[1]), x.a[2])
        if op == "cw":
            h = T.CW_HOOK[0]
            k = self.form2(x.a[1])
            if k == x.a[1]:
                return x
            return h(x.a[0], k, x.a[2], x.w)
        if op == "sym" or op == "bsym":
            return x
        return T.remake(x, self.memo)

    def form2(self, f):
        c = f[0]
        d = {}
        for u, k in f[1]:
            if u is self.t:
                c += k * self.g[0]
                for x, kk in self.g[1]:
                    d[x] = d.get(x, 0) + k * kk
            else:
                v = self.memo.get(u, u)
                if isinstance(v, (bool, int)):
                    c += k * int(v)
                else:
                    d[v] = d.get(v, 0) + k
        return (c, tuple(sorted(((t, k) for t, k in d.items() if k), key=T._aid)))

    def val(self, v):
        ty = type(v)
        if ty is int or ty is bool:
            return v
        if ty is T.T:
            return self.term(v)
        if ty is tuple:
            return self.form(v)
        if ty is Ptr:
            if type(v.off) is tuple:
                f = self.form(v.off)
                if f is not v.off:
                    return Ptr(v.o, f, v.rng)
            return v
        if ty is Arr:
            r = self.vm.get(id(v))
            if r is not None and r[0] is v:
                return r[1]
            ch = False
            ls = []
            for l in v.layers:
                s, e, k, p, d = l
                s2, e2, d2 = self.form(s), self.form(e), self.form(d)
                p2 = p
                if k == "arr":
                    p2 = self.val(p)
                elif k == "val":
                    q = self.val(p[0])
                    if q is not p[0]:
                        p2 = (q, p[1])
                if s2 is s and e2 is e and d2 is d and p2 is p:
                    ls.append(l)
                else:
                    ch = True
                    ls.append((ival(s2), ival(e2), k, p2, ival(d2)))
            r = Arr(v.size, tuple(ls)) if ch else v
            self.vm[id(v)] = (v, r)
            return r
        if ty is Blob:
            ch = False
            cells = {}
            for k, (s, x) in v.cells.items():
                y = self.val(x)
                if y is not x:
                    ch = True
                cells[k] = (s, y)
            return Blob(v.size, cells) if ch else v
        if ty is Sel:
            c = self.term(v.c)
            a, b = self.val(v.a), self.val(v.b)
            if c is True:
                return a
            if c is False:
                return b
            if c is v.c and a is v.a and b is v.b:
                return v
            return Sel(c, a, b)
        return v
