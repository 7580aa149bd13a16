"""Loop (and history) generalisation: widening to an inductive invariant.

The invariant of a loop head is   value = shape[ p0 + sum_j t_j * g_j ]   where the shape is the anti-unification
of the values seen at the head, g_j are integer generators of the affine lattice spanned by the observed
differences (Karr/Granger), t_j are fresh non-negative counters, plus linear inequalities over the counters
and the symbols fixed outside the loop, kept only when inductive (Houdini)."""
from fractions import Fraction
from . import term as T
from .term import F, fadd, fsub, fscale
from .load import Imprecise
from .state import *
from .mem import *


class NoShape(Exception):
    pass


CHAIN_K = [None]      # callback: (value, chain, i) -> form k if value is word i of the chain, else None


class Shape:
    """anti-unification of several states' values; holes are placeholder symbols"""

    def __init__(self, states, hint=None):
        self.states = states
        self.holes = []        # (placeholder, [forms], exact?)
        self.index = {}
        self.tops = 0
        self.hint = hint or (lambda i: None)

    NEXT = [0]

    def hole(self, w, forms, exact=True):
        key = (w, tuple(forms), exact)
        h = self.index.get(key)
        if h is None:
            Shape.NEXT[0] += 1
            h = T.sym("?%d" % Shape.NEXT[0], w)
            self.index[key] = h
            self.holes.append((h, list(forms), exact))
        return h

    def form(self, forms):
        if all(f == forms[0] for f in forms):
            return forms[0]
        return (0, ((self.hole(192, forms), 1),))

    def val(self, vs, n=8):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        tys = set(type(v) for v in vs)
        if UNDEF in vs if False else any(v is UNDEF for v in vs):
            return UNDEF
        if tys <= {int, bool, T.T}:
            return self.numv(vs, n)
        if tys == {Ptr}:
            if any(v.o != v0.o for v in vs):
                raise NoShape("pointers to different objects")
            off = self.form([fm(v.off) for v in vs])
            rng = v0.rng if all(v.rng == v0.rng for v in vs) else None
            return Ptr(v0.o, ival(off), rng)
        if tys == {FnP}:
            if all(v == v0 for v in vs):
                return v0
            raise NoShape("function pointers")
        if tys == {Arr} or tys <= {Arr, int, T.T, Blob} and Arr in tys:
            return self.arr([v for v in vs])
        if tys == {Sel}:
            if all(v == v0 for v in vs):
                return v0
        if tys == {Blob} and all(v == v0 for v in vs):
            return v0
        raise NoShape("values %r" % ([type(v).__name__ for v in vs],))

    def numv(self, vs, n=8):
        if any(type(v) is bool or (type(v) is T.T and v.w == 1) for v in vs):
            if all((type(v) in (bool, int) and type(vs[0]) in (bool, int) and bool(v) == bool(vs[0])) or v is vs[0] for v in vs):
                return vs[0]
            Shape.NEXT[0] += 1
            return T.bsym("?b%d" % Shape.NEXT[0])
        if all(type(v) is int for v in vs) and all(v == vs[0] for v in vs):
            return vs[0]
        ts = [v for v in vs if type(v) is T.T]
        w = ts[0].w if ts else 8 * n
        # chaining words
        for v in ts:
            if v.op == "cw":
                ch, i = v.a[0], v.a[2]
                ks = []
                for x in vs:
                    if type(x) is T.T and x.op == "cw" and x.a[0] == ch and x.a[2] == i:
                        ks.append(x.a[1])
                    else:
                        k = CHAIN_K[0](x, ch, i) if CHAIN_K[0] else None
                        if k is None:
                            raise NoShape("chain word %s i=%d vs %s" % (ch, i, [T.show(y) if isinstance(y, T.T) else hex(y) for y in vs]))
                        ks.append(k)
                return T.mk("cw", v.w, (ch, self.form(ks), i))
        if all(type(v) is T.T for v in vs):
            op = vs[0].op
            if all(v.op == op and v.w == w for v in vs) and op not in ("sym", "lin"):
                if op == "ld":
                    if all(v.a[0] == vs[0].a[0] and v.a[2] == vs[0].a[2] for v in vs):
                        return T.mk("ld", w, (vs[0].a[0], self.form([v.a[1] for v in vs]), vs[0].a[2]))
                    raise NoShape("loads")
                if op == "ext" and all(v.a[1] == vs[0].a[1] for v in vs):
                    return T.mk("ext", w, (self.val([v.a[0] for v in vs]), vs[0].a[1]))
                raise NoShape("terms " + op)
        # linear
        forms = []
        exact = True
        for v, s in zip(vs, self.states):
            if type(v) is int:
                forms.append((v, ()))
                continue
            if v.op not in ("lin", "sym", "ite"):
                if v.op in ("cat", "ext", "ld", "xor", "and", "or", "rot", "mul", "tab"):
                    raise NoShape("terms " + v.op)
            f = s.exact(v)
            if v.op == "lin" and len(f[1]) == 1 and f[1][0][0] is v:
                exact = False
                f = v.a
            forms.append(f)
        if all(f == forms[0] for f in forms):
            for v in vs:
                if type(v) is T.T:
                    return v
        return self.hole(w, forms, exact)

    # ---- byte arrays
    def arr(self, vs):
        n = None
        for v in vs:
            if type(v) is Arr:
                n = v.size
        av = []
        for v in vs:
            if type(v) is not Arr:
                v = to_arr(None, {0: (n, v)} if type(v) is not Blob else v.cells, 0, n)
            av.append(v)
        if all(a == av[0] for a in av):
            return av[0]
        return self.arr_shape(n, av)

    def arr_shape(self, n, av):
        pv = [prefix_view(s, a) for s, a in zip(self.states, av)]
        base = None
        for p in pv:
            if p[0] is not None:
                base = p[0]
        if base is None:
            self.tops += 1
            Shape.NEXT[0] += 1
            return Arr(n, ((0, n, "top", Shape.NEXT[0], 0),))
        es, ds = [], []
        for i, p in enumerate(pv):
            if p[0] is None:
                es.append(F(0))
                ds.append(None)
            elif p[0] == base:
                es.append(fm(p[1]))
                ds.append(fm(p[2]))
            else:
                raise NoShape("array sources")
        known = [d for d in ds if d is not None]
        for i in range(len(ds)):
            if ds[i] is None:
                h = self.hint(self.states[i])
                ds[i] = h if h is not None else known[0]
        rest = None
        r0 = None
        rests = []
        for p, a in zip(pv, av):
            rests.append(p[3] if p[0] is not None else a.layers)
        if all(r == rests[0] for r in rests):
            rest = rests[0]
        else:
            Shape.NEXT[0] += 1
            rest = ((0, n, "top", Shape.NEXT[0], 0),)
        return Arr(n, ((0, ival(self.form(es)), "ld", base, ival(self.form(ds))),) + tuple(rest))


def prefix_view(st, a):
    """(base, end, delta, remaining layers) for the longest prefix known to be a copy of an input"""
    c = st.cons
    for i, l in enumerate(a.layers):
        s, e, k, p, d = l
        if k == "ld":
            if c_le(c, s, 0):
                return (p, e, d, a.layers[i + 1:])
        if k == "arr" and c_le(c, s, 0) and type(p) is Arr and ival(d) == 0:
            q = prefix_view(st, p)
            if q[0] is not None:
                return (q[0], q[1], q[2], a.layers[i + 1:])
        # a layer that starts beyond zero may hide the tail of an older prefix
        if not (type(s) is int and s == 0):
            rest = Arr(a.size, a.layers[i + 1:])
            q = prefix_view(st, rest)
            if q[0] is not None and c_le(c, q[1], s):
                return q
        return (None, 0, 0, a.layers)
    return (None, 0, 0, a.layers)


class Match:
    """bind the holes of a shape to forms so that it equals a state's values"""

    def __init__(self, holes, hint):
        self.holes = set(h for h, _, _ in holes)
        self.exact = {h: e for h, _, e in holes}
        self.b = {}
        self.wild = []
        self.hint = hint

    def bind(self, h, f):
        o = self.b.get(h)
        if o is None:
            self.b[h] = f
            return
        if o != f:
            raise NoShape("inconsistent binding %s: %s / %s" % (h, T.show_form(o), T.show_form(f)))

    def form(self, sf, vf, st):
        if sf == vf:
            return
        if len(sf[1]) == 1 and sf[0] == 0 and sf[1][0][1] == 1 and sf[1][0][0] in self.holes:
            self.bind(sf[1][0][0], vf)
            return
        if st.cons.eq(fsub(sf, vf)):
            return
        raise NoShape("form %s vs %s" % (T.show_form(sf), T.show_form(vf)))

    def val(self, s, v, st):
        if s is v or s is UNDEF:
            return
        ts = type(s)
        if ts is T.T:
            if s in self.holes:
                if type(v) is T.T:
                    if self.exact[s]:
                        self.bind(s, st.exact(v))
                    else:
                        self.bind(s, T.form_of(v))
                elif type(v) in (int, bool):
                    self.bind(s, F(int(v)))
                else:
                    raise NoShape("hole vs %r" % (v,))
                return
            if s.op == "bsym" and str(s.a[0]).startswith("?b"):
                return
            if type(v) is bool or type(v) is int or type(v) is T.T:
                if s.op == "cw":
                    if type(v) is T.T and v.op == "cw" and v.a[0] == s.a[0] and v.a[2] == s.a[2]:
                        return self.form(s.a[1], v.a[1], st)
                    k = CHAIN_K[0](v, s.a[0], s.a[2]) if CHAIN_K[0] else None
                    if k is not None:
                        return self.form(s.a[1], k, st)
                if type(v) is T.T and s.op == v.op and s.w == v.w:
                    if s.op == "ld" and s.a[0] == v.a[0] and s.a[2] == v.a[2]:
                        return self.form(s.a[1], v.a[1], st)
                    if s.op == "ext" and s.a[1] == v.a[1]:
                        return self.val(s.a[0], v.a[0], st)
                if s.w > 1 and not (type(v) is T.T and v.w == 1):
                    if st.cons.eq(fsub(st.exact(s), st.exact(v))):
                        return
            raise NoShape("term %s vs %s" % (s, v))
        if ts in (int, bool):
            if type(v) in (int, bool) and int(v) == int(s):
                return
            if type(v) is T.T and v.w > 1 and st.cons.eq(fsub(st.exact(v), F(int(s)))):
                return
            raise NoShape("%r vs %r" % (s, v))
        if ts is Ptr:
            if type(v) is Ptr and v.o == s.o:
                return self.form(fm(s.off), fm(v.off), st)
            raise NoShape("pointer")
        if ts is Arr:
            n = s.size
            if type(v) is not Arr:
                v = to_arr(None, {0: (n, v)} if type(v) is not Blob else v.cells, 0, n)
            return self.arr(s, v, st)
        if s == v:
            return
        raise NoShape("%r vs %r" % (s, v))

    def arr(self, s, v, st):
        if s == v:
            return
        l0 = s.layers[0] if s.layers else None
        if l0 is None:
            raise NoShape("array")
        if l0[2] == "top":
            return
        if l0[2] == "ld" and type(l0[0]) is int and l0[0] == 0:
            p = prefix_view(st, v)
            rest = s.layers[1:]
            if p[0] is None:
                self.form(fm(l0[1]), F(0), st)
                # an empty prefix places no demand on the displacement
                self.wild.append((fm(l0[4]), self.hint(st)))
                vr = v.layers
            else:
                if p[0] != l0[3]:
                    raise NoShape("array source")
                self.form(fm(l0[1]), fm(p[1]), st)
                d = fm(p[2])
                if st.cons.le(fm(p[1])):
                    self.wild.append((fm(l0[4]), self.hint(st)))
                else:
                    self.form(fm(l0[4]), d, st)
                vr = p[3]
            if rest and rest[0][2] == "top":
                return
            if tuple(rest) == tuple(vr):
                return
            raise NoShape("array tail")
        raise NoShape("array layers")


def has_hole(f, holes):
    return any(t in holes for t, _ in f[1])


def solve(basis, vec):
    """integer coefficients of vec over the basis rows, or None"""
    m = len(basis)
    n = len(vec)
    if m == 0:
        return [] if not any(vec) else None
    rows = [[Fraction(basis[j][i]) for j in range(m)] + [Fraction(vec[i])] for i in range(n)]
    piv = []
    r = 0
    for c in range(m):
        p = None
        for i in range(r, n):
            if rows[i][c] != 0:
                p = i
                break
        if p is None:
            return None
        rows[r], rows[p] = rows[p], rows[r]
        pv = rows[r][c]
        rows[r] = [x / pv for x in rows[r]]
        for i in range(n):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    for i in range(r, n):
        if rows[i][m] != 0:
            return None
    out = [rows[i][m] for i in range(m)]
    if any(x.denominator != 1 for x in out):
        return None
    return [int(x) for x in out]


def hnf(vecs):
    """integer row echelon basis of the lattice spanned by vecs"""
    vecs = [list(v) for v in vecs if any(v)]
    if not vecs:
        return []
    n = len(vecs[0])
    out = []
    c = 0
    while vecs and c < n:
        while True:
            nz = [v for v in vecs if v[c]]
            if len(nz) <= 1:
                break
            nz.sort(key=lambda v: abs(v[c]))
            p = nz[0]
            for v in nz[1:]:
                q = v[c] // p[c]
                for i in range(n):
                    v[i] -= q * p[i]
        nz = [v for v in vecs if v[c]]
        if nz:
            p = nz[0]
            if p[c] < 0:
                p = [-x for x in p]
            out.append(p)
            vecs = [v for v in vecs if not v[c]]
        vecs = [v for v in vecs if any(v)]
        c += 1
    return out


def local_basis(states_forms, samples):
    """like basis_of, but for a history whose samples share no outer symbols: the base point is a constant
    vector from which every sample is reached by non-negative counters"""
    f0 = states_forms[0]
    p0 = [F(f[0]) for f in f0]
    consts = []
    symv = []
    for fs in states_forms:
        d = [fsub(a, b) for a, b in zip(fs, p0)]
        cv = [f[0] for f in d]
        atoms = []
        for f in d:
            for t, _ in f[1]:
                if t not in atoms:
                    atoms.append(t)
        for t in atoms:
            symv.append([dict(f[1]).get(t, 0) for f in d])
        if any(cv):
            consts.append(cv)
    b = hnf(consts + symv)
    lows = [None] * len(b)
    for fs, s in zip(states_forms, samples):
        co = coords(p0, b, fs)
        if co is None:
            return p0, b
        for j, f in enumerate(co):
            m = s.cons.minmax(f, "min") if f[1] else f[0]
            if m <= -(1 << 40):
                continue
            lows[j] = m if lows[j] is None else min(lows[j], m)
    for j, m in enumerate(lows):
        if m:
            p0 = [fadd(f, F(m * b[j][i])) for i, f in enumerate(p0)]
    return p0, b


def basis_of(states_forms):
    """states_forms: per state the vector of hole forms.  -> (p0, basis, coords per state, atoms)"""
    p0 = states_forms[0]
    n = len(p0)
    diffs = []
    symv = []
    for fs in states_forms[1:]:
        d = [fsub(a, b) for a, b in zip(fs, p0)]
        cv = [f[0] for f in d]
        atoms = []
        for f in d:
            for t, _ in f[1]:
                if t not in atoms:
                    atoms.append(t)
        for t in atoms:
            symv.append([dict(f[1]).get(t, 0) for f in d])
        if any(cv) and cv not in diffs:
            diffs.append(cv)
    # prefer the observed constant steps themselves as generators
    if diffs:
        b = hnf(diffs)
        if len(b) == len(diffs):
            ok = all(solve(diffs, v) is not None for v in symv)
            ok = ok and all(solve(diffs, v) is not None for v in b)
            if ok:
                return p0, diffs
    b = hnf(diffs + symv)
    return p0, b


def coords(p0, basis, fs):
    """coordinates (forms) of the hole vector fs"""
    d = [fsub(a, b) for a, b in zip(fs, p0)]
    atoms = []
    for f in d:
        for t, _ in f[1]:
            if t not in atoms:
                atoms.append(t)
    c = solve(basis, [f[0] for f in d])
    if c is None:
        return None
    out = [(x, ()) for x in c]
    for t in atoms:
        v = solve(basis, [dict(f[1]).get(t, 0) for f in d])
        if v is None:
            return None
        for j, x in enumerate(v):
            if x:
                out[j] = fadd(out[j], (0, ((t, x),)))
    return out


def cells_at(st, items, key):
    pass


class Widen:
    """generalisation of a family of states over a set of locations"""

    def __init__(self, ip, name, hint=None, tw=64, maxround=5):
        self.ip = ip
        self.name = name
        self.hint = hint or (lambda s: None)
        self.tw = tw
        self.maxround = maxround
        self.why = None
        self.local = False
        self.debug = False

    def shape_of(self, samples):
        """anti-unify the memories; returns {oid: {off:(size,shape)}}, ghost shapes"""
        sh = Shape(samples, self.hint)
        s0 = samples[0]
        objs = {}
        for oid, o in s0.mem.items():
            if o.kind != "mem":
                continue
            os = [s.mem.get(oid) for s in samples]
            if any(x is None for x in os):
                objs[oid] = None
                continue
            if all(x is o for x in os):
                continue
            cells = self.cells_shape(sh, os, samples)
            objs[oid] = cells
        ghost = {}
        for k in s0.ghost:
            vs = [s.ghost[k] for s in samples]
            if isinstance(vs[0], tuple):
                ghost[k] = sh.form(vs)
            else:
                ghost[k] = sh.val(vs)
        return sh, objs, ghost

    def cells_shape(self, sh, os, samples):
        ks = [tuple(sorted((k, v[0]) for k, v in o.cells.items())) for o in os]
        if all(k == ks[0] for k in ks):
            out = {}
            for k, n in ks[0]:
                v = sh.val([o.cells[k][1] for o in os], n)
                if v is not UNDEF:
                    out[k] = (n, v)
            return out
        # refine to a common partition; byte arrays swallow what overlaps them
        spans = sorted(set(p for k in ks for p in k))
        arrs = []
        for o in os:
            for k, (n, v) in o.cells.items():
                if type(v) is Arr:
                    arrs.append((k, k + n))
        cuts = set()
        for k, n in spans:
            cuts.add(k)
            cuts.add(k + n)
        groups = []
        for a, b in sorted(set(arrs)):
            if groups and a < groups[-1][1]:
                groups[-1] = (groups[-1][0], max(b, groups[-1][1]))
            else:
                groups.append((a, b))
        # cells straddling an array group extend it
        ch = True
        while ch:
            ch = False
            for k, n in spans:
                for gi, (a, b) in enumerate(groups):
                    if k < b and a < k + n and (k < a or k + n > b):
                        groups[gi] = (min(a, k), max(b, k + n))
                        ch = True
        out = {}
        cl = sorted(c for c in cuts if not any(a < c < b for a, b in groups))
        for a, b in zip(cl, cl[1:]):
            vs = []
            miss = False
            for o, s in zip(os, samples):
                if (a, b) in groups:
                    cov = any(k < b and a < k + n for k, (n, _) in o.cells.items())
                    if not cov:
                        miss = True
                        break
                    vs.append(to_arr(s, o.cells, a, b - a))
                else:
                    v = cells_read(s, o.cells, a, b - a, False)
                    if type(v) is Blob:
                        if len(v.cells) == 1 and 0 in v.cells and v.cells[0][0] == b - a:
                            v = v.cells[0][1]
                        elif not v.cells:
                            miss = True
                            break
                        else:
                            v = UNDEF
                    vs.append(v)
            if miss or any(v is UNDEF for v in vs):
                continue
            out[a] = (b - a, sh.val(vs, b - a))
        return out

    def run(self, s0, backs, step):
        """step(state) -> (backs, result).  Returns (G, result) for an inductive G covering s0, or None."""
        samples = [s0] + backs
        self.drop = set()
        for rnd in range(self.maxround):
            try:
                sh, objs, ghost = self.shape_of(samples)
            except NoShape as e:
                self.why = ("shape: %s" % e)[:400]
                return None
            except Imprecise as e:
                self.why = ("shape: %s" % e)[:400]
                return None
            holes = sh.holes
            fs = [[h[1][i] for h in holes] for i in range(len(samples))]
            p0, basis = local_basis(fs, samples) if self.local else basis_of(fs)
            if self.debug:
                print("   basis", [T.show_form(f) for f in p0], basis, [[T.show_form(x) for x in f] for f in fs])
            co = [coords(p0, basis, f) for f in fs]
            if any(c is None for c in co):
                self.why = "lattice"
                return None
            ts = [T.sym("t%d.%d:%s" % (rnd, j, self.name), self.tw) for j in range(len(basis))]
            used = set()
            for f in p0:
                pass
            # candidate inequalities over the counters and outer symbols
            cands = self.candidates(samples, co, ts, holes, p0, basis)
            hf = {}
            for i, (h, _, ex) in enumerate(holes):
                f = p0[i]
                for j, t in enumerate(ts):
                    if basis[j][i]:
                        f = fadd(f, (0, ((t, basis[j][i]),)))
                hf[h] = f
            again = True
            weak = {}
            while again:
                again = False
                g = self.build(s0, objs, ghost, hf)
                if g is None:
                    self.why = "empty"
                    return None
                ok = True
                for c in cands:
                    cc = g.cons.add_le(c)
                    if cc is None:
                        ok = False
                        break
                    g.cons = cc
                if not ok:
                    self.why = "contradiction"
                    return None
                bk, res = step(g.fork())
                new = []
                bad = set()
                excess = {}
                for b in bk:
                    r = self.match(b, objs, ghost, holes, p0, basis, hf, ts)
                    if r is None:
                        new.append(b)
                        continue
                    for c in cands:
                        f = subst_form(c, ts, r)
                        if not b.cons.le(f):
                            bad.add(c)
                            if c in self.spec:
                                m = b.cons.minmax(f, "max") if f[1] else f[0]
                                excess[c] = max(excess.get(c, 0), m)
                    lim = (1 << self.tw) - 1
                    for f in r:
                        if not (b.cons.le(fscale(f, -1)) and b.cons.le(fadd(f, F(-lim)))):
                            self.why = "counter range %s" % T.show_form(f)
                            return None
                if new:
                    # bounds that merely describe the rounds seen so far may be what spoils the match
                    for tier in (self.tmpl, self.spec):
                        if any(c in tier for c in cands):
                            cands = [c for c in cands if c not in tier]
                            again = True
                            break
                    if again:
                        continue
                if new:
                    samples = samples + new[:3]
                    break
                if bad:
                    cands = [c for c in cands if c not in bad]
                    # an observed bound that is too tight is relaxed to what the step reaches, a few times
                    for c, m in excess.items():
                        n = weak.get(c[1], 0)
                        if n < 3 and 0 < m < 1 << 40:
                            weak[c[1]] = n + 1
                            c2 = fadd(c, F(-int(m)))
                            cands.append(c2)
                            self.spec.add(c2)
                    again = True
                    continue
                return g, res
        self.why = (self.why or "") + " rounds"
        return None

    def build(self, s0, objs, ghost, hf):
        g = s0.fork()
        for oid, cells in objs.items():
            if cells is None:
                g.mem.pop(oid, None)
                continue
            o = g.own(oid)
            o.cells = {k: (n, inst(v, hf)) for k, (n, v) in cells.items()}
        for k, v in ghost.items():
            g.ghost[k] = inst(v, hf)
        return g

    def match(self, b, objs, ghost, holes, p0, basis, hf, ts):
        m = Match(holes, self.hint)
        try:
            for oid, cells in objs.items():
                if cells is None:
                    continue
                o = b.mem.get(oid)
                if o is None:
                    raise NoShape("object vanished")
                for k, (n, sv) in cells.items():
                    c = o.cells.get(k)
                    if c is not None and c[0] == n:
                        v = c[1]
                    else:
                        if type(sv) is Arr:
                            v = to_arr(b, o.cells, k, n)
                        else:
                            v = cells_read(b, o.cells, k, n, type(sv) is T.T or type(sv) is int)
                    m.val(sv, v, b)
            for oid, o in b.mem.items():
                if oid in objs or o.kind != "mem":
                    continue
            for k, sv in ghost.items():
                v = b.ghost[k]
                if isinstance(sv, tuple):
                    m.form(sv, v, b)
                else:
                    m.val(sv, v, b)
            # unchanged objects must really be unchanged
            for oid, o in self.ref.mem.items():
                if o.kind == "mem" and oid not in objs:
                    o2 = b.mem.get(oid)
                    if o2 is None:
                        raise NoShape("object lost")
                    if o2 is not o and o2.cells is not o.cells:
                        if set(o.cells) != set(o2.cells):
                            raise NoShape("cells changed")
                        for k, (n, v) in o.cells.items():
                            n2, v2 = o2.cells[k]
                            if n2 != n:
                                raise NoShape("cells changed")
                            m.val(v, v2, b)
            for sf, h in m.wild:
                if len(sf[1]) == 1 and sf[1][0][0] in m.holes:
                    hh = sf[1][0][0]
                    if hh not in m.b and h is not None:
                        m.b[hh] = h
                # otherwise the displacement is irrelevant
        except (NoShape, Imprecise) as e:
            self.why = ("match: %s" % e)[:400]
            return None
        fs = []
        for i, (h, _, _) in enumerate(holes):
            f = m.b.get(h)
            if f is None:
                # unconstrained hole: any value will do; use the invariant's own
                f = hf[h]
            fs.append(f)
        r = coords(p0, basis, fs)
        if r is None:
            # equalities known on this path may help: try entailment of each relation after solving on a subset
            r = self.coords_mod(p0, basis, fs, b)
        if r is None:
            self.why = "match: step outside the lattice"
        return r

    def coords_mod(self, p0, basis, fs, b):
        """solve using as few holes as needed and check the others by entailment"""
        n = len(fs)
        m = len(basis)
        # pick holes forming a unimodular-ish subsystem
        import itertools
        for sub in itertools.combinations(range(n), m):
            bs = [[basis[j][i] for i in sub] for j in range(m)]
            r = coords([p0[i] for i in sub], bs, [fs[i] for i in sub])
            if r is None:
                continue
            ok = True
            for i in range(n):
                f = p0[i]
                for j in range(m):
                    f = fadd(f, fscale(r[j], basis[j][i]))
                if f != fs[i] and not b.cons.eq(fsub(f, fs[i])):
                    ok = False
                    break
            if ok:
                return r
        return None

    def candidates(self, samples, co, ts, holes, p0, basis):
        self.spec, self.tmpl = set(), set()
        if not ts:
            return []
        out = []
        s0 = samples[0]
        c0 = s0.cons
        base_rows = set(c0.rows)

        def add(f):
            n = T._norm_le(f)
            if n is True or n is False or n in out:
                return
            out.append(n)

        def spec(f):
            n = T._norm_le(f)
            if n is True or n is False or n in out:
                return
            out.append(n)
            self.spec.add(n)
        for i in range(1, len(samples)):
            b = samples[i]
            cz = co[i]
            for j, t in enumerate(ts):
                # rows learnt on the way round, generalised along counter j
                if cz[j][1] or cz[j][0] == 0:
                    continue
                st_j = cz[j][0]
                rows = [r for r in b.cons.rows if r not in base_rows] + list(x for r in b.cons.eqs if r not in c0.eqs for x in (r, fscale(r, -1)))
                rows += [fadd(x, F(1)) for x in b.cons.nes] + [fsub(F(1), x) for x in b.cons.nes]
                for r in rows:
                    if any(u in ts for u, _ in r[1]):
                        continue
                    mx = c0.minmax(r, "max")
                    if mx <= 0 or mx > 1 << 20:
                        continue
                    if mx % st_j:
                        continue
                    a = mx // st_j
                    add(fadd(fadd(r, F(-mx)), (0, ((t, a),))))
        # template rows: counter against outer quantities
        xs = set()
        for s in samples:
            for r in s.cons.rows:
                for u, _ in r[1]:
                    if u.op == "sym" and not str(u.a[0]).startswith(("t0.", "t1.", "t2.", "t3.", "t4.", "?")):
                        xs.add(u)
        for j, t in enumerate(ts):
            ft = (0, ((t, 1),))
            for u in sorted(xs, key=lambda x: x.id):
                if u in ts:
                    continue
                n = len(out)
                add(fsub(ft, (0, ((u, 1),))))
                self.tmpl.update(out[n:])
        # value ranges of exact holes
        for i, (h, forms, ex) in enumerate(holes):
            if not ex:
                continue
            f = p0[i]
            for j, t in enumerate(ts):
                if basis[j][i]:
                    f = fadd(f, (0, ((t, basis[j][i]),)))
            w = h.w if h.w != 192 else 0
            if w:
                add(fadd(f, F(-((1 << w) - 1))))
                add(fscale(f, -1))
            else:
                add(fscale(f, -1))
            # observed interval
            los, his = [], []
            for k, s in enumerate(samples):
                los.append(s.cons.minmax(forms[k], "min"))
                his.append(s.cons.minmax(forms[k], "max"))
            hi = max(his)
            if hi < 1 << 40:
                spec(fadd(f, F(-hi)))
            spec(fsub(F(min(los)), f))
        # keep what every sample satisfies
        good = []
        for c in out:
            ok = True
            for s, cz in zip(samples, co):
                f = subst_form(c, ts, cz)
                if not s.cons.le(f):
                    ok = False
                    break
            if ok:
                good.append(c)
        return good


def subst_form(f, ts, forms):
    m = dict(zip(ts, forms))
    c = (f[0], ())
    for t, k in f[1]:
        g = m.get(t)
        c = fadd(c, g if g is not None else (0, ((t, 1),)), k)
    return c


def inst(v, hf):
    """instantiate the placeholders of a shape"""
    for h, f in hf.items():
        v = Substituter(h, f).val(v)
    return v


# ---------------------------------------------------------------- liveness of locals

def liveness(ip, fn, code):
    if getattr(code, "live", None) is not None:
        return code.live
    n = len(code.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    taken = set()

    def use_place(b, pl, write):
        loc, steps = pl[0], pl[1]
        for s in steps:
            if s[0] == "i":
                if s[1] not in dfn[b]:
                    use[b].add(s[1])
        if write and not steps:
            dfn[b].add(loc)
        else:
            if loc not in dfn[b]:
                use[b].add(loc)

    def use_op(b, o):
        if o and o[0] == "p":
            use_place(b, o[1], False)
    for b in range(n):
        stmts, term, _ = code.blocks[b]
        for s in stmts:
            if s[0] == "a":
                rv = s[2]
                k = rv[0]
                if k == "use" or k == "rep":
                    use_op(b, rv[1])
                elif k in ("bin", "cbin"):
                    use_op(b, rv[2])
                    use_op(b, rv[3])
                elif k in ("un", "cast"):
                    use_op(b, rv[2])
                elif k in ("ref", "len", "disc"):
                    if k == "ref" and not any(x[0] == "*" for x in rv[1][1]):
                        taken.add(rv[1][0])
                    use_place(b, rv[1], False)
                elif k == "agg":
                    for o in rv[2]:
                        use_op(b, o)
                use_place(b, s[1], True)
            elif s[0] == "s":
                use_place(b, s[1], False)
            elif s[0] == "u":
                use_op(b, s[1])
            elif s[0] == "c":
                for o in s[1]:
                    use_op(b, o)
            elif s[0] == "d":
                dfn[b].add(s[1])
        k = term[0]
        if k == "Switch":
            use_op(b, term[1])
        elif k == "Assert":
            use_op(b, term[1])
        elif k == "Call":
            if term[2]:
                use_op(b, term[2])
            for a in term[3]:
                use_op(b, a)
            use_place(b, term[4], True)
        elif k == "Drop":
            use_place(b, term[1], False)
        elif k == "Return":
            if 0 not in dfn[b]:
                use[b].add(0)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in code.succ[b]:
                o |= live[s]
            l = use[b] | (o - dfn[b])
            if l != live[b]:
                live[b] = l
                ch = True
    code.live = live
    code.taken = taken
    return live
