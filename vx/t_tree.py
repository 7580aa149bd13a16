"""BLAKE2bp / BLAKE2sp: the tree mode against the BLAKE2 specification."""
import re
from . import mem
from .task import *
from .t_hash import *
from . import t_state


WIDE = ["both"]       # see spec.Chain.wide


class Tree:
    """the oracle: chains of the leaves and the root for parameters pv (hash_length, key)"""

    def __init__(self, ctx, s, pv, keyed):
        alg = self.alg = ctx.alg
        self.D = alg.degree
        self.B = alg.block
        self.keyed = keyed
        self.leaf = []
        first = None
        self.off0 = F(0)
        if keyed:
            first = [s.simplify(s.resolve(x)) for x in spec.padded(alg, pv.keyname, F(0), pv.v["key"])]
            self.off0 = F(-self.D * self.B)
        self.first = first
        for i in range(self.D):
            h0 = spec.param_words(alg, pv.v["hash_length"], pv.v["key"], self.D, 2, 0, i, 0, alg.out)
            h0 = [s.simplify(s.resolve(x)) for x in h0]
            off = fadd(self.off0, F(i * self.B))
            self.leaf.append(self.chain(h0, off, first))
        r = spec.param_words(alg, pv.v["hash_length"], pv.v["key"], self.D, 2, 0, 0, 1, alg.out)
        self.root = [s.simplify(s.resolve(x)) for x in r]

    def chain(self, h0, off, first):
        for ch in spec.Chain.ALL.values():
            if ch.off == off and all(same(a, b) for a, b in zip(ch.h0, h0)) and (ch.first is None) == (first is None) and (first is None or all(same(a, b) for a, b in zip(first, ch.first))):
                return ch
        ch = spec.Chain("leaf%d" % len(spec.Chain.ALL), self.alg, h0, "in", off=off, first=first, wide=WIDE[0], nstep=self.D * self.B)
        ch.register(F(0))
        return ch

    def superblocks(self, ip, s, total, words):
        """q with DB*q < total <= DB*(q+1), or 0 when total <= DB; raises ForkNeeded"""
        DB = self.D * self.B
        cand = {F(0)}
        for o in words:
            if isinstance(o, T.T):
                for x in T.leaves(o):
                    if x.op == "cw":
                        cand.add(x.a[1])
                        cand.add(fadd(x.a[1], F(1)))
        for k in cand:
            rem = fsub(total, fscale(k, DB))
            if entails_range(s, rem, 1, DB) or (k == F(0) and entails_range(s, rem, 0, DB)):
                return k
        if not s.cons.le(fadd(fscale(total, -1), F(DB + 1))):
            raise ForkNeeded(T.le0(fadd(total, F(-DB))))
        q, r = ip.divmod(s, fadd(total, F(-1)), DB)
        return q

    def expect(self, ip, s, total, words):
        """the root hash words of a stream of `total` bytes (including the key blocks)"""
        B = self.B
        q = self.superblocks(ip, s, total, words)
        total = s.rform(total)
        r = fsub(total, fscale(q, self.D * B))
        out = []
        for i, ch in enumerate(self.leaf):
            rem = fadd(r, F(-i * B))
            f1 = i == self.D - 1
            if self.dec(s, rem):                       # rem_i <= 0
                if self.dec(s, q):                     # q <= 0
                    out.append(ch.final(F(0), [0] * 16, F(0), f1))
                else:
                    k = fadd(q, F(-1))
                    out.append(self.fin(s, ch, k, B, fscale(q, B), f1))
            elif self.dec(s, fsub(F(B), rem)):         # rem_i >= B
                out.append(self.fin(s, ch, q, B, fscale(fadd(q, F(1)), B), f1))
            else:
                out.append(self.fin(s, ch, q, rem, fadd(fscale(q, B), rem), f1))
        ws = [w for l in out for w in l]
        h = self.root
        n = len(ws) * self.alg.wb // B
        c = 0
        for b in range(n):
            c += B
            last = b == n - 1
            h = spec.compress(self.alg, h, ws[16 * b:16 * b + 16], c, 0, (1 << self.alg.w) - 1 if last else 0, (1 << self.alg.w) - 1 if last else 0)
        return h

    def fin(self, s, ch, k, rem, count, f1):
        if self.first is not None and k[1] and self.dec(s, k):
            k = F(0)
        if self.first is not None and k == F(0):
            m = self.first
        elif type(rem) is int:
            m = ch.block(k)
        else:
            m = spec.padded(self.alg, "in", fadd(ch.off, fscale(k, ch.stride)), rem)
        return ch.final(k, m, count, f1)

    def dec(self, s, f):
        if s.cons.le(f):
            return True
        if s.cons.le(fsub(F(1), f)):
            return False
        raise ForkNeeded(T.le0(f))


def judge_tree(ctx, ip, s, res, oid, words, n, pv, total, where):
    for s, keyed in split_keyed(s, pv):
        tr = Tree(ctx, s, pv, keyed)
        tot = fadd(total, F(tr.D * tr.B)) if keyed else total
        work = [s]
        while work:
            s = work.pop()
            if not sharpen(s):
                continue
            try:
                w2 = [s.resolve(x) for x in words]
                exp = tr.expect(ip, s, s.rform(tot), w2)
            except ForkNeeded as e:
                s2 = s.fork()
                if s2.assume(e.cond, False):
                    work.append(s2)
                if s.assume(e.cond, True):
                    work.append(s)
                continue
            compare(ctx, ip, s, res, oid, w2, [s.resolve(x) for x in exp], where, outlen=pv.v["hash_length"])
            check_len(s, res, oid, n, pv.v["hash_length"], where)


def check_len(s, res, oid, n, outlen, where):
    nn = s.exact(s.resolve(n)) if isinstance(n, T.T) else F(n)
    want = s.rform(fm(outlen))
    if s.cons.eq(fsub(nn, want)):
        res.ok(oid + "/length")
        return
    r = rand.refute(s, [(T.lin_form(64, nn), T.lin_form(64, want))])
    if r:
        res.violation(oid + "/length", "the hash length differs from the requested one", where, {"got": r[2], "expected": r[3], "example": describe(r[1])})
    else:
        res.undecided(oid + "/length", "length not entailed")


def run_tree(ctx, res, setters=("hash_length",), L=None, cpu=None, only=None, maxlen=None, lo=None, hi=None, oneshot=False):
    """p::Params::new() + setters + hash()"""
    # the portable code keeps its counters in one integer, so that a leaf's counter may pass its low word
    big = ctx.alg.w == 32 and cpu == ()
    maxlen = min(maxlen or mem.max_len(), 1 << (62 if ctx.alg.w == 64 or big else 31))
    ip = ctx.interp()
    ip.small_counts = not big
    ip.qsplit = 3
    WIDE[0] = True if big else "both"
    st = State()
    oid = "%s::p%s" % (ctx.m, "oneshot" if oneshot else "arams[%s]" % ",".join(setters))
    if cpu is not None:
        for f in ("avx2", "sse4_1"):
            st.assume(T.bsym("cpu:" + f), f in cpu)
    if L is None:
        total = fatom(T.sym("len", 8 * PB[0]))
        st.assume(T.le0(fadd(total, F(-(maxlen if hi is None else hi)))))
        if lo is not None:
            st.assume(T.le0(fsub(F(lo), total)))
    else:
        total = F(L)
    nret = []
    if oneshot:
        pv = PV(ctx.alg)
        Tree(ctx, st, pv, False)
        inp = slice_of(ip, st, "in", total)
        fn = ctx.root("p_oneshot")
        for s1, h in ip.exec_fn(fn, [inp], st):
            nret.append((s1, h))
            for s2, n, words in out_bytes(ctx, ip, s1, h):
                judge_tree(ctx, ip, s2, res, oid, words, n, pv, total, fn.name)
        finish(ctx, ip, res, oid, nret)
        return ip
    for s0, po in new_params(ctx, ip, st, "p_params_new"):
        pv = PV(ctx.alg)
        states = [s0]
        for i, nm in enumerate(setters):
            tag = "'" * list(setters[:i]).count(nm)
            states = [x for s in states for x in apply_setter(ctx, ip, s, po, pv, nm, tag, "p_")]
        states = [x for s in states for x, k in split_keyed(s, pv) if only is None or k == only]
        for s in states:
            (s, keyed), = split_keyed(s, pv)
            Tree(ctx, s, pv, keyed)
            inp = slice_of(ip, s, "in", s.rform(total))
            fn = ctx.root("p_params_hash")
            for s1, h in ip.exec_fn(fn, [Ptr(po, 0), inp], s):
                nret.append((s1, h))
                for s2, n, words in out_bytes(ctx, ip, s1, h):
                    judge_tree(ctx, ip, s2, res, oid, words, n, pv, total, fn.name)
    finish(ctx, ip, res, oid, nret)
    return ip


class TreeHistory(t_state.History):
    """every history of a parallel State"""

    widening = True

    def __init__(self, ctx, res, setters=(), **kw):
        kw.setdefault("maxtotal", 1 << (62 if ctx.alg.w == 64 else 31))
        WIDE[0] = "both"
        super().__init__(ctx, res, setters, prefix="p_", **kw)
        self.ip.small_counts = True
        self.ip.qsplit = 3

    def judge(self, s, words, n, pv, oid, where):
        judge_tree(self.ctx, self.ip, s, self.res, oid, words, n, pv, s.ghost["N"], where)

    def run(self):
        rets = []
        for s, o, pv, keyed in self.start():
            Tree(self.ctx, s, pv, keyed)
            rets.append((s, None))
            self.run_from(s, o, pv, keyed, "%s[%s]" % (self.oid, self.root or ",".join(self.setters)))
        finish(self.ctx, self.ip, self.res, self.oid, rets)

    def phase(self, s, o):
        """has any leaf compressed a block?"""
        return any(isinstance(v, T.T) and any(x.op == "cw" for x in T.leaves(v)) for _, v in s.mem[o].cells.values())

    def covers(self, s0, o):
        """([states covering every non-empty history], [states after one update]): before and after the first
        compression the buffer obeys different bounds, so the two phases are generalised separately"""
        s1 = s0.fork()
        first = self.update(s1, o, self.fresh_len(s1, 1))
        a = [x for x in first if not self.phase(x, o)]
        b = [x for x in first if self.phase(x, o)]
        out = []
        if a:
            g = self.cover([x.fork() for x in a], o, lambda x: not self.phase(x, o))
            if g is None:
                return None, first
            out.append(g)
            n = g.fork()
            b += [x for x in self.update(n, o, self.fresh_len(n)) if self.phase(x, o)]
        if b:
            g = self.cover([x.fork() for x in b], o)
            if g is None:
                return None, first
            out.append(g)
        return out, first

    def run_from(self, s, o, pv, keyed, tag):
        ip, res = self.ip, self.res
        self.piece(self.finalize, s.fork(), o, pv, keyed, tag + "/new/finalize")
        self.piece(self.count, s.fork(), o, tag + "/new/count")
        if not self.widening:
            return self.bounded(s, o, pv, keyed, tag)
        gs, first = self.covers(s.fork(), o)
        if gs is None:
            res.undecided(tag + "/history", "no inductive generalisation: %s" % self.why)
            for f in first:
                self.piece(self.finalize, f.fork(), o, pv, keyed, tag + "/once/finalize")
                self.piece(self.count, f.fork(), o, tag + "/once/count")
            if not res.viol:
                self.bounded(s, o, pv, keyed, tag)
            return
        res.ok(tag + "/history")
        for i, g in enumerate(gs):
            g.assume(T.le0(fadd(g.ghost["N"], F(-self.maxtotal))))
            nm = tag + "/history%d" % i
            self.piece(self.finalize, g.fork(), o, pv, keyed, nm + "/finalize", "pure" in self.ops)
            self.piece(self.count, g.fork(), o, nm + "/count")
            if "pure" in self.ops:
                self.piece(self.clone, g.fork(), o, pv, keyed, nm + "/clone")
            if "write" in self.ops:
                self.piece(self.write, g.fork(), o, pv, keyed, nm + "/write")
                self.piece(self.flush, g.fork(), o, nm + "/flush")

    def patterns(self):
        D, B = self.ctx.alg.degree, self.ctx.alg.block
        S = D * B
        return [(0,), (1, 2 * S - 1, (D - 1) * B), (S + B, S), (2 * S, 1), (1, 3 * S), (2 * S + (D - 1) * B, B, 1), ((D - 1) * B + 1, S, S - 1, 2)]

    def bounded(self, s, o, pv, keyed, tag):
        for ls in self.patterns():
            if self.res.viol:
                return
            nm = tag + "/" + ",".join("update(%d)" % n for n in ls)
            ss = [s.fork()]
            try:
                for n in ls:
                    ss = [x for y in ss for x in self.update(y, o, F(n))]
            except Imprecise as e:
                self.res.undecided(nm, "imprecise: %s" % str(e)[:200])
                continue
            for x in ss:
                self.piece(self.finalize, x.fork(), o, pv, keyed, nm + "/finalize")
                self.piece(self.count, x, o, nm + "/count")


def lengths(alg):
    S = alg.degree * alg.block
    B = alg.block
    return [0, 1, B, B + 1, S - B, S - B + 1, S - 1, S, S + 1, S + B + 1, 2 * S - B, 2 * S - B + 1, 2 * S, 2 * S + 1, 3 * S + 7]


def tree_fixed(ctx, res, cpu, keyed, oneshot=False):
    """fixed lengths around every boundary of the leaf layout"""
    for L in lengths(ctx.alg):
        spec.reset()
        run_tree(ctx, res, ("hash_length", "key"), L=L, cpu=cpu, only=keyed, oneshot=oneshot)
        if res.viol:
            return


COMPRESS = re.compile(r"::(portable|sse41|avx2)::compress\w*$")


class TreeCount(TreeHistory):
    """count() of a parallel State after every history.  What the leaves hash is decided elsewhere: compressing a leaf does
    nothing here, and what the buffer holds is forgotten after every update."""

    def __init__(self, ctx, res, setters=(), **kw):
        kw.setdefault("maxtotal", 1 << (126 if ctx.alg.w == 64 else 62))
        super().__init__(ctx, res, setters, **kw)
        self.ip.small_counts = False
        self.ip.intercepts.append((lambda f: bool(COMPRESS.search(f.name)), lambda ip, st, fn, args: [(st, None)]))

    def data(self, o, cells):
        """the bytes of the State that hold input, as merged intervals"""
        r = []
        for off, (n, v) in sorted(cells.items()):
            if isinstance(v, Arr) or isinstance(v, T.T) and any(x.op in ("ld", "cw") for x in T.leaves(v)):
                if r and off <= r[-1][1]:
                    r[-1][1] = off + n
                else:
                    r.append([off, off + n])
        return r

    def update(self, s, o, n, root="state_update"):
        out = super().update(s, o, n, root)
        for x in out:
            cells = x.mem[o].cells
            for a, b in self.data(o, cells):
                cells_write(x, cells, a, b - a, Arr(b - a, ((0, b - a, "ld", "junk", a),)))
        return out

    def run_from(self, s, o, pv, keyed, tag):
        ip, res = self.ip, self.res
        self.piece(self.count, s.fork(), o, tag + "/new/count")
        g, first = self.widen(s.fork(), o)
        for f in first:
            self.piece(self.count, f.fork(), o, tag + "/once/count")
        if g is None:
            res.undecided(tag + "/history", "no inductive generalisation: %s" % self.why)
            return
        res.ok(tag + "/history")
        g.assume(T.le0(fadd(g.ghost["N"], F(-self.maxtotal))))
        self.piece(self.count, g.fork(), o, tag + "/history/count")
