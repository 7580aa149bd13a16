"""Incremental hashing: every history of State operations, by induction over the history.

The stream of all bytes ever passed to update() is the ghost stream "in"; ghost "N" is how many of them have
been consumed.  The states reachable from to_state() are covered by {S0} and a generalised state G that is
inductive under one more update() of any length; finalize(), count() and clone() are checked on both."""
import copy
from .task import *
from .t_hash import *
from . import loops


def hint(ip):
    def h(st):
        return st.ghost.get("N")
    return h


def stream_arg(ip, st, n, base="in"):
    """the next n bytes of the stream, as a slice of its own; (object, slice)"""
    f = fm(n)
    o = ip.base_obj(st, base, ival(f), st.ghost["N"])
    return o, fat(Ptr(o, 0), usize(f))


def array_bytes(s, v, n):
    if isinstance(v, Arr):
        return [arr_read(s, v, i, 1) for i in range(n)]
    v = tonum(v, n)
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    return [T.ext(v, 8 * i, 8) for i in range(n)]


class History:
    stream = "in"
    wname = "hist"

    def __init__(self, ctx, res, setters=(), cpu=None, prefix="", maxtotal=None, only=None, root=None, ops=()):
        self.root = root
        self.ops = ops
        self.only = only
        self.ctx, self.res, self.setters, self.prefix = ctx, res, setters, prefix
        self.ip = ctx.interp()
        self.cpu = cpu
        self.maxtotal = maxtotal or ((1 << 126) if ctx.alg is spec.B and not prefix else (1 << 62))
        self.oid = "%s::%sstate" % (ctx.m, prefix)
        self.n = 0

    def start(self):
        """[(state, object of the State, pv)] right after to_state() (or State::new() / default())"""
        ctx, ip = self.ctx, self.ip
        st = State()
        if self.cpu is not None:
            for f in ("avx2", "sse4_1"):
                st.assume(T.bsym("cpu:" + f), f in self.cpu)
        out = []
        if self.root is not None:
            fn = ctx.root(self.prefix + self.root)
            for s3, v in ip.exec_fn(fn, [], st):
                o = ctx.hold(ip, s3, fn, v)
                s3.ghost["N"] = F(0)
                out.append((s3, o, PV(ctx.alg), False))
            return out
        for s0, po in new_params(ctx, ip, st, self.prefix + "params_new"):
            pv = PV(ctx.alg)
            states = [s0]
            for nm in self.setters:
                states = [x for s in states for x in apply_setter(ctx, ip, s, po, pv, nm, "", self.prefix)]
            for s in states:
                for s2, keyed in split_keyed(s, pv):
                    if self.only is not None and keyed != self.only:
                        continue
                    fn = ctx.root(self.prefix + "params_to_state")
                    for s3, v in ip.exec_fn(fn, [Ptr(po, 0)], s2):
                        o = ctx.hold(ip, s3, fn, v)
                        s3.mem.pop(po, None)
                        s3.ghost["N"] = F(0)
                        out.append((s3, o, pv, keyed))
        return out

    def update(self, s, o, n, root="state_update"):
        """states after one update() of n bytes"""
        ip, ctx = self.ip, self.ctx
        io, arg = stream_arg(ip, s, n, self.stream)
        res = []
        s.ghost["n"] = fm(n)
        for s2, _ in ip.exec_fn(ctx.root(self.prefix + root), [Ptr(o, 0), arg], s):
            s2.ghost["N"] = fadd(s2.ghost["N"], s2.ghost["n"])
            del s2.ghost["n"]
            s2.mem.pop(io, None)
            res.append(s2)
        return res

    def fresh_len(self, s, lo=0):
        self.n += 1
        u = T.sym("len%d" % self.n, 8 * PB[0])
        s.assume(T.le0(fadd(fatom(u), F(1 - (1 << (8 * PB[0] - 1))))))
        if lo:
            s.assume(T.le0(fsub(F(lo), fatom(u))))
        s.assume(T.le0(fadd(fadd(s.ghost["N"], fatom(u)), F(-self.maxtotal))))
        return fatom(u)

    def same_state(self, a, b, o):
        """no observable difference between the State object in two memories"""
        ca, cb = a.mem[o].cells, b.mem[o].cells
        return set(ca) == set(cb) and all(ca[k][0] == cb[k][0] and (ca[k][1] is cb[k][1] or ca[k][1] == cb[k][1]) for k in ca)

    def widen(self, s0, o):
        """G covering all states after a non-empty history, or None"""
        s1 = s0.fork()
        n = self.fresh_len(s1, 1)
        first = self.update(s1, o, n)
        return self.cover(first, o), first

    def cover(self, first, o, keepif=lambda s: True):
        """a state covering `first` and closed under update() (as far as the results satisfy keepif), or None"""
        ip = self.ip
        keep = list(ip.outcomes)
        W = loops.Widen(ip, self.wname, hint=hint(ip), tw=128)
        W.ref = first[0]
        W.local = True
        W.debug = ip.debug

        def step(g):
            del ip.outcomes[len(keep):]
            m = self.fresh_len(g)
            return [x for x in self.update(g, o, m) if keepif(x)], None
        ip.trying += 1
        old = ip.hint
        ip.hint = hint(ip)
        stack = list(ip.stack)
        try:
            r = W.run(first[0], first[1:], step)
        except Imprecise as e:
            ip.stack[:] = stack
            W.why = "imprecise: %s" % str(e)[:300]
            r = None
        finally:
            ip.trying -= 1
            ip.hint = old
        if r is None:
            self.why = W.why
            return None
        return r[0]

    def finalize(self, s, o, pv, keyed, oid, pure=False):
        ctx, ip, res = self.ctx, self.ip, self.res
        before = dict(s.mem[o].cells)
        fn = ctx.root(self.prefix + "state_finalize")
        stack = list(ip.stack)
        try:
            rets = ip.exec_fn(fn, [Ptr(o, 0)], s)
        except Imprecise as e:
            ip.stack[:] = stack
            res.undecided(oid, "imprecise: %s" % str(e)[:300])
            return []
        for s1, h in rets:
            if pure:
                self.unchanged(s1, o, before, oid + "/pure", fn.name)
            for s2, n, words in out_bytes(ctx, ip, s1, h):
                self.judge(s2, words, n, pv, oid, fn.name)
        return rets

    def unchanged(self, s, o, before, oid, where):
        """the bytes of object o are those of `before`"""
        res = self.res
        after = s.mem[o].cells
        pairs = []
        for k, (sz, v) in before.items():
            try:
                w = cells_read(s, after, k, sz, type(v) is not Arr)
            except Imprecise:
                res.undecided(oid, "cannot read the state back at offset %d" % k)
                return
            if isinstance(v, (T.T, Arr)):
                v = s.resolve(v)
            if isinstance(w, (T.T, Arr)):
                w = s.resolve(w)
            if v is UNDEF or w is v or (type(w) is type(v) and w == v):
                continue
            if isinstance(v, Arr) and isinstance(w, Arr) and v.layers == w.layers:
                continue
            if isinstance(v, (Ptr, Sel)) or isinstance(w, (Ptr, Sel)):
                res.undecided(oid, "pointer field at offset %d" % k)
                return
            if isinstance(v, Arr) or isinstance(w, Arr):
                # compare byte by byte
                try:
                    va, wa = array_bytes(s, v, sz), array_bytes(s, w, sz)
                except Imprecise:
                    res.undecided(oid, "cannot compare the bytes at offset %d" % k)
                    return
                pairs.extend((x, y) for x, y in zip(va, wa) if not same(x, y))
            else:
                pairs.append((tonum(v, sz), tonum(w, sz)))
        pairs = [(s.simplify(a), s.simplify(b)) for a, b in pairs]
        pairs = [(a, b) for a, b in pairs if not same(a, b)]
        if not pairs:
            res.ok(oid)
            return
        r = rand.refute(s, pairs)
        if r:
            res.violation(oid, "the operation changes the state", where, {"path": path_facts(s), "got": r[3], "before": r[2], "example": describe(r[1])})
        else:
            res.undecided(oid, "state may have changed")

    def judge(self, s, words, n, pv, oid, where):
        judge_hash(self.ctx, self.ip, s, self.res, oid, words, n, pv, s.ghost["N"], where)

    def count(self, s, o, oid):
        ctx, ip, res = self.ctx, self.ip, self.res
        fn = ctx.root(self.prefix + "state_count")
        for s1, v in ip.exec_fn(fn, [Ptr(o, 0)], s):
            w = ctx.alg.cw
            s1.ghost["N"] = s1.rform(s1.ghost["N"])
            want = T.lin_form(w, s1.ghost["N"])
            v = s1.simplify(v) if isinstance(v, T.T) else v
            f = s1.rform(s1.exact(v)) if isinstance(v, T.T) else F(v)
            if s1.cons.eq(fsub(f, s1.ghost["N"])):
                res.ok(oid)
                continue
            r = rand.refute(s1, [(v, want)])
            if r:
                res.violation(oid, "count() differs from the number of bytes absorbed", fn.name, {"got": r[2], "expected": r[3], "example": describe(r[1])})
            else:
                res.undecided(oid, "count not entailed")

    def piece(self, fn, *a):
        """run one part of the analysis; an imprecision there leaves only that part undecided"""
        stack = list(self.ip.stack)
        try:
            return fn(*a)
        except Imprecise as e:
            self.ip.stack[:] = stack
            self.res.undecided(next((x for x in a if isinstance(x, str)), self.oid), "imprecise: %s" % str(e)[:300])
            return None

    def run(self):
        rets = []
        for s, o, pv, keyed in self.start():
            prepare_chain(self.ctx, s, pv)
            tag = "%s[%s]" % (self.oid, self.root or ",".join(self.setters))
            rets.append((s, None))
            if "lastnode" in self.ops:
                pv = copy.copy(pv)
                for s in self.set_last(s, o, pv, "'"):
                    self.run_from(s, o, copy.copy(pv), keyed, tag)
            else:
                self.run_from(s, o, pv, keyed, tag)
        finish(self.ctx, self.ip, self.res, self.oid, rets)

    def run_from(self, s, o, pv, keyed, tag):
        ip, res = self.ip, self.res
        self.piece(self.finalize, s.fork(), o, pv, keyed, tag + "/new/finalize")
        self.piece(self.count, s.fork(), o, tag + "/new/count")
        g, first = self.widen(s.fork(), o)
        if g is None:
            res.undecided(tag + "/history", "no inductive generalisation: %s" % self.why)
            for f in first:
                self.piece(self.finalize, f.fork(), o, pv, keyed, tag + "/once/finalize")
                self.piece(self.count, f.fork(), o, tag + "/once/count")
            if not res.viol:
                self.bounded(s, o, pv, keyed, tag)
            return
        res.ok(tag + "/history")
        g.assume(T.le0(fadd(g.ghost["N"], F(-self.maxtotal))))
        if ip.debug:
            print("G", [T.show_form(r) for r in g.cons.rows], T.show_form(g.ghost["N"]))
        if "lastnode" in self.ops:
            for g2 in self.set_last(g, o, pv, '"'):
                self.piece(self.finalize, g2, o, pv, keyed, tag + "/history/set_last_node/finalize")
            return
        self.piece(self.finalize, g.fork(), o, pv, keyed, tag + "/history/finalize", "pure" in self.ops)
        self.piece(self.count, g.fork(), o, tag + "/history/count")
        if "pure" in self.ops:
            self.piece(self.clone, g.fork(), o, pv, keyed, tag + "/history/clone")
        if "write" in self.ops:
            for x, nm in ((s, "new"), (g, "history")):
                self.piece(self.write, x.fork(), o, pv, keyed, tag + "/%s/write" % nm)
                self.piece(self.flush, x.fork(), o, tag + "/%s/flush" % nm)

    def set_last(self, s, o, pv, suffix):
        b = T.bsym("last" + suffix)
        r = [s1 for s1, _ in self.ip.exec_fn(self.ctx.root(self.prefix + "state_set_last_node"), [Ptr(o, 0), b], s.fork())]
        pv.last_node = b
        return r

    def clone(self, s, o, pv, keyed, oid):
        fn = self.ctx.root(self.prefix + "state_clone")
        for s1, v in self.ip.exec_fn(fn, [Ptr(o, 0)], s):
            c = self.ctx.hold(self.ip, s1, fn, v)
            s1.mem[o], before = s1.mem[c], dict(s1.mem[o].cells)
            self.unchanged(s1, o, before, oid, fn.name)

    def write(self, s, o, pv, keyed, oid):
        ctx, ip, res = self.ctx, self.ip, self.res
        n = self.fresh_len(s)
        io, arg = stream_arg(ip, s, n, self.stream)
        fn = ctx.root(self.prefix + "io_write")
        s.ghost["n"] = fm(n)
        for s2, r in ip.exec_fn(fn, [Ptr(o, 0), arg], s):
            ln = s2.ghost.pop("n")
            f = s2.exact(s2.resolve(r)) if isinstance(r, T.T) else F(r)
            if s2.cons.eq(fsub(f, ln)):
                res.ok(oid + "/result")
            else:
                x = rand.refute(s2, [(T.lin_form(64, f), T.lin_form(64, ln))])
                if x:
                    res.violation(oid + "/result", "write() does not report the whole buffer as written", fn.name, {"got": x[2], "expected": x[3], "example": describe(x[1])})
                else:
                    res.undecided(oid + "/result", "returned count not entailed")
            s2.ghost["N"] = fadd(s2.ghost["N"], ln)
            s2.mem.pop(io, None)
            self.finalize(s2, o, pv, keyed, oid)

    def flush(self, s, o, oid):
        ctx, ip, res = self.ctx, self.ip, self.res
        fn = ctx.root(self.prefix + "io_flush")
        before = dict(s.mem[o].cells)
        for s2, r in ip.exec_fn(fn, [Ptr(o, 0)], s):
            r = s2.resolve(r) if isinstance(r, T.T) else r
            if r is True or r == 1:
                res.ok(oid + "/result")
            elif r is False or r == 0:
                res.violation(oid + "/result", "flush() fails", fn.name, {})
            else:
                res.undecided(oid + "/result", "result of flush not entailed")
            self.unchanged(s2, o, before, oid, fn.name)

    def bounded(self, s, o, pv, keyed, tag):
        """short histories of fixed lengths: finds definite violations when no invariant was found"""
        B = self.ctx.alg.block
        ls = (0, 1, B - 1, B, B + 1, 2 * B)
        for a in ls:
            for b in ls:
                if self.res.viol:
                    return
                ss = [s.fork()]
                try:
                    for n in (a, b):
                        ss = [x for y in ss for x in self.update(y, o, F(n))]
                except Imprecise:
                    continue
                for x in ss:
                    self.piece(self.finalize, x.fork(), o, pv, keyed, tag + "/update(%d),update(%d)/finalize" % (a, b))
                    self.piece(self.count, x, o, tag + "/update(%d),update(%d)/count" % (a, b))
