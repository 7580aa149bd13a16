"""hash_many / update_many: every job against its own individual result.

The iterator handed to the library is opaque to it; the analysis supplies n items and then None.  Every job has a
stream of its own, its own parameters and its own symbolic key, so a mix-up of lanes shows in the terms."""
from . import mem
from .task import *
from .t_hash import *
from . import t_state


def option_of(ip, fn, words):
    """the value Some(words) / None of the niche-optimised return type of `fn`"""
    t = ip.p.ty(fn.abi_ret)
    if t.size == PB[0]:
        return words[0] if words is not None else 0
    if words is None:
        off = t.tag[0]
        return Blob(t.size, {off: (PB[0], 0)})
    some = next(v for v in t.variants if v[0] == "Some")
    pair = ip.p.ty(some[2][0][1])
    base = some[2][0][0]
    cells = {}
    for (o, ft), w in zip(pair.fields, words):
        if isinstance(w, Blob):
            for k, c in w.cells.items():
                cells[base + o + k] = c
        else:
            cells[base + o] = (PB[0], w)
    return Blob(t.size, cells)


def feed(ip, item, items):
    """make `<item as Iterator>::next` yield items(st, i) until it gives None"""
    def is_next(f):
        return f.krate == "vharness" and f.name.endswith("::Iterator>::next") and ("::%s<" % item) in f.name.split(" as ")[0]

    def nxt(ip_, st, fn, args):
        i = st.ghost.get("it", 0)
        if type(i) is not int:
            raise Imprecise("item number %r" % (i,))
        w = items(st, i)
        if w is not None:
            st.ghost["it"] = i + 1
        return [(st, option_of(ip_, fn, w))]
    if not any(is_next(f) for f in ip.p.fns.values()):
        raise Imprecise("the iterator of the harness is not in the program")
    ip.intercepts.append((is_next, nxt))


def lens_of(st, lens, maxlen):
    out = []
    for i, L in enumerate(lens):
        if L is None:
            f = fatom(T.sym("len%d" % i, 8 * PB[0]))
            st.assume(T.le0(fadd(f, F(-maxlen))))
            out.append(f)
        else:
            out.append(F(L))
    return out


def assume_cpu(st, cpu):
    if cpu is not None:
        for f in ("avx2", "sse4_1"):
            st.assume(T.bsym("cpu:" + f), f in cpu)


def set_flag(ctx, ip, s, po, pv, i, last):
    """last_node: a symbol for the jobs in `last`, a constant for the others"""
    if last is None:
        return [s]
    if i in last:
        return apply_setter(ctx, ip, s, po, pv, "last_node", str(i))
    if i % 3 == 1:
        pv.last_node = True
        return [x for x, _ in ip.exec_fn(ctx.root("set_last_node"), [Ptr(po, 0), True], s)]
    return [s]


def param_states(ctx, ip, st, i, setters, keyed, last=None):
    """[(state, object, pv)] of Params with the given setters applied to symbols of their own"""
    out = []
    for s0, po in new_params(ctx, ip, st):
        pv = PV(ctx.alg)
        pv.stream = "in%d" % i
        pv.wide = "both"
        states = [s0]
        for nm in setters:
            states = [x for s in states for x in apply_setter(ctx, ip, s, po, pv, nm, str(i))]
        states = [x for s in states for x in set_flag(ctx, ip, s, po, pv, i, last)]
        for s in states:
            for s2, k in split_keyed(s, pv):
                if k == keyed:
                    out.append((s2, po, pv))
    return out


def judge_jobs(ctx, ip, res, s, jobs, ls, oid, where):
    for i, (o, pv) in enumerate(jobs):
        for s2, h in ip.exec_fn(ctx.root("job_to_hash"), [Ptr(o, 0)], s.fork()):
            for s3, n, words in out_bytes(ctx, ip, s2, h):
                judge_hash(ctx, ip, s3, res, oid + "/job%d" % i, words, n, pv, ls[i], where)


def run_hash_many(ctx, res, lens, setters=("hash_length",), keyed=(), cpu=None, maxlen=None, last=(), again=False):
    """hash_many over len(lens) jobs; `keyed` lists the indices of jobs with a key"""
    ip = ctx.interp()
    ip.small_counts = ctx.alg.w == 64 or cpu != ()
    maxlen = min(maxlen or mem.max_len(), 1 << (62 if ctx.alg.w == 64 or cpu == () else 31))
    st = State()
    assume_cpu(st, cpu)
    oid = "%s::hash_many[%s%s]" % (ctx.m, ",".join("L" if L is None else str(L) for L in lens), "".join("; key %d" % k for k in keyed))
    ls = lens_of(st, lens, maxlen)
    states = [(st, [])]
    for i, f in enumerate(ls):
        nxt = []
        for s, jobs in states:
            sets = list(setters) + (["key"] if i in keyed else [])
            for s2, po, pv in param_states(ctx, ip, s, i, sets, i in keyed, last):
                if not ip.small_counts:
                    pv.wide = True
                prepare_chain(ctx, s2, pv)
                fn = ctx.root("job_new")
                for s3, v in ip.exec_fn(fn, [Ptr(po, 0), slice_of(ip, s2, "in%d" % i, s2.rform(f))], s2):
                    o = ctx.hold(ip, s3, fn, v)
                    s3.mem.pop(po, None)
                    nxt.append((s3, jobs + [(o, pv)]))
        states = nxt
    rets = []
    for s, jobs in states:
        ip.intercepts = [x for x in ip.intercepts if x[0] is is_feature]
        feed(ip, "AnyJobs", lambda st, i: [Ptr(jobs[i][0], 0)] if i < len(jobs) else None)
        s.ghost["it"] = 0
        fn = ctx.root("many_hash")
        for s1, _ in ip.exec_fn(fn, [Blob(0, {})], s):
            rets.append((s1, None))
            if s1.ghost["it"] != len(jobs):
                res.violation(oid, "hash_many leaves items of the iterator unvisited", fn.name, {"visited": s1.ghost["it"]})
                continue
            judge_jobs(ctx, ip, res, s1, jobs, ls, oid, fn.name)
            if again:
                # documented: hash_many on the same jobs once more has no effect
                s1.ghost["it"] = 0
                for s2, _ in ip.exec_fn(fn, [Blob(0, {})], s1):
                    rets.append((s2, None))
                    judge_jobs(ctx, ip, res, s2, jobs, ls, oid + "/again", fn.name)
    finish(ctx, ip, res, oid, rets)
    return ip


class Many(t_state.History):
    """update_many over n states that already absorbed `pre` bytes each"""

    def __init__(self, ctx, res, n, pre, lens, keyed=(), cpu=None, setters=("hash_length",), then=None, hist=None):
        super().__init__(ctx, res, setters, cpu=cpu)
        self.ip.small_counts = not hist and (ctx.alg.w == 64 or self.cpu != ())
        self.k = n
        self.pre, self.lens, self.keyed, self.then, self.hist = pre, lens, keyed, then, hist or {}

    def go(self):
        ctx, ip, res = self.ctx, self.ip, self.res
        n = self.k
        show = lambda xs: ",".join("L" if x is None else str(x) for x in xs)
        pres = ["history" + self.hist[i] if i in self.hist else self.pre[i] for i in range(n)]
        oid = "%s::update_many[%s after %s%s]" % (ctx.m, show(self.lens), show(pres), "".join("; key %d" % k for k in self.keyed))
        st = State()
        assume_cpu(st, self.cpu)
        states = [(st, [])]
        for i in range(n):
            nxt = []
            for s, objs in states:
                sets = list(self.setters) + (["key"] if i in self.keyed else [])
                for s2, po, pv in param_states(ctx, ip, s, i, sets, i in self.keyed):
                    if i in self.hist or not ip.small_counts:
                        pv.wide = True
                    prepare_chain(ctx, s2, pv)
                    fn = ctx.root("params_to_state")
                    for s3, v in ip.exec_fn(fn, [Ptr(po, 0)], s2):
                        o = ctx.hold(ip, s3, fn, v)
                        s3.mem.pop(po, None)
                        if i in self.hist:
                            after = self.any_history(s3, o, i, oid)
                        else:
                            f = F(self.pre[i])
                            s3.ghost["N%d" % i] = f
                            after = self.upd(s3, o, i, F(0), f) if self.pre[i] else [s3]
                        nxt.extend((s4, objs + [(o, pv)]) for s4 in after)
            states = nxt
        rets = []
        for s, objs in states:
            ls = lens_of(s, self.lens, 1 << (62 if ctx.alg.w == 64 or self.cpu == () else 31))
            ip.intercepts = [x for x in ip.intercepts if x[0] is is_feature]

            def items(st, i):
                if i >= n:
                    return None
                io = ip.base_obj(st, "in%d" % i, ival(ls[i]), st.ghost["N%d" % i])
                sl = fat(Ptr(io, 0), usize(ls[i]))
                return [Ptr(objs[i][0], 0), sl]
            feed(ip, "AnySlicePairs", items)
            s.ghost["it"] = 0
            fn = ctx.root("many_update")
            for s1, _ in ip.exec_fn(fn, [Blob(0, {})], s):
                rets.append((s1, None))
                if s1.ghost["it"] != n:
                    res.violation(oid, "update_many leaves items of the iterator unvisited", fn.name, {"visited": s1.ghost["it"]})
                    continue
                for i, (o, pv) in enumerate(objs):
                    tot = s1.rform(fadd(s1.ghost["N%d" % i], ls[i]))
                    for extra in (0,) + ((self.then,) if self.then else ()):
                        t2 = s1.fork()
                        t2s = self.upd(t2, o, i, tot, F(extra)) if extra else [t2]
                        for t3 in t2s:
                            t3.ghost["N"] = t3.rform(fadd(tot, F(extra)))
                            tag = oid + "/state%d%s" % (i, "+%d" % extra if extra else "")
                            self.finalize(t3.fork(), o, pv, i in self.keyed, tag)
                            self.count(t3, o, tag + "/count")
        finish(ctx, ip, res, oid, rets)
        return ip

    def any_history(self, s, o, i, oid):
        """the state of lane i after any non-empty history, with its block counter split at the low word:
        k = 2^e*kh + kl, where "far" keeps the low word from wrapping and "wrap<j>" makes it wrap after j blocks"""
        ctx, ip, res = self.ctx, self.ip, self.res
        self.stream, self.wname = "in%d" % i, "hist%d" % i
        s.ghost["N"] = F(0)
        g, _ = self.widen(s, o)
        if g is None:
            res.undecided(oid, "no inductive generalisation of the history: %s" % self.why)
            return []
        g.assume(T.le0(fadd(g.ghost["N"], F((1 << 20) - self.maxtotal))))
        g.ghost["N%d" % i] = g.ghost.pop("N")
        ks = {x.a[1] for _, v in g.mem[o].cells.values() if isinstance(v, T.T) for x in T.leaves(v) if x.op == "cw"}
        case = self.hist[i]
        if case == "" or len(ks) != 1:
            return [g]
        k, = ks
        e = ctx.alg.w - (ctx.alg.block.bit_length() - 1)
        kh, kl = T.sym("kh%d" % i, ctx.alg.w - 4), T.sym("kl%d" % i, e - 1)
        if case == "far":
            low = fatom(kl)
        else:
            low = F((1 << e) - int(case[4:]))
        t = next((x for x, c in k[1] if c == 1 and x.op in ("sym", "phi")), None)
        if t is None:
            return [g]
        rest = (k[0], tuple((x, c) for x, c in k[1] if x is not t))
        return [g] if g.subst(t, fsub(fadd(fscale(fatom(kh), 1 << e), low), rest)) else []

    def upd(self, s, o, i, start, f):
        io = self.ip.base_obj(s, "in%d" % i, ival(f), s.rform(start))
        arg = fat(Ptr(io, 0), usize(f))
        return [x for x, _ in self.ip.exec_fn(self.ctx.root("state_update"), [Ptr(o, 0), arg], s)]


def pool(ctx):
    B = ctx.alg.block
    return [0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B - 1, 5 * B + 3]


def hash_fixed(ctx, res, cpu, ns, key_every=4):
    """job lists of the given sizes, lengths around the block boundaries, every fourth job keyed"""
    pl = pool(ctx)
    for n in ns:
        for rot in (0, 1) if n > 1 else (0,):
            lens = [pl[(i * (5 if rot == 0 else 4) + n + rot) % len(pl)] for i in range(n)]
            keyed = [i for i in range(n) if i % key_every == (n + rot) % key_every]
            spec.reset()
            run_hash_many(ctx, res, lens, keyed=keyed, cpu=cpu, last=(n // 2,), again=rot == 0)


def update_fixed(ctx, res, cpu, ns, key_every=4):
    pl = pool(ctx)
    B = ctx.alg.block
    for n in ns:
        for rot in (0, 1) if n > 1 else (0,):
            lens = [pl[(i * (5 if rot == 0 else 4) + n + rot) % len(pl)] for i in range(n)]
            pre = [(0, 1, B, B - 1, 2 * B)[(i + n + rot) % 5] for i in range(n)]
            keyed = [i for i in range(n) if i % key_every == (n + rot) % key_every]
            spec.reset()
            Many(ctx, res, n, pre, lens, keyed=keyed, cpu=cpu, then=B + 1).go()


