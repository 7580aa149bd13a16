"""Debug formatting: what reaches the formatter.

The Debug implementations of the library are interpreted; the formatting machinery of core is not, it is the sink.
Everything handed to it (values behind fmt::Argument, &dyn Debug, strings, numbers) is read through its type, and
none of it may have a secret byte among its leaves; neither may a branch on the way."""
from . import term as T
from .term import F
from .task import *
from .state import State
from .t_hash import PV, apply_setter, new_params, finish, SETTERS
from .t_many import assume_cpu
from .mem import Ptr, Blob, FnP

FMT = ("Formatter<", "Formatter", "DebugStruct", "DebugTuple", "DebugList", "DebugSet", "DebugMap", "Arguments", "Argument", "fmt::rt")


def is_arg(f):
    return (f.deff or "").startswith("core::fmt::rt::Argument") and "::new_" in (f.deff or "") and not (f.deff or "").endswith("from_usize")


def in_library(f):
    return f.krate in ("core", "alloc", "std")


def is_sink(f):
    d = f.deff or f.name
    if not in_library(f) or is_arg(f) or d.endswith("::entries") and f.raw is not None:
        return False
    return d.startswith(("core::fmt::", "std::fmt::", "alloc::fmt::")) or " as core::fmt::" in d or " as std::fmt::" in d


class Sinks:
    def __init__(self, ctx, ip):
        self.ctx, self.ip, self.p = ctx, ip, ctx.p
        self.calls = 0
        self.values = 0
        self.unread = []
        self.byname = {}
        for i, r in self.p.rawtypes.items():
            self.byname.setdefault(r["s"], int(i))
        self.impls = {}
        for f in self.p.fns.values():
            if f.raw is not None and f.name.endswith(">::fmt") and " as " in f.name and not in_library(f):
                self.impls[f.name] = f
        ip.intercepts.append((is_arg, self.argument))
        ip.intercepts.append((is_sink, self.sink))
        self.n = 0

    # ---------------------------------------------------------------- calls
    def argument(self, ip, st, fn, args):
        t = self.p.ty(fn.abi_args[0])
        trait = {"new_debug": "Debug", "new_display": "Display", "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex"}.get(fn.deff.split("::")[-1], "Display")
        out = []
        for s in self.expose(st, args[0], t, trait):
            out.append((s, Blob(self.p.ty(fn.abi_ret).size, {})))
        return out

    def sink(self, ip, st, fn, args):
        self.calls += 1
        states = [st]
        trait = "Display" if " as std::fmt::Display>" in fn.name else "Debug"
        for a, ti in zip(args, fn.abi_args or []):
            states = [s2 for s in states for s2 in self.expose(s, a, self.p.ty(ti), trait)]
        return [(s, self.result(s, fn, args)) for s in states]

    def result(self, st, fn, args):
        t = self.p.ty(fn.abi_ret)
        self.n += 1
        nm = "fmt%d" % self.n
        if t.size == 0:
            return Blob(0, {})
        if t.k == "bool":
            return T.bsym(nm)
        if t.k in ("ref", "ptr"):
            return args[0]
        if t.size == 1:
            v = T.sym(nm, 8)
            st.assume(T.le0(T.fadd(T.fatom(v), F(-1))))
            return v
        if t.k == "adt" and any(x in t.s for x in FMT):
            return Blob(t.size, {})
        if t.k == "adt" and "Option<" in t.s and t.size == 16:
            v = T.sym(nm, 64)
            st.assume(T.le0(T.fadd(T.fatom(v), F(-1))))
            return Blob(16, {0: (8, v), 8: (8, T.sym(nm + "v", 64))})
        if t.k in ("uint", "int", "char"):
            return T.sym(nm, 8 * t.size)
        raise Imprecise("result of %s: %s" % (fn.name, t.s))

    # ---------------------------------------------------------------- values
    def leak(self, st, v):
        self.values += 1
        v = st.resolve(v) if isinstance(v, T.T) else v
        r = self.ip.watch.leaves(v)
        if r:
            self.ip.note(st, "debug-leak", "the formatter is given a value computed from %s" % ", ".join(T.show(x, 2) for x in r[:2]))

    def expose(self, st, v, t, trait, depth=0):
        """the formatter gets value v of type t; -> states"""
        if depth > 12:
            raise Imprecise("nesting of formatted values")
        if t.size == 0 or t.k in ("fndef", "fnptr", "never"):
            return [st]
        if isinstance(v, T.T) or isinstance(v, (int, bool)):
            self.leak(st, v)
            return [st]
        if t.k in ("ref", "ptr"):
            e = self.p.ty(t.elem)
            if e.k == "adt" and any(e.s.split("<")[0].endswith(x) for x in ("Formatter", "DebugStruct", "DebugTuple", "DebugList", "DebugSet", "DebugMap")):
                return [st]
            if e.k in ("slice", "str"):
                return self.slice(st, v, self.p.ty(e.elem) if e.k == "slice" else None, trait, depth)
            if e.k == "dyn":
                p, vt = v.cells[0][1], v.cells[8][1]
                n = getattr(vt, "f", None) or str(vt)
                n = n[n.index("vtable:") + 7:] if "vtable:" in n else None
                ti = self.byname.get(n)
                if ti is None:
                    if not isinstance(p, Ptr):
                        return [st]
                    raise Imprecise("dynamic type %r" % (n,))
                e = self.p.ty(ti)
                return self.at(st, p, e, trait, depth + 1)
            return self.at(st, v, e, trait, depth + 1)
        if isinstance(v, Ptr):
            return [st]
        if isinstance(v, Blob):
            if t.size is None:
                return [st]
            o = self.ip.new_obj(st, max(t.size, 1), dict(v.cells), align=t.align)
            return self.at(st, Ptr(o, 0), t, trait, depth + 1)
        return [st]

    def impl(self, e, trait):
        for tr in (trait, "Debug", "Display"):
            f = self.impls.get("<%s as std::fmt::%s>::fmt" % (e.s, tr))
            if f is not None:
                return f
        base = e.s.split("<")[0]
        for n, f in self.impls.items():
            if n.startswith("<" + base) and n.endswith(" as std::fmt::%s>::fmt" % trait) and f.args and n[1 + len(base)] in " <":
                return f
        return None

    def at(self, st, p, e, trait, depth):
        """the formatter gets the value of type e behind p"""
        if e.size == 0:
            return [st]
        if not isinstance(p, Ptr):
            return [st]
        f = self.impl(e, trait) if e.k == "adt" else None
        if f is not None:
            fm_ = Ptr(self.formatter(st), 0)
            return [s for s, _ in self.ip.exec_fn(f, [p, fm_], st)]
        if e.k in ("ref", "ptr"):
            fat = self.p.fat(e.elem)
            if fat:
                v = Blob(16, {0: (8, self.ip.load(st, p, 8, True)), 8: (8, self.ip.load(st, padd(p, 8), 8, True))})
            else:
                v = self.ip.load(st, p, 8, True)
            return self.expose(st, v, e, trait, depth + 1)
        if e.k == "array":
            t = self.p.ty(e.elem)
            if t.size == 0:
                return [st]
            if self.plain(t):
                return self.raw(st, p, e.size)
            states = [st]
            for i in range(e.n):
                states = [s2 for s in states for s2 in self.at(s, padd(p, i * t.size), t, trait, depth + 1)]
            return states
        if e.k in ("tuple", "closure") or e.k == "adt" and e.fields is not None and e.variants is None:
            if e.k == "adt" and any(x in e.s for x in ("MaybeUninit", "ManuallyDrop")) or not e.fields:
                return self.raw(st, p, e.size)
            states = [st]
            for off, ti in e.fields:
                t = self.p.ty(ti)
                states = [s2 for s in states for s2 in self.at(s, padd(p, off), t, trait, depth + 1)]
            return states
        return self.raw(st, p, e.size)

    def plain(self, t):
        return t.k in ("uint", "int", "bool", "char", "float") or t.k == "adt" and "MaybeUninit" in t.s

    def raw(self, st, p, n):
        """n bytes of any kind"""
        i = 0
        while i < n:
            k = next(k for k in (8, 4, 2, 1) if k <= n - i)
            try:
                v = self.ip.load(st, padd(p, i), k, True)
            except Imprecise:
                v = None
                for j in range(k):
                    try:
                        self.leak(st, self.ip.load(st, padd(p, i + j), 1, True))
                    except Imprecise:
                        pass
            if isinstance(v, T.T):
                self.leak(st, v)
            i += k
        return [st]

    def slice(self, st, v, t, trait, depth):
        p, n = v.cells[0][1], v.cells[8][1]
        es = t.size if t is not None else 1
        if es == 0:
            return [st]
        if isinstance(n, T.T):
            st2 = st.fork()
            hi = st.cons.minmax(st.exact(st.resolve(n)), "max")
            if not isinstance(p, Ptr):
                return [st]
            k = 0
            while k < min(hi, 130):
                st2 = st.fork()
                if not st2.assume(T.le0(T.fsub(F(k + 1), st2.exact(st2.resolve(n))))):
                    break
                try:
                    x = self.ip.load(st2, padd(p, k * es), min(es, 8), True)
                    if isinstance(x, T.T):
                        self.leak(st2, x)
                except Imprecise:
                    break
                k += 1
            return [st]
        if t is None or self.plain(t):
            return self.raw(st, p, n * es) if n else [st]
        states = [st]
        for i in range(n):
            states = [s2 for s in states for s2 in self.at(s, padd(p, i * es), t, trait, depth + 1)]
        return states

    def formatter(self, st):
        return self.ip.new_obj(st, 64, {}, align=8)


def show(ctx, ip, sk, st, root, o):
    fn = ctx.root(root)
    return ip.exec_fn(fn, [Ptr(o, 0), Ptr(sk.formatter(st), 0)], st)


def begin(ctx):
    ip = ctx.interp()
    sk = Sinks(ctx, ip)
    st = State()
    assume_cpu(st, ())
    return ip, sk, st


def done(ctx, ip, sk, res, oid, rets, need):
    finish(ctx, ip, res, oid, rets)
    if not rets or sk.calls == 0 or sk.values < need:
        res.undecided(oid, "only %d calls of the formatter with %d values were seen" % (sk.calls, sk.values))
    else:
        res.ok(oid)
    res.stats["sink_calls"] = res.stats.get("sink_calls", 0) + sk.calls
    res.stats["sink_values"] = res.stats.get("sink_values", 0) + sk.values


def params(ctx, res, prefix=""):
    """Debug of Params after every setter with arguments of any length and value"""
    ip, sk, st = begin(ctx)
    rets = []
    setters = SETTERS if not prefix else ["hash_length", "key"]
    for s, po in new_params(ctx, ip, st, prefix + "params_new"):
        states = [s]
        pv = PV(ctx.alg)
        for x in setters:
            states = [s2 for s1 in states for s2 in apply_setter(ctx, ip, s1, po, pv, x, "", prefix)]
        for s1 in states:
            rets += show(ctx, ip, sk, s1, "debug_pparams" if prefix else "debug_params", po)
    done(ctx, ip, sk, res, "%s::%sparams" % (ctx.m, prefix), rets, 2)


def states(ctx, res, prefix="", lens=(None, 300), keyed=True):
    """Debug of a State, fresh and after each of several updates"""
    ip, sk, st = begin(ctx)
    rets = []
    root = "debug_pstate" if prefix else "debug_state"
    for s, po in new_params(ctx, ip, st, prefix + "params_new"):
        pv = PV(ctx.alg)
        ss = [s]
        for x in ["hash_length"] + (["key"] if keyed else []):
            ss = [s2 for s1 in ss for s2 in apply_setter(ctx, ip, s1, po, pv, x, "", prefix)]
        fn = ctx.root(prefix + "params_to_state")
        cur = []
        for s1 in ss:
            for s2, v in ip.exec_fn(fn, [Ptr(po, 0)], s1):
                cur.append((s2, ctx.hold(ip, s2, fn, v)))
        for i, n in enumerate((0,) + tuple(lens)):
            nxt = []
            for s1, o in cur:
                if i:
                    if n is None:
                        L = T.sym("n%d" % i, 64)
                        s1.assume(T.le0(T.fadd(T.fatom(L), F(-(ctx.alg.block // 4)))))
                        n_ = T.fatom(L)
                    else:
                        n_ = F(n)
                    arg = slice_of(ip, s1, "in%d" % i, n_)
                    for s2, _ in ip.exec_fn(ctx.root(prefix + "state_update"), [Ptr(o, 0), arg], s1):
                        nxt.append((s2, o))
                else:
                    nxt.append((s1, o))
            for s1, o in nxt:
                rets += show(ctx, ip, sk, s1.fork(), root, o)
            cur = nxt
    done(ctx, ip, sk, res, "%s::%sstate" % (ctx.m, prefix), rets, 2)


def jobs(ctx, res):
    """Debug of a HashManyJob, fresh and after hashing"""
    ip, sk, st = begin(ctx)
    rets = []
    for s, po in new_params(ctx, ip, st):
        pv = PV(ctx.alg)
        ss = [s]
        for x in ("hash_length", "key"):
            ss = [s2 for s1 in ss for s2 in apply_setter(ctx, ip, s1, po, pv, x, "")]
        fn = ctx.root("job_new")
        for s1 in ss:
            arg = slice_of(ip, s1, "in", F(300))
            for s2, v in ip.exec_fn(fn, [Ptr(po, 0), arg], s1):
                o = ctx.hold(ip, s2, fn, v)
                rets += show(ctx, ip, sk, s2.fork(), "debug_job", o)
                for s3 in run_many(ctx, ip, s2, o):
                    rets += show(ctx, ip, sk, s3, "debug_job", o)
    done(ctx, ip, sk, res, "%s::job" % ctx.m, rets, 3)


def run_many(ctx, ip, st, o):
    from .t_many import feed
    st.ghost["it"] = 0
    st.ghost["job"] = o
    if not getattr(ip, "fed", False):
        feed(ip, "AnyJobs", lambda s, i: [Ptr(s.ghost["job"], 0)] if i == 0 else None)
        ip.fed = True
    fn = ctx.root("many_hash")
    return [s for s, _ in ip.exec_fn(fn, [Blob(0, {})], st)]
