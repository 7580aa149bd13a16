"""Arguments outside the documented limits: the setter must panic, and must not have touched the Params before."""
from . import term as T
from . import mem
from .term import F, fadd, fsub, fatom
from .task import *
from .safety import feasible
from .t_hash import new_params, finish
from .mem import cells_read


def cases(ctx, name):
    """[(label, state constraint on the symbol)] covering every invalid argument"""
    alg = ctx.alg
    top = lambda m: lambda n: [T.le0(fsub(F(m + 1), fatom(n)))]
    if name == "hash_length":
        return [("0", None), (">%d" % alg.out, top(alg.out))]
    if name == "inner_hash_length":
        return [(">%d" % alg.out, top(alg.out))]
    if name == "key":
        return [(">%d" % alg.keybytes, top(alg.keybytes))]
    if name in ("salt", "personal"):
        return [(">%d" % alg.salt, top(alg.salt))]
    if name == "node_offset" and alg.w == 32:
        return [(">=2^48", top((1 << 48) - 1))]
    return []


def invalid(ctx, res, name, prefix=""):
    fn = ctx.root(prefix + "set_" + name)
    for label, cond in cases(ctx, name):
        ip = ctx.interp()
        st = State()
        oid = "%s::%s%s(%s)" % (ctx.m, prefix, name, label)
        for s, po in new_params(ctx, ip, st, prefix + "params_new"):
            n = T.sym(name, 64)
            if cond is None:
                n = 0
            elif not all(s.assume(c) for c in cond(n)):
                res.undecided(oid, "the invalid range could not be set up")
                continue
            if name in ("key", "salt", "personal"):
                s.assume(T.le0(fadd(fatom(n), F(-mem.max_len()))))
                arg = slice_of(ip, s, name, fatom(n))
            else:
                arg = n
            before = dict(s.mem[po].cells)
            mark = len(ip.outcomes)
            rets = ip.exec_fn(fn, [Ptr(po, 0), arg], s)
            bad = False
            for s2, _ in rets:
                v = feasible(s2)
                if v is None:
                    res.undecided(oid, "a returning path could not be excluded")
                else:
                    res.violation(oid, "the setter returns for an argument outside its documented range", fn.name, {"example": describe(v)})
                bad = True
            panics = [o for o in ip.outcomes[mark:] if o.kind == "panic"]
            if not panics and not rets:
                res.undecided(oid, "no path through the setter was found")
                bad = True
            for o in panics:
                now = o.state.mem[po].cells
                ch = [k for k, (sz, v) in before.items() if k not in now or now[k] != (sz, v) and not (now[k][0] == sz and same(now[k][1], v))]
                if ch:
                    v = feasible(o.state)
                    if v is not None:
                        res.violation(oid + "/untouched", "the setter panics only after it has already changed the parameters", fn.name,
                                      {"offsets": ch, "example": describe(v), "panic": repr(o)})
                    else:
                        res.undecided(oid + "/untouched", "the parameters may have changed before the panic")
                else:
                    res.ok(oid + "/untouched")
            if not bad:
                res.ok(oid)
            finish(ctx, ip, res, oid, rets)
