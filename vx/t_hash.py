"""One-shot hashing: Params::hash / blake2b() / blake2s() against RFC 7693 for every input length."""
from . import mem
from .task import *


def key_words(alg, kl):
    """the key block: key bytes [0,kl) of the stream "key", zero padded"""
    return spec.padded(alg, "key", F(0), kl)


def expected_final(ctx, ip, st, ch, total, base, off, last_node, first, words):
    """terms of the final chaining value for a stream of `total` bytes; may raise ForkNeeded"""
    B = ctx.alg.block
    k = block_index(ctx, ip, st, total, words)
    if k is None:
        if not entails_range(st, total, 1, 1 << 200):
            raise ForkNeeded(T.le0(total))
        q, r = ip.divmod(st, fadd(total, F(-1)), B)
        k = q
        total = st.rform(total)
    rem = fsub(total, fscale(k, B))
    if first is not None and k == F(0):
        m = first
    else:
        m = spec.padded(ctx.alg, base, fadd(off, fscale(k, B)), rem)
    exp = ch.final(k, m, total, last_node)
    return exp


def check_final(ctx, ip, s, res, oid, words, n, ch, total, base, off, last_node, first, where, outlen):
    """fork as needed and compare"""
    work = [s]
    ok = True
    while work:
        s = work.pop()
        if not sharpen(s):
            continue
        try:
            tot = s.rform(total)
            f2 = [s.resolve(x) for x in first] if first is not None else None
            ln = s.resolve(last_node) if isinstance(last_node, T.T) else last_node
            exp = expected_final(ctx, ip, s, ch, tot, base, off, ln, f2, words)
        except ForkNeeded as e:
            s2 = s.fork()
            if s2.assume(e.cond, False):
                work.append(s2)
            if s.assume(e.cond, True):
                work.append(s)
            continue
        w2 = [s.resolve(x) for x in words]
        if not compare(ctx, ip, s, res, oid, w2, [s.resolve(x) for x in exp], where, outlen=outlen):
            ok = False
        nn = s.exact(s.resolve(n)) if isinstance(n, T.T) else F(n)
        want = s.rform(fm(outlen))
        if not s.cons.eq(fsub(nn, want)):
            r = rand.refute(s, [(T.lin_form(64, nn), T.lin_form(64, want))])
            if r:
                res.violation(oid + "/length", "the hash length differs from the requested one", where, {"got": r[2], "expected": r[3], "example": describe(r[1])})
                ok = False
            else:
                res.undecided(oid + "/length", "length not entailed")
        else:
            res.ok(oid + "/length")
    return ok


def where_of(ctx, name):
    f = ctx.root(name)
    return "%s and the functions it reaches" % f.name


def run_oneshot(ctx, res, root="oneshot", maxlen=None, fixed=None):
    ip = ctx.interp()
    st = State()
    alg = ctx.alg
    fn = ctx.root(root)
    L = T.sym("len", 8 * PB[0])
    total = fatom(L) if fixed is None else F(fixed)
    v = slice_of(ip, st, "in", total)
    if fixed is None:
        st.assume(T.le0(fadd(total, F(-(maxlen or mem.max_len())))))
    ch = spec.Chain("c", alg, spec.param_words(alg, alg.out), "in", wide=True)
    ch.register(F(0))
    rets = ip.exec_fn(fn, [v], st)
    for s, h in rets:
        for s2, n, words in out_bytes(ctx, ip, s, h):
            check_final(ctx, ip, s2, res, "%s::%s%s" % (ctx.m, root, "" if fixed is None else "[len=%d]" % fixed), words, n, ch, total, "in", F(0), False, None, fn.name, alg.out)
    finish(ctx, ip, res, "%s::%s" % (ctx.m, root), rets)
    return ip


def finish(ctx, ip, res, oid, rets):
    res.stats["steps"] = res.stats.get("steps", 0) + ip.steps
    res.stats["paths"] = res.stats.get("paths", 0) + len(rets)
    res.stats["invariants"] = res.stats.get("invariants", 0) + ip.widened
    fns = set(res.stats.get("functions", []))
    fns.update(repo_fns(ip))
    res.stats["functions"] = sorted(fns)
    res.outcomes = getattr(res, "outcomes", []) + [o for o in ip.outcomes]
    for k, v in (("alignments_proved", ip.align_ok), ("assertions_proved", ip.asserts_ok), ("feature_entries", sum(ip.tf_entries.values()))):
        res.stats[k] = res.stats.get(k, 0) + v
    ed = set(res.stats.get("feature_edges", []))
    ed.update("%s -> %s" % (b, a) for a, b in ip.tf_entries if not a.startswith("core::"))
    res.stats["feature_edges"] = sorted(ed)
    res.stats["accesses_proved"] = res.stats.get("accesses_proved", 0) + ip.acc_ok
    res.stats["exits"] = res.stats.get("exits", []) + ["%s %s" % (oid, path_facts(s)) for s, _ in rets]


SETTERS = ["hash_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset",
           "node_depth", "inner_hash_length", "last_node"]


class PV:
    """symbolic parameter values, the oracle's view of a Params"""

    def __init__(self, alg):
        self.alg = alg
        self.v = {"hash_length": F(alg.out), "fanout": F(1), "max_depth": F(1), "max_leaf_length": F(0),
                  "node_offset": F(0), "node_depth": F(0), "inner_hash_length": F(0), "key": F(0)}
        self.salt = 0
        self.personal = 0
        self.last_node = False
        self.keyname = "key"
        self.stream = "in"
        self.wide = True


def padded_bytes(name, n, size):
    """value of a `size`-byte field holding the first n bytes of stream `name`, zero padded"""
    if isinstance(n, tuple) and not n[1]:
        n = n[0]
    if isinstance(n, int):
        return T.cat([(T.ld(name, F(0), n), 8 * n), (0, 8 * (size - n))]) if n else 0
    return T.cat([(T.ite(T.le0(fsub(F(i + 1), n)), T.ld(name, F(i), 1), 0, 8), 8) for i in range(size)])


def call1(ip, st, fn, args):
    """call and collect the returning states"""
    return ip.exec_fn(fn, args, st)


def apply_setter(ctx, ip, st, po, pv, name, tag, prefix=""):
    """apply a setter with symbolic arguments; returns the surviving states"""
    alg = ctx.alg
    fn = ctx.root(prefix + "set_" + name)
    if name in ("key", "salt", "personal"):
        mx = alg.keybytes if name == "key" else alg.salt
        n = T.sym("%slen%s" % (name, tag), 8 * PB[0])
        st.assume(T.le0(fadd(fatom(n), F(-mx))))
        sname = name + tag
        arg = slice_of(ip, st, sname, fatom(n))
        if name == "key":
            pv.v["key"] = fatom(n)
            pv.keyname = sname
        else:
            setattr(pv, name, (sname, fatom(n)))
    elif name in ("hash_length", "inner_hash_length"):
        n = T.sym(name + tag, 8 * PB[0])
        if name == "hash_length":
            st.assume(T.le0(fsub(F(1), fatom(n))))
        st.assume(T.le0(fadd(fatom(n), F(-alg.out))))
        arg = n
        pv.v[name] = fatom(n)
    elif name == "last_node":
        arg = T.bsym("last_node" + tag)
        pv.last_node = arg
    else:
        w = {"fanout": 8, "max_depth": 8, "node_depth": 8, "max_leaf_length": 32, "node_offset": 64}[name]
        arg = T.sym(name + tag, w)
        if name == "node_offset" and alg is spec.S:
            st.assume(T.le0(fadd(fatom(arg), F(1 - (1 << 48)))))
        pv.v[name] = fatom(arg)
    return [s for s, _ in call1(ip, st, fn, [Ptr(po, 0), arg])]


def spec_words(alg, pv):
    v = pv.v

    def field(x, n):
        if isinstance(x, tuple):
            return padded_bytes(x[0], x[1], n)
        return x
    return spec.param_words(alg, v["hash_length"], v["key"], v["fanout"], v["max_depth"], v["max_leaf_length"], v["node_offset"],
                            v["node_depth"], v["inner_hash_length"], field(pv.salt, alg.salt), field(pv.personal, alg.salt))


def new_params(ctx, ip, st, root="params_new"):
    out = []
    fn = ctx.root(root)
    for s, v in ip.exec_fn(fn, [], st):
        out.append((s, ctx.hold(ip, s, fn, v)))
    return out


def run_params(ctx, res, setters, L=0, oid=None, maxlen=None, cpu=None, only=None, root="params_new", clone=False):
    """Params::new() + setters, then hash(); L = None for an input of any length"""
    ip = ctx.interp()
    alg = ctx.alg
    st = State()
    oid = oid or "%s::params[%s]" % (ctx.m, ",".join(setters))
    if cpu is not None:
        for f in ("avx2", "sse4_1"):
            st.assume(T.bsym("cpu:" + f), f in cpu)
    if L is None:
        Ls = T.sym("len", 8 * PB[0])
        total = fatom(Ls)
        st.assume(T.le0(fadd(total, F(-(maxlen or mem.max_len())))))
    else:
        total = F(L)
    nret = []
    for s0, po in new_params(ctx, ip, st, root):
        pv = PV(alg)
        states = [s0]
        for i, nm in enumerate(setters):
            tag = "" if nm not in setters[:i] else "'" * setters[:i].count(nm)
            nxt = []
            for s in states:
                nxt.extend(apply_setter(ctx, ip, s, po, pv, nm, tag))
            states = nxt
        if not states:
            res.violation(oid, "a valid parameter value is rejected", ctx.root("set_" + setters[-1]).name, {})
        states = [x for s in states for x, k in split_keyed(s, pv) if only is None or k == only]
        for s in states:
            prepare_chain(ctx, s, pv)
            pc = po
            if clone:
                fn = ctx.root("params_clone")
                (s, v), = ip.exec_fn(fn, [Ptr(po, 0)], s)
                pc = ctx.hold(ip, s, fn, v)
            inp = slice_of(ip, s, "in", s.rform(total))
            for s1, h in ip.exec_fn(ctx.root("params_hash"), [Ptr(pc, 0), inp], s):
                nret.append((s1, h))
                for s2, n, words in out_bytes(ctx, ip, s1, h):
                    judge_hash(ctx, ip, s2, res, oid, words, n, pv, total, ctx.root("params_hash").name)
    finish(ctx, ip, res, oid, nret)
    return ip


def split_keyed(s, pv):
    """[(state, keyed)]"""
    kl = s.rform(pv.v["key"])
    c = T.le0(kl)
    r = s.decide(c) if not isinstance(c, bool) else c
    if r is not None:
        return [(s, not r)]
    todo = []
    s2 = s.fork()
    if s2.assume(c, True):
        todo.append((s2, False))
    if s.assume(c, False):
        todo.append((s, True))
    return todo


def prepare_chain(ctx, s, pv):
    """the chain of RFC chaining values for parameters pv in state s (which decides keyed / unkeyed)"""
    alg = ctx.alg
    (s, keyed), = split_keyed(s, pv)
    h0 = [s.simplify(s.resolve(x)) for x in spec_words(alg, pv)]
    f = None
    off = F(0)
    if keyed:
        f = [s.simplify(s.resolve(x)) for x in spec.padded(alg, pv.keyname, F(0), pv.v["key"])]
        off = F(-alg.block)
    return chain_for(alg, h0, pv.stream, off, f, wide=pv.wide), keyed, off, f


def judge_hash(ctx, ip, s, res, oid, words, n, pv, total, where):
    """compare a hash of `total` bytes of stream "in" under parameters pv; forks on keyed / unkeyed"""
    alg = ctx.alg
    for s, keyed in split_keyed(s, pv):
        ch, keyed, off, f = prepare_chain(ctx, s, pv)
        tot = fadd(total, F(alg.block)) if keyed else total
        check_final(ctx, ip, s, res, oid, words, n, ch, tot, pv.stream, off, pv.last_node if isinstance(pv.last_node, bool) else T.mask(pv.last_node, alg.w), f, where, pv.v["hash_length"])


def chain_for(alg, h0, base, off, first, wide):
    for ch in spec.Chain.ALL.values():
        if ch.alg is alg and ch.base == base and ch.off == off and all(same(a, b) for a, b in zip(ch.h0, h0)) and (ch.first is None) == (first is None) and (first is None or all(same(a, b) for a, b in zip(first, ch.first))):
            return ch
    ch = spec.Chain("c%d" % len(spec.Chain.ALL), alg, h0, base, off=off, first=first, wide=wide)
    ch.register(F(0))
    return ch
