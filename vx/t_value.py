"""The Hash value type: its bytes, hexadecimal form, conversions and comparisons."""
from . import term as T, rand
from . import mem
from .term import F, fadd, fsub, fatom
from .task import *
from .state import State
from .t_hash import PV, apply_setter, new_params, finish
from .mem import cells_read


def holds_data(v):
    return isinstance(v, (T.T, Arr)) and (not isinstance(v, T.T) or any(x.op in ("ld", "cw") for x in T.leaves(v)))


def any_hash(ctx, ip, st, name, n=None):
    """[(state, object, length form)]: a Hash of any length and content; its bytes are the stream `name`"""
    out = []
    for s, po in new_params(ctx, ip, st):
        pv = PV(ctx.alg)
        if n is None:
            states = apply_setter(ctx, ip, s, po, pv, "hash_length", name)
            ln = pv.v["hash_length"]
        else:
            states = [x for x, _ in ip.exec_fn(ctx.root("set_hash_length"), [Ptr(po, 0), n], s)]
            ln = F(n)
        for s1 in states:
            fn = ctx.root("params_hash")
            inp = slice_of(ip, s1, "seed", F(8))
            for s2, h in ip.exec_fn(fn, [Ptr(po, 0), inp], s1):
                o = ctx.hold(ip, s2, fn, h)
                cells = s2.mem[o].cells
                for off, (sz, v) in list(cells.items()):
                    if holds_data(v):
                        for j in range(0, sz, 8) if sz > 8 else (0,):
                            k = min(8, sz - j)
                            cells[off + j] = (k, T.ld(name, F(off + j), k))
                out.append((s2, o, ln))
    return out


def hash_from(ctx, ip, st, name, root="hash_from"):
    n = ctx.alg.out
    cells = {i: (8, T.ld(name, F(i), 8)) for i in range(0, n, 8)}
    fn = ctx.root(root)
    arg = Blob(n, cells)
    if root != "hash_from":
        arg = Ptr(ip.new_obj(st, n, dict(cells)), 0)
    return [(s, ctx.hold(ip, s, fn, v)) for s, v in ip.exec_fn(fn, [arg], st)]


def view(ctx, ip, st, o, root):
    """[(state, pointer, length value)] of a function returning a slice or array reference"""
    out = []
    for s, v in ip.exec_fn(ctx.root(root), [Ptr(o, 0)], st):
        if isinstance(v, Blob):
            out.append((s, *fat_parts(v)))
        else:
            out.append((s, v, ctx.alg.out))
    return out


def bytes_at(ip, s, p, n):
    obj = ip.getobj(s, p.o)
    return [s.simplify(s.resolve(tonum(cells_read(s, obj.cells, p.off + i, 1, True), 1))) if obj.kind != "base" else ip.load(s, padd(p, i), 1, True) for i in range(n)]


def judge_bytes(res, s, oid, got, exp, where):
    bad = [i for i, (a, b) in enumerate(zip(got, exp)) if not same(a, b)]
    if not bad:
        res.ok(oid)
        return
    r = rand.refute(s, [(got[i], exp[i]) for i in bad])
    if r:
        res.violation(oid, "byte %d is not the expected one" % bad[r[0]], where, {"got": T.show(got[bad[r[0]]], 4), "expected": T.show(exp[bad[r[0]]], 4), "example": describe(r[1])})
    else:
        res.undecided(oid, "bytes %s not proved equal" % bad[:8])


def judge_len(res, s, oid, got, ln, where):
    f = s.exact(s.resolve(got)) if isinstance(got, T.T) else F(got)
    if s.cons.eq(fsub(f, s.rform(ln))):
        res.ok(oid)
        return
    r = rand.refute(s, [(T.lin_form(64, f), T.lin_form(64, ln))])
    if r:
        res.violation(oid, "wrong length", where, {"got": r[2], "expected": r[3], "example": describe(r[1])})
    else:
        res.undecided(oid, "length not entailed")


def accessors(ctx, res):
    m = ctx.m
    ip = ctx.interp()
    rets = []
    n = ctx.alg.out
    for s, o, ln in any_hash(ctx, ip, State(), "h"):
        for root in ("hash_as_bytes", "hash_as_ref"):
            fn = ctx.root(root)
            for s2, p, l in view(ctx, ip, s.fork(), o, root):
                rets.append((s2, None))
                judge_len(res, s2, "%s::%s/length" % (m, root), l, ln, fn.name)
                got = bytes_at(ip, s2, p, n)
                base = view(ctx, ip, s.fork(), o, "hash_as_bytes")[0][1]
                exp = bytes_at(ip, s2, base, n)
                judge_bytes(res, s2, "%s::%s/bytes" % (m, root), got, exp, fn.name)
        fn = ctx.root("hash_clone")
        for s2, v in ip.exec_fn(fn, [Ptr(o, 0)], s.fork()):
            c = ctx.hold(ip, s2, fn, v)
            for s3, p, l in view(ctx, ip, s2, c, "hash_as_bytes"):
                judge_len(res, s3, "%s::clone/length" % m, l, ln, fn.name)
                (_, p0, _), = view(ctx, ip, s.fork(), o, "hash_as_bytes")
                judge_bytes(res, s3, "%s::clone/bytes" % m, bytes_at(ip, s3, p, n), bytes_at(ip, s3, p0, n), fn.name)
    for root in ("hash_from", "hash_from_ref"):
        fn = ctx.root(root)
        exp = [T.ld("h", F(i), 1) for i in range(n)]
        for s, o in hash_from(ctx, ip, State(), "h", root):
            for acc in ("hash_as_bytes", "hash_as_ref", "hash_as_array"):
                for s2, p, l in view(ctx, ip, s.fork(), o, acc):
                    rets.append((s2, None))
                    oid = "%s::%s/%s" % (m, root, acc)
                    judge_len(res, s2, oid + "/length", l, F(n), fn.name)
                    judge_bytes(res, s2, oid + "/bytes", bytes_at(ip, s2, p, n), exp, fn.name)
    finish(ctx, ip, res, "%s::hash" % m, rets)


def hexdigits(ctx, res, ns):
    """to_hex of a hash of n bytes: each character evaluated for all 256 values of its byte"""
    fn = ctx.root("hash_to_hex")
    for n in ns:
        ip = ctx.interp()
        seen = []

        def sink(ip, st, f, args):
            seen.append((st.fork(), args[0]))
            return [(st, Blob(0, {}))]
        ip.intercepts.append((lambda f: f.name.endswith("::sink"), sink))
        rets = []
        for s, o, ln in any_hash(ctx, ip, State(), "h", n):
            (s, p0, _), = view(ctx, ip, s, o, "hash_as_bytes")
            src = bytes_at(ip, s, p0, n)
            del seen[:]
            rets += ip.exec_fn(fn, [Ptr(o, 0)], s)
            oid = "%s::to_hex[%d]" % (ctx.m, n)
            if not seen:
                res.undecided(oid, "no string was produced")
            for s2, v in seen:
                p, l = fat_parts(v)
                judge_len(res, s2, oid + "/length", l, F(2 * n), fn.name)
                got = bytes_at(ip, s2, p, 2 * n)
                judge_hex(res, s2, oid, got, src, fn.name)
        finish(ctx, ip, res, "%s::to_hex" % ctx.m, rets)


def judge_hex(res, s, oid, got, src, where):
    for i, g in enumerate(got):
        b = src[i // 2]
        sh = 0 if i & 1 else 4
        want = lambda v: ord("0123456789abcdef"[(v >> sh) & 15])
        free = [x for x in T.leaves(g) if x.op in ("ld", "sym", "bsym", "cw")] if isinstance(g, T.T) else []
        if any(x is not b and not (x.op == "ld" and x.a[0] == "h") for x in free):
            res.undecided(oid, "character %d depends on more than one byte" % i)
            return
        for v in range(256):
            md = ByteModel({}, 1)
            md.b = {}
            base, (off, _), _ = b.a
            # every other byte gets a value that is no digit's source
            md.at = (base, off, v)
            try:
                x = md.ev(g)
            except rand.Skip:
                res.undecided(oid, "character %d cannot be evaluated" % i)
                return
            if x != want(v):
                res.violation(oid, "character %d of the hexadecimal form of byte %#x is %#x, not %#x" % (i, v, x, want(v)), where, {"byte": i // 2})
                return
    res.ok(oid)


class ByteModel(rand.Model):
    at = None
    alias = None

    def byte(self, base, i):
        if self.at is not None and (base, i) == self.at[:2]:
            return self.at[2]
        if self.alias is not None:
            return self.alias(base, i)
        return super().byte(base, i)


def equality(ctx, res, root, na, nb):
    """a == b for a hash of na bytes and a hash / slice of nb bytes (None: any length)"""
    fn = ctx.root(root)
    m = ctx.m
    neg = "_ne" in root
    sl = root.endswith("slice")
    ip = ctx.interp()
    rets = []
    oid = "%s::%s[%s,%s]" % (m, root, na, nb)
    for s, a, la in any_hash(ctx, ip, State(), "ha", na):
        if sl:
            lb = F(nb) if nb is not None else fatom(T.sym("lb", 64))
            if nb is None:
                s.assume(T.le0(fadd(lb, F(-mem.max_len()))))
            others = [(s, None, lb)]
        else:
            others = any_hash(ctx, ip, s, "hb", nb)
        for s1, b, lb in others:
            arg = slice_of(ip, s1, "hb", lb) if sl else Ptr(b, 0)
            va = view(ctx, ip, s1.fork(), a, "hash_as_bytes")
            pa = bytes_at(ip, s1, va[0][1], na) if na is not None else None
            pb = None
            if nb is not None:
                pb = [T.ld("hb", F(i), 1) for i in range(nb)] if sl else bytes_at(ip, s1, view(ctx, ip, s1.fork(), b, "hash_as_bytes")[0][1], nb)
            if na is None or nb is None or na != nb:
                # different lengths
                d = fsub(s1.rform(la), s1.rform(lb))
                for cond in (T.le0(fadd(d, F(1))), T.le0(fsub(F(1), d))):
                    s2 = s1.fork()
                    if cond is False or not s2.assume(cond):
                        continue
                    for s3, r in ip.exec_fn(fn, [Ptr(a, 0), arg], s2):
                        rets.append((s3, r))
                        r = s3.simplify(s3.resolve(r)) if isinstance(r, T.T) else r
                        if r is neg or (r == 1 if neg else r == 0) and not isinstance(r, T.T):
                            res.ok(oid + "/different lengths")
                        elif not isinstance(r, T.T):
                            v = rand.refute(s3, [(T.sym("one", 8), T.sym("other", 8))])
                            res.violation(oid + "/different lengths", "hashes of different lengths compare equal", fn.name, {"path": path_facts(s3), "example": describe(v[1]) if v else ""})
                        else:
                            res.undecided(oid + "/different lengths", "result %s" % T.show(r, 3)[:200])
            else:
                for s3, r in ip.exec_fn(fn, [Ptr(a, 0), arg], s1.fork()):
                    rets.append((s3, r))
                    judge_eq(res, s3, oid, r, pa, pb, neg, fn.name)
    finish(ctx, ip, res, oid, rets)


def judge_eq(res, s, oid, r, pa, pb, neg, where):
    r = s.simplify(s.resolve(r)) if isinstance(r, T.T) else r
    n = len(pa)
    t = r
    if neg and isinstance(t, T.T):
        t = T.bnot(t)
    # (1) the result is "the or of byte differences is zero", and the differences cover every byte
    if isinstance(t, T.T) and exact_eq(t, pa, pb):
        res.ok(oid)
        return
    # (2) otherwise look for contents that give the wrong answer
    for flip in [None] + [(i, bit) for i in range(n) for bit in (0, 7, 3)]:
        md = ByteModel({}, 7)

        def alias(base, i):
            v = rand.prf("content", i) & 255
            if base == "hb" and flip is not None and i == flip[0]:
                v ^= 1 << flip[1]
            return v
        md.alias = alias
        want = (flip is None) != neg
        try:
            facts = [(b, v) for b, v in s.cons.facts.items() if any(x.op == "ld" for x in T.leaves(b))]
            if any(bool(md.ev(b)) != v for b, v in facts):
                continue
            x = bool(md.ev(r)) if isinstance(r, T.T) else bool(r)
        except rand.Skip:
            res.undecided(oid, "the result cannot be evaluated")
            return
        if x != want:
            res.violation(oid, "comparison is %s for %s" % (x, "equal contents" if flip is None else "contents that differ in byte %d" % flip[0]), where, {"path": path_facts(s)})
            return
    res.undecided(oid, "result is not recognised as equality of all bytes")


def exact_eq(t, pa, pb):
    """t == 0 iff all pairs are equal: t is eq0 / le0 of an or of xors of corresponding pieces"""
    pairs = set(zip(pa, pb))
    left = set(range(len(pa)))
    work = [t]
    while work:
        x = work.pop()
        if not isinstance(x, T.T):
            return False
        if x.op == "band" and x is not t:
            return False
        if x.op == "band":
            work.extend(x.a)
            continue
        if x.op in ("eq0", "le0"):
            c, items = x.a
            if c != 0 or any(k <= 0 for _, k in items):
                if not (x.op == "eq0" and c == 0 and len(items) == 2 and sorted(k for _, k in items) == [-1, 1]):
                    return False
                i = piece(items, pa, pb)
                if i is None:
                    return False
                left -= i
                continue
            work.extend(y for y, _ in items)
            continue
        if x.op == "or":
            work.extend(x.a)
            continue
        if x.op == "xor" and len(x.a) == 2:
            i = piece([(y, 1) for y in x.a], pa, pb)
            if i is None:
                return False
            left -= i
            continue
        if x.op == "lin" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[1][0][0].w <= x.w:
            work.append(x.a[1][0][0])
            continue
        return False
    return not left


def piece(items, pa, pb):
    """the byte positions compared by a pair of loads, or None"""
    (x, _), (y, _) = items
    if not (isinstance(x, T.T) and isinstance(y, T.T) and x.op == y.op == "ld" and x.a[2] == y.a[2]):
        return None
    if x.a[0] != pa[0].a[0]:
        x, y = y, x
    i = [k for k, p in enumerate(pa) if p.a[0] == x.a[0] and x.a[1] == p.a[1]]
    if not i:
        return None
    i = i[0]
    if pb[i].a[0] != y.a[0] or pb[i].a[1] != y.a[1] or i + x.a[2] > len(pa):
        return None
    return set(range(i, i + x.a[2]))
