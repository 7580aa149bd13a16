"""Common parts of the analyses: entry states, comparison with the specification, results."""
import time
import traceback
from . import term as T, spec, rand
from .term import F, fadd, fsub, fscale, fatom
from .load import Imprecise
from .interp import *
from .diff import diff


class Result:
    """obligations of one task"""

    def __init__(self, name):
        self.name = name
        self.obl = []          # (id, status, detail)
        self.viol = []         # dicts
        self.stats = {}
        self.mute = False      # values are not compared: the run is only observed

    def ok(self, oid, detail=""):
        self.obl.append((oid, "proved", detail))

    def undecided(self, oid, detail):
        self.obl.append((oid, "undecided", detail))

    def violation(self, oid, msg, where, detail=""):
        self.obl.append((oid, "violated", msg))
        self.viol.append({"obligation": oid, "message": msg, "where": where, "detail": detail})

    def data(self):
        return {"name": self.name, "obl": self.obl, "viol": self.viol, "stats": self.stats}


def is_feature(f):
    return "__is_feature_detected::" in f.name


def feature_value(ip, st, fn, args):
    return [(st, T.bsym("cpu:" + fn.name.split("::")[-1]))]


EARLY = [None]            # called with each outcome as it happens, if set
WATCH = [None]            # the secret.Watch of this process, if any


class Ctx:
    def __init__(self, prog, mod):
        self.p = prog
        self.m = mod
        self.alg = spec.B if mod == "b" else spec.S

    def interp(self):
        ip = Interp(self.p)
        ip.watch = WATCH[0]
        ip.early = EARLY[0]
        ip.intercepts.append((is_feature, feature_value))
        return ip

    def root(self, name):
        f = self.p.root(self.m + "::" + name)
        if f is None:
            raise MissingAnchor(self.m + "::" + name)
        return f


    def hold(self, ip, st, fn, v):
        """put the value `v` returned by `fn` in an object of its own, aligned as its type requires"""
        return ip.new_obj(st, v.size, dict(v.cells), align=self.p.ty(fn.abi_ret).align)


class MissingAnchor(Exception):
    pass


def slice_of(ip, st, name, n):
    """a &[u8] of n (form or int) opaque bytes"""
    f = fm(n)
    o = ip.base_obj(st, name, f if f[1] else f[0])
    return fat(Ptr(o, 0), usize(f))


def out_bytes(ctx, ip, st, hashv):
    """observe a Hash through as_bytes(): (state, length value, words)"""
    fn = ctx.root("hash_as_bytes")
    sz = hashv.size
    o = ip.new_obj(st, sz, dict(hashv.cells))
    res = []
    for s, v in ip.exec_fn(fn, [Ptr(o, 0)], st):
        p, n = fat_parts(v)
        obj = ip.getobj(s, p.o)
        off = p.off
        words = []
        wb = ctx.alg.wb
        for i in range(8):
            words.append(native(tonum(cells_read(s, obj.cells, off + i * wb, wb, True), wb), wb))
        res.append((s, n, words))
    return res


def entails_range(st, f, lo, hi):
    return st.cons.le(fsub(F(lo), f)) and st.cons.le(fadd(f, F(-hi)))


def block_index(ctx, ip, st, total, words):
    """k with BLOCK*k < total <= BLOCK*(k+1) (0 when total==0) as a form in this state, or None"""
    B = ctx.alg.block
    cand = set()
    for o in words:
        if isinstance(o, T.T):
            for x in T.leaves(o):
                if x.op == "cw":
                    cand.add(x.a[1])
    cand.add(F(0))
    cand.add(F(1))
    for k in cand:
        rem = fsub(total, fscale(k, B))
        if entails_range(st, rem, 1, B):
            return k
        if k == F(0) and entails_range(st, rem, 0, B):
            return k
    return None


def same(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def describe(vals):
    return ", ".join("%s=%s" % (k, v) for k, v in sorted(vals.items()) if not k.startswith("!"))[:600]


def path_facts(st):
    on = sorted(str(b.a[0]) for b, v in st.cons.facts.items() if v and b.op == "bsym")
    return "{" + ", ".join(on) + "}"


def repo_fns(ip):
    out = []
    for k in ip.visited:
        f = ip.p.fns[k]
        sp = f.span if isinstance(f.span, str) else ip.p.span(f.span)
        if "/repo/" in sp:
            out.append("%s (%s)" % (f.name, sp))
    return sorted(out)


def implicated(ip, st, tr=None):
    """repository functions the violating path runs through, most specific first"""
    return repo_fns(ip)


def compare(ctx, ip, st, res, oid, got, exp, where, outlen=None):
    """one obligation: got == exp (lists of words) in state st"""
    if res.mute:
        return True
    got = [st.simplify(x) for x in got]
    exp = [st.simplify(x) for x in exp]
    if all(same(a, b) for a, b in zip(got, exp)):
        res.ok(oid)
        return True
    r = rand.refute(st, list(zip(got, exp)), outlen=outlen)
    if r is not None:
        i, vals, x, y = r
        det = {"path": path_facts(st), "word": i, "got": hex(x), "expected": hex(y), "example": describe(vals)}
        try:
            d = diff(got[i], exp[i])
            det["first_difference"] = [(T.show(a, 5)[:300], T.show(b, 5)[:300]) for a, b in d[:2]]
        except RecursionError:
            pass
        res.violation(oid, "word %d of the result differs from the specification on path %s" % (i, path_facts(st)), where, det)
        return False
    res.undecided(oid, "terms differ but no interpretation tells them apart")
    return False


def sharpen(s):
    """integer reasoning on the quotients of the path: False when it is infeasible"""
    for _ in range(2):
        again = False
        syms = set(t for r in s.cons.rows for t, _ in r[1] if t.op == "sym" and str(t.a[0]).startswith("q"))
        for t in sorted(syms, key=lambda t: t.id):
            f = fatom(t)
            lo, hi = s.cons.minmax(f, "min"), s.cons.minmax(f, "max")
            if lo > hi:
                return False
            if lo == hi:
                if not s.assume_eq(fadd(f, F(-lo))):
                    return False
                again = True
            elif hi - lo <= 2:
                alive = []
                for v in range(lo, hi + 1):
                    x = s.fork()
                    if x.assume_eq(fadd(f, F(-v))):
                        alive.append(v)
                if not alive:
                    return False
                if len(alive) == 1:
                    s.assume_eq(fadd(f, F(-alive[0])))
                    again = True
        if not again:
            break
    return True
