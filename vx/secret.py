"""Dependence of control flow and addresses on secret data.

Values are terms over named inputs, so what a condition depends on can be read off its leaves: bytes of the secret
streams, chaining values computed from them, or opaque hash contents."""
from . import term as T
from .mem import Ptr, Sel, UNDEF, Blob

SECRET = ("secret-branch", "secret-address", "secret-compare")


class Watch:
    def __init__(self, public=()):
        self.public = tuple(public)    # first part of the names of streams whose contents are not secret
        self.memo = {}

    def is_secret(self, x):
        if x.op == "cw":
            return True
        if x.op == "ld":
            return not x.a[0].startswith(self.public) if self.public else True
        return False

    def leaves(self, v):
        """the secret leaves of a term"""
        if not isinstance(v, T.T):
            return ()
        r = self.memo.get(v)
        if r is None:
            r = tuple(sorted((x for x in T.leaves(v) if self.is_secret(x)), key=lambda t: t.id)[:4])
            self.memo[v] = r
        return r

    def form_leaves(self, f):
        if not isinstance(f, tuple):
            return ()
        for t, _ in f[1]:
            r = self.leaves(t)
            if r:
                return r
        return ()

    def branch(self, ip, st, v):
        r = self.leaves(v)
        if r:
            ip.note(st, "secret-branch", "control flow depends on %s" % ", ".join(T.show(x, 2) for x in r[:2]))

    def address(self, ip, st, off, n):
        r = self.form_leaves(off) or self.form_leaves(n)
        if r:
            ip.note(st, "secret-address", "an address or length depends on %s" % ", ".join(T.show(x, 2) for x in r[:2]))

    def memcmp(self, ip, st, a, b, n):
        for p in (a, b):
            if not isinstance(p, Ptr):
                continue
            for i in (0, n - 1) if isinstance(n, int) and n else (0,):
                try:
                    from .interp import padd
                    v = ip.load(st, padd(p, i), 1, True)
                except Exception:
                    continue
                r = self.leaves(v) if isinstance(v, T.T) else ()
                if r:
                    ip.note(st, "secret-compare", "variable-time comparison of %s" % T.show(r[0], 2))
                    return
