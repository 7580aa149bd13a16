"""Hash-consed value-number terms.

Concrete scalars are plain Python ints; everything else is a `T` interned by structure, so that two
values computed by different instruction sequences get the same number exactly when they normalise to
the same expression over the same inputs.

Operators
  sym(name)                opaque input
  ld(base, idx, n)         n consecutive bytes (little endian) of an input array starting at idx
  lin(c, ((t,k),..))       (c + sum k*U(t)) mod 2^w        (U = unsigned value)
  xor/and/or               bitwise, flattened and sorted, with constant
  rot(t,k)                 rotate right
  ext(t,lo)                bits [lo, lo+w) of t
  cat((t,w),..)            little-endian concatenation
  ite(c,a,b)               selection on a boolean term
  mask(c)                  all ones if c else zero
  booleans (w=1): le0(form) eq0(form) bnot band bor beq(a,b) bsym
  cw(chain,k,i)            word i of a chaining value after k blocks (see spec.py)
"""

class T:
    __slots__ = ("id", "op", "w", "a", "rw", "_cache", "sy")

    def __repr__(self):
        return show(self)

    # identity hashing (interned)


TABLE = {}
ALL = []
XSTEP = {}            # T -> [(args, constant, term)]: xors that are rewritten, by their newest argument
REWRITE = {}          # T -> value it is rewritten to on construction


def mk(op, w, a):
    key = (op, w, a)
    t = TABLE.get(key)
    if t is None:
        t = T()
        t.id = len(ALL)
        t.op = op
        t.w = w
        t.a = a
        t.rw = None
        t._cache = None
        ALL.append(t)
        TABLE[key] = t
        if op == "sym" or op == "bsym":
            t.sy = 1 << (t.id % 61)
        else:
            y = 0
            for c in children(t):
                y |= c.sy
            t.sy = y
        return t
    r = t.rw
    if r is not None:
        if r.op == "cw" and r._cache is None:
            r._cache = True
            CW_SEEN[0](r)
        return r
    return t


def _noop(r):
    pass


CW_SEEN = [_noop]
LV = {}


def leaves_cached(v):
    r = LV.get(v)
    if r is None:
        r = frozenset(x for x in leaves(v) if x.op in ("sym", "bsym"))
        LV[v] = r
    return r


def reset():
    TABLE.clear()
    ALL.clear()
    REWRITE.clear()
    XSTEP.clear()


def show(t, depth=4):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) and abs(t) > 4096 else repr(t)
    if t.op == "sym" or t.op == "bsym":
        return str(t.a[0])
    if depth == 0:
        return "%" + str(t.id)
    d = depth - 1
    if t.op == "lin":
        return show_form((t.a[0], t.a[1]), d) + "'" + str(t.w)
    if t.op in ("le0", "eq0"):
        return "(" + show_form(t.a, d) + (" <= 0)" if t.op == "le0" else " == 0)")
    if t.op == "ld":
        return "%s[%s..+%d]" % (t.a[0], show_form(t.a[1], d), t.a[2])
    if t.op == "cw":
        return "H<%s>(%s)[%s]" % (t.a[0], show_form(t.a[1], d), t.a[2])
    return t.op + "(" + ", ".join(show(x, d) if isinstance(x, T) else (show_form(x, d) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else str(x)) for x in t.a) + ")"


def show_form(f, d=3):
    c, m = f
    s = []
    for t, k in m:
        s.append(("" if k == 1 else str(k) + "*") + show(t, d))
    if c or not s:
        s.append(hex(c) if abs(c) > 1 << 20 else str(c))
    return " + ".join(s)


# ---------------------------------------------------------------- linear forms over Z
# form = (const, ((atom, coef), ...)) sorted by atom id

def F(c):
    return (c, ())


def fatom(t):
    return (0, ((t, 1),))


def fadd(f, g, k=1):
    if not g[1]:
        return (f[0] + k * g[0], f[1])
    if not f[1] and k == 1:
        return (f[0] + g[0], g[1])
    d = {}
    for t, c in f[1]:
        d[t] = c
    for t, c in g[1]:
        c = d.get(t, 0) + k * c
        if c:
            d[t] = c
        else:
            d.pop(t, None)
    return (f[0] + k * g[0], tuple(sorted(d.items(), key=_aid)))


def _aid(p):
    return p[0].id


def fscale(f, k):
    if k == 0:
        return (0, ())
    return (f[0] * k, tuple((t, c * k) for t, c in f[1]))


def fsub(f, g):
    return fadd(f, g, -1)


# ---------------------------------------------------------------- constructors

def sym(name, w):
    return mk("sym", w, (name,))


def lin(w, c, items):
    """items: iterable of (atom, coef) with distinct non-lin atoms (or lin atoms of other width that
    are opaque)."""
    M = 1 << w
    H = M >> 1
    out = []
    for t, k in items:
        k %= M
        if k == 0:
            continue
        if k >= H and w > 1:
            k -= M
        out.append((t, k))
    c %= M
    if not out:
        return c
    if len(out) > 1:
        out.sort(key=_aid)
    if c == 0 and len(out) == 1 and out[0][1] == 1 and out[0][0].w == w:
        return out[0][0]
    if c >= H:
        c -= M
    if any(t.op == "ext" or t.op == "ite" for t, _ in out):
        r = carry_rule(w, c, out)
        if r is not None:
            return r
    return mk("lin", w, (c, tuple(out)))


ALIGN_QUERY = [None]   # installed by the interpreter: (form, lo, hi, mod) -> bool


def carry_rule(w, c, out):
    """hi(L) + [condition equivalent to `low(L)+d wraps`]  ==>  hi(L+d)."""
    q = ALIGN_QUERY[0]
    if q is None:
        return None
    for t, k in out:
        if k != 1 or t.op != "ext" or t.w != w or t.a[1] != w or not isinstance(t.a[0], T) or t.a[0].w != 2 * w:
            continue
        L = form_of(t.a[0])
        for u, k2 in out:
            if k2 != 1 or u.op != "ite" or u.a[1] != 1 or u.a[2] != 0:
                continue
            M = carry_target(L, u.a[0], w, q)
            if M is not None:
                rest = [(x, kk) for x, kk in out if x is not t and x is not u]
                h = ext(lin_form(2 * w, M), w, w)
                return add_many(w, c, rest + [(h, 1)])
    return None


def conj(c):
    return list(c.a) if isinstance(c, T) and c.op == "band" else [c]


def carry_target(L, cond, w, q):
    parts = conj(cond)
    wrapc = None
    nz = None
    for p in parts:
        if p.op == "eq0" or p.op == "le0":
            f = p.a
            # shape: lo == 0 where lo is a 'low word' atom
            if p.op == "eq0" and len(f[1]) == 1 and f[0] == 0:
                wrapc = f[1][0][0]
                continue
            nz = p
        elif p.op == "bnot":
            nz = p
        else:
            return None
    if len(parts) > 2 or wrapc is None:
        return None
    lo = wrapc
    if lo.w != w:
        return None
    g = form_of(lo)
    # delta = low-word form minus L, modulo 2^w
    d = fsub(g, L)
    M = 1 << w
    items = []
    for t, k in d[1]:
        k %= M
        if k >= M // 2:
            k -= M
        if k:
            items.append((t, k))
    c = d[0] % M
    if c >= M // 2:
        c -= M
    d = (c, tuple(items))
    if not q(d, 0, 128, None):
        return None
    if not q(L, None, None, 128):
        return None
    if nz is not None:
        # must be delta != 0
        okf = None
        if nz.op == "bnot" and nz.a[0].op == "eq0":
            okf = nz.a[0].a
            if okf != d and okf != fscale(d, -1):
                return None
        elif nz.op == "le0":
            # 1 - d <= 0
            if nz.a != fsub(F(1), d):
                return None
        else:
            return None
    else:
        if not q(d, 1, 128, None):
            return None
    return fadd(L, d)


def lin_form(w, f):
    return lin(w, f[0], f[1])


def form_of(v):
    """The (modular) linear form of a value; only meaningful modulo 2^w unless exact."""
    if isinstance(v, int):
        return (v, ())
    if v.op == "lin":
        return v.a
    return (0, ((v, 1),))


def add_many(w, c, items):
    """sum of c and coef*value (values may be ints or lin)."""
    d = {}
    for v, k in items:
        if isinstance(v, int):
            c += v * k
        elif v.op == "lin" and v.w >= w:
            c += v.a[0] * k
            for t, kk in v.a[1]:
                d[t] = d.get(t, 0) + kk * k
        else:
            d[v] = d.get(v, 0) + k
    return lin(w, c, d.items())


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return add_many(w, 0, ((a, 1), (b, 1)))


def sub(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << w) - 1)
    if isinstance(b, int) and b == 0:
        return a
    return add_many(w, 0, ((a, 1), (b, -1)))


def mul(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & ((1 << w) - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return add_many(w, 0, ((a, b),))
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("mul", w, (x, y))


def trunc(v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    if v.w == w:
        return v
    if v.w < w:
        return zext(v, w)
    if v.op == "lin":
        return lin(w, v.a[0], v.a[1])
    if v.op == "ld" and w % 8 == 0:
        return ld(v.a[0], v.a[1], w // 8)
    if v.op == "cat":
        return ext(v, 0, w)
    if v.op == "ite":
        return ite(v.a[0], trunc(v.a[1], w), trunc(v.a[2], w), w)
    if v.op == "mask":
        return mask(v.a[0], w)
    if v.op == "and":
        return band_w(w, [trunc(x, w) for x in v.a])
    if v.op == "ext":
        return ext(v.a[0], v.a[1], w)
    return mk("lin", w, (0, ((v, 1),)))


def zext(v, w):
    """zero extension; v's own (wrapped) value becomes an atom unless it is already atomic."""
    if isinstance(v, int):
        return v
    if v.w == w:
        return v
    if v.w > w:
        return trunc(v, w)
    if v.op == "ite":
        return ite(v.a[0], zext(v.a[1], w), zext(v.a[2], w), w)
    if v.op == "lin" and len(v.a[1]) == 1 and v.a[0] == 0 and v.a[1][0][1] == 1 and v.a[1][0][0].w <= v.w:
        v = v.a[1][0][0]
    return mk("lin", w, (0, ((v, 1),)))


def ld(base, idx, n):
    return mk("ld", 8 * n, (base, idx, n))


def tab(table, idx):
    """table[idx] for a table of constants"""
    if isinstance(idx, int):
        return table[idx] if idx < len(table) else 0
    w = max(1, max(table).bit_length())
    return mk("tab", w, (idx, table))


def rot(v, k, w):
    k %= w
    if k == 0:
        return v
    if isinstance(v, int):
        return ((v >> k) | (v << (w - k))) & ((1 << w) - 1)
    if v.op == "rot":
        return rot(v.a[0], (k + v.a[1]) % w, w)
    return mk("rot", w, (v, k))


def ext(v, lo, n):
    if isinstance(v, int):
        return (v >> lo) & ((1 << n) - 1)
    if lo == 0 and n == v.w:
        return v
    if v.op == "ld" and lo % 8 == 0 and n % 8 == 0:
        return ld(v.a[0], fadd(v.a[1], F(lo // 8)), n // 8)
    if v.op == "cat":
        out = []
        pos = 0
        for p, pw in v.a:
            s = max(lo, pos)
            e = min(lo + n, pos + pw)
            if s < e:
                out.append((ext(p, s - pos, e - s), e - s))
            pos += pw
        return cat(out)
    if v.op == "ext":
        return ext(v.a[0], v.a[1] + lo, n)
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
        # zero-extended or truncated atom
        t = v.a[1][0][0]
        if lo >= t.w:
            return 0
        if lo + n <= t.w:
            return ext(t, lo, n)
        if t.w <= v.w:
            return zext(ext(t, lo, t.w - lo), n)
    if v.op == "rot" and not (lo == 0 and n == v.w):
        x, k = v.a
        s = (lo + k) % v.w
        if s + n <= v.w:
            return ext(x, s, n)
    if v.op == "ite":
        return ite(v.a[0], ext(v.a[1], lo, n), ext(v.a[2], lo, n), n)
    if v.op == "mask":
        return mask(v.a[0], n)
    if v.op == "shl":
        x, k = v.a
        if lo + n <= k:
            return 0
        if lo >= k:
            return ext(x, lo - k, n)
    if lo == 0:
        return trunc_raw(v, n)
    if v.op == "lin":
        # multiples of 2^lo plus a part that stays within one multiple, by the widths of its atoms
        hi = [(t, k >> lo) for t, k in v.a[1] if k & ((1 << lo) - 1) == 0]
        if hi or not v.a[1]:
            a = b = v.a[0]
            for t, k in v.a[1]:
                if k & ((1 << lo) - 1):
                    k -= (1 << v.w) if k >> (v.w - 1) else 0
                    m = k * ((1 << t.w) - 1)
                    a, b = a + min(m, 0), b + max(m, 0)
            if a >> lo == b >> lo:
                return lin(n, a >> lo, hi)
    if v.op == "xor" and all(isinstance(x, int) or x.op in ("cat",) for x in v.a):
        return bxor(n, [ext(x, lo, n) for x in v.a])
    return mk("ext", n, (v, lo))


def trunc_raw(v, n):
    if v.op == "lin":
        return lin(n, v.a[0], v.a[1])
    return mk("lin", n, (0, ((v, 1),)))


def effbits(v):
    """an upper bound on the number of significant bits, from the shape of the term"""
    if isinstance(v, int):
        return v.bit_length()
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
        return min(v.w, v.a[1][0][0].w)
    if v.op == "ite":
        return max(effbits(v.a[1]), effbits(v.a[2]))
    return v.w


def cat(parts):
    """little-endian concatenation of (value,width)."""
    flat = []
    for v, w in parts:
        if w == 0:
            continue
        if isinstance(v, T) and v.op == "cat":
            flat.extend(v.a)
        elif isinstance(v, T) and v.op in ("lin", "ite") and len(parts) > 1:
            e = effbits(v)
            if e < w:
                e = (e + 7) // 8 * 8
            if 0 < e < w:
                lo = ext(v, 0, e)
                if isinstance(lo, T) and lo.op == "cat":
                    flat.extend(lo.a)
                else:
                    flat.append((lo, e))
                flat.append((0, w - e))
            else:
                flat.append((v, w))
        else:
            flat.append((v, w))
    if len(flat) == 1:
        return flat[0][0]
    out = []
    for v, w in flat:
        if out:
            pv, pw = out[-1]
            if isinstance(v, int) and isinstance(pv, int):
                out[-1] = (pv | (v << pw), pw + w)
                continue
            if isinstance(v, T) and isinstance(pv, T):
                if v.op == "ld" and pv.op == "ld" and v.a[0] == pv.a[0] and fadd(pv.a[1], F(pv.a[2])) == v.a[1]:
                    out[-1] = (ld(pv.a[0], pv.a[1], pv.a[2] + v.a[2]), pw + w)
                    continue
                if v.op == "ite" and pv.op == "ite" and v.a[0] is pv.a[0]:
                    out[-1] = (ite(v.a[0], cat([(pv.a[1], pw), (v.a[1], w)]), cat([(pv.a[2], pw), (v.a[2], w)]), pw + w), pw + w)
                    continue
                j = join_ext(pv, pw, v, w)
                if j is not None:
                    out[-1] = (j, pw + w)
                    continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    tw = sum(w for _, w in out)
    # rotation of one value
    if len(out) == 2:
        (a, aw), (b, bw) = out
        if isinstance(a, T) and isinstance(b, T):
            sa = as_ext(a, aw)
            sb = as_ext(b, bw)
            if sa and sb:
                for x, lo in sa:
                    for y, lo2 in sb:
                        if x is y and x.w == tw and lo2 == 0 and lo + aw == tw:
                            return rot(x, lo, tw)
    # value zero-extended
    if len(out) == 2 and isinstance(out[1][0], int) and out[1][0] == 0:
        return zext(out[0][0], tw)
    # common ite
    c0 = None
    for v, w in out:
        if isinstance(v, T) and v.op in ("ite", "mask"):
            if c0 is None:
                c0 = v.a[0]
            elif c0 is not v.a[0]:
                c0 = None
                break
        elif isinstance(v, T):
            c0 = None
            break
    if c0 is not None:
        def side(v, w, s):
            if isinstance(v, int):
                return v
            if v.op == "mask":
                return ((1 << w) - 1) if s else 0
            return v.a[1] if s else v.a[2]
        return ite(c0, cat([(side(v, w, 1), w) for v, w in out]), cat([(side(v, w, 0), w) for v, w in out]), tw)
    return mk("cat", tw, tuple(out))


def as_ext(v, w):
    """ways of viewing v as bits [lo,lo+w) of something"""
    r = []
    if v.op == "ext":
        r.append((v.a[0], v.a[1]))
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[1][0][0].w >= w:
        r.append((v.a[1][0][0], 0))
    if v.op == "lin":
        # truncation of a wider linear form: cannot be recovered in general
        for k in LOWOF.get(v, ()):
            r.append((k, 0))
    return r


LOWOF = {}


def join_ext(a, aw, b, bw):
    if b.op != "ext":
        return None
    x, lo = b.a
    sa = as_ext(a, aw)
    for y, l2 in sa:
        if y is x and l2 + aw == lo:
            return ext(x, l2, aw + bw)
    # low part of a linear form (trunc distributes, so the low part is itself a 'lin')
    if lo == aw and trunc(x, aw) is a:
        return ext(x, 0, aw + bw)
    if a.op == "rot" or b.op == "rot":
        return None
    return None


def bxor(w, vals):
    c = 0
    cnt = {}
    vs = []
    for v in vals:
        if isinstance(v, T) and v.op == "cat" and any(isinstance(p, int) for p, _ in v.a):
            pos = 0
            for p, pw in v.a:
                if isinstance(p, int):
                    c ^= p << pos
                else:
                    vs.append(add_many(w, 0, ((zext(p, w), 1 << pos),)))
                pos += pw
        else:
            vs.append(v)
    for v in vs:
        if isinstance(v, int):
            c ^= v
        elif v.op == "xor":
            for x in v.a:
                if isinstance(x, int):
                    c ^= x
                elif x in cnt:
                    del cnt[x]
                else:
                    cnt[x] = 1
        elif v in cnt:
            del cnt[v]
        else:
            cnt[v] = 1
    c &= (1 << w) - 1
    if XSTEP and len(cnt) > 3:
        # a flattened xor may contain a whole chain step
        for x in list(cnt):
            for args, k, t in XSTEP.get(x, ()):
                if len(args) < len(cnt) and all(y in cnt for y in args):
                    for y in args:
                        del cnt[y]
                    c ^= k
                    if t in cnt:
                        del cnt[t]
                    else:
                        cnt[t] = 1
                    break
    ts = sorted(cnt, key=lambda t: t.id)
    if not ts:
        return c
    if len(ts) == 1 and c == 0:
        return ts[0]
    if len(ts) == 1 and ts[0].op == "mask" and c == (1 << w) - 1:
        return mask(bnot(ts[0].a[0]), w)
    if len(ts) == 1 and ts[0].op in ("ite", "mask"):
        t = ts[0]
        if t.op == "mask":
            return ite(t.a[0], c ^ ((1 << w) - 1), c, w)
        if isinstance(t.a[1], int) and isinstance(t.a[2], int):
            return ite(t.a[0], t.a[1] ^ c, t.a[2] ^ c, w)
    if w == 1:
        pass
    a = tuple(ts) + ((c,) if c else ())
    return mk("xor", w, a)


def xor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    return bxor(w, (a, b))


def band_w(w, vals):
    full = (1 << w) - 1
    c = full
    ts = set()
    for v in vals:
        if isinstance(v, int):
            c &= v
        elif v.op == "and":
            for x in v.a:
                if isinstance(x, int):
                    c &= x
                else:
                    ts.add(x)
        else:
            ts.add(v)
    if c == 0:
        return 0
    if not ts:
        return c
    masks = [t for t in ts if t.op == "mask"]
    rest = sorted((t for t in ts if t.op != "mask"), key=lambda t: t.id)
    if masks:
        cond = masks[0].a[0]
        for m in masks[1:]:
            cond = b_and(cond, m.a[0])
        if cond is False:
            return 0
        if not rest:
            if cond is True:
                return c
            return mask(cond, w) if c == full else ite(cond, c, 0, w)
        inner = band_w(w, list(rest) + [c])
        return inner if cond is True else ite(cond, inner, 0, w)
    if len(rest) == 1:
        t = rest[0]
        if c == full:
            return t
        if t.op == "ite" and isinstance(t.a[1], int) and isinstance(t.a[2], int):
            return ite(t.a[0], t.a[1] & c, t.a[2] & c, w)
        if (c & (c + 1)) == 0:            # low-bit mask
            k = c.bit_length()
            if t.w <= k:
                return t
            if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].w <= k:
                return t
            return zext(trunc(t, k), w) if t.op in ("ld", "cat") else add_many(w, 0, ((t, 1), (zext(ext(t, k, w - k), w), -(1 << k))))
        if ((~c & full) & ((~c & full) + 1)) == 0:   # high-bit mask
            k = (~c & full).bit_length()
            return add_many(w, 0, ((zext(ext(t, k, w - k), w), 1 << k),))
    return mk("and", w, tuple(rest) + ((c,) if c != full else ()))


def wand(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    return band_w(w, (a, b))


def wnot(w, a):
    return xor(w, a, (1 << w) - 1)


def split_bits(v, w):
    """view as list of (value,width) little-endian where zero runs are explicit, or None"""
    if isinstance(v, int):
        return [(v, w)]
    if v.op == "cat":
        return list(v.a)
    if v.op == "shl":
        x, k = v.a
        return [(0, k), (trunc_view(x, w - k), w - k)]
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1:
        t, k = v.a[1][0]
        if k == 1 and t.w < w:
            return [(t, t.w), (0, w - t.w)]
        if k > 1 and (k & (k - 1)) == 0:
            s = k.bit_length() - 1
            if t.w + s <= w:
                return [(0, s), (t, t.w), (0, w - s - t.w)]
            return [(0, s), (ext(t, 0, w - s), w - s)]
        if k < 0 and (-k) == 1 << (w - 1):
            return [(0, w - 1), (ext(t, 0, 1), 1)]
    return [(v, w)]


def trunc_view(x, n):
    return ext(x, 0, n)


def wor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if a is b:
        return a
    full = (1 << w) - 1
    if (isinstance(a, int) and a == full) or (isinstance(b, int) and b == full):
        return full
    pa = split_bits(a, w)
    pb = split_bits(b, w)
    if pa and pb:
        cuts = set()
        for p in (pa, pb):
            pos = 0
            for _, pw in p:
                cuts.add(pos)
                pos += pw
        cuts.add(w)
        cuts = sorted(cuts)
        out = []
        ok = True
        for s, e in zip(cuts, cuts[1:]):
            x = piece(pa, s, e)
            y = piece(pb, s, e)
            if isinstance(x, int) and x == 0:
                out.append((y, e - s))
            elif isinstance(y, int) and y == 0:
                out.append((x, e - s))
            elif isinstance(x, int) and isinstance(y, int):
                out.append((x | y, e - s))
            else:
                ok = False
                break
        if ok:
            return cat(out)
    ma = isinstance(a, T) and a.op == "mask"
    mb = isinstance(b, T) and b.op == "mask"
    if ma and mb:
        c = b_or(a.a[0], b.a[0])
        return full if c is True else (0 if c is False else mask(c, w))
    # de Morgan normal form keeps one connective
    return mk("or", w, tuple(sorted([x for x in (a, b) if isinstance(x, T)], key=lambda t: t.id)) + tuple(x for x in (a, b) if isinstance(x, int)))


def piece(p, s, e):
    pos = 0
    for v, w in p:
        if pos <= s and e <= pos + w:
            return ext(v, s - pos, e - s)
        pos += w
    return None


def shl(w, v, k):
    if k == 0:
        return v
    if k >= w:
        return 0
    if isinstance(v, int):
        return (v << k) & ((1 << w) - 1)
    return add_many(w, 0, ((v, 1 << k),))


def shr_wide(full, w, f):
    """the bits of the form f above the low w"""
    if isinstance(full, int):
        return full >> w
    return zext(ext(full, w, w), w)


def shr(w, v, k):
    if k == 0:
        return v
    if k >= w:
        return 0
    if isinstance(v, int):
        return v >> k
    return zext(ext(v, k, w - k), w)


# ---------------------------------------------------------------- booleans: Python True/False or T(w=1)

def _norm_le(f):
    c, m = f
    if not m:
        return c <= 0
    g = 0
    from math import gcd
    for _, k in m:
        g = gcd(g, k)
    if g > 1:
        # sum*g + c <= 0  ->  sum <= floor(-c/g)
        c = -((-c) // g)
        m = tuple((t, k // g) for t, k in m)
    return (c, m)


def le0(f):
    n = _norm_le(f)
    if n is True or n is False:
        return n
    return mk("le0", 1, n)


def eq0(f):
    c, m = f
    if not m:
        return c == 0
    from math import gcd
    g = 0
    for _, k in m:
        g = gcd(g, k)
    if c % g:
        return False
    if m[0][1] < 0:
        g = -g
    return mk("eq0", 1, (c // g, tuple((t, k // g) for t, k in m)))


def bnot(b):
    if isinstance(b, bool):
        return not b
    if b.op == "bnot":
        return b.a[0]
    if b.op == "le0":
        return le0(fsub(F(1), b.a))
    if b.op == "band":
        return b_or(*[bnot(x) for x in b.a])
    if b.op == "bor":
        return b_and(*[bnot(x) for x in b.a])
    return mk("bnot", 1, (b,))


def b_and(*xs):
    s = set()
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if x.op == "band":
            s.update(x.a)
        else:
            s.add(x)
    for x in s:
        if bnot(x) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return mk("band", 1, tuple(sorted(s, key=lambda t: t.id)))


def b_or(*xs):
    s = set()
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if x.op == "bor":
            s.update(x.a)
        else:
            s.add(x)
    for x in s:
        if bnot(x) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    return mk("bor", 1, tuple(sorted(s, key=lambda t: t.id)))


def beq(a, b):
    """equality of two opaque words"""
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, y = (a, b) if isinstance(b, int) or (isinstance(a, T) and a.id < b.id) else (b, a)
    return mk("beq", 1, (x, y))


def bsym(name):
    return mk("bsym", 1, (name,))


def mask(c, w):
    if c is True:
        return (1 << w) - 1
    if c is False:
        return 0
    return mk("mask", w, (c,))


def implies_form(a, b):
    """a, b boolean atoms: does a imply b syntactically (same linear part)?"""
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T) and a.op == "le0" and b.op == "le0" and a.a[1] == b.a[1]:
        return b.a[0] <= a.a[0]
    return False


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(a, T) and a.op == "ite":
        if implies_form(c, a.a[0]):
            a = a.a[1]
        elif implies_form(c, bnot(a.a[0])):
            a = a.a[2]
        return ite2(c, a, b, w)
    return ite2(c, a, b, w)


def ite2(c, a, b, w):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(b, T) and b.op == "ite":
        nc = bnot(c)
        if implies_form(nc, b.a[0]):
            return ite2(c, a, b.a[1], w)
        if implies_form(nc, bnot(b.a[0])):
            return ite2(c, a, b.a[2], w)
        # ite(c, x, ite(d, x, z)) with c => d   ==>  ite(d, x, z)
        if (b.a[1] is a or (isinstance(a, int) and isinstance(b.a[1], int) and a == b.a[1])) and implies_form(c, b.a[0]):
            return b
    if isinstance(a, T) and a.op == "ite":
        # ite(c, ite(d, x, z), z) with d => c ==> ite(d,x,z)
        if (a.a[2] is b or (isinstance(b, int) and isinstance(a.a[2], int) and a.a[2] == b)) and implies_form(a.a[0], c):
            return a
    full = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        if a == full and b == 0 and w > 1:
            return mk("mask", w, (c,))
        if a == 0 and b == full and w > 1:
            return mk("mask", w, (bnot(c),))
    if c.op == "bnot":
        return mk("ite", w, (c.a[0], b, a))
    return mk("ite", w, (c, a, b))


# ---------------------------------------------------------------- rebuilding under a substitution

def rebuild(v, fn, memo):
    """Rebuild v bottom-up; fn(t) may return a replacement for a (leaf or boolean) term, or None."""
    if not isinstance(v, T):
        return v
    r = memo.get(v)
    if r is not None or v in memo:
        return r
    stack = [v]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        r = fn(t)
        if r is not None:
            memo[t] = r
            stack.pop()
            continue
        ch = children(t)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[t] = remake(t, memo)
        stack.pop()
    return memo[v]


def form_children(f):
    return [t for t, _ in f[1]]


def children(t):
    op = t.op
    if op in ("sym", "bsym"):
        return []
    if op in ("lin", "le0", "eq0"):
        return form_children(t.a)
    if op == "ld":
        return form_children(t.a[1])
    if op == "cw":
        return form_children(t.a[1])
    if op == "cat":
        return [x for x, _ in t.a if isinstance(x, T)]
    return [x for x in t.a if isinstance(x, T)]


def rform(f, memo, exact=True):
    c = f[0]
    d = {}
    for t, k in f[1]:
        v = memo.get(t, t)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            c += k * v
        elif v.op == "lin" and v is not t:
            c += k * v.a[0]
            for u, kk in v.a[1]:
                d[u] = d.get(u, 0) + k * kk
        else:
            d[v] = d.get(v, 0) + k
    return (c, tuple(sorted(((t, k) for t, k in d.items() if k), key=_aid)))


def remake(t, memo):
    op = t.op
    w = t.w
    g = lambda x: memo.get(x, x) if isinstance(x, T) else x
    if op in ("sym", "bsym"):
        return mk(op, w, t.a)
    if op == "lin":
        f = t.a
        items = []
        for u, k in f[1]:
            items.append((g(u), k, u))
        c = f[0]
        d = {}
        for v, k, u in items:
            if isinstance(v, int):
                c += v * k
            elif v.op == "lin" and u.op != "lin":
                # substituted atoms are exact by construction
                c += v.a[0] * k
                for x, kk in v.a[1]:
                    d[x] = d.get(x, 0) + kk * k
            else:
                d[v] = d.get(v, 0) + k
        return lin(w, c, d.items())
    if op == "le0":
        return le0(rform(t.a, memo))
    if op == "eq0":
        return eq0(rform(t.a, memo))
    if op == "ld":
        return ld(t.a[0], rform(t.a[1], memo), t.a[2])
    if op == "cw":
        h = CW_HOOK[0]
        k = rform(t.a[1], memo)
        if h:
            return h(t.a[0], k, t.a[2], w)
        return mk("cw", w, (t.a[0], k) + t.a[2:])
    if op == "cat":
        return cat([(g(x), ww) for x, ww in t.a])
    if op == "xor":
        return bxor(w, [g(x) for x in t.a])
    if op == "and":
        return band_w(w, [g(x) for x in t.a])
    if op == "or":
        r = 0
        first = True
        for x in t.a:
            y = g(x)
            r = y if first else wor(w, r, y)
            first = False
        return r
    if op == "rot":
        return rot(g(t.a[0]), t.a[1], w)
    if op == "ext":
        return ext(g(t.a[0]), t.a[1], w)
    if op == "shl":
        return shl(w, g(t.a[0]), t.a[1])
    if op == "ite":
        return ite(g(t.a[0]), g(t.a[1]), g(t.a[2]), w)
    if op == "mask":
        return mask(g(t.a[0]), w)
    if op == "bnot":
        return bnot(g(t.a[0]))
    if op == "band":
        return b_and(*[g(x) for x in t.a])
    if op == "bor":
        return b_or(*[g(x) for x in t.a])
    if op == "beq":
        return beq(g(t.a[0]), g(t.a[1]))
    if op == "mul":
        return mul(w, g(t.a[0]), g(t.a[1]))
    if op == "tab":
        return tab(t.a[1], g(t.a[0]))
    return mk(op, w, tuple(g(x) if isinstance(x, T) else x for x in t.a))


CW_HOOK = [None]


def leaves(v, acc=None, seen=None):
    """all terms reachable from v"""
    seen = seen if seen is not None else set()
    st = [v]
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        st.extend(children(t))
    return seen
