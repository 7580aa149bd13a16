"""Byte-level memory operations on abstract objects."""
from . import term as T
from .term import F, fadd, fsub, fscale
from .load import Imprecise
from .state import *


# A cell holds the number that the target's own byte order makes of the bytes; `ld` terms are little-endian everywhere.
BIG = [False]
# bytes of a pointer
PB = [8]


def max_len():
    """the longest slice: isize::MAX"""
    return (1 << (8 * PB[0] - 1)) - 1


def usize(f):
    """a form as a value of type usize"""
    return T.lin_form(8 * PB[0], f) if f[1] else f[0]


def fat(p, n):
    """pointer and length (or vtable)"""
    return Blob(2 * PB[0], {0: (PB[0], p), PB[0]: (PB[0], n)})


def fat_parts(v):
    return v.cells[0][1], v.cells[PB[0]][1]


def bswap(v, n):
    """the number made of the n bytes of v in the opposite order"""
    if n == 1:
        return v
    if type(v) is int:
        return int.from_bytes(v.to_bytes(n, "little"), "big")
    return T.cat([(T.ext(v, 8 * i, 8), 8) for i in reversed(range(n))])


def native(v, n):
    """little-endian number of n bytes -> what a load of them gives (and back)"""
    return bswap(v, n) if BIG[0] else v


def ncat(parts):
    """concatenation of (native number, width) in order of addresses"""
    return T.cat(parts[::-1] if BIG[0] else parts)


def as_ld(v, size):
    """(base, idx) if v is what a load of consecutive input bytes gives"""
    if type(v) is not T.T:
        return None
    if BIG[0] and size > 1:
        if v.op != "cat":
            return None
        v = bswap(v, size)
    if type(v) is T.T and v.op == "ld" and v.a[2] == size:
        return v.a[0], v.a[1]
    return None


def piece(st, v, size, off, n):
    """bytes [off, off+n) of a cell value of `size` bytes"""
    if off == 0 and n == size:
        return v
    ty = type(v)
    if BIG[0] and ty is not Arr:
        off = size - off - n
    if ty is bool:
        v = int(v)
        ty = int
    if ty is int:
        return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
    if ty is T.T:
        if v.w == 1:
            v = T.ite(v, 1, 0, 8 * size)
            if isinstance(v, int):
                return piece(st, v, size, off, n)
        return T.ext(v, 8 * off, 8 * n)
    if ty is Arr:
        return arr_sub(v, off, n)
    if v is UNDEF:
        return UNDEF
    raise Imprecise("partial access to %r" % (v,))


def arr_sub(a, off, n):
    if off == 0 and n == a.size:
        return a
    ls = []
    for s, e, k, p, d in a.layers:
        s2 = shift(s, -off)
        e2 = shift(e, -off)
        if type(s2) is int and type(e2) is int:
            s3 = max(s2, 0)
            e3 = min(e2, n)
            if s3 >= e3:
                continue
            s2, e2 = s3, e3
        ls.append((s2, e2, k, p, shift(d, off)))
        if s2 == 0 and e2 == n:
            break
    return Arr(n, tuple(ls))


def shift(f, k):
    if type(f) is int:
        if type(k) is int:
            return f + k
        return ival(fadd(k, F(f)))
    if type(k) is int:
        return (f[0] + k, f[1])
    return ival(fadd(f, k))


def layer_byte(st, kind, p, x):
    """byte at payload index x (int|form)"""
    return layer_val(st, kind, p, x, 1)


def layer_val(st, kind, p, x, n):
    if kind == "ld":
        return native(T.ld(p, fm(x), n), n)
    if kind == "fill":
        if type(p) is int:
            v = 0
            for _ in range(n):
                v = (v << 8) | p
            return v
        return T.cat([(p, 8)] * n)
    if kind == "val":
        v, nb = p
        if type(x) is not int:
            raise Imprecise("symbolic index into a stored value")
        return piece_num(st, v, nb, x, n)
    if kind == "arr":
        return arr_read(st, p, x, n)
    if kind == "top":
        return T.mk("sym", 8 * n, ("!top%s[%s+%d]" % (p, T.show_form(fm(x), 6), n),))
    raise Imprecise("layer " + kind)


def piece_num(st, v, nb, x, n):
    if type(v) is Blob:
        r = blob_read(st, v, x, n, True)
        return tonum(r, n)
    r = piece(st, v, nb, x, n)
    return tonum(r, n)


def tonum(v, n):
    if type(v) is bool:
        return int(v)
    if type(v) is int:
        return v
    if type(v) is T.T:
        if v.w == 1:
            return T.ite(v, 1, 0, 8 * n)
        return v
    if type(v) is Arr:
        raise Imprecise("array where a number is expected")
    raise Imprecise("not a number: %r" % (v,))


def arr_read(st, a, off, n, start=0):
    """the number that n bytes at off make"""
    ls = a.layers
    c = st.cons
    for i in range(start, len(ls)):
        s, e, k, p, d = ls[i]
        r = rel(c, s, e, off, n)
        if r == "out":
            continue
        if r == "in":
            return layer_val(st, k, p, shift(d, off), n)
        if n > 1:
            return ncat([(arr_read(st, a, shift(off, j), 1, i), 8) for j in range(n)])
        cond = T.b_and(le_b(s, off), lt_b(off, e))
        v = layer_val(st, k, p, shift(d, off), 1)
        return T.ite(cond, v, arr_read(st, a, off, 1, i + 1), 8)
    return T.mk("sym", 8 * n, ("!uninit%s" % T.show_form(fm(off)),))


def le_b(a, b):
    if type(a) is int and type(b) is int:
        return a <= b
    return T.le0(fsub(fm(a), fm(b)))


def lt_b(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    return T.le0(fadd(fsub(fm(a), fm(b)), F(1)))


def c_le(c, a, b):
    if type(a) is int and type(b) is int:
        return a <= b
    return c.le(fsub(fm(a), fm(b)))


def rel(c, s, e, off, n):
    if type(s) is int and type(e) is int and type(off) is int:
        if s <= off and off + n <= e:
            return "in"
        if off + n <= s or e <= off:
            return "out"
        return "part"
    end = shift(off, n)
    if c_le(c, s, off) and c_le(c, end, e):
        return "in"
    if c_le(c, end, s) or c_le(c, e, off) or c_le(c, e, s):
        return "out"
    return "part"


def arr_write(st, a, s, e, kind, payload, d):
    """new layer over a"""
    c = st.cons
    if c_le(c, e, s):
        return a
    out = []
    done = False
    for l in a.layers:
        s2, e2, k2, p2, d2 = l
        if not done and kind == k2 and (p2 == payload) and kind in ("ld", "fill") and (kind == "fill" or fm(d2) == fm(d)):
            # same source at same displacement: join when the two ranges touch
            if c_le(c, s2, e) and c_le(c, s, e2) :
                lo = s2 if c_le(c, s2, s) else (s if c_le(c, s, s2) else None)
                hi = e2 if c_le(c, e, e2) else (e if c_le(c, e2, e) else None)
                if lo is not None and hi is not None and not out:
                    s, e = lo, hi
                    done = True
                    continue
        # completely covered layers disappear
        if c_le(c, s, s2) and c_le(c, e2, e):
            continue
        out.append(l)
    return Arr(a.size, ((s, e, kind, payload, d),) + tuple(out))


def blob_read(st, b, off, n, scalar):
    if type(b) is not Blob:
        raise Imprecise("blob_read")
    return cells_read(st, b.cells, off, n, scalar)


def cells_read(st, cells, off, n, scalar):
    x = cells.get(off)
    if x is not None and x[0] == n:
        v = x[1]
        if type(v) is Arr and scalar:
            return arr_read(st, v, 0, n)
        return v
    parts = []
    end = off + n
    for k, (sz, v) in cells.items():
        if k < end and off < k + sz:
            a = max(k, off)
            z = min(k + sz, end)
            if scalar and type(v) is Arr:
                parts.append((a, z - a, arr_read(st, v, a - k, z - a)))
            else:
                parts.append((a, z - a, piece(st, v, sz, a - k, z - a)))
    if not scalar:
        return Blob(n, {a - off: (z, v) for a, z, v in parts})
    parts.sort(key=lambda p: p[0])
    pos = off
    out = []
    for a, z, v in parts:
        if a > pos:
            out.append((T.mk("sym", 8 * (a - pos), ("!undef%d" % pos,)), 8 * (a - pos)))
        if v is UNDEF:
            v = T.mk("sym", 8 * z, ("!undef%d" % a,))
        out.append((tonum(v, z), 8 * z))
        pos = a + z
    if pos < end:
        if not out:
            return UNDEF
        out.append((T.mk("sym", 8 * (end - pos), ("!undef%d" % pos,)), 8 * (end - pos)))
    return ncat(out)


def cells_write(st, cells, off, n, v):
    """write value v (n bytes) into the cell dict"""
    if n == 0:
        return
    x = cells.get(off)
    if x is not None and x[0] == n and type(v) is not Blob:
        cells[off] = (n, v)
        return
    end = off + n
    if cells:
        hit = [k for k, (sz, _) in cells.items() if k < end and off < k + sz]
        for k in hit:
            sz, old = cells.pop(k)
            if k < off:
                cells[k] = (off - k, piece_keep(st, old, sz, 0, off - k))
            if k + sz > end:
                cells[end] = (k + sz - end, piece_keep(st, old, sz, end - k, k + sz - end))
    if type(v) is Blob:
        for o, c in v.cells.items():
            cells[off + o] = c
    else:
        cells[off] = (n, v)


def piece_keep(st, v, size, off, n):
    try:
        return piece(st, v, size, off, n)
    except Imprecise:
        return UNDEF


def to_arr(st, cells, off, n):
    """gather cells of [off,off+n) into an Arr (relative to off)"""
    x = cells.get(off)
    if x is not None and x[0] == n and type(x[1]) is Arr:
        return x[1]
    ls = []
    for k in sorted(cells):
        sz, v = cells[k]
        if k < off + n and off < k + sz:
            a = max(k, off)
            z = min(k + sz, off + n)
            if type(v) is Arr:
                sub = arr_sub(v, a - k, z - a)
                if a == off and z == off + n:
                    return sub
                if len(sub.layers) == 1 and sub.layers[0][0] == 0 and sub.layers[0][1] == z - a:
                    s, e, kk, p, d = sub.layers[0]
                    ls.append((a - off, z - off, kk, p, shift(d, -(a - off))))
                else:
                    ls.append((a - off, z - off, "arr", sub, -(a - off)))
            elif v is UNDEF:
                continue
            elif as_ld(v, sz):
                base, idx = as_ld(v, sz)
                ls.append((a - off, z - off, "ld", base, ival(fadd(idx, F((a - k) - (a - off))))))
            else:
                ls.append((a - off, z - off, "val", (v, sz), (a - k) - (a - off)))
    # join contiguous ld / fill layers
    out = []
    for l in ls:
        if out:
            p = out[-1]
            if p[2] == l[2] and p[3] == l[3] and p[1] == l[0] and l[2] in ("ld", "fill") and (l[2] == "fill" or fm(p[4]) == fm(l[4])):
                out[-1] = (p[0], l[1], p[2], p[3], p[4])
                continue
            if l[2] == "val" and p[2] == "fill" and p[1] == l[0] and type(l[3][0]) is int and type(p[3]) is int and l[3][1] == 1 and l[3][0] == p[3]:
                out[-1] = (p[0], l[1], "fill", p[3], 0)
                continue
        out.append(l)
    return Arr(n, tuple(out))
