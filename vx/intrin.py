"""Meaning of compiler intrinsics and body-less library functions."""
from . import term as T
from .term import F, fadd, fsub, fscale
from .load import Imprecise
from .state import *
from .mem import *


def vec(ip, tid):
    """(lane bytes, lanes, signed) of a SIMD type"""
    t = ip.p.ty(tid)
    import json
    lay = json.loads(ip.p.rawtypes[str(tid)]["layout"])
    v = lay["value_repr"].get("Vector") if isinstance(lay["value_repr"], dict) else None
    if v is None:
        raise Imprecise("not a vector: " + t.s)
    n = v["count"]
    e = v["element"].get("Initialized") or v["element"].get("Union")
    return t.size // n, n


def lanes(ip, st, v, lb, n):
    from .interp import asblob
    b = asblob(v, lb * n)
    return [tonum_u(cells_read(st, b.cells, i * lb, lb, True), lb) for i in range(n)]


def tonum_u(v, n):
    if v is UNDEF:
        return T.mk("sym", 8 * n, ("!undef",))
    return tonum(v, n)


def mkv(ls, lb):
    return Blob(lb * len(ls), {i * lb: (lb, x) for i, x in enumerate(ls)})


def parts(ip, st, v, n):
    """finest natural cell partition of a vector value"""
    from .interp import asblob
    b = asblob(v, n)
    return b, sorted(set([0, n]) | set(k for k in b.cells) | set(k + s for k, (s, _) in b.cells.items()))


def bitwise(ip, st, a, b, n, f):
    ba, ca = parts(ip, st, a, n)
    bb, cb = parts(ip, st, b, n)
    # a cell that is one wide constant or load may be split at the other operand's boundaries
    cuts = sorted(set(ca) | set(cb))
    if len(cuts) == 2:
        step = 8 if n % 8 == 0 else n
        cuts = list(range(0, n + 1, step))
    cells = {}
    for s, e in zip(cuts, cuts[1:]):
        x = tonum_u(cells_read(st, ba.cells, s, e - s, True), e - s)
        y = tonum_u(cells_read(st, bb.cells, s, e - s, True), e - s)
        cells[s] = (e - s, f(8 * (e - s), x, y))
    return Blob(n, cells)


def cnum(st, v):
    if type(v) is bool:
        return int(v)
    if type(v) is int:
        return v
    f = st.exact(v)
    lo = st.cons.minmax(f, "min")
    if lo == st.cons.minmax(f, "max"):
        return lo
    return None


SIMD_BIT = {"simd_xor": T.xor, "simd_or": T.wor, "simd_and": T.wand}


def call(ip, st, fn, args):
    k = fn.intrinsic
    if k:
        return intrinsic(ip, st, fn, k, args)
    if fn.link and fn.link.startswith("llvm."):
        return [(st, foreign(ip, st, fn, fn.link, args))]
    nm = fn.name
    if fn.kind.startswith("Virtual"):
        raise Imprecise("dynamic call " + nm)
    raise Imprecise("no body for " + nm)


def intrinsic(ip, st, fn, k, args):
    from .interp import norm, padd, blobget, tobool
    r = lambda v: [(st, v)]
    num = lambda v, w: ip.num(st, v, w)
    if k in SIMD_BIT:
        t = ip.p.ty(fn.abi_args[0])
        return r(bitwise(ip, st, args[0], args[1], t.size, SIMD_BIT[k]))
    if k in ("simd_add", "simd_sub", "simd_mul"):
        lb, n = vec(ip, fn.abi_args[0])
        f = {"simd_add": T.add, "simd_sub": T.sub, "simd_mul": T.mul}[k]
        a, b = lanes(ip, st, args[0], lb, n), lanes(ip, st, args[1], lb, n)
        return r(mkv([f(8 * lb, x, y) for x, y in zip(a, b)], lb))
    if k in ("simd_eq", "simd_ne", "simd_lt", "simd_gt", "simd_le", "simd_ge"):
        lb, n = vec(ip, fn.abi_args[0])
        ob, _ = vec(ip, fn.abi_ret)
        a, b = lanes(ip, st, args[0], lb, n), lanes(ip, st, args[1], lb, n)
        op = {"simd_eq": "Eq", "simd_ne": "Ne", "simd_lt": "Lt", "simd_gt": "Gt", "simd_le": "Le", "simd_ge": "Ge"}[k]
        if k not in ("simd_eq", "simd_ne"):
            s = ip.p.ty(fn.abi_args[0]).s
            signed = "<i" in s
            out = []
            for x, y in zip(a, b):
                if signed:
                    # signed order is unsigned order with the top bit flipped
                    x = T.xor(8 * lb, x, 1 << (8 * lb - 1))
                    y = T.xor(8 * lb, y, 1 << (8 * lb - 1))
                out.append(T.mask(vcmp(ip, st, op, x, y), 8 * ob))
            return r(mkv(out, ob))
        return r(mkv([T.mask(vcmp(ip, st, op, x, y), 8 * ob) for x, y in zip(a, b)], ob))
    if k in ("simd_shl", "simd_shr"):
        lb, n = vec(ip, fn.abi_args[0])
        a, b = lanes(ip, st, args[0], lb, n), lanes(ip, st, args[1], lb, n)
        out = []
        for x, y in zip(a, b):
            y = cnum(st, y)
            if y is None:
                raise Imprecise("variable vector shift")
            if k == "simd_shr" and "<i" in ip.p.ty(fn.abi_args[0]).s and not isinstance(x, int):
                raise Imprecise("signed vector shift")
            out.append((T.shl if k == "simd_shl" else T.shr)(8 * lb, x, y))
        return r(mkv(out, lb))
    if k == "simd_splat":
        lb, n = vec(ip, fn.abi_ret)
        return r(mkv([num(args[0], 8 * lb)] * n, lb))
    if k == "simd_shuffle":
        lb, n = vec(ip, fn.abi_args[0])
        ob, on = vec(ip, fn.abi_ret)
        a = lanes(ip, st, args[0], lb, n) + lanes(ip, st, args[1], lb, n)
        it = ip.p.ty(fn.abi_args[2])
        idx = lanes(ip, st, args[2], 4, it.size // 4)
        if not all(isinstance(i, int) for i in idx):
            raise Imprecise("shuffle index")
        if any(i >= len(a) for i in idx):
            raise Imprecise("shuffle index out of range")
        return r(mkv([a[i] for i in idx], lb))
    if k == "simd_extract" or k == "simd_extract_dyn":
        lb, n = vec(ip, fn.abi_args[0])
        i = cnum(st, args[1])
        return r(lanes(ip, st, args[0], lb, n)[i])
    if k == "simd_insert" or k == "simd_insert_dyn":
        lb, n = vec(ip, fn.abi_args[0])
        i = cnum(st, args[1])
        l = lanes(ip, st, args[0], lb, n)
        l[i] = num(args[2], 8 * lb)
        return r(mkv(l, lb))
    if k == "simd_select":
        lb, n = vec(ip, fn.abi_args[0])
        ob, _ = vec(ip, fn.abi_args[1])
        m, a, b = lanes(ip, st, args[0], lb, n), lanes(ip, st, args[1], ob, n), lanes(ip, st, args[2], ob, n)
        out = []
        for c, x, y in zip(m, a, b):
            if isinstance(c, int):
                out.append(x if c else y)
            elif c.op == "mask":
                out.append(T.ite(c.a[0], x, y, 8 * ob))
            else:
                raise Imprecise("vector select")
        return r(mkv(out, ob))
    if k == "simd_cast" or k == "simd_as":
        lb, n = vec(ip, fn.abi_args[0])
        ob, _ = vec(ip, fn.abi_ret)
        if ob <= lb:
            return r(mkv([T.trunc(x, 8 * ob) for x in lanes(ip, st, args[0], lb, n)], ob))
        if "<u" in ip.p.ty(fn.abi_args[0]).s:
            return r(mkv([T.zext(x, 8 * ob) for x in lanes(ip, st, args[0], lb, n)], ob))
        raise Imprecise("vector sign extension")
    if k in ("saturating_sub", "saturating_add"):
        t = ip.p.ty(fn.abi_args[0])
        w = 8 * t.size
        if t.k == "int":
            raise Imprecise("signed saturation")
        a, b = num(args[0], w), num(args[1], w)
        fa, fb = st.exact(a), st.exact(b)
        if k == "saturating_sub":
            d = fsub(fa, fb)
            c = T.le0(d)
            q = st.decide(c)
            if q is None:
                raise ForkNeeded(c)
            return r(0 if q else ip.wrapv(st, w, d))
        s = fadd(fa, fb)
        c = T.le0(fsub(F(1 << w), s))
        q = st.decide(c)
        if q is None:
            raise ForkNeeded(c)
        return r((1 << w) - 1 if q else ip.wrapv(st, w, s))
    if k in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        t = ip.p.ty(fn.abi_args[0])
        w = 8 * t.size
        f = {"add": T.add, "sub": T.sub, "mul": T.mul}[k.split("_")[1]]
        return r(f(w, num(args[0], w), num(args[1], w)))
    if k in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        t = ip.p.ty(fn.abi_args[0])
        v, o = ip.checked(st, {"a": "Add", "s": "Sub", "m": "Mul"}[k[0]], args[0], args[1], t)
        rt = ip.p.ty(fn.abi_ret)
        return r(Blob(rt.size, {0: (t.size, v), rt.fields[1][0]: (1, o)}))
    if k in ("rotate_left", "rotate_right"):
        t = ip.p.ty(fn.abi_args[0])
        w = 8 * t.size
        n = cnum(st, args[1])
        if n is None:
            raise Imprecise("variable rotation")
        if k == "rotate_left":
            n = (w - n % w) % w
        return r(T.rot(num(args[0], w), n % w, w))
    if k in ("unchecked_funnel_shl", "unchecked_funnel_shr"):
        w = 8 * ip.p.ty(fn.abi_args[0]).size
        n = cnum(st, args[2])
        if n is None or not 0 <= n < w:
            raise Imprecise("variable funnel shift")
        a, b = num(args[0], w), num(args[1], w)
        if k.endswith("shl"):
            if n == 0:
                return r(a)
            n = w - n
        elif n == 0:
            return r(b)
        if a is b or (isinstance(a, int) and a == b):
            return r(T.rot(a, n, w))
        return r(T.cat([(T.ext(b, n, w - n), w - n), (T.ext(a, 0, n), n)]))
    if k == "disjoint_bitor":
        w = 8 * ip.p.ty(fn.abi_args[0]).size
        return r(T.wor(w, num(args[0], w), num(args[1], w)))
    if k == "bswap":
        t = ip.p.ty(fn.abi_args[0])
        w = 8 * t.size
        a = num(args[0], w)
        return r(T.cat([(T.ext(a, 8 * i, 8), 8) for i in reversed(range(t.size))]))
    if k in ("ptr_offset_from_unsigned", "ptr_offset_from"):
        t = ip.p.ty(fn.abi_args[0])
        es = ip.p.ty(t.elem).size
        a, b = args
        if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
            d = fsub(fm(a.off), fm(b.off))
            if d[0] % es == 0 and all(c % es == 0 for _, c in d[1]):
                q = (d[0] // es, tuple((x, c // es) for x, c in d[1]))
                return r(ip.wrapv(st, 8 * PB[0], q))
        if type(a) is int and type(b) is int:
            return r((a - b) // es)
        raise Imprecise("pointer difference")
    if k in ("copy", "copy_nonoverlapping", "volatile_copy_memory"):
        es = ip.p.ty(fn.args[0]).size
        src, dst, n = args
        c = cnum(st, num(n, 8 * PB[0]))
        if c is not None:
            nb = c * es
        else:
            nb = ival(fscale(st.exact(n), es))
        if k == "copy" and type(src) is Ptr and type(dst) is Ptr and src.o == dst.o:
            # memmove inside one object: only concrete extents (read everything first)
            if type(nb) is int and type(src.off) is int and type(dst.off) is int:
                if nb:
                    so = ip.check_bounds(st, src, nb, "read")
                    v = ip.load_raw(st, so, src, nb, False)
                    ip.check_bounds(st, dst, nb, "write")
                    o = st.own(dst.o)
                    cells_write(st, o.cells, dst.off, nb, Blob(nb, {}))
                    cells_write(st, o.cells, dst.off, nb, v)
                return r(Blob(0, {}))
            f = fm(nb) if not isinstance(nb, tuple) else nb
            # small symbolic counts are enumerated
            lo, hi = st.cons.minmax(st.exact(n), "min"), st.cons.minmax(st.exact(n), "max")
            if hi - lo <= 32 and c is None:
                raise ForkNeeded(T.eq0(fsub(st.exact(n), F(lo))))
            raise Imprecise("overlapping move")
        ip.copy_no(st, src, dst, nb)
        return r(Blob(0, {}))
    if k == "write_bytes":
        es = ip.p.ty(fn.args[0]).size
        c = cnum(st, num(args[2], 8 * PB[0]))
        nb = c * es if c is not None else ival(fscale(st.exact(args[2]), es))
        ip.memset(st, args[0], num(args[1], 8), nb)
        return r(Blob(0, {}))
    if k == "ctpop":
        t = ip.p.ty(fn.abi_args[0])
        c = cnum(st, num(args[0], 8 * t.size))
        if c is None:
            raise Imprecise("popcount")
        return r(bin(c).count("1"))
    if k in ("cttz", "cttz_nonzero"):
        t = ip.p.ty(fn.abi_args[0])
        c = cnum(st, num(args[0], 8 * t.size))
        if c is None:
            raise Imprecise("trailing zeros")
        return r((c & -c).bit_length() - 1 if c else 8 * t.size)
    if k in ("ctlz", "ctlz_nonzero"):
        t = ip.p.ty(fn.abi_args[0])
        c = cnum(st, num(args[0], 8 * t.size))
        if c is None:
            raise Imprecise("leading zeros")
        return r(8 * t.size - c.bit_length())
    if k in ("black_box",):
        return r(args[0])
    if k in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume", "cold_path"):
        if k == "assume":
            from .interp import Infeasible
            if not st.assume(tobool(args[0])):
                raise Infeasible()
        return r(Blob(0, {}))
    if k in ("likely", "unlikely"):
        return r(args[0])
    if k == "size_of" or k == "size_of_val":
        return r(ip.p.ty(fn.args[0]).size)
    if k in ("align_of", "min_align_of"):
        return r(ip.p.ty(fn.args[0]).align)
    if k == "caller_location":
        return r(T.sym("!loc", 8 * PB[0]))
    if k == "compare_bytes":
        n = cnum(st, args[2])
        if ip.watch is not None:
            ip.watch.memcmp(ip, st, args[0], args[1], 1 if n is None else n)
        if n is None:
            raise Imprecise("memcmp")
        conds = []
        for i in range(n):
            x = ip.load(st, padd(args[0], i), 1, True)
            y = ip.load(st, padd(args[1], i), 1, True)
            conds.append(vcmp(ip, st, "Eq", x, y))
        e = T.b_and(*conds)
        return r(T.ite(e, 0, T.sym("!memcmp", 32), 32))
    if k == "raw_eq":
        n = ip.p.ty(fn.args[0]).size
        if ip.watch is not None:
            ip.watch.memcmp(ip, st, args[0], args[1], n)
        conds = []
        for i in range(n):
            x = ip.load(st, padd(args[0], i), 1, True)
            y = ip.load(st, padd(args[1], i), 1, True)
            conds.append(vcmp(ip, st, "Eq", x, y))
        return r(T.b_and(*conds))
    if k == "select_unpredictable":
        c = tobool(args[0])
        q = st.decide(c)
        if q is None:
            raise ForkNeeded(c)
        return r(args[1] if q else args[2])
    if k in ("discriminant_value",):
        raise Imprecise(k)
    if k in ("abort", "unreachable"):
        ip.note(st, "unreachable" if k == "unreachable" else "panic", "call to " + k)
        return []
    raise Imprecise("intrinsic " + k)


def vcmp(ip, st, op, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[op]
    r = ip.cmp(st, op, x, y, None)
    d = st.decide(r)
    return r if d is None else d


def foreign(ip, st, fn, link, args):
    if "pshuf.b" in link:
        n = 32 if link.startswith("llvm.x86.avx2") else 16
        a = lanes(ip, st, args[0], 1, n)
        b = lanes(ip, st, args[1], 1, n)
        out = []
        for i, m in enumerate(b):
            if not isinstance(m, int):
                raise Imprecise("shuffle control")
            if m & 0x80:
                out.append(0)
            else:
                out.append(a[(i & ~15) + (m & 15)])
        # regroup bytes so that later lane reads see rotations
        return mkv(out, 1)
    raise Imprecise("foreign " + link)
