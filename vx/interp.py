"""Abstract interpreter over monomorphic MIR: gated value numbering + linear relations."""
import heapq
import sys
from . import term as T
from .term import F, fadd, fsub, fscale
from .load import Imprecise, Prog, Ty
from .state import *
from .mem import *
from . import loops

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ("fn", "base", "body", "code", "nl", "sp")


class Outcome:
    """something that happens on a path: panic, unproved access, ..."""
    __slots__ = ("kind", "msg", "fn", "span", "state", "stack")

    def __init__(self, kind, msg, fn, span, state, stack):
        self.kind, self.msg, self.fn, self.span, self.state, self.stack = kind, msg, fn, span, state, stack

    def __repr__(self):
        return "%s: %s at %s (%s)" % (self.kind, self.msg, self.span, self.fn)

    def key(self):
        return (self.kind, self.fn, self.msg)


UINT = {"U8": 1, "U16": 2, "U32": 4, "U64": 8, "U128": 16, "Usize": 8}
INT = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16, "Isize": 8}


FEATURE_CHAIN = ["sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2"]


def implied_features(f):
    """what a CPU on which std's detection macro reported `f` also has"""
    f = f.replace("_", ".")
    if f in FEATURE_CHAIN:
        return set(FEATURE_CHAIN[:FEATURE_CHAIN.index(f) + 1])
    return {f}


class Interp:
    def __init__(self, prog):
        self.p = prog
        BIG[0], PB[0] = prog.big, prog.ptr
        self.next = 1
        self.outcomes = []
        self.early = None     # told of each outcome on a path that is not a guess
        self.stack = []
        self.intercepts = []
        self.icache = {}
        self.globals = {}
        self.merge = False
        self.cur = None
        self.steps = 0
        self.budget = None
        self.visited = set()
        self.sites = 0
        self.loops = 0
        self.acc_ok = 0
        self.quiet = 0
        self.deadline = None
        self.fresh_n = 0
        self.loopdepth = 0
        self.tf_cache = {}
        self.align_ok = 0
        self.qsplit = 0                # quotients of at most this spread are split into cases
        self.watch = None           # secret.Watch: told about branches, addresses and comparisons
        self.small_counts = False   # byte counters are known to stay within their low word
        self.asserts_ok = 0
        self.panics = set()
        self.tf_entries = {}
        self.baseline = frozenset(("fxsr", "sse", "sse2", "x87")) | self.p.features

    # ------------------------------------------------------------------ utilities
    def fresh(self, name, w):
        self.fresh_n += 1
        return T.sym("%s#%d" % (name, self.fresh_n), w)

    def new_obj(self, st, size, cells=None, name=None, kind="mem", align=1):
        oid = self.next
        self.next += 1
        st.mem[oid] = Obj(kind, size, cells if cells is not None else {}, st.tok, name, align)
        return oid

    def base_obj(self, st, name, size, disp=None):
        """an input array; `disp` is where it starts in the stream it is part of"""
        oid = self.next
        self.next += 1
        st.mem[oid] = Obj("base", size, {}, st.tok, name, 1, disp)
        return oid

    def where(self):
        if not self.stack:
            return ("?", "?")
        fr = self.stack[-1]
        return (fr.fn.name, self.p.span(fr.sp))

    def repo_where(self):
        """innermost frame that belongs to the repository"""
        for fr in reversed(self.stack):
            sp = self.p.span(fr.sp)
            if sp.startswith("/repo") or "/repo/" in sp:
                return (fr.fn.name, sp)
        return self.where()

    def note(self, st, kind, msg):
        fn, span = self.repo_where()
        o = Outcome(kind, msg, fn, span, st, [f.fn.name for f in self.stack])
        self.outcomes.append(o)
        if self.early is not None and not self.trying:
            self.early(o)

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.globals.get(oid)
            if o is None:
                if isinstance(oid, tuple) and oid[0] == "g":
                    o = self.global_obj(oid)
                else:
                    raise Imprecise("dangling object %r" % (oid,))
        return o

    def global_obj(self, oid):
        a = self.p.allocs.get(str(oid[1]))
        if a is None:
            raise Imprecise("no alloc %r" % (oid,))
        if "memory" in a:
            m = a["memory"]
        elif "static" in a:
            m = a.get("init")
            if m is None or m.get("mutability") == "Mut":
                raise Imprecise("mutable static " + a["static"])
        elif "vtable" in a:
            v = a["vtable"]
            m = v.get("memory") if isinstance(v, dict) else None
            if m is None:
                raise Imprecise("vtable")
        else:
            raise Imprecise("alloc kind %r" % (list(a),))
        o = Obj("const", len(m["bytes"]), {}, None, "const%s" % oid[1], m.get("align", 1), m)
        self.globals[oid] = o
        return o

    def const_ptr(self, aid, off):
        a = self.p.allocs.get(str(aid))
        if a and "fn" in a:
            return FnP(a["fn"])
        return Ptr(("g", aid), off)

    def const_read(self, m, off, n, scalar):
        by = m["bytes"]
        prov = {p[0]: p[1] for p in m["provenance"]["ptrs"]}

        def num(o, k):
            v = 0
            for i in range(k):
                b = by[o + i]
                if b is None:
                    b = 0
                v |= b << (8 * (k - 1 - i if BIG[0] else i))
            return v
        if scalar:
            if off in prov and n == PB[0]:
                a = prov[off]
                while isinstance(a, (list, dict)):
                    a = a[0] if isinstance(a, list) else next(iter(a.values()))
                return self.const_ptr(a, num(off, PB[0]))
            if n and all(by[off + i] is None for i in range(n)):
                return UNDEF
            return num(off, n)
        cells = {}
        o = off
        end = off + n
        while o < end:
            if o in prov:
                a = prov[o]
                while isinstance(a, (list, dict)):
                    a = a[0] if isinstance(a, list) else next(iter(a.values()))
                cells[o - off] = (PB[0], self.const_ptr(a, num(o, PB[0])))
                o += PB[0]
                continue
            if by[o] is None:
                o += 1
                continue
            s = o
            while o < end and o not in prov and by[o] is not None:
                o += 1
            # one value cell: an integer of any size splits freely
            cells[s - off] = (o - s, num(s, o - s))
        return Blob(n, cells)

    # ------------------------------------------------------------------ memory
    def check_bounds(self, st, ptr, n, what, align=1):
        o = self.getobj(st, ptr.o)
        size = o.size
        off = ptr.off
        c = st.cons
        if self.watch is not None and not (type(off) is int and type(n) is int):
            self.watch.address(self, st, off, n)
        if type(n) is int and n == 0:
            return o
        ok = True
        if ptr.rng is not None:
            lo, hi = ptr.rng
        else:
            lo, hi = 0, size
        if hi is not None:
            end = shift(off, n)
            ok = c_le(c, lo, off) and c_le(c, end, hi)
        if not ok:
            msg = "%s of %s byte(s) at offset %s of an object of %s byte(s)" % (
                what, n if type(n) is int else T.show_form(n), off if type(off) is int else T.show_form(off),
                size if not isinstance(size, tuple) else T.show_form(size))
            # the two ways to be out of bounds, as conditions on the path
            for good in (T.le0(fsub(fm(lo), fm(off))), T.le0(fsub(fm(end), fm(hi)))):
                if good is True:
                    continue
                if good is False:
                    self.note(st, "bounds", msg)
                    continue
                bad = st.fork()
                if bad.assume(good, False):
                    self.note(bad, "bounds", msg)
        else:
            self.acc_ok += 1
        if align > 1:
            self.check_align(st, ptr, o, align, what)
        return o

    def check_align(self, st, ptr, o, align, what):
        off = fm(ptr.off)
        self.align_ok += 1
        if o.align % align == 0 and off[0] % align == 0 and all(k % align == 0 for _, k in off[1]):
            return
        self.align_ok -= 1
        self.note(st, "align", "%s requiring %d-byte alignment" % (what, align))

    def load(self, st, ptr, n, scalar, align=1):
        if type(ptr) is Sel:
            r = st.decide(ptr.c)
            if r is not None:
                return self.load(st, ptr.a if r else ptr.b, n, scalar, align)
            a = self.load(st, ptr.a, n, scalar, align)
            b = self.load(st, ptr.b, n, scalar, align)
            return vite(ptr.c, a, b, n)
        if type(ptr) is not Ptr:
            if n == 0:
                return Blob(0, {})
            raise Imprecise("load through %r" % (ptr,))
        if n == 0:
            return Blob(0, {})
        o = self.check_bounds(st, ptr, n, "read", align)
        return self.load_raw(st, o, ptr, n, scalar)

    def load_raw(self, st, o, ptr, n, scalar):
        off = ptr.off
        if o.kind == "mem":
            if type(off) is int:
                return cells_read(st, o.cells, off, n, scalar)
            # symbolic offset
            lo, hi = ptr.rng or (0, o.size)
            if type(lo) is int and type(hi) is int:
                a = o.cells.get(lo)
                if a is not None and a[0] == hi - lo and type(a[1]) is Arr and (scalar or n <= 16):
                    return arr_read(st, a[1], shift(off, -lo), n)
                v = self.indexed(st, o, lo, hi, off, n, scalar)
                if v is not None:
                    return v
                if scalar or n <= 16:
                    arr = to_arr(st, o.cells, lo, hi - lo)
                    return arr_read(st, arr, shift(off, -lo), n)
            raise Imprecise("symbolic read")
        if o.kind == "base":
            if o.data is not None:
                off = shift(off, o.data)
            if scalar or n <= 16:
                return native(T.ld(o.name, fm(off), n), n)
            return Blob(n, {0: (n, Arr(n, ((0, n, "ld", o.name, off),)))})
        if o.kind == "const":
            if type(off) is int:
                return self.const_read(o.data, off, n, scalar)
            # elements of n bytes from a constant table
            lo, hi = ptr.rng or (0, o.size)
            f = fm(off)
            if scalar and n <= 16 and type(lo) is int and type(hi) is int and hi - lo <= 4096 and f[1] and all(k % n == 0 for _, k in f[1]) and (f[0] - lo) % n == 0:
                tab = tuple(self.const_read(o.data, lo + i, n, True) for i in range(0, hi - lo - n + 1, n))
                if all(type(x) is int for x in tab):
                    idx = ((f[0] - lo) // n, tuple((t, k // n) for t, k in f[1]))
                    return T.zext(T.tab(tab, T.lin_form(8 * PB[0], idx)), 8 * n)
            raise Imprecise("symbolic index into a constant table")
        raise Imprecise("load from " + o.kind)

    def indexed(self, st, o, lo, hi, off, n, scalar):
        """element read at a symbolic index from a table of few elements: fork on the index"""
        f = fm(off)
        a = st.cons.minmax(f, "min")
        b = st.cons.minmax(f, "max")
        if b - a <= 16 * n and b >= a:
            g = fsub(f, F(a))
            step = n
            if all(k % step == 0 for _, k in g[1]):
                raise ForkNeeded(T.eq0(g))
        return None

    def store(self, st, ptr, n, v, align=1):
        if type(ptr) is Sel:
            r = st.decide(ptr.c)
            if r is None:
                raise ForkNeeded(ptr.c)
            ptr = ptr.a if r else ptr.b
        if n == 0:
            return
        if type(ptr) is not Ptr:
            raise Imprecise("store through %r" % (ptr,))
        o = self.check_bounds(st, ptr, n, "write", align)
        if o.kind != "mem":
            self.note(st, "rowrite", "write to a read-only object")
            raise Imprecise("store to " + o.kind)
        o = st.own(ptr.o)
        off = ptr.off
        if type(off) is int:
            cells_write(st, o.cells, off, n, v)
            return
        if type(v) is Blob:
            if len(v.cells) == 1 and 0 in v.cells and v.cells[0][0] == n:
                v = v.cells[0][1]
            else:
                v2 = cells_read(st, v.cells, 0, n, False)
                self.sym_write(st, ptr, shift(off, n), "val", (v2, n), fscale(fm(off), -1))
                return
        if type(v) is Arr:
            self.sym_write(st, ptr, shift(off, n), "arr", v, fscale(fm(off), -1))
        else:
            self.sym_write(st, ptr, shift(off, n), "val", (v, n), fscale(fm(off), -1))

    def region(self, st, ptr, end):
        o = st.own(ptr.o)
        if ptr.rng is not None:
            lo, hi = ptr.rng
        else:
            lo, hi = 0, o.size
        if type(lo) is not int or type(hi) is not int:
            raise Imprecise("write into object of symbolic size")
        cell = o.cells.get(lo)
        if not (cell is not None and cell[0] == hi - lo and type(cell[1]) is Arr):
            # narrow to what can be reached
            a = max(lo, st.cons.minmax(fm(ptr.off), "min"))
            z = min(hi, st.cons.minmax(fm(end), "max"))
            if ptr.rng is None:
                lo, hi = a, z
                for k, (sz, v) in o.cells.items():
                    if k < z and a < k + sz and type(v) is Arr:
                        lo = min(lo, k)
                        hi = max(hi, k + sz)
        return o, lo, hi

    def sym_write(self, st, ptr, end, kind, payload, delta):
        """bytes x of [ptr.off,end) become payload[x+delta]  (object coordinates)"""
        o, lo, hi = self.region(st, ptr, end)
        arr = to_arr(st, o.cells, lo, hi - lo)
        arr = arr_write(st, arr, shift(ptr.off, -lo), shift(end, -lo), kind, payload, shift(delta, lo))
        cells_write(st, o.cells, lo, hi - lo, arr)

    def memcpy(self, st, dst, src, n):
        """n: int or form (bytes)"""
        n = ival(n)
        if type(n) is int and n == 0:
            return
        if type(n) is not int:
            if st.cons.eq(n):
                return
        for q in (src, dst):
            if type(q) is Sel:
                raise ForkNeeded(q.c) if st.decide(q.c) is None else Imprecise("sel")
        if type(src) is not Ptr or type(dst) is not Ptr:
            # a dangling pointer is only ever used with length zero
            f = fm(n)
            r = st.decide(T.eq0(f))
            if r is None:
                raise ForkNeeded(T.eq0(f))
            raise Imprecise("memcpy through %r %r" % (dst, src))
        if type(n) is int:
            so = self.check_bounds(st, src, n, "read")
            if type(src.off) is int or so.kind == "base":
                v = self.load_raw(st, so, src, n, n <= 16 and so.kind == "base")
                self.check_bounds(st, dst, n, "write")
                if type(dst.off) is int:
                    o = st.own(dst.o)
                    if o.kind != "mem":
                        raise Imprecise("memcpy into " + o.kind)
                    cells_write(st, o.cells, dst.off, n, v)
                    return
        so = self.check_bounds(st, src, n, "read")
        do = self.check_bounds(st, dst, n, "write")
        if do.kind != "mem":
            raise Imprecise("memcpy into " + do.kind)
        end = shift(dst.off, n)
        delta = shift(fscale(fm(dst.off), -1), src.off)
        if so.kind == "base":
            if so.data is not None:
                delta = shift(delta, so.data)
            self.sym_write(st, dst, end, "ld", so.name, delta)
            return
        if so.kind == "const":
            b = so.data["bytes"]
            if all(x == b[0] for x in b):
                self.sym_write(st, dst, end, "fill", b[0], 0)
                return
            blob = self.const_read(so.data, 0, so.size, False)
            self.sym_write(st, dst, end, "val", (blob, so.size), delta)
            return
        # source is a memory object
        rl = src.rng
        if rl is None:
            a = st.cons.minmax(fm(src.off), "min")
            z = min(so.size, st.cons.minmax(fm(shift(src.off, n)), "max"))
            # widen to whole byte arrays
            for k, (sz, v) in so.cells.items():
                if type(v) is Arr and k < z and a < k + sz:
                    a = min(a, k)
                    z = max(z, k + sz)
            rl = (a, z)
        arr = to_arr(st, so.cells, rl[0], rl[1] - rl[0])
        s_rel = shift(src.off, -rl[0])
        e_rel = shift(s_rel, n)
        # a single layer covering the source range is copied as such
        for s, e, k, p, d in arr.layers:
            if c_le(st.cons, s, s_rel) and c_le(st.cons, e_rel, e):
                self.sym_write(st, dst, end, k, p, shift(shift(fscale(fm(dst.off), -1), s_rel), d) if k != "fill" else 0)
                return
            if c_le(st.cons, e, s_rel) or c_le(st.cons, e_rel, s):
                continue
            break
        self.sym_write(st, dst, end, "arr", arr, shift(fscale(fm(dst.off), -1), s_rel))

    def copy_no(self, st, src, dst, nb):
        if type(src) is Ptr and type(dst) is Ptr and src.o == dst.o:
            a, b = fm(src.off), fm(dst.off)
            e = fm(nb)
            if not (st.cons.le(fsub(fadd(a, e), b)) or st.cons.le(fsub(fadd(b, e), a))):
                self.note(st, "overlap", "copy_nonoverlapping between possibly overlapping ranges")
        self.memcpy(st, dst, src, nb)

    def memset(self, st, dst, byte, n):
        n = ival(n)
        if type(n) is int and n == 0:
            return
        if type(dst) is not Ptr:
            raise Imprecise("memset")
        o = self.check_bounds(st, dst, n, "write")
        if type(n) is int and type(dst.off) is int:
            o = st.own(dst.o)
            if type(byte) is int and n <= 16:
                v = int.from_bytes(bytes([byte]) * n, "little")
                cells_write(st, o.cells, dst.off, n, v)
            else:
                cells_write(st, o.cells, dst.off, n, Arr(n, ((0, n, "fill", byte, 0),)))
            return
        self.sym_write(st, dst, shift(dst.off, n), "fill", byte, 0)

    # ------------------------------------------------------------------ decoding
    def decode(self, fn):
        if fn.cfg is not None:
            return fn.cfg
        body = self.p.body(fn)
        if body is None:
            return None
        C = Code()
        C.locals = [l["ty"] for l in body["locals"]]
        C.argc = body["arg_count"]
        C.spread = body.get("spread_arg")
        C.blocks = []
        for bl in body["blocks"]:
            stmts = []
            for s in bl["statements"]:
                k = s["kind"]
                sp = s["source_info"]["span"]
                if isinstance(k, str):
                    continue
                (kk, v), = k.items()
                if kk == "Assign":
                    stmts.append(("a", self.place(C, v[0]), self.rvalue(C, v[1]), sp))
                elif kk == "StorageDead":
                    stmts.append(("d", v, None, sp))
                elif kk == "StorageLive":
                    stmts.append(("l", v, None, sp))
                elif kk == "SetDiscriminant":
                    stmts.append(("s", self.place(C, v["place"]), v["variant_index"], sp))
                elif kk == "Intrinsic":
                    if "CopyNonOverlapping" in v:
                        cn = v["CopyNonOverlapping"]
                        stmts.append(("c", [self.operand(C, cn[x]) for x in ("src", "dst", "count")], self.p.ty(self.optype(C, cn["src"]).elem).size, sp))
                    elif "Assume" in v:
                        stmts.append(("u", self.operand(C, v["Assume"]), None, sp))
            t = bl["terminator"]
            C.blocks.append((stmts, self.term(C, t["kind"]), t["source_info"]["span"]))
        cfg(C)
        fn.cfg = C
        return C

    def place(self, C, pl):
        """-> (local, steps, ty, fast) ; steps: ('f',off) ('*',ty) ('i',local,stride,n) ('k',off,fromend,stride) ('sub',..)"""
        ty = C.locals[pl["local"]]
        steps = []
        var = None
        for pr in pl["projection"]:
            if pr == "Deref":
                t = self.p.ty(ty)
                if t.k not in ("ref", "ptr"):
                    raise Imprecise("deref of " + t.s)
                ty = t.elem
                steps.append(("*", ty, self.p.fat(ty)))
                var = None
                continue
            (k, v), = pr.items()
            if k == "Field":
                t = self.p.ty(ty)
                if var is not None:
                    off = t.variants[var][2][v[0]][0] if t.variants else t.fields[v[0]][0]
                else:
                    if t.fields is None:
                        raise Imprecise("field of " + t.s)
                    off = t.fields[v[0]][0]
                ty = v[1]
                var = None
                if steps and steps[-1][0] == "f":
                    steps[-1] = ("f", steps[-1][1] + off)
                else:
                    steps.append(("f", off))
            elif k == "Downcast":
                var = v
                if isinstance(var, list):
                    var = var[0]
            elif k == "Index":
                t = self.p.ty(ty)
                e = self.p.ty(t.elem)
                steps.append(("i", v, e.size, t.n * e.size if t.k == "array" else None))
                ty = t.elem
            elif k == "ConstantIndex":
                t = self.p.ty(ty)
                e = self.p.ty(t.elem)
                o = v["offset"]
                if v["from_end"]:
                    if t.k == "array":
                        steps.append(("f", (t.n - o) * e.size))
                    else:
                        steps.append(("fe", o * e.size, e.size))
                else:
                    steps.append(("f", o * e.size))
                ty = t.elem
            elif k == "Subslice":
                raise Imprecise("subslice")
            elif k in ("OpaqueCast", "Subtype"):
                ty = v
            else:
                raise Imprecise("projection " + k)
        t = self.p.ty(ty)
        fast = None
        if not steps:
            fast = 0
        elif len(steps) == 1 and steps[0][0] == "f":
            fast = steps[0][1]
        size = t.size
        return (pl["local"], tuple(steps), t, fast, size)

    def operand(self, C, op):
        if isinstance(op, str):
            return ("k", 0)
        (k, v), = op.items()
        if k in ("Copy", "Move"):
            return ("p", self.place(C, v))
        if k == "Constant":
            return ("k", self.constant(v["const_"]))
        if k == "RuntimeChecks":
            return ("k", 0)
        raise Imprecise("operand " + k)

    def boolty(self):
        t = getattr(self, "_bt", None)
        if t is None:
            t = Ty()
            for x in Ty.__slots__:
                setattr(t, x, None)
            t.k, t.s, t.size, t.align, t.scalar = "bool", "bool", 1, 1, True
            self._bt = t
        return t

    def optype(self, C, op):
        if isinstance(op, str):
            return self.boolty()
        (k, v), = op.items()
        if k in ("Copy", "Move"):
            return self.place(C, v)[2]
        if k == "Constant":
            return self.p.ty(v["const_"]["ty"])
        return self.boolty()

    def constant(self, c):
        kind = c["kind"]
        t = self.p.ty(c["ty"])
        if kind == "ZeroSized" or (isinstance(kind, str) and kind == "ZeroSized"):
            return Blob(0, {})
        if isinstance(kind, dict) and "Allocated" in kind:
            a = kind["Allocated"]
            n = len(a["bytes"])
            v = self.const_read(a, 0, n, t.scalar)
            return norm(v)
        if isinstance(kind, dict) and "Ty" in kind:
            raise Imprecise("ty const")
        raise Imprecise("constant %s" % str(kind)[:80])

    def rvalue(self, C, r):
        if isinstance(r, str):
            raise Imprecise("rvalue " + r)
        (k, v), = r.items()
        if k == "Use":
            op = v[0] if isinstance(v, list) else v
            return ("use", self.operand(C, op))
        if k in ("BinaryOp", "CheckedBinaryOp"):
            ty = self.optype(C, v[1])
            ty2 = self.optype(C, v[2])
            return ("bin" if k == "BinaryOp" else "cbin", v[0], self.operand(C, v[1]), self.operand(C, v[2]), ty, ty2)
        if k == "UnaryOp":
            return ("un", v[0], self.operand(C, v[1]), self.optype(C, v[1]))
        if k == "Cast":
            ck = v[0]
            if isinstance(ck, dict):
                (a, b), = ck.items()
                ck = a + ":" + (b if isinstance(b, str) else next(iter(b)) if isinstance(b, dict) else str(b))
            return ("cast", ck, self.operand(C, v[1]), self.optype(C, v[1]), self.p.ty(v[2]))
        if k in ("Ref", "AddressOf"):
            return ("ref", self.place(C, v[-1]))
        if k == "Aggregate":
            kind, ops = v
            ops2 = [self.operand(C, o) for o in ops]
            return ("agg", kind, ops2, [self.optype(C, o) for o in ops])
        if k == "Discriminant":
            return ("disc", self.place(C, v))
        if k == "Repeat":
            n = v[1]
            n = const_len(n)
            return ("rep", self.operand(C, v[0]), n, self.optype(C, v[0]))
        if k == "Len":
            return ("len", self.place(C, v))
        if k == "CopyForDeref":
            return ("use", ("p", self.place(C, v)))
        raise Imprecise("rvalue " + k)

    def term(self, C, k):
        if isinstance(k, str):
            return (k,)
        (kk, v), = k.items()
        if kk == "Goto":
            return ("Goto", v["target"])
        if kk == "SwitchInt":
            t = v["targets"]
            ty = self.optype(C, v["discr"])
            return ("Switch", self.operand(C, v["discr"]), [(int(a), b) for a, b in t["branches"]], t["otherwise"], ty)
        if kk == "Assert":
            msg = v["msg"]
            mk = msg if isinstance(msg, str) else next(iter(msg))
            if isinstance(msg, dict) and mk == "Overflow":
                mk = "Overflow(" + str(msg[mk][0]) + ")"
            return ("Assert", self.operand(C, v["cond"]), v["expected"], mk, v["target"])
        if kk == "Call":
            f = v["func"]
            (fk, fv), = f.items()
            callee = None
            fop = None
            if fk == "Constant":
                t = self.p.ty(fv["const_"]["ty"])
                callee = t
            else:
                fop = self.operand(C, f)
                t = self.optype(C, f)
                if getattr(t, "inst", None):
                    callee = t      # a function item: its type names the callee
            return ("Call", callee, fop, [self.operand(C, a) for a in v["args"]], self.place(C, v["destination"]), v["target"], [self.optype(C, a) for a in v["args"]])
        if kk == "Drop":
            return ("Drop", self.place(C, v["place"]), v["target"])
        if kk == "InlineAsm":
            import re
            text = "".join(re.findall(r'String\("((?:[^"\\]|\\.)*)"\)|(Placeholder)', v["template"]) and
                           [a or "@" for a, _ in re.findall(r'String\("((?:[^"\\]|\\.)*)"\)|(Placeholder)', v["template"])])
            moves = None
            if not re.sub(r"/\*.*?\*/", "", text).strip():
                # no instruction: registers keep their values
                moves = []
                for o in v["operands"]:
                    if o["in_value"] is not None and o["out_place"] is not None:
                        moves.append((self.operand(C, o["in_value"]), self.place(C, o["out_place"])))
                    elif o["out_place"] is not None:
                        moves = None
                        break
            return ("Asm", moves, v["destination"], text)
        raise Imprecise("terminator " + kk)

    # ------------------------------------------------------------------ evaluation
    def rd_local(self, st, fr, l):
        return fr.base + l

    def addr(self, st, fr, pl):
        """address of a place: (Ptr|Sel|int, meta)"""
        local, steps, ty, fast, size = pl
        p = Ptr(fr.base + local, 0)
        meta = None
        if fast is not None:
            return Ptr(fr.base + local, fast), None
        for s in steps:
            k = s[0]
            if k == "*":
                if s[2]:
                    v = self.load(st, p, 2 * PB[0], False)
                    p = blobget(st, v, 0, PB[0])
                    meta = blobget(st, v, PB[0], PB[0])
                else:
                    p = self.load(st, p, PB[0], True)
                    if type(p) is Blob:
                        p = blobget(st, p, 0, PB[0])
                    meta = None
                if p is UNDEF:
                    raise Imprecise("undefined pointer")
            elif k == "f":
                p = padd(p, s[1])
                # the tail field of an unsized struct keeps the metadata
            elif k == "i":
                iv = self.load(st, Ptr(fr.base + s[1], 0), PB[0], True)
                f = st.exact(iv)
                if s[3] is not None and type(p) is Ptr and type(p.off) is int:
                    p = Ptr(p.o, p.off, (p.off, p.off + s[3]))
                p = padd(p, ival(fscale(f, s[2])))
                meta = None
            elif k == "fe":
                f = fsub(fscale(st.exact(meta), s[2]), F(s[1]))
                p = padd(p, ival(f))
                meta = None
            else:
                raise Imprecise("step " + k)
        return p, meta

    def rd(self, st, fr, pl):
        local, steps, ty, fast, size = pl
        if size == 0:
            return Blob(0, {})
        if fast is not None:
            o = st.mem.get(fr.base + local)
            if o is None:
                return UNDEF
            x = o.cells.get(fast)
            if x is not None and x[0] == size:
                v = x[1]
                if type(v) is Arr and ty.scalar:
                    return arr_read(st, v, 0, size)
                return v
            return norm(cells_read(st, o.cells, fast, size, ty.scalar))
        p, meta = self.addr(st, fr, pl)
        al = ty.align if steps[-1][0] == "*" or any(s[0] == "*" for s in steps) else 1
        return norm(self.load(st, p, size, ty.scalar, al))

    def wr(self, st, fr, pl, v):
        local, steps, ty, fast, size = pl
        if size == 0:
            return
        if fast is not None:
            oid = fr.base + local
            o = st.mem.get(oid)
            if o is None:
                lt = self.p.ty(fr.code.locals[local])
                st.mem[oid] = o = Obj("mem", lt.size, {}, st.tok, "_%d" % local, lt.align)
            elif o.own is not st.tok:
                o = st.own(oid)
            cells_write(st, o.cells, fast, size, v)
            return
        p, meta = self.addr(st, fr, pl)
        al = ty.align if any(s[0] == "*" for s in steps) else 1
        self.store(st, p, size, v, al)

    def op(self, st, fr, o):
        if o[0] == "k":
            return o[1]
        return self.rd(st, fr, o[1])

    def num(self, st, v, w):
        """value as number of width w"""
        ty = type(v)
        if ty is int:
            return v
        if ty is bool:
            return int(v)
        if ty is T.T:
            if v.w == 1 and w != 1:
                return T.ite(v, 1, 0, w)
            return v
        if ty is Blob:
            return tonum(cells_read(st, v.cells, 0, v.size, True), v.size)
        if ty is Arr:
            return arr_read(st, v, 0, v.size)
        if v is UNDEF:
            return T.sym("!undef", w)
        return v

    def ev(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.op(st, fr, rv[1])
        if k == "bin":
            return self.binop(st, rv[1], self.op(st, fr, rv[2]), self.op(st, fr, rv[3]), rv[4], rv[5])
        if k == "cbin":
            a = self.op(st, fr, rv[2])
            b = self.op(st, fr, rv[3])
            v, o = self.checked(st, rv[1], a, b, rv[4])
            n = rv[4].size
            off = dty.fields[1][0]
            return Blob(dty.size, {0: (n, v), off: (1, o)})
        if k == "ref":
            pl = rv[1]
            p, meta = self.addr(st, fr, pl)
            if not pl[1] and st.mem.get(fr.base + pl[0]) is None:
                lt = self.p.ty(fr.code.locals[pl[0]])
                st.mem[fr.base + pl[0]] = Obj("mem", lt.size, {}, st.tok, "_%d" % pl[0], lt.align)
            elif pl[3] is not None and st.mem.get(fr.base + pl[0]) is None:
                lt = self.p.ty(fr.code.locals[pl[0]])
                st.mem[fr.base + pl[0]] = Obj("mem", lt.size, {}, st.tok, "_%d" % pl[0], lt.align)
            if meta is not None and self.p.fat(pl[2].id):
                return fat(p, meta)
            return p
        if k == "cast":
            return self.cast(st, rv[1], self.op(st, fr, rv[2]), rv[3], rv[4])
        if k == "agg":
            return self.agg(st, fr, rv, dty)
        if k == "disc":
            return self.disc(st, fr, rv[1], dty)
        if k == "un":
            v = self.op(st, fr, rv[2])
            if rv[1] == "PtrMetadata":
                if type(v) is Blob and v.size == 2 * PB[0]:
                    return blobget(st, v, PB[0], PB[0])
                if type(v) is Sel:
                    raise ForkNeeded(v.c)
                return Blob(0, {})
            t = rv[3]
            if rv[1] == "Not":
                if t.k == "bool":
                    return bnotv(v)
                v = self.num(st, v, 8 * t.size)
                return T.wnot(8 * t.size, v)
            if rv[1] == "Neg":
                return T.sub(8 * t.size, 0, self.num(st, v, 8 * t.size))
            raise Imprecise("unary " + rv[1])
        if k == "rep":
            v = self.op(st, fr, rv[1])
            n = rv[2]
            es = rv[3].size
            if es == 0 or n == 0:
                return Blob(0, {})
            if es == 1 and n > 8:
                return Blob(n, {0: (n, Arr(n, ((0, n, "fill", v, 0),)))})
            if n * es > 1 << 16:
                raise Imprecise("huge repeat")
            cells = {}
            for i in range(n):
                if type(v) is Blob:
                    for o, c in v.cells.items():
                        cells[i * es + o] = c
                else:
                    cells[i * es] = (es, v)
            return Blob(n * es, cells)
        if k == "len":
            p, meta = self.addr(st, fr, rv[1])
            t = rv[1][2]
            if t.k == "array":
                return t.n
            return meta
        raise Imprecise("rvalue " + k)

    def agg(self, st, fr, rv, dty):
        kind, ops, tys = rv[1], rv[2], rv[3]
        vals = [self.op(st, fr, o) for o in ops]
        if isinstance(kind, str):
            kk, kv = kind, None
        else:
            (kk, kv), = kind.items()
        size = dty.size
        if kk == "Array":
            es = self.p.ty(dty.elem).size
            offs = [i * es for i in range(len(vals))]
        elif kk == "RawPtr":
            if tys[1].size == 0:
                return vals[0]
            offs = [0, PB[0]]
        elif kk in ("Tuple", "Closure"):
            offs = [o for o, _ in dty.fields]
        elif kk == "Adt":
            var = kv[1]
            if isinstance(var, list):
                var = var[0]
            if dty.variants is not None:
                offs = [o for o, _ in dty.variants[var][2]]
            elif dty.raw.get("adt") == "Union":
                offs = [0]
            else:
                offs = [o for o, _ in dty.fields]
        else:
            raise Imprecise("aggregate " + kk)
        cells = {}
        for o, v, t in zip(offs, vals, tys):
            put(cells, o, t.size, v)
        b = Blob(size, cells)
        if kk == "Adt" and dty.variants is not None:
            self.set_tag(st, b.cells, dty, kv[1] if not isinstance(kv[1], list) else kv[1][0])
        if size == 0:
            return Blob(0, {})
        return norm(b)

    def set_tag(self, st, cells, t, var):
        off, sz, enc = t.tag
        if enc == "Direct":
            cells[off] = (sz, t.variants[var][1] & ((1 << (8 * sz)) - 1))
            return
        n = enc["Niche"]
        if var == n["untagged_variant"]:
            return
        start = n["niche_variants"]["start"]
        val = (n["niche_start"] + (var - start)) & ((1 << (8 * sz)) - 1)
        cells_write(st, cells, off, sz, val)

    def disc(self, st, fr, pl, dty):
        t = pl[2]
        if t.variants is None:
            return t.discr if t.discr is not None else 0
        p, meta = self.addr(st, fr, pl)
        off, sz, enc = t.tag
        v = self.load(st, padd(p, off), sz, True)
        return self.disc_of(st, t, v, dty)

    def disc_of(self, st, t, v, dty):
        off, sz, enc = t.tag
        w = 8 * dty.size
        if enc == "Direct":
            if type(v) is T.T:
                if v.w == 1:
                    return T.ite(v, 1, 0, w)
                return self.widen(st, v, w)
            if type(v) is bool:
                return int(v)
            if type(v) is int:
                return v
            raise Imprecise("tag %r" % (v,))
        n = enc["Niche"]
        un = n["untagged_variant"]
        s, e = n["niche_variants"]["start"], n["niche_variants"]["end"]
        return self.niche(st, t, v, n, un, s, e, w)

    def niche(self, st, t, v, n, un, s, e, w):
        und = t.variants[un][1]
        if type(v) is Sel:
            a = self.niche(st, t, v.a, n, un, s, e, w)
            b = self.niche(st, t, v.b, n, un, s, e, w)
            return T.ite(v.c, a, b, w)
        if type(v) is Ptr or type(v) is FnP:
            return und
        if type(v) is bool:
            v = int(v)
        if type(v) is int:
            r = (v - n["niche_start"])
            tsz = t.tag[1]
            r &= (1 << (8 * tsz)) - 1
            if r <= e - s:
                return t.variants[s + r][1]
            return und
        if type(v) is T.T:
            if v.w == 1:
                return und
            f = st.exact(v)
            res = und
            for i in range(s, e + 1):
                c = T.eq0(fsub(f, F(n["niche_start"] + (i - s))))
                r = st.decide(c)
                if r is True:
                    return t.variants[i][1]
                if r is None:
                    res = T.ite(c, t.variants[i][1], res, w)
            return res
        raise Imprecise("niche of %r in %s tag %r" % (v, t.s, t.tag[:2]))

    # ---- arithmetic
    def widen(self, st, v, w):
        if type(v) is not T.T:
            return v
        if v.w == 1:
            return T.ite(v, 1, 0, w)
        if v.w >= w:
            return T.trunc(v, w)
        if v.op == "lin":
            f = st.exact(v)
            if not (len(f[1]) == 1 and f[1][0][0] is v):
                return T.lin(w, f[0], f[1])
        return T.zext(v, w)

    def narrow(self, st, v, w):
        if type(v) is not T.T:
            return v & ((1 << w) - 1)
        if v.w == 1:
            return T.ite(v, 1, 0, w)
        return T.trunc(v, w)

    def isnum(self, st, v):
        return type(v) is int or type(v) is bool or type(v) is T.T

    def is_signed(self, t):
        return t is not None and t.k == "int"

    def wrapv(self, st, w, f):
        """value of width w congruent to the integer form f"""
        if not f[1]:
            return f[0] & ((1 << w) - 1)
        return T.lin(w, f[0], f[1])

    def binop(self, st, op, a, b, t, t2):
        if op == "Offset":
            es = self.p.ty(t.elem).size
            return self.ptr_offset(st, a, b, es, t2)
        if t.k in ("ref", "ptr", "fnptr") or type(a) in (Ptr, FnP, Sel) or type(b) in (Ptr, FnP, Sel):
            return self.ptrop(st, op, a, b, t)
        w = 8 * t.size
        if t.k == "bool":
            return self.boolop(st, op, a, b)
        a = self.num(st, a, w)
        b = self.num(st, b, 8 * t2.size if t2 else w)
        if type(a) in (Ptr,) or type(b) in (Ptr,):
            return self.ptrop(st, op, a, b, t)
        if op in ("Add", "AddUnchecked"):
            return T.add(w, a, b)
        if op in ("Sub", "SubUnchecked"):
            return T.sub(w, a, b)
        if op in ("Mul", "MulUnchecked"):
            return self.mulv(st, w, a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, a, b, t)
        if op == "BitXor":
            return T.xor(w, a, b)
        if op == "BitAnd":
            return self.andv(st, w, a, b)
        if op == "BitOr":
            return T.wor(w, a, b)
        if op in ("Shl", "ShlUnchecked"):
            if type(b) is not int:
                b = self.const_or_fork(st, b, w)
            return T.shl(w, a, b % w)
        if op in ("Shr", "ShrUnchecked"):
            if type(b) is not int:
                b = self.const_or_fork(st, b, w)
            b %= w
            if self.is_signed(t):
                if type(a) is int:
                    if a >> (w - 1):
                        a -= 1 << w
                    return (a >> b) & ((1 << w) - 1)
                f = st.exact(a)
                if not st.cons.le(fadd(f, F(1 - (1 << (w - 1))))):
                    raise Imprecise("signed shift")
            if type(a) is T.T and a.op in ("lin", "sym") and self.numeric(a):
                f = st.exact(a)
                if b <= 16:
                    q, r = self.divmod(st, f, 1 << b)
                    return self.wrapv(st, w, q)
            if self.small_counts and b == w // 2 and type(a) is T.T and a.op in ("lin", "sym") and self.numeric(a):
                if st.cons.le(fadd(st.exact(a), F(1 - (1 << b)))):
                    return 0
            # (no range reasoning otherwise: the high word of a counter keeps its own normal form)
            return T.shr(w, a, b)
        if op in ("Div", "Rem"):
            if type(a) is int and type(b) is int:
                if b == 0:
                    raise Imprecise("div by zero")
                if self.is_signed(t):
                    sa = a - (1 << w) if a >> (w - 1) else a
                    sb = b - (1 << w) if b >> (w - 1) else b
                    q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0):
                        q = -q
                    return (q if op == "Div" else sa - q * sb) & ((1 << w) - 1)
                return a // b if op == "Div" else a % b
            if type(b) is not int:
                b = self.const_or_fork(st, b, w)
            if self.is_signed(t) and not st.cons.le(fadd(st.exact(a), F(1 - (1 << (w - 1))))):
                raise Imprecise("signed division")
            q, r = self.divmod(st, st.exact(a), b)
            return self.wrapv(st, w, q if op == "Div" else r)
        if op == "Cmp":
            lt = self.cmp(st, "Lt", a, b, t)
            r = st.decide(lt) if not isinstance(lt, bool) else lt
            if r is None:
                raise ForkNeeded(lt)
            if r:
                return 255
            eq = self.cmp(st, "Eq", a, b, t)
            r = st.decide(eq) if not isinstance(eq, bool) else eq
            if r is None:
                raise ForkNeeded(eq)
            return 0 if r else 1
        raise Imprecise("binop " + op)

    def const_or_fork(self, st, b, w):
        f = st.exact(b)
        lo = st.cons.minmax(f, "min")
        hi = st.cons.minmax(f, "max")
        if lo == hi:
            return lo
        if hi - lo < 130:
            raise ForkNeeded(T.eq0(fsub(f, F(lo))))
        raise Imprecise("symbolic shift/divisor")

    def numeric(self, a):
        if a.op == "sym":
            return True
        if a.op != "lin":
            return False
        return all(t.op in ("sym",) or (t.op == "ite") for t, _ in a.a[1])

    def mulv(self, st, w, a, b):
        if type(a) is int or type(b) is int:
            return T.mul(w, a, b)
        for x in (a, b):
            f = st.exact(x)
            lo = st.cons.minmax(f, "min")
            hi = st.cons.minmax(f, "max")
            if lo == hi:
                return T.mul(w, lo, b if x is a else a)
        return T.mul(w, a, b)

    def andv(self, st, w, a, b):
        if type(a) is int and type(b) is int:
            return a & b
        for x, y in ((a, b), (b, a)):
            if type(y) is int and type(x) is T.T and (self.numeric(x)):
                full = (1 << w) - 1
                if y and (y & (y + 1)) == 0:
                    q, r = self.divmod(st, st.exact(x), y + 1)
                    return self.wrapv(st, w, r)
                ny = ~y & full
                if ny and (ny & (ny + 1)) == 0:
                    f = st.exact(x)
                    q, r = self.divmod(st, f, ny + 1)
                    return self.wrapv(st, w, fsub(self.last_f, r))
        return T.wand(w, a, b)

    def divmod(self, st, f, d):
        """quotient and remainder of the non-negative integer form f by d>0 (may rename symbols)"""
        self.last_f = f
        if d == 1:
            return f, F(0)
        if not f[1]:
            return F(f[0] // d), F(f[0] % d)
        qi = []
        ri = []
        for t, k in f[1]:
            a, b = divmod(k, d)
            if b > d // 2 and False:
                a, b = a + 1, b - d
            if a:
                qi.append((t, a))
            if b:
                ri.append((t, b))
        a, b = divmod(f[0], d)
        q = (a, tuple(qi))
        r = (b, tuple(ri))
        if not ri:
            return q, r
        c = st.cons
        lo = c.minmax(r, "min")
        hi = c.minmax(r, "max")
        if lo // d == hi // d:
            k = lo // d
            return fadd(q, F(k)), fsub(r, F(k * d))
        if hi // d - lo // d <= self.qsplit:
            # few possible quotients: one path for each
            raise ForkNeeded(T.le0(fadd(r, F(1 - (lo // d + 1) * d))))
        # rename: u = +-(d*q' + r' - rest)
        for t, k in reversed(ri):
            if t.op == "sym" and k == 1 and not str(t.a[0]).startswith("!"):
                rest = (r[0], tuple((u, kk) for u, kk in ri if u is not t))
                if any(t in T.leaves_cached(u) for u, _ in rest[1]) or any(t in T.leaves_cached(u) and u is not t for u, _ in qi):
                    continue
                nq = T.sym("q%d[%s]" % (d, T.show_form(r, 9)), t.w)
                nr = T.sym("r%d[%s]" % (d, T.show_form(r, 9)), t.w)
                g = fsub((0, tuple(sorted(((nq, d), (nr, 1)), key=T._aid))), rest)
                cc = st.cons.add_le(fadd((0, ((nr, 1),)), F(1 - d)))
                if cc is None:
                    raise Imprecise("division by an empty range")
                st.cons = cc
                st.ren = st.ren + ((t, g),)
                if not st.subst(t, g):
                    raise Infeasible()
                sub = Substituter(t, g)
                self.last_f = sub.form(f)
                return fadd(sub.form(q), (0, ((nq, 1),))), (0, ((nr, 1),))
        # opaque
        nq = T.sym("q%d[%s]" % (d, T.show_form(r, 9)), 64)
        nr = T.sym("r%d[%s]" % (d, T.show_form(r, 9)), 64)
        cc = st.cons.add_le(fadd((0, ((nr, 1),)), F(1 - d)))
        if cc is None:
            raise Infeasible()
        e = fsub(r, (0, tuple(sorted(((nq, d), (nr, 1)), key=T._aid))))
        cc = cc.add_eq(e)
        if cc is None:
            raise Infeasible()
        st.cons = cc
        return fadd(q, (0, ((nq, 1),))), (0, ((nr, 1),))

    def cmp(self, st, op, a, b, t):
        if self.is_signed(t):
            w = 8 * t.size
            if op not in ("Eq", "Ne"):
                h = 1 << (w - 1)

                def sg(x):
                    if type(x) is int:
                        return F(x - (1 << w) if x >= h else x)
                    f = st.exact(x)
                    if st.cons.le(fadd(f, F(1 - h))):
                        return f
                    if x.op == "lin":
                        g = x.a
                        lo, hi = st.cons.irange(g)
                        if lo >= -h and hi < h:
                            return g
                    raise Imprecise("signed comparison")
                fa, fb = sg(a), sg(b)
                return cmpf(op, fa, fb)
        if type(a) is int and type(b) is int:
            return cmpf(op, F(a), F(b))
        # enums / booleans as numbers
        r = self.cmp_ite(st, op, a, b)
        if r is not None:
            return r
        if op in ("Eq", "Ne"):
            fa, fb = st.exact(a), st.exact(b)
            e = T.eq0(fsub(fa, fb))
            return e if op == "Eq" else T.bnot(e)
        return cmpf(op, st.exact(a), st.exact(b))

    def cmp_ite(self, st, op, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if type(x) is T.T and x.op == "ite" and type(y) is int and type(x.a[1]) is int and type(x.a[2]) is int:
                def one(v):
                    return cmpf(op, F(y), F(v)) if sw else cmpf(op, F(v), F(y))
                u, v = one(x.a[1]), one(x.a[2])
                if u == v:
                    return u
                return x.a[0] if u else T.bnot(x.a[0])
            if type(x) is T.T and x.op == "lin" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[1][0][0].op == "ite" and type(y) is int:
                return self.cmp_ite(st, op, *((y, x.a[1][0][0]) if sw else (x.a[1][0][0], y)))
        return None

    def boolop(self, st, op, a, b):
        a = tobool(a)
        b = tobool(b)
        if op == "BitAnd":
            return T.b_and(a, b)
        if op == "BitOr":
            return T.b_or(a, b)
        if op in ("BitXor", "Ne", "Eq"):
            if isinstance(a, bool):
                r = T.bnot(b) if a else b
            elif isinstance(b, bool):
                r = T.bnot(a) if b else a
            elif a is b:
                r = False
            else:
                r = T.b_or(T.b_and(a, T.bnot(b)), T.b_and(T.bnot(a), b))
            return T.bnot(r) if op == "Eq" else r
        if op == "Lt":
            return T.b_and(T.bnot(a), b)
        if op == "Le":
            return T.b_or(T.bnot(a), b)
        if op == "Gt":
            return T.b_and(a, T.bnot(b))
        if op == "Ge":
            return T.b_or(a, T.bnot(b))
        raise Imprecise("bool " + op)

    def ptrop(self, st, op, a, b, t):
        if type(a) is Blob or type(b) is Blob:
            if op in ("Eq", "Ne") and type(a) is Blob and type(b) is Blob:
                e = T.b_and(self.ptrop(st, "Eq", blobget(st, a, 0, PB[0]), blobget(st, b, 0, PB[0]), t),
                            self.cmp(st, "Eq", blobget(st, a, PB[0], PB[0]), blobget(st, b, PB[0], PB[0]), None))
                return e if op == "Eq" else T.bnot(e)
            raise Imprecise("fat pointer " + op)
        for x in (a, b):
            if type(x) is Sel:
                r = st.decide(x.c)
                if r is None:
                    raise ForkNeeded(x.c)
                return self.ptrop(st, op, (a.a if r else a.b) if x is a else a, (b.a if r else b.b) if x is b else b, t)
        if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return cmpf(op, fm(a.off), fm(b.off))
            if op in ("Sub", "SubUnchecked"):
                return self.wrapv(st, 8 * PB[0], fsub(fm(a.off), fm(b.off)))
        if op in ("Eq", "Ne"):
            if (type(a) in (Ptr, FnP)) != (type(b) in (Ptr, FnP)):
                z = a if type(a) not in (Ptr, FnP) else b
                if type(z) is int and z < 4096:
                    return op == "Ne"
            elif type(a) is Ptr and type(b) is Ptr and a.o != b.o:
                # distinct objects may only be equal one-past-the-end
                return op == "Ne"
        if op == "BitAnd":
            p, m = (a, b) if type(a) is Ptr else (b, a)
            if type(m) is int and type(p) is Ptr:
                if m == 0:
                    return 0
                o = self.getobj(st, p.o)
                al = m + 1
                f = fm(p.off)
                if (al & m) == 0 and o.align % al == 0 and all(k % al == 0 for _, k in f[1]):
                    return f[0] % al
                return T.sym("!addr(%s)&%d" % (p.o, m), 8 * PB[0])
        if op in ("Add", "AddUnchecked") and type(a) is Ptr:
            return padd(a, ival(st.exact(b)))
        if op in ("Sub", "SubUnchecked") and type(a) is Ptr and type(b) in (int, T.T):
            return padd(a, ival(fscale(st.exact(b), -1)))
        if op in ("Lt", "Le", "Gt", "Ge"):
            fn = lambda x: (0, ((T.sym("!addr(%s)" % (x.o,), 8 * PB[0]), 1),)) if type(x) is Ptr else st.exact(x)
            ga = fadd(fn(a), fm(a.off)) if type(a) is Ptr else fn(a)
            gb = fadd(fn(b), fm(b.off)) if type(b) is Ptr else fn(b)
            return cmpf(op, ga, gb)
        raise Imprecise("pointer op %s %r %r" % (op, a, b))

    def ptr_offset(self, st, p, n, es, t2=None):
        if es == 0:
            return p
        if type(n) is int:
            if n >> (8 * PB[0] - 1):
                n -= 1 << (8 * PB[0])
            return padd(p, n * es)
        if not isinstance(n, T.T):
            raise Imprecise("pointer offset by %r" % (n,))
        if n.op == "lin":
            # wrapping pointer arithmetic: the signed reading of the form
            return padd(p, ival(fscale(n.a, es)))
        return padd(p, ival(fscale(st.exact(n), es)))

    def checked(self, st, op, a, b, t):
        w = 8 * t.size
        a = self.num(st, a, w)
        b = self.num(st, b, w)
        if self.is_signed(t):
            h = 1 << (w - 1)

            def sg(x):
                if type(x) is int:
                    return F(x - (1 << w) if x >= h else x)
                f = st.exact(x)
                if st.cons.le(fadd(f, F(1 - h))):
                    return f
                if x.op == "lin":
                    lo, hi = st.cons.irange(x.a)
                    if lo >= -h and hi < h:
                        return x.a
                raise Imprecise("signed arithmetic")
            fa, fb = sg(a), sg(b)
            if op == "Add":
                f = fadd(fa, fb)
            elif op == "Sub":
                f = fsub(fa, fb)
            else:
                raise Imprecise("signed mul")
            o = T.b_or(T.le0(fadd(f, F(h + 1))), T.le0(fsub(F(h), f)))
            return self.wrapv(st, w, f), o
        if type(a) is int and type(b) is int:
            r = a + b if op == "Add" else a - b if op == "Sub" else a * b
            return r & ((1 << w) - 1), not (0 <= r < (1 << w))
        fa, fb = st.exact(a), st.exact(b)
        if op == "Add":
            f = fadd(fa, fb)
            o = T.le0(fsub(F(1 << w), f))
        elif op == "Sub":
            f = fsub(fa, fb)
            o = T.le0(fadd(f, F(1)))
        else:
            if type(a) is int:
                f = fscale(fb, a)
            elif type(b) is int:
                f = fscale(fa, b)
            else:
                v = self.mulv(st, w, a, b)
                if type(v) is T.T and v.op == "mul":
                    return v, T.bsym("mulovf(%d)" % v.id)
                f = st.exact(v)
                return v, False
            o = T.le0(fsub(F(1 << w), f))
        d = st.decide(o)
        if d is not None:
            o = d
        return self.wrapv(st, w, f), o

    # ---- casts
    def cast(self, st, ck, v, ft, tt):
        if ck == "IntToInt":
            return self.intcast(st, v, ft, tt)
        if ck in ("PtrToPtr", "PointerCoercion:MutToConstPointer", "FnPtrToPtr"):
            if type(v) is Blob and v.size == 2 * PB[0] and tt.size == PB[0]:
                return blobget(st, v, 0, PB[0])
            return v
        if ck == "Transmute" or ck == "Subtype":
            if tt.scalar and type(v) is Blob and tt.size:
                v = cells_read(st, v.cells, 0, v.size, True)
            return norm(v)
        if ck == "PointerCoercion:Unsize":
            return self.unsize(st, v, ft, tt)
        if ck in ("PointerCoercion:ReifyFnPointer",):
            return FnP(ft.inst)
        if ck == "PointerCoercion:ClosureFnPointer":
            return FnP(ft.raw.get("once"))
        if ck == "PointerCoercion:UnsafeFnPointer":
            return v
        if ck in ("PointerExposeAddress", "PointerExposeProvenance", "PointerWithExposedProvenance", "PointerFromExposedAddress"):
            return v
        if ck == "PointerCoercion:ArrayToPointer":
            return v
        raise Imprecise("cast " + ck)

    def intcast(self, st, v, ft, tt):
        w2 = 8 * tt.size
        if ft.k == "bool" or type(v) is bool:
            v = tobool(v)
            if isinstance(v, bool):
                return int(v)
            return T.ite(v, 1, 0, w2)
        w1 = 8 * ft.size
        v = self.num(st, v, w1)
        if type(v) is Ptr:
            return v
        if w2 <= w1:
            return self.narrow(st, v, w2)
        if ft.k == "int":
            if type(v) is int:
                if v >> (w1 - 1):
                    v -= 1 << w1
                return v & ((1 << w2) - 1)
            f = st.exact(v)
            if st.cons.le(fadd(f, F(1 - (1 << (w1 - 1))))):
                return self.widen(st, v, w2)
            raise Imprecise("sign extension")
        return self.widen(st, v, w2)

    def unsize(self, st, v, ft, tt):
        a = self.p.ty(ft.elem) if ft.elem is not None else None
        b = self.p.ty(tt.elem) if tt.elem is not None else None
        if a is None or b is None:
            raise Imprecise("unsize")
        if a.k == "array" and b.k == "slice":
            p = v
            es = self.p.ty(a.elem).size
            if type(p) is Ptr and type(p.off) is int and es:
                p = Ptr(p.o, p.off, (p.off, p.off + a.n * es))
            return fat(p, a.n)
        if b.k == "dyn":
            return fat(v, FnP("vtable:" + a.s))
        raise Imprecise("unsize %s -> %s" % (a.s, b.s))

    # ------------------------------------------------------------------ control
    def exec_fn(self, fn, args, st, argtys=None):
        """-> list of (state, value)"""
        if fn.tf:
            self.check_features(fn, st)
        h = self.find_intercept(fn)
        if h is not None:
            r = h(self, st, fn, args)
            if r is not NotImplemented:
                return r
        code = self.decode(fn)
        if code is None or fn.intrinsic in BUILTIN:
            return self.no_body(fn, args, st)
        if len(self.stack) > 200:
            raise Imprecise("recursion")
        self.visited.add(fn.key)
        fr = Frame()
        fr.fn = fn
        fr.code = code
        fr.nl = len(code.locals)
        fr.base = self.next
        fr.sp = fn.span
        self.next += fr.nl
        # argument passing (rust-call closures receive a tuple)
        if len(args) != code.argc:
            args = self.untuple(st, fn, args, code)
        for i, v in enumerate(args):
            t = self.p.ty(code.locals[i + 1])
            if t.size:
                o = Obj("mem", t.size, {}, st.tok, "_%d" % (i + 1), t.align)
                st.mem[fr.base + i + 1] = o
                cells_write(st, o.cells, 0, t.size, v)
        self.stack.append(fr)
        rets = []
        try:
            ex, back = self.region_run(fr, {0: [st]}, None, None, rets)
        except Imprecise as e:
            if not hasattr(e, "where"):
                e.where = [(f.fn.name, self.p.span(f.sp)) for f in self.stack]
            raise
        finally:
            self.stack.pop()
        out = []
        rt = self.p.ty(code.locals[0])
        for s in rets:
            if rt.size == 0 or rt.size is None:
                v = Blob(0, {})
            else:
                o = s.mem.get(fr.base)
                v = norm(cells_read(s, o.cells, 0, rt.size, rt.scalar)) if o is not None else UNDEF
            for i in range(fr.nl):
                s.mem.pop(fr.base + i, None)
            out.append((s, v))
        return out

    def check_features(self, fn, st):
        """the caller's own features, the build's baseline and the features found on this path must cover fn's"""
        caller = self.stack[-1].fn if self.stack else None
        key = (fn.key, caller.key if caller else None)
        need = self.tf_cache.get(key)
        if need is None:
            need = frozenset(fn.tf) - frozenset(caller.tf if caller else ()) - self.baseline
            self.tf_cache[key] = need
        self.tf_entries.setdefault((fn.name, caller.name if caller else "?"), 0)
        self.tf_entries[(fn.name, caller.name if caller else "?")] += 1
        if not need:
            return
        have = set()
        off = []
        for b, v in st.cons.facts.items():
            if b.op == "bsym" and str(b.a[0]).startswith("cpu:"):
                if v:
                    have |= implied_features(str(b.a[0])[4:])
        miss = need - have
        if miss:
            self.note(st, "feature", "%s needs %s, which is not established (established here: %s)" % (
                fn.name, ",".join(sorted(miss)), ",".join(sorted(have)) or "nothing"))

    def untuple(self, st, fn, args, code):
        if len(args) == 2 and code.argc >= 1:
            t = self.p.ty(code.locals[1])
            tup = args[1]
            n = code.argc - 1
            # layout of the tuple from the argument types of the callee
            tys = [self.p.ty(code.locals[2 + i]) for i in range(n)]
            if n == 0:
                return [args[0]]
            # offsets: recover from the blob using the tuple type if known
            if n == 1:
                return [args[0], tup]
            offs = self.tuple_offs(tys, self.last_argtys[1] if self.last_argtys else None)
            return [args[0]] + [norm(cells_read(st, asblob(tup, sum(x.size for x in tys)).cells, o, x.size, x.scalar)) if x.size else Blob(0, {}) for o, x in zip(offs, tys)]
        raise Imprecise("argument mismatch calling %s (%d for %d)" % (fn.name, len(args), code.argc))

    last_argtys = None

    def tuple_offs(self, tys, tt):
        if tt is not None and tt.k == "tuple":
            return [o for o, _ in tt.fields]
        raise Imprecise("tuple layout")

    def find_intercept(self, fn):
        h = self.icache.get(fn.key, 0)
        if h != 0:
            return h
        h = None
        for pred, f in self.intercepts:
            if pred(fn):
                h = f
                break
        self.icache[fn.key] = h
        return h

    def no_body(self, fn, args, st):
        from . import intrin
        r = intrin.call(self, st, fn, args)
        return r

    def region_run(self, fr, pend, region, header, rets):
        """run from the pending blocks; returns (exits {block:[states]}, back [states])"""
        code = fr.code
        rpo = code.rpo
        exits = {}
        back = []
        first = True
        heap = [(rpo[b], b) for b in pend]
        heapq.heapify(heap)
        inheap = set(pend)
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = pend.pop(b)
            if b in code.loops and b != header:
                ex = {}
                for s in states:
                    self.loop(fr, b, s, ex, rets)
                for t, ss in ex.items():
                    if t == header:
                        back.extend(ss)
                    elif region is not None and t not in region:
                        exits.setdefault(t, []).extend(ss)
                    else:
                        pend.setdefault(t, []).extend(ss)
                        if t not in inheap:
                            inheap.add(t)
                            heapq.heappush(heap, (rpo[t], t))
                continue
            if self.merge and len(states) > 1:
                states = self.merge_states(fr, states)
            for s in states:
                for t, s2 in self.block(fr, b, s, rets):
                    if t == header:
                        back.append(s2)
                    elif region is not None and t not in region:
                        exits.setdefault(t, []).append(s2)
                    else:
                        pend.setdefault(t, []).append(s2)
                        if t not in inheap:
                            inheap.add(t)
                            heapq.heappush(heap, (rpo[t], t))
        return exits, back

    def merge_states(self, fr, states):
        return states

    MAXUNROLL = 400

    def loop(self, fr, h, st, ex, rets):
        region = fr.code.loops[h]
        self.loops += 1
        work = [(st, 0, 0)]
        while work:
            s, n, sym = work.pop()
            if n > self.MAXUNROLL:
                raise Imprecise("loop not bounded at %s" % self.p.span(fr.sp))
            mark = len(self.outcomes)
            rt = []
            s0 = s.fork()
            e1, b1 = self.region_run_from(fr, h, s, region, rt)
            if b1 and (e1 or rt):
                keep = self.outcomes[mark:]
                g = self.generalise(fr, h, region, s0, [b.fork() for b in b1], sym)
                if g is None:
                    del self.outcomes[mark:]
                    self.outcomes.extend(keep)
                else:
                    # what the first round reported is covered by the invariant's run
                    del self.outcomes[mark:mark + len(keep)]
                    ge, gr = g
                    for t, ss in ge.items():
                        ex.setdefault(t, []).extend(ss)
                    rets.extend(gr)
                    continue
                sym += 1
            for t, ss in e1.items():
                ex.setdefault(t, []).extend(ss)
            rets.extend(rt)
            for q in b1:
                work.append((q, n + 1, sym))

    MAXSYM = 1

    def prune(self, fr, h, st):
        live = loops.liveness(self, fr.fn, fr.code)[h]
        taken = fr.code.taken
        for i in range(fr.nl):
            if i not in live and i not in taken:
                st.mem.pop(fr.base + i, None)

    def common_names(self, s0, backs):
        """apply to s0 the value-preserving renamings made on the way round; None if there were none"""
        ren = []
        for b in backs:
            for t, g in b.ren[len(s0.ren):]:
                if all(t is not x for x, _ in ren):
                    ren.append((t, g))
        return ren

    def generalise(self, fr, h, region, s0, backs, sym):
        if sym > self.MAXSYM:
            raise Imprecise("no invariant found for the loop (%s)" % (getattr(self, "why", None),))
        self.prune(fr, h, s0)
        for b in backs:
            self.prune(fr, h, b)
        self.loop_id = getattr(self, "loop_id", 0) + 1
        ren = self.common_names(s0, backs)
        mark = None
        if ren:
            s1 = s0.fork()
            for t, g in ren:
                if not self.rename(s1, t, g):
                    return None
            mark = len(self.outcomes)
            e1, b1 = self.region_run_from(fr, h, s1.fork(), region, [])
            del self.outcomes[mark:]
            for b in b1:
                self.prune(fr, h, b)
            s0, backs = s1, b1
            if self.common_names(s0, backs):
                self.why = "renaming"
                return None
        W = loops.Widen(self, "%d@%s#%d" % (self.loop_id, h, len(self.stack)), hint=self.hint)
        W.ref = s0
        mark = len(self.outcomes)

        def step(g):
            del self.outcomes[mark:]
            rt = []
            ex, bk = self.region_run_from(fr, h, g, region, rt)
            for b in bk:
                self.prune(fr, h, b)
            return bk, (ex, rt)
        self.trying += 1
        stack = list(self.stack)
        try:
            r = W.run(s0, backs, step)
        except (Imprecise, AttributeError, TypeError) as e:
            # the guess lost something the body needs
            self.stack[:] = stack
            W.why = "imprecise: %s" % str(e)[:200]
            r = None
        finally:
            self.trying -= 1
        if r is None:
            self.why = W.why
            del self.outcomes[mark:]
            if self.debug:
                print("  [widen failed at %s: %s]" % (self.p.span(fr.sp), W.why))
            return None
        self.widened += 1
        if self.debug:
            print("  [widened at %s %s: %s]" % (fr.fn.name, self.p.span(fr.sp), [T.show_form(x) for x in r[0].cons.rows if x not in s0.cons.rows]))
        return r[1]

    def rename(self, st, t, g):
        if t in st.slog:
            return st.slog[t] == g
        for u, k in g[1]:
            nm = str(u.a[0]) if u.op == "sym" else ""
            if nm.startswith("r") and "[" in nm:
                d = int(nm[1:nm.index("[")])
                cc = st.cons.add_le(fadd((0, ((u, 1),)), F(1 - d)))
                if cc is None:
                    return False
                st.cons = cc
        st.ren = st.ren + ((t, g),)
        return st.subst(t, g)

    hint = None
    trying = 0
    widened = 0
    debug = False

    def region_run_from(self, fr, h, s, region, rt):
        # first the header block itself, then the rest of the region
        pend = {}
        exits = {}
        back = []
        for t, s2 in self.block(fr, h, s, rt):
            if t == h:
                back.append(s2)
            elif t not in region:
                exits.setdefault(t, []).append(s2)
            else:
                pend.setdefault(t, []).append(s2)
        if pend:
            e2, b2 = self.region_run(fr, pend, region, h, rt)
            for t, ss in e2.items():
                exits.setdefault(t, []).extend(ss)
            back.extend(b2)
        return exits, back

    def block(self, fr, b, st, rets):
        out = []
        work = [(st, 0)]
        stmts, term, tsp = fr.code.blocks[b]
        while work:
            s, i = work.pop()
            self.steps += 1
            try:
                s2 = s
                n = len(stmts)
                while i < n:
                    self.stmt(fr, stmts[i], s)
                    i += 1
                fr.sp = tsp
                self.terminator(fr, term, s, out, rets)
            except ForkNeeded as e:
                c = e.cond
                s2 = s.fork()
                if s2.assume(c, False):
                    work.append((s2, i))
                if s.assume(c, True):
                    work.append((s, i))
            except Infeasible:
                pass
        return out

    def stmt(self, fr, x, st):
        k = x[0]
        fr.sp = x[3]
        if k == "a":
            pl = x[1]
            v = self.ev(st, fr, x[2], pl[2])
            self.wr(st, fr, pl, v)
        elif k == "d":
            st.mem.pop(fr.base + x[1], None)
        elif k == "l":
            pass
        elif k == "s":
            p, _ = self.addr(st, fr, x[1])
            o = st.own(p.o)
            cells = {}
            self.set_tag(st, cells, x[1][2], x[2])
            for off, (sz, v) in cells.items():
                self.store(st, padd(p, off), sz, v)
        elif k == "u":
            v = tobool(self.op(st, fr, x[1]))
            if not st.assume(v):
                raise Infeasible()
        elif k == "c":
            src, dst, n = [self.op(st, fr, o) for o in x[1]]
            n = self.num(st, n, 8 * PB[0])
            nb = n * x[2] if type(n) is int else ival(fscale(st.exact(n), x[2]))
            self.copy_no(st, src, dst, nb)

    def terminator(self, fr, t, st, out, rets):
        k = t[0]
        if k == "Goto":
            out.append((t[1], st))
        elif k == "Return":
            rets.append(st)
        elif k == "Switch":
            self.switch(fr, t, st, out)
        elif k == "Assert":
            v = tobool(self.op(st, fr, t[1]))
            if not t[2]:
                v = bnotv(v)
            r = st.decide(v)
            if r is True:
                self.asserts_ok += 1
                out.append((t[4], st))
                return
            if r is None and self.watch is not None:
                self.watch.branch(self, st, v)
            bad = st.fork()
            if bad.assume(v, False):
                self.note(bad, "panic", "assertion " + t[3])
            if r is None and st.assume(v):
                out.append((t[4], st))
        elif k == "Call":
            self.call(fr, t, st, out)
        elif k == "Drop":
            pl = t[1]
            d = pl[2].drop
            if d and d in self.p.fns and self.decode(self.p.fns[d]) is not None and self.needs_drop(pl[2]):
                p, meta = self.addr(st, fr, pl)
                for s2, _ in self.exec_fn(self.p.fns[d], [p], st):
                    out.append((t[2], s2))
            else:
                out.append((t[2], st))
        elif k == "Asm":
            if t[1] is None or t[2] is None:
                raise Imprecise("inline assembly %r" % t[3][:60])
            for v, pl in [(self.op(st, fr, a), pl) for a, pl in t[1]]:
                self.wr(st, fr, pl, v)
            out.append((t[2], st))
        elif k == "Unreachable":
            self.note(st, "unreachable", "unreachable code reached")
        elif k in ("Resume", "Abort"):
            pass
        else:
            raise Imprecise("terminator " + k)

    def needs_drop(self, t):
        return True

    def switch(self, fr, t, st, out):
        v = self.op(st, fr, t[1])
        ty = t[4]
        if ty.k == "bool":
            v = tobool(v)
            r = st.decide(v)
            tf = t[3]
            ff = t[3]
            for val, b in t[2]:
                if val == 0:
                    ff = b
                else:
                    tf = b
            if r is None:
                if self.watch is not None:
                    self.watch.branch(self, st, v)
                s2 = st.fork()
                if s2.assume(v, False):
                    out.append((ff, s2))
                if st.assume(v, True):
                    out.append((tf, st))
            else:
                out.append((tf if r else ff, st))
            return
        v = self.num(st, v, 8 * ty.size)
        if type(v) is int:
            for val, b in t[2]:
                if val == v:
                    out.append((b, st))
                    return
            out.append((t[3], st))
            return
        if type(v) in (Ptr, Sel):
            raise Imprecise("switch on pointer")
        cur = st
        if self.watch is not None:
            self.watch.branch(self, st, v)
        for val, b in t[2]:
            c = self.cmp(cur, "Eq", v, val, None)
            r = cur.decide(c)
            if r is True:
                out.append((b, cur))
                return
            if r is False:
                continue
            s2 = cur.fork()
            if s2.assume(c, True):
                out.append((b, s2))
            if not cur.assume(c, False):
                return
        out.append((t[3], cur))

    def call(self, fr, t, st, out):
        callee, fop, argops, dest, target, argtys = t[1], t[2], t[3], t[4], t[5], t[6]
        if callee is not None:
            key = callee.inst
            if key is None:
                raise Imprecise("call of " + callee.s)
        else:
            v = self.op(st, fr, fop)
            if type(v) is not FnP:
                raise Imprecise("indirect call")
            key = v.key
        fn = self.p.fns.get(key)
        if fn is None:
            raise Imprecise("unknown callee " + str(key))
        args = [self.op(st, fr, a) for a in argops]
        self.last_argtys = argtys
        if target is None:
            # diverging call
            self.diverge(fn, st, args)
            return
        for s2, v in self.exec_fn(fn, args, st, argtys):
            self.wr(s2, fr, dest, v)
            out.append((target, s2))

    def diverge(self, fn, st, args):
        self.note(st, "panic", "call to " + fn.name)


# intrinsics modelled here although the library has a fallback body for them
BUILTIN = frozenset(("rotate_left", "rotate_right", "unchecked_funnel_shl", "unchecked_funnel_shr", "disjoint_bitor"))


class Code:
    pass


class Infeasible(Exception):
    pass


def const_len(n):
    """length of a repeat expression"""
    k = n.get("kind", n)
    k = n["kind"] if "kind" in n else n
    if isinstance(k, dict):
        if "Value" in k:
            a = k["Value"][1]
            return int.from_bytes(bytes(x or 0 for x in a["bytes"]), "big" if BIG[0] else "little")
        if "Allocated" in k:
            return int.from_bytes(bytes(x or 0 for x in k["Allocated"]["bytes"]), "big" if BIG[0] else "little")
    raise Imprecise("repeat length %s" % str(n)[:100])


def put(cells, o, size, v):
    if not size:
        return
    if type(v) is Blob:
        for k, c in v.cells.items():
            cells[o + k] = c
    elif v is UNDEF:
        pass
    else:
        cells[o] = (size, v)


def norm(v):
    """a blob with a single covering cell is that cell's value"""
    if type(v) is Blob and len(v.cells) == 1:
        c = v.cells.get(0)
        if c is not None and c[0] == v.size and type(c[1]) is not Arr:
            return c[1]
    return v


def asblob(v, n):
    if type(v) is Blob:
        return v
    return Blob(n, {0: (n, v)})


def blobget(st, v, off, n):
    if type(v) is Blob:
        return cells_read(st, v.cells, off, n, True)
    if type(v) is Sel:
        return mksel(v.c, blobget(st, v.a, off, n), blobget(st, v.b, off, n), n)
    if off == 0:
        return v
    raise Imprecise("component of %r" % (v,))


def mksel(c, a, b, n):
    return vite(c, a, b, n)


def vite(c, a, b, n):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (Ptr, FnP, Sel) or tb in (Ptr, FnP, Sel):
        if a == b:
            return a
        return Sel(c, a, b)
    if ta is Blob or tb is Blob:
        if ta is not Blob:
            a = asblob(a, n)
        if tb is not Blob:
            b = asblob(b, n)
        keys = sorted(set(a.cells) | set(b.cells))
        cuts = set()
        for x in (a, b):
            for k, (sz, _) in x.cells.items():
                cuts.add(k)
                cuts.add(k + sz)
        cuts = sorted(cuts)
        cells = {}
        # pieces must line up; a partition finer than a pointer is not supported
        i = 0
        while i < len(cuts) - 1:
            s, e = cuts[i], cuts[i + 1]
            i += 1
            pa = cell_at(a, s, e)
            pb = cell_at(b, s, e)
            if pa is None or pb is None:
                continue
            cells[s] = (e - s, vite(c, pa, pb, e - s))
        return norm(Blob(n, cells))
    if ta is Arr or tb is Arr:
        if a == b:
            return a
        # bytewise
        raise Imprecise("selection between byte arrays")
    if ta is bool or tb is bool or (ta is T.T and a.w == 1) or (tb is T.T and b.w == 1):
        a, b = tobool(a), tobool(b)
        return T.b_or(T.b_and(c, a), T.b_and(T.bnot(c), b))
    return T.ite(c, a, b, 8 * n)


def cell_at(b, s, e):
    for k, (sz, v) in b.cells.items():
        if k <= s and e <= k + sz:
            return piece(None, v, sz, s - k, e - s)
    return None


def padd(p, k):
    ty = type(p)
    if ty is Ptr:
        if type(k) is int and k == 0:
            return p
        o = p.off
        if type(o) is int and type(k) is int:
            return Ptr(p.o, o + k, p.rng)
        return Ptr(p.o, fadd(fm(o), fm(k)), p.rng)
    if ty is Sel:
        return Sel(p.c, padd(p.a, k), padd(p.b, k))
    if ty is int and type(k) is int:
        return p + k
    if type(k) is int and k == 0:
        return p
    if ty is int:
        return T.lin(8 * PB[0], *fadd(F(p), fm(k)))
    raise Imprecise("pointer arithmetic on %r" % (p,))


def tobool(v):
    if isinstance(v, bool):
        return v
    if type(v) is int:
        return bool(v)
    if type(v) is T.T:
        if v.w == 1:
            return v
        if v.op == "ite" and type(v.a[1]) is int and type(v.a[2]) is int:
            if v.a[1] and not v.a[2]:
                return v.a[0]
            if v.a[2] and not v.a[1]:
                return T.bnot(v.a[0])
            return bool(v.a[1])
        return T.bnot(T.eq0((0, ((v, 1),))))
    raise Imprecise("boolean from %r" % (v,))


def bnotv(v):
    v = tobool(v)
    return T.bnot(v)


def cmpf(op, a, b):
    d = fsub(a, b)
    if op == "Eq":
        return T.eq0(d)
    if op == "Ne":
        return T.bnot(T.eq0(d))
    if op == "Le":
        return T.le0(d)
    if op == "Lt":
        return T.le0(fadd(d, F(1)))
    if op == "Ge":
        return T.le0(fscale(d, -1))
    if op == "Gt":
        return T.le0(fsub(F(1), d))
    raise Imprecise(op)


def succs(t):
    k = t[0]
    if k == "Goto":
        return [t[1]]
    if k == "Switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "Assert":
        return [t[4]]
    if k == "Call":
        return [t[5]] if t[5] is not None else []
    if k == "Drop":
        return [t[2]]
    if k == "Asm":
        return [t[2]] if t[2] is not None else []
    return []


def cfg(C):
    n = len(C.blocks)
    C.succ = [list(dict.fromkeys(succs(b[1]))) for b in C.blocks]
    # rpo
    seen = set()
    order = []
    st = [(0, iter(C.succ[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(C.succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    C.rpo = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in C.succ[b]:
            preds[s].append(b)
    C.preds = preds
    # dominators (iterative)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    new = p if new is None else inter(idom, C.rpo, p, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    C.idom = idom

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in C.succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(preds[x])
    C.loops = loops


def inter(idom, rpo, a, b):
    while a != b:
        while rpo[a] > rpo[b]:
            a = idom[a]
        while rpo[b] > rpo[a]:
            b = idom[b]
    return a
