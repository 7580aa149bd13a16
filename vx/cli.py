"""Path-sensitive typestate analysis of the command-line tool's MIR.

Values are provenance terms; calls into other crates are primitives of a protocol (open, read, absorb, finalize, print,
report, exit) or opaque.  Loops end when a state repeats: the state space (control points x provenance x protocol state) is
finite because a call site's earlier results are forgotten when it runs again."""
import re

UNDEF = ("s", "undef")


class Undecided(Exception):
    pass


class Stop(Exception):
    """end of a path"""


def is_sym(v):
    return isinstance(v, tuple) and v and v[0] == "s"


def find(v, head, out=None):
    out = set() if out is None else out
    if isinstance(v, (tuple, frozenset)):
        if v and isinstance(v, tuple) and v[0] == head:
            out.add(v)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                find(x, head, out)
    return out


def subst(v, pred, new):
    if isinstance(v, tuple):
        if pred(v):
            return new
        n = tuple(subst(x, pred, new) if isinstance(x, (tuple, frozenset)) else x for x in v)
        return v if n == v else n
    if isinstance(v, frozenset):
        return frozenset(subst(x, pred, new) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


def depth(v):
    return 1 + max([depth(x) for x in v if isinstance(x, tuple)] or [0]) if isinstance(v, tuple) else 0


def adt(variant, *fields):
    return ("adt", None, variant, tuple(fields))


UNIT = ("adt", None, None, ())
# protocol state: sources (handle -> (at end, lost data, unabsorbed chunk, failed)), progress over the inputs
W0 = dict(src=(), item=None, fail=False, unrep=False, explicit=False, eprinted=False, iter=None)


class St:
    __slots__ = ("stack", "mem", "asm", "w")

    def copy(self):
        s = St()
        s.stack, s.mem, s.asm, s.w = list(self.stack), dict(self.mem), dict(self.asm), dict(self.w)
        return s

    def key(self):
        return (tuple(self.stack), frozenset(self.mem.items()), frozenset(self.asm.items()), tuple(sorted(self.w.items(), key=lambda x: x[0])))


LONG = ["mmap", "length", "key", "salt", "personal", "fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length", "last-node"]
SHORT = ["b", "s", "p"]
FLAGS = ("mmap", "b", "s", "p", "last-node")
SEQ_ONLY = ["salt", "personal", "fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length", "last-node"]
SETTABLE = ["length", "key"] + SEQ_ONLY
SETTER = {"length": "hash_length"}
SETTER.update({n: n.replace("-", "_") for n in SETTABLE if n != "length"})
NAMES = {"b": "BLAKE2b", "s": "BLAKE2s", "bp": "BLAKE2bp", "sp": "BLAKE2sp"}


class Explorer:
    def __init__(self, prog, optname, preset=None, stop_at_state=False, budget=4000000):
        self.p, self.optname, self.preset, self.stop_at_state, self.budget = prog, optname, preset, stop_at_state, budget
        self.sites = {}
        self.types = {}
        self.ok, self.bad, self.und = set(), {}, {}
        self.npaths = self.nsteps = 0
        self.fns = set()
        self.merge = {}
        self.flat = False       # every call is opaque
        self.clap_args = []
        self.result = None

    # ------------------------------------------------------------ values and places
    def const(self, c):
        t = self.p.ty(c["ty"])
        k = c["kind"]
        if k == "ZeroSized":
            return ("zst", t.s) if t.k in ("fndef", "closure") else self.zero(t)
        if isinstance(k, dict) and "Allocated" in k:
            a = k["Allocated"]
            return self.decode(t, a["bytes"], dict((o, i) for o, i in a["provenance"]["ptrs"]), 0)
        raise Undecided("constant " + str(k)[:60])

    def zero(self, t):
        if t.k == "closure":
            return ("adt", t.id, None, ())
        return ("adt", t.id if t.k == "adt" else None, None, ())

    def decode(self, t, bs, ptrs, o, d=0):
        if d > 6:
            return ("s", "const", t.s)
        n = t.size or 0
        if t.k in ("bool", "int", "uint", "char"):
            b = bs[o:o + n]
            if None in b:
                return UNDEF
            return int.from_bytes(bytes(b), "little")
        if t.k in ("ref", "ptr"):
            if o not in ptrs:
                return ("s", "const", t.s)
            e = self.p.ty(t.elem)
            if e.k in ("slice", "str"):
                ln = int.from_bytes(bytes(bs[o + 8:o + 16]), "little")
                off = int.from_bytes(bytes(bs[o:o + 8]), "little")
                m = self.p.allocs.get(str(ptrs[o]), {}).get("memory")
                if m and None not in m["bytes"][off:off + ln] and e.k == "str":
                    return ("str", bytes(m["bytes"][off:off + ln]).decode("utf8", "replace"))
                return ("s", "const-slice", ptrs[o], ln)
            return ("ref", ("A", ptrs[o], t.elem), ())
        if t.k == "tuple" or t.k == "closure" or (t.k == "adt" and t.variants is None and t.fields is not None):
            fs = tuple(self.decode(self.p.ty(ft), bs, ptrs, o + fo, d + 1) for fo, ft in t.fields)
            var = t.single if t.k == "adt" and t.raw.get("adt") == "Enum" else None
            return ("adt", t.id if t.k == "adt" else None, var, fs)
        if t.k == "adt" and t.variants and t.tag:
            off, sz, enc = t.tag
            b = bs[o + off:o + off + sz]
            if None not in b and (enc == "Direct" or isinstance(enc, dict) and "Direct" in enc):
                x = int.from_bytes(bytes(b), "little")
                for i, (nm, dv, fl) in enumerate(t.variants):
                    if dv == x:
                        return ("adt", t.id, i, tuple(self.decode(self.p.ty(ft), bs, ptrs, o + fo, d + 1) for fo, ft in fl))
        return ("s", "const", t.s, bytes(x if x is not None else 0 for x in bs[o:o + n][:32]).hex())

    def root(self, st, r):
        v = st.mem.get(r)
        if v is None:
            if r[0] == "A":
                m = self.p.allocs.get(str(r[1]), {})
                m = m.get("memory")
                if m is None:
                    return ("s", "static", r[1])
                return self.decode(self.p.ty(r[2]), m["bytes"], dict((o, i) for o, i in m["provenance"]["ptrs"]), 0)
            if r[0] == "D":
                return r[1] if r[1][0] != "s" else ("s", "*", r[1])
            if r[0] == "V":
                return r[1]
            return UNDEF
        return v

    def proj(self, v, pr):
        _, var, i, n = pr
        if i == "idx":
            return ("s", "elem", v)
        if isinstance(v, tuple) and v[0] == "adt":
            if var is not None and v[2] is not None and v[2] != var:
                raise Undecided("payload of another variant")
            if i >= len(v[3]):
                raise Undecided("field %s of %s" % (i, v[:3]))
            return v[3][i]
        if v == ("s", "opt"):
            return ("s", "opt", self.optname.get(i, "?%d" % i))
        if isinstance(v, tuple) and v[0] == "s":
            return ("s", "f", var, i, v)
        if isinstance(v, tuple) and v[0] in ("params", "st", "file", "hash", "fmtv", "hex", "mo", "all", "text"):
            raise Undecided("inside of a %s" % v[0])
        return ("s", "f", var, i, v)

    def read(self, st, pl):
        r, ps = pl
        v = self.root(st, r)
        for x in ps:
            v = self.proj(v, x)
        return v

    def setp(self, v, ps, val):
        if not ps:
            return val
        _, var, i, n = ps[0]
        if i == "idx":
            return ("s", "array")
        if isinstance(v, tuple) and v[0] == "adt" and i < len(v[3]):
            f = list(v[3])
            f[i] = self.setp(f[i], ps[1:], val)
            return v[:3] + (tuple(f),)
        if n is None:
            raise Undecided("partial write")
        f = [self.proj(v, ("F", var, j, n)) if is_sym(v) else UNDEF for j in range(n)]
        f[i] = self.setp(f[i], ps[1:], val)
        return ("adt", None, var, tuple(f))

    def write(self, st, pl, val):
        r, ps = pl
        st.mem[r] = self.setp(self.root(st, r), ps, val) if ps else val

    def place(self, st, fr, pl):
        """-> (root, projections), type id"""
        b = self.p.body(self.p.fns[fr[0]])
        d = len(st.stack) - 1
        r, ps = ("L", d, pl["local"]), ()
        ty = b["locals"][pl["local"]]["ty"]
        var = None
        for x in pl["projection"]:
            if x == "Deref":
                v = self.read(st, (r, ps))
                t = self.p.ty(ty)
                ty = t.elem if t.k in ("ref", "ptr") else ty
                r, ps = self.target(v)
                continue
            (k, a), = x.items()
            if k == "Field":
                t = self.p.ty(ty)
                n = None
                if t.k == "adt" and t.variants and var is not None:
                    n = len(t.variants[var][2])
                elif t.fields is not None:
                    n = len(t.fields)
                ps += (("F", var, a[0], n),)
                ty, var = a[1], None
            elif k == "Downcast":
                var = a[0] if isinstance(a, list) else a
            elif k in ("Index", "ConstantIndex"):
                ps += (("F", None, "idx", None),)
                ty = self.p.ty(ty).elem
            else:
                raise Undecided("projection " + k)
        return (r, ps), ty

    def target(self, v):
        if isinstance(v, tuple) and v[0] == "ref":
            return v[1], v[2]
        if is_sym(v):
            return ("D", v), ()
        return ("V", v), ()

    def operand(self, st, fr, op):
        if isinstance(op, str):
            return 0
        (k, v), = op.items()
        if k == "Constant":
            return self.const(v["const_"])
        if k == "RuntimeChecks":
            return 0
        pl, ty = self.place(st, fr, v)
        x = self.read(st, pl)
        if k == "Move" and pl[0][0] == "L" and not pl[1] and pl[0][1] == len(st.stack) - 1:
            st.mem.pop(pl[0], None)
        return x

    def deep(self, st, v, d=0):
        """v with references replaced by what they refer to"""
        if d > 24:
            return ("s", "deep")
        if isinstance(v, tuple):
            if v and v[0] == "ref":
                return self.deep(st, self.read(st, (v[1], v[2])), d + 1)
            if v and v[0] in ("st", "params", "hash", "hex", "file"):
                return v
            return tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in v)
        return v

    # ------------------------------------------------------------ expressions
    def binop(self, st, op, a, b):
        if isinstance(op, dict):
            op = next(iter(op))
        op = op.replace("Unchecked", "")
        if op == "Add" and isinstance(a, int) and isinstance(b, int) and 1 in (a, b) and a + b >= 3:
            return ("s", "big")         # counters are followed up to 3
        if op == "Add" and ("s", "big") in (a, b) and (isinstance(a, int) or isinstance(b, int)):
            return ("s", "big")
        if isinstance(a, int) and isinstance(b, int):
            f = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
                 "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}.get(op)
            if f:
                return int(f())
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op == "Ne":
                return self.neg(self.binop(st, "Eq", a, b))
            if op == "Gt":
                return self.binop(st, "Lt", b, a)
            if op == "Ge":
                return self.neg(self.binop(st, "Lt", a, b))
            if op == "Le":
                return self.neg(self.binop(st, "Lt", b, a))
            if op == "Lt" and b == 1:
                return self.binop(st, "Eq", a, 0)
            if op == "Lt" and a == 0:
                return self.neg(self.binop(st, "Eq", b, 0))
            if op == "Lt" and b == 0:
                return 0
            if op == "Eq" and isinstance(a, int):
                a, b = b, a
            if op == "Eq" and a == b:
                return 1
            if op == "Eq" and b in (0, 1) and self.twoway(a):
                return a if b == 1 else self.neg(a)
            big = [isinstance(x, tuple) and x[:2] == ("s", "big") for x in (a, b)]
            if op == "Eq" and big[0] and isinstance(b, int) and b < 3 or op == "Lt" and big[0] and isinstance(b, int) and b <= 3:
                return 0
            if op == "Lt" and big[1] and isinstance(a, int) and a < 3:
                return 1
            if op == "Eq" and isinstance(b, int):
                k = st.asm.get(a)
                if isinstance(k, int):
                    return int(k == b)
                if isinstance(k, tuple) and b in k[1]:
                    return 0
                return ("s", "eq", a, b)
            return ("s", op.lower(), a, b)
        return ("s", "op", op, a, b)

    def twoway(self, v):
        return isinstance(v, tuple) and v[:2] == ("s", "discr") and self.types.get(v[2], "").endswith(("Option", "Result", "ControlFlow"))

    def neg(self, v):
        if isinstance(v, int):
            return 1 - v
        if v[:2] == ("s", "not"):
            return v[2]
        return ("s", "not", v)

    def rvalue(self, st, fr, r, ty):
        (k, v), = r.items()
        if k == "Use":
            return self.operand(st, fr, v[0] if isinstance(v, list) else v)
        if k in ("Ref", "AddressOf"):
            pl, t = self.place(st, fr, v[-1])
            if pl[0][0] == "V" and not pl[1]:
                return pl[0][1]
            if pl[0][0] == "D" and not pl[1]:
                return pl[0][1]
            return ("ref",) + pl
        if k == "CopyForDeref":
            return self.read(st, self.place(st, fr, v)[0])
        if k == "BinaryOp":
            return self.binop(st, v[0], self.operand(st, fr, v[1]), self.operand(st, fr, v[2]))
        if k == "CheckedBinaryOp":
            return ("adt", None, None, (self.binop(st, v[0], self.operand(st, fr, v[1]), self.operand(st, fr, v[2])), 0))
        if k == "UnaryOp":
            x = self.operand(st, fr, v[1])
            if v[0] == "Not":
                if isinstance(x, int):
                    return 1 - x if x in (0, 1) else ("s", "op", "Not", x)
                return self.neg(x) if self.p.ty(ty).k == "bool" else ("s", "op", "Not", x)
            if v[0] == "PtrMetadata":
                return ("s", "len", self.deep(st, x))
            return ("s", "op", v[0], x)
        if k == "Cast":
            x = self.operand(st, fr, v[1])
            t = self.p.ty(v[2])
            if isinstance(x, int) and t.k in ("uint",) and t.size:
                return x & ((1 << 8 * t.size) - 1)
            ck = v[0]
            if ck == "IntToInt" and is_sym(x):
                o = self.optype(fr, v[1])
                if o is not None and o.size is not None and t.size is not None and t.size < o.size:
                    return ("s", "op", "truncate%d" % (8 * t.size), x)
            return x
        if k == "Aggregate":
            kind, ops = v
            fs = tuple(self.operand(st, fr, o) for o in ops)
            if isinstance(kind, dict) and "Adt" in kind:
                t = self.p.ty(ty)
                return ("adt", ty, kind["Adt"][1] if t.raw.get("adt") == "Enum" else None, fs)
            if isinstance(kind, dict) and "Closure" in kind:
                return ("adt", ty, None, fs)
            if isinstance(kind, dict) and "RawPtr" in kind:
                return fs[0]
            if kind == "Tuple":
                return ("adt", None, None, fs)
            return ("adt", None, None, fs) if isinstance(kind, dict) and "Array" in kind else ("s", "agg", fs)
        if k == "Repeat":
            self.operand(st, fr, v[0])
            return ("s", "array")
        if k == "Discriminant":
            pl, t = self.place(st, fr, v)
            x = self.read(st, pl)
            if isinstance(x, tuple) and x[0] == "adt":
                if x[2] is None:
                    return 0
                tt = self.p.ty(x[1] if x[1] is not None else t)
                if tt.variants:
                    return tt.variants[x[2]][1]
                return x[2]
            if isinstance(x, int):
                return x
            if isinstance(x, tuple) and x[0] == "kind":
                return self.kind_discr(self.p.ty(t), x)
            if is_sym(x):
                self.types.setdefault(x, self.p.ty(t).name or "")
                return ("s", "discr", x)
            raise Undecided("discriminant of %s" % str(x)[:60])
        raise Undecided("rvalue " + k)

    def kind_discr(self, t, x):
        for nm, d, fl in t.variants or []:
            if nm == "Interrupted":
                self.intr = d
                if x[1] == "interrupted":
                    return d
        return ("s", "errkind", x)

    def optype(self, fr, op):
        (k, v), = op.items()
        if k == "Constant":
            return self.p.ty(v["const_"]["ty"])
        if v["projection"]:
            last = v["projection"][-1]
            return self.p.ty(last["Field"][1]) if isinstance(last, dict) and "Field" in last else None
        return self.p.ty(self.p.body(self.p.fns[fr[0]])["locals"][v["local"]]["ty"])

    # ------------------------------------------------------------ control
    def where(self, st):
        """innermost function of the tool itself on the stack"""
        for fr in reversed(st.stack):
            f = self.p.fns[fr[0]]
            if f.krate == "blake2":
                return f.deff
        return "main"

    def violation(self, st, what):
        self.bad.setdefault((what, self.where(st)), [self.p.fns[fr[0]].deff for fr in st.stack])
        raise Stop()

    def undecided(self, st, what):
        self.und.setdefault(what, self.where(st))
        raise Stop()

    def decide(self, st, v, values=None):
        """-> [(state, int or None)] for a branch on v; None: none of `values`"""
        if isinstance(v, int):
            return [(st, v)]
        if v[:2] == ("s", "not"):
            return [(s, 1 - x) for s, x in self.decide(st, v[2], [0])]
        if v[:2] == ("s", "op") and v[2] in ("BitAnd", "BitOr", "BitXor") and values == [0]:
            out = []
            for s, x in self.decide(st, v[3], [0]):
                for s2, y in self.decide(s, v[4], [0]):
                    out.append((s2, int({"BitAnd": bool(x) and bool(y), "BitOr": bool(x) or bool(y), "BitXor": bool(x) != bool(y)}[v[2]])))
            return out
        boolean = v[:2] in (("s", "eq"), ("s", "lt")) or v[:2] == ("s", "opt")
        if self.twoway(v):
            values, boolean = [0], True
        if v[:2] == ("s", "errkind"):
            # any kind but Interrupted
            out = []
            for x in values:
                if x != self.intr:
                    out.append((st.copy(), x))
            return out + [(st, None)]
        k = st.asm.get(v)
        if v[:2] == ("s", "eq") and k is None and isinstance(v[3], int):
            kk = st.asm.get(v[2])
            if isinstance(kk, int):
                k = int(kk == v[3])
            elif isinstance(kk, tuple) and v[3] in kk[1]:
                k = 0
        if isinstance(k, int):
            return [(st, k if boolean or k in values else None)]
        no = k[1] if isinstance(k, tuple) else frozenset()
        out = []
        for x in values:
            if x in no:
                continue
            s = st.copy()
            s.asm[v] = x
            if v[:2] == ("s", "eq") and isinstance(v[3], int) and x == 1:
                s.asm[v[2]] = v[3]
            if v[:2] == ("s", "eq") and isinstance(v[3], int) and x == 0 and not isinstance(s.asm.get(v[2]), int):
                s.asm[v[2]] = ("not", (s.asm[v[2]][1] if v[2] in s.asm else frozenset()) | {v[3]})
            self.assumed(s, v, x)
            out.append((s, x))
        s = st.copy()
        if boolean:
            s.asm[v] = 1
            if v[:2] == ("s", "eq") and isinstance(v[3], int):
                s.asm[v[2]] = v[3]
            self.assumed(s, v, 1)
            out.append((s, 1))
        else:
            s.asm[v] = ("not", no | frozenset(values))
            self.assumed(s, v, None)
            out.append((s, None))
        return out

    def assumed(self, st, v, x):
        if v[:2] == ("s", "discr") and x == 1 and self.types.get(v[2], "").endswith("Result"):
            self.fail(st)

    def fail(self, st):
        st.w["fail"] = True
        st.w["unrep"] = True

    def run(self, f):
        self.intr = None
        st = St()
        st.stack, st.mem, st.asm, st.w = [(f.key, 0, None, None)], {}, {}, dict(W0)
        if self.preset:
            st.asm.update(self.preset)
        self.explore([st])

    def explore(self, work):
        seen = set()
        while work:
            st = work.pop()
            try:
                while True:
                    self.nsteps += 1
                    if self.nsteps > self.budget:
                        self.und["the state space is too large"] = "main"
                        return
                    fr = st.stack[-1]
                    f = self.p.fns[fr[0]]
                    self.fns.add(f.key)
                    if fr[1] in self.joins(f):
                        k = st.key()
                        if k in seen:
                            break
                        seen.add(k)
                    nxt = self.block(st, f, fr)
                    if len(nxt) == 1:
                        st = nxt[0]
                        continue
                    work.extend(nxt)
                    break
            except Stop:
                self.npaths += 1
            except Undecided as e:
                self.und.setdefault(str(e), self.where(st))
                self.npaths += 1

    def joins(self, f):
        j = self.merge.get(f.key)
        if j is None:
            n = {}
            for bl in self.p.body(f)["blocks"]:
                for t in succ(bl["terminator"]["kind"]):
                    n[t] = n.get(t, 0) + 1
            j = self.merge[f.key] = {b for b, c in n.items() if c > 1}
        return j

    def block(self, st, f, fr):
        b = self.p.body(f)["blocks"][fr[1]]
        for s in b["statements"]:
            k = s["kind"]
            if isinstance(k, str):
                continue
            (kk, v), = k.items()
            if kk == "Assign":
                pl, ty = self.place(st, fr, v[0])
                x = self.rvalue(st, fr, v[1], ty)
                self.write(st, pl, x)
            elif kk in ("StorageDead", "StorageLive"):
                st.mem.pop(("L", len(st.stack) - 1, v), None)
            elif kk == "SetDiscriminant":
                raise Undecided("SetDiscriminant")
        t = b["terminator"]["kind"]
        if isinstance(t, str):
            if t == "Return":
                return self.ret(st, fr)
            if t == "Unreachable":
                raise Stop()
            raise Stop()
        (kk, v), = t.items()
        if kk == "Goto":
            return [self.goto(st, v["target"])]
        if kk == "Drop":
            return [self.goto(st, v["target"])]
        if kk == "Assert":
            x = self.operand(st, fr, v["cond"])
            want = int(v["expected"])
            if isinstance(x, int):
                if x == want:
                    return [self.goto(st, v["target"])]
                self.panics(st)
            st.asm[x] = want
            return [self.goto(st, v["target"])]
        if kk == "SwitchInt":
            x = self.operand(st, fr, v["discr"])
            if not isinstance(x, int) and not is_sym(x):
                raise Undecided("branch on %s" % str(x)[:80])
            br = dict((int(a), c) for a, c in v["targets"]["branches"])
            other = v["targets"]["otherwise"]
            blocks = self.p.body(f)["blocks"]
            out = []
            for s, y in self.decide(st, x, list(br)):
                tgt = br.get(y, other) if y is not None else other
                tb = blocks[tgt]
                if not tb["statements"] and tb["terminator"]["kind"] == "Unreachable":
                    continue
                out.append(self.goto(s, tgt))
            return out
        if kk == "Call":
            return self.call(st, f, fr, v)
        raise Undecided("terminator " + kk)

    def goto(self, st, bb):
        fr = st.stack[-1]
        st.stack[-1] = (fr[0], bb) + fr[2:]
        return st

    def ret(self, st, fr):
        d = len(st.stack) - 1
        v = st.mem.get(("L", d, 0), UNIT)
        for k in [k for k in st.mem if k[0] == "L" and k[1] == d]:
            del st.mem[k]
        st.stack.pop()
        if not st.stack:
            if self.flat:
                self.result = v
                raise Stop()
            st.stack.append(fr)
            if isinstance(v, tuple) and v[0] == "adt" and v[2] == 1:
                st.w["unrep"] = False
                self.terminal(st, 1)
            self.terminal(st, 0)
        if fr[2] is not None:
            self.write(st, fr[2], v)
        return [self.goto(st, fr[3])]

    def finish(self, st, dest, target, v):
        if target is None:
            raise Stop()
        self.write(st, dest, v)
        return [self.goto(st, target)]

    def call(self, st, f, fr, v):
        fk, fv = next(iter(v["func"].items()))
        if fk == "Constant":
            t = self.p.ty(fv["const_"]["ty"])
        else:
            t = self.optype(fr, v["func"])
        inst = t.raw.get("inst") if t is not None else None
        g = self.p.fns.get(inst)
        args = [self.operand(st, fr, a) for a in v["args"]]
        dest, dty = self.place(st, fr, v["destination"])
        if g is None:
            raise Undecided("indirect call in " + f.deff)
        site = tuple((a[0], a[1]) for a in st.stack)
        site = self.sites.setdefault(site, len(self.sites))
        r = self.primitive(st, g, args, site, dty, v["target"])
        if r is not None:
            out = []
            for s, x in r:
                if v["target"] is None:
                    continue
                self.write(s, dest, x)
                out.append(self.goto(s, v["target"]))
            return out
        b = self.p.body(g)
        if b is None or len(st.stack) > 40:
            raise Undecided("call of " + g.deff)
        if re.search(r"\{closure#\d+\}$", g.deff) and len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "adt":
            args = [args[0]] + list(args[1][3])
        elif b.get("spread_arg"):
            k = b["spread_arg"] - 1
            if len(args) != b["arg_count"] and isinstance(args[-1], tuple) and args[-1][0] == "adt":
                args = args[:-1] + list(args[-1][3])
        if len(args) != b["arg_count"]:
            raise Undecided("arguments of " + g.deff)
        st.stack.append((g.key, 0, dest, v["target"] if v["target"] is not None else 0))
        d = len(st.stack) - 1
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a
        return [st]

    def fresh(self, st, site, what, args, ty=None):
        """result of an opaque call; an earlier result of the same site is forgotten"""
        v = ("s", "call", what, site) + tuple(("s", "deep") if depth(a) > 12 else a for a in args)
        old = ("s", "old", site)
        pred = lambda x: len(x) > 3 and x[0] == "s" and x[1] == "call" and x[3] == site
        self.forget(st, pred, old)
        if ty is not None:
            self.types[v] = self.p.ty(ty).name or ""
        return v

    def forget(self, st, pred, old):
        st.mem = {subst(k, pred, old): subst(x, pred, old) for k, x in st.mem.items()}
        st.asm = {k: x for k, x in st.asm.items() if subst(k, pred, old) == k}
        st.w = {k: subst(x, pred, old) for k, x in st.w.items()}

    # ------------------------------------------------------------ the protocol
    def opt(self, st, name):
        """what the path knows of an option: True (given), False, None (not examined)"""
        k = st.asm.get(("s", "opt", name) if name in FLAGS else ("s", "discr", ("s", "opt", name)))
        return bool(k) if isinstance(k, int) else None if k is None else True

    def sources(self, st):
        return dict(st.w["src"])

    def setsrc(self, st, src, val):
        d = self.sources(st)
        d[src] = val
        st.w["src"] = tuple(sorted(d.items(), key=repr))

    def source_of(self, st, v):
        v = self.deep(st, v)
        c = find(v, "file") | find(v, "stdin")
        if len(c) != 1:
            raise Undecided("what is read from cannot be told")
        return next(iter(c))

    def begin(self, st, src):
        self.setsrc(st, src, (False, False, None, False))

    def both(self, st, okv, errv=("err", "other")):
        s = st.copy()
        self.fail(s)
        return [(st, adt(0, okv)), (s, adt(1, errv))]

    def primitive(self, st, g, args, site, ty, target):
        n = g.deff
        last = re.sub(r"::<.*$|<.*>", "", n.split("::")[-1])
        kr = g.krate
        if self.flat:
            if last == "arg" and kr == "clap":
                self.clap_args.append(self.deep(st, args[1]))
            return [(st, self.fresh(st, site, n, [self.deep(st, a) for a in args], ty))]
        if kr in ("blake2b_simd", "blake2s_simd"):
            return self.hashing(st, g, n, last, args, site, ty)
        if last == "from_args" and kr == "structopt" or last in ("from_args_safe", "from_iter", "from_iter_safe") and kr == "structopt":
            return [(st, ("s", "opt") if "safe" not in last else adt(0, ("s", "opt")))]
        if kr == "std" and last == "exit":
            self.terminal(st, args[0])
        if kr == "std" and last in ("_print", "_eprint"):
            self.printing(st, self.deep(st, args[0]), last == "_eprint")
            return [(st, UNIT)]
        if last in ("write_fmt", "write_all") and kr in ("std", "alloc", "core"):
            w = repr(self.deep(st, args[0]))
            if "stdout" in w or "stderr" in w:
                self.printing(st, self.deep(st, args[1]), "stderr" in w)
                return [(st, adt(0, UNIT))]
            raise Undecided("write to " + w[:60])
        if last == "format" and "fmt" in n:
            return [(st, ("text", self.deep(st, args[0])))]
        if re.search(r"Argument.*::new_", n) or last.startswith("new_") and "Argument" in n:
            return [(st, ("fmtarg", self.deep(st, args[0])))]
        if "Arguments" in n and last.startswith(("new", "from_str")):
            return [(st, ("fmtv",) + tuple(self.deep(st, a) for a in args))]
        if kr == "std" and "fs::" in n and last == "open" or "OpenOptions" in n and last == "open":
            path = self.deep(st, args[-1])
            src = ("file", ("s", "item") if find(path, "s") and ("s", "item") in find(path, "s") else path)
            self.drop_source(st, src)
            r = self.both(st, src)
            self.begin(r[0][0], src)
            return r
        if kr == "std" and last in ("metadata",):
            return self.both(st, ("s", "meta", self.deep(st, args[0])))
        if kr == "std" and n.endswith("Metadata::len"):
            return [(st, ("s", "metalen", self.deep(st, args[0])))]
        if kr == "std" and "io::" in n and last == "stdin":
            if ("stdin",) not in self.sources(st):
                self.begin(st, ("stdin",))
            return [(st, ("stdin",))]
        if "Stdin::lock" in n or n.endswith("::by_ref"):
            return [(st, self.deep(st, args[0]))]
        if "BufReader" in n and last in ("new", "with_capacity"):
            return [(st, self.deep(st, args[-1]))]
        if kr in ("std", "alloc") and last == "read" and ("Read>" in n or "io::Read for" in n or "Read::read" in n):
            return self.reading(st, args, site)
        if kr in ("std", "alloc") and last in ("read_to_end", "read_exact", "read_to_string", "copy", "read_vectored", "fill_buf", "bytes") and ("io" in n or "Read" in n):
            if last == "read_to_end":
                return self.read_all(st, args)
            raise Undecided("call of " + n)
        if "fs::" in n and last == "read" and kr == "std":
            path = self.deep(st, args[-1])
            src = ("file", ("s", "item") if ("s", "item") in find(path, "s") else path)
            r = self.both(st, ("all", src, None))
            self.setsrc(r[0][0], src, (True, False, None, False))
            return r
        if kr == "memmap":
            return self.mapping(st, n, last, args)
        if "io::Error" in n and last == "kind" or "Error::kind" in n:
            e = self.deep(st, args[0])
            es = find(e, "err")
            if len(es) == 1:
                return [(st, ("kind", next(iter(es))[1]))]
            return [(st, self.fresh(st, site, n, [e], ty))]
        if "ErrorKind" in n and last in ("eq", "ne"):
            return self.kind_eq(st, args, last)
        if "io::Error" in n and last in ("new", "other", "new_const") or kr == "failure" and last in ("err_msg", "from_boxed_compat"):
            st.w["explicit"] = True
            return [(st, ("s", "error"))]
        if last in ("from", "into") and len(args) == 1 and kr in ("failure", "std", "alloc", "core") and (find(args[0], "err") or kr == "failure"):
            return [(st, self.deep(st, args[0]))]
        if last in ("to_string", "to_owned", "clone", "to_vec", "into_string", "into_boxed_slice") and len(args) == 1 and kr in ("alloc", "core", "std"):
            return [(st, self.deep(st, args[0]))]
        if last in ("deref", "deref_mut", "as_slice", "as_ref", "as_str", "as_bytes", "borrow", "as_path", "as_mut", "as_mut_slice", "as_os_str") and kr in ("alloc", "std", "arrayvec", "core") \
                and not ("Option" in n or "Result" in n or "Pin" in n):
            v = args[0]
            w = self.deep(st, v)
            if w == ("s", "opt", "inputs") or w == ("s", "item"):
                return [(st, w)]
            return [(st, v)]
        if last in ("is_empty", "len") and len(args) == 1 and kr in ("alloc", "core"):
            v = ("s", "len", self.deep(st, args[0]))
            return [(st, self.binop(st, "Eq", v, 0) if last == "is_empty" else v)]
        if last in ("into_iter", "iter") and len(args) == 1 and self.deep(st, args[0]) == ("s", "opt", "inputs"):
            st.w["iter"] = "start"
            return [(st, ("iter", "inputs"))]
        if last == "next" and len(args) == 1 and self.deep(st, args[0]) == ("iter", "inputs"):
            return self.next_input(st)
        if last in ("index", "index_mut", "get_unchecked") and len(args) == 2 and kr in ("core", "alloc", "std"):
            return self.slicing(st, args, n)
        if last in ("panic", "panic_fmt", "panic_display", "begin_panic", "unwrap_failed", "expect_failed", "panic_bounds_check", "slice_end_index_len_fail") or target is None:
            self.panics(st)
        if last in ("size_of", "align_of", "drop_in_place", "drop", "forget", "black_box", "assert_inhabited", "flush"):
            if last == "black_box":
                return [(st, args[0])]
            return [(st, UNIT if last != "flush" else adt(0, UNIT))]
        if g.intrinsic or g.kind == "Intrinsic":
            if last == "discriminant_value":
                raise Undecided("discriminant_value")
            return [(st, ("s", "op", last) + tuple(self.deep(st, a) for a in args))]
        if kr == "blake2" or kr in ("core", "alloc") and g.raw and not re.search(r"fmt|string|vec::|slice::|str::|num::|alloc::|Box|iter::", n):
            return None
        if kr in ("core", "alloc") and g.raw and re.search(r"iter::|Option|Result|ops::", n):
            return None
        # opaque: the result is a function of the arguments; what it may write through a reference is forgotten
        av = [self.deep(st, a) for a in args]
        v = self.fresh(st, site, n, av, ty)
        for a in args:
            if isinstance(a, tuple) and a[0] == "ref" and self.mutable(g, args.index(a)):
                x = self.deep(st, a)
                if find(x, "st") or find(x, "params") or find(x, "file") or find(x, "stdin"):
                    raise Undecided("call of %s with a %s" % (n, x[0]))
                self.write(st, (a[1], a[2]), ("s", "call", "effect of " + n, site))
        return [(st, v)]

    def mutable(self, g, i):
        a = g.abi_args
        if not a or i >= len(a):
            return True
        t = self.p.ty(a[i])
        return t.k in ("ref", "ptr") and t.mut

    def drop_source(self, st, src):
        """a file opened anew: what was known of the handle of the same name before is gone"""
        d = self.sources(st)
        d.pop(src, None)
        st.w["src"] = tuple(sorted(d.items(), key=repr))

    def hashing(self, st, g, n, last, args, site, ty):
        a = ("b" if g.krate == "blake2b_simd" else "s") + ("p" if re.search(r"blake2[bs]p\b", n) else "")
        if "Params" in n and last in ("new", "default"):
            return [(st, ("params", a, frozenset()))]
        if last in ("clone",):
            return [(st, self.deep(st, args[0]))]
        if "Params" in n and last == "to_state":
            p = self.deep(st, args[0])
            if p[0] != "params":
                raise Undecided("to_state of %s" % str(p)[:60])
            self.check_params(st, p)
            return [(st, ("st", p, None))]
        if "State" in n and last in ("new", "default"):
            p = ("params", a, frozenset())
            self.check_params(st, p)
            return [(st, ("st", p, None))]
        if "Params" in n and last == "hash":
            p = self.deep(st, args[0])
            self.check_params(st, p)
            return [(st, ("hash", ("st", p, self.absorb(st, None, args[1]))))]
        if "Params" in n:
            p = self.deep(st, args[0])
            if p[0] != "params":
                raise Undecided("%s of %s" % (last, str(p)[:60]))
            s = frozenset(x for x in p[2] if x[0] != last) | {(last, self.deep(st, args[1]))}
            self.write(st, (args[0][1], args[0][2]), ("params", a, s))
            return [(st, args[0])]
        if "State" in n and last == "update":
            s = self.deep(st, args[0])
            if s[0] != "st":
                raise Undecided("update of %s" % str(s)[:60])
            self.write(st, (args[0][1], args[0][2]), ("st", s[1], self.absorb(st, s[2], args[1])))
            return [(st, args[0])]
        if "State" in n and last == "finalize":
            s = self.deep(st, args[0])
            if s[0] != "st":
                raise Undecided("finalize of %s" % str(s)[:60])
            return [(st, ("hash", s))]
        if "Hash" in n and last in ("to_hex",):
            return [(st, ("hex", self.deep(st, args[0])))]
        raise Undecided("call of " + n)

    def absorb(self, st, before, arg):
        """what a state has absorbed after one more update"""
        v = arg
        if isinstance(v, tuple) and v[0] == "ref":
            v = self.read(st, (v[1], v[2]))
        if isinstance(before, tuple) and before[0] == "broken":
            return before
        if v and v[0] == "all":
            if before is not None:
                return ("broken", "a whole file and something else")
            return ("absorbed", v[1])
        part = None
        if v and v[0] == "part":
            part = v[2]
            v = self.read(st, v[1])
        if v and v[0] == "chunk":
            src = v[1]
            c = self.sources(st).get(src)
            if part is None:
                return ("broken", "a whole buffer where only part of it was filled")
            if part != v[2]:
                if find(part, "s") and not isinstance(part, int) and ("s", "op") == part[:2] and part[2] in ("Sub", "Add", "Mul", "Div", "BitAnd"):
                    return ("broken", "another number of bytes than was read")
                if isinstance(part, int):
                    return ("broken", "another number of bytes than was read")
                raise Undecided("how much of the buffer is absorbed")
            if c is None or c[2] is None:
                return ("broken", "a part of the input twice")
            if before not in (None, ("absorbed", src)):
                return ("broken", "more than one input")
            self.setsrc(st, src, (c[0], c[1], None, c[3]))
            return ("absorbed", src)
        raise Undecided("absorbing %s" % str(v)[:80])

    def slicing(self, st, args, n):
        base, rng = args
        if isinstance(rng, tuple) and rng[0] == "adt":
            nm = self.p.ty(rng[1]).name if rng[1] is not None else ""
            kind = (nm or "").split("::")[-1]
            if kind == "RangeFull":
                return [(st, base)]
            if kind == "RangeTo" or kind == "Range" and rng[3][0] == 0:
                hi = rng[3][-1]
                if isinstance(base, tuple) and base[0] == "ref":
                    x = self.read(st, (base[1], base[2]))
                    if x[0] == "chunk":
                        return [(st, ("part", (base[1], base[2]), hi))]
            return [(st, ("s", "op", "slice " + kind, self.deep(st, base), self.deep(st, rng)))]
        raise Undecided("index")

    def reading(self, st, args, site):
        src = self.source_of(st, args[0])
        buf = args[1]
        if not (isinstance(buf, tuple) and buf[0] == "ref"):
            raise Undecided("read into %s" % str(buf)[:60])
        self.may_read(st, src)
        c = self.sources(st).get(src)
        if c is None:
            raise Undecided("read from an unknown source")
        lost = c[1] or c[2] is not None
        fails = c[3]
        num = self.fresh(st, site, "n", [src])
        bp = (buf[1], buf[2])
        out = []
        s = st.copy()          # end of input
        self.setsrc(s, src, (True, lost, None, fails))
        out.append((s, adt(0, 0)))
        s = st.copy()          # some bytes
        self.setsrc(s, src, (False, lost, num, fails))
        self.write(s, bp, ("chunk", src, num))
        s.asm[num] = ("not", frozenset([0]))
        out.append((s, adt(0, num)))
        s = st.copy()          # interrupted
        self.setsrc(s, src, (c[0], lost, None, fails or "interrupted"))
        out.append((s, adt(1, ("err", "interrupted"))))
        s = st.copy()          # failed
        self.setsrc(s, src, (c[0], lost, None, "failed"))
        self.fail(s)
        out.append((s, adt(1, ("err", "other"))))
        self.ok.add("read at %s: end of input, data, interruption and failure followed" % self.where(st))
        return out

    def read_all(self, st, args):
        src = self.source_of(st, args[0])
        self.may_read(st, src)
        c = self.sources(st).get(src)
        r = self.both(st, ("s", "total"))
        s = r[0][0]
        self.setsrc(s, src, (True, c[1] or c[2] is not None, None, c[3]))
        self.write(s, (args[1][1], args[1][2]), ("all", src, None))
        return r

    def may_read(self, st, src):
        m = self.opt(st, "mmap")
        if m is not False and self.opt_known():
            self.violation(st, "the mmap option is %s when %s is read" % ("given" if m else "not looked at", "standard input" if src == ("stdin",) else "a file"))

    def opt_known(self):
        return "mmap" in self.optname.values()

    def mapping(self, st, n, last, args):
        if n.endswith("MmapOptions::new"):
            return [(st, ("mo", None, 0))]
        if last in ("len", "offset"):
            v = self.deep(st, args[0])
            v = ("mo", args[1], v[2]) if last == "len" else ("mo", v[1], args[1])
            self.write(st, (args[0][1], args[0][2]), v)
            return [(st, args[0])]
        if last == "map":
            src = self.source_of(st, args[-1])
            m = self.deep(st, args[0]) if "MmapOptions" in n else ("mo", None, 0)
            if self.opt(st, "mmap") is not True and self.opt_known():
                self.violation(st, "a file is mapped without the mmap option")
            why = None
            if m[2] != 0:
                why = "the map does not start at the beginning of the file"
            elif m[1] is not None:
                ok = m[1][:2] == ("s", "metalen") and find(m[1], "file") == {src} if isinstance(m[1], tuple) else False
                if not ok:
                    if isinstance(m[1], tuple) and m[1][:2] == ("s", "op") or isinstance(m[1], int):
                        why = "the map does not have the length of the file"
                    else:
                        raise Undecided("length of the map")
            r = self.both(st, ("all", src, why))
            if why is None:
                self.setsrc(r[0][0], src, (True, False, None, False))
            return r
        if last in ("deref", "as_ref"):
            return [(st, args[0])]
        raise Undecided("call of " + n)

    def kind_eq(self, st, args, last):
        a, b = self.deep(st, args[0]), self.deep(st, args[1])
        if a[0] != "kind":
            a, b = b, a
        if a[0] != "kind" or b[0] != "adt" or b[1] is None:
            raise Undecided("comparison of error kinds")
        t = self.p.ty(b[1])
        isint = t.variants[b[2]][0] == "Interrupted" if t.variants else False
        if a[1] == "interrupted":
            r = int(isint)
            return [(st, r if last == "eq" else 1 - r)]
        if isint:
            return [(st, 0 if last == "eq" else 1)]
        return [(st.copy(), 0), (st, 1)]

    def next_input(self, st):
        w = st.w
        if w["item"] == "current":
            self.violation(st, "the next input is taken up before the current one was hashed or reported")
        ln = ("s", "len", ("s", "opt", "inputs"))
        empty = st.asm.get(ln) == 0 or st.asm.get(("s", "eq", ln, 0)) == 1
        out = []
        s = st.copy()
        s.w["iter"], s.w["item"] = "done", None
        if w["iter"] != "start" or empty or st.asm.get(("s", "eq", ln, 0)) is None:
            out.append((s, adt(0)))
        if not empty:
            s = st.copy()
            s.w["iter"], s.w["item"] = "more", "current"
            s.w["eprinted"] = False
            s.w["src"] = ()
            pred = lambda x: len(x) == 3 and x[0] == "s" and x[1] == "discr" and x[2] == ("s", "item")
            out.append((s, adt(1, ("s", "item"))))
        return out

    def printing(self, st, v, err):
        hs = find(v, "hash")
        if err:
            st.w["unrep"] = False
            st.w["eprinted"] = True
            if st.w["item"] == "current":
                if not st.w["fail"] and not st.w["explicit"]:
                    pass
                else:
                    st.w["item"] = "reported"
            return
        if not hs and any(x[1] in ("call", "deep", "old", "undef", "*") and x[:4] != ("s", "call", "effect", 0) for x in find(v, "s") if not self.about_item(x)):
            raise Undecided("what is printed on standard output")
        for h in hs:
            self.check_print(st, h[1])

    def about_item(self, v):
        return ("s", "item") in find(v, "s") and not find(v, "st")

    def check_print(self, st, h):
        ab = h[2]
        srcs = self.sources(st)
        if isinstance(ab, tuple) and ab[0] == "broken":
            self.violation(st, "the hash printed absorbed %s" % ab[1])
        if ab is None:
            cand = [s for s in srcs]
            if len(cand) != 1:
                self.violation(st, "a hash is printed although no input was read")
            src = cand[0]
        else:
            src = ab[1]
        c = srcs.get(src)
        if c is None:
            raise Undecided("source of the hash printed")
        if c[3] == "failed":
            self.violation(st, "a hash is printed although reading the input failed")
        if c[1] or c[2] is not None:
            self.violation(st, "a hash is printed that lacks data that was read")
        if not c[0]:
            self.violation(st, "a hash is printed before the end of the input was reached")
        if st.w["item"] == "current":
            if src != ("file", ("s", "item")):
                self.violation(st, "the hash printed is not that of the input named")
            st.w["item"] = "printed"
        elif st.w["item"] in ("printed", "reported"):
            self.violation(st, "an input is printed twice")
        else:
            if src != ("stdin",):
                raise Undecided("hash of %s" % str(src)[:60])
            st.w["item"] = "printed-stdin"
        if st.w["unrep"]:
            self.violation(st, "a hash is printed although an operation on the input failed")
        self.ok.add("%s: hash printed only after the complete input" % ("standard input" if src == ("stdin",) else "file"))

    def panics(self, st):
        # the panic message goes to standard error and the status is 101
        st.w["unrep"] = False
        self.terminal(st, 101)

    def terminal(self, st, code):
        w = st.w
        if not isinstance(code, int):
            raise Undecided("exit status")
        cause = w["fail"] or self.unsupported(st)
        if not self.preset_complete(st):
            cause = True if code else cause
        if code == 0:
            if w["fail"]:
                self.violation(st, "exit status 0 although something failed")
            if w["iter"] in ("start", "more"):
                self.violation(st, "exit status 0 although not all inputs were tried")
            if w["iter"] is None and w["item"] != "printed-stdin":
                self.violation(st, "exit status 0 although nothing was printed")
        else:
            if w["unrep"] or w["explicit"] and not w["eprinted"] and code != 101:
                self.violation(st, "a failure is not reported on standard error")
            if not cause:
                if w["explicit"] and self.size_limit(st):
                    pass
                elif any(c[3] == "interrupted" for c in self.sources(st).values()):
                    self.violation(st, "an interrupted read is not retried")
                elif code == 101:
                    raise Undecided("panic")
                else:
                    self.violation(st, "the tool fails although nothing failed")
            if w["iter"] in ("start", "more") :
                self.violation(st, "the remaining inputs are not tried after a failure")
        self.ok.add("exit status %s when %s" % ("0" if code == 0 else "not 0", "nothing failed" if code == 0 else "something failed"))
        raise Stop()

    def preset_complete(self, st):
        return True

    def size_limit(self, st):
        """the path compares the size of the file with zero or an enormous bound"""
        for k, x in st.asm.items():
            if k[:2] in (("s", "lt"), ("s", "eq")) and find(k, "s") and any(y[:2] == ("s", "metalen") for y in find(k, "s")):
                b = [y for y in k[2:] if isinstance(y, int)]
                if b and (b[0] >= 1 << 40 or b[0] == 0 and x == 1):
                    return True
                if not b:
                    return True
            if k[:2] == ("s", "metalen") and x == 0:
                return True
            # limits of a parameter checked by the tool itself
            if k[:2] in (("s", "lt"), ("s", "eq")) and any(len(y) == 3 and y[:2] == ("s", "opt") for y in find(k, "s")):
                return True
        return False

    def unsupported(self, st):
        o = lambda n: self.opt(st, n)
        if o("b") and o("s"):
            return True
        if o("p") and any(o(n) for n in SEQ_ONLY):
            return True
        ln = ("s", "len", ("s", "opt", "inputs"))
        if o("mmap") and st.asm.get(("s", "eq", ln, 0)) == 1:
            return True
        return False

    # ------------------------------------------------------------ options
    def check_params(self, st, p):
        alg, sets = p[1], dict(p[2])
        name = NAMES[alg]
        o = lambda n: self.opt(st, n)
        for flag, want in (("s", alg[0] == "s"), ("p", alg.endswith("p"))):
            k = o(flag)
            if k is None:
                self.violation(st, "-%s is not looked at before %s is chosen" % (flag, name))
            if k != want:
                self.violation(st, "%s is chosen %s -%s" % (name, "with" if k else "without", flag))
        if o("s") and o("b") is not False:
            self.violation(st, "-b is ignored when -s is given")
        for n in SETTABLE:
            k = o(n)
            arg = sets.get(SETTER[n])
            if alg.endswith("p") and n in SEQ_ONLY:
                if k is not False:
                    self.violation(st, "--%s is ignored by %s instead of being an error" % (n, name))
                self.ok.add("--%s with %s is an error" % (n, name))
                continue
            me = ("s", "opt", n)
            if n == "last-node":
                if arg is None and k is False or arg == me or isinstance(arg, int) and k is not None and bool(arg) == k:
                    self.ok.add("--%s reaches %s" % (n, name))
                    continue
                self.violation(st, "--%s does not determine last_node of %s" % (n, name))
            if k is None:
                self.violation(st, "--%s is not looked at for %s" % (n, name))
            if k is False:
                if arg is not None:
                    if arg is None or find(arg, "s"):
                        raise Undecided("%s set without --%s" % (SETTER[n], n))
                    self.violation(st, "%s of %s is set although --%s is not given" % (SETTER[n], name, n))
                self.ok.add("without --%s %s keeps its default" % (n, name))
                continue
            if arg is None:
                self.violation(st, "--%s does not reach %s of %s" % (n, SETTER[n], name))
            if isinstance(arg, int):
                self.violation(st, "--%s is replaced by a constant in %s of %s" % (n, SETTER[n], name))
            from_opts = {x[2] for x in find(arg, "s") if x[:2] == ("s", "opt") and len(x) == 3}
            if from_opts != {n}:
                if from_opts:
                    self.violation(st, "%s of %s comes from --%s" % (SETTER[n], name, ", --".join(sorted(from_opts))))
                raise Undecided("argument of %s" % SETTER[n])
            val = ("s", "f", 1, 0, me)
            strip = arg
            ops = [x for x in find(arg, "s") if x[:2] == ("s", "op")]
            if ops:
                self.violation(st, "--%s is changed (%s) on its way to %s of %s" % (n, ", ".join(sorted(x[2] for x in ops)), SETTER[n], name))
            if n in ("key", "salt", "personal"):
                calls = [x for x in find(arg, "s") if x[:2] == ("s", "call")]
                good = len(calls) == 1 and calls[0][2].startswith("hex::decode") and val in find(calls[0], "s")
                if not good:
                    raise Undecided("--%s reaches %s through %s" % (n, SETTER[n], ", ".join(sorted(x[2] for x in calls)) or "?"))
            elif strip != val:
                raise Undecided("--%s reaches %s in another form" % (n, SETTER[n]))
            self.ok.add("--%s reaches %s of %s" % (n, SETTER[n], name))
        extra = set(sets) - set(SETTER.values())
        if extra:
            raise Undecided("setter %s" % sorted(extra))
        self.ok.add("%s is chosen exactly by -s and -p" % name)
        if self.stop_at_state:
            raise Stop()


def succ(t):
    if isinstance(t, str):
        return []
    (k, v), = t.items()
    if k == "SwitchInt":
        return [b for _, b in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
    x = v.get("target")
    return [x] if x is not None else []
