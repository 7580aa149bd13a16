"""Program model: decodes the dump written by driver/dump.rs."""
import json


class Imprecise(Exception):
    """The analysis cannot represent something (never a verdict by itself)."""


class Ty:
    __slots__ = ("id", "s", "k", "size", "align", "fields", "variants", "tag", "elem", "n", "repr", "raw", "drop",
                 "name", "uninhabited", "scalar", "mut", "inst", "discr", "single")

    def __repr__(self):
        return "<ty %s>" % self.s


class Fn:
    __slots__ = ("key", "name", "kind", "krate", "deff", "span", "ty", "tf", "link", "intrinsic", "raw", "_body", "args", "abi_args", "abi_ret", "cfg")


def bits(x):
    return None if x is None else x["num_bits"] // 8


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = dict(d["roots"])
        self.rawtypes = d["types"]
        self.allocs = d["allocs"]
        self.spans = d["spans"]
        self.features = frozenset()       # what the build assumes of every CPU
        self.big = False                  # byte order of the target
        self.ptr = 8                      # bytes of a pointer
        self.tys = {}
        self.fns = {}
        for k, f in d["fns"].items():
            x = Fn()
            x.key = k
            x.name = f["name"]
            x.kind = f["kind"]
            x.krate = f.get("krate")
            x.deff = f.get("def")
            x.span = f.get("span")
            x.ty = f.get("ty")
            x.tf = f.get("target_features") or []
            x.link = f.get("link_name")
            x.intrinsic = f.get("intrinsic")
            x.raw = f.get("body")
            x.args = f.get("args")
            x.abi_args = f.get("abi_args")
            x.abi_ret = f.get("abi_ret")
            x._body = None
            x.cfg = None
            self.fns[k] = x

    def span(self, i):
        return self.spans.get(str(i), "?")

    def body(self, f):
        if f._body is None and f.raw is not None:
            f._body = json.loads(f.raw)
        return f._body

    def root(self, suffix):
        for n, k in self.roots.items():
            if n == suffix or n.endswith("::" + suffix):
                return self.fns[k]
        return None

    def ty(self, i):
        t = self.tys.get(i)
        if t is not None:
            return t
        r = self.rawtypes[str(i)]
        t = Ty()
        self.tys[i] = t
        t.id = i
        t.s = r["s"]
        kind = r["kind"]
        t.raw = kind
        t.k = kind["k"]
        t.drop = r.get("drop")
        t.name = kind.get("name")
        t.elem = kind.get("e")
        t.n = kind.get("n")
        t.inst = kind.get("inst")
        t.mut = kind.get("mut")
        t.fields = None
        t.variants = None
        t.tag = None
        t.single = 0
        t.discr = None
        t.uninhabited = False
        t.size = None
        t.align = 1
        t.repr = None
        t.scalar = False
        lay = r.get("layout")
        if not lay or lay[0] != "{":
            return t
        L = json.loads(lay)
        vr = L["value_repr"]
        t.repr = vr if isinstance(vr, str) else next(iter(vr))
        t.scalar = t.repr == "Scalar"
        sized = True
        if t.repr == "Aggregate" and isinstance(vr, dict):
            sized = vr["Aggregate"].get("sized", True)
        t.align = L["abi_align"]
        if isinstance(t.align, dict):
            t.align = t.align.get("num_bits", 8) // 8
        t.size = L["size"]["num_bits"] // 8 if sized else None
        v = L["variants"]
        offs = None
        if isinstance(L["fields"], dict) and "Arbitrary" in L["fields"]:
            offs = [o["num_bits"] // 8 for o in L["fields"]["Arbitrary"]["offsets"]]
        if v == "Empty":
            t.uninhabited = True
        if t.k == "adt":
            vs = kind["v"]
            if isinstance(v, dict) and "Multiple" in v:
                m = v["Multiple"]
                t.variants = []
                for i2, vv in enumerate(vs):
                    vo = [o["num_bits"] // 8 for o in m["variants"][i2]["offsets"]]
                    t.variants.append((vv["name"], int(vv.get("d") or i2), [(o, f[1]) for o, f in zip(vo, vv["f"])]))
                tagoff = offs[m["tag_field"]]
                tag = m["tag"]
                init = tag.get("Initialized") or tag.get("Union")
                tv = init["value"]
                if "Int" in tv:
                    tsz = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[tv["Int"]["length"]]
                else:
                    tsz = self.ptr
                t.tag = (tagoff, tsz, m["tag_encoding"])
            elif vs:
                idx = 0
                if isinstance(v, dict) and "Single" in v:
                    idx = v["Single"]["index"]
                    if isinstance(idx, list):
                        idx = idx[0]
                t.single = idx
                vv = vs[idx] if idx < len(vs) else {"f": [], "name": "?"}
                if offs is not None:
                    t.fields = [(o, f[1]) for o, f in zip(offs, vv["f"])]
                elif kind.get("adt") == "Union" or isinstance(L["fields"], dict) and "Union" in L["fields"]:
                    t.fields = [(0, f[1]) for f in vv["f"]]
                else:
                    t.fields = [(0, f[1]) for f in vv["f"]]
                t.variants = None
                if kind.get("adt") == "Enum":
                    t.discr = int(vv.get("d") or idx)
        elif t.k in ("tuple", "closure"):
            fs = kind.get("f") or []
            if offs is None:
                offs = [0] * len(fs)
            t.fields = list(zip(offs, fs))
        return t

    def fat(self, tid):
        """is a pointer to type tid fat?"""
        t = self.ty(tid)
        return t.k in ("slice", "str", "dyn") or (t.size is None and t.repr is not None and self.tailfat(t))

    def tailfat(self, t):
        if t.k in ("slice", "str", "dyn"):
            return True
        if t.fields:
            return self.tailfat(self.ty(t.fields[-1][1]))
        return False
