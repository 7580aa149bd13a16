"""What the program can reach at all: crates, foreign functions, statics, thread-locals, inline assembly.

Works on the call graph of the resolved program: every function mentioned in a body (called, turned into a pointer, or
run as drop glue) is an edge, so function pointers need no resolution.  Calls that do not return (panics) are cut."""
import json
import re
from .interp import Interp


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def edges(self, f):
        """[(callee key, span)], {alloc ids}, other facts"""
        r = self.memo.get(f.key)
        if r is None:
            r = self.memo[f.key] = self.scan(f)
        return r

    def scan(self, f):
        b = self.p.body(f)
        callees, allocs, facts = [], set(), []
        if b is None:
            return callees, allocs, facts
        for blk in b["blocks"]:
            for s in blk["statements"]:
                self.walk(s, callees, allocs, facts, s.get("source_info", {}).get("span"))
            t = blk["terminator"]
            sp = t.get("source_info", {}).get("span", t.get("span"))
            k = t["kind"]
            if isinstance(k, dict) and "Call" in k and k["Call"].get("target") is None:
                continue
            if isinstance(k, dict) and "InlineAsm" in k:
                facts.append(("asm", json.dumps(k["InlineAsm"].get("template")), sp))
            if isinstance(k, dict) and "Drop" in k:
                pl = k["Drop"]["place"]
                ty = self.place_ty(b, pl)
                if ty is not None and ty.drop:
                    callees.append((ty.drop, sp))
            self.walk(k, callees, allocs, facts, sp)
        return callees, allocs, facts

    def place_ty(self, b, pl):
        if pl.get("projection"):
            return None
        l = b["locals"][pl["local"]] if isinstance(b["locals"], list) else None
        return self.p.ty(l["ty"]) if l else None

    def walk(self, x, callees, allocs, facts, sp):
        if isinstance(x, list):
            for y in x:
                self.walk(y, callees, allocs, facts, sp)
            return
        if not isinstance(x, dict):
            return
        if "ThreadLocalRef" in x:
            facts.append(("thread-local", str(x["ThreadLocalRef"]), sp))
        c = x.get("const_")
        if isinstance(c, dict):
            ti = c.get("ty")
            if ti is not None:
                try:
                    t = self.p.ty(ti)
                except KeyError:
                    t = None
                if t is not None and t.k == "fndef" and t.inst:
                    callees.append((t.inst, sp))
            k = c.get("kind")
            if isinstance(k, dict) and "Allocated" in k:
                for _, a in (k["Allocated"].get("provenance", {}).get("ptrs") or []):
                    allocs.add(str(a))
        for y in x.values():
            if isinstance(y, (dict, list)):
                self.walk(y, callees, allocs, facts, sp)

    def reach(self, roots):
        """{function key: (parent key, span)} and {alloc id: function}"""
        seen = {k: None for k in roots}
        work = list(roots)
        al = {}
        while work:
            k = work.pop()
            f = self.p.fns.get(k)
            if f is None:
                continue
            cs, allocs, _ = self.edges(f)
            stack = [a for a in allocs]
            while stack:
                a = stack.pop()
                if a in al:
                    continue
                al[a] = k
                d = self.p.allocs.get(a) or {}
                if "fn" in d:
                    cs = cs + [(d["fn"], None)]
                if "vtable" in d and d["vtable"] is not None:
                    stack.append(str(d["vtable"]))
                m = d.get("memory") or d.get("init")
                if m:
                    for _, q in (m.get("provenance", {}).get("ptrs") or []):
                        stack.append(str(q))
            for c, sp in cs:
                if c not in seen and c in self.p.fns:
                    seen[c] = (k, sp)
                    work.append(c)
        return seen, al

    def path(self, seen, k):
        out = []
        while k is not None:
            out.append(self.p.fns[k].name)
            e = seen.get(k)
            k = e[0] if e else None
        return out[::-1]


# ------------------------------------------------------------------ rules
AMBIENT = re.compile(r"^(std|core|alloc)::(time|env|thread|fs|net|process|os|sync|backtrace|panic::catch|io::(stdio|stdin|stdout|stderr))\b|::hash::random::|RandomState|^std::sys::|^<std::(time|thread|fs|net|process|sync)::")
CPU_STATE = re.compile(r"rdtsc|rdrand|rdseed|rdpid|rdpmc|readcyclecounter|xgetbv|cpuid|syscall|int\s+0x80|rdfsbase|rdgsbase|stc|random", re.I)
LIB = ("core", "alloc", "std", "std_detect", "compiler_builtins")


def hashing_roots(p):
    return [k for n, k in p.roots.items() if "::debug_" not in n and "io_" not in n]


def repo_site(p, seen, k):
    """the last function of the path to k outside the standard library, and the path"""
    names = []
    site = None
    while k is not None:
        f = p.fns[k]
        names.append(f.name)
        if site is None and f.krate not in LIB:
            sp = f.span if isinstance(f.span, str) else p.span(f.span)
            site = "%s (%s)" % (f.name, sp)
        e = seen.get(k)
        k = e[0] if e else None
    return site or names[-1], names[::-1]


def static_facts(d):
    i = d.get("init")
    mut = i is None or i.get("mutability") != "Not"
    return d["static"], mut


def no_hidden_state(res, p, label=""):
    """no mutable static, thread-local, clock, environment, randomness or foreign call is reachable from a public operation"""
    g = Graph(p)
    seen, al = g.reach(list(p.roots.values()))
    n = 0
    control = False

    def bad(kind, what, k, extra=""):
        site, path = repo_site(p, seen, k)
        res.violation("hidden-state%s/%s/%s" % (label, kind, what), "a public operation reaches %s %s" % (kind, what), site, {"call_path": path[-12:], "detail": extra})
    for a, k in sorted(al.items()):
        d = p.allocs.get(a) or {}
        if "static" in d:
            name, mut = static_facts(d)
            n += 1
            if name.startswith("std_detect::"):
                control = True
                continue
            if mut:
                bad("mutable static", name, k)
            else:
                res.ok("static %s%s is immutable" % (name, label))
    for k in sorted(seen):
        f = p.fns[k]
        n += 1
        if f.krate == "std_detect":
            continue
        if f.raw is None and not f.intrinsic and f.krate not in ("core", "alloc", "std"):
            if f.kind and "Virtual" in f.kind:
                continue
            bad("foreign function", f.name, k, f.link or "")
        elif f.krate in ("std", "alloc") and AMBIENT.search(f.name):
            bad("ambient state", f.name, k)
        elif f.raw is None and f.link and CPU_STATE.search(f.link):
            bad("processor state", f.name, k, f.link)
        for kind, what, sp in g.edges(f)[2]:
            if kind == "thread-local":
                bad("thread-local", f.name, k, what)
            elif kind == "asm" and CPU_STATE.search(re.sub(r"span: [^ ]*", "", what)):
                bad("inline assembly", f.name, k, what)
    res.ok("no hidden state reachable%s: %d functions, %d allocations" % (label, len(seen), len(al)))
    res.stats["functions"] = sorted("%s (%s)" % (p.fns[k].name, p.fns[k].span if isinstance(p.fns[k].span, str) else p.span(p.fns[k].span)) for k in seen if p.fns[k].krate not in LIB + ("vharness",))
    res.stats["paths"] = len(seen)
    return control


def only_core(res, p, roots, label, allowed):
    """every function reachable from the roots belongs to a crate of `allowed` or to the libraries themselves"""
    g = Graph(p)
    seen, al = g.reach(roots)
    hit = {}
    for k in sorted(seen):
        f = p.fns[k]
        if f.krate in ("std", "alloc") or f.krate not in allowed and f.krate in ("test", "proc_macro", "panic_unwind"):
            site, path = repo_site(p, seen, k)
            hit.setdefault((f.krate, site), (f, path))
    for (kr, site), (f, path) in sorted(hit.items(), key=lambda x: x[0]):
        res.violation("%s/%s" % (label, site.split(" (")[0]), "%s reaches %s of crate %s" % (site.split(" (")[0], f.name, kr), site, {"call_path": path[-12:]})
    if not hit:
        res.ok("%s: %d functions reachable from %d operations, all in %s" % (label, len(seen), len(roots), ", ".join(sorted(set(p.fns[k].krate for k in seen)))))
    res.stats["functions"] = sorted("%s (%s)" % (p.fns[k].name, p.fns[k].span if isinstance(p.fns[k].span, str) else p.span(p.fns[k].span)) for k in seen if p.fns[k].krate not in LIB + ("vharness",))
    res.stats["paths"] = len(seen)
