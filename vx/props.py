"""The properties and the analyses that decide them."""
import concurrent.futures
import os
from . import build, effects, safety, secret, t_args, t_cli, t_debug, t_hash, t_state, t_many, t_tree, t_value, t_write
from .task import Ctx
from .runner import Task

_prog = {}


def harness(**kw):
    k = repr(sorted(kw.items()))
    if k not in _prog:
        _prog[k] = build.dump(**kw)
    return _prog[k]


DEADLINE = {"quick": 420, "thorough": 1800}
CPUS = {"b": [(), ("avx2", "sse4_1"), ("sse4_1",)], "s": [(), ("avx2", "sse4_1"), ("sse4_1",)]}


AVX2, SSE, PORT = ("avx2", "sse4_1"), ("sse4_1",), ()


class Prop:
    def __init__(self, tasks, rule, explanation, level="proof", trusted=None, technique=None, note=None):
        self.tasks, self.rule, self.explanation, self.level = tasks, rule, explanation, level
        self.trusted = list(TRUSTED if trusted is None else trusted)
        self.technique = technique or "abstract interpretation of MIR with symbolic value numbering, linear invariants and widening"
        self.note = note or NOTE


NOTE = ("Sound for the claimed domain up to the trusted base listed in the evidence file: every obligation is an equality or bound that holds for all values of the symbolic inputs. "
        "An obligation the analysis cannot settle is reported as undecided in the evidence and is not an alarm; a violation is reported only when a valuation of the symbols consistent with the path shows the difference.")


def cpu_name(c):
    return "+".join(c) if c else "portable"


# ---------------------------------------------------------------- task bodies
def oneshot(res, prog, m, **kw):
    t_hash.run_oneshot(Ctx(prog, m), res, **kw)


def params(res, prog, m, setters, **kw):
    t_hash.run_params(Ctx(prog, m), res, setters, **kw)


def history(res, prog, m, setters, **kw):
    t_state.History(Ctx(prog, m), res, setters, **kw).run()


# ---------------------------------------------------------------- properties
TRUSTED = ["rustc's MIR (nightly, mir-opt-level 0) is a faithful translation of the source",
           "the MIR semantics implemented in /verif/vx/interp.py, mem.py and intrin.py",
           "the RFC 7693 oracle in /verif/vx/spec.py",
           "the term normaliser (/verif/vx/term.py) and the linear-arithmetic core (/verif/vx/cons.py)"]
ENGINE = ("Abstract interpretation of the MIR of every function reachable from the public operation (gated value numbering for data, "
          "linear relations for lengths and offsets, loops and call histories generalised to inductive invariants by widening). ")


def c_oneshot(tier):
    p = harness()
    out = []
    for m in "bs":
        out.append(Task("%s::oneshot" % m, oneshot, (p, m), weight=20))
    return out


HSET = ["hash_length", "key", "last_node"]


def hist_tasks(p, ms="bs", cpus=None, keyed=(False, True), **kw):
    out = []
    for m in ms:
        for only in keyed:
            for cpu in (cpus or CPUS[m]):
                out.append(Task("%s::history[%s,%s]" % (m, cpu_name(cpu), "keyed" if only else "unkeyed"), history,
                                (p, m, HSET), dict(cpu=cpu, only=only, **kw), weight=30))
    return out


def c_history(tier):
    p = harness()
    out = hist_tasks(p, ops=("pure",))
    for m in "bs":
        for root in ("state_new", "state_default"):
            out.append(Task("%s::%s" % (m, root), history, (p, m, []), dict(cpu=(), root=root), weight=20))
    return out


def c_count(tier):
    p = harness()
    out = hist_tasks(p, cpus=[()])
    for m in "bs":
        for k in (False, True):
            out.append(Task("%s::tree-count[%s]" % (m, "keyed" if k else "unkeyed"), tree_count, (p, m, ["hash_length", "key"]),
                            dict(cpu=(), only=k), weight=5))
    return out


def tree_count(res, prog, m, setters, **kw):
    t_tree.TreeCount(Ctx(prog, m), res, setters, **kw).run()


def c_write(tier):
    p = harness()
    out = hist_tasks(p, cpus=[()], ops=("write",))
    for m in "bs":
        for prefix in ("", "p_"):
            out.append(Task("%s::%swrite" % (m, prefix), any_write, (p, m, prefix), weight=5))
    return out


def any_write(res, prog, m, prefix):
    t_write.write(Ctx(prog, m), res, prefix)


def c_last(tier):
    return hist_tasks(harness(), ops=("lastnode",), keyed=(False,)) + hist_tasks(harness(), cpus=[()], ops=("lastnode",), keyed=(True,))


def c_params(tier):
    p = harness()
    out = []
    for m in "bs":
        for only in (False, True):
            k = "keyed" if only else "unkeyed"
            out.append(Task("%s::params-all[%s]" % (m, k), params, (p, m, t_hash.SETTERS), dict(L=None, cpu=(), only=only), weight=30))
            out.append(Task("%s::params-reversed[%s]" % (m, k), params, (p, m, t_hash.SETTERS[::-1]), dict(L=0, cpu=(), only=only, clone=True), weight=5))
        for x in t_hash.SETTERS:
            out.append(Task("%s::params-twice[%s]" % (m, x), params, (p, m, [x, x]), dict(L=0, cpu=()), weight=5))
        out.append(Task("%s::params-default" % m, params, (p, m, []), dict(L=0, cpu=(), root="params_default"), weight=1))
    return out


def c_keyed(tier):
    p = harness()
    out = []
    for m in "bs":
        for cpu in CPUS[m]:
            out.append(Task("%s::keyed[%s]" % (m, cpu_name(cpu)), params, (p, m, ["key"]), dict(L=None, cpu=cpu), weight=20))
        out.append(Task("%s::key-replaced" % m, params, (p, m, ["key", "key"]), dict(L=None, cpu=()), weight=20))
    return out


def many_hash(res, prog, m, cpu, ns):
    t_many.hash_fixed(Ctx(prog, m), res, cpu, ns)


def many_update(res, prog, m, cpu, ns):
    t_many.update_fixed(Ctx(prog, m), res, cpu, ns)


def many_len(res, prog, m, lens, **kw):
    t_many.run_hash_many(Ctx(prog, m), res, lens, **kw)


def many_upd(res, prog, m, pre, lens, **kw):
    t_many.Many(Ctx(prog, m), res, len(lens), pre, lens, **kw).go()


def c_many(tier):
    p = harness()
    out = []
    for m in "bs":
        B = 128 if m == "b" else 64
        for cpu in CPUS[m]:
            d = {(): 1, ("sse4_1",): 2 if m == "b" else 4}.get(cpu, 4 if m == "b" else 8)
            ns = sorted({1, 2, 3, d - 1, d, d + 1, 2 * d, 2 * d + 1} - {0})
            nm = "%s::%%s[%s]" % (m, cpu_name(cpu))
            lo, hi = [n for n in ns if n <= d], [n for n in ns if n > d]
            if tier == "quick" and m == "b" and d == 2:
                hi = [5]
            for part, k in ((lo, "full"), (hi, "refill")):
                out.append(Task(nm % "hash_many" + k, many_hash, (p, m, cpu, part), weight=15))
                out.append(Task(nm % "update_many" + k, many_update, (p, m, cpu, part), weight=15))
            # one job of any length among short ones, at the first, a middle and the last place
            wide = d > 2 or d == 1
            for pos in sorted({0, d // 2, d - 1}) if wide or tier == "thorough" else [0]:
                lens = [(i * 3 % 5) * B // 2 + 1 for i in range(d)]
                lens[pos] = None
                out.append(Task(nm % "any-length" + "@%d" % pos, many_len, (p, m, lens), dict(cpu=cpu, last=(pos,)), weight=20))
                out.append(Task(nm % "any-update" + "@%d" % pos, many_upd, (p, m, [(i % 3) * B // 2 for i in range(d)], lens),
                                dict(cpu=cpu, then=1 if wide or tier == "thorough" else None), weight=20 if d != 2 else 70, deadline=DEADLINE[tier]))
            if tier == "thorough" and d > 1:
                out.append(Task(nm % "two-lengths", many_len, (p, m, [None, None]), dict(cpu=cpu), weight=60, deadline=DEADLINE[tier]))
    return out


def width(m, cpu):
    """SIMD lanes of the widest compression"""
    return {PORT: 1, SSE: 2 if m == "b" else 4}.get(cpu, 4 if m == "b" else 8)


def many_hist(res, prog, m, cpu, lane, case):
    """every lane of the SIMD loop at once; one of them with any earlier history, its counter near the end of its low word or not"""
    d = width(m, cpu)
    B = 128 if m == "b" else 64
    lens = [(2 + (i % 2)) * B + 44 for i in range(d)]
    lens[lane] = 3 * B + 44
    t_many.Many(Ctx(prog, m), res, d, [0] * d, lens, cpu=cpu, hist={lane: case}).go()


def c_compress(tier):
    p = harness()
    out = []
    for m in "bs":
        for cpu in CPUS[m]:
            nm = "%s::%%s[%s]" % (m, cpu_name(cpu))
            out.append(Task(nm % "one-block-and-loop", params, (p, m, ["node_offset", "salt", "personal", "last_node"]), dict(L=None, cpu=cpu), weight=20))
            d = width(m, cpu)
            if d == 1:
                continue
            for lane in range(d):
                for case in ("far", "wrap2") if tier == "quick" else ("far", "wrap1", "wrap2", "wrap3"):
                    out.append(Task(nm % ("lane%d-%s" % (lane, case)), many_hist, (p, m, cpu, lane, case), weight=40))
    return out + hist_tasks(p, keyed=(False,))


def tree(res, prog, m, **kw):
    t_tree.run_tree(Ctx(prog, m), res, **kw)


def tree_fixed(res, prog, m, **kw):
    t_tree.tree_fixed(Ctx(prog, m), res, **kw)


def tree_history(res, prog, m, setters, widening=True, **kw):
    h = t_tree.TreeHistory(Ctx(prog, m), res, setters, **kw)
    h.widening = widening
    h.run()


def c_tree(tier):
    p = harness()
    out = []
    full = tier == "thorough"
    dl = DEADLINE[tier]
    for m in "bs":
        for cpu in CPUS[m]:
            nm = "%s::p%%s[%s]" % (m, cpu_name(cpu))
            if full or cpu == AVX2 or m == "b":
                out.append(Task(nm % "params", tree, (p, m), dict(cpu=cpu, setters=("hash_length",)), weight=200, deadline=dl))
            if full or (m == "b" and cpu == AVX2):
                out.append(Task(nm % "keyed-params", tree, (p, m), dict(cpu=cpu, setters=("hash_length", "key"), only=True), weight=200, deadline=dl))
            if full:
                out.append(Task(nm % "oneshot", tree, (p, m), dict(cpu=cpu, oneshot=True), weight=200, deadline=dl))
            else:
                out.append(Task(nm % "oneshot-fixed", tree_fixed, (p, m), dict(cpu=cpu, keyed=False, oneshot=True), weight=50))
            for k in (False, True):
                nk = nm % ("keyed-" if k else "")
                out.append(Task(nk + "fixed", tree_fixed, (p, m), dict(cpu=cpu, keyed=k), weight=60))
                if full or (cpu == AVX2 and not k):
                    out.append(Task(nk + "history", tree_history, (p, m, ["hash_length", "key"]), dict(cpu=cpu, only=k), weight=210, deadline=dl))
                else:
                    out.append(Task(nk + "history-fixed", tree_history, (p, m, ["hash_length", "key"]), dict(cpu=cpu, only=k, widening=False), weight=60))
        for root in ("state_new", "state_default"):
            out.append(Task("%s::p_%s" % (m, root), tree_history, (p, m, []), dict(cpu=AVX2, root=root, widening=False), weight=30))
    return out


def guarded_tasks(tier, kinds, p, unit=None):
    """every public hashing operation, observed for what it does on the way rather than for the value it returns"""
    out = []
    full = tier == "thorough"
    dl = DEADLINE[tier]

    def add(name, body, m, args=(), w=20, **kw):
        out.append(Task("%s::%s" % (m, name), safety.guarded, (p, kinds, body, m, args, kw), weight=w, deadline=dl))
    for m in "bs":
        B = 128 if m == "b" else 64
        add("oneshot", oneshot, m)
        add("params", params, m, (t_hash.SETTERS,), 70, L=None)
        for k in (False, True):
            add("state[%s]" % ("keyed" if k else "unkeyed"), history, m, (HSET,), 70, only=k, ops=("lastnode",))
        add("state_new", history, m, ([],), 60, root="state_new", ops=("pure", "write"))
        for k in (False, True):
            add("tree-fixed[%s]" % ("keyed" if k else "unkeyed"), tree_fixed, m, (), 100, cpu=None, keyed=k)
            add("tree-state-fixed[%s]" % ("keyed" if k else "unkeyed"), tree_history, m, (["hash_length", "key"],), 200, widening=False, only=k)
        for cpu in CPUS[m]:
            if full or (m == "b" and cpu != SSE):
                add("tree[%s]" % cpu_name(cpu), tree, m, (), 250, cpu=cpu, setters=("hash_length",) + (("key",) if full else ()))
                if full:
                    add("tree-state[%s]" % cpu_name(cpu), tree_history, m, (["hash_length", "key"],), 250, cpu=cpu)
            d = width(m, cpu)
            add("hash_many-fixed[%s]" % cpu_name(cpu), many_hash, m, (cpu, sorted({1, d, d + 1, 2 * d + 1})), 30)
            add("update_many-fixed[%s]" % cpu_name(cpu), many_update, m, (cpu, sorted({1, d, d + 1, 2 * d + 1})), 30)
        add("hash_many", many_len, m, ([1, None, 2 * B],), 60)
        add("update_many", many_upd, m, ([0, B, 3], [None, B, 1]), 50, then=1)
    return out


def bad_args(res, prog, m):
    ctx = Ctx(prog, m)
    for n in ("hash_length", "inner_hash_length", "key", "salt", "personal", "node_offset"):
        t_args.invalid(ctx, res, n)
    for n in ("hash_length", "key"):
        t_args.invalid(ctx, res, n, "p_")


# what a build may assume of the CPU: everything below one of the extensions the library uses, but not that one
BELOW_SSE41 = "-Ctarget-feature=+ssse3,+bmi1,+bmi2,+lzcnt,+popcnt,+aes,+pclmulqdq"
BELOW_AVX2 = "-Ctarget-feature=+fma,+f16c,+sse4.2,+bmi1,+bmi2,+lzcnt,+popcnt,+aes,+pclmulqdq"
ASSUMED = [
    ("no_std", dict(no_default=True)),
    ("no_std below sse4.1", dict(no_default=True, rustflags=BELOW_SSE41)),
    ("no_std below avx2", dict(no_default=True, rustflags=BELOW_AVX2)),
    ("no_std+avx2", dict(no_default=True, rustflags="-Ctarget-feature=+avx2")),
    ("std below sse4.1", dict(rustflags=BELOW_SSE41)),
    ("std below avx2", dict(rustflags=BELOW_AVX2)),
]


def c_feature(tier):
    out = guarded_tasks(tier, ("feature",), harness())
    for name, kw, p, t in try_all(ASSUMED):
        if p is None:
            out.append(t)
            continue
        for m in "bs":
            d = 4 if m == "b" else 8
            cpus = [None] if "no_default" in kw else [AVX2, PORT]
            out.append(Task("%s::oneshot [%s]" % (m, name), safety.guarded, (p, ("feature",), oneshot, m), weight=10))
            if name == "no_std below avx2":
                out.append(Task("%s::tree [%s]" % (m, name), safety.guarded, (p, ("feature",), tree_fixed, m, (), dict(cpu=None, keyed=True)), weight=30))
            for cpu in cpus:
                out.append(Task("%s::hash_many%s [%s]" % (m, "" if cpu is None else "[%s]" % cpu_name(cpu), name), safety.guarded, (p, ("feature",), many_hash, m, (cpu, [d + 1])), weight=20))
    return out


def c_memory(tier):
    return guarded_tasks(tier, ("memory",), harness())


def c_panic(tier):
    p = harness()
    return guarded_tasks(tier, ("panic",), p) + [Task("%s::invalid-arguments" % m, bad_args, (p, m), weight=5) for m in "bs"]


def val_access(res, prog, m):
    t_value.accessors(Ctx(prog, m), res)


def val_hex(res, prog, m, ns):
    t_value.hexdigits(Ctx(prog, m), res, ns)


def val_eq(res, prog, m, root, pairs):
    for na, nb in pairs:
        t_value.equality(Ctx(prog, m), res, root, na, nb)


EQ_ROOTS = ("hash_eq", "hash_ne", "hash_eq_slice", "hash_ne_slice")


def c_value(tier):
    p = harness()
    out = []
    for m in "bs":
        N = 64 if m == "b" else 32
        out.append(Task("%s::accessors" % m, val_access, (p, m), weight=5))
        for k in range(2):
            out.append(Task("%s::to_hex/%d" % (m, k), val_hex, (p, m, list(range(1 + k, N + 1, 2))), weight=40))
        for r in EQ_ROOTS:
            out.append(Task("%s::%s-equal-lengths" % (m, r), val_eq, (p, m, r, [(n, n) for n in range(1, N + 1)]), weight=60))
            out.append(Task("%s::%s-different-lengths" % (m, r), val_eq, (p, m, r, [(None, None), (1, 0), (20, 21), (N, N - 1), (N, N + 1), (N, 0)]), weight=5))
    return out


def c_secret(tier):
    """hashing and comparing, observed for branches, addresses and comparisons that depend on secret bytes"""
    p = harness()
    out = []
    dl = DEADLINE[tier]

    def add(name, body, m, args=(), w=20, **kw):
        out.append(Task("%s::%s" % (m, name), safety.guarded, (p, ("secret",), body, m, args, kw), weight=w, deadline=dl))
    for m in "bs":
        N = 64 if m == "b" else 32
        B = 2 * N
        for r in EQ_ROOTS:
            add(r, val_eq, m, (r, [(n, n) for n in (1, 2, 3, 7, 8, 9, 16, 20, N - 1, N)] + [(None, None), (N, 1)]), 20)
        add("oneshot", oneshot, m)
        add("params", params, m, (t_hash.SETTERS,), 70, L=None)
        for k in (False, True):
            add("state[%s]" % ("keyed" if k else "unkeyed"), history, m, (HSET,), 70, only=k, ops=("lastnode", "write"))
        add("tree-fixed", tree_fixed, m, (), 100, cpu=None, keyed=True)
        add("tree-state-fixed", tree_history, m, (["hash_length", "key"],), 200, widening=False, only=True)
        for cpu in CPUS[m]:
            d = width(m, cpu)
            add("hash_many[%s]" % cpu_name(cpu), many_hash, m, (cpu, sorted({1, d, d + 1})), 30)
            add("update_many[%s]" % cpu_name(cpu), many_update, m, (cpu, sorted({1, d, d + 1})), 30)
        out.append(Task("%s::control" % m, secret_control, (p, m), weight=5))
    return out


def dbg_params(res, prog, m, prefix):
    t_debug.params(Ctx(prog, m), res, prefix)


def dbg_states(res, prog, m, prefix, lens, keyed):
    t_debug.states(Ctx(prog, m), res, prefix, lens, keyed)


def dbg_jobs(res, prog, m):
    t_debug.jobs(Ctx(prog, m), res)


def c_debug(tier):
    p = harness()
    out = []

    def add(name, body, m, *args):
        out.append(Task("%s::%s" % (m, name), safety.guarded, (p, ("debug",), body, m, args), weight=20))
    for m in "bs":
        B = 128 if m == "b" else 64
        for pre in ("", "p_"):
            add(pre + "params", dbg_params, m, pre)
            for k in (True, False):
                add(pre + "state" + ("-keyed" if k else ""), dbg_states, m, pre, (5, 2 * B + 3) if not pre else (5, 9 * B, 24 * B + 3), k)
            add(pre + "state-any-buffer", dbg_states, m, pre, (None,), True)
        add("job", dbg_jobs, m)
    return out


CONFIGS = [
    ("no_std", dict(no_default=True)),
    ("uninline_portable", dict(features=("uninline",))),
    ("no_std+sse4.1", dict(no_default=True, rustflags="-Ctarget-feature=+sse4.1")),
    ("no_std+avx2", dict(no_default=True, rustflags="-Ctarget-feature=+avx2")),
    ("aarch64", dict(no_default=True, target="aarch64-unknown-linux-gnu", build_std=True)),
    ("powerpc64", dict(no_default=True, target="powerpc64-unknown-linux-gnu", build_std=True)),      # big-endian
    ("i686", dict(no_default=True, target="i686-unknown-linux-gnu", build_std=True)),                # 32-bit
    # what cargo's release profile does to the code's meaning (all other builds here are development builds)
    ("release", dict(rustflags="-Cdebug-assertions=off -Coverflow-checks=off")),
]


STD_CONFIGS = ("uninline_portable", "release")


def config_tasks(name, p, tier):
    """the main hashing operations in one build configuration against the same oracle as everywhere else"""
    out = []
    dl = DEADLINE[tier]
    cpus = {"no_std+sse4.1": SSE, "no_std+avx2": AVX2}
    for m in "bs":
        nm = "%s::%s/%%s" % (m, name)
        d = width(m, cpus.get(name, PORT))
        cpu = () if name in ("uninline_portable", "release") else None
        out.append(Task(nm % "params", params, (p, m, t_hash.SETTERS), dict(L=None, cpu=cpu), weight=30, deadline=dl))
        out.append(Task(nm % "oneshot", oneshot, (p, m), weight=10, deadline=dl))
        out.append(Task(nm % "history", history, (p, m, HSET), dict(cpu=cpu, only=True, ops=("pure", "count")), weight=40, deadline=dl))
        out.append(Task(nm % "tree", tree_fixed, (p, m), dict(cpu=cpu, keyed=True), weight=40, deadline=dl))
        ns = sorted({1, d, d + 1})
        out.append(Task(nm % "hash_many", many_hash, (p, m, cpu, ns), weight=20, deadline=dl))
        out.append(Task(nm % "update_many", many_update, (p, m, cpu, ns), weight=20, deadline=dl))
    return out


def c_config(tier):
    out = []
    for name, kw, p, t in try_all(CONFIGS):
        out += config_tasks(name, p, tier) if p else [t]
    return out


def errors(out):
    """the first compiler errors and their places"""
    ls = [l.strip() for l in out.splitlines()]
    r = []
    for i, l in enumerate(ls):
        if l.startswith("error"):
            at = next((x for x in ls[i + 1:i + 6] if x.startswith("-->")), "")
            r.append((l + " " + at).strip())
    return r[:8]


def no_build(res, name, why):
    res.undecided("configuration %s" % name, "the harness does not build in it: %s" % why)


def try_harness(name, **kw):
    """(program, None) or (None, task reporting that the configuration does not build)"""
    try:
        return harness(**kw), None
    except build.BuildError as e:
        return None, Task("%s does not build" % name, no_build, (name, "; ".join(errors(str(e)))[:600]))


def try_all(configs):
    """try_harness for each configuration, several builds at a time"""
    build.workdir(), build.driver(), build.sysroot()
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        built = list(ex.map(lambda c: try_harness(c[0], **c[1]), configs))
    return [(n, kw, p, t) for (n, kw), (p, t) in zip(configs, built)]


def hidden_state(res, p, label, want):
    if not effects.no_hidden_state(res, p, label) and want:
        res.undecided("control: the CPU feature cache of std_detect is seen", "no static of std_detect was reached, so the search may be blind")
    elif want:
        res.ok("control: the CPU feature cache of std_detect is seen")


def send_sync(res):
    ok, out = build.check("witness/sendsync")
    if ok:
        for m in ("blake2b_simd", "blake2s_simd"):
            for t in ("Params", "State", "Hash", "tree Params", "tree State", "HashManyJob"):
                res.ok("%s %s: Send + Sync" % (m, t))
    elif "E0277" in out:
        e = [x for x in errors(out) if "E0277" in x]
        res.violation("send-sync", "a public type cannot be shared between threads: %s" % (e or [""])[0], (e or [""])[0], {"compiler": out[-1500:]})
    else:
        res.violation("send-sync", "the witness for Send + Sync does not compile", (errors(out) or ["?"])[0], {"compiler": out[-1500:]})
    ok, out = build.check("witness/sendsync", cfgs=("control",))
    if ok or "E0277" not in out:
        res.undecided("control: a type that is not Sync is refused", out[-300:])
    else:
        res.ok("control: a type that is not Sync is refused")


def c_state(tier):
    out = [Task("std", hidden_state, (harness(), "", True), weight=5),
           Task("send-sync", send_sync, weight=5)]
    for name, kw, p, t in try_all(CONFIGS):
        out.append(Task(name, hidden_state, (p, "[%s]" % name, name == "uninline_portable"), weight=5) if p else t)
    return out


def core_only(res, p, roots, label):
    effects.only_core(res, p, roots, label, ())


def core_witness(res):
    """the libraries and their dependencies compile against a compiler library directory that holds nothing but core"""
    ok, out = build.check("harness", args=("--no-default-features",), sysroot_dir="core")
    if ok:
        res.ok("without the std feature everything compiles against core alone")
    else:
        e = errors(out)
        res.violation("core-only build", "without the std feature the library does not compile against core alone: %s" % (e or ["?"])[0], (e or ["?"])[0], {"compiler": out[-2000:]})
    ok, out = build.check("harness", sysroot_dir="core")
    if not ok and "E0463" in out:
        res.ok("control: with the std feature the same build is refused for lack of std")
    else:
        res.undecided("control: with the std feature the same build is refused for lack of std", out[-300:])


def c_alloc(tier):
    p = harness()
    out = [Task("std build, hashing operations", core_only, (p, effects.hashing_roots(p), "hashing with std"), weight=5),
           Task("core-only", core_witness, weight=9)]
    for name, kw, q, t in try_all(CONFIGS):
        if q:
            out.append(Task("%s build" % name, core_only, (q, effects.hashing_roots(q) if name in STD_CONFIGS else list(q.roots.values()), name), weight=5))
        else:
            out.append(t)
    return out


def c_cli(tier):
    try:
        p = build.dump(crate="blake2", manifest=os.path.join(build.REPO, "blake2_bin"), bodies="blake2,core,alloc")
    except build.BuildError as e:
        return [Task("build", t_cli.no_tool, ("; ".join(errors(str(e)))[:600],))]
    cs = t_cli.cases()
    return [Task("options", t_cli.options, (p,), weight=9), Task("inputs", t_cli.inputs, (p, cs), weight=5)]


def secret_control(res, prog, m):
    """positive control: to_hex indexes a table by hash bytes, and the watch must see it"""
    from .task import Result
    sub = Result("control")
    safety.guarded(sub, prog, ("secret",), val_hex, m, ([4],))
    if any(o.kind == "secret-address" for o in getattr(sub, "outcomes", [])):
        res.ok("%s::control/to_hex indexes by content" % m)
    else:
        res.undecided("%s::control/to_hex indexes by content" % m, "the watch does not see the table look-up of to_hex: it may be blind")


CALLS = "reachability over the resolved call graph (monomorphic MIR, function pointers and drop glue included) and compile-time witnesses"
TRUSTED_CALLS = ["rustc resolves calls, trait methods and drop glue correctly", "functions of core, and of std_detect's feature cache, do what their documentation says"]
PROPS = {
    "C17": Prop(c_cli, "on every path: an option given reaches its setter unchanged or the tool fails; each read is absorbed exactly once; a hash is printed only at the end of its input; each failure is reported, the other inputs are tried, the status is not 0",
                "Path-sensitive typestate analysis of the tool's MIR from main: calls into other crates are primitives of a protocol (open, read, absorb, finalize, print, report, exit) or opaque; values are provenance terms; loops end when a state repeats. ",
                trusted=["rustc's MIR (nightly, mir-opt-level 0) is a faithful translation of the source", "the protocol of std::io, std::fs, memmap, hex, failure, structopt and clap as modelled in /verif/vx/cli.py",
                         "the setters of the library (C06, C07) and its State (C03, C04)"],
                technique="path-sensitive typestate and provenance analysis of MIR"),
    "C14": Prop(c_state, "no mutable static (but std_detect's cache), thread-local, clock, environment, randomness, foreign function or processor-state instruction is reachable from a public operation; public types are Send + Sync",
                "The call graph of the resolved program is searched from every public operation; the Send + Sync witness is a crate that compiles only if all public types have the traits. ", trusted=TRUSTED_CALLS, technique=CALLS),
    "C16": Prop(c_alloc, "no function of std or alloc is reachable from a hashing operation; without the std feature everything compiles against core alone",
                "The call graph of the resolved program is searched from every public operation, and the library is compiled against a compiler library directory that holds only core. ", trusted=TRUSTED_CALLS, technique=CALLS),
    "C15": Prop(c_config, "in every build configuration analysed, every hashing operation == the same RFC 7693 oracle", ENGINE),
    "C12": Prop(c_debug, "no value handed to the formatting machinery by a Debug implementation, and no branch in one, has a secret byte (key, input, chaining value) among its leaves", ENGINE),
    "C13": Prop(c_secret, "no branch condition, address, length or variable-time comparison has a secret byte (key, message, chaining value, hash content) among its leaves", ENGINE),
    "C19": Prop(c_value, "accessors, hexadecimal form and comparisons of a Hash == the same function of its bytes", ENGINE),
    "C09": Prop(c_feature, "on every path into a function compiled for an extension, detection of that extension (or the build's target features) is established", ENGINE),
    "C10": Prop(c_memory, "every load, store and copy stays inside its object, is aligned as the instruction requires and does not overlap an exclusive borrow", ENGINE),
    "C11": Prop(c_panic, "no assertion, arithmetic check or diverging call is reachable with valid arguments; every invalid argument makes its setter panic with the Params unchanged", ENGINE),
    "C01": Prop(c_compress, "every compression of every back end == RFC 7693 F on the same chaining value, block, counter and flags", ENGINE),
    "C02": Prop(c_oneshot, "one-shot hash of a slice of symbolic length == RFC 7693 hash of its bytes", ENGINE),
    "C03": Prop(c_history, "state reached by any history of update calls finalizes to the hash of the concatenation", ENGINE),
    "C04": Prop(c_tree, "parallel hash of any number of bytes == BLAKE2 tree hash (leaf chains and root computed by the oracle)", ENGINE),
    "C05": Prop(c_many, "hash_many / update_many on n jobs == n individual hashes / updates", ENGINE, level="other"),
    "C08": Prop(c_count, "count() == bytes absorbed, for the state reached by any history", ENGINE),
    "C18": Prop(c_write, "write() absorbs and reports the whole buffer; flush() succeeds and changes nothing", ENGINE),
    "C20": Prop(c_last, "set_last_node before and after any history determines the flag of the final block", ENGINE),
    "C06": Prop(c_params, "parameter setters reach the parameter block fields", ENGINE),
    "C07": Prop(c_keyed, "keyed hash == unkeyed hash of padded key block and input", ENGINE),
}
