"""What must not happen on any path: undefined behaviour, panics, unsupported instructions.

The interpreter proves each memory access, assertion and call on the way and notes those it cannot prove, together
with the path on which the bad case would occur.  A note is a violation when a valuation of the inputs satisfies that
path (so it can really be reached) and is undecided otherwise."""
from . import term as T, rand, secret

UB = ("bounds", "align", "rowrite", "overlap", "unreachable", "uninit")
PANIC = ("panic",)
FEATURE = ("feature",)
SECRET = secret.SECRET

TEXT = {"bounds": "out-of-bounds access: ", "align": "possibly misaligned access: ", "rowrite": "", "overlap": "", "panic": "reachable panic: ",
        "unreachable": "", "secret-branch": "", "secret-address": "", "secret-compare": "", "feature": "instruction-set extension not established: ", "uninit": "", "debug-leak": ""}


def feasible(st, tries=40):
    """a valuation of the inputs that takes this path, or None"""
    if rand.open_symbols(st):
        return None
    syms = set()
    for r in list(st.cons.rows) + list(st.cons.eqs) + list(st.cons.nes):
        for t, _ in r[1]:
            syms |= set(x for x in T.leaves(t) if x.op in ("sym", "bsym"))
    for b in list(st.cons.facts) + list(st.cons.clauses):
        syms |= set(x for x in T.leaves(b) if x.op in ("sym", "bsym"))
    for seed in range(tries):
        m = rand.sample(st, syms, seed)
        if m is not None:
            return {str(t.a[0]): v for t, v in m.vals.items()}
    return None


class Found(Exception):
    """raised out of a run as soon as something is known to happen"""


class Early:
    def __init__(self, kinds, tries=6):
        self.kinds, self.left = kinds, {}
        self.tries = tries

    def __call__(self, o):
        if o.kind not in self.kinds:
            return
        k = (o.kind, o.fn)
        n = self.left.get(k, 0)
        if n >= self.tries:
            return
        self.left[k] = n + 1
        if feasible(possible(o)) is not None:
            raise Found(o)


def possible(o):
    """the state of an outcome, with what the bad case needs of the CPU"""
    st = o.state.fork()
    o.state = st
    if o.kind == "feature":
        # the CPU may lack whatever the path has not established
        for f in ("avx2", "sse4_1", "avx", "ssse3"):
            b = T.bsym("cpu:" + f)
            if st.decide(b) is None:
                st.assume(b, False)
    return st


def report(res, kinds, oid, ignore=()):
    """turn the notes of the task's runs into obligations"""
    from .task import describe, path_facts
    seen = {}
    for o in getattr(res, "outcomes", []):
        if o.kind not in kinds or o.key() in ignore:
            continue
        seen.setdefault((o.kind, o.fn, o.msg if o.kind in ("feature", "panic", "debug-leak") else ""), []).append(o)
    for (kind, fn, _), os in sorted(seen.items(), key=lambda x: x[0]):
        done = False
        for o in os[:6]:
            st = possible(o)
            v = feasible(st)
            if v is not None:
                res.violation("%s/%s" % (oid, kind), TEXT[kind] + o.msg + " on path " + path_facts(st), "%s (%s)" % (o.fn, o.span),
                              {"call_stack": o.stack[-8:], "example": describe(v)})
                done = True
                break
        if not done:
            o = os[0]
            res.undecided("%s/%s" % (oid, kind), "%s%s at %s (%s) not excluded" % (TEXT[kind], o.msg, o.span, o.fn))
    if not seen:
        res.ok("%s/%s" % (oid, "+".join(kinds)))


def guarded(res, prog, kinds, body, m, args=(), kw=None, name=None):
    """run the analysis `body` and report what it met on the way, not the values it computes"""
    from .task import Result, WATCH, EARLY
    from .load import Imprecise
    sub = Result(res.name)
    sub.mute = True
    if "secret" in kinds or "debug" in kinds:
        WATCH[0] = secret.Watch(public=("salt", "personal"))
    EARLY[0] = Early([x for k in kinds for x in KINDS[k]])
    found = None
    try:
        body(sub, prog, m, *args, **(kw or {}))
    except Found as e:
        found = e.args[0]
    finally:
        EARLY[0] = None
        res.stats = sub.stats
        res.outcomes = getattr(sub, "outcomes", [])
        for o in sub.obl:
            if o[1] == "undecided":
                res.undecided(o[0] + "/explored", o[2])
        if found is not None:
            res.outcomes = [found]
    for k in kinds:
        report(res, KINDS[k], "%s/%s" % (res.name, k))


KINDS = {"memory": UB, "panic": PANIC, "feature": FEATURE, "secret": SECRET, "debug": SECRET + ("debug-leak",)}
