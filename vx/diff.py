from . import term as T


def diff(a, b, depth=0, seen=None, out=None):
    """smallest differing subterms"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return out
    if (id(a), id(b)) in seen or len(out) > 5:
        return out
    seen.add((id(a), id(b)))
    if isinstance(a, T.T) and isinstance(b, T.T) and a.op == b.op and a.w == b.w:
        ca, cb = T.children(a), T.children(b)
        sa, sb = set(ca), set(cb)
        ca = [x for x in ca if x not in sb]
        cb = [x for x in cb if x not in sa]
        if ca and len(ca) == len(cb):
            n = len(out)
            for x, y in zip(ca, cb):
                diff(x, y, depth + 1, seen, out)
            return out
    out.append((a, b))
    return out


def unmerged(st, a, b, limit=3):
    """pairs of distinct subterms with the same value under a random interpretation: missing normal forms"""
    from . import rand
    syms = set()
    for v in (a, b):
        syms |= set(x for x in T.leaves(v) if x.op in ("sym", "bsym"))
    for r in list(st.cons.rows) + list(st.cons.eqs) + list(st.cons.nes):
        for t, _ in r[1]:
            syms |= set(x for x in T.leaves(t) if x.op in ("sym", "bsym"))
    for seed in range(60):
        m = rand.sample(st, syms, seed)
        if m is None:
            continue
        try:
            m.collect(a, b)
            x, y = m.ev(a), m.ev(b)
        except rand.Skip:
            continue
        la, lb = T.leaves(a), T.leaves(b)
        va = {}
        for t in la - lb:
            if t.w > 8:
                va.setdefault((t.w, m.memo[t]), []).append(t)
        out = []
        for t in sorted(lb - la, key=lambda t: len(T.leaves(t))):
            if t.w > 8 and (t.w, m.memo[t]) in va:
                out.append((va[(t.w, m.memo[t])][0], t))
                if len(out) >= limit:
                    break
        return {str(k.a[0]): v for k, v in m.vals.items()}, x == y, out
    return None
