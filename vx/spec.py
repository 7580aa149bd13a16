"""RFC 7693 as value-number terms: the oracle the code's values are compared with."""
from . import term as T
from .term import F, fadd, fsub, fscale
from . import loops

IV64 = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
        0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179]
IV32 = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]


class Alg:
    def __init__(self, name, w, block, out, rounds, rots, iv, cw, maxdeg, degree):
        self.name, self.w, self.block, self.out, self.rounds, self.rots, self.iv = name, w, block, out, rounds, rots, iv
        self.cw = cw            # width of the byte counter
        self.maxdeg = maxdeg
        self.degree = degree    # of the parallel tree mode
        self.wb = w // 8
        self.keybytes = out
        self.salt = out // 4


B = Alg("blake2b", 64, 128, 64, 12, (32, 24, 16, 63), IV64, 128, 4, 4)
S = Alg("blake2s", 32, 64, 32, 10, (16, 12, 8, 7), IV32, 64, 8, 8)


def compress(alg, h, m, lo, hi, f0, f1):
    """the compression function F of RFC 7693 section 3.2 on terms"""
    w = alg.w
    R = alg.rots
    v = list(h) + [alg.iv[0], alg.iv[1], alg.iv[2], alg.iv[3],
                   T.xor(w, alg.iv[4], lo), T.xor(w, alg.iv[5], hi), T.xor(w, alg.iv[6], f0), T.xor(w, alg.iv[7], f1)]

    def G(a, b, c, d, x, y):
        v[a] = T.add(w, T.add(w, v[a], v[b]), x)
        v[d] = T.rot(T.xor(w, v[d], v[a]), R[0], w)
        v[c] = T.add(w, v[c], v[d])
        v[b] = T.rot(T.xor(w, v[b], v[c]), R[1], w)
        v[a] = T.add(w, T.add(w, v[a], v[b]), y)
        v[d] = T.rot(T.xor(w, v[d], v[a]), R[2], w)
        v[c] = T.add(w, v[c], v[d])
        v[b] = T.rot(T.xor(w, v[b], v[c]), R[3], w)
    for r in range(alg.rounds):
        s = SIGMA[r % 10]
        G(0, 4, 8, 12, m[s[0]], m[s[1]])
        G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]])
        G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]])
        G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]])
        G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [T.bxor(w, [h[i], v[i], v[i + 8]]) for i in range(8)]


class Chain:
    """A chaining value: cw(chain,k,i) is word i after k full, non-final blocks of the byte stream `base`
    starting at `off`, with the byte counter starting at `cnt`.  `first` overrides the words of block 0."""
    ALL = {}

    def __init__(self, name, alg, h0, base, off=(0, ()), cnt=(0, ()), first=None, wide=False, nstep=None, lanes=None):
        self.name = name
        self.alg = alg
        self.h0 = list(h0)
        self.base = base
        self.off = off
        self.cnt = cnt
        self.first = first
        self.wide = wide           # the counter's high word may be non-zero
        self.reg = set()
        self.stride = nstep or alg.block   # distance between consecutive blocks of the stream
        Chain.ALL[name] = self
        for i, x in enumerate(self.h0):
            pass

    def word(self, k, i):
        if not k[1] and k[0] == 0:
            return self.h0[i]
        t = T.mk("cw", self.alg.w, (self.name, k, i))
        if k not in self.reg:
            self.register(k)
        return t

    def counts(self, c, final=False):
        """low and high counter words for the byte count form c"""
        w = self.alg.w
        if not self.wide or (final and self.wide == "both"):
            return T.lin_form(w, c), 0
        return T.lin_form(w, c), T.ext(T.lin_form(2 * w, c), w, w) if c[1] else (c[0] >> w)

    def block(self, k):
        if self.first is not None and not k[1] and k[0] == 0:
            return self.first
        wb = self.alg.wb
        return [T.ld(self.base, fadd(fadd(self.off, fscale(k, self.stride)), F(wb * i)), wb) for i in range(16)]

    def register(self, k):
        """make the RFC step from k to k+1 rewrite to cw(k+1)"""
        self.reg.add(k)
        if self.first is not None and k[1]:
            pass
        h = [self.word(k, i) for i in range(8)]
        c = fadd(fadd(self.cnt, fscale(k, self.alg.block)), F(self.alg.block))
        k1 = fadd(k, F(1))
        lo, hi = self.counts(c)
        # "both": the run's length bound keeps the high counter word zero, however it is computed
        for hi in [hi, 0] if self.wide == "both" and hi != 0 else [hi]:
            res = compress(self.alg, h, self.block(k), lo, hi, 0, 0)
            for i, r in enumerate(res):
                if isinstance(r, T.T) and r.op != "cw":
                    t = T.mk("cw", self.alg.w, (self.name, k1, i))
                    r.rw = t
                    if r.op == "xor":
                        args = [x for x in r.a if isinstance(x, T.T)]
                        T.XSTEP.setdefault(max(args, key=lambda x: x.id), []).append((args, r.a[-1] if isinstance(r.a[-1], int) else 0, t))
                    t.rw = None

    def final(self, k, m, count, last_node, f1=None):
        """the last compression: k previous blocks, message words m, total byte count form"""
        w = self.alg.w
        h = [self.word(k, i) for i in range(8)]
        lo, hi = self.counts(count, True)
        full = (1 << w) - 1
        ln = last_node if not isinstance(last_node, bool) else (full if last_node else 0)
        return compress(self.alg, h, m, lo, hi, full, ln)


def cw_hook(name, k, i, w):
    return Chain.ALL[name].word(k, i)


def cw_seen(t):
    ch = Chain.ALL[t.a[0]]
    if t.a[1] not in ch.reg:
        ch.register(t.a[1])


def chain_k(v, name, i):
    ch = Chain.ALL.get(name)
    if ch is None:
        return None
    h = ch.h0[i]
    if v is h or (isinstance(v, int) and isinstance(h, int) and v == h):
        return F(0)
    return None


T.CW_HOOK[0] = cw_hook
T.CW_SEEN[0] = cw_seen
loops.CHAIN_K[0] = chain_k


def reset():
    T.reset()
    Chain.ALL.clear()


def param_words(alg, digest_len, key_len=0, fanout=1, depth=1, leaf_len=0, node_offset=0, node_depth=0, inner_len=0, salt=None, personal=None):
    """initial chaining value from the parameter block (RFC 7693 sections 2.5/2.8 and the BLAKE2 paper);
    numeric fields are integers or integer forms known to fit their field"""
    w = alg.w
    words = [[] for _ in range(8)]

    def fm(v):
        return v if isinstance(v, tuple) else (v, ())

    def num(v, bit, n):
        f = fm(v)
        k, s = divmod(bit, w)
        if s + n <= w:
            words[k].append(T.lin_form(w, fscale(f, 1 << s)))
        else:
            # straddles words: only when the field starts on a word boundary
            full = T.lin_form(2 * w, f) if f[1] else f[0]
            words[k].append(T.lin_form(w, f))
            words[k + 1].append(T.shr_wide(full, w, f))
    num(digest_len, 0, 8)
    num(key_len, 8, 8)
    num(fanout, 16, 8)
    num(depth, 24, 8)
    num(leaf_len, 32, 32)
    if alg.w == 64:
        num(node_offset, 64, 64)
        num(node_depth, 128, 8)
        num(inner_len, 136, 8)
        base = 256
    else:
        num(node_offset, 64, 48)
        num(node_depth, 112, 8)
        num(inner_len, 120, 8)
        base = 128
    sb = 8 * alg.salt
    for v, o in ((salt, base), (personal, base + sb)):
        if v is None:
            continue
        for i in range(sb // w):
            words[o // w + i].append(T.ext(v, i * w, w))
    return [T.bxor(w, [alg.iv[i]] + words[i]) for i in range(8)]


def padded(alg, base, start, rem):
    """message words of the block holding bytes [start, start+rem) of base, zero padded"""
    out = []
    for i in range(16):
        bs = []
        for j in range(alg.wb):
            x = alg.wb * i + j
            c = T.le0(fsub(F(x + 1), rem))
            bs.append((T.ite(c, T.ld(base, fadd(start, F(x)), 1), 0, 8), 8))
        out.append(T.cat(bs))
    return out
