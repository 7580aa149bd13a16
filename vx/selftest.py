"""The oracle of spec.py, fed constants only, against Python's own BLAKE2 (run by setup.py; decides nothing about /repo)."""
import hashlib
from . import spec, term as T


def digest(alg, data, outlen, key=b"", **kw):
    last = kw.pop("last_node", False)
    salt, person = kw.pop("salt", None), kw.pop("person", None)
    as_int = lambda v: None if v is None else int.from_bytes(v.ljust(alg.salt, b"\0"), "little")
    h = spec.param_words(alg, outlen, len(key), salt=as_int(salt), personal=as_int(person), **kw)
    if key:
        data = key.ljust(alg.block, b"\0") + data
    n = len(data)
    blocks = [data[i:i + alg.block] for i in range(0, n, alg.block)] or [b""]
    full = (1 << alg.w) - 1
    for i, b in enumerate(blocks):
        end = i == len(blocks) - 1
        b2 = b.ljust(alg.block, b"\0")
        m = [int.from_bytes(b2[j * alg.wb:(j + 1) * alg.wb], "little") for j in range(16)]
        t = min(n, (i + 1) * alg.block)
        h = spec.compress(alg, h, m, t & full, t >> alg.w, full if end else 0, full if end and last else 0)
    return b"".join(x.to_bytes(alg.wb, "little") for x in h)[:outlen]


def run():
    n = 0
    for alg, fn, off in ((spec.B, hashlib.blake2b, 2 ** 64 - 2), (spec.S, hashlib.blake2s, 2 ** 48 - 2)):
        B, O = alg.block, alg.out
        for length in (0, 1, B - 1, B, B + 1, 2 * B, 5 * B + 3):
            data = bytes(i * 7 % 251 for i in range(length))
            for key in (b"", b"k", bytes(range(O))):
                for last in (False, True):
                    a = digest(alg, data, O - 3, key, fanout=7, depth=3, leaf_len=0x01020304, node_offset=off, node_depth=5, inner_len=9,
                               salt=b"salt", person=b"person", last_node=last)
                    b = fn(data, digest_size=O - 3, key=key, fanout=7, depth=3, leaf_size=0x01020304, node_offset=off, node_depth=5, inner_size=9,
                           salt=b"salt", person=b"person", last_node=last).digest()
                    assert a == b, (alg.name, length, key, last)
                    n += 1
    return n
