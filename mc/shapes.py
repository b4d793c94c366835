"""Deterministic families of byte strings used by several checks."""
import functools
import itertools


def strings(alphabet, maxLen, minLen=0):
    for n in range(minLen, maxLen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield bytes(t)


@functools.lru_cache(None)
def debruijn(k, n, base=0):
    """de Bruijn sequence: every n-gram over k symbols occurs exactly once."""
    a = [0] * k * n
    seq = []
    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return bytes(base + x for x in seq)


def nonrep(n):
    """n bytes without any repeated 3-byte substring (n <= 4900)."""
    s = debruijn(17, 3)
    assert n <= len(s)
    return s[:n]


def shape(desc):
    """
    Build bytes from a compact description, a tuple of parts:
      ('z', n, b)    n copies of byte b
      ('n', n)       n non-repeating bytes (0..16)
      ('N', n)       the same for n <= 74088 (bytes 0..41)
      ('u', k, n)    k units of a 3-byte counter and n fixed bytes
      ('m', n)       n distinct marker bytes 100, 101, ...
      ('p', p, n)    n bytes of a pattern of period p
      ('r', bytes)   literal bytes
    """
    out = bytearray()
    for d in desc:
        if d[0] == 'z': out += bytes([d[2]]) * d[1]
        elif d[0] == 'n': out += nonrep(d[1])
        elif d[0] == 'N': out += debruijn(42, 3)[:d[1]]
        elif d[0] == 'u': out += b''.join(i.to_bytes(3, 'big') + bytes(range(200, 200 + d[2])) for i in range(d[1]))
        elif d[0] == 'm': out += bytes(range(100, 100 + d[1]))
        elif d[0] == 'p': out += bytes(30 + i % d[1] for i in range(d[2]))
        elif d[0] == 'r': out += d[1]
        else: raise ValueError(d)
    return bytes(out)
