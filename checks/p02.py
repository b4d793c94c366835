"""P02: LZ10 decompression accepts every valid stream from any compressor."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_lz
import ndspy.lz10


def decodeCheck(tokens, size, trailing, ctx, types=(bytes,)):
    blob, want = ref_lz.lz10Encode(tokens, size, trailing)
    for t in types:
        got = ndspy.lz10.decompress(t(blob))
        require(isinstance(got, bytes), 'decompress() returned %s', type(got).__name__)
        same(got, want, 'decompress(%r)' % blob[:60])
        ctx.step()
    ctx.state(blob)
    ctx.outcome((sum(not isinstance(t, int) for t in tokens) and 'refs', len(want) % 8))


def tokenSeqs(n, lengths, maxDisp, produced=0):
    """All sequences of n tokens that are well formed after `produced` bytes."""
    if n == 0:
        yield ()
        return
    for lit in (0, 97):
        for rest in tokenSeqs(n - 1, lengths, maxDisp, produced + 1):
            yield (lit,) + rest
    for L in lengths:
        for d in range(1, min(produced, maxDisp) + 1):
            for rest in tokenSeqs(n - 1, lengths, maxDisp, produced + L):
                yield ((L, d),) + rest


def genSeqs(tier):
    q = tier == 'quick'
    for n in range(0, (5 if q else 6)):
        for toks in tokenSeqs(n, (3, 4, 18), 5):
            yield toks
    # every length x every reachable small displacement after 1..20 literals
    for pre in range(1, 21):
        lits = tuple(65 + i for i in range(pre))
        for L in range(3, 19):
            for d in range(1, pre + 1):
                yield lits + ((L, d),)
                yield lits + ((L, d), 33)


def checkSeq(toks, ctx):
    decodeCheck(toks, None, b'', ctx, (bytes, bytearray) if len(toks) <= 3 else (bytes,))


def genPhase(tier):
    # a reference at every position of the flag group, followed by k literals,
    # followed by another reference; every prefix of the output as the size
    for pre in range(1, 19):
        for post in range(0, 18):
            for (L, d) in ((3, 1), (18, 1), (5, min(pre, 2)), (9, pre)):
                yield (pre, post, L, d)


def checkPhase(case, ctx):
    pre, post, L, d = case
    toks = tuple(48 + i for i in range(pre)) + ((L, d),) + tuple(80 + i for i in range(post)) + ((4, 2 if pre > 1 else 1),)
    total = pre + L + post + 4
    for trailing in (b'', b'\0', b'\0\0\0', b'\xff\xff'):
        decodeCheck(toks, None, trailing, ctx)
    # streams whose output ends inside the final match
    for cut in range(0, 4):
        decodeCheck(toks, total - cut, b'', ctx)
    # ... and inside the first one
    for size in range(pre + 1, pre + L + 1):
        decodeCheck(toks[:pre + 1], size, b'', ctx)


def genFar(tier):
    for n in (255, 256, 257, 258, 4094, 4095, 4096, 4097, 4100):
        for d in (1, 2, 3, 15, 16, 17, 255, 256, 257, 258, 511, 512, 1023, 1024, 2047, 2048, 2049, 4093, 4094, 4095, 4096):
            if d <= n:
                for L in range(3, 19):
                    yield (n, d, L)


def checkFar(case, ctx):
    n, d, L = case
    toks = tuple((i * 7 + (i >> 8)) & 0xFF for i in range(n)) + ((L, d), 9, (L, d))
    decodeCheck(toks, None, b'', ctx)


def genLiterals(tier):
    for n in range(0, 42):
        for size in range(max(0, n - 9), n + 1):
            for trailing in (0, 1, 2, 7, 8, 9, 20):
                for fill in (0, 0xFF, 65):
                    yield (n, size, trailing, fill)


def checkLiterals(case, ctx):
    """Only literals, with more data behind them than the size asks for."""
    n, size, trailing, fill = case
    decodeCheck(tuple(48 + i for i in range(n)), size, bytes([fill]) * trailing, ctx)
    if n:
        decodeCheck((7, (18, 1)) + tuple(48 + i for i in range(n)), 19 + size, bytes([fill]) * trailing, ctx)


def genLate(tier):
    for P in (0x1000, 0x3FF0, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x1FFFF):
        for d in (1, 2, 255, 256, 257, 2048, 4093, 4094, 4095, 4096):
            for L in (3, 17, 18):
                yield (P, d, L)


def checkLate(case, ctx):
    P, d, L = case
    toks = (9,) + ((18, 1),) * (P // 18) + tuple(i % 251 for i in range(P % 18 + 300)) + ((18, 200),) * 220 + ((L, d), 5, (L, d), 6)
    decodeCheck(toks, None, b'', ctx)


def genRefRuns(tier):
    for k in range(1, 40):
        for L in (3, 10, 18):
            for d in (1, 2, 3):
                yield (k, L, d)


def checkRefRuns(case, ctx):
    k, L, d = case
    toks = (1, 2, 3) + ((L, d),) * k
    decodeCheck(toks, None, b'', ctx)


def genSizes(tier):
    for n in (0, 1, 255, 256, 257, 65535, 65536, 65537, 100000, 0x100000, 0x7FFFFF, 0x800000, 0xFFFFFF):
        yield n


def checkSizes(n, ctx):
    toks = ((7,) + ((18, 1),) * ((n - 1 + 17) // 18)) if n else ()
    decodeCheck(toks, n, b'', ctx)


def genWrong(tier):
    for first in range(256):
        for tail in (b'', b'\0\0\0', b'\x05\0\0\0abcde', b'\x01\0\0\0a'):
            yield bytes([first]) + tail


def checkWrong(blob, ctx):
    ctx.state(blob)
    ctx.step()
    if blob[0] != 0x10:
        raises(TypeError, lambda: ndspy.lz10.decompress(blob), 'decompress(%r)' % blob)
        ctx.outcome('rejected')
    elif len(blob) > 5:
        n = blob[1]
        same(ndspy.lz10.decompress(blob), blob[5:5 + n], 'decompress(%r)' % blob)
        ctx.outcome('decoded')


spaces = [
    Space('token-sequences', genSeqs, checkSeq, lambda t: 'every token sequence of up to %d tokens (2 literal values, lengths 3/4/18, distances 1..5), and every length x distance after 1..20 literals' % (4 if t == 'quick' else 5)),
    Space('flag-phase', genPhase, checkPhase, 'back-reference at every flag-group phase, every amount of literals after it, every truncation point inside a match, trailing bytes'),
    Space('literals', genLiterals, checkLiterals, '0..41 literals, output sizes up to 9 short of them, 0..20 trailing bytes of three kinds'),
    Space('late', genLate, checkLate, 'references of every distance class behind up to 0x1FFFF bytes of output'),
    Space('reference-runs', genRefRuns, checkRefRuns, 'runs of 1..39 consecutive references'),
    Space('distances', genFar, checkFar, 'every length with distances around every power of two up to 4096'),
    Space('sizes', genSizes, checkSizes, 'output sizes around 0, 2^8, 2^16, 2^20, 2^23 and the largest, 2^24 - 1'),
    Space('type-byte', genWrong, checkWrong, 'all 256 type bytes'),
]
