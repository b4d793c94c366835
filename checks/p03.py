"""P03: code compression is lossless, in-place decodable and never fails."""
from mc.core import Space, same, require
from mc import ref_lz, shapes
import ndspy.codeCompression as cc
from checks import p01


def roundTrip(data, isArm9, ctx):
    what = 'compress(isArm9=%s)' % isArm9
    comp = cc.compress(data, isArm9) if isArm9 else cc.compress(data)
    require(isinstance(comp, bytes), '%s returned %s', what, type(comp).__name__)
    ctx.state((data, isArm9))
    ctx.step()
    if isArm9:
        same(comp[:min(0x4000, len(data))], data[:0x4000], '%s: first 0x4000 bytes' % what)
    # stored uncompressed: the data, zero padding, and a zero word
    stored = comp[:len(data)] == data and len(comp) >= len(data) + 4 \
        and len(comp) <= len(data) + 7 and not any(comp[len(data):])
    if not stored:
        img = ref_lz.blzInPlace(comp)
        same(img, data, '%s: in-place reference decoding' % what)
        if isArm9:
            w = int.from_bytes(comp[-8:-5], 'little')
            require(len(comp) - w >= 0x4000, '%s: compressed region reaches into the first 0x4000 bytes', what)
        require(len(comp) <= len(data), '%s: compressed file larger than the data', what)
        ctx.outcome('compressed')
    else:
        fp = ref_lz.blzPlausibleFooter(comp)
        if fp is not None and fp[1] != 0:
            # the stored data itself ends in a plausible footer: ambiguous by
            # design of the format, excluded by the property
            ctx.outcome('stored-ambiguous')
            return
        ctx.outcome('stored')
    back = cc.decompress(comp)
    ctx.step()
    if stored:
        require(back[:len(data)] == data and len(back) <= len(data) + 7 and not any(back[len(data):]),
                '%s then decompress: got %r, expected %r plus zeros', what, bytes(back[:80]), data[:80])
    else:
        same(bytes(back), data, '%s then decompress' % what)


def checkRaw(case, ctx):
    roundTrip(case, False, ctx)


def checkShape(case, ctx):
    roundTrip(shapes.shape(case), False, ctx)


def genSmall(tier):
    q = tier == 'quick'
    yield from shapes.strings(b'\0a', 14 if q else 17)
    yield from shapes.strings(b'\x08\xff', 12 if q else 15)
    yield from shapes.strings(b'\0\xff\x08', 8 if q else 10, 3)


def genMarginal(tier):
    # data whose compressed size is near its own size: n non-repeating bytes
    # around k repeats of an L-byte block
    for h in range(0, 10 if tier == 'quick' else 20):
        for L in (3, 4, 5, 6, 9, 17, 18, 19):
            for k in range(1, 7):
                for g in (0, 1, 2, 9):
                    for t in range(0, 12 if tier == 'quick' else 20):
                        yield (('p', 24, h),) + (('m', L), ('n', g)) * k + (('p', 24, t),)
    # repeats only at the very start / middle / end of incompressible data
    for n in range(0, 80):
        for L in range(3, 24):
            yield (('n', n), ('z', L, 200))
            yield (('z', L, 200), ('n', n))
            yield (('n', n // 2), ('z', L, 200), ('p', 24, n - n // 2))


def genArm9(tier):
    for base in (0, 1, 3, 4, 0x3FF8, 0x3FFC, 0x3FFD, 0x3FFE, 0x3FFF, 0x4000):
        yield (base, ())
    q = tier == 'quick'
    tails = [(('z', n, 5),) for n in range(1, 41)]
    tails += [(('n', n),) for n in range(1, 41)]
    tails += [(('n', h), ('z', n, 9), ('p', 7, t)) for h in (0, 1, 5, 17, 33) for n in (3, 9, 18, 19, 40)
              for t in (0, 1, 2, 3, 40)]
    tails += [(('p', p, n),) for p in range(1, 20) for n in (20, 37, 64, 65, 66, 67)]
    for tail in tails:
        yield (0x4000, tail)


def checkArm9(case, ctx):
    base, tail = case
    pattern = bytes((i * 5 + (i >> 8)) & 0xFF for i in range(0x4000))
    roundTrip(pattern[:base] + shapes.shape(tail), True, ctx)
    # data that would compress well inside the protected prefix
    roundTrip(b'\x11' * base + shapes.shape(tail), True, ctx)


def genFar(tier):
    for case in p01.genFar('quick'):
        L = case[1][1]
        if L in (1, 2, 3, 4, 17, 18, 19, 20, 36, 37):
            gap = case[2][1]
            for extra in ((0, 1, 2, 3) if gap + L > 4000 else (0,)):
                yield case[:2] + (('z', gap + extra, 0),) + case[3:]


def genBig(tier):
    for n in (0xFFFF, 0x10000, 0x10001, 0x40000, 0x200000, 0x800000):
        yield (('z', n, 0),)
    # runs whose file is 0x8000, 0x10000, ... bytes smaller
    for n in (0x9134, 0x12258, 0x2449C, 0x366E0, 0x12245C):
        for i in range(-8, 9):
            yield (('z', n + i, 3),)
    for n in (4095, 4096, 4097, 4098, 4099, 4100, 4900):
        yield (('n', n),)
        yield (('n', n), ('n', n))
    yield (('r', bytes(range(256)) * 40),)


def genLate(tier):
    # the file is compressed from its end, so 'behind' means in front
    for P in (0xFF0, 0x2000, 0x4000, 0x8000, 0xFFF7, 0x10000):
        for D in (3, 256, 257, 258, 2048, 4096, 4097, 4098, 4099, 4100):
            for L in (3, 18, 19):
                yield (('p', 24, 3), ('m', L), ('z', max(D - L, 0), 0), ('m', L), ('z', P, 0))
    # a long part that stays uncompressed at the start
    for n in (255, 256, 257, 1000, 4000, 4095, 4096, 4097, 4103, 4900):
        for m in (40, 400, 3000):
            for t in (0, 1, 30):
                yield (('n', n), ('z', m, 200), ('n', t))
    for n in (9000, 20000, 66000):
        yield (('N', n), ('z', 30000, 200))
        yield (('z', 30000, 200), ('N', n))
        yield (('N', 500), ('u', n // 6, 5), ('N', n // 9))
    for n in (8000, 12000, 16000):
        yield (('u', n, 5),)


spaces = [
    Space('late', genLate, checkShape, 'far matches in front of 0xFF0..0x10000 bytes; 255..66000 incompressible bytes at the start or end of compressible data; files that compress to more than 64 KiB'),
    Space('small-strings', genSmall, checkRaw, 'all strings over 2 letters up to length 14 (12 for footer-like letters), 3 letters up to 8'),
    Space('marginal', genMarginal, checkShape, 'repeats of 3..24 bytes at every place of otherwise incompressible data, all sizes around the break-even point'),
    Space('runs', lambda t: p01.genRuns(t) if t != 'quick' else (c for i, c in enumerate(p01.genRuns(t)) if len(c) < 3 or max(p[1] for p in c) < 22), checkShape, 'one-byte runs < 700, periodic data, all a^i b^j a^k up to 21'),
    Space('arm9', genArm9, checkArm9, 'ARM9 mode with data shorter than, equal to and beyond the protected prefix'),
    Space('far-match', genFar, checkShape, 'block of boundary lengths at distances around the window size 0x1002, every flag phase'),
    Space('sizes', genBig, checkShape, 'sizes around 2^16 and the window, up to 2^23, sizes that shrink by around 2^15, 2^16, 2^17 and 2^20 bytes'),
]
assumptions = ['Data stored uncompressed whose last 0x24 bytes contain a plausible compression footer is ambiguous in the format and excluded.']
