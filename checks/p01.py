"""P01: LZ10 compression is lossless and emits a valid stream."""
from mc.core import Space, same, require
from mc import ref_lz, shapes
import ndspy.lz10


def roundTrip(data, ctx, asType=bytes):
    comp = ndspy.lz10.compress(asType(data))
    require(isinstance(comp, bytes), 'compress() returned %s', type(comp).__name__)
    ref = ref_lz.lz10Validate(comp)
    same(ref, data, 'reference decoder on compressed data')
    back = ndspy.lz10.decompress(comp)
    require(isinstance(back, bytes), 'decompress() returned %s', type(back).__name__)
    same(back, data, 'decompress(compress(data))')
    ctx.state((data, comp))
    ctx.step(2)
    ctx.outcome('%s len%%8=%d' % ('shrunk' if len(comp) < len(data) else 'stored', len(data) % 8))


def genSmall(tier):
    yield from shapes.strings(b'\0a', 13 if tier == 'quick' else 17)
    yield from shapes.strings(b'\0\xff\x10', 8 if tier == 'quick' else 11, 3)
    yield from shapes.strings(b'abcd', 6 if tier == 'quick' else 8, 4)


def genRuns(tier):
    top = 26 if tier == 'quick' else 40
    for n in range(0, 700):
        yield (('z', n, 7),)
    for p in range(1, 24):
        for n in range(p, 90):
            yield (('p', p, n),)
    for i in range(0, top):
        for j in range(0, top):
            for k in range(0, top):
                yield (('z', i, 1), ('z', j, 2), ('z', k, 1))


def genFar(tier):
    # a block of L marker bytes, repeated at distance D, at every phase of
    # the 8-token flag group, with every small tail
    Ls = list(range(1, 21)) + [35, 36, 37, 54, 55]
    Ds = [0, 1, 2, 3, 252, 253, 254, 255, 256, 257, 258, 2047, 2048, 2049,
          4078, 4079, 4080] + list(range(4088, 4102))
    for L in Ls:
        for D in Ds:
            gap = max(D - L, 0) if D > 3 else D
            for h in range(0, 9 if tier == 'quick' else 17):
                for t in (0, 1, 2, 7, 8) if tier == 'quick' else range(0, 17):
                    yield (('p', 24, h), ('m', L), ('z', gap, 0), ('m', L), ('p', 24, t))


def genFarDense(tier):
    for L in ([1, 2, 3, 4, 5, 17, 18, 19, 20, 36, 37] if tier == 'quick' else range(1, 40)):
        for D in (4093, 4094, 4095, 4096, 4097, 4098):
            for h in range(0, 9):
                yield (('n', 7), ('z', h, 40), ('m', L), ('n', D - L), ('m', L), ('z', 1, 50))


def genPair(tier):
    # two candidate matches of different lengths at different distances
    for a in range(2, 12):
        for b in range(2, 12):
            for g in (0, 1, 5):
                for h in range(0, 4):
                    yield (('m', a), ('z', 1, 1), ('m', b), ('z', g, 2), ('m', max(a, b) + h), ('z', 1, 3), ('m', a))


def genBig(tier):
    sizes = [255, 256, 257, 65534, 65535, 65536, 65537, 65540, 0x12345, 0x100000, 0x123456]
    sizes += [0x7FFFFF, 0x800000, 0xFFFFFF]
    for n in sizes:
        yield (('z', n, 0),)
    for n in (255, 256, 257, 4095, 4096, 4097, 4900):
        yield (('n', n),)
    yield (('r', bytes(range(256)) * 40),)
    yield (('r', bytes(range(256)) * 17), ('n', 4900), ('r', bytes(range(256))))


def genLate(tier):
    # the same far matches, but far into the data
    for P in (0xFF0, 0x1FFF, 0x2000, 0x2001, 0x3FFF, 0x4000, 0x7FF8, 0x8000, 0xFFF7, 0xFFFF, 0x10000, 0x10008):
        for D in (1, 255, 256, 257, 2048, 4094, 4095, 4096, 4097, 4098):
            for L in ((3, 18, 19) if tier == 'quick' else (1, 2, 3, 4, 17, 18, 19, 36)):
                yield (('z', P, 0), ('m', L), ('z', max(D - L, 0), 0), ('m', L), ('p', 24, 3))
                if D > 4000 and P in (0x2000, 0x8000):
                    yield (('N', P), ('m', L), ('N', D - L), ('m', L), ('p', 24, 3))
    for n in (9000, 20000, 66000):
        yield (('N', n),)
        yield (('u', n // 8, 5),)
        yield (('N', n), ('z', 3000, 9), ('N', 5000))


def checkShape(case, ctx):
    roundTrip(shapes.shape(case), ctx)


def checkSmall(case, ctx):
    roundTrip(case, ctx)
    if len(case) <= 6:
        roundTrip(case, ctx, bytearray)


spaces = [
    Space('small-strings', genSmall, checkSmall,
          lambda t: 'all strings over 2 letters up to length %s, 3 letters up to %s, 4 letters up to %s' % (
              (13, 8, 6) if t == 'quick' else (17, 11, 8))),
    Space('runs', genRuns, checkShape, 'all one-byte runs < 700, periodic data (period < 24, length < 90), all a^i b^j a^k up to the bound'),
    Space('two-matches', genPair, checkShape, 'two competing matches of every length 2..11'),
    Space('far-match', genFar, checkShape, 'block of every length 1..20 and around multiples of 18, at distances around 0, 256, 2048, 4096, at every flag phase and tail'),
    Space('far-dense', genFarDense, checkShape, 'same without any other repetition in the window'),
    Space('late', genLate, checkShape, 'far matches behind 0xFF0..0x10008 bytes of other data, compressible or not; long data without repetitions; long data with a short match in every unit'),
    Space('sizes', genBig, checkShape, 'sizes around 2^8, 2^16, 2^20, 2^23 and the largest, 2^24 - 1'),
]
