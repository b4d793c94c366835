"""P27: colour conversions are exact, consistent and reversible."""
import itertools, os, tempfile
from mc.core import Space, same, require
from ndspy import color as C
from ndspy.color import ColorFormat as F, convert

FORMATS = (F.INT_16, F.BYTES_2, F.TUPLE_RGB5A1, F.TUPLE_RGB5A5, F.TUPLE_RGBA255)


def ex(v):
    """5-bit channel to 8 bits: the top bits are repeated at the bottom."""
    return v * 8 + v // 4


def nearest(c):
    """The 5-bit values whose expansion is closest to an 8-bit value."""
    d = min(abs(ex(v) - c) for v in range(32))
    return [v for v in range(32) if abs(ex(v) - c) == d]


NEAREST = [nearest(c) for c in range(256)]


def forms(i):
    r, g, b, a = i % 32, i // 32 % 32, i // 1024 % 32, i // 32768
    return {F.INT_16: i, F.BYTES_2: bytes([i % 256, i // 256]), F.TUPLE_RGB5A1: (r, g, b, a), F.TUPLE_RGB5A5: (r, g, b, 31 * a),
            F.TUPLE_RGBA255: (ex(r), ex(g), ex(b), 255 * a)}


def eq(got, want, what):
    if isinstance(want, tuple):
        require(isinstance(got, tuple) and len(got) == 4, '%s: got %r, expected a tuple', what, got)
        same((got.r, got.g, got.b, got.a), want, what + ' (fields)')
    same(got, want, what)
    same(type(got) if not isinstance(want, tuple) else tuple, type(want), what + ': type')


def gen256(tier):
    return range(256)


def checkColours(block, ctx):
    if block % 2:
        C.prepareLUTs()
    for i in range(block * 256, block * 256 + 256):
        f = forms(i)
        for a in FORMATS:
            for b in FORMATS:
                eq(convert(f[a], a, b), f[b], 'convert(%r, %s, %s)' % (f[a], a.name, b.name))
                if a is F.BYTES_2:
                    eq(convert(bytearray(f[a]), a, b), f[b], 'convert(bytearray)')
        ctx.step(25)
    ctx.state(block)


def checkOld(block, ctx):
    """The single-purpose functions."""
    for i in range(block * 256, block * 256 + 256):
        f = forms(i)
        t1, t8, by = f[F.TUPLE_RGB5A1], f[F.TUPLE_RGBA255], f[F.BYTES_2]
        eq(C.unpack(i), t1, 'unpack')
        eq(C.pack(*t1), i, 'pack')
        eq(C.unpack255(i), t8, 'unpack255')
        eq(C.pack255(*t8), i, 'pack255')
        eq(C.expand(*t1), t8, 'expand')
        eq(C.contract(*t8), t1, 'contract')
        eq(C.load(by), t1, 'load')
        eq(C.save(*t1), by, 'save')
        if t1[3]:
            same(C.pack(*t1[:3]), i, 'pack without alpha')
            same(C.pack255(*t8[:3]), i, 'pack255 without alpha')
            same(tuple(C.expand(*t1[:3])), t8, 'expand without alpha')
            same(tuple(C.contract(*t8[:3])), t1, 'contract without alpha')
            same(C.save(*t1[:3]), by, 'save without alpha')
        ctx.step(8)
    ctx.state(('old', block))


def checkTables(block, ctx):
    C.prepareLUTs()
    C.prepareLUTs()
    if block == 0:
        for n in ('UNPACKED', 'UNPACKED_255', 'RGBA_255', 'ARGB_255', 'BGRA_255', 'ABGR_255'):
            same(len(getattr(C, 'LUT_' + n)), 65536, 'length of LUT_' + n)
    for i in range(block * 256, block * 256 + 256):
        f = forms(i)
        r, g, b, a = f[F.TUPLE_RGBA255]
        eq(C.LUT_UNPACKED[i], f[F.TUPLE_RGB5A1], 'LUT_UNPACKED')
        eq(C.LUT_UNPACKED_255[i], f[F.TUPLE_RGBA255], 'LUT_UNPACKED_255')
        for n, p in (('RGBA', (r, g, b, a)), ('ARGB', (a, r, g, b)), ('BGRA', (b, g, r, a)), ('ABGR', (a, b, g, r))):
            same(getattr(C, 'LUT_%s_255' % n)[i], int.from_bytes(bytes(p), 'big'), 'LUT_%s_255[%d]' % (n, i))
        ctx.step(6)
    ctx.state(('lut', block))


# Values that cannot be represented exactly go to the nearest value
def gen8(tier):
    for ch in range(4):
        for v in range(256):
            yield (ch, v)


def check8(case, ctx):
    ch, v = case
    for rest in ((0, 0, 0, 0), (255, 255, 255, 255), (8, 132, 255, 255), (4, 100, 200, 100)):
        x = list(rest)
        x[ch] = v
        x = tuple(x)
        got5 = convert(x, F.TUPLE_RGBA255, F.TUPLE_RGB5A5)
        got1 = convert(x, F.TUPLE_RGBA255, F.TUPLE_RGB5A1)
        for k in range(4):
            require(got5[k] in NEAREST[x[k]], '%r to RGB5A5: %r', x, got5)
        same(got1[:3], got5[:3], '%r to RGB5A1' % (x,))
        same(got1[3], int(x[3] >= 128), '%r to RGB5A1: alpha' % (x,))
        want = C.pack(*got1)
        same(convert(x, F.TUPLE_RGBA255, F.INT_16), want, '%r to an integer' % (x,))
        same(convert(x, F.TUPLE_RGBA255, F.BYTES_2), want.to_bytes(2, 'little'), '%r to bytes' % (x,))
        same(tuple(C.contract(*x)), tuple(got1), 'contract%r' % (x,))
        same(C.pack255(*x), want, 'pack255%r' % (x,))
        same(tuple(convert(x, F.TUPLE_RGBA255, F.TUPLE_RGBA255)), x, 'no conversion')
        ctx.step(6)
    ctx.state(case)


def gen5(tier):
    return itertools.product(range(32), repeat=2)


def check5(case, ctx):
    a, c = case
    for x in ((c, 0, 31, a), (31, c, 0, a), (7, 8, c, a)):
        eq(convert(x, F.TUPLE_RGB5A5, F.TUPLE_RGB5A5), x, 'no conversion')
        w1 = x[:3] + (int(a >= 16),)
        eq(convert(x, F.TUPLE_RGB5A5, F.TUPLE_RGB5A1), w1, '%r to RGB5A1' % (x,))
        i = x[0] + 32 * x[1] + 1024 * x[2] + 32768 * w1[3]
        eq(convert(x, F.TUPLE_RGB5A5, F.INT_16), i, '%r to an integer' % (x,))
        eq(convert(x, F.TUPLE_RGB5A5, F.BYTES_2), i.to_bytes(2, 'little'), '%r to bytes' % (x,))
        w8 = tuple(map(ex, x))
        eq(convert(x, F.TUPLE_RGB5A5, F.TUPLE_RGBA255), w8, '%r to RGBA255' % (x,))
        eq(convert(w8, F.TUPLE_RGBA255, F.TUPLE_RGB5A5), x, '%r back to RGB5A5' % (w8,))
        ctx.step(6)
    ctx.state(case)


def genPalettes(tier):
    for n in range(0, 40):
        for s in (0, 1, 0x7F3):
            yield (n, s)
    for n in (255, 256, 257, 4096, 65536):
        yield (n, 1)


def checkPalettes(case, ctx):
    n, s = case
    vals = [(s * 977 + i * 4099 * (s | 1)) % 65536 for i in range(n)] if n < 65536 else list(range(65536))
    data = b''.join(v.to_bytes(2, 'little') for v in vals)
    for d in (data, bytearray(data)):
        pal = C.loadPalette(d)
        same([tuple(c) for c in pal], [forms(v)[F.TUPLE_RGB5A1] for v in vals], 'palette')
        same(bytes(C.savePalette(pal)), data, 'saved palette')
        same(bytes(C.savePalette([tuple(c) for c in pal])), data, 'saved palette of plain tuples')
    if n and all(v >= 32768 for v in vals):
        same(bytes(C.savePalette([c[:3] for c in pal])), data, 'palette without alpha')
    ctx.step(3)
    ctx.state(case)


# Palettes of a few colours in a row, such as unused ends of black or white
def genRuns(tier):
    for n in list(range(1, 20)) + [255, 256, 257, 300, 511, 512, 513, 4096, 32768, 32769, 70000]:
        for fill in (0, 0x7FFF, 0x8000, 0xFFFF, 0x1234):
            for where in ('all', 'end', 'start', 'middle', 'half'):
                yield (n, fill, where)


def checkRuns(case, ctx):
    n, fill, where = case
    vals = [(i * 4099 + 5) % 65536 for i in range(n)]
    a, b = {'all': (0, n), 'end': (1, n), 'start': (0, n - 1), 'middle': (1, n - 1), 'half': (n // 2, n)}[where]
    vals[a:b] = [fill] * max(b - a, 0)
    data = b''.join(v.to_bytes(2, 'little') for v in vals)
    pal = C.loadPalette(data)
    same([tuple(c) for c in pal], [forms(v)[F.TUPLE_RGB5A1] for v in vals], 'palette')
    same(bytes(C.savePalette(pal)), data, 'saved palette')
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'p')
        C.savePaletteToFile(pal, p)
        with open(p, 'rb') as f:
            same(f.read(), data, 'saved palette file')
        same(C.loadPaletteFromFile(p), pal, 'loaded palette file')
    ctx.step(4)
    ctx.state(case)


spaces = [
    Space('colours', gen256, checkColours, 'all 65536 colours x all 25 pairs of formats'),
    Space('functions', gen256, checkOld, 'all 65536 colours x the 8 single-purpose functions'),
    Space('tables', gen256, checkTables, 'all 65536 entries of the 6 lookup tables'),
    Space('8bit', gen8, check8, 'all 256 values of each 8-bit channel x 4 settings of the other channels'),
    Space('5bit', gen5, check5, 'all 32 x 32 combinations of a channel and a 5-bit alpha'),
    Space('palettes', genPalettes, checkPalettes, 'palettes of 0..39 and up to 65536 colours'),
    Space('runs', genRuns, checkRuns, 'palettes of 1..19 and up to 70000 colours that are, start with, contain or end in a run of one colour, also as files'),
]
