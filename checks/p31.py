"""P31: rendering a texture gives the colours the hardware format defines."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_tex as R
from ndspy.color import ColorTuple
from ndspy.texture import Texture, Palette, TextureFormat, renderTextureData, renderTextureDataAsImage


def ex(v):
    return v * 8 + v // 4


def tup(c):
    return (c % 32, c // 32 % 32, c // 1024 % 32, c // 32768)


def verify(got, want, what):
    same(len(got), len(want), what + ': number of pixels')
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            same(g[3], 0, what + ': opacity of pixel %d' % i)
        elif tuple(g) != w:
            require(False, '%s: pixel %d is %r, expected %r', what, i, g, w)


def verifyImage(img, want, w, h, what):
    same((img.size, img.mode), ((w, h), 'RGBA'), what + ': size and mode')
    got = img.tobytes()
    for i, p in enumerate(want):
        g = tuple(got[4 * i:4 * i + 4])
        if p is None:
            same(g[3], 0, what + ': opacity of pixel %d' % i)
        elif g != tuple(map(ex, p)):
            require(False, '%s: pixel %d is %r, expected %r', what, i, g, tuple(map(ex, p)))


def everyWay(params, d1, d2, colours, ctx, full=True):
    """colours: 16-bit integers, or None."""
    w, h = R.size(params)
    fmt = TextureFormat(params // 1024 % 8)
    for c0 in (False, True):
        want = R.render(params, d1, d2, colours, c0)
        t = Texture(0, 0, params & ~0x2000 | c0 << 13, 0, d1, d2)
        pal = None if colours is None else Palette.fromColors(0, 0, 0, [ColorTuple(*tup(c)) for c in colours])
        verify(t.render(pal) if pal else t.render(), want, 'texture')
        verifyImage(t.renderAsImage(pal), want, w, h, 'image of the texture')
        ctx.step(2)
        if full:
            forms = [None] if colours is None else [colours, pal.colors, [tup(c) for c in colours], tuple(colours)]
            for f in forms:
                verify(renderTextureData(d1, d2, fmt, w, h, f, c0), want, 'texture data')
                verifyImage(renderTextureDataAsImage(d1, d2, fmt, w, h, f, c0), want, w, h, 'image of texture data')
                if c0:
                    verify(renderTextureData(d1, d2, fmt, w, h, f), want, 'texture data, default transparency')
                    verifyImage(renderTextureDataAsImage(d1, d2, fmt, w, h, f), want, w, h, 'image of texture data, default transparency')
                ctx.step(2)
            verify(renderTextureData(bytearray(d1), bytearray(d2), fmt, w, h, f, c0), want, 'texture data from a bytearray')
            if colours is not None:
                same([tuple(c) for c in pal.colors], [tup(c) for c in colours], 'the palette afterwards')


def colours(n, seed):
    return [(seed * 12345 + i * 1057 + i // 32 * 33000 + 77) % 65536 for i in range(n)]


NEEDED = {1: 32, 2: 4, 3: 16, 4: 256, 6: 8}


# All texel values
def genTexels(tier):
    return itertools.product((1, 2, 3, 4, 6), range(4), range(4))


def checkTexels(case, ctx):
    f, seed, part = case
    n, _ = R.lengths(f << 10)
    base = part * 64 if n == 64 else part * 64 % 256
    for start in range(base, base + 64, n):
        for step in (1, 3):
            d = bytes((start + step * i) % 256 for i in range(n))
            everyWay(f << 10, d, b'', colours(NEEDED[f], seed), ctx)
    everyWay(f << 10, bytes(n), b'', colours(NEEDED[f] + 5, seed), ctx)
    ctx.state(case)


# Palettes in which colours occur several times
def genAlike(tier):
    for f in (1, 2, 3, 4, 5, 6):
        for c in (0, 0x7FFF, 0x8000, 0xFFFF, 0x1234):
            for period in (1, 2, 3):
                yield (f, c, period)


def checkAlike(case, ctx):
    f, c, period = case
    n1, n2 = R.lengths(f << 10)
    cols = [c if i % period == 0 else (c + 0x421 * (i % period)) % 65536 for i in range(NEEDED.get(f, 16))]
    for k in range(0, 256, n1):
        d = bytes((k + i) % 256 for i in range(n1))
        for mode in range(4 if f == 5 else 1):
            everyWay(f << 10, d, bytes([1, mode * 64] * (n2 // 2)), cols, ctx, k == 0)
    ctx.state(('alike',) + case)


# Every byte value at every position of a small texture
def genBytes(tier):
    for f in (1, 2, 3, 4, 6, 7):
        for v in range(256):
            yield (f, v)


def checkBytes(case, ctx):
    f, v = case
    n, _ = R.lengths(f << 10)
    cols = None if f == 7 else colours(NEEDED[f], v)
    pal = None if f == 7 else Palette.fromColors(0, 0, 0, list(map(tup, cols)))
    d = bytes((v + i * 5) % 256 for i in range(n))
    everyWay(f << 10, d, b'', cols, ctx, False)
    for pos in range(n):
        d = bytearray(n)
        d[pos] = v
        t = Texture(0, 0, f << 10, 0, bytes(d), b'')
        verify(t.render(pal), R.render(f << 10, d, b'', cols, False), 'texture')
        ctx.step()
    ctx.state(case)


# All sizes
def genSizes(tier):
    top = 12 if tier == 'quick' else 17
    for f in range(1, 8):
        for a in range(8):
            for b in range(8):
                if a + b + 6 <= top:
                    yield (f, a, b)


def checkSizes(case, ctx):
    f, a, b = case
    params = f << 10 | a << 4 | b << 7
    n1, n2 = R.lengths(params)
    d1, d2 = R.fill(n1, 3), R.fill(n2, 4)
    if f == 5:
        d2 = bytes(v % 16 if i % 2 == 0 else v % 4 * 64 for i, v in enumerate(d2))
    everyWay(params, d1, d2, {7: None, 5: colours(36, 1)}.get(f) if f in (5, 7) else colours(NEEDED[f], 1), ctx, False)
    ctx.state(case)


# All 65536 direct colours
def genDirect(tier):
    return range(256)


def checkDirect(hi, ctx):
    for lo in range(0, 256, 64):
        d = b''.join(bytes((lo + i, hi)) for i in range(64))
        everyWay(7 << 10, d, b'', None, ctx, lo == 0)
    ctx.state(('direct', hi))


# All palette colours
def genPalette(tier):
    return range(256)


def checkPalette(hi, ctx):
    cols = [hi * 256 + lo for lo in range(256)]
    for k in range(4):
        d = bytes(range(k * 64, k * 64 + 64))
        t = Texture(0, 0, 4 << 10, 0, d, b'')
        pal = Palette.fromColors(0, 0, 0, [tup(c) for c in cols])
        verify(t.render(pal), R.render(4 << 10, d, b'', cols, False), 'texture')
        ctx.step()
    for f in (1, 2, 3, 6):
        for k in range(0, 256, NEEDED[f]):
            n, _ = R.lengths(f << 10)
            d = bytes((i * 37 + k) % 256 for i in range(n))
            verify(renderTextureData(d, b'', TextureFormat(f), 8, 8, cols[k:k + NEEDED[f]], False),
                   R.render(f << 10, d, b'', cols[k:k + NEEDED[f]], False), 'texture')
            ctx.step()
    ctx.state(('pal', hi))


# Block compression: all pairs of channel values in all modes
def genBlocks(tier):
    return itertools.product(range(32), repeat=2)


def checkBlocks(case, ctx):
    i, j = case
    for r, g, b in (((i, j), (j, 31 - i), (31 - j, i)), ((31 - i, i), (i, j), (j, j)), ((0, 31), (31, 0), (i, j))):
        for a0, a1 in ((0, 0), (1, 0), (0, 1), (1, 1)):
            cols = [r[k] | g[k] << 5 | b[k] << 10 | (a0, a1)[k] << 15 for k in (0, 1)] + [(i * 1000 + j) % 65536, (j * 999 + i + 32768) % 65536]
            d1 = bytes([0xE4, 0x1B, 0xB1, 0x4E] * 4)
            d2 = bytes([0, 0, 0, 0x40, 0, 0x80, 0, 0xC0])
            want = R.render(5 << 10, d1, d2, cols, True)
            t = Texture(0, 0, 5 << 10, 0, d1, d2)
            verify(t.render(Palette.fromColors(0, 0, 0, list(map(tup, cols)))), want, 'texture')
            verify(renderTextureData(d1, d2, TextureFormat.TEXELED, 8, 8, cols), want, 'texture data')
            ctx.step(2)
    ctx.state(case)


# Block compression: texel bytes, modes, palette offsets
def genTexeled(tier):
    for mode in range(4):
        for v in range(256):
            yield (mode, v)


def checkTexeled(case, ctx):
    mode, v = case
    for row in range(4):
        for off in (0, 1, 2, 7):
            d1 = bytearray(16)
            for blk in range(4):
                d1[blk * 4 + (row + blk) % 4] = (v + blk * 85) % 256
            d2 = b''.join(((off + blk) | ((mode + blk) % 4) << 14).to_bytes(2, 'little') for blk in range(4))
            cols = colours(2 * (off + 3) + 4, v)
            want = R.render(5 << 10, d1, d2, cols, False)
            verify(renderTextureData(bytes(d1), d2, TextureFormat.TEXELED, 8, 8, cols, False), want, 'texture data')
            verify(renderTextureData(bytes(d1), d2, TextureFormat.TEXELED, 8, 8, list(map(tup, cols)), True), want, 'texture data')
            ctx.step(2)
    ctx.state(case)


def genOffsets(tier):
    return itertools.chain(range(0, 64), (0xFF, 0x100, 0x1FF, 0x1000, 0x1FFF, 0x2000, 0x3FFE, 0x3FFF))


def checkOffsets(off, ctx):
    cols = colours(2 * off + 4, off)
    for mode in range(4):
        d1 = bytes([0xE4, 0x1B, 0xB1, 0x4E] * 4)
        d2 = (off | mode << 14).to_bytes(2, 'little') * 4
        verify(renderTextureData(d1, d2, TextureFormat.TEXELED, 8, 8, cols), R.render(5 << 10, d1, d2, cols, True), 'texture data')
        ctx.step()
    ctx.state(('off', off))


# Large textures: many copies of a row or block, so that the expected picture is easily composed
def genLarge(tier):
    for f in range(1, 8):
        for a, b in ((7, 0), (0, 7), (7, 3), (3, 7), (5, 6), (6, 6)) + (((7, 7),)):
            yield (f, a, b)


def checkLarge(case, ctx):
    f, a, b = case
    params = f << 10 | a << 4 | b << 7
    w, h = R.size(params)
    n1, n2 = R.lengths(params)
    rows = 4 if f == 5 else 1       # texture rows that are stored together
    cols = {7: None, 5: colours(36, 1)}.get(f) if f in (5, 7) else colours(NEEDED[f], 1)
    one1, one2 = n1 * rows // h, n2 * rows // h
    parts, want = [], []
    for k in range(5):
        d1, d2 = R.fill(one1, k), R.fill(one2, k + 9)
        if f == 5:
            d2 = bytes(v % 16 if i % 2 == 0 else v % 4 * 64 for i, v in enumerate(d2))
        parts.append((d1, d2, R.renderRows(f, w, rows, d1, d2, cols, True)))
    d1 = b''.join(parts[i * i % 5][0] for i in range(h // rows))
    d2 = b''.join(parts[i * i % 5][1] for i in range(h // rows))
    want = [p for i in range(h // rows) for p in parts[i * i % 5][2]]
    same((len(d1), len(d2), len(want)), (n1, n2, w * h), 'the example')
    got = renderTextureData(d1, d2, TextureFormat(f), w, h, cols, True)
    verify(got, want, 'texture data')
    if a + b < 12:
        t = Texture(0, 0, params | 0x2000, 0, d1, d2)
        verifyImage(t.renderAsImage(cols and Palette.fromColors(0, 0, 0, list(map(tup, cols)))), want, w, h, 'image')
    ctx.step(2)
    ctx.state(('large',) + case)


def genUnknown(tier):
    return range(1)


def checkUnknown(k, ctx):
    raises(ValueError, Texture(0, 0, 0, 0, b'', b'').render, 'rendering a texture without format')
    ctx.step()
    ctx.state('unknown')


spaces = [
    Space('texels', genTexels, checkTexels, 'all byte values of texels x 5 paletted formats x palettes x every way of rendering'),
    Space('alike', genAlike, checkAlike, 'all texel bytes x 6 formats x palettes of one to three colours'),
    Space('bytes', genBytes, checkBytes, 'all byte values at every position of an 8x8 texture x 6 formats'),
    Space('direct', genDirect, checkDirect, 'all 65536 direct colours'),
    Space('palette', genPalette, checkPalette, 'all 65536 palette colours'),
    Space('blocks', genBlocks, checkBlocks, 'all 32 x 32 pairs of channel values x all modes and texel values'),
    Space('texeled', genTexeled, checkTexeled, 'all texel bytes x rows x modes x palette offsets'),
    Space('offsets', genOffsets, checkOffsets, 'palette offsets 0..63 and limits up to 0x3FFF x all modes'),
    Space('sizes', genSizes, checkSizes, lambda t: 'all sizes of up to %d pixels x 7 formats' % (4096 if t == 'quick' else 131072)),
    Space('large', genLarge, checkLarge, 'textures of up to 1024x1024 whose rows repeat'),
    Space('unknown', genUnknown, checkUnknown, 'unknown format'),
]
