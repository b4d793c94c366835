"""P28: tiles and tilemaps encode and decode without loss."""
import itertools
from mc.core import Space, same, require, raises
from ndspy.graphics2D import (ImageTile, ImageFormat, TilemapTile, TilemapFormat, loadImageTiles, saveImageTiles,
                              loadTilemapTiles, saveTilemapTiles)

I4, I8 = ImageFormat.I4, ImageFormat.I8
T16, T8 = TilemapFormat.I10H1V1P4, TilemapFormat.I8


def pixelsOf(data, fmt):
    if fmt is I8:
        return list(data)
    out = []
    for b in data:
        out += [b % 16, b // 16]
    return out


def genPixels(tier):
    for fmt in ('I4', 'I8'):
        for pos in range(32 if fmt == 'I4' else 64):
            yield (fmt, pos)


def checkPixels(case, ctx):
    fmt, pos = ImageFormat[case[0]], case[1]
    n = 32 if fmt is I4 else 64
    for bg in (0, 255, 0x5A):
        for v in range(256):
            d = bytearray([bg]) * n
            d[pos] = v
            data = bytes(d)
            for given in (data, d):
                t = ImageTile(given, fmt)
                same(list(t.pixels), pixelsOf(data, fmt), 'pixels')
                same(t.format, fmt, 'format')
                same(bytes(t.save()), data, 'saved tile')
            t = ImageTile.fromPixels(pixelsOf(data, fmt), fmt)
            same(bytes(t.save()), data, 'tile from pixels')
            ctx.step(3)
    ctx.state(case)


# Changing one pixel changes just that pixel
def genSet(tier):
    for fmt in ('I4', 'I8'):
        for pos in range(64):
            yield (fmt, pos)


def checkSet(case, ctx):
    fmt, pos = ImageFormat[case[0]], case[1]
    n = 32 if fmt is I4 else 64
    data = bytes((i * 37 + 11) % 256 for i in range(n))
    for v in range(16 if fmt is I4 else 256):
        t = ImageTile(data, fmt)
        t.pixels[pos] = v
        want = pixelsOf(data, fmt)
        want[pos] = v
        same(list(ImageTile(t.save(), fmt).pixels), want, 'pixels after an edit')
        ctx.step()
    ctx.state(case)


def genLists(tier):
    for fmt in ('I4', 'I8'):
        for n in range(0, 40):
            yield (fmt, n)
        for n in (255, 256, 257, 1023, 1024, 1025, 2049, 4097):
            yield (fmt, n)


def checkLists(case, ctx):
    fmt, n = ImageFormat[case[0]], case[1]
    size = 32 if fmt is I4 else 64
    data = bytes((i * 7 + i // 256 * 13 + 1) % 256 for i in range(size * n))
    for given in (data, bytearray(data)):
        tiles = loadImageTiles(given, fmt)
        same(len(tiles), n, 'number of tiles')
        for i, t in enumerate(tiles):
            same(list(t.pixels), pixelsOf(data[i * size:i * size + size], fmt), 'tile %d' % i)
            same(t.format, fmt, 'format')
        same(bytes(saveImageTiles(tiles)), data, 'saved tiles')
    same(bytes(saveImageTiles(tuple(tiles))), data, 'saved tuple of tiles')
    ctx.step(3)
    ctx.state(case)


def genWrong(tier):
    for fmt in ('I4', 'I8'):
        for n in range(0, 130):
            if n != (32 if fmt == 'I4' else 64):
                yield ('size', fmt, n)
    for mix in itertools.product((0, 1), repeat=3):
        yield ('mix', mix, None)
    for n in (16, 64, 257, 1025):
        for spot in sorted({0, 1, n // 2, n - 2, n - 1}):
            for odd in (0, 1):
                yield ('mix', tuple(odd ^ (i != spot) for i in range(n)), None)
    yield ('default', None, None)


def checkWrong(case, ctx):
    kind, x, n = case
    ctx.step()
    ctx.state(case)
    if kind == 'size':
        raises(ValueError, lambda: ImageTile(bytes(n), ImageFormat[x]), 'a tile of %d bytes' % n)
    elif kind == 'mix':
        tiles = [ImageTile(None, I4 if k else I8) for k in x]
        maps = [TilemapTile(1, T8 if k else T16) for k in x]
        if len(set(x)) > 1:
            raises(ValueError, lambda: saveImageTiles(tiles), 'saving tiles of different formats')
            raises(ValueError, lambda: saveTilemapTiles(maps), 'saving tilemap entries of different formats')
        else:
            same(bytes(saveImageTiles(tiles)), bytes(3 * (32 if x[0] else 64)), 'blank tiles')
            same(bytes(saveTilemapTiles(maps)), (b'\1' if x[0] else b'\1\0') * 3, 'entries')
    else:
        same((list(ImageTile().pixels), ImageTile().format), ([0] * 64, I8), 'default tile')
        t = TilemapTile()
        same((t.tileNum, t.hFlip, t.vFlip, t.paletteNum, t.format, t.value), (0, False, False, 0, T16, 0), 'default entry')
        a, b = ImageTile(), ImageTile()
        a.pixels[5] = 3
        same(b.pixels[5], 0, 'another tile')
        raises(ValueError, lambda: ImageTile(None, 0), 'a bad image format')
        raises(ValueError, lambda: TilemapTile(0, 1), 'a bad tilemap format')


def fields(t):
    return (t.tileNum, t.hFlip, t.vFlip, t.paletteNum)


def genEntries(tier):
    return range(256)


def checkEntries(block, ctx):
    data = b''
    want = []
    for v in range(block * 256, block * 256 + 256):
        f = (v % 1024, bool(v // 1024 % 2), bool(v // 2048 % 2), v // 4096)
        t = TilemapTile(v)
        same(fields(t), f, 'fields of entry %#x' % v)
        same(t.value, v, 'value of entry %#x' % v)
        t = TilemapTile.fromParameters(f[0], T16, *f[1:])
        same((t.value, t.format), (v, T16), 'entry from fields %r' % (f,))
        same(fields(t), f, 'fields of an entry made from %r' % (f,))
        t = TilemapTile.fromParameters(f[0], T16, int(f[1]), int(f[2]), f[3])
        same((t.value, bytes(saveTilemapTiles([t]))), (v, v.to_bytes(2, 'little')), 'entry from fields %r, flips given as numbers' % (f,))
        for first in (0x1234, 0, 0xFFFF):
            t = TilemapTile(first)
            t.value = v
            same(fields(t), f, 'fields after setting the value to %#x' % v)
        t = TilemapTile(0xFFFF if v % 2 else 0)
        t.tileNum, t.hFlip, t.vFlip, t.paletteNum = f
        same(t.value, v, 'value after setting the fields to %r' % (f,))
        data += v.to_bytes(2, 'little')
        want.append(f)
        ctx.step(4)
    for given in (data, bytearray(data)):
        got = loadTilemapTiles(given)
        same([fields(t) for t in got], want, 'loaded entries')
        same(bytes(saveTilemapTiles(got)), data, 'saved entries')
        same(bytes(saveTilemapTiles(loadTilemapTiles(given, T16))), data, 'saved entries')
    ctx.step(3)
    ctx.state(block)


def gen8(tier):
    return range(256)


def check8(v, ctx):
    t = TilemapTile(v, T8)
    same((t.tileNum, t.value, t.format), (v, v, T8), '8-bit entry')
    for first in (0, 1, 0x7F, 0xFF):
        t = TilemapTile(first, T8)
        t.value = v
        same((t.tileNum, t.value, t.format), (v, v, T8), '8-bit entry after setting its value')
        t = TilemapTile(first, T8)
        t.tileNum = v
        same((t.tileNum, t.value, t.format), (v, v, T8), '8-bit entry after setting its number')
    t = TilemapTile.fromParameters(v, T8)
    same(t.value, v, '8-bit entry from its number')
    for h, f, p in itertools.product((False, True), (False, True), range(16)):
        t = TilemapTile.fromParameters(v, T8, h, f, p)
        same((t.value, t.tileNum, t.format), (v, v, T8), '8-bit entry with flips and palette')
        t.format = T16
        same(t.value, v | h << 10 | f << 11 | p << 12, '8-bit entry changed to 16 bits')
        t.format = T8
        u = TilemapTile(v, T8)
        u.hFlip, u.vFlip, u.paletteNum = h, f, p
        same(u.value, v, '8-bit entry after setting flips and palette')
        same(bytes(saveTilemapTiles([t, u, TilemapTile(3, T8)])), bytes((v, v, 3)), 'saved 8-bit entries with flips and palette')
        ctx.step(2)
    data = bytes((v + i) % 256 for i in range(v % 67))
    got = loadTilemapTiles(data, T8)
    same([t.tileNum for t in got], list(data), 'loaded 8-bit entries')
    same(all(t.format is T8 for t in got), True, 'formats')
    same(bytes(saveTilemapTiles(got)), data, 'saved 8-bit entries')
    ctx.step(4)
    ctx.state(('e', v))


def genMapLists(tier):
    return list(range(0, 40)) + [255, 256, 257, 1023, 1024, 1025, 2049, 4096, 4097, 32769, 65537]


def checkMapLists(n, ctx):
    vals = [(i * 2579 + i // 65536 + 77) % 65536 for i in range(n)]
    data = b''.join(v.to_bytes(2, 'little') for v in vals)
    got = loadTilemapTiles(data)
    same([t.value for t in got], vals, 'loaded list')
    same(bytes(saveTilemapTiles(got)), data, 'saved list')
    got.reverse()
    same(bytes(saveTilemapTiles(got)), b''.join(v.to_bytes(2, 'little') for v in reversed(vals)), 'saved reversed list')
    data = bytes(v * 7 // 256 % 256 for v in vals)
    got = loadTilemapTiles(data, T8)
    same([t.value for t in got], list(data), 'loaded 8-bit list')
    same(bytes(saveTilemapTiles(got)), data, 'saved 8-bit list')
    ctx.step(5)
    ctx.state(('l', n))


# Changing one of several equal tiles or entries leaves the others
def genAlike(tier):
    for fmt in ('I4', 'I8'):
        for n in range(1, 7):
            for pat in itertools.product((0, 1), repeat=n):
                yield (fmt, pat)


def checkAlike(case, ctx):
    fmt, pat = ImageFormat[case[0]], case[1]
    size = 32 if fmt is I4 else 64
    for v in (0, 255, 0x21):
        kinds = [bytes([v]) * size, bytes((v + i) % 256 for i in range(size))]
        data = b''.join(kinds[p] for p in pat)
        for k in range(len(pat)):
            tiles = loadImageTiles(data, fmt)
            want = [pixelsOf(kinds[p], fmt) for p in pat]
            tiles[k].pixels[9] = want[k][9] = 7
            tiles[k].pixels[63] = want[k][63] = 3
            same([list(t.pixels) for t in tiles], want, 'tiles after changing tile %d' % k)
            same([t for d in (saveImageTiles(tiles),) for t in pixelsOf(d, fmt)], [p for w in want for p in w], 'saved tiles')
            tf, width = (T8, 1) if fmt is I4 else (T16, 2)
            es = loadTilemapTiles(b''.join((v * p).to_bytes(width, 'little') for p in pat), tf)
            want = [v * p for p in pat]
            es[k].tileNum = want[k] = 5
            same([e.value for e in es], want, 'entries after changing entry %d' % k)
            same(bytes(saveTilemapTiles(es)), b''.join(w.to_bytes(width, 'little') for w in want), 'saved entries')
            ctx.step(4)
    ctx.state(case)


# Lists that are, start with or end in a run of equal bytes
def genRuns(tier):
    for n in list(range(1, 10)) + [255, 256, 257, 1023, 1024, 1025, 4097]:
        for v in (0, 255):
            for where in range(4):
                yield (n, v, where)


def checkRuns(case, ctx):
    n, v, where = case
    for size, load, save in ((32, lambda d: loadImageTiles(d, I4), saveImageTiles), (64, loadImageTiles, saveImageTiles),
                             (2, loadTilemapTiles, saveTilemapTiles), (1, lambda d: loadTilemapTiles(d, T8), saveTilemapTiles)):
        d = bytearray((i * 7 + 1) % 256 for i in range(size * n))
        a, b = [(0, n), (n // 2, n), (0, n - n // 2), (n // 3, n - n // 3)][where]
        d[a * size:b * size] = bytes([v]) * ((b - a) * size)
        got = load(bytes(d))
        same(len(got), n, 'length of the list')
        same(bytes(save(got)), bytes(d), 'saved list')
        ctx.step(2)
    ctx.state(('runs',) + case)


spaces = [
    Space('wrong', genWrong, checkWrong, 'all wrong tile sizes below 130, all format mixes of 3, one odd format at five places among up to 1025, defaults'),
    Space('entries', genEntries, checkEntries, 'all 65536 tilemap entries, by value and by fields'),
    Space('entries8', gen8, check8, 'all 256 8-bit tilemap entries x flips and palettes, which the format lacks'),
    Space('maplists', genMapLists, checkMapLists, 'tilemap lists of 0..39 and up to 65537 entries, both formats'),
    Space('pixels', genPixels, checkPixels, 'all byte values at every position of a tile x 3 backgrounds, both formats'),
    Space('set', genSet, checkSet, 'all values of every pixel'),
    Space('lists', genLists, checkLists, 'tile lists of 0..39 and up to 4097 tiles, both formats'),
    Space('alike', genAlike, checkAlike, 'all lists of up to 6 tiles or entries of two kinds x changes of each'),
    Space('runs', genRuns, checkRuns, 'lists of up to 4097 tiles or entries that are, start with, contain or end in zeros or ones'),
]
