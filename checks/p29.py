"""P29: rendering tiles and tilemaps places every pixel correctly."""
import itertools
from mc.core import Space, same, raises
from ndspy.graphics2D import (ImageTile, ImageFormat, TilemapTile, TilemapFormat, renderImageTiles, renderImageTilesAsImage,
                              renderTilemapTiles, renderTilemapTilesAsImage, tileAt, putTile)
from ndspy.color import ColorTuple

I4, I8 = ImageFormat.I4, ImageFormat.I8
T16, T8 = TilemapFormat.I10H1V1P4, TilemapFormat.I8
BLANK = (0, 0, 0, 0)


def ex(v):
    return v * 8 + v // 4


def palette(n, alpha):
    """A palette of n distinct colours."""
    return [(i % 32, i // 32 % 32, (i * 5 + 3) % 32, alpha if alpha < 2 else i % 2) for i in range(n)]


def tile(k, fmt):
    """Tile number k: all pixels of it differ from their mirror images."""
    size = 16 if fmt is I4 else 256
    return ImageTile.fromPixels([(k * 7 + i * 3 + i // 8 * 2) % size for i in range(64)], fmt)


def pix(t, colours, pal):
    size = 16 if t.format is I4 else 256
    out = []
    for v in t.pixels:
        out.append(BLANK if v == 0 else tuple(colours[pal * size + v][:3]) + (1,))
    return out


def flipped(p, h, v):
    return [p[(7 - y if v else y) * 8 + (7 - x if h else x)] for y in range(8) for x in range(8)]


def assemble(tiles, width):
    """Each pixel, one by one, from the rendered tiles."""
    height = -(-len(tiles) // width)
    out = []
    for y in range(height * 8):
        for x in range(width * 8):
            n = y // 8 * width + x // 8
            out.append(tiles[n][y % 8 * 8 + x % 8] if n < len(tiles) else BLANK)
    return out, height


def asList(pixels):
    return [tuple(p) for p in pixels]


def sameImage(img, pixels, w, h, what):
    same(img.size, (w, h), what + ': size')
    same(img.mode, 'RGBA', what + ': mode')
    want = b''.join(bytes((ex(r), ex(g), ex(b), 255 * a)) for r, g, b, a in pixels)
    same(img.tobytes(), want, what)


# One tile: every pixel value in every palette
def genTiles(tier):
    for fmt, pals in (('I4', list(range(18)) + [31, 32, 63, 255, 256]), ('I8', list(range(18)) + [31, 32])):
        for pal in pals:
            for alpha in (0, 1, 2):
                yield (fmt, pal, alpha)


def checkTiles(case, ctx):
    fmt, pal, alpha = ImageFormat[case[0]], case[1], case[2]
    size = 16 if fmt is I4 else 256
    for extra in (0, 1):
        colours = palette(size * (pal + 1 + extra), alpha)
        for cols in (colours, [ColorTuple(*c) for c in colours], tuple(colours)):
            for start in range(0, size, 64 if fmt is I8 else 16):
                for step in (1, 5):
                    t = ImageTile.fromPixels([(start + i * step) % size for i in range(64)], fmt)
                    want = pix(t, colours, pal)
                    before = list(t.pixels)
                    same(asList(t.render(cols, pal)), want, 'rendered tile')
                    sameImage(t.renderAsImage(cols, pal), want, 8, 8, 'tile image')
                    if pal == 0:
                        same(asList(t.render(cols)), want, 'rendered tile, default palette')
                        sameImage(t.renderAsImage(cols), want, 8, 8, 'tile image, default palette')
                    same(t.pixels, before, 'the tile itself')
                    ctx.step(2)
        same(asList(cols), colours, 'the palette itself')
    # The last palette need not be complete
    for n in range(2, size, 1 if fmt is I4 else 13):
        colours = palette(size * pal + n, alpha)
        t = ImageTile.fromPixels([i * 5 % n for i in range(64)], fmt)
        want = pix(t, colours, pal)
        same(asList(t.render(colours, pal)), want, 'rendered tile, incomplete palette')
        sameImage(t.renderAsImage(colours, pal), want, 8, 8, 'tile image, incomplete palette')
        ctx.step(2)
    ctx.state(case)


# A tile of every possible colour
def genColours(tier):
    return range(32)


def checkColours(r, ctx):
    for g in range(32):
        colours = [(1, 2, 3, 1)] + [(r, g, b, 1) for b in range(32)] + [(r, g, b, 0) for b in range(32)]
        t = ImageTile.fromPixels([i + 1 for i in range(64)], I8)
        want = [(r, g, i % 32, 1) for i in range(64)]
        same(asList(t.render(colours)), want, 'rendered tile')
        sameImage(t.renderAsImage(colours), want, 8, 8, 'tile image')
        ctx.step(2)
    ctx.state(('c', r))


# Tile lists
def genLists(tier):
    top = 14 if tier == 'quick' else 24
    for n in range(0, top):
        for w in range(1, top + 2):
            yield (n, w)
    for n in (31, 32, 33, 63, 64, 65, 100):
        for w in (31, 32, 33, None):
            yield (n, w)
    for n in (0, 1, 2, 3):
        for w in (100, 255, 256, 257, 1000, 1001, 1025, 2000, 4097):
            yield (n, w)


def checkLists(case, ctx):
    n, w = case
    for fmt, pal in ((I4, 0), (I4, 2), (I8, 0), (I8, 1)):
        size = 16 if fmt is I4 else 256
        colours = palette(size * (pal + 1), 2)
        tiles = [tile(k + 1, fmt) for k in range(n)]
        want, h = assemble([pix(t, colours, pal) for t in tiles], w or 32)
        kw = {} if w is None else {'width': w}
        same(asList(renderImageTiles(tiles, colours, pal, **kw)), want, 'rendered tiles')
        sameImage(renderImageTilesAsImage(tiles, colours, pal, **kw), want, 8 * (w or 32), 8 * h, 'image')
        if pal == 0:
            same(asList(renderImageTiles(tiles, colours, **kw)), want, 'rendered tiles, default palette')
            sameImage(renderImageTilesAsImage(tiles, colours, **kw), want, 8 * (w or 32), 8 * h, 'image, default palette')
        ctx.step(2)
    ctx.state(case)


# Tile lists of mixed formats
def genMixed(tier):
    for n in range(1, 6):
        for fmts in itertools.product(('I4', 'I8'), repeat=n):
            for w in (1, 2, 3):
                yield (fmts, w)


def checkMixed(case, ctx):
    fmts, w = case
    for pal in range(3):
        colours = palette(256 * 3, 2)
        for same_ in (False, True):
            tiles = [ImageTile.fromPixels([(1 if same_ else i + 1) * (k * 3 + 1) % 16 for k in range(64)], ImageFormat[f]) for i, f in enumerate(fmts)]
            want, h = assemble([pix(t, colours, pal) for t in tiles], w)
            same(asList(renderImageTiles(tiles, colours, pal, w)), want, 'rendered tiles')
            sameImage(renderImageTilesAsImage(tiles, colours, pal, w), want, 8 * w, 8 * h, 'image')
            ctx.step(2)
            entries = [TilemapTile.fromParameters(i, T16, bool(i & 1), bool(i & 2), pal) for i in range(len(tiles))]
            want, h = assemble([flipped(pix(t, colours, pal), i & 1, i & 2) for i, t in enumerate(tiles)], w)
            same(asList(renderTilemapTiles(entries, tiles, colours, w)), want, 'rendered tilemap')
            ctx.step()
    ctx.state(('mixed',) + case)


# One tilemap entry
def genEntries(tier):
    return itertools.product((False, True), (False, True), range(16), ('I10H1V1P4', 'I8'), ('I4', 'I8'))


def checkEntries(case, ctx):
    h, v, pal, tf, fmt = case
    tf, fmt = TilemapFormat[tf], ImageFormat[fmt]
    size = 16 if fmt is I4 else 256
    colours = palette(size * 16, 2)
    for num in range(4):
        t = tile(num, fmt)
        e = TilemapTile.fromParameters(num + 2, tf, h, v, pal)
        want = pix(t, colours, pal if tf is T16 else 0)
        if tf is T16:
            want = flipped(want, h, v)
        same(asList(e.renderSingle(t, colours)), want, 'single entry')
        sameImage(e.renderSingleAsImage(t, colours), want, 8, 8, 'image of a single entry')
        for off in range(0, num + 5):
            tiles = [tile(k + off - 2, fmt) for k in range(8)]
            if off > e.tileNum:
                raises(ValueError, lambda: e.render(tiles, colours, off), 'tile number below the offset')
                raises(ValueError, lambda: e.renderAsImage(tiles, colours, off), 'tile number below the offset')
                continue
            same(asList(e.render(tiles, colours, off)), want, 'entry, offset %d' % off)
            sameImage(e.renderAsImage(tiles, colours, off), want, 8, 8, 'image of an entry, offset %d' % off)
            if off == 0:
                same(asList(e.render(tiles, colours)), want, 'entry')
                sameImage(e.renderAsImage(tiles, colours), want, 8, 8, 'image of an entry')
            ctx.step(2)
    ctx.state(case)


# Whole tilemaps
def genMaps(tier):
    top = 10 if tier == 'quick' else 16
    for n in range(0, top):
        for w in range(1, top + 2):
            for off in (0, 3):
                yield (n, w, off)
    for n in (0, 1, 2, 3):
        for w in (255, 256, 257, 1001, 2000):
            yield (n, w, 0)


def checkMaps(case, ctx):
    n, w, off = case
    for tf, fmt in itertools.product((T16, T8), (I4, I8)):
        size = 16 if fmt is I4 else 256
        colours = palette(size * 4, 2)
        images = [tile(k, fmt) for k in range(5)]
        for rot in range(4):
            entries, want = [], []
            for i in range(n):
                num, h, v, pal = (i * 3 + rot) % 5, bool((i + rot) & 1), bool((i + rot) & 2), (i + rot) % 4
                entries.append(TilemapTile.fromParameters(num + off, tf, h, v, pal))
                p = pix(images[num], colours, pal if tf is T16 else 0)
                want.append(flipped(p, h, v) if tf is T16 else p)
            want, h = assemble(want, w)
            same(asList(renderTilemapTiles(entries, images, colours, w, off)), want, 'rendered tilemap')
            sameImage(renderTilemapTilesAsImage(entries, images, colours, w, off), want, w * 8, h * 8, 'tilemap image')
            if off == 0:
                same(asList(renderTilemapTiles(entries, images, colours, w)), want, 'rendered tilemap, default offset')
                sameImage(renderTilemapTilesAsImage(entries, images, colours, w), want, w * 8, h * 8, 'tilemap image')
            elif n < 6:
                for i in range(n):
                    for low in range(off):
                        was, entries[i].tileNum = entries[i].tileNum, low
                        raises(ValueError, lambda: renderTilemapTiles(entries, images, colours, w, off), 'tile number below the offset')
                        raises(ValueError, lambda: renderTilemapTilesAsImage(entries, images, colours, w, off), 'tile number below the offset')
                        entries[i].tileNum = was
            ctx.step(2)
    ctx.state(case)


# Many tiles, wide and high pictures, high tile numbers
def genLarge(tier):
    for n, w in ((129, 128), (300, 65), (300, 300), (257, 256), (257, 1), (600, 2), (513, 512), (1025, 32), (1100, 64), (2049, 1)):
        for off in (0, 100):
            yield (n, w, off)


def checkLarge(case, ctx):
    n, w, off = case
    for tf, fmt in ((T16, I4), (T16, I8), (T8, I8)):
        size = 16 if fmt is I4 else 256
        colours = palette(size * 16, 2)
        top = min(n, 1024 if tf is T16 else 256) - off
        images = [tile(k + k // 128, fmt) for k in range(max(n, top))]
        pixels = [pix(t, colours, 0) for t in images]
        entries, want = [], []
        for i in range(n):
            num, h, v, pal = (i * 7 + 5) % top, bool(i & 1), bool(i & 2), i // 3 % 16
            entries.append(TilemapTile.fromParameters(num + off, tf, h, v, pal))
            want.append(flipped(pix(images[num], colours, pal), h, v) if tf is T16 else pixels[num])
        want, h = assemble(want, w)
        same(asList(renderTilemapTiles(entries, images, colours, w, off)), want, 'rendered tilemap')
        sameImage(renderTilemapTilesAsImage(entries, images, colours, w, off), want, w * 8, h * 8, 'tilemap image')
        if off == 0:
            want, h = assemble(pixels, w)
            same(asList(renderImageTiles(images, colours, 0, w)), want, 'rendered tiles')
            sameImage(renderImageTilesAsImage(images, colours, 0, w), want, 8 * w, 8 * h, 'image')
        ctx.step(3)
    ctx.state(('large',) + case)


# Addressing tiles
def genAt(tier):
    top = 20 if tier == 'quick' else 40
    for n in range(0, top):
        for w in range(1, top + 2):
            yield (n, w)
    for n in (64, 1023, 1024, 1025, 1056, 2048):
        for w in (8, 32, None):
            yield (n, w)
    for n, w in ((600, 300), (300, 600), (1000, 257), (513, 256), (600, 2)):
        yield (n, w)


def checkAt(case, ctx):
    n, w = case
    kw = {} if w is None else {'width': w}
    W = w or 32
    H = -(-n // W)
    for y in range(-2, H + 3):
        for x in range(-2, W + 3):
            k = y * W + x
            there = 0 <= x < W and y >= 0 and k < n
            tiles = list(range(100, 100 + n))
            same(tileAt(tiles, x, y, **kw), 100 + k if there else None, 'tile at (%d, %d)' % (x, y))
            same(tiles, list(range(100, 100 + n)), 'the list after reading')
            same(putTile(tiles, x, y, 'new', **kw), there, 'result of putting a tile at (%d, %d)' % (x, y))
            want = list(range(100, 100 + n))
            if there:
                want[k] = 'new'
            same(tiles, want, 'the list after putting a tile at (%d, %d)' % (x, y))
            same(putTile(tiles, x, y, 'new', **kw), there, 'result of putting the same tile again at (%d, %d)' % (x, y))
            same(tileAt(tiles, x, y, **kw), 'new' if there else None, 'tile at (%d, %d) after putting one' % (x, y))
            for t in (None, 0):
                same(putTile(tiles, x, y, t, **kw), there, 'result of putting %r at (%d, %d)' % (t, x, y))
                if there:
                    want[k] = t
                same(tiles, want, 'the list after putting %r at (%d, %d)' % (t, x, y))
            ctx.step(3)
    ctx.state(('at',) + case)


# The addressed tile is the one drawn there
def genDrawn(tier):
    for n in range(1, 13):
        for w in range(1, 7):
            yield (n, w)


def checkDrawn(case, ctx):
    n, w = case
    colours = palette(256, 1)
    h = -(-n // w)
    for y in range(h):
        for x in range(w):
            tiles = [tile(k, I8) for k in range(n)]
            if not putTile(tiles, x, y, tile(77, I8), width=w):
                continue
            img = renderImageTilesAsImage(tiles, colours, 0, w).crop((x * 8, y * 8, x * 8 + 8, y * 8 + 8))
            sameImage(img, pix(tile(77, I8), colours, 0), 8, 8, 'what is drawn at (%d, %d)' % (x, y))
            ctx.step(2)
    ctx.state(('drawn',) + case)


spaces = [
    Space('at', genAt, checkAt, lambda t: 'all positions in lists of 0..%d tiles x all widths, and some long lists' % (19 if t == 'quick' else 39)),
    Space('lists', genLists, checkLists, lambda t: 'lists of 0..%d tiles x all widths x 4 formats/palettes' % (13 if t == 'quick' else 23)),
    Space('maps', genMaps, checkMaps, lambda t: 'tilemaps of 0..%d entries x all widths x 4 format pairs x offsets' % (9 if t == 'quick' else 15)),
    Space('entries', genEntries, checkEntries, 'all flips x 16 palettes x formats of a tilemap entry x tile number offsets'),
    Space('tiles', genTiles, checkTiles, 'all pixel values x palettes 0..17 and up to 256 x both formats'),
    Space('large', genLarge, checkLarge, 'up to 2049 tiles or tilemap entries, up to 512 tiles wide, tile numbers up to 1023'),
    Space('mixed', genMixed, checkMixed, 'all lists of up to 5 tiles of either format x palettes x widths'),
    Space('colours', genColours, checkColours, 'all 65536 colours'),
    Space('drawn', genDrawn, checkDrawn, 'lists of 1..12 tiles x widths 1..6 x all positions'),
]
