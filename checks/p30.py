"""P30: texture files keep all textures and palettes through save and load."""
import itertools, struct
from mc.core import Space, same, require, raises
from mc import ref_tex as R
from ndspy.texture import NSBTX, Texture, Palette, TextureFormat, TextureCoordinatesTransformationMode

UNKS = ('unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32')


def contents(f):
    return ([R.readObjTex(t) for t in f.textures], [R.readObjPal(p) for p in f.palettes], tuple(getattr(f, u) for u in UNKS))


def roundTrip(f, want, ctx):
    data = f.save()
    same(type(data), bytes, 'type of the saved file')
    same(R.readNsbtx(data), want, 'saved file read independently')
    g = NSBTX(data)
    same(contents(g), want, 'loaded back')
    same(g.save(), data, 'saved again')
    same(f.save(), data, 'saved twice')
    same(contents(NSBTX(bytearray(data))), want, 'loaded from a bytearray')
    ctx.step(6)


def make(texs, pals, unks=(0,) * 6):
    return NSBTX.fromTexturesAndPalettes(*unks, [R.makeTex(t) for t in texs], [R.makePal(p) for p in pals])


# Texture parameters: all parameter words whose data fits a file
def genParams(tier):
    for f in range(8):
        for sizes in range(64):
            n = sum(R.lengths(f << 10 | sizes << 4))
            if n < (0x2000 if tier == 'quick' else 0x80000):
                yield (f, sizes)


def checkParams(case, ctx):
    f, sizes = case
    for low in range(16):
        for c0, mode in itertools.product(range(2), range(4)):
            params = f << 10 | sizes << 4 | low | c0 << 13 | mode << 14
            t = R.tex('tex', params, low, (low, c0, mode))
            obj = Texture(*t[1:])
            w, h = R.size(params)
            same((obj.repeatS, obj.repeatT, obj.mirrorS, obj.mirrorT), tuple(bool(low & k) for k in (1, 2, 4, 8)), 'repeat and mirror')
            same((obj.width, obj.height, obj.size), (w, h, (w, h)), 'size')
            same((obj.format, obj.isColor0Transparent, obj.coordsTransformationMode), (TextureFormat(f), bool(c0), TextureCoordinatesTransformationMode(mode)), 'format and mode')
            same(tuple(obj.save()), t[1:], 'saved texture')
            o2 = Texture.fromFlags(t[1], t[2], obj.repeatS, obj.repeatT, obj.mirrorS, obj.mirrorT, w, h, obj.format,
                                   obj.isColor0Transparent, obj.coordsTransformationMode, t[4], t[5], t[6])
            same(R.readObjTex(('tex', o2)), t, 'texture from flags')
            same(tuple(o2.save()), t[1:], 'saved texture from flags')
            o3 = Texture(t[1], t[2], params ^ 0x3F0, t[4], t[5], t[6])
            o3.size = (w, h)
            same(tuple(o3.save()), t[1:], 'saved texture after setting its size')
            if low in (0, 6, 15) or sizes == 0:
                roundTrip(make([t], []), ([t], [], (0,) * 6), ctx)
            ctx.step(4)
    ctx.state(case)
    n1, n2 = R.lengths(f << 10 | sizes << 4)
    w, h = R.size(sizes << 4)
    same((TextureFormat(f).bitsPerPixel1() * w * h, TextureFormat(f).bitsPerPixel2() * w * h), (n1 * 8, n2 * 8), 'bits per pixel')


# Lists of textures: every sequence of formats
def genFormats(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        yield from itertools.product(range(8), repeat=n)


SIZES = [0, 1, 8, 9, 2]


def checkFormats(case, ctx):
    for rot in range(3):
        texs = [R.tex('tex%d' % i, f << 10 | SIZES[(i + rot) % 5] << 4, i * 5 + f, (i, 2 * i, f)) for i, f in enumerate(case)]
        for npal in (0, 1, 3):
            pals = [('pal%d' % i, i, i + 1, i + 2, R.fill(8 * (i + 1), i)) for i in range(npal)]
            roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(case)


# Lists of palettes
PALS = [0, 4, 8, 16]


def genPalettes(tier):
    for n in range(0, 5 if tier == 'quick' else 7):
        for sizes in itertools.product(range(4), repeat=n):
            for same_ in (0, 1):
                yield (sizes, same_)
    yield ((5,), 0)
    yield ((6, 1, 5), 0)


def checkPalettes(case, ctx):
    sizes, alike = case
    lens = PALS + [32, 256, 1024]
    if alike:       # same names, same unknown values, same colours
        pals = [('p', 1, 2, 3, R.fill(2 * lens[s], 9)) for s in sizes]
    else:
        pals = [('p%d' % i, i, 7 * i, 300 * i, R.fill(2 * lens[s], i)) for i, s in enumerate(sizes)]
    texs = [R.tex('t', 3 << 10, 1)]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    f = NSBTX()
    f.textures = [R.makeTex(t) for t in texs]
    for p in pals:
        obj = Palette(*p[1:])
        o2 = Palette.fromColors(p[1], p[2], p[3], [tuple(c) for c in obj.colors])
        same(tuple(o2.save()), p[1:], 'saved palette')
        f.palettes.append((p[0], o2))
    roundTrip(f, (texs, pals, (0,) * 6), ctx)
    ctx.state(case)


# Names and values
NAMES = ['', 'a', 'tex.0', ' x ', 'fifteen chars 15', '\xe9\xff\x80', 'a\0b', '0123456789ABCDEF'[:15]]


def genNames(tier):
    return itertools.product(NAMES, repeat=2)


def checkNames(case, ctx):
    texs = [R.tex(n, 2 << 10, i) for i, n in enumerate(case)]
    pals = [(n, i, 0, 0, R.fill(8, i)) for i, n in enumerate(reversed(case))]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(case)


def genLong(tier):
    return itertools.product(range(12, 20), (0, 1), range(3))


def checkLong(case, ctx):
    n, where, before = case
    name = 'x' * n
    texs = [R.tex('t%d' % i, 2 << 10, i) for i in range(before)] + [R.tex('t' if where else name, 2 << 10, 7), R.tex('z', 2 << 10)]
    pals = [(name if where else 'p', 0, 0, 0, R.fill(8, 1)), ('q', 0, 0, 0, R.fill(8, 2))]
    ctx.step()
    ctx.state(case)
    if n <= 16:
        roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    else:
        raises(ValueError, make(texs, pals).save, 'saving a name of %d characters' % n)


U16 = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x8000, 0xFFFF]
U32 = U16 + [0x10000, 0x80000000, 0xFFFFFFFF]


def genValues(tier):
    for k in range(12):
        for v in (U16 if k in (5, 6, 7, 9, 10, 11) else U32):
            yield (k, v)


def checkValues(case, ctx):
    k, v = case
    unks = [11, 12, 13, 14, 15, 16]
    t = [1, 2, 3]
    p = [4, 5, 6]
    (unks if k < 6 else t if k < 9 else p)[k % 6 if k < 6 else k % 3] = v
    if k == 8 and v > 0xFFFF:
        pass
    texs = [R.tex('a', 4 << 10, 0, (t[0], t[1], t[2]))]
    pals = [('b', p[0], p[1], p[2], R.fill(16, 0))]
    roundTrip(make(texs, pals, tuple(unks)), (texs, pals, tuple(unks)), ctx)
    ctx.state(case)


# Many entries
def genMany(tier):
    for n in (5, 16, 17, 100, 127, 128, 254, 255):
        yield (n, 0)
        yield (n, 1)


def checkMany(case, ctx):
    n, k = case
    texs = [R.tex('t%d' % i, (2 + i % 5) << 10, i, (i, n - i, i)) for i in range(n)] if k == 0 else [R.tex('t', 7 << 10)]
    pals = [('p%d' % i, i, i, i, R.fill(8 + 8 * (i % 3), i)) for i in range(n)] if k else []
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(case)


# Big areas: everything below 512 KiB per area is addressable
def genBig(tier):
    return range(12)


def checkBig(k, ctx):
    if k >= 6:
        return checkBigPalettes(k - 6, ctx)
    big = {0: [(4, 0x36), (4, 0x35), (2, 0)], 1: [(7, 0x2D), (7, 0x1C)], 2: [(5, 0x3E), (5, 0), (5, 1)], 3: [(5, 0x37), (4, 0x2D), (5, 0x1B), (3, 9)],
           4: [(2, 0), (4, 0x36), (6, 8)], 5: [(5, 0), (5, 0x3E), (1, 0), (1, 0x36)]}[k]
    texs = [R.tex('t%d' % i, f << 10 | s << 4, i) for i, (f, s) in enumerate(big)]
    pals = [('p', 0, 0, 0, R.fill(512, 0))]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(('big', k))


def checkBigPalettes(k, ctx):
    sizes = {0: [32764, 4, 4], 1: [32768, 4], 2: [16384] * 5 + [8], 3: [1024] * 255, 4: [4, 65536, 4], 5: [65536, 65536, 65536, 65528, 4]}[k]
    pals = [('p%d' % i, i, 0, 0, R.fill(2 * n, i)) for i, n in enumerate(sizes)]
    texs = [R.tex('t', 5 << 10, 1)]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(('bigpal', k))


# Data of one value only, and data that ends in zeros
def genPlain(tier):
    return itertools.product(range(8), (0, 9, 18), (0, 1, 255), (0, 1, 8, 16))


def checkPlain(case, ctx):
    f, sizes, v, keep = case
    texs = []
    for i in range(3):
        t = R.tex('t%d' % i, f << 10 | sizes << 4, i)
        texs.append(t[:5] + tuple((d[:keep] if i == 1 else b'').ljust(len(d), bytes([v])) for d in t[5:]))
    pals = [('p%d' % i, i, 0, 0, bytes([v]) * (8 * i + 8)) for i in range(3)]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(case)


# Loading files laid out differently
def genLayouts(tier):
    for order, share, gap, to, po in itertools.product(range(3), (False, True), (0, 8, 12), (1, -1), (1, -1)):
        for fs in itertools.product((2, 5, 7), repeat=2):
            for ps in ((), (1,), (1, 2), (2, 2), (1, 1, 3), (3, 2, 1)):
                yield (order, share, gap, to, po, fs, ps)


def checkLayouts(case, ctx):
    order, share, gap, to, po, fs, ps = case
    texs = [R.tex('t%d' % i, f << 10 | SIZES[i] << 4, f, (1, 2, i)) for i, f in enumerate(fs + (fs[0],))]
    texs[2] = ('again',) + texs[0][1:]
    pals = [('p%d' % i, i, 0, 9, R.fill(2 * PALS[s], s)) for i, s in enumerate(ps)]
    unks = (1, 2, 3, 4, 5, 6)
    data = R.nsbtx(R.encode(texs, pals, unks, order, share, gap, to, po))
    want = (texs, pals, unks)
    f = NSBTX(data)
    same(contents(f), want, 'loaded')
    roundTrip(f, want, ctx)
    ctx.step()
    ctx.state(case)


# Histories of edits on a loaded file
STEPS = ['addtex', 'addtexel', 'deltex', 'addpal', 'delpal', 'rename', 'swap', 'colour', 'reload']


def genEdits(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        yield from itertools.product(STEPS, repeat=n)


def checkEdits(case, ctx):
    texs = [R.tex('a', 3 << 10, 1), R.tex('b', 5 << 10, 2)]
    pals = [('c', 0, 0, 0, R.fill(8, 1)), ('d', 1, 0, 0, R.fill(16, 2))]
    unks = (1, 2, 3, 4, 5, 6)
    f = NSBTX(R.nsbtx(R.encode(texs, pals, unks)))
    for i, s in enumerate(case):
        if s in ('addtex', 'addtexel'):
            t = R.tex('n%d' % i, (4 if s == 'addtex' else 5) << 10 | 0x10, i + 5)
            texs.insert(i % 2, t)
            f.textures.insert(i % 2, R.makeTex(t))
        elif s == 'deltex' and texs:
            del texs[0], f.textures[0]
        elif s == 'addpal':
            p = ('n%d' % i, 1, 2, 3, R.fill(8 * (i + 1), i + 5))
            pals.insert(i % 2, p)
            f.palettes.insert(i % 2, R.makePal(p))
        elif s == 'delpal' and pals:
            del pals[0], f.palettes[0]
        elif s == 'rename' and texs and pals:
            texs[-1] = ('r%d' % i,) + texs[-1][1:]
            f.textures[-1] = ('r%d' % i, f.textures[-1][1])
            pals[-1] = ('s%d' % i,) + pals[-1][1:]
            f.palettes[-1] = ('s%d' % i, f.palettes[-1][1])
        elif s == 'swap':
            texs.reverse()
            f.textures.reverse()
            pals.reverse()
            f.palettes.reverse()
        elif s == 'colour' and pals:
            pals[0] = pals[0][:4] + (pals[0][4][:2] + b'\x34\x92' + pals[0][4][4:],)
            f.palettes[0][1].colors[1] = (0x14, 0x11, 4, 1)
        elif s == 'reload':
            f = NSBTX(f.save())
        same(contents(f), (texs, pals, unks), 'after %s' % s)
        ctx.step()
        ctx.state((len(texs), len(pals), s))
    roundTrip(f, (texs, pals, unks), ctx)


def genDefault(tier):
    return range(4)


def checkDefault(k, ctx):
    ctx.step()
    ctx.state(k)
    if k == 0:
        roundTrip(NSBTX(), ([], [], (0,) * 6), ctx)
    elif k == 1:
        for n in (1, 2, 3, 5, 6, 7):
            raises(ValueError, make([], [('p', 0, 0, 0, bytes(2 * n))]).save, 'saving a palette of %d colours' % n)
    elif k == 2:
        for d in (b'', b'BTX1' + bytes(100), b'BMD0' + bytes(100)):
            raises(ValueError, lambda: NSBTX(d), 'loading something else')
        bad = bytearray(NSBTX().save())
        bad[6] = 2
        raises(ValueError, lambda: NSBTX(bytes(bad)), 'an unsupported version')
    else:
        for w, h in ((7, 8), (8, 9), (0, 8), (8, 2048), (24, 8), (4, 8)):
            t = Texture(0, 0, 2 << 10, 0, bytes(16), b'')
            t.size = (w, h)
            raises(ValueError, t.save, 'a texture of %dx%d' % (w, h))
        t = Texture(0, 0, 5 << 10, 0, bytes(16), bytes(16))
        f = NSBTX()
        f.textures = [('a', t)]
        raises(ValueError, f.save, 'block-compressed data of wrong proportions')


# Big textures of one value only or ending in one
def genBigPlain(tier):
    return itertools.product(range(1, 8), (0x24, 0x2C, 0x34), (0, 255), (0, 1, 0x100, 0x4000))


def checkBigPlain(case, ctx):
    f, sizes, v, keep = case
    t = R.tex('t', f << 10 | sizes << 4, 1)
    if len(t[5]) >= 0x40000:
        return
    texs = [t[:5] + tuple(d[:keep].ljust(len(d), bytes([v])) for d in t[5:]), R.tex('u', f << 10, 2)]
    pals = [('p', 0, 0, 0, R.fill(8, 1).ljust(0x4000, bytes([v]))), ('q', 0, 0, 0, R.fill(8, 2))]
    roundTrip(make(texs, pals), (texs, pals, (0,) * 6), ctx)
    ctx.state(('bigplain',) + case)


# Textures at every 8-byte offset of their area
def genLeads(tier):
    for lead in list(range(8, 80, 8)) + [0x7F8, 0x800, 0x7FF8, 0xFFF8, 0x10000, 0x10008, 0x3FFF8, 0x40008, 0x7FE00]:
        for fs in itertools.product((2, 3, 5, 7), repeat=2):
            yield (lead, fs)


def checkLeads(case, ctx):
    lead, fs = case
    texs = [R.tex('t%d' % i, f << 10, f + i, (1, 2, i)) for i, f in enumerate(fs)]
    pals = [('p', 1, 0, 9, R.fill(8, 1))]
    unks = (1, 2, 3, 4, 5, 6)
    f = NSBTX(R.nsbtx(R.encode(texs, pals, unks, lead=lead)))
    same(contents(f), (texs, pals, unks), 'loaded')
    if lead < 100:
        roundTrip(f, (texs, pals, unks), ctx)
    ctx.step()
    ctx.state(('lead',) + case)


spaces = [
    Space('default', genDefault, checkDefault, 'default file and refused inputs'),
    Space('palettes', genPalettes, checkPalettes, lambda t: 'all lists of up to %d palettes of 0, 4, 8 or 16 colours, alike and different' % (4 if t == 'quick' else 6)),
    Space('formats', genFormats, checkFormats, lambda t: 'all sequences of up to %d textures of all 8 formats x sizes x 0, 1, 3 palettes' % (3 if t == 'quick' else 4)),
    Space('params', genParams, checkParams, 'all parameter words of textures below 8 KiB (512 KiB in the thorough tier)'),
    Space('names', genNames, checkNames, 'all pairs of 8 names'),
    Space('long', genLong, checkLong, 'names of 12..19 characters'),
    Space('values', genValues, checkValues, 'limit values of every unknown field'),
    Space('many', genMany, checkMany, 'up to 255 textures or palettes'),
    Space('big', genBig, checkBig, 'data areas close to 512 KiB'),
    Space('plain', genPlain, checkPlain, 'textures and palettes of one byte value or ending in one, all formats'),
    Space('bigplain', genBigPlain, checkBigPlain, 'textures of up to 256 KiB of one byte value or ending in one'),
    Space('leads', genLeads, checkLeads, 'first textures at 8-byte offsets up to 72 and up to 512 KiB in their area'),
    Space('layouts', genLayouts, checkLayouts, 'files with other area orders, gaps, shared data and unsorted data'),
    Space('edits', genEdits, checkEdits, lambda t: 'all histories of up to %d of 9 edits' % (3 if t == 'quick' else 4)),
]
