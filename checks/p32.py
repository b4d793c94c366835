"""P32: model files keep model data and textures through save and load."""
import contextlib, io, itertools, struct
from mc.core import Space, same, require, raises
from mc import ref_tex as R
from ndspy.model import NSBMD
from ndspy.texture import NSBTX

UNKS = ('unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32')
PARAMS = {0: 0, 0x10: 1, 0x11: 0, 0x12: 1, 0x13: 1, 0x14: 1, 0x15: 0, 0x16: 16, 0x17: 12, 0x18: 16, 0x19: 12, 0x1A: 9, 0x1B: 3, 0x1C: 3,
          0x20: 1, 0x21: 1, 0x22: 1, 0x23: 2, 0x24: 1, 0x25: 1, 0x26: 1, 0x27: 1, 0x28: 1, 0x29: 1, 0x2A: 1, 0x2B: 1,
          0x30: 1, 0x31: 1, 0x32: 1, 0x33: 1, 0x34: 32, 0x40: 1, 0x41: 0, 0x50: 1, 0x60: 1, 0x70: 3, 0x71: 2, 0x72: 1}


def displayList(ids, seed=0):
    out = bytearray()
    for i in range(0, len(ids), 4):
        four = (list(ids[i:i + 4]) + [0] * 4)[:4]
        out += bytes(four)
        for c in four:
            out += R.fill(4 * PARAMS.get(c, 0), seed + c)
    return bytes(out)


def table(names, entries, seed):
    n = len(names)
    each = 4
    out = struct.pack('<BBH', 0, n, 16 + 4 * n + each * n + 16 * n)
    out += struct.pack('<HHI', 8, 12 + 4 * n, 0x17F)
    for i in range(n):
        out += struct.pack('<HH', i + seed, n - i)
    out += struct.pack('<HH', each, 4 + each * n)
    out += b''.join(entries)
    out += b''.join(x.encode('latin-1').ljust(16, b'\0') for x in names)
    return out


def model(mats, texs, pals, lists, seed):
    """One model: header, bones, materials, polygons."""
    bones = R.fill(24, seed)
    matTable = lambda offs: table(['mat%d' % i for i in range(mats)], [struct.pack('<I', o) for o in offs], seed)
    texTable = table(['mt%d' % i for i in range(texs)], [struct.pack('<HBB', 3 * i, 1, 0) for i in range(texs)], seed)
    palTable = table(['mp%d' % i for i in range(pals)], [struct.pack('<HBB', 5 * i, 1, 0) for i in range(pals)], seed)
    base = 4 + len(matTable([0] * mats)) + len(texTable) + len(palTable)
    matOffs = [base + 0x2C * i for i in range(mats)]
    materials = struct.pack('<HH', 4, 8) + matTable(matOffs) + texTable + palTable + b''.join(R.fill(0x2C, seed + i) for i in range(mats))
    n = len(lists)
    head = 16 + 4 * n + 4 * n + 16 * n
    defs, data, pos = [], b'', 16 * n
    for i, d in enumerate(lists):
        defs.append(struct.pack('<4I', 0x100000, i, pos - 16 * i, len(d)))
        pos += len(d)
        data += d
    polys = table(['poly%d' % i for i in range(n)], [struct.pack('<I', head + 16 * i) for i in range(n)], seed) + b''.join(defs) + data
    o1 = 64
    o2 = o1 + len(bones)
    o3 = o2 + len(materials)
    o4 = o3 + len(polys)
    header = struct.pack('<5I16B4H6h8s', o4, o1, o2, o3, o4, *range(1, 17), 3, 4, 5, 6, -1, -2, 3, 4, 5, -32768, b'runtime!')
    return header + bones + materials + polys


def mdl0(models):
    """models: list of (name, data)."""
    n = len(models)
    off = 8 + 16 + 4 * n + 4 * n + 16 * n
    offs = []
    body = b''
    for _, d in models:
        offs.append(struct.pack('<I', off + len(body)))
        body += d
    t = table([m[0] for m in models], offs, 5)
    assert 8 + len(t) == off
    return struct.pack('<4sI', b'MDL0', 8 + len(t) + len(body)) + t + body


def bmd(blocks, gap=0):
    off = 0x10 + 4 * len(blocks) + gap
    offs = []
    body = bytes(gap)
    for b in blocks:
        offs.append(struct.pack('<I', 0x10 + 4 * len(blocks) + len(body)))
        body += b + bytes(gap)
    body = b''.join(offs) + body
    return struct.pack('<4sHHIHH', b'BMD0', 0xFEFF, 2, 0x10 + len(body), 0x10, len(blocks)) + body


def readBmd(d):
    magic, bom, version, size, head, n = struct.unpack_from('<4sHHIHH', d, 0)
    same((magic, bom, version, size, head), (b'BMD0', 0xFEFF, 2, len(d), 0x10), 'file header')
    out = {}
    for off in struct.unpack_from('<%dI' % n, d, 0x10):
        m, length = struct.unpack_from('<4sI', d, off)
        require(m not in out, 'block %r occurs twice', m)
        require(0x10 + 4 * n <= off and off + length <= len(d), 'block %r out of range', m)
        out[m] = bytes(d[off:off + length])
    return out


def texContents(f, prefix=''):
    us = tuple(getattr(f, (prefix + u[:1].upper() + u[1:]) if prefix else u) for u in UNKS)
    return ([R.readObjTex(t) for t in f.textures], [R.readObjPal(p) for p in f.palettes], us)


NOTHING = ([], [], (0,) * 6)


def verify(f, block, tex, ctx):
    """Everything about an NSBMD: model data block and (texs, pals, unks)."""
    same(texContents(f, 'tex'), tex, 'textures and palettes')
    data = f.save()
    same(type(data), bytes, 'type of the saved file')
    got = readBmd(data)
    same(got.get(b'MDL0'), block, 'model data')
    if tex != NOTHING or b'TEX0' in got:
        require(b'TEX0' in got, 'the textures are gone')
        same(R.decode(got[b'TEX0']), tex, 'textures in the file')
    same(set(got) <= {b'MDL0', b'TEX0'}, True, 'blocks')
    g = NSBMD(data)
    same(texContents(g, 'tex'), tex, 'textures and palettes after loading')
    same([n for n, _ in g.models], [n for n, _ in f.models], 'names of the models')
    same(g.save(), data, 'saved again')
    same(f.save(), data, 'saved twice')
    ctx.step(5)


def exampleTex(k):
    if k == 0:
        return NOTHING
    texs = [R.tex('t%d' % i, [3, 5, 7, 2][(k + i) % 4] << 10 | 0x10, k + i, (k, i, 3)) for i in range(k)]
    pals = [('p%d' % i, i, k, 2, R.fill(8 * (i + 1), k)) for i in range(k % 3)]
    return (texs, pals, (k, k + 1, 3, 4, 5, 6))


def exampleModel(k):
    lists = [displayList((0x40, 0x14, 0x22, 0x24, 0x41), k), displayList((), k)]
    return mdl0([('m%d_%d' % (k, i), model(1 + i, i, k % 2, lists[:i + 1], k + i)) for i in range(k)])


# Model data of every shape
def genShapes(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(0, 3):
        for mats, texs, pals, lists in itertools.product(range(top), repeat=4):
            for order in range(3):
                yield (n, mats, texs, pals, lists, order)


def checkShapes(case, ctx):
    n, mats, texs, pals, lists, order = case
    dl = [displayList((0x40, 0x20, 0x23), 1), displayList((), 1), displayList((0x34, 0x16, 0x72, 0x41, 0x15), 2)]
    models = [('model%d' % i, model((mats + i) % 4, texs, (pals + i) % 4, dl[:lists], i)) for i in range(n)]
    block = mdl0(models)
    tex = exampleTex(order)
    blocks = [block] + ([R.encode(*tex)] if order else [])
    if order == 2:
        blocks.reverse()
    for gap in (0, 4):
        for data in (bmd(blocks, gap), bytearray(bmd(blocks, gap))):
            f = NSBMD(data)
            same([x for x, _ in f.models], [x for x, _ in models], 'names of the models')
            verify(f, block, tex, ctx)
    ctx.state(case)


# Display lists: every command in every position
def genLists(tier):
    ids = sorted(PARAMS)
    for a in ids:
        yield (a,)
        for b in ids:
            yield (a, b)
    for a in ids:
        yield (0x40, a, a, 0x41)
        yield (a, 0, 0, 0, a)


def checkLists(case, ctx):
    for k in (0, 0x80):
        block = mdl0([('m', model(1, 1, 1, [displayList(case, k), displayList((0x41,), k)], k))])
        verify(NSBMD(bmd([block])), block, NOTHING, ctx)
    ctx.state(case)


# Display lists with commands the library does not know, which count as having no parameters
def genUnknown(tier):
    for a in range(256):
        if a not in PARAMS:
            yield (a,)
            yield (0x40, a, 0x41, a)


def checkUnknown(case, ctx):
    block = mdl0([('m', model(1, 1, 1, [displayList((0x41,), 1), displayList(case, 2)], 3))])
    with contextlib.redirect_stdout(io.StringIO()):      # there may be warnings
        verify(NSBMD(bmd([block])), block, NOTHING, ctx)
    ctx.state(case)


# Large model data, odd lengths, data after the last model
def genLarge(tier):
    for n in (1, 16, 17, 100, 255):
        yield ('models', n)
    for n in (16, 17, 100, 255):
        for what in ('materials', 'textures', 'palettes', 'lists'):
            yield (what, n)
    for n in (1000, 0x4000, 0x8000, 0x10000, 0x28000):
        yield ('commands', n)
        yield ('tail', n)
    for n in (0x100000, 0x1100000):
        yield ('tail', n)
        yield ('zeros', n)
    for n in range(1, 18):
        yield ('zeros', n)
        yield ('tail', n)
    for n in (0x8000, 0x10000):
        yield ('zeros', n)


def checkLarge(case, ctx):
    what, n = case
    dl = displayList((0x40, 0x24, 0x41), 1)
    if what == 'models':
        models = [('m%d' % i, model(1, 1, 1, [dl], i)) for i in range(n)]
    elif what in ('materials', 'textures', 'palettes', 'lists'):
        k = ('materials', 'textures', 'palettes', 'lists').index(what)
        counts = [1, 1, 1, 1]
        counts[k] = n
        models = [('m', model(*counts[:3], [displayList((0x40, 0x24, 0x41), i % 9) for i in range(counts[3])], 1)), ('z', model(1, 1, 1, [dl], 2))]
    elif what == 'commands':
        models = [('m', model(1, 1, 1, [displayList((0x24, 0x22, 0x21, 0x20) * (n // 20), 1), dl], 1)), ('z', model(1, 1, 1, [dl], 2))]
    else:
        models = [('m', model(1, 1, 1, [dl], 1))]
    block = bytearray(mdl0(models))
    if what == 'tail':
        block += (R.fill(min(n, 0x10000), 5) * (n // 0x10000 + 1))[:n]
    elif what == 'zeros':
        block += bytes(n)
    struct.pack_into('<I', block, 4, len(block))
    block = bytes(block)
    for tex in (NOTHING, exampleTex(2)):
        blocks = [block] + ([R.encode(*tex)] if tex != NOTHING else [])
        for order in (blocks, blocks[::-1]):
            f = NSBMD(bmd(order))
            same([x for x, _ in f.models], [x for x, _ in models], 'names of the models')
            verify(f, block, tex, ctx)
            same(texContents(f.exportNSBTX()), tex, 'exported textures')
            f.importNSBTX(NSBTX(R.nsbtx(R.encode(*exampleTex(3)))))
            verify(f, block, exampleTex(3), ctx)
    ctx.state(case)


# Many and large textures
def genManyTex(tier):
    for n in (16, 17, 100, 255):
        yield ('textures', n)
        yield ('palettes', n)
    for f in range(1, 8):
        yield ('large', f)
        yield ('plain', f)
        yield ('alike', f)
        yield ('alikeNames', f)


def checkManyTex(case, ctx):
    what, n = case
    if what == 'textures':
        tex = ([R.tex('t%d' % i, (2 + i % 5) << 10, i, (i, n - i, i)) for i in range(n)], [('p', 0, 0, 0, R.fill(8, 1))], (1, 2, 3, 4, 5, 6))
    elif what == 'palettes':
        tex = ([], [('p%d' % i, i, i, i, R.fill(8 + 8 * (i % 3), i)) for i in range(n)], (1, 2, 3, 4, 5, 6))
    elif what == 'plain':
        texs = [R.tex('t%d' % i, n << 10 | 3 << 4 | 3 << 7, i) for i in range(3)]
        texs = [t[:5] + tuple((d[:99] if i else b'').ljust(len(d), bytes([255 * (i // 2)])) for d in t[5:]) for i, t in enumerate(texs)]
        tex = (texs, [('p', 0, 0, 0, bytes(16)), ('q', 0, 0, 0, b'\xff' * 8), ('r', 0, 0, 0, R.fill(8, 1) + bytes(8))], (0,) * 6)
    elif what in ('alike', 'alikeNames'):
        texs = [R.tex('t', n << 10, i * (what != 'alike')) for i in range(4)]
        tex = (texs, [('p', 0, 0, 0, R.fill(8 * (1 + i % 2), i * (what != 'alike'))) for i in range(4)], (0,) * 6)
    else:
        tex = ([R.tex('t%d' % i, n << 10 | 4 << 4 | 4 << 7, i) for i in range(3)], [('p', 0, 0, 0, R.fill(0x10000, 1)), ('q', 0, 0, 0, R.fill(8, 1))], (0,) * 6)
    block = exampleModel(1)
    for data in (bmd([block, R.encode(*tex)]), bmd([R.encode(*tex), block], 4)):
        f = NSBMD(data)
        verify(f, block, tex, ctx)
        same(R.readNsbtx(f.exportNSBTX().save()), tex, 'exported textures in a file')
        g = NSBMD(bmd([exampleModel(2)]))
        g.importNSBTX(f.exportNSBTX())
        verify(g, exampleModel(2), tex, ctx)
    ctx.state(case)


# Model bytes nothing looks at, in every value
def genBytes(tier):
    return range(64, 88)


def checkBytes(pos, ctx):
    base = exampleModel(1)
    start = 8 + 16 + 4 + 4 + 16
    for v in range(256):
        block = bytearray(base)
        block[start + pos] = v
        data = NSBMD(bmd([bytes(block), R.encode(*exampleTex(1))])).save()
        same(readBmd(data)[b'MDL0'], bytes(block), 'model data')
        ctx.step()
    ctx.state(pos)


NAMES = ['', 'm', '\xe9\xff', '0123456789abcdef', 'a b.c', 'a\0b', ' x ', '\0q', '\x80\x9f']


def genNames(tier):
    return itertools.product(NAMES, repeat=2)


def checkNames(case, ctx):
    block = mdl0([(n, model(1, 1, 1, [], i)) for i, n in enumerate(case)])
    f = NSBMD(bmd([block]))
    same([n for n, _ in f.models], list(case), 'names of the models')
    verify(f, block, NOTHING, ctx)
    ctx.state(case)


# Histories of export, import, edit, save over two model files and one texture file
STEPS = [('export', 0), ('export', 1), ('import', 0), ('import', 1), ('reload', 0), ('reload', 1), ('retex', 0), ('clear', 1), ('edit', 0), ('edit', 1)]


def genTransfers(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(STEPS)), repeat=n):
            for start in range(3):
                yield (start, h)


def checkTransfers(case, ctx):
    start, h = case
    blocks = [exampleModel(1), exampleModel(2)]
    tex = [exampleTex(start), exampleTex((start + 2) % 4)]
    held = exampleTex(3)
    files = [NSBMD(bmd([b] + ([R.encode(*t)] if t != NOTHING else []))) for b, t in zip(blocks, tex)]
    btx = NSBTX(R.nsbtx(R.encode(*held)))
    for n in h:
        what, k = STEPS[n]
        if what == 'export':
            btx = files[k].exportNSBTX()
            held = tex[k]
            require(isinstance(btx, NSBTX), 'exported %r', btx)
            btx = NSBTX(btx.save())     # taken apart, so that later edits do not mix
        elif what == 'import':
            files[k].importNSBTX(NSBTX(btx.save()))
            tex[k] = held
        elif what == 'reload':
            files[k] = NSBMD(files[k].save())
        elif what == 'retex':
            btx = NSBTX(btx.save())
        elif what == 'clear':
            files[k].textures, files[k].palettes = [], []
            tex[k] = ([], [], tex[k][2])
        else:
            t = R.tex('new', 6 << 10, n)
            files[k].textures.append(R.makeTex(t))
            files[k].texUnk2C = 99
            u = tex[k][2]
            tex[k] = (tex[k][0] + [t], tex[k][1], u[:4] + (99,) + u[5:])
        same(texContents(btx), held, 'the texture file after %s' % what)
        for i in (0, 1):
            same(texContents(files[i], 'tex'), tex[i], 'file %d after %s' % (i, what))
        ctx.step()
        ctx.state((what, k, len(tex[0][0]), len(tex[1][0]), len(held[0])))
    for i in (0, 1):
        got = readBmd(files[i].save())
        same(got[b'MDL0'], blocks[i], 'model data of file %d' % i)
        if tex[i] != NOTHING:
            same(R.decode(got[b'TEX0']), tex[i], 'textures in file %d' % i)
    same(R.readNsbtx(btx.save()), held, 'texture file')


# Textures as they come in the file
def genTextures(tier):
    for fs in itertools.chain.from_iterable(itertools.product(range(8), repeat=n) for n in (0, 1, 2)):
        for ps in ((), (0,), (1, 1), (0, 2, 1)):
            for order in range(3):
                yield (fs, ps, order)


def checkTextures(case, ctx):
    fs, ps, order = case
    texs = [R.tex('t%d' % i, f << 10 | 0x2005, f, (1, 2, i)) for i, f in enumerate(fs)]
    pals = [('p%d' % i, i, 0, 9, R.fill(8 * (s + 1), s)) for i, s in enumerate(ps)]
    tex = (texs, pals, (1, 2, 3, 4, 5, 0xFFFF))
    block = exampleModel(1)
    f = NSBMD(bmd([block, R.encode(*tex, order, order == 2)]))
    verify(f, block, tex, ctx)
    same(texContents(f.exportNSBTX()), tex, 'exported textures')
    same(R.readNsbtx(f.exportNSBTX().save()), tex, 'exported textures in a file')
    g = NSBMD(bmd([exampleModel(2)]))
    g.importNSBTX(f.exportNSBTX())
    verify(g, exampleModel(2), tex, ctx)
    verify(f, block, tex, ctx)
    ctx.state(case)


def genRefused(tier):
    return range(3)


def checkRefused(k, ctx):
    good = bytearray(bmd([exampleModel(1)]))
    if k == 0:
        good[0:4] = b'BTX0'
    elif k == 1:
        good[6] = 1
    else:
        good[0x14:0x18] = b'XXX0'
    raises(ValueError, lambda: NSBMD(bytes(good)), 'loading something else')
    ctx.step()
    ctx.state(k)


spaces = [
    Space('refused', genRefused, checkRefused, 'wrong magic, version, block'),
    Space('shapes', genShapes, checkShapes, lambda t: '0..2 models x up to %d materials, textures, palettes, polygons x block orders' % (2 if t == 'quick' else 3)),
    Space('lists', genLists, checkLists, 'all pairs of the 38 geometry commands'),
    Space('bytes', genBytes, checkBytes, 'all values of bytes of the model data'),
    Space('names', genNames, checkNames, 'all pairs of 9 names'),
    Space('unknown', genUnknown, checkUnknown, 'all unknown geometry commands'),
    Space('large', genLarge, checkLarge, 'up to 255 models, materials, textures, palettes, polygons; model data of up to 17 MiB, of any length, with trailing data'),
    Space('manytex', genManyTex, checkManyTex, 'up to 255 textures or palettes, large ones, ones of one value and ones with equal names and data'),
    Space('textures', genTextures, checkTextures, 'up to 2 textures of all formats x palettes x layouts, exported and imported'),
    Space('transfers', genTransfers, checkTransfers, lambda t: 'all histories of up to %d of 10 steps over two models and a texture file' % (3 if t == 'quick' else 4)),
]
