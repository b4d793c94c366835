"""P09: ROM contents and header fields survive saving and loading."""
import itertools
import struct
from mc.core import Space, same, require
from mc import ref_fs as fs
import ndspy.rom
from checks import p07


def blob(tag, n):
    return bytes((tag * 31 + i * 7 + 1) & 0xFF for i in range(n))


def ovt(*fileIds):
    return b''.join(struct.pack('<8I', i, 0x2100000 + i, 8, 4, 1, 2, f, 0x01000010) for i, f in enumerate(fileIds))


POST = b'\x21\x06\xc0\xde' + b'\x10\x20\x00\x00\x00\x00\x00\x00'


def banner(v):
    return struct.pack('<H', v) + blob(9, fs.BANNER_LEN[v] - 2) if v else b''


PARTS = {
    'arm9': lambda n: {'arm9': blob(1, n)},
    'post': lambda n: {'arm9PostData': POST * n},
    'ov9': lambda ids: {'arm9OverlayTable': ovt(*ids)},
    'arm7': lambda n: {'arm7': blob(2, n)},
    'ov7': lambda ids: {'arm7OverlayTable': ovt(*ids)},
    'files': lambda sizes: {'files': tuple(blob(20 + i, n) for i, n in enumerate(sizes))},
    'names': lambda t: {'filenames': t},
    'banner': lambda v: {'iconBanner': banner(v)},
    'debug': lambda n: {'debugRom': blob(3, n)},
    'rsa': lambda n: {'rsaSignature': blob(4, n)},
    'order': lambda o: {'order': o},
}


def model(**kw):
    d = {}
    for k, v in kw.items():
        d.update(PARTS[k](v))
    return fs.romModel(**d)


TREE = (('a', 'b'), (('d', (('c',), (), 2)),), 0)


def genParts(tier):
    q = tier == 'quick'
    for arm9 in (0, 5, 0x200) + (() if q else (0x1FF, 0x201, 0x4000)):
        for post in (0, 1, 3):
            for ov9, ov7 in (((), ()), ((1,), ()), ((), (0,)), ((2, 0), (1,)), ((0, 1, 2), ())):
                for arm7 in (0, 3, 0x200):
                    for sizes in ((7, 0, 0x201),) if (ov9 or ov7) else ((), (1,), (0, 3, 0x200)):
                        for names in (fs.EMPTY_TREE, TREE):
                            for v in (0, 1, 2, 3, 0x103):
                                for debug in (0, 1, 0x201):
                                    for rsa in (0, 0x88):
                                        yield dict(arm9=arm9, post=post, ov9=ov9, ov7=ov7, arm7=arm7, files=sizes,
                                                   names=names, banner=v, debug=debug, rsa=rsa)


def loadBack(m, ctx, what='loaded ROM'):
    rom = fs.romToNdspy(m)
    img = rom.save()
    fs.romCompare(rom, m, 'ROM object after saving')
    fs.romCompare(ndspy.rom.NintendoDSRom(img), m, what)
    ctx.step(2)
    return img


def checkParts(case, ctx):
    m = model(**case)
    ctx.state(repr(case))
    loadBack(m, ctx)
    ctx.outcome('%d parts' % sum(bool(m[k]) for k in fs.PARTS))


def genFields(tier):
    for k, (off, kind) in fs.HEADER.items():
        if isinstance(kind, int):
            for n in range(kind):
                for v in (1, 0x80, 0xFF):
                    yield (k, bytes(v if i == n else (0x20 if k == 'name' else 0) for i in range(kind)))
            yield (k, bytes(range(1, kind + 1)))
            if k not in ('name',):
                yield (k, bytes(kind))
            yield (k, b'\xff' * kind)
        else:
            size = struct.calcsize(kind)
            for bit in range(8 * size):
                yield (k, 1 << bit)
            yield (k, 0)
            yield (k, 256 ** size - 1)
            yield (k, 0x04030201 & (256 ** size - 1))
    for n in range(0, 16):
        yield ('name', b'ABCDEFGHIJKLMNOP'[:n])
    for name in (b'A\0B', b'\0A', b'A\0\0B', b' A', b'A ', b'\xff\0\xff', b'A\nB', b'ABCDEFGHIJK\0L'):
        yield ('name', name)


def checkField(case, ctx):
    key, value = case
    for base in ({}, dict(arm9=b'code', debugRom=b'd', files=(b'f',))):
        m = fs.romModel(**base)
        m[key] = value
        rom = fs.romToNdspy(m)
        img = rom.save()
        off, kind = fs.HEADER[key]
        want = value[:kind].ljust(kind, b'\0') if isinstance(kind, int) else value.to_bytes(struct.calcsize(kind), 'little')
        same(img[off:off + len(want)], want, 'bytes of %s in the header' % key)
        fs.romCompare(ndspy.rom.NintendoDSRom(img), m, 'loaded ROM')
        ref = fs.romEncode(m)
        fs.romCompare(ndspy.rom.NintendoDSRom(ref), m, 'ROM loaded from an independently written image')
        ctx.state((key, value)); ctx.step(3)
    ctx.outcome(key)


def genFiles(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for sizes in itertools.product((0, 1, 0x1FF, 0x200, 0x201), repeat=n):
            for order in itertools.permutations(range(n)):
                yield (sizes, order)


def checkFiles(case, ctx):
    sizes, order = case
    m = model(files=sizes, order=order, arm9=3, arm7=3)
    ctx.state(repr(case))
    loadBack(m, ctx)
    fs.romCompare(ndspy.rom.NintendoDSRom(fs.romEncode(m)), m, 'ROM loaded from an independently written image')
    ctx.outcome('%d files' % len(sizes))


# Storage orders that do not fit the list of files, as left behind by removing or adding files
def genOrders(tier):
    for n in range(0, 4):
        for k in range(0, 4 if tier == 'quick' else 5):
            for order in itertools.product(range(n + 2), repeat=k):
                for ov in ((), (0,), (n - 1,)) if n else ((),):
                    yield (n, order, ov)


def checkOrders(case, ctx):
    n, order, ov = case
    ctx.state(case)
    loadBack(model(files=(7, 0, 0x201)[:n], order=order, arm9=3, arm7=3, ov9=ov), ctx)
    ctx.outcome('%d files, %d in order' % (n, len(order)))


# Signatures that are partly zero, at every place relative to the end of the image
def genSig(tier):
    for end in range(0, 0x420, 0x20):
        for used in (1, 2, 8, 0x1F, 0x20, 0x21, 0x40, 0x60, 0x80, 0x87, 0x88):
            for side in ('first', 'last'):
                yield (end, used, side)


def checkSig(case, ctx):
    end, used, side = case
    ctx.state(case)
    sig = b'\x01' * used
    sig = sig.ljust(0x88, b'\0') if side == 'first' else sig.rjust(0x88, b'\0')
    loadBack(fs.romModel(arm9=b'abc', files=(blob(3, end),), rsaSignature=sig), ctx)
    ctx.outcome(side)


def genTrees(tier):
    for n in range(1, 5):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2), repeat=n):
                yield (shape, counts, 'clash', 'rev')


def checkTree(case, ctx):
    t = fs.buildTree(*case)
    m = model(files=(2,) * sum(case[1]), names=t, arm9=4)
    ctx.state(repr(case))
    loadBack(m, ctx)
    ctx.outcome('%d files' % sum(case[1]))


def genPad(tier):
    for n in (0, 1, 0x100, 0xE00, 0xE04, 0x1000, 0x3DFF, 0x3E00, 0x3E01, 0x7E00, 0x8000):
        for fill in ('zero', 'ramp', 'ff'):
            for rsa in (0, 0x88):
                yield (n, fill, rsa)


def checkPad(case, ctx):
    n, fill, rsa = case
    pad = {'zero': bytes(n), 'ramp': blob(5, n), 'ff': b'\xff' * n}[fill]
    m = model(arm9=5, post=1, arm7=3, files=(1, 0x200), banner=1, rsa=rsa)
    rom = fs.romToNdspy(m)
    rom.pad200 = pad
    img = rom.save()
    back = ndspy.rom.NintendoDSRom(img)
    fs.romCompare(back, m, 'loaded ROM')
    want = bytearray(pad + b'\0' * (-(0x200 + n) % 0x4000)).ljust(0x3E00, b'\0')
    got = bytearray(back.pad200)
    got[0xE00:0xE04] = want[0xE00:0xE04]       # holds the signature offset
    require(got == want, 'padding after the header changed')
    same(back.save(), img, 'saving the loaded ROM')
    ctx.state(case); ctx.step(3)
    ctx.outcome('pad')


def genContents(tier):
    for part in ('arm9', 'arm7', 'debugRom', 'iconBanner', 'file', 'files', 'overlay', 'rsaSignature'):
        for fill in p07.FILLS:
            for n in ((0x88,) if part == 'rsaSignature' else (0x840 - 2,) if part == 'iconBanner' else (1, 2, 4, 0x1FF, 0x200, 0x201, 0x400, 0x4000)):
                if part == 'rsaSignature' and fill == 'zero':
                    continue        # cannot be told from padding
                for other in ('none', 'some'):
                    yield (part, fill, n, other)


def contentModel(case):
    part, fill, n, other = case
    data = p07.FILLS[fill](n)
    base = dict(arm9=b'code', arm7=b'seven', files=(b'1', b'22'), debugRom=b'dbg', rsaSignature=blob(4, 0x88)) if other == 'some' else {}
    if part == 'iconBanner':
        base[part] = struct.pack('<H', 1) + data
    elif part == 'file':
        base['files'] = base.get('files', ()) + (data,)
    elif part == 'files':
        base['files'] = (data, b'', data)
    elif part == 'overlay':
        base.update(files=(data, b'xyz', data), arm9OverlayTable=ovt(0), arm7OverlayTable=ovt(2))
    else:
        base[part] = data
    return fs.romModel(**base)


def checkContents(case, ctx):
    """Zeros and 0xFF bytes are contents like any other."""
    m = contentModel(case)
    ctx.state(case)
    loadBack(m, ctx)
    fs.romCompare(ndspy.rom.NintendoDSRom(fs.romEncode(m)), m, 'ROM loaded from an independently written image')
    ctx.outcome(case[0])


# Many files and overlays, big regions
def genLarge(tier):
    top = () if tier == 'quick' else (4096, 20000)
    for n in (4095, 4096, 4097, 20000, 61440):
        for order in ('id', 'rev', 'odd'):
            yield ('very many', n, 'both', order)
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000) + top:
        for ov in ('none', 'nine', 'both', 'all'):
            for order in ('id', 'rev', 'odd'):
                yield ('many', n, ov, order)
    for n in (0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0x30001, 0x100001, 0x200000) + (() if tier == 'quick' else (0xFFFFFF, 0x1000000)):
        for where in ('arm9', 'arm7', 'file', 'debug', 'arm9+file'):
            yield ('big', n, where, 'id')
    for n in (64, 200, 500):
        yield ('names', n, 'flat', 'id')
        yield ('names', min(n, 150), 'deep', 'rev')


def largeModel(case):
    kind, n, x, order = case
    if kind in ('many', 'very many'):
        sizes = tuple(int(i % 500 == 77) for i in range(n)) if kind == 'very many' else tuple((3 * i) % 41 if i % 13 else (0, 0x200, 0x3FF)[i // 13 % 3] for i in range(n))
        ids = list(range(n))
        if order == 'rev':
            ids.reverse()
        elif order == 'odd':
            ids = ids[1::2] + ids[::2]
        k = min(n, 200)
        ov9, ov7 = {'none': ((), ()), 'nine': (tuple(range(k // 2)), ()), 'both': (tuple(range(0, k, 3)), tuple(range(1, k, 3))),
                    'all': (tuple(range(k))[::-1], tuple(range(k, min(n, 300))))}[x]
        return model(arm9=5, arm7=6, files=sizes, ov9=ov9, ov7=ov7, order=tuple(ids), banner=1)
    if kind == 'big':
        if x == 'arm9+file':
            return model(arm9=n, post=1, arm7=3, files=(n, 5, n))
        return model(**dict(dict(arm9=9, post=1, arm7=3, files=(2, n, 3) if x == 'file' else (2, 3), banner=3), **({} if x == 'file' else {x: n})))
    if x == 'flat':
        t = (tuple('file%04d' % i for i in range(n)), (), 0)
    else:
        t = ((), (), n)
        for i in reversed(range(n)):
            t = (('f%d' % i,), (('d%d' % i, t),), i)
            if i % 60 == 0:
                t = (('g%d' % i,), (('x', t), ('y', ((), (), i))), i)
    return model(files=(1,) * n, names=t, arm9=4)


def checkLarge(case, ctx):
    m = largeModel(case)
    ctx.state(case)
    loadBack(m, ctx)
    ctx.outcome(case[0])


spaces = [
    Space('parts', genParts, checkParts, 'every combination of ARM9 size, post-data records, overlay assignments, ARM7 size, file lists, names, banner version, debug ROM and signature from small value sets'),
    Space('fields', genFields, checkField, 'every bit of every numeric header field, every byte position of every byte field, names of 0..15 bytes'),
    Space('files', genFiles, checkFiles, lambda t: 'every list of up to %d files with sizes around the 0x200 alignment, in every storage order' % (3 if t == 'quick' else 4)),
    Space('contents', genContents, checkContents, 'each part alone and among others, holding only zeros, only 0xFF, or either at the start or end'),
    Space('orders', genOrders, checkOrders, lambda t: 'up to 3 files with every storage order list of up to %d IDs, repeated, missing and nonexistent ones included' % (3 if t == 'quick' else 4)),
    Space('signature', genSig, checkSig, 'signatures with 1..0x88 nonzero bytes at either end, at each of 33 distances from the end of the image'),
    Space('padding', genPad, checkPad, 'header padding of 11 lengths and 3 contents'),
    Space('large', genLarge, checkLarge, 'up to 1000 files (61440 mostly empty ones) and 200 overlays in 3 storage orders, regions around 2^15, 2^16, 2^17, 2^20 and 2^21 bytes, up to 500 names and 150 levels'),
    Space('trees', genTrees, checkTree, 'every filename tree of up to 4 folders with 0..2 files each'),
]
