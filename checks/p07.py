"""P07: NARC archives preserve all files and names."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_fs as fs
import ndspy.narc

NAMES = {
    'none': ((), (), 0),
    'flat': (('a', 'bb', 'ccc'), (), 0),
    'nest': (('a',), (('d', (('b', 'x' * 9), (), 1)), ('e', ((), (), 3))), 0),
    'ids': (('a',), (('d', (('b',), (), 40)),), 2),
}


FILLS = {
    'zero': lambda n: bytes(n),
    'ff': lambda n: b'\xff' * n,
    'head': lambda n: (bytes(n // 2) + b'\x41' * n)[:n],
    'tail': lambda n: (b'\x41' * (n - n // 2) + bytes(n))[:n],
    'fftail': lambda n: (b'\x41' * (n - n // 2) + b'\xff' * n)[:n],
}


def content(i, n):
    return bytes((17 * i + 3 * k + 1) & 0xFF for k in range(n))


def roundTrip(files, names, endian, ctx, kind=bytes):
    ctx.state((files, names, endian))
    n = ndspy.narc.NARC.fromFilesAndNames([kind(f) for f in files], fs.toNdspy(names))
    n.endiannessOfBeginning = endian
    blob = n.save()
    same(fs.narcDecode(blob), (endian, files, names), 'independent reader on the saved archive')
    back = ndspy.narc.NARC(blob)
    compare(back, files, names, endian, 'NARC(save())')
    same(back.save(), blob, 'saving the loaded archive')
    ctx.step(4)
    return blob


def compare(n, files, names, endian, what):
    same([bytes(f) for f in n.files], list(files), what + ': files')
    same(fs.fromNdspy(n.filenames), names, what + ': filenames')
    same(n.endiannessOfBeginning, endian, what + ': endiannessOfBeginning')


def genFiles(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(0, top + 1):
        for sizes in itertools.product(range(0, 6), repeat=n):
            yield sizes
    for big in (255, 256, 257, 1023, 4096, 65535, 65537):
        for sizes in ((big,), (1, big), (big, 2), (0, big, 0)):
            yield sizes
    for many in (17, 128, 255, 256, 257, 300, 1000):
        yield tuple(i % 7 for i in range(many))
        yield (0,) * many
    for many in (1023, 1024, 1025, 4096, 5000, 32768, 61440):
        yield tuple(int(i % 100 == 99) for i in range(many))


def checkFiles(sizes, ctx):
    files = tuple(content(i, n) for i, n in enumerate(sizes))
    if len(sizes) <= 3 and max(sizes, default=0) > 5:
        # equal files are stored separately
        big = max(files, key=len)
        for same_ in ((big, big), (big, b'x', big), (b'', big, bytes(bytearray(big)), b'')):
            roundTrip(same_, NAMES['nest'], '<', ctx)
    for name in NAMES:
        for endian in '<>':
            roundTrip(files, NAMES[name], endian, ctx, bytes if endian == '<' else bytearray)
    ctx.outcome('%d files' % len(files))


def genContents(tier):
    for a in FILLS:
        for b in FILLS:
            for n in (1, 2, 3, 4, 5, 8, 64, 255):
                for m in (0, 1, 4, 7, 16):
                    yield (a, n, b, m)


def checkContents(case, ctx):
    """Zeros and 0xFF bytes are contents like any other."""
    a, n, b, m = case
    for files in ((FILLS[a](n),), (FILLS[a](n), FILLS[b](m)), (FILLS[b](m), FILLS[a](n), FILLS[b](m))):
        for endian in '<>':
            roundTrip(files, NAMES['nest'], endian, ctx)
    ctx.outcome(a)


def genLongNames(tier):
    for n in (100, 255, 256, 500, 516, 517, 600, 1100):
        for shape in ('flat', 'folders'):
            yield (n, shape)


def checkLongNames(case, ctx):
    """Name tables of up to 140 KB."""
    n, shape = case
    long = tuple(('n%d' % i).ljust(127, 'x') for i in range(n))
    if shape == 'flat':
        names = (long, (), 0)
    else:
        names = (('r',), tuple((f, (('a' * 100,), (), 1 + i)) for i, f in enumerate(long)), 0)
    for endian in '<>':
        roundTrip(tuple(content(i, i % 5) for i in range(n + 1)), names, endian, ctx)
    ctx.outcome(shape)


def genTrees(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2), repeat=n):
                for names in ('distinct', 'clash'):
                    yield (shape, counts, names, 'seq')
    for ln in range(1, 128):
        yield ('len', ln)


def checkTree(case, ctx):
    if case[0] == 'len':
        model = (('x' * case[1],), (('y' * case[1], (('z',), (), 1)),), 0)
        total = 2
    else:
        model = fs.buildTree(*case)
        total = sum(case[1])
    files = tuple(content(i, 3 + i) for i in range(total))
    for endian in '<>':
        roundTrip(files, model, endian, ctx)
    ctx.outcome('%d files' % total)


def genForeign(tier):
    """Archives as other tools write them."""
    for n in range(0, 4):
        for sizes in itertools.product((0, 1, 4, 6), repeat=n):
            for order in itertools.permutations(range(n)):
                for gap in (0, 8):
                    for align in (1, 4, 16):
                        for nm in ('none', 'nest', 'minimal', 'bfs'):
                            for endian in '<>':
                                yield (sizes, order, gap, align, nm, endian)


def checkForeign(case, ctx):
    sizes, order, gap, align, nm, endian = case
    files = tuple(content(i, n) for i, n in enumerate(sizes))
    names = NAMES.get(nm, NAMES['nest'])
    fnt = None
    if nm == 'minimal':                 # what archives without names usually hold
        names, fnt = NAMES['none'], bytes.fromhex('0400000000000100')
    elif nm == 'bfs':
        fnt = fs.fntEncode(names, 'bfs')
    blob = fs.narcEncode(files, names, endian, fnt, order, gap, align)
    n = ndspy.narc.NARC(blob)
    compare(n, files, names, endian, 'loaded archive')
    out = n.save()
    same(fs.narcDecode(out), (endian, files, names), 'resaved archive')
    if order == tuple(range(len(sizes))) and not gap and align == 4 and nm in ('none', 'nest'):
        std = fs.narcEncode(files, names, endian, fnt, fill=b'\0')
        same(ndspy.narc.NARC(std).save(), std, 'resaving an archive in the standard layout')
    ctx.state(blob); ctx.step(3)
    ctx.outcome(nm)


def genReject(tier):
    for endian in '<>':
        for v in list(range(0, 20)) + [0xFE, 0xFF, 0x100, 0x101, 0x102, 0x200, 0x1000, 0xFFFE, 0xFFFF]:
            yield (endian, 'version', v)
        for i in range(4):
            for b in (0, 0x20, 0x4E, 0xFF):
                yield (endian, 'magic', (i, b))


def checkReject(case, ctx):
    """Other data is refused."""
    endian, kind, v = case
    blob = bytearray(fs.narcEncode((b'abc', b'de'), NAMES['flat'], endian))
    good = bytes(blob)
    if kind == 'version':
        blob[6:8] = v.to_bytes(2, 'little' if endian == '<' else 'big')
    else:
        blob[v[0]] = v[1]
    if blob != good:
        raises(ValueError, lambda: ndspy.narc.NARC(bytes(blob)), 'loading an archive with %s %r' % (kind, v))
    else:
        ndspy.narc.NARC(good)
    ctx.state(case); ctx.step(); ctx.outcome(kind)


spaces = [
    Space('files', genFiles, checkFiles, lambda t: 'every list of up to %d files of 0..5 bytes, sizes around powers of two, up to 61440 files; 4 name tables; both endiannesses' % (4 if t == 'quick' else 6)),
    Space('trees', genTrees, checkTree, lambda t: 'every folder tree of up to %d folders with 0..2 files each, every name length' % (4 if t == 'quick' else 5)),
    Space('contents', genContents, checkContents, 'up to 3 files of 0..255 bytes holding only zeros, only 0xFF, or either at the start or end'),
    Space('long names', genLongNames, checkLongNames, '100..1100 file or folder names of 127 characters'),
    Space('reject', genReject, checkReject, 'every wrong version and every wrong byte of the magic, both endiannesses'),
    Space('foreign', genForeign, checkForeign, 'archives of up to 3 files by an independent writer: every storage order, gaps, three alignments, four name tables'),
]
