"""P08: editing by filename changes exactly that file."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_fs as fs
import ndspy.narc, ndspy.rom
from checks.p07 import compare

# 'x' exists both in the root and in a folder; IDs are not in tree order
TREE = (('x', 'y'), (('d', (('x',), (), 0)),), 1)
PATHS = {'x': 1, 'y': 2, 'd/x': 0}
FILES = (b'zero', b'1', b'file two')
DATA = (b'', b'new', bytes(range(0x41, 0x41 + 25)))

OPS = [('name', p, k) for p in PATHS for k in range(3)]
OPS += [('index', 1, 2), ('append', 0, 1), ('reload', 0, 0), ('bad', 0, 0), ('swap', 0, 2)]


def seqs(tier, deepQuick, deepThorough):
    n = deepQuick if tier == 'quick' else deepThorough
    for k in range(0, n + 1):
        yield from itertools.product(range(len(OPS)), repeat=k)


def run(seq, obj, save, load, check, ctx):
    files = list(FILES)
    for idx in seq:
        op, a, b = OPS[idx]
        if op == 'name':
            obj.setFileByName(a, DATA[b]); files[PATHS[a]] = DATA[b]
        elif op == 'index':
            obj.files[a] = DATA[b]; files[a] = DATA[b]
        elif op == 'append':
            obj.files.append(DATA[b]); files.append(DATA[b])
        elif op == 'swap':
            obj.files[a], obj.files[b] = obj.files[b], obj.files[a]
            files[a], files[b] = files[b], files[a]
        elif op == 'reload':
            obj = load(save(obj))
        else:
            for bad in ('d', 'z', 'd/y', 'x/x', '', 'X', 'x ', 'xx', 'D/x', 'd/x/x'):
                raises(ValueError, lambda: obj.setFileByName(bad, b'!'), 'setFileByName(%r)' % bad)
                raises(ValueError, lambda: obj.getFileByName(bad), 'getFileByName(%r)' % bad)
        ctx.step()
        ctx.state((tuple(files), op))
        for p, i in PATHS.items():
            same(bytes(obj.getFileByName(p)), files[i], 'after %s: getFileByName(%r)' % (op, p))
        same([bytes(f) for f in obj.files], files, 'after %s: files' % op)
        ctx.outcome(op)
    check(obj, tuple(files), 'before saving')
    obj = load(save(obj))
    check(obj, tuple(files), 'after saving and loading')
    for p, i in PATHS.items():
        same(bytes(obj.getFileByName(p)), files[i], 'after reload: getFileByName(%r)' % p)


def checkNarc(seq, ctx):
    for endian in '<>':
        n = ndspy.narc.NARC.fromFilesAndNames(list(FILES), fs.toNdspy(TREE))
        n.endiannessOfBeginning = endian
        run(seq, n, lambda n: n.save(), ndspy.narc.NARC,
            lambda o, files, w: compare(o, files, TREE, endian, w), ctx)


OVT = b''.join(x.to_bytes(4, 'little') for x in (0, 0x2100000, 8, 0, 0, 0, 2, 0))
ROM = fs.romModel(arm9=b'arm9 code', arm7=b'arm7 code', arm9OverlayTable=OVT, name=b'TITLE', idCode=b'ABCD',
                  version=3, files=FILES, filenames=TREE, order=(2, 0, 1), iconBanner=b'\1\0' + b'i' * 0x83E,
                  debugRom=b'dbg', rsaSignature=b's' * 0x88)


def checkRom(seq, ctx):
    def check(o, files, w):
        fs.romCompare(o, dict(ROM, files=files), w)
    run(seq, fs.romToNdspy(ROM), lambda r: r.save(), ndspy.rom.NintendoDSRom, check, ctx)


def genLarge(tier):
    for n in (16, 17, 255, 256, 257, 300, 1000):
        for k in sorted({0, 1, 15, 16, n // 2, n - 2, n - 1}):
            if k < n:
                for what in ('narc', 'rom'):
                    for size in (0, 5, 0x300, 0x12345):
                        yield (n, k, what, size)


def checkLarge(case, ctx):
    """One edit in a large archive, and names that refer to no file."""
    n, k, what, size = case
    files = [bytes([i & 0xFF, i >> 8]) * (i % 5) for i in range(n)]
    tree = (tuple('f%d' % i for i in range(n // 2)), (('d', (tuple('f%d' % i for i in range(n - n // 2)) + ('ghost',), (), n // 2)),), 0)
    path = 'f%d' % k if k < n // 2 else 'd/f%d' % (k - n // 2)
    new = bytes((i * 11 + 1) & 0xFF for i in range(size))
    if what == 'narc':
        obj = ndspy.narc.NARC.fromFilesAndNames(list(files), fs.toNdspy(tree))
    else:
        obj = ndspy.rom.NintendoDSRom()
        obj.files, obj.filenames = list(files), fs.toNdspy(tree)
    obj.setFileByName(path, new)
    files[k] = new
    for rnd in range(2):
        same([bytes(f) for f in obj.files], files, 'files after the edit')
        same(bytes(obj.getFileByName(path)), new, 'getFileByName(%r)' % path)
        for bad in ('d/ghost', 'ghost'):
            for f in (lambda: obj.getFileByName(bad), lambda: obj.setFileByName(bad, b'!')):
                try:
                    f()
                except (ValueError, LookupError):
                    pass
                else:
                    require(False, '%r refers to no file, but was accepted', bad)
        same([bytes(f) for f in obj.files], files, 'files after accesses to missing files')
        obj = type(obj)(obj.save())
        ctx.step(3)
    ctx.state(case); ctx.outcome(what)


CONTENTS = (b'', b'\0', b'\0\0\0', b'\0' * 4, b'\0' * 0x200, b'\0a', b'a\0', b'ab\0\0', b'\xFF', b'\xFF' * 0x200, b'a\xFF\xFF', b'\xFFa',
            b' a ', b'a\r\n', b'x' * 0x1FF, b'x' * 0x200, b'x' * 0x201, bytes(range(256)))


def genContents(tier):
    for what in ('narc', 'rom'):
        for path in PATHS:
            for old in range(len(CONTENTS)):
                for new in range(len(CONTENTS)):
                    for kind in (bytes, bytearray):
                        yield (what, path, old, new, kind.__name__)


def checkContents(case, ctx):
    """Replacing data of any appearance by data of any other appearance."""
    what, path, old, new, kind = case
    files = list(FILES)
    if what == 'narc':
        obj = ndspy.narc.NARC.fromFilesAndNames(list(files), fs.toNdspy(TREE))
    else:
        obj = fs.romToNdspy(ROM)
    k = PATHS[path]
    for step, c in enumerate((old, new, new)):
        obj.setFileByName(path, {'bytes': bytes, 'bytearray': bytearray}[kind](CONTENTS[c]))
        files[k] = CONTENTS[c]
        for rnd in range(2 if step != 1 else 1):
            same([bytes(f) for f in obj.files], files, 'files after setting %r' % path)
            same(bytes(obj.getFileByName(path)), CONTENTS[c], 'getFileByName(%r)' % path)
            if rnd == 0 and step != 1:
                obj = type(obj)(obj.save())
            ctx.step()
    ctx.state(case); ctx.outcome(what)


spaces = [
    Space('contents', genContents, checkContents, 'every replacement among 18 contents (empty, all zero, all FF, zeros and FFs at either end, page sizes) on each path of an archive and a ROM, bytes and bytearray'),
    Space('large', genLarge, checkLarge, 'an edit of every boundary position in archives and ROMs of 16..1000 files, new sizes up to 0x12345; names without a file'),
    Space('narc', lambda t: seqs(t, 4, 5), checkNarc, lambda t: 'every sequence of up to %d operations out of 14 (by-name with 3 data sizes on 3 paths, by-index, append, swap, save+reload, missing names), both endiannesses' % (4 if t == 'quick' else 5)),
    Space('rom', lambda t: seqs(t, 3, 4), checkRom, lambda t: 'every sequence of up to %d of the same operations on a ROM with overlays, banner, debug ROM and signature' % (3 if t == 'quick' else 4)),
]
