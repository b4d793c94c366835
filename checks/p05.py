"""P05: filename tables survive saving and loading."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_fs as fs
import ndspy.fnt


def roundTrip(model, ctx, layouts=True):
    ctx.state(model)
    blob = bytes(ndspy.fnt.save(fs.toNdspy(model)))
    same(fs.fntDecode(blob), model, 'independent reader on the saved table')
    back = ndspy.fnt.load(blob)
    same(fs.fromNdspy(back), model, 'load(save(tree))')
    same(bytes(ndspy.fnt.save(back)), blob, 'saving the loaded table')
    std = fs.fntEncode(model)
    t = ndspy.fnt.load(std)
    same(fs.fromNdspy(t), model, 'load(standard table)')
    same(bytes(ndspy.fnt.save(t)), std, 'resaving a standard table')
    ctx.step(5)
    if layouts:
        for lay in ('bfs', 'revtables', 'gap', 'mixed'):
            same(fs.fromNdspy(ndspy.fnt.load(fs.fntEncode(model, lay))), model, 'load of a table in layout %s' % lay)
            ctx.step()
    ctx.outcome('%d folders' % (len(list(fs.foldersOf(model))) + 1))


def genTrees(tier):
    top = 5 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2) if n < 5 else (0, 1), repeat=n):
                for names in ('distinct', 'repeat', 'clash'):
                    for ids in ('seq', 'base', 'gap', 'rev', 'zero', 'top'):
                        yield (shape, counts, names, ids)


def checkTree(case, ctx):
    roundTrip(fs.buildTree(*case), ctx)


def genNames(tier):
    for c in range(256):
        for k in ('file', 'folder'):
            yield (k, chr(c))
            yield (k, 'a' + chr(c) + 'b')
    for n in range(1, 128):
        for k in ('file', 'folder'):
            yield (k, 'x' * n)
    for n in (128, 129, 255, 256, 300):
        for k in ('file', 'folder'):
            yield (k, 'x' * n)


def checkName(case, ctx):
    kind, name = case
    if kind == 'file':
        model = (('p', name, 'q'), (('sub', ((name,), (), 9)),), 5)
    else:
        model = (('p',), ((name, (('r',), ((name, ((), (), 7)),), 3)), ('z', ((), (), 0))), 5)
    if len(name) > 127:
        raises(ValueError, lambda: ndspy.fnt.save(fs.toNdspy(model)), 'saving a %d character name' % len(name))
        ctx.step(); ctx.outcome('rejected')
        return
    roundTrip(model, ctx)


def genLarge(tier):
    for n in (255, 256, 257, 300, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095):
        yield ('wide', n)
    for n in (20, 100, 260):
        yield ('deep', n)
    for n in (255, 256, 257, 1000, 5000, 32767, 32768, 61439):
        yield ('files', n)
    for first in list(range(0, 70)) + [127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535]:
        yield ('first', first)


def checkLarge(case, ctx):
    kind, n = case
    if kind == 'wide':
        m = ((), tuple(('d%d' % i, (('f',), (), i)) for i in range(n)), 0)
    elif kind == 'deep':
        m = (('leaf',), (), n)
        for i in range(n):
            m = (('f%d' % i,), (('d', m),), n - i - 1)
    elif kind == 'files':
        m = (tuple('file%d' % i for i in range(n)), (('d', (('x',), (), n)),), 0)
    else:
        m = (('a',), (('d', (('b',), (), n)),), n)
    roundTrip(m, ctx, layouts=kind != 'deep' or n < 200)


spaces = [
    Space('trees', genTrees, checkTree, lambda t: 'every ordered tree of up to %d folders, 0..2 files per folder (0..1 for the largest), 3 name schemes, 6 ID schemes, 5 storage layouts' % (5 if t == 'quick' else 6)),
    Space('names', genNames, checkName, 'every Latin-1 character and every name length 1..127 (and longer ones, which must be rejected), for files and folders'),
    Space('large', genLarge, checkLarge, 'folder counts up to 4096, nesting depths up to 260, file counts and first IDs around powers of two'),
]
