"""P06: file IDs and paths agree in both directions."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_fs as fs
import ndspy.fnt


def refId(model, path):
    files, folders, first = model
    if len(path) == 1:
        return first + files.index(path[0]) if path[0] in files else None
    for n, c in folders:
        if n == path[0]:
            return refId(c, path[1:])
    return None


def refFolder(model, path):
    for n, c in model[1]:
        if n == path[0]:
            return c if len(path) == 1 else refFolder(c, path[1:])
    return None


def queries(folder, model, alphabet, depth, ctx):
    files = list(fs.filesOf(model))
    ids = {}
    for path, i in files:
        ids.setdefault(i, []).append('/'.join(path))
    # path -> ID, folder, index and membership syntax
    for n in range(1, depth + 1):
        for path in itertools.product(alphabet, repeat=n):
            s = '/'.join(path)
            want = refId(model, path)
            wantF = refFolder(model, path)
            same(folder.idOf(s), want, 'idOf(%r)' % s)
            got = folder.subfolder(s)
            if wantF is None:
                same(got, None, 'subfolder(%r)' % s)
            else:
                require(got is not None, 'subfolder(%r) not found', s)
                same(fs.fromNdspy(got), wantF, 'subfolder(%r)' % s)
            same(s in folder, want is not None or wantF is not None, '%r in folder' % s)
            if want is not None:
                same(folder[s], want, 'folder[%r]' % s)
            elif wantF is not None:
                require(folder[s] is got, 'folder[%r] is not subfolder(%r)', s, s)
            else:
                raises(KeyError, lambda: folder[s], 'folder[%r]' % s)
            ctx.step(4)
            ctx.outcome(('file' if want is not None else '') + ('folder' if wantF is not None else ''))
            if n <= 2:
                for v in ('/' + s, s + '/', '/' + s + '/'):
                    same(v in folder, want is not None or wantF is not None, '%r in folder' % v)
                    if want is not None:
                        same(folder[v], want, 'folder[%r]' % v)
                    elif wantF is not None:
                        require(folder[v] is got, 'folder[%r] is not subfolder(%r)', v, s)
                    else:
                        raises(KeyError, lambda: folder[v], 'folder[%r]' % v)
                    same(folder.idOf(v), want, 'idOf(%r)' % v)
                    same(folder.subfolder(v), got, 'subfolder(%r)' % v)
                    ctx.step(2)
                if n == 2:
                    # no file or folder has an empty name
                    v = '//'.join(path)
                    same((folder.idOf(v), folder.subfolder(v), v in folder), (None, None, False), 'lookups of %r' % v)
    # ID -> path
    top = max(ids, default=0)
    for i in sorted(set(range(0, min(top, 30) + 3)) | set(range(max(0, top - 12), top + 3)) | {65535, 65536}):
        got = folder.filenameOf(i)
        ctx.step(3)
        if i not in ids:
            same(got, None, 'filenameOf(%d)' % i)
            same(i in folder, False, '%d in folder' % i)
            raises(KeyError, lambda: folder[i], 'folder[%d]' % i)
        else:
            require(got in ids[i], 'filenameOf(%d): got %r, expected one of %r', i, got, ids[i])
            same(folder[i], got, 'folder[%d]' % i)
            same(i in folder, True, '%d in folder' % i)
            same(folder.idOf(got), i, 'idOf(filenameOf(%d))' % i)
    for path, i in files:
        s = '/'.join(path)
        same(folder.idOf(s), i, 'idOf(%r)' % s)
        ctx.step()
    for bad in (None, 1.5, b'a', ('a',)):
        raises(TypeError, lambda: folder[bad], 'folder[%r]' % (bad,))
    for empty in ('', '/', '//'):
        same(folder.idOf(empty), None, 'idOf(%r)' % empty)
        same(folder.subfolder(empty), None, 'subfolder(%r)' % empty)
        raises(KeyError, lambda: folder[empty], 'folder[%r]' % empty)


def genTrees(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2), repeat=n):
                for names in ('distinct', 'repeat', 'clash'):
                    for ids in ('seq', 'base', 'gap', 'rev', 'zero', 'top'):
                        yield (shape, counts, names, ids)


def checkTree(case, ctx):
    shape, counts, names, ids = case
    model = fs.buildTree(*case)
    ctx.state(model)
    folder = fs.toNdspy(model)
    if names == 'distinct':
        alphabet = sorted({p for path, i in fs.filesOf(model) for p in path} | {p for path, c in fs.foldersOf(model) for p in path})
        alphabet.append('zz')
        depth = 2
    else:
        alphabet = ['a', 'c', 'd', 'e'] if names == 'repeat' else ['c', 'd', 'e']
        depth = 4 if names == 'clash' else 3
    queries(folder, model, alphabet, depth, ctx)
    # lookups relative to every subfolder, on a table that went through a file
    loaded = ndspy.fnt.load(bytes(ndspy.fnt.save(folder)))
    for path, sub in fs.foldersOf(model):
        f = loaded.subfolder('/'.join(path))
        require(f is not None, 'subfolder(%r) not found', path)
        queries(f, sub, alphabet[:4], 2, ctx)


def genEdits(tier):
    ops = [('addfile', ()), ('addfile', ('c',)), ('delfile', ()), ('delfile', ('c',)),
           ('addfolder', ()), ('addfolder', ('c',)), ('delfolder', ()), ('shift', ()), ('shift', ('c',))]
    for n in range(0, 4 if tier == 'quick' else 5):
        for seq in itertools.product(range(len(ops)), repeat=n):
            yield tuple(ops[i] for i in seq)


def checkEdits(seq, ctx):
    """Lookups always reflect the current contents of an edited tree."""
    folder = fs.toNdspy((('a',), (('c', (('b',), (), 1)),), 0))
    fresh = iter('efghijkl')
    for op, path in seq:
        f = folder.subfolder('/'.join(path)) if path else folder
        if f is None:
            continue
        if op == 'addfile': f.files.append(next(fresh))
        elif op == 'delfile' and f.files: del f.files[0]
        elif op == 'addfolder': f.folders.append((next(fresh), ndspy.fnt.Folder([], ['x', 'y'], 40 + len(f.folders))))
        elif op == 'delfolder' and f.folders: del f.folders[0]
        elif op == 'shift': f.firstID += 10
    model = fs.fromNdspy(folder)
    ctx.state(model)
    queries(folder, model, ['a', 'b', 'c', 'e', 'f', 'x'], 2, ctx)


NAMES = ('a', 'A', 'aa', 'a.b', 'a b', '.', '..', '\xe9', '\xc9', '0', '12', 'x' * 127, 'x' * 126 + 'y', 'ab', 'b', ' a', 'a ', '\\')


def genNames(tier):
    for pair in itertools.permutations(NAMES, 2):
        for kinds in itertools.product('fd', repeat=2):
            yield (pair, kinds)


def checkNames(case, ctx):
    """Only the exact name matches."""
    pair, kinds = case
    files = tuple(n for n, k in zip(pair, kinds) if k == 'f')
    folders = tuple((n, ((n, pair[0] + 'q'), (), 20 + 10 * i)) for i, (n, k) in enumerate(zip(pair, kinds)) if k == 'd')
    folders = tuple((n[:127], ((c[0][0], c[0][1][:127] if len(c[0][1]) < 128 else 'w'), c[1], c[2])) for n, c in folders)
    model = (files, folders, 3)
    folder = fs.toNdspy(model)
    for f in (folder, ndspy.fnt.load(bytes(ndspy.fnt.save(folder)))):
        queries(f, model, NAMES, 2, ctx)
    ctx.state(model)


def genLarge(tier):
    for n in (15, 16, 17, 40, 100, 127, 128, 129, 255, 256, 257, 300, 1000):
        for kind in ('files', 'folders', 'late'):
            for first in (0, 1, 255, 256, 60000):
                yield (kind, n, first)
    for n in (5, 10, 20, 60, 100):
        yield ('deep', n, 0)
    for n in (2500, 4095, 4096):
        yield ('files', n, 0)
        yield ('folders', min(n, 4095), 1)
    for n in (4097, 5000, 8193, 16385, 32769, 61440):
        for kind in ('files', 'inner'):
            for first in (0, 1, 4000):
                yield (kind, n, first)


def checkLarge(case, ctx):
    kind, n, first = case
    if kind == 'files':
        model = (tuple('f%d' % i for i in range(n)), (), first)
    elif kind == 'folders':
        model = (('r',), tuple(('d%d' % i, (('g',), (), first + n - i)) for i in range(n)), first)
    elif kind == 'inner':
        model = (('r',), (('d', (('e',), (('s', (tuple('f%d' % i for i in range(n)), (), first + 2)),), first + 1)),), first)
    elif kind == 'late':
        model = ((), tuple(('d%d' % i, ((), (), 0)) for i in range(n - 1)) + (('last', (('p', 'q'), (('s', (('t',), (), first)),), first + 1)),), 0)
    else:
        model = (('x',), (), first + n)
        for i in range(n):
            model = (('x',), (('d', model),), first + n - 1 - i)
    folder = fs.toNdspy(model)
    paths = list(fs.filesOf(model))
    if n > 4096:
        want = {b + d for b in (0, 16, 255, 4095, 4096, 8192, 16384, 32768, n) for d in range(-3, 4)}
        paths = [p for k, p in enumerate(paths) if k in want]
    for f in (folder, ndspy.fnt.load(bytes(ndspy.fnt.save(folder)))):
        for path, i in paths:
            s = '/'.join(path)
            same(f.idOf(s), i, 'idOf(%r)' % s)
            same(f[s], i, 'folder[%r]' % s)
            same(s in f, True, '%r in folder' % s)
            same(f.idOf(s + 'z'), None, 'idOf(%r)' % (s + 'z'))
            same(f.filenameOf(i), s, 'filenameOf(%d)' % i)
            ctx.step(5)
        for path, c in fs.foldersOf(model):
            s = '/'.join(path)
            if not s:
                continue
            got = f.subfolder(s)
            require(got is not None, 'subfolder(%r) not found', s)
            same((list(got.files), got.firstID), (list(c[0]), c[2]), 'subfolder(%r)' % s)
            same(f.idOf(s), None, 'idOf(%r)' % s)
            ctx.step(2)
        ids = {i for p, i in paths}
        for i in (min(ids) - 1, max(ids) + 1, max(ids) + 4096, 65536, 65537, 1 << 20, -1, -4096):
            if not min(ids) <= i <= max(ids):
                same(f.filenameOf(i), None, 'filenameOf(%d)' % i)
    ctx.state(case); ctx.outcome(kind)


spaces = [
    Space('names', genNames, checkNames, 'every ordered pair of 18 confusable names (case, prefixes, dots, blanks, accents, length 127), each as a file or folder, every path of up to two of the names'),
    Space('large', genLarge, checkLarge, '15..4096 files or folders and up to 61440 files in one folder (positions around the powers of two), first IDs up to 60000, folders nested up to 100 deep: every path and ID'),
    Space('trees', genTrees, checkTree, lambda t: 'every ordered tree of up to %d folders with 0..2 files each, 3 name schemes (distinct / repeated at every level / file and folder sharing a name), 6 ID schemes incl. overlapping; every query path over the name alphabet up to the depth, every ID around the used ones, relative to every folder' % (4 if t == 'quick' else 5)),
    Space('edits', genEdits, checkEdits, 'every sequence of up to 3 edits (9 kinds) followed by all lookups'),
]
