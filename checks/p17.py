"""P17: sound archive file sharing follows data and merge IDs exactly."""
import itertools
from mc.core import Space, same, require
from mc import ref_sdat as rs
import ndspy.soundArchive


def entry(kind, data, tag):
    """An entry whose stored file depends on data only and whose attributes depend on tag."""
    if kind == 'sequences':
        return (rs.sseqFile(bytes([0x80, data, 0xFF])), tag, tag + 1, tag, tag, tag, tag)
    if kind == 'sequenceArchives':
        return (rs.ssarFile([(0, data, 1, 2, 3, 4)], b'\xFF'), tag, ('name%d' % tag,))
    if kind == 'banks':
        return (rs.sbnkFile([bytes([data, 0]) * 5]), tag, (tag, None, tag))
    if kind == 'waveArchives':
        return (rs.swarFile([bytes([data] * 4)]), tag)
    return (rs.strmFile(bytes([data] * 4)), tag, tag, tag, tag, tag)


def objects(s):
    return [((k, i), o) for k in rs.FILE_KINDS for i, (_, o) in enumerate(getattr(s, k)) if o is not None]


def judge(s, model, ids, ctx, what):
    """Save s; the stored files must be shared exactly as data and merge IDs say."""
    blob = s.save()
    got, layout = rs.decode(blob)
    want = rs.norm(model)
    for k in rs.KINDS:
        same(got[k], want[k], what + ': ' + k)
    key = {}
    for k in rs.FILE_KINDS:
        for i, (_, e) in enumerate(want[k]):
            if e is not None:
                key[(k, i)] = (k, e[0], ids[(k, i)])
    for a, b in itertools.combinations(sorted(key), 2):
        require((layout.used[a] == layout.used[b]) == (key[a] == key[b]),
                '%s: entries %s and %s %s a stored file', what, a, b,
                'share' if layout.used[a] == layout.used[b] else 'do not share')
    ctx.step(2)
    return blob, layout


def run(model, ids, ctx):
    ctx.state((tuple(sorted(model.items())), tuple(sorted(ids.items()))))
    s = rs.toNdspy(model)
    for key, o in objects(s):
        if ids[key] != 'default':
            o.dataMergeOptimizationID = ids[key]
    blob, layout = judge(s, model, {k: 0 if v == 'default' else v for k, v in ids.items()}, ctx, 'saved archive')
    back = ndspy.soundArchive.SDAT(blob)
    got = rs.fromNdspy(back)
    want = rs.norm(model)
    for k in rs.KINDS:
        same(got[k], want[k], 'loaded archive: ' + k)
    blob2, layout2 = judge(back, model, layout.used, ctx, 'resaved archive')
    same(layout2.used, layout.used, 'stored file of each entry after loading and resaving')
    return blob, layout


def genKind(tier):
    for k in rs.FILE_KINDS:
        for n in range(1, 5):
            for pat in itertools.product(range(4), repeat=n):
                yield (k, pat)
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for pat in itertools.product(range(9), repeat=n):
                yield (k, tuple((p // 3 if p // 3 < 2 else 7, ('default', 1, 2)[p % 3]) for p in pat))


def checkKind(case, ctx):
    k, pat = case
    pat = [(p & 1, p >> 1) if isinstance(p, int) else p for p in pat]
    model = {k: tuple((None, entry(k, d, 3 + i)) for i, (d, m) in enumerate(pat))}
    ids = {(k, i): m for i, (d, m) in enumerate(pat)}
    _, layout = run(model, ids, ctx)
    ctx.outcome('%d of %d files' % (len(set(layout.used.values())), len(pat)))


def genMixed(tier):
    top = 2 if tier == 'quick' else 3
    for perm in itertools.product(range(1, top + 1), repeat=5):
        for same_ids in range(3):
            yield (perm, same_ids)


def checkMixed(case, ctx):
    counts, mode = case
    model, ids = {}, {}
    for k, n in zip(rs.FILE_KINDS, counts):
        model[k] = tuple([('h', None)] + [('e%d' % i, entry(k, 0, i)) for i in range(n)])
        for i in range(n):
            ids[(k, i + 1)] = (5, i, 'text')[mode]
    run(model, ids, ctx)


def genEdit(tier):
    """Load an archive with sharing, then edit entries: change the data of one,
    change it back, remove one, add a copy."""
    ops = ('data0', 'data1', 'del', 'copy', 'merge', 'split')
    for k in ('sequences', 'waveArchives', 'sequenceArchives'):
        for pat in itertools.product(range(4), repeat=2 if tier == 'quick' else 3):
            for i in range(1 if tier == 'quick' else 1, 3):
                for seq in itertools.product(ops, repeat=i):
                    for at in itertools.product(range(len(pat)), repeat=i):
                        yield (k, pat, tuple(zip(seq, at)))


def checkEdit(case, ctx):
    k, pat, edits = case
    model = {k: tuple(('e%d' % i, entry(k, p & 1, 3 + i)) for i, p in enumerate(pat))}
    ids = {(k, i): p >> 1 for i, p in enumerate(pat)}
    blob, layout = run(model, ids, ctx)
    s = ndspy.soundArchive.SDAT(blob)
    lst = getattr(s, k)
    cur = [(e, layout.used[(k, i)]) for i, (_, e) in enumerate(model[k])]
    for n, (op, at) in enumerate(edits):
        if at >= len(cur):
            return
        e, mid = cur[at]
        if op in ('data0', 'data1'):
            new = (entry(k, 20 + int(op[4]), 0)[0],) + e[1:]
            obj = make(k, new)
            obj.dataMergeOptimizationID = mid
            lst[at] = (lst[at][0], obj)
            cur[at] = (new, mid)
        elif op == 'del':
            del lst[at]
            del cur[at]
        elif op == 'copy':
            obj = make(k, e)
            obj.dataMergeOptimizationID = mid
            lst.append((None, obj))
            cur.append((e, mid))
        elif op == 'merge':
            lst[at][1].dataMergeOptimizationID = 0
            cur[at] = (e, 0)
        else:
            lst[at][1].dataMergeOptimizationID = 100 + n
            cur[at] = (e, 100 + n)
        m = {k: tuple((nm, c[0]) for (nm, _), c in zip(lst, cur))}
        ctx.state((k, tuple(m[k]), tuple(c[1] for c in cur)))
        judge(s, m, {(k, i): c[1] for i, c in enumerate(cur)}, ctx, 'after ' + repr(edits[:n + 1]))


# Long files that differ in one byte only
def genLong(tier):
    for k in rs.FILE_KINDS:
        for size in (12, 40, 300, 1030) if tier == 'quick' else (12, 40, 300, 1030, 5000, 70000):
            spots = sorted({0, 1, size // 3, size // 2, size - 2, size - 1} | {s for s in (15, 16, 31, 32, 255, 256, 1023, 1024, 4096, 65535) if s < size})
            for a in [None] + spots:
                for b in [None] + spots:
                    yield (k, size, a, b)


def longEntry(kind, size, spot, tag):
    d = bytearray(b'\x3C' * size)
    if spot is not None:
        d[spot] = 0x41
    d = bytes(d)
    if kind == 'sequences':
        return (rs.sseqFile(d), tag, tag, tag, tag, tag, tag)
    if kind == 'sequenceArchives':
        return (rs.ssarFile([(0, 1, 1, 2, 3, 4)], d), tag, (None,))
    if kind == 'banks':
        return (rs.sbnkFile([d[i:i + 10].ljust(10, b'\x3C') for i in range(0, size, 10)]), tag, (tag,))
    if kind == 'waveArchives':
        return (rs.swarFile([d[:size // 2], d[size // 2:]]), tag)
    return (rs.strmFile(d + bytes(-size % 4)), tag, tag, tag, tag, tag)


def checkLong(case, ctx):
    k, size, a, b = case
    lst = tuple((None, longEntry(k, size, s, 1 + i)) for i, s in enumerate((a, None, b)))
    run({k: lst}, {(k, i): 4 for i in range(3)}, ctx)


# Many entries
def genMany(tier):
    for k in rs.FILE_KINDS:
        for n in (5, 17, 40, 260, 530) if tier == 'quick' else (5, 17, 40, 130, 260, 530):
            for contents in (1, 2, 3, n):
                for ids in (1, 2, n):
                    yield (k, n, contents, ids)


def checkMany(case, ctx):
    k, n, contents, ids = case
    run({k: tuple(('e%d' % i, entry(k, i % contents % 251, i % 199)) for i in range(n))},
        {(k, i): i * 7 % ids for i in range(n)}, ctx)


# Entries far apart in the file list, merge IDs that are equal but not the same object
def genApart(tier):
    for k in rs.FILE_KINDS:
        for gap in (1, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 200):
            for first in range(3):
                yield (k, gap, first)


def checkApart(case, ctx):
    k, gap, first = case
    between = [(None, longEntry(k, 520, i, 1)) for i in range(gap)]
    twin = longEntry(k, 520, None, 2)
    lst = between[:first] + [('a', twin)] + between[first:] + [('b', twin), ('c', twin), ('d', twin)]
    ids = {(k, i): int('1000') for i in range(len(lst))}
    ids[(k, len(lst) - 2)] = int('2000')
    ids[(k, len(lst) - 1)] = int('2000')
    run({k: tuple(lst)}, ids, ctx)
    ctx.outcome(k)


def genEmpty(tier):
    for k in ('sequenceArchives', 'banks', 'waveArchives', 'sequences'):
        for ids in itertools.product((0, 1, 1000), repeat=3):
            yield (k, ids)


def checkEmpty(case, ctx):
    """Entries without any contents."""
    k, ids = case
    e = {'sequenceArchives': (rs.ssarFile([], b''), 3, ()), 'banks': (rs.sbnkFile([]), 3, ()),
         'waveArchives': (rs.swarFile([]), 3), 'sequences': (rs.sseqFile(b''), 1, 2, 3, 4, 5, 6)}[k]
    run({k: tuple((None, e) for _ in ids)}, {(k, i): int(str(m)) for i, m in enumerate(ids)}, ctx)
    ctx.outcome(k)


def make(k, e):
    s = rs.toNdspy({k: ((None, e),)})
    return getattr(s, k)[0][1]


spaces = [
    Space('one-kind', genKind, checkKind, 'every list of up to 4 entries of each kind over 2 contents x 2 merge IDs, and of up to 3 over 3 contents x 3 merge IDs including the default'),
    Space('long', genLong, checkLong, lambda tier: 'every kind, three files of up to %d bytes equal or differing in one byte at every boundary position' % (1030 if tier == 'quick' else 70000)),
    Space('many', genMany, checkMany, lambda tier: 'up to 530 entries of each kind with 1, 2, 3 or (up to 251) different contents and merge IDs'),
    Space('apart', genApart, checkApart, 'equal entries of each kind with 1..200 different ones between them, merge IDs 1000 and 2000'),
    Space('empty', genEmpty, checkEmpty, 'three entries without contents of each kind with every combination of 3 merge IDs'),
    Space('mixed', genMixed, checkMixed, 'all five kinds together, every combination of entry counts, equal, per-entry and non-integer merge IDs'),
    Space('edits', genEdit, checkEdit, 'every series of up to 2 edits (replace data, delete, duplicate, merge, split) on a loaded archive with every sharing pattern of 2 entries'),
]
