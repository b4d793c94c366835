"""P16: sound archives keep every entry, name and attribute."""
import itertools
from mc.core import Space, same
from mc import ref_sdat as rs
import ndspy.soundArchive

FILL = {
    'sequences': (rs.sseqFile(b'\xFE\x01\0\xFF'), 1, 2, 3, 4, 5, 6),
    'sequenceArchives': (rs.ssarFile([(0, 1, 2, 3, 4, 5), (None, 9, 8, 7, 6, 5)], b'\xFF'), 7, ('S', None)),
    'banks': (rs.sbnkFile([bytes(range(10))]), 8, (3, None, 4)),
    'waveArchives': (rs.swarFile([b'abcd']), 9),
    'sequencePlayers': (3, frozenset((0, 15)), 0x12345678),
    'groups': ((0, 3, 1), (3, 8, 0x01020304)),
    'streamPlayers': (4, 0, 255),
    'streams': (rs.strmFile(b'wxyz'), 1, 2, 3, 4, 5),
}


def variant(kind, i):
    """The i-th distinct entry of a kind."""
    e = FILL[kind]
    if kind == 'sequences':
        return (rs.sseqFile(bytes([0x94, i, 0, 0, 0xFF])), 1 + i) + e[2:]
    if kind == 'sequenceArchives':
        return (rs.ssarFile([(0, i, 2, 3, 4, 5)] * (i % 3), b'\xFF' + bytes([i])), i, tuple('n%d' % j for j in range(i % 3)))
    if kind == 'banks':
        return (rs.sbnkFile([bytes([i]) * 10]), 8 + i, (i,))
    if kind == 'waveArchives':
        return (rs.swarFile([bytes([i] * 4)]), 9 + i)
    if kind == 'sequencePlayers':
        return (i, frozenset((i % 16,)), i)
    if kind == 'groups':
        return ((i % 4, 2, i),) * i
    if kind == 'streamPlayers':
        return (i,) * (i + 1)
    return (rs.strmFile(bytes([i] * 4)), i, 2, 3, 4, 5)


def roundTrip(model, ctx):
    ctx.state(tuple(sorted(model.items())))
    want = rs.norm(model)
    s = rs.toNdspy(model)
    blob = s.save()
    got, layout = rs.decode(blob)
    named = any(n is not None for k in want for n, _ in want[k]) or any(
        x is not None for _, e in want['sequenceArchives'] if e for x in e[2])
    same(layout.hasSymb, named, 'presence of a symbol block')
    for k in rs.KINDS:
        same(got[k], want[k], 'independent reader: ' + k)
    back = ndspy.soundArchive.SDAT(blob)
    got = rs.fromNdspy(back)
    for k in rs.KINDS:
        same(got[k], want[k], 'loaded archive: ' + k)
    ctx.step(3)
    return blob


def lists(kind, top):
    """Every list up to a length, each entry present or missing, named or not."""
    for n in range(top + 1):
        for pat in itertools.product(range(4), repeat=n):
            yield tuple(('N%d' % i * (1 + i) if p & 1 else None, variant(kind, i) if p & 2 else None)
                        for i, p in enumerate(pat))


def genOne(tier):
    for ki in range(8):
        for bg in range(3):
            for n, pat in enumerate(lists(rs.KINDS[ki], 3 if tier == 'quick' else 5)):
                yield (ki, bg, n)


_lists = {}


def getList(ki, n):
    if ki not in _lists:
        _lists[ki] = list(lists(rs.KINDS[ki], 5))
    return _lists[ki][n]


def checkOne(case, ctx):
    ki, bg, n = case
    model = {}
    if bg:
        for k in rs.KINDS:
            model[k] = ((k.upper() if bg == 2 else None, FILL[k]),)
        if bg == 1:
            model['sequenceArchives'] = ((None, FILL['sequenceArchives'][:2] + ((None, None),)),)
    model[rs.KINDS[ki]] = getList(ki, n)
    roundTrip(model, ctx)
    ctx.outcome('background %d' % bg)


def genTwo(tier):
    small = 21
    for a, b in itertools.combinations(range(8), 2):
        for i in range(small):
            yield (a, b, i)


def checkTwo(case, ctx):
    a, b, i = case
    for j in range(21):
        roundTrip({rs.KINDS[a]: getList(a, i), rs.KINDS[b]: getList(b, j)}, ctx)


def genAllKinds(tier):
    # each kind: absent list, one unnamed, one named, one missing-but-named
    for pat in itertools.product(range(3 if tier == 'quick' else 4), repeat=8):
        if tier == 'quick' and sum(1 for p in pat if p) not in (3, 4, 7, 8):
            continue
        yield pat


def checkAllKinds(pat, ctx):
    model = {}
    for k, p in zip(rs.KINDS, pat):
        if p:
            e = FILL[k]
            if k == 'sequenceArchives' and p != 2:
                e = e[:2] + ((None, None),)
            model[k] = ((k if p >= 2 else None, None if p == 3 else e),)
    roundTrip(model, ctx)


B8, B16, B32 = (0, 1, 0x7F, 0x80, 0xFF), (0, 1, 0x7FFF, 0x8000, 0xFFFF), (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)
FIELDS = {
    'sequences': (B16, B16, B8, B8, B8, B8),
    'sequenceArchives': (B16,),
    'banks': (B16,),
    'waveArchives': (B16,),
    'streams': (B16, B8, B8, B8, B8),
}


def genAttrs(tier):
    for k, fields in FIELDS.items():
        if k == 'sequences':
            # every pair of fields over all boundary values, others fixed
            for i, j in itertools.combinations(range(6), 2):
                for v, w in itertools.product(fields[i], fields[j]):
                    vals = list(FILL[k][1:])
                    vals[i], vals[j] = v, w
                    yield (k, tuple(vals))
        elif k == 'streams':
            for i, j in itertools.combinations(range(5), 2):
                for v, w in itertools.product(fields[i], fields[j]):
                    vals = list(FILL[k][1:])
                    vals[i], vals[j] = v, w
                    yield (k, tuple(vals))
        else:
            for v in fields[0]:
                yield (k, (v,))
    ids = (None, 0, 1, 0x7FFF)
    for n in range(5):
        for t in itertools.product(ids, repeat=n):
            yield ('banks', (5, t))
    for t in range(4):
        for o in range(16):
            for i in B32:
                yield ('groups', ((t, o, i),))
    for n in range(4):
        for t in itertools.product(((0, 2, 0), (1, 9, 1), (2, 4, 0xFFFFFFFF), (3, 15, 256)), repeat=n):
            yield ('groups', t)
    for n in (300, 4097, 65537):
        yield ('groups', tuple((i % 4, i % 16, i * 257) for i in range(n)))
    for n in range(17):
        yield ('streamPlayers', tuple(range(n)))
        yield ('streamPlayers', (0xFF,) * n)
        yield ('streamPlayers', tuple(15 - i for i in range(n)))
    for hi in range(256):
        yield ('masks', hi)
    for m, h in itertools.product(B16, B32):
        yield ('sequencePlayers', (m, frozenset((1, 14)), h))


def checkAttrs(case, ctx):
    k, vals = case
    if k == 'masks':
        lst = tuple((None, (1, frozenset(j for j in range(16) if (vals << 8 | lo) >> j & 1), lo)) for lo in range(256))
        roundTrip({'sequencePlayers': lst}, ctx)
    elif k in ('groups', 'streamPlayers', 'sequencePlayers'):
        roundTrip({k: ((None, vals), ('x', FILL[k]))}, ctx)
    elif k in ('sequenceArchives',) or (k == 'banks' and len(vals) == 1):
        e = FILL[k]
        roundTrip({k: ((None, FILL[k]), ('x', (e[0], vals[0]) + e[2:]))}, ctx)
    else:
        roundTrip({k: ((None, FILL[k]), ('x', (FILL[k][0],) + vals))}, ctx)
    ctx.outcome(k)


def genNames(tier):
    for a in range(3):
        for na in (None, 'A'):
            for sub in itertools.product((None, '', 'q', 'long name'), repeat=a):
                for b in range(-1, 3):
                    for nb in (None, 'BB'):
                        for sub2 in ((None,) * max(b, 0), ('z',) * max(b, 0)):
                            yield (na, sub, nb, b, sub2)
    for first in (0, 64, 128, 192):
        yield (None, tuple(chr(c) for c in range(max(first, 1), first + 64)), None, 0, ())
    for n in (1, 2, 3, 4, 5, 31, 127, 128, 255, 256, 1000):
        yield ('y' * n, (), None, 0, ())


def checkNames(case, ctx):
    na, sub, nb, b, sub2 = case
    ev = b'\xFF' * 4
    lst = [(na, (rs.ssarFile([(i % 4, 0, 127, 64, 50, 0) for i in range(len(sub))], ev), 0, sub))]
    if b >= 0:
        lst.append((nb, (rs.ssarFile([(None, i, 127, 64, 50, 0) for i in range(b)], ev), 0, sub2)))
    else:
        lst.insert(0, (nb, None))
    model = {'sequenceArchives': tuple(lst)}
    roundTrip(model, ctx)
    model['banks'] = ((na, FILL['banks']), (nb, None))
    roundTrip(model, ctx)


def genLarge(tier):
    for ki in range(8):
        for n in (7, 15, 16, 17, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300):
            for how in ('all', 'odd', 'last', 'names', 'half'):
                yield (ki, n, how)
        for n in (4097, 65537):
            yield (ki, n, 'last')
        if rs.KINDS[ki] in ('sequences', 'sequenceArchives', 'banks', 'waveArchives', 'streams'):
            for size in (0x1000, 0x7FF0, 0x8000, 0xFFE0, 0x10000, 0x10004, 0x12345, 0x20000) + ((0x200004,) if rs.KINDS[ki] in ('waveArchives', 'streams') else ()):
                for where in range(3):
                    yield (ki, size, where)


def bigFile(kind, size):
    d = bytes(i * 7 % 251 for i in range(size))
    return {'sequences': lambda: rs.sseqFile(d), 'sequenceArchives': lambda: rs.ssarFile([(0, 1, 2, 3, 4, 5), (3, 9, 8, 7, 6, 5)], d),
            'banks': lambda: rs.sbnkFile([d[i * 10:i * 10 + 10] for i in range(min(size, 0x8000) // 16)]),
            'waveArchives': lambda: rs.swarFile([d, b'abcd']), 'streams': lambda: rs.strmFile(d[:size & ~3])}[kind]()


def checkLarge(case, ctx):
    ki, n, how = case
    k = rs.KINDS[ki]
    if isinstance(how, int):
        lst = [('N%d' % i, variant(k, i)) for i in range(3)]
        lst[how] = ('big', (bigFile(k, n),) + variant(k, 2)[1:])
        roundTrip({'streams': ((None, FILL['streams']),), 'sequences': (('s', FILL['sequences']),), k: tuple(lst)}, ctx)
        ctx.outcome('large file')
        return
    out = []
    for i in range(n):
        e = variant(k, i * 13 % 97)
        if k == 'streamPlayers':
            e = e[:16]
        name = 'NAME_%d' % i
        if how == 'odd':
            out.append((name if i % 3 else None, e if i % 2 else None))
        elif how == 'last':
            out.append((None, e if i == n - 1 else None))
        elif how == 'names':
            out.append((name if i >= n - 2 else None, e))
        elif how == 'half':
            out.append((name, e if i >= n // 2 else None))
        else:
            out.append((name, e))
    roundTrip({k: tuple(out)}, ctx)
    roundTrip({k: tuple(out), 'streams': (('st', FILL['streams']),) if k != 'streams' else tuple(out), 'banks': (('b', FILL['banks']),) if k != 'banks' else tuple(out)}, ctx)
    ctx.outcome(how)


CONF = ('A', 'AA', 'BA', 'AB', 'a', '', 'A B', '\xc4')


def genConfusable(tier):
    for names in itertools.product(CONF, repeat=3):
        yield names


def checkConfusable(names, ctx):
    """Equal names, prefixes and suffixes of one another, within and across kinds."""
    a, b, c = names
    for k in rs.KINDS:
        other = 'banks' if k == 'waveArchives' else 'waveArchives'
        roundTrip({k: ((a, FILL[k]), (b, variant(k, 2))), other: ((c, FILL[other]),)}, ctx)
    roundTrip({'sequenceArchives': ((a, (rs.ssarFile([(0, 1, 2, 3, 4, 5)] * 2, b'\xFF'), 7, (b, c))), (b, (rs.ssarFile([(0, 1, 2, 3, 4, 5)] * 2, b'\xFE'), 7, (a, a))))}, ctx)


spaces = [
    Space('large', genLarge, checkLarge, 'lists of 7..300 entries of each kind in five patterns of missing entries and names; files of up to 0x20000 bytes (wave archives and streams 0x200004) at each of three positions'),
    Space('confusable', genConfusable, checkConfusable, 'every triple of 8 names that are equal to or parts of one another, within a kind and across kinds'),
    Space('one-kind', genOne, checkOne, lambda t: 'every list of up to %d entries of each of the 8 kinds (present/missing x named/unnamed), with no, unnamed and named entries of the other kinds' % (3 if t == 'quick' else 5)),
    Space('two-kinds', genTwo, checkTwo, 'every pair of kinds with every pair of lists of up to 2 entries'),
    Space('all-kinds', genAllKinds, checkAllKinds, lambda t: 'every choice of absent/unnamed/named%s single entry for the 8 kinds%s' % (('', ' (3, 4, 7 or 8 kinds used)') if t == 'quick' else ('/missing', ''))),
    Space('attributes', genAttrs, checkAttrs, 'all pairs of boundary values of per-entry fields; all 65536 channel masks; all group entry types x options; all wave archive ID lists over 4 values; all stream player channel counts'),
    Space('names', genNames, checkNames, 'all combinations of archive and sub-sequence names (missing, empty, short, long) for two sequence archives; every Latin-1 character; name lengths'),
]
