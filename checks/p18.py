"""P18: resaving an unmodified sound archive reproduces it byte for byte."""
import itertools
from mc.core import Space, same, require
from mc import ref_sdat as rs
import ndspy.soundArchive

POW = (1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200)


def up(x, a):
    return (x + a - 1) // a * a


def seqs(sizes):
    return tuple((None, (rs.sseqFile(bytes([i & 0x7F]) + b'\xFF' * (n - 1)), 0, 0, 127, 64, 50, 0))
                 for i, n in enumerate(sizes))


def run(model, opts, ctx):
    al, first, pad, incl, symb = opts
    ctx.state((tuple(sorted(model.items())), opts))
    s = rs.toNdspy(model, {'fileAlignment': al, 'firstFileAlignment': first, 'padAtEnd': pad,
                           'fatLengthsIncludePadding': incl, 'padSymbSizeTo4InSDATHeader': symb})
    blob = s.save()
    got, L = rs.decode(blob)
    want = rs.norm(model)
    for k in rs.KINDS:
        same(got[k], want[k], 'independent reader: ' + k)
    # the layout choices are obeyed
    pos = up(L.fileBlock + 0xC, first or 1)
    for i, (o, n, real) in enumerate(L.entries):
        same(o, up(pos, al), 'offset of file %d' % i)
        same(n, up(real, al) if incl else real, 'FAT length of file %d' % i)
        pos = o + real
    same(L.total, up(pos, al) if pad else pos, 'total size')
    if L.hasSymb:
        same(L.symbSize, up(L.symbEnd, 4) if symb else L.symbEnd, 'symbol block size in the header')
    back = ndspy.soundArchive.SDAT(blob)
    again = back.save()
    if again != blob:
        _, L2 = rs.decode(again)
        require(False, 'resaving the loaded archive differs: files %s, size %#x; expected %s, size %#x',
                L2.entries, L2.total, L.entries, L.total)
    ctx.step(3)
    ctx.outcome('%d files%s' % (len(L.entries), ', symbols' if L.hasSymb else ''))


def genLayout(tier):
    firsts = (None, 0x20, 0x200) if tier == 'quick' else (None,) + POW
    for al in POW:
        for first in firsts:
            for pad in (True, False):
                for incl in (False, True):
                    yield (al, first, pad, incl)


SIZES = (4, 1, 3, 5, 0x14, 0x24, 0x64)     # + 0x1C header: 0x20, 0x1D, 0x1F, 0x21, 0x30, 0x40, 0x80


def checkLayout(case, ctx):
    al, first, pad, incl = case
    for n in range(0, 3):
        for sizes in itertools.product(SIZES, repeat=n):
            run({'sequences': seqs(sizes)}, (al, first, pad, incl, False), ctx)
    for sizes in itertools.product((4, 3, 0x24), repeat=3):
        run({'sequences': seqs(sizes)}, (al, first, pad, incl, False), ctx)


def genShift(tier):
    """Shift the file block through all offsets modulo 0x200 by adding players."""
    for players in range(0, 64 if tier == 'quick' else 128):
        for al in POW:
            yield (players, al)


def checkShift(case, ctx):
    players, al = case
    pl = tuple((None, None) for i in range(players * 2))
    for sizes in ((), (4,), (3,), (0x24,), (4, 4), (0x24, 3), (4, 0x24, 4)):
        for pad in (True, False):
            for incl in (False, True):
                for first in (None, 0x40):
                    run({'sequences': seqs(sizes), 'sequencePlayers': pl}, (al, first, pad, incl, False), ctx)


def genSymb(tier):
    for n in range(0, 9):
        for m in range(-1, 5):
            for symb in (False, True):
                yield (n, m, symb)


def checkSymb(case, ctx):
    n, m, symb = case
    for where in rs.KINDS:
        model = {'sequences': seqs((5, 6)),
                 'streams': ((None, (rs.strmFile(b'abcd' * 3), 1, 2, 3, 4, 5)),),
                 'waveArchives': ((None, (rs.swarFile([b'abcd', b'efghij']), 1)),),
                 'banks': ((None, (rs.sbnkFile([bytes(range(1, 11))] * 3), 1, (0,))),),
                 'groups': ((None, ((0, 2, 0),)),),
                 'sequencePlayers': ((None, (1, frozenset(), 0)),),
                 'streamPlayers': ((None, (1, 2)), (None, (3,))),
                 'sequenceArchives': ((None, (rs.ssarFile([(0, 1, 2, 3, 4, 5)], b'\xFF\xFF\xFF'), 1,
                                             ((None if m < 0 else 'y' * m),))),)}
        lst = list(model[where])
        lst[-1] = ('x' * n,) + lst[-1][1:]
        model[where] = tuple(lst)
        for al in (0x20, 4):
            run(model, (al, None, True, False, symb), ctx)
        alone = {where: model[where]}
        for pad in (True, False):
            for incl in (False, True):
                run(alone, (0x20, None, pad, incl, symb), ctx)
        # a second kind named as well, with a name of another length
        for other in rs.KINDS:
            if other != where:
                lst = list(model[other])
                lst[0] = ('zz',) + lst[0][1:]
                run({where: model[where], other: tuple(lst)}, (0x20, None, False, True, symb), ctx)


def genLarge(tier):
    for al in (1, 4, 0x20, 0x200):
        for first in (None, 0x100):
            for pad in (True, False):
                for incl in (False, True):
                    for sizes in ('four', 'mixed', 16, 17, 256, 300, 0x7FE0, 0x8001, 0xFFE4, 0x10000, 0x10001, 0x30007):
                        yield (al, first, pad, incl, sizes)


def checkLarge(case, ctx):
    al, first, pad, incl, what = case
    if what == 'four':
        for sizes in itertools.product((4, 3, 0x14), repeat=4):
            run({'sequences': seqs(sizes)}, (al, first, pad, incl, False), ctx)
        return
    if what == 'mixed':
        model = {'sequences': seqs((5, 0x100, 0x204)),
                 'streams': (('st', (rs.strmFile(b'abcd' * 300), 1, 2, 3, 4, 5)), ('none', None), (None, (rs.strmFile(b'abcd'), 1, 2, 3, 4, 5))),
                 'waveArchives': ((None, (rs.swarFile([b'abcd' * 100, b'efghij']), 1)), ('w', (rs.swarFile([]), 1))),
                 'banks': ((None, (rs.sbnkFile([bytes(range(1, 11))] * 30), 1, (0,))), ('b', (rs.sbnkFile([]), 2, ()))),
                 'sequenceArchives': (('q', (rs.ssarFile([(0, 1, 2, 3, 4, 5)] * 20, b'\xFF\xFF\xFF'), 1, tuple('n%d' % i for i in range(20)))),)}
        for symb in (False, True):
            run(model, (al, first, pad, incl, symb), ctx)
    elif what <= 300:
        run({'sequences': tuple(('S%d' % i, e) for i, (_, e) in enumerate(seqs([1 + i * 7 % 60 for i in range(what)])))}, (al, first, pad, incl, False), ctx)
    else:
        for sizes in ((what,), (4, what), (what, 3), (5, what, 4)):
            run({'sequences': seqs(sizes)}, (al, first, pad, incl, False), ctx)


spaces = [
    Space('large', genLarge, checkLarge, 'every list of 4 files over 3 sizes, files of all five kinds together, 16..300 files, and files of up to 0x30007 bytes at every position, for 4 alignments x all options'),
    Space('layout', genLayout, checkLayout, lambda t: 'all file alignments 1..0x200 x first-file alignments (%d) x end padding x FAT length style, with every list of up to 2 stored files over 7 sizes and 3 over 3 sizes' % (3 if t == 'quick' else 11)),
    Space('shift', genShift, checkShift, 'the stored files start at every multiple of 8 modulo 0x200, all alignments and options, 0 to 3 files'),
    Space('symbols', genSymb, checkSymb, 'names of length 0..8 on each kind, sub-sequence names of length 0..4, header size padding on and off; together with all kinds, alone, and with each second kind named'),
]
