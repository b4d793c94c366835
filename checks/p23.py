"""P23: instrument banks keep every instrument through save and load."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_bank as rb
from ndspy.soundBank import SBNK, NoteDefinition, SingleNoteInstrument
import ndspy.soundBank as sb


def N(i, typ=1, **kw):
    n = [i, i % 4, 60, 127 - i % 100, 126, 125, 124, 64, typ]
    return tuple(n)


INST = [None, ('S', N(0)), ('S', N(1, 2)), ('S', N(0, 3)), ('S', N(7, 15)), ('R', 10, (N(2),)), ('R', 0, (N(3, 2), N(4, 3), N(3, 2))),
        ('G', ((127, N(5)),)), ('G', ((30, N(6, 2)), (60, N(5)))),
        ('G', tuple((15 * k + 15, N(k, k % 4)) for k in range(8))), ('G', ((0, N(5)), (64, N(6)))), ('R', 60, ())]


def roundTrip(insts, waves, unk, ctx):
    b = SBNK.fromInstruments([rb.makeInst(i) for i in insts], unk, waves)
    out = b.save()
    same(out[1], unk, 'unk02')
    want = list(waves) if waves is not None else []
    while want and want[-1] is None:
        want.pop()
    same(list(out[2]), want, 'wave archive list')
    same(rb.decode(out[0]), list(insts), 'independent reader')
    back = SBNK(*out)
    same([rb.readInst(i) for i in back.instruments], list(insts), 'loaded instruments')
    same([None if i is None else i.type for i in back.instruments], [None if i is None else rb.kind(i) for i in insts], 'types')
    same((back.unk02, list(back.waveArchiveIDs)), (unk, want), 'loaded attributes')
    same(back.inaccessibleInstruments, {}, 'unreachable instruments')
    again = back.save()
    same((bytes(again[0]), again[1], list(again[2])), (bytes(out[0]), unk, want), 'saved again')
    ctx.step(3)


def genLists(tier):
    for n in range(0, 4):
        yield from itertools.product(range(len(INST)), repeat=n)
    if tier != 'quick':
        yield from itertools.product(range(len(INST)), repeat=4)
    else:
        yield from itertools.product((0, 1, 3, 6, 8), repeat=4)
        yield from itertools.product((0, 2, 5, 9), repeat=5)


def checkLists(case, ctx):
    roundTrip([INST[i] for i in case], [0, 5], 3, ctx)
    ctx.state(case)


def genFields(tier):
    U16 = (0, 1, 2, 255, 256, 257, 0x1234, 32767, 32768, 65534, 65535)
    for where in 'SRG':
        for f in range(9):
            if f in (0, 1):
                vals = U16
            elif f == 8:
                vals = range(1, 16) if where == 'S' else list(range(0, 20)) + list(U16)
            else:
                vals = range(256)
            for v in vals:
                yield (where, f, v)


def checkFields(case, ctx):
    where, f, v = case
    n = list(N(9))
    n[f] = v
    n = tuple(n)
    inst = {'S': ('S', n), 'R': ('R', 5, (N(1), n)), 'G': ('G', ((3, n), (9, N(2))))}[where]
    roundTrip([None, inst, ('S', N(3))], [1], 0, ctx)
    # editing the attributes of an existing note does the same
    d = rb.makeNote(N(9))
    name = ('waveID', 'waveArchiveIDID', 'pitch', 'attack', 'decay', 'sustain', 'release', 'pan', 'type')[f]
    setattr(d, name, v)
    same(rb.readNote(d), n, 'edited note')
    same(bytes(d.save()), rb.noteBytes(n, False), 'note data')
    same(bytes(d.saveWithType()), rb.noteBytes(n, True), 'note data with type')
    same(rb.readNote(NoteDefinition.fromData(d.save(), n[8])), n, 'note from data')
    same(rb.readNote(NoteDefinition.fromDataWithType(d.saveWithType())), n, 'note from data with type')
    if f == 0:
        same(d.dutyCycle, v, 'duty cycle')
        d.dutyCycle = 5
        same(d.waveID, 5, 'wave ID after setting the duty cycle')
    ctx.step(4)
    ctx.state(case)


def genRanges(tier):
    for first in range(0, 128):
        for n in range(1, 129 - first):
            if tier != 'quick' and n <= 128 or n in (1, 2, 3, 12, 13, 60, 127, 128) or first in (0, 1, 60, 127) or first + n == 128:
                yield (first, n)
    for first in (0, 1, 60, 127, 128, 200, 255):
        for n in (1, 2, 56, 129, 196, 255, 256):
            if first + n <= 256:
                yield (first, n)


def checkRanges(case, ctx):
    first, n = case
    roundTrip([('R', first, tuple(N(k, 1 + k % 3) for k in range(n))), ('S', N(1))], None, 0, ctx)
    ctx.state(case)


def genRegions(tier):
    pts = (0, 1, 2, 59, 60, 126, 127, 128, 255)
    for n in range(1, 4):
        for ends in itertools.product(pts, repeat=n):
            if 0 not in ends[1:]:
                yield ends
    for n in range(1, 9):
        yield tuple(range(1, n + 1))
        yield tuple(127 - 8 + k for k in range(n))
        yield tuple([127] * n)
        yield (0,) + tuple(range(10, 10 + n - 1))


def checkRegions(case, ctx):
    roundTrip([('G', tuple((e, N(k, k)) for k, e in enumerate(case))), ('S', N(2, 3)), ('R', 3, (N(2),))], (), 1, ctx)
    ctx.state(case)


def genWaves(tier):
    yield None
    for n in range(0, 5):
        yield from itertools.product((None, 0, 7, 65535), repeat=n)
    for n in (5, 6, 8, 20, 300):
        for last in (None, 3):
            yield tuple(range(n - 1)) + (last,)


def checkWaves(case, ctx):
    given = None if case is None else list(case)
    roundTrip([('S', N(1))], given, 65535, ctx)
    if given is not None:
        same(given, list(case), 'the list passed in')
    ctx.state(case)


def genLimits(tier):
    for n in (9, 10, 16):
        yield n


def checkLimits(n, ctx):
    i = rb.makeInst(('G', tuple((k + 1, N(k)) for k in range(n))))
    raises(ValueError, lambda: SBNK.fromInstruments([i]).save(), 'saving a regional instrument with %d regions' % n)
    ctx.step()


# Editing a loaded bank: any instrument is replaced, removed or inserted
def genEdit(tier):
    base = range(len(INST))
    for lst in itertools.product((0, 1, 3, 5, 8), repeat=3):
        for pos in range(3):
            for new in range(len(INST)):
                yield (lst, 'set', pos, new)
            yield (lst, 'del', pos, 0)
            yield (lst, 'ins', pos, 7)


def checkEdit(case, ctx):
    lst, op, pos, new = case
    insts = [INST[i] for i in lst]
    b = SBNK(*SBNK.fromInstruments([rb.makeInst(i) for i in insts], 0, [1]).save())
    if op == 'set':
        b.instruments[pos] = rb.makeInst(INST[new])
        insts[pos] = INST[new]
    elif op == 'del':
        del b.instruments[pos]
        del insts[pos]
    else:
        b.instruments.insert(pos, rb.makeInst(INST[new]))
        insts.insert(pos, INST[new])
    out = b.save()
    same(rb.decode(out[0]), insts, 'independent reader')
    same([rb.readInst(i) for i in SBNK(*out).instruments], insts, 'loaded again')
    ctx.step(2)
    ctx.state(case)


def genLarge(tier):
    for n in (15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 400, 1000, 2000):
        for how in ('same', 'distinct', 'sparse', 'last', 'mixed'):
            yield (n, how)
    for n in (2, 10, 21, 22, 39, 40, 41):
        for how in ('first', 'end'):
            yield (n, 'ranges', how)


def checkLarge(case, ctx):
    n, how = case[:2]
    def num(i):
        return (i & 0xFFFF, i % 4, i % 128, i * 3 % 128, 126, 125, 124, 64, 1)
    if how == 'same':
        insts = [('S', N(1))] * n
    elif how == 'distinct':
        insts = [('S', num(i)) for i in range(n)]
    elif how == 'sparse':
        insts = [('S', num(i)) if i % 7 == 3 or i == n - 1 else None for i in range(n)]
    elif how == 'last':
        insts = [None] * (n - 1) + [('R', 3, (N(2), N(3)))]
    elif how == 'mixed':
        insts = [(('S', num(i)), ('R', i % 100, (num(i), num(1))), ('G', ((60, num(i)), (127, num(2)))), None)[i % 4] for i in range(min(n, 1000))]
    else:
        insts = [('R', 0, tuple(num(i if (k == 0) == (case[2] == 'first') and k in (0, 127) else 1) for k in range(128))) for i in range(n)]
    roundTrip(insts, [1, 2, 3, 4], 0, ctx)
    ctx.state(case)


spaces = [
    Space('large', genLarge, checkLarge, 'banks of 15..2000 instruments in five patterns; up to 41 ranges of 128 notes (64 KiB) that differ in their first or last note only'),
    Space('lists', genLists, checkLists, lambda tier: 'all lists of up to 3 (%s) of 12 instruments (missing, single, range, regional)' % (
        'and 4 of 5, 5 of 4' if tier == 'quick' else 'and 4')),
    Space('fields', genFields, checkFields, 'all byte values and 11 boundary 16-bit values of each note field in each instrument kind'),
    Space('ranges', genRanges, checkRanges, 'range instruments: first pitches 0..127 x lengths, and ranges past pitch 127'),
    Space('regions', genRegions, checkRegions, 'all lists of up to 3 region ends over 9 values, 1..8 regions'),
    Space('waves', genWaves, checkWaves, 'all wave archive lists of up to 4 over 3 IDs and None, and lists of 5..300 IDs'),
    Space('edit', genEdit, checkEdit, 'every single edit of every loaded 3-instrument bank over 5 instruments'),
    Space('limits', genLimits, checkLimits, 'regional instruments with more than 8 regions'),
]
assumptions = ['regional instruments have at least one region, and only the first one may end at pitch 0',
               'a bank is smaller than 64 KiB']
