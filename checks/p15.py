"""P15: BMG script instructions, labels and scripts survive saving and loading."""
import itertools
import struct
from mc.core import Space, same, require, raises
from mc import ref_bmg as rb
from ndspy.bmg import BMG, Message

ZERO = b'\0' * 8
INSTS = (b'\1\2\3\4\5\6\7\x08', ZERO, b'\0\0\0\0\0\0\0\1', b'\xff' * 8)
LABELS = ((0, 0), (1, 2), (0, 5), (3, 0), (-1, -1))
SCRIPTS = ((0, 0), (1, 2), (0xF8F9FAFB, 0xFCFD), (0, 0x100))


def strip(seq, zero):
    seq = list(seq)
    while seq and seq[-1] == zero:
        seq.pop()
    return seq


class Saver:
    def __init__(self, v):
        self.v = v

    def save(self):
        return self.v


def roundTrip(insts, labels, scripts, se, ctx, msgs=()):
    b = BMG.fromMessages([Message(b'', m) for m in msgs], list(insts), list(labels), list(scripts), id=9)
    b.endianness = se
    blob = b.save()
    same((b.instructions, b.labels, b.scripts), (list(insts), list(labels), list(scripts)), 'script data of the object after saving')
    rse, secs = rb.sections(blob)
    same(rse, se, 'endianness')
    want = [b'INF1', b'DAT1']
    if insts or labels:
        want.append(b'FLW1')
    if scripts:
        want.append(b'FLI1')
    same([m for m, o, l in secs], want, 'sections')
    d = {m: (o, l) for m, o, l in secs}
    if b'FLW1' in d:
        o, l = d[b'FLW1']
        ni, nl = struct.unpack_from(se + 'HH', blob, o + 8)
        require(ni >= len(insts) and nl >= len(labels) and 16 + 8 * ni + 3 * nl <= l, 'FLW1 counts %d, %d', ni, nl)
        got = [bytes(blob[o + 16 + 8 * i:o + 24 + 8 * i]) for i in range(ni)]
        same(got, list(insts) + [ZERO] * (ni - len(insts)), 'stored instructions')
        lo = o + 16 + 8 * ni
        idx = struct.unpack_from(se + '%dh' % nl, blob, lo)
        ids = struct.unpack_from(se + '%db' % nl, blob, lo + 2 * nl)
        same(list(zip(ids, idx)), list(labels) + [(0, 0)] * (nl - len(labels)), 'stored labels')
    if b'FLI1' in d:
        o, l = d[b'FLI1']
        n, e = struct.unpack_from(se + 'HH', blob, o + 8)
        same((n, e), (len(scripts), 8), 'FLI1 count and entry size')
        same([struct.unpack_from(se + 'I', blob, o + 16 + 8 * i)[0] for i in range(n)], [s[0] for s in scripts], 'stored script IDs')
    for r in range(2):
        back = BMG(blob)
        same(strip(map(bytes, back.instructions), ZERO), strip(insts, ZERO), 'loaded instructions')
        same(strip(back.labels, (0, 0)), strip(labels, (0, 0)), 'loaded labels')
        same(list(back.scripts), list(scripts), 'loaded scripts')
        same(back.endianness, se, 'loaded endianness')
        same([m.stringParts for m in back.messages], [[m] for m in msgs], 'loaded messages')
        same(back.id, 9, 'loaded ID')
        if strip(insts, ZERO) == list(insts) and strip(labels, (0, 0)) == list(labels):
            same(back.save(), blob, 'saving the loaded file')
        blob = back.save()
        ctx.step(3)
    ctx.state((tuple(insts), tuple(labels), tuple(scripts), se))


def genInsts(tier):
    for se in '<>':
        for n in range(0, 6 if tier == 'quick' else 8):
            for insts in itertools.product(INSTS if n < 5 else INSTS[:2], repeat=n):
                yield (se, insts)


def checkInsts(case, ctx):
    se, insts = case
    roundTrip(insts, (), (), se, ctx)
    roundTrip(insts, ((1, 2), (0, 0), (2, 3)), ((5, 6),), se, ctx, ('hello',))
    b = BMG(); b.endianness = se; b.instructions = list(insts)
    c = BMG(); c.endianness = se; c.instructions = [Saver(i) for i in insts]
    same(c.save(), b.save(), 'instructions given as objects')
    ctx.outcome('%d instructions' % len(insts))


def genLabels(tier):
    for se in '<>':
        for n in range(0, 5):
            for labels in itertools.product(LABELS, repeat=n):
                yield (se, labels)
        for n in range(5, 20):
            for zeros in range(0, n):
                yield (se, tuple((0, 0) if i == zeros else (1 + i, i) for i in range(n)))


def checkLabels(case, ctx):
    se, labels = case
    roundTrip((), labels, (), se, ctx)
    roundTrip((INSTS[0], ZERO, INSTS[3]), labels, ((1, 2),), se, ctx)
    ctx.outcome('%d labels' % len(labels))


def genScripts(tier):
    for se in '<>':
        for n in range(0, 5):
            for scripts in itertools.product(SCRIPTS, repeat=n):
                yield (se, scripts)
        for n in (5, 6, 7, 8, 9, 100):
            yield (se, tuple((i, i * 3) for i in range(n)))


def checkScripts(case, ctx):
    se, scripts = case
    roundTrip((), (), scripts, se, ctx)
    roundTrip(INSTS[:1], (), scripts, se, ctx, ('x', 'y'))
    ctx.outcome('%d scripts' % len(scripts))


def genValues(tier):
    for se in '<>':
        for b in range(32):
            yield (se, 'scriptid', 1 << b)
        for b in range(16):
            yield (se, 'scriptindex', 1 << b)
        for v in range(-128, 128):
            yield (se, 'labelid', v)
        for b in range(15):
            yield (se, 'labelindex', 1 << b)
            yield (se, 'labelindex', -1 - (1 << b))
        yield (se, 'labelindex', -0x8000)
        for i in range(8):
            for v in (1, 0x80, 0xFF):
                yield (se, 'inst', bytes(v if k == i else 0 for k in range(8)))
        for n in (0, 1, 7, 9, 16):
            yield (se, 'badinst', n)


def checkValues(case, ctx):
    se, kind, v = case
    ctx.outcome(kind)
    if kind == 'badinst':
        b = BMG(); b.endianness = se; b.instructions = [INSTS[0], b'z' * v]
        raises(ValueError, b.save, 'saving an instruction of %d bytes' % v)
        b.instructions = [Saver(b'z' * v), INSTS[0]]
        raises(ValueError, b.save, 'saving an instruction object of %d bytes' % v)
        ctx.step()
        return
    i = ((v,) if kind == 'inst' else (INSTS[0],))
    l = ((v, 1),) if kind == 'labelid' else ((1, v),) if kind == 'labelindex' else ()
    s = ((v, 3),) if kind == 'scriptid' else ((3, v),) if kind == 'scriptindex' else ()
    roundTrip(i, l, s, se, ctx)
    # In the last place of lists with and without padding, beside zeros
    for n in range(9):
        if kind == 'inst':
            roundTrip(INSTS[:1] * n + i, (), (), se, ctx)
        elif l:
            l = ((v, 0),) if kind == 'labelid' else ((0, v),)
            roundTrip(i, ((4, 4),) * n + l, (), se, ctx)
            roundTrip((), l + ((0, 0),) * n + l, (), se, ctx)
        else:
            s = ((v, 0),) if kind == 'scriptid' else ((0, v),)
            roundTrip((), (), ((4, 4),) * n + s, se, ctx)
            roundTrip(i, (), s + ((0, 0),) * n, se, ctx)


def genLarge(tier):
    for se in '<>':
        for n in (20, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 40000):
            for kind in ('instructions', 'labels', 'scripts'):
                for zeros in ('none', 'start', 'middle', 'most', 'falling', 'equal'):
                    if kind != 'scripts' or zeros in ('none', 'falling', 'equal'):
                        yield (se, n, kind, zeros)


def checkLarge(case, ctx):
    se, n, kind, zeros = case
    gone = {'none': (), 'start': range(n // 3), 'middle': range(n // 3, n // 2), 'most': range(n - 1)}.get(zeros, ())
    i, l, s = (INSTS[0],), ((1, 2),), ((3, 4),)
    if kind == 'instructions':
        i = tuple(ZERO if k in gone else struct.pack('<HIH', k + 1 & 0xFFFF, k * 7, 5) for k in range(n))
    elif kind == 'labels':
        l = tuple((0, 0) if k in gone else (k % 120 + 1, k % 30000 - 9000) for k in range(n))
    else:
        s = tuple((k * 70001 & 0xFFFFFFFF, k & 0xFFFF) for k in range(n))
    if zeros == 'falling':
        i, l, s = i[::-1], l[::-1], s[::-1]
    elif zeros == 'equal':
        i, l, s = i[:1] * len(i), l[:1] * len(l), s[1:2] * len(s)
    roundTrip(i, l, s, se, ctx, ('text',))
    ctx.outcome(kind)


spaces = [
    Space('large', genLarge, checkLarge, '20..40000 instructions, labels or scripts, with zeroes at the start, in the middle, everywhere but at the end, in falling order, all equal'),
    Space('instructions', genInsts, checkInsts, 'every list of up to 4 instructions from 4 values incl. all-zero (longer ones from 2), both endiannesses, alone and with other script data'),
    Space('labels', genLabels, checkLabels, 'every list of up to 4 labels from 5 values incl. (0, 0) and negative; up to 19 labels with a zero at every position'),
    Space('scripts', genScripts, checkScripts, 'every list of up to 4 scripts from 4 values, and longer lists'),
    Space('values', genValues, checkValues, 'every bit of every field, every label BMG ID, in the last place of lists of 1..9; wrong instruction lengths'),
]
