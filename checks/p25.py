"""P25: waves and wave archives survive saving and loading."""
import itertools
from mc.core import Space, same, require, raises
from ndspy import WaveType
from ndspy.soundWave import SWAV
from ndspy.soundWaveArchive import SWAR

FIELDS = ('waveType', 'isLooped', 'sampleRate', 'time', 'loopOffset', 'totalLength', 'data')


def make(w):
    return SWAV.fromData(w[6], waveType=WaveType(w[0]), isLooped=w[1], sampleRate=w[2], time=w[3], loopOffset=w[4], totalLength=w[5])


def read(s):
    same(type(s.waveType), WaveType, 'type of the wave type')
    same(type(s.isLooped), bool, 'type of the loop flag')
    return (int(s.waveType), s.isLooped, s.sampleRate, s.time, s.loopOffset, s.totalLength, bytes(s.data))


def le(n, size):
    return n.to_bytes(size, 'little')


def info(w):
    """The wave information struct and the wave data."""
    return bytes([w[0], w[1]]) + le(w[2], 2) + le(w[3], 2) + le(w[4], 2) + le(w[5] - w[4], 4) + w[6]


def swavFile(w):
    body = info(w)
    return b'SWAV\xFF\xFE\0\1' + le(0x18 + len(body), 4) + b'\x10\0\1\0DATA' + le(8 + len(body), 4) + body


def swarFile(ws):
    offs, body = b'', b''
    for w in ws:
        offs += le(0x3C + 4 * len(ws) + len(body), 4)
        body += info(w)
    rest = bytes(32) + le(len(ws), 4) + offs + body
    return b'SWAR\xFF\xFE\0\1' + le(0x18 + len(rest), 4) + b'\x10\0\1\0DATA' + le(8 + len(rest), 4) + rest


def one(w, ctx):
    want = swavFile(w)
    s = make(w)
    same(read(s), w, 'new wave')
    same(bytes(s.save()), want, 'saved wave')
    same(read(s), w, 'wave after saving')
    for extra in (b'', b'\0\xFFjunk'):
        back = SWAV(want + extra)
        same(read(back), w, 'loaded wave')
        same(bytes(back.save()), want, 'saved again')
    ctx.step(4)


def many(ws, ctx, unk=0):
    want = swarFile(ws)
    out = SWAR.fromWaves([make(w) for w in ws], unk).save()
    same((bytes(out[0]), out[1]), (want, unk), 'saved archive')
    for extra in (b'', b'\0' * 5):
        back = SWAR(want + extra, unk)
        same(back.unk02, unk, 'unk02')
        same([read(s) for s in back.waves], list(ws), 'loaded archive')
        again = back.save()
        same((bytes(again[0]), again[1]), (want, unk), 'saved again')
    ctx.step(4)


def W(typ=0, loop=False, rate=8000, time=2094, lo=0, total=None, data=b'12345678'):
    return (typ, loop, rate, time, lo, len(data) // 4 if total is None else total, data)


U16 = list(range(0, 65536, 127)) + [1, 255, 256, 32767, 32768, 65535]


def genFields(tier):
    for typ in range(3):
        for loop in (False, True):
            for n in range(0, 33):
                yield W(typ, loop, data=bytes((i * 7 + 1) % 256 for i in range(n)))
    for f in ('rate', 'time', 'lo'):
        for v in (range(65536) if tier != 'quick' else U16):
            yield W(**{f: v, 'total': v + 3})
    for lo in (0, 1, 255, 65535):
        for total in (0, 1, 2, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1):
            if total >= lo:
                yield W(1, True, lo=lo, total=total)
    for n in (255, 256, 257, 65536, 70001):
        yield W(data=b'x' * n)
    for v in range(256):
        yield W(data=bytes([v]) * 5)
    for n in (1, 2, 3, 4, 7, 16, 64, 256, 1000):
        for f in (bytes(n), b'\xFF' * n, bytes(n) + b'x', b'x' + bytes(n), b'SWAV' + bytes(n), b'SWAVSWARDATA' * n):
            yield W(2, True, data=f)
    yield W(1, True, 65535, 65535, 65535, 65535 + (1 << 32) - 1)


def checkFields(case, ctx):
    w = tuple(case)
    one(w, ctx)
    many((w,), ctx)
    many((W(), w, W(2, True, lo=1)), ctx)
    ctx.state(w)


POOL = [W(), W(1, True, lo=1), W(2, False, data=b''), W(0, True, data=b'abc'), W(2, True, 1, 2, 3, 4, b'\0' * 40), W(1, data=b'1')]


def genArchives(tier):
    for n in range(0, 5 if tier == 'quick' else 7):
        yield from itertools.product(range(len(POOL)), repeat=n)


def checkArchives(case, ctx):
    many(tuple(POOL[i] for i in case), ctx, len(case))
    ctx.state(case)


# The same wave object in several places
def genTwice(tier):
    for n in range(2, 6):
        for pat in itertools.product(range(n), repeat=n):
            if all(p <= max(pat[:i], default=-1) + 1 for i, p in enumerate(pat)) and len(set(pat)) < n:
                for shift in range(len(POOL)):
                    yield (pat, shift)


def checkTwice(case, ctx):
    pat, shift = case
    objs = [make(POOL[(i + shift) % len(POOL)]) for i in range(len(pat))]
    ws = [POOL[(i + shift) % len(POOL)] for i in pat]
    a = SWAR.fromWaves([objs[i] for i in pat], 3)
    for _ in range(2):
        same(bytes(a.save()[0]), swarFile(ws), 'saved archive')
    same([read(s) for s in SWAR(bytes(a.save()[0])).waves], ws, 'loaded archive')
    ctx.step(3)
    ctx.state(case)


def genCounts(tier):
    for n in (7, 8, 15, 16, 17, 100, 127, 128, 129, 255, 256, 257, 1000, 5000):
        yield n
    yield (0x110000, 0)
    yield (0x1100003, 1)
    for size in (0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x20003):
        for where in range(4):
            yield (size, where)


def checkCounts(n, ctx):
    if isinstance(n, tuple):
        size, where = n
        lst = [W(i % 3, bool(i % 2), 1000 + i, i, i, 50 + i, bytes([i]) * (5 + i)) for i in range(4)]
        lst[where] = W(2, True, 32000, 523, 4, size // 4, (bytes(i * 7 % 253 for i in range(253 * 16)) * (size // 4048 + 1))[:size])
        many(tuple(lst), ctx)
        one(lst[where], ctx)
        ctx.state(n)
        return
    many(tuple(W(i % 3, bool(i % 2), i + 1, i, i % 5, i, bytes([i % 256]) * (i % 11)) if i % 5 <= i else W() for i in range(n)), ctx)
    ctx.state(n)


# Derived fields, and the loop that is out of range
def genUpdate(tier):
    for typ in range(3):
        for n in range(0, 20):
            yield ('length', typ, n)
    for block in range(0, 256):
        yield ('time', block)
    for lo, total in ((1, 0), (5, 4), (65535, 65534)):
        yield ('bad', lo, total)
    yield ('defaults',)


def checkUpdate(case, ctx):
    ctx.state(case)
    ctx.step()
    if case[0] == 'length':
        s = make(W(case[1], total=9, data=b'z' * case[2]))
        s.loopOffset = 0
        same(SWAV(s.save()).totalLength, 9, 'total length is not touched by default')
        same(SWAV(s.save(updateTotalLength=True)).totalLength, case[2] // 4, 'updated total length')
        same((s.totalLength, s.time), (case[2] // 4, 2094), 'attributes after the update')
    elif case[0] == 'time':
        s = make(W())
        for rate in range(max(256, case[1] * 256), case[1] * 256 + 256):
            s.sampleRate = rate
            s.time = 1
            same(SWAV(s.save()).time, 1, 'time is not touched by default')
            same(SWAV(s.save(updateTime=True)).time, 16756991 // rate, 'updated time for %d Hz' % rate)
            same((s.time, s.totalLength), (16756991 // rate, 2), 'attributes after the update')
            ctx.step()
    elif case[0] == 'bad':
        s = make(W(lo=case[1], total=case[2]))
        raises(ValueError, lambda: s.save(), 'saving a wave that loops past its end')
        raises(ValueError, lambda: SWAR.fromWaves([s]).save(), 'saving an archive with such a wave')
    else:
        same(read(SWAV()), (0, False, 8000, 0, 0, 0, b''), 'defaults')
        same(read(SWAV.fromData()), (0, False, 8000, 0, 0, 0, b''), 'defaults')
        same(SWAR().waves, [], 'new archive')
        one((0, False, 8000, 0, 0, 0, b''), ctx)


# Edits of loaded archives
def genEdit(tier):
    for lst in itertools.product(range(4), repeat=3):
        for i in range(3):
            for j in range(len(POOL)):
                yield (lst, 'set', i, j)
                yield (lst, 'ins', i, j)
            for j in range(3):
                yield (lst, 'mov', i, j)
            yield (lst, 'del', i, 0)
            yield (lst, 'data', i, 0)


def checkEdit(case, ctx):
    lst, op, i, j = case
    model = [POOL[k] for k in lst]
    a = SWAR(swarFile(model))
    if op == 'set':
        a.waves[i] = make(POOL[j])
        model[i] = POOL[j]
    elif op == 'ins':
        a.waves.insert(i, make(POOL[j]))
        model.insert(i, POOL[j])
    elif op == 'mov':
        a.waves.insert(j, a.waves.pop(i))
        model.insert(j, model.pop(i))
    elif op == 'del':
        del a.waves[i]
        del model[i]
    else:
        a.waves[i].data = b'NEWDATA!!'
        model[i] = model[i][:6] + (b'NEWDATA!!',)
    same(bytes(a.save()[0]), swarFile(model), 'after the edit')
    ctx.step()
    ctx.state(case)


spaces = [
    Space('twice', genTwice, checkTwice, 'archives of 2 to 5 waves with every pattern of one wave object in several places'),
    Space('fields', genFields, checkFields, 'all data lengths 0..32, zero, 0xFF and padded contents of up to 1000 bytes x formats x loop flag; %s values of the 16-bit fields; loop/length boundaries' % len(U16)),
    Space('archives', genArchives, checkArchives, lambda tier: 'all archives of up to %d of 6 waves' % (4 if tier == 'quick' else 6)),
    Space('counts', genCounts, checkCounts, 'archives of 7..5000 waves; waves of up to 0x20003 bytes at each of four positions, and of 1 and 17 MiB'),
    Space('update', genUpdate, checkUpdate, 'updateTime for all sample rates 256..65535, updateTotalLength for lengths 0..19'),
    Space('edit', genEdit, checkEdit, 'every single edit of every loaded 3-wave archive over 4 waves'),
]
