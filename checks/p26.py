"""P26: streams survive saving and loading with all channels intact."""
import itertools
from mc.core import Space, same, require, raises
from ndspy import WaveType
from ndspy.soundStream import STRM

ATTRS = ('waveType', 'isLooped', 'unk03', 'sampleRate', 'time', 'loopOffset', 'samplesPerBlock', 'samplesInLastBlock',
         'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44')
DEFAULT = (0, False, 0, 8000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
OUTER = ('unk02', 'volume', 'priority', 'playerID', 'unk07')


def le(n, size):
    return n.to_bytes(size, 'little')


def strmFile(a, channels):
    """a: values of ATTRS; channels: tuple of tuples of equally long blocks."""
    blocks = len(channels[0]) if channels else 0
    per = len(channels[0][0]) if blocks else 0
    last = len(channels[0][-1]) if blocks else 0
    if a[0] == 2 and blocks == 1:
        per -= 4
        last -= 4
    body = bytearray()
    for b in range(blocks):
        for c in channels:
            body += c[b]
        body += bytes(-len(body) % 4)
    body = bytes(body)
    samples = (blocks - 1) * a[6] + a[7] if blocks else 0
    head = (bytes([a[0], a[1], len(channels), a[2]]) + le(a[3], 2) + le(a[4], 2) + le(a[5], 4) + le(samples, 4) + le(0x68, 4)
            + le(blocks, 4) + le(per, 4) + le(a[6], 4) + le(last, 4) + le(a[7], 4) + b''.join(le(v, 4) for v in a[8:]))
    return (b'STRM\xFF\xFE\0\1' + le(0x68 + len(body), 4) + b'\x10\0\2\0HEAD' + le(0x50, 4) + head
            + b'DATA' + le(8 + len(body), 4) + body)


def read(s):
    same(type(s.waveType), WaveType, 'type of the wave type')
    return (tuple(int(getattr(s, n)) if n == 'waveType' else getattr(s, n) for n in ATTRS),
            tuple(tuple(bytes(b) for b in c) for c in s.channels), tuple(getattr(s, n) for n in OUTER))


def roundTrip(a, channels, outer, ctx):
    s = STRM.fromChannels([list(c) for c in channels], *outer)
    for n, v in zip(ATTRS, a):
        setattr(s, n, WaveType(v) if n == 'waveType' else v)
    want = strmFile(a, channels)
    out = s.save()
    same(bytes(out[0]), want, 'saved stream')
    same(tuple(out[1:]), tuple(outer), 'outer attributes')
    for extra in (b'', b'\0junk'):
        back = STRM(want + extra, *outer)
        same(read(back), (tuple(a), channels, tuple(outer)), 'loaded stream')
        again = back.save()
        same((bytes(again[0]),) + tuple(again[1:]), (want,) + tuple(outer), 'saved again')
    ctx.step(4)


def chans(n, blocks, size, last):
    """Distinct bytes everywhere."""
    out = []
    k = 0
    for c in range(n):
        bl = []
        for b in range(blocks):
            m = last if b == blocks - 1 else size
            bl.append((bytes((k + i) % 251 + 1 for i in range(251)) * (m // 251 + 1))[:m])
            k += m + 17
        out.append(tuple(bl))
    return tuple(out)


OUT = (0, 127, 64, 0, 0)


# Special contents of a block
FILLS = {'zero': lambda b, last: bytes(len(b)), 'ff': lambda b, last: b'\xFF' * len(b), 'lead': lambda b, last: bytes(len(b) - 1) + b[-1:],
         'trail': lambda b, last: b[:1] + bytes(len(b) - 1), 'last': lambda b, last: bytes(len(b)) if last else b}


def genShape(tier):
    top = 10 if tier == 'quick' else 20
    for typ in range(3):
        for n in range(1, 5):
            for blocks in range(0, 5):
                sizes = range(0, top) if blocks > 1 else (0,)
                lasts = range(0, top) if blocks else (0,)
                for size in sizes:
                    for last in lasts:
                        if typ == 2 and blocks == 1 and last < 4:
                            continue
                        yield (typ, n, blocks, size, last)
    for n, blocks, size, last in ((2, 100, 512, 512), (2, 300, 512, 30), (8, 3, 512, 1), (255, 2, 4, 3), (1, 1, 0, 70000), (16, 1000, 16, 5)):
        for typ in range(3):
            yield (typ, n, blocks, size, last)
    for typ in range(3):
        yield (typ, 0, 0, 0, 0)
        yield (typ, 2, 0x88, 0x2000, 0x1003)
        yield (typ, 1, 3, 0x600000, 0x500001)
        yield (typ, 2, 5000, 4, 3)
        yield (typ, 1, 70000, 4, 4)
        for n in (1, 2, 3):
            for blocks in (1, 2, 4):
                for size in (4, 5, 16, 64, 300):
                    for last in (4, 7, 16, 64, 300):
                        for fill in ('zero', 'ff', 'lead', 'trail', 'last'):
                            yield (typ, n, blocks, size, last, fill)


def checkShape(case, ctx):
    typ, n, blocks, size, last = case[:5]
    a = list(DEFAULT)
    a[0] = typ
    a[6], a[7] = 1000, 300
    ch = chans(n, blocks, size, last)
    if len(case) > 5:
        ch = tuple(tuple(FILLS[case[5]](b, i == blocks - 1) for i, b in enumerate(c)) for c in ch)
    roundTrip(tuple(a), ch, OUT, ctx)
    ctx.state(case)


def genAttrs(tier):
    for i, n in enumerate(ATTRS):
        if n == 'waveType':
            vals = range(3)
        elif n == 'isLooped':
            vals = (False, True)
        elif n == 'unk03':
            vals = range(256)
        elif n in ('sampleRate', 'time'):
            vals = list(range(0, 65536, 255)) + [1, 256, 32767, 32768]
        elif n.startswith('samples'):
            vals = [0, 1, 255, 256, 1016, 65535, 65536, 1 << 24, 1 << 30]
        else:
            vals = [0, 1, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1]
        for v in vals:
            yield ('in', i, v)
    for i, n in enumerate(OUTER):
        for v in (0, 1, 127, 255) + ((65535,) if n == 'unk02' else ()):
            yield ('out', i, v)


def checkAttrs(case, ctx):
    where, i, v = case
    a, o = list(DEFAULT), list(OUT)
    (a if where == 'in' else o)[i] = v
    for n, blocks in ((2, 1), (2, 3), (1, 2), (0, 0)):
        roundTrip(tuple(a), chans(n, blocks, 8, 5), tuple(o), ctx)
    ctx.state(case)


# Blocks or channels that do not fit together are reported
def genBad(tier):
    shapes = list(itertools.product((0, 3, 4), repeat=2))
    for n in range(1, 4):
        for blocks in itertools.product(range(0, 4), repeat=n):
            yield ('counts', blocks)
    for sizes in itertools.product((3, 4, 5), repeat=4):
        yield ('sizes', sizes)
    for sizes in itertools.product((3, 4), repeat=6):
        yield ('sizes3', sizes)


def checkBad(case, ctx):
    kind, x = case
    if kind == 'counts':
        ch = [[b'1234'] * k for k in x]
    elif kind == 'sizes':
        ch = [[b'z' * x[0], b'z' * x[1]], [b'z' * x[2], b'z' * x[3]]]
    else:
        ch = [[b'z' * v for v in x[:3]], [b'z' * v for v in x[3:]]]
    nb = len(ch[0])
    ok = all(len(c) == nb for c in ch)
    if ok and nb:
        ok = all(len(b) == len(ch[0][0]) for c in ch for b in c[:-1]) and all(len(c[-1]) == len(ch[0][-1]) for c in ch)
    s = STRM.fromChannels(ch)
    if ok:
        same(bytes(s.save()[0]), strmFile(DEFAULT, tuple(tuple(c) for c in ch)), 'saved')
        ctx.outcome('saved')
    else:
        raises(ValueError, lambda: s.save(), 'saving channels that do not match: %s' % ch)
        ctx.outcome('rejected')
    ctx.step()
    ctx.state(case)


def genTime(tier):
    return range(256)


def checkTime(block, ctx):
    s = STRM()
    for rate in range(max(8, block * 256), block * 256 + 256):
        s.sampleRate, s.time = rate, 1
        same(STRM(*s.save()).time, 1, 'time is not touched by default')
        same(STRM(*s.save(updateTime=True)).time, 16756991 // (32 * rate), 'updated time for %d Hz' % rate)
        ctx.step()
    same(read(STRM()), (DEFAULT, (), OUT), 'defaults')
    ctx.state(block)


spaces = [
    Space('shape', genShape, checkShape, lambda tier: 'formats x 1..4 channels x 0..4 blocks x all block and last-block lengths below %d, 33 larger streams (up to 16 MiB, 70000 blocks), zero, 0xFF and zero-padded contents' % (10 if tier == 'quick' else 20)),
    Space('attributes', genAttrs, checkAttrs, 'boundary values of every attribute x 4 shapes'),
    Space('mismatch', genBad, checkBad, 'all block counts 0..3 of up to 3 channels; all sizes of 2x2 and 2x3 blocks'),
    Space('time', genTime, checkTime, 'updateTime for all sample rates 8..65535'),
]
assumptions = ['a single ADPCM block is at least 4 bytes long (it starts with a header)']
