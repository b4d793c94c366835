"""P19: every sequence event encodes and decodes exactly."""
from mc.core import Space, same, require, raises
from mc import ref_seq as rs
import ndspy.soundSequence as ss
from ndspy.soundSequence import readSequenceEvents, saveSequenceEvents

BATCH = 512
S16 = (-32768, -32767, -257, -256, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32767)
DUR = (0, 1, 2, 126, 127, 128, 129, 255, 256, 8191, 16383, 16384, 16385, 65535, 65536,
       2097151, 2097152, 2097153, 16777216, 268435455, 268435456, 1 << 32, (1 << 35) - 1)
BYTES = (0, 1, 2, 63, 64, 126, 127, 128, 129, 254, 255)


def batches(kind, arg, items):
    n = 0
    for i in range(0, items, BATCH):
        yield (kind, arg, i)


def event(kind, arg, i):
    """The i-th event of an enumeration, or None past its end."""
    def digits(*bases):
        nonlocal i
        out = []
        for b in reversed(bases):
            out.append(b[i % len(b)])
            i //= len(b)
        return None if i else out[::-1]
    r = range
    if kind == 'Note':
        d = digits(r(128), r(128), (False, True), DUR)
    elif kind == 'Rest':
        d = [i] if i < 70000 else None
    elif kind == 'RestBig':
        kind, d = 'Rest', digits([x + y for x in (2097152, 268435456, 1 << 20, 1 << 25, 1 << 32, (1 << 35) - 300) for y in r(-200, 300)])
    elif kind == 'InstrumentSwitch':
        d = digits(list(r(260)) + [511, 512, 16383, 16384, 65535, 2097151, 2097152, (1 << 28) - 1], r(128))
    elif kind == 'arith':
        kind, d = arg, digits(BYTES, r(-32768, 32768))
    elif kind == 'arithVar':
        kind, d = arg, digits(r(256), S16)
    elif kind == 'byte':
        kind, d = arg, digits(r(rs.BYTE_LIMIT.get(arg, 256)))
    elif kind == 'word':
        kind, d = arg, digits(r(65536))
    elif kind == 'none':
        kind, d = arg, digits((0,))
        d = None if d is None else []
    elif kind == 'DefineTracks':
        d = digits(r(65536))
        d = None if d is None else [frozenset(t for t in r(16) if d[0] >> t & 1)]
    elif kind == 'Random1':
        kind, d = 'Random', digits(list(r(128)) + sorted(rs.ARITH.values()), [(b,) for b in BYTES], S16, S16)
    elif kind == 'Random1Arg':
        kind, d = 'Random', digits([0, 60, 127, 0xB0, 0xB6, 0xBD], [(b,) for b in r(256)], (-5, 300), (0, 32767))
    elif kind == 'Random0':
        subs = [0x80, 0x81] + sorted(rs.BYTE.values()) + sorted(rs.WORD.values())
        kind, d = 'Random', digits(subs, [()], S16, S16)
    elif kind == 'RandomMin':
        kind, d = 'Random', digits([0xC1, 60], [()], r(-32768, 32768), (0, -1, 32767))
        if d and d[0] < 128:
            d[1] = (100,)
    elif kind == 'RandomMax':
        kind, d = 'Random', digits([0xC1, 60], [()], (0, -1, 32767), r(-32768, 32768))
        if d and d[0] < 128:
            d[1] = (100,)
    elif kind == 'FromVariable':
        subs = list(r(128)) + [0x80, 0x81] + sorted(rs.BYTE.values()) + sorted(rs.WORD.values())
        d = digits(subs, r(128), (None,))
    elif kind == 'FromVariable2':
        kind, d = 'FromVariable', digits(sorted(rs.ARITH.values()), r(128), r(-128, 128))
    else:
        raise KeyError(kind)
    return None if d is None else (kind,) + tuple(d)


SIZES = {'Note': 128 * 128 * 2 * len(DUR), 'Rest': 70000, 'RestBig': 3000, 'InstrumentSwitch': 268 * 128,
         'DefineTracks': 65536, 'Random1': 142 * len(BYTES) * len(S16) ** 2, 'Random1Arg': 6 * 256 * 4,
         'Random0': (2 + len(rs.BYTE) + len(rs.WORD)) * len(S16) ** 2,
         'RandomMin': 2 * 65536 * 3, 'RandomMax': 2 * 65536 * 3,
         'FromVariable': (130 + len(rs.BYTE) + len(rs.WORD)) * 128, 'FromVariable2': 14 * 128 * 256}


def genEvents(tier):
    for a in rs.NONE:
        yield ('none', a, 0)
    for a in rs.BYTE:
        yield ('byte', a, 0)
    for k in ('RestBig', 'Random0', 'Random1Arg', 'InstrumentSwitch', 'FromVariable'):
        yield from batches(k, None, SIZES[k])
    for a in rs.ARITH:
        yield from batches('arithVar', a, 256 * len(S16))
    for a in rs.WORD:
        yield from batches('word', a, 65536)
    for k in ('Rest', 'DefineTracks', 'FromVariable2', 'Random1', 'Note', 'RandomMin', 'RandomMax'):
        yield from batches(k, None, SIZES[k])
    for a in rs.ARITH:
        n = 65536 * (len(BYTES) if tier != 'quick' else 1)
        yield from batches('arith', a, n)


def checkEvents(case, ctx):
    kind, arg, first = case
    evs = []
    for i in range(first, first + BATCH):
        e = event(kind, arg, i)
        if e is None:
            break
        evs.append(e)
    require(bool(evs), 'empty batch')
    blobs = [rs.encode(e) for e in evs]
    objs = [rs.make(e) for e in evs]
    for e, o, b in zip(evs, objs, blobs):
        same(rs.read(o), e, 'attributes of a new event')
        same(o.type, b[0], '%r: type' % (e,))
        same(o.dataLength, len(b), '%r: dataLength' % (e,))
        same(bytes(o.save()), b, '%r: encoded' % (e,))
        back = type(o).fromData(b[0], b'\xEE' + b + b'\xC1\x7F', 1)
        same((type(back), rs.read(back)), (type(o), e), '%r: decoded' % (e,))
    ctx.step(2 * len(evs))
    # A whole program made of these events; Return and EndTrack end it
    tail = [('EndTrack',)]
    body = evs
    if kind == 'none' and arg in ('Return', 'EndTrack'):
        if arg == 'Return':
            return
        body = []
    prog = body + tail
    data, offs = saveSequenceEvents([rs.make(e) for e in prog])
    want = b''.join(rs.encode(e) for e in prog)
    same(bytes(data), want, 'encoded program')
    same(offs, [], 'notable offsets')
    got, notable = readSequenceEvents(want)
    same([rs.read(e) for e in got], prog, 'decoded program')
    same(bytes(saveSequenceEvents(got)[0]), want, 'program saved again')
    ctx.step(3)
    for e in evs[::64]:
        ctx.state(e)
    ctx.outcome(kind)


# Events are mutable: changing the documented attributes changes the encoding
def genEdit(tier):
    for e in (('Note', 60, 100, True, 500), ('Rest', 3), ('InstrumentSwitch', 1, 2), ('Tempo', 120),
              ('VariableEqual', 3, -4), ('Pan', 64), ('BeginLoop', 2), ('Tie', 1), ('PortamentoOnOff', 0),
              ('Random', 60, (100,), -4, 5), ('FromVariable', 0xC1, 5, None),
              ('FromVariable', 0xB1, 5, 6), ('SweepPitch', 7), ('MonoPoly', 1), ('VibratoType', 2)):
        for f in edits(e):
            yield (e, f)


def edits(e):
    k, a = e[0], e[1:]
    if k == 'Note':
        return [(k, 0, 127, False, 0), (k, 127, 0, True, 127), (k, 60, 100, False, 128), (k, 61, 1, True, 16384)]
    if k == 'Rest':
        return [(k, 0), (k, 127), (k, 128), (k, 16384)]
    if k == 'InstrumentSwitch':
        return [(k, 0, 0), (k, 0, 127), (k, 128, 5), (k, 127, 127)]
    if k == 'Random':
        return [(k, 60, (0,), 0, -1), (k, 0xC1, (), 3, 4), (k, 0xB4, (3,), 3, 4)]
    if k == 'FromVariable':
        return [(k, 0xC2, 7, None), (k, 0xB0, 1, 2), (k, 0xBD, 127, 0), (k, 5, 0, None)]
    if k in rs.ARITH:
        return [(k, 0, 0), (k, 255, 32767), (k, 1, -32768)]
    return [(k, v) for v in (0, 1)] + ([(k, 255)] if rs.BYTE_LIMIT.get(k) is None else [])


def checkEdit(case, ctx):
    e, f = case
    o = rs.make(e)
    k = e[0]
    if k == 'Note':
        o.pitch, o.velocity, o.unknownFlag, o.duration = f[1:]
    elif k == 'Rest':
        o.duration = f[1]
    elif k == 'InstrumentSwitch':
        o.bankID, o.instrumentID = f[1:]
    elif k == 'Random':
        o.subType, o.args, o.randMin, o.randMax = f[1], list(f[2]), f[3], f[4]
    elif k == 'FromVariable':
        o.subType, o.variableID, o.unknown = f[1:]
    elif k in rs.ARITH:
        o.variableID, o.value = f[1:]
    elif k == 'BeginLoop':
        o.loopCount = f[1]
    else:
        o.value = f[1]
    want = rs.encode(f)
    same(o.dataLength, len(want), 'dataLength after editing')
    same(bytes(o.save()), want, 'encoding after editing')
    data, _ = saveSequenceEvents([o, ss.EndTrackSequenceEvent()])
    same(bytes(data), want + b'\xFF', 'saved after editing')
    got, _ = readSequenceEvents(bytes(data))
    same([rs.read(x) for x in got], [f, ('EndTrack',)], 'loaded after editing')
    ctx.step(3)
    ctx.state((e, f))


# Every pair of event kinds next to each other: lengths must line up
REPR = [('Note', 60, 100, False, 48), ('Note', 0, 0, True, 200), ('Rest', 5), ('Rest', 16384),
        ('InstrumentSwitch', 0, 5), ('InstrumentSwitch', 3, 127), ('Random', 60, (1,), 2, 3), ('Random', 0xC1, (), -1, 1),
        ('Random', 0xB0, (2,), -3, 4), ('Random', 0xE1, (), 3, 4),
        ('FromVariable', 0xC1, 127, None), ('FromVariable', 0xB2, 3, 4), ('FromVariable', 60, 0, None),
        ('DefineTracks', frozenset({0, 8, 15}))]
REPR += [(k, 3, -2) for k in rs.ARITH] + [(k, 1) for k in rs.BYTE] + [(k, 258) for k in rs.WORD]
REPR += [('EndLoop',), ('If',)]


def genPairs(tier):
    for a in range(len(REPR)):
        for b in range(len(REPR)):
            yield (a, b)


def checkPairs(case, ctx):
    prog = [REPR[case[0]], REPR[case[1]], ('Pan', 3), ('EndTrack',)]
    want = b''.join(map(rs.encode, prog))
    data, offs = saveSequenceEvents([rs.make(e) for e in prog])
    same(bytes(data), want, 'encoded')
    for d in (want, bytearray(want)):
        got, _ = readSequenceEvents(d)
        same([rs.read(e) for e in got], prog, 'decoded')
    same(bytes(saveSequenceEvents(got)[0]), want, 'saved again')
    ctx.step(3)
    ctx.state(case)


# Events that refer to other events
def genTargets(tier):
    offs = (0, 1, 9, 10, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x12345)
    for k in ('Jump', 'Call'):
        for o in offs:
            yield (k, None, o)
    for t in range(256):
        for o in (0, 10, 0x1234) if t else offs:
            yield ('BeginTrack', t, o)
    for k in ('Jump', 'Call', 'BeginTrack'):
        for o in (0x7FFFFF, 0x800000, 0xFFFFFF, 0xABCDEF, 0xFFFF00, 0xFF00FF):
            yield (k, 15, o)


def checkTargets(case, ctx):
    k, t, o = case
    e = (k, t, o) if k == 'BeginTrack' else (k, o)
    want = rs.encode(e)
    to = ss.EndTrackSequenceEvent()
    ev = {'Jump': ss.JumpSequenceEvent, 'Call': ss.CallSequenceEvent, 'BeginTrack': ss.BeginTrackSequenceEvent}[k](
        *([t, to] if k == 'BeginTrack' else [to]))
    same(ev.type, want[0], 'type')
    same(ev.dataLength, len(want), 'dataLength')
    same(bytes(ev.save({to: o})), want, 'encoded')
    ctx.state(case)
    # In a program: this event first, or last with its target before it
    for first in (True, False):
        if first and (o < len(want) + 1 or o > 0x20000):
            continue
        if not first and o > 0x20000:
            continue
        if first:
            pad = b'\xEE' * (o - len(want) - 1)
            objs = [ev, ss.EndTrackSequenceEvent()] + ([ss.RawDataSequenceEvent(pad)] if pad else []) + [to]
            blob, start, at = want + b'\xFF' + pad + b'\xFF', 0, 0
        else:
            pad = b'\xEE' * o
            objs = ([ss.RawDataSequenceEvent(pad)] if pad else []) + [to, ev, ss.EndTrackSequenceEvent()]
            blob, start, at = pad + b'\xFF' + want + b'\xFF', o + 1, o + 1
        data, offs = saveSequenceEvents(objs, [ev])
        same((bytes(data), offs), (blob, [at]), 'program')
        got, notable = readSequenceEvents(blob, [start])
        pos, p = {}, 0
        for x in got:
            pos[id(x)] = p
            p += x.dataLength
        same(rs.read(notable[0], pos), e, 'decoded')
        ctx.step(3)
    ctx.outcome(k)


spaces = [
    Space('events', genEvents, checkEvents, lambda tier:
          'every event kind; all values of 8- and 16-bit parameters, all 0..69999 rests, 20 boundary note '
          'durations x 128 pitches x 128 velocities x flag, all track masks, arithmetic events: all 65536 values x %s '
          'variable IDs and all 256 variable IDs x 14 values, random/from-variable prefixes: every sub-type' % (1 if tier == 'quick' else 11)),
    Space('targets', genTargets, checkTargets, 'jumps, calls and track starts: all 256 track numbers, targets at 21 offsets up to 0xFFFFFF'),
    Space('edit', genEdit, checkEdit, 'attribute edits of 15 events to their boundary values'),
    Space('pairs', genPairs, checkPairs, 'all ordered pairs of %d representative events' % len(REPR)),
]
assumptions = ['variable IDs of from-variable events are 0..127, their unknown byte is signed',
               'note velocities are 0..127 and instrument IDs are 0..127']
