"""
Independent model of sequence events: an event is a plain tuple
(class name without the "SequenceEvent" suffix, parameters...).  The targets
of Jump, Call and BeginTrack are byte offsets here.
"""
import ndspy.soundSequence as ss

ARITH = ('VariableAssignment', 'VariableAddition', 'VariableSubtraction',
         'VariableMultiplication', 'VariableDivision', 'VariableShift', 'VariableRand',
         'VariableUnknownB7', 'VariableEqual', 'VariableGreaterThanOrEqual',
         'VariableGreaterThan', 'VariableLessThanOrEqual', 'VariableLessThan',
         'VariableNotEqual')
ARITH = {n: 0xB0 + i for i, n in enumerate(ARITH)}

BYTE = {'Pan': 0xC0, 'TrackVolume': 0xC1, 'GlobalVolume': 0xC2, 'Transpose': 0xC3,
        'Portamento': 0xC4, 'PortamentoRange': 0xC5, 'TrackPriority': 0xC6,
        'MonoPoly': 0xC7, 'Tie': 0xC8, 'PortamentoFrom': 0xC9, 'VibratoDepth': 0xCA,
        'VibratoSpeed': 0xCB, 'VibratoType': 0xCC, 'VibratoRange': 0xCD,
        'PortamentoOnOff': 0xCE, 'PortamentoDuration': 0xCF, 'AttackRate': 0xD0,
        'DecayRate': 0xD1, 'SustainRate': 0xD2, 'ReleaseRate': 0xD3, 'BeginLoop': 0xD4,
        'Expression': 0xD5, 'PrintVariable': 0xD6, 'VibratoDelay': 0xE0}
BYTE_LIMIT = {'MonoPoly': 2, 'VibratoType': 3}
WORD = {'Tempo': 0xE1, 'SweepPitch': 0xE3}
NONE = {'If': 0xA2, 'EndLoop': 0xFC, 'Return': 0xFD, 'EndTrack': 0xFF}
BY_TYPE = {}
for d in (ARITH, BYTE, WORD, NONE):
    for k, v in d.items():
        BY_TYPE[v] = k


def varint(n):
    """Big-endian base 128, all bytes but the last have the top bit set."""
    s = [n % 128]
    n //= 128
    while n:
        s.append(n % 128 + 128)
        n //= 128
    return bytes(reversed(s))


def s16(n):
    return (n % 65536).to_bytes(2, 'little')


def encode(ev):
    k, a = ev[0], ev[1:]
    if k == 'Note':
        pitch, velocity, flag, duration = a
        return bytes([pitch, velocity + 128 * flag]) + varint(duration)
    if k == 'Rest':
        return b'\x80' + varint(a[0])
    if k == 'InstrumentSwitch':
        return b'\x81' + varint(a[0] * 128 + a[1])
    if k == 'BeginTrack':
        return bytes([0x93, a[0]]) + a[1].to_bytes(3, 'little')
    if k == 'Jump':
        return b'\x94' + a[0].to_bytes(3, 'little')
    if k == 'Call':
        return b'\x95' + a[0].to_bytes(3, 'little')
    if k == 'Random':
        return bytes([0xA0, a[0]]) + bytes(a[1]) + s16(a[2]) + s16(a[3])
    if k == 'FromVariable':
        if a[2] is None:
            return bytes([0xA1, a[0], a[1] % 256])
        return bytes([0xA1, a[0], a[2] % 256, a[1] % 256])
    if k in ARITH:
        return bytes([ARITH[k], a[0]]) + s16(a[1])
    if k in BYTE:
        return bytes([BYTE[k], a[0]])
    if k in WORD:
        return bytes([WORD[k]]) + s16(a[0])
    if k in NONE:
        return bytes([NONE[k]])
    if k == 'DefineTracks':
        return b'\xFE' + s16(sum(1 << t for t in a[0]))
    if k == 'RawData':
        return bytes(a[0])
    raise KeyError(k)


def make(ev, target=None):
    """The ndspy event for `ev` (targets are given as the event object)."""
    k, a = ev[0], ev[1:]
    cls = getattr(ss, k + 'SequenceEvent')
    if k == 'Note':
        return cls(a[0], a[1] | (0x80 if a[2] else 0), a[3])
    if k == 'BeginTrack':
        return cls(a[0], target)
    if k in ('Jump', 'Call'):
        return cls(target)
    if k == 'Random':
        return cls(a[0], list(a[1]), a[2], a[3])
    if k == 'FromVariable':
        return cls(a[0], a[1]) if a[2] is None else cls(a[0], a[1], a[2])
    if k == 'DefineTracks':
        return cls(set(a[0]))
    return cls(*a)


def target(e):
    if isinstance(e, ss.BeginTrackSequenceEvent):
        return e.firstEvent
    if isinstance(e, (ss.JumpSequenceEvent, ss.CallSequenceEvent)):
        return e.destination
    return None


def read(e, offsetOf=None):
    """The model tuple of an ndspy event; offsetOf maps id(event) to offset."""
    k = type(e).__name__[:-len('SequenceEvent')]
    if k == 'Note':
        return (k, e.pitch, e.velocity, bool(e.unknownFlag), e.duration)
    if k == 'Rest':
        return (k, e.duration)
    if k == 'InstrumentSwitch':
        return (k, e.bankID, e.instrumentID)
    if k == 'BeginTrack':
        return (k, e.trackNumber, offsetOf[id(e.firstEvent)])
    if k in ('Jump', 'Call'):
        return (k, offsetOf[id(e.destination)])
    if k == 'Random':
        return (k, e.subType, tuple(e.args), e.randMin, e.randMax)
    if k == 'FromVariable':
        return (k, e.subType, e.variableID, e.unknown)
    if k in ARITH:
        return (k, e.variableID, e.value)
    if k == 'BeginLoop':
        return (k, e.loopCount)
    if k in BYTE or k in WORD:
        return (k, int(e.value))
    if k in NONE:
        return (k,)
    if k == 'DefineTracks':
        return (k, frozenset(e.trackNumbers))
    if k == 'RawData':
        return (k, bytes(e.data))
    raise KeyError(k)


class Bad(Exception):
    """The data at this offset is not an event that can be represented."""


def decode(data, off):
    """(event, length) of the event at an offset; Bad if there is none."""
    def need(n):
        if off + n > len(data):
            raise Bad('truncated')
        return data[off:off + n]

    def var(at):
        v = 0
        n = 0
        while True:
            if at + n >= len(data):
                raise Bad('truncated')
            b = data[at + n]
            n += 1
            v = v * 128 + b % 128
            if b < 128:
                break
        if varint(v) != data[at:at + n]:
            raise Bad('overlong number')
        return v, n

    def i16(b):
        return int.from_bytes(b, 'little', signed=True)

    t = need(1)[0]
    if t < 0x80:
        v = need(2)[1]
        d, n = var(off + 2)
        return ('Note', t, v % 128, v >= 128, d), 2 + n
    if t == 0x80:
        d, n = var(off + 1)
        return ('Rest', d), 1 + n
    if t == 0x81:
        d, n = var(off + 1)
        return ('InstrumentSwitch', d // 128, d % 128), 1 + n
    if t == 0x93:
        b = need(5)
        return ('BeginTrack', b[1], int.from_bytes(b[2:], 'little')), 5
    if t in (0x94, 0x95):
        b = need(4)
        return ('Jump' if t == 0x94 else 'Call', int.from_bytes(b[1:], 'little')), 4
    if t == 0xA0:
        n = randomArgs(need(2)[1])
        b = need(6 + n)
        return ('Random', b[1], tuple(b[2:2 + n]), i16(b[-4:-2]), i16(b[-2:])), 6 + n
    if t == 0xA1:
        sub = need(2)[1]
        s = lambda x: x - 256 if x > 127 else x
        if 0xB0 <= sub <= 0xBD:
            b = need(4)
            return ('FromVariable', sub, s(b[3]), s(b[2])), 4
        return ('FromVariable', sub, s(need(3)[2]), None), 3
    if t == 0xFE:
        m = int.from_bytes(need(3)[1:], 'little')
        return ('DefineTracks', frozenset(i for i in range(16) if m >> i & 1)), 3
    k = BY_TYPE.get(t)
    if k is None:
        raise Bad('unknown event')
    if k in NONE:
        return (k,), 1
    if k in BYTE:
        v = need(2)[1]
        if v >= BYTE_LIMIT.get(k, 256):
            raise Bad('value')
        return (k, v), 2
    if k in WORD:
        return (k, int.from_bytes(need(3)[1:], 'little')), 3
    b = need(4)
    return (k, b[1], i16(b[2:])), 4


def randomArgs(sub):
    """Number of argument bytes before the (randomised) last argument."""
    if sub < 0x80 or 0xB0 <= sub <= 0xBD:
        return 1
    if sub in (0x80, 0x81, 0xA0, 0xA1, 0xFE) or BY_TYPE.get(sub, 'If') not in NONE:
        if sub in (0xA0, 0xA1):
            raise Bad('nested prefix')
        return 0
    raise Bad('random ' + hex(sub))


STACK = 8


def explore(data, starts):
    """
    Explicit-state exploration of a sequence program: all configurations
    (offset, return stack), both outcomes of every If, every started track.

    Returns (set of reachable offsets {offset: (event, length)}, flags); flags
    may contain 'bad' (an unreadable event is reached), 'end' (execution runs
    past the end of the data), 'skipend' (only an If skips past the end),
    'return' (a Return with an empty stack), 'deep' (stack bound hit).
    """
    events = {}
    flags = set()
    seen = set()
    todo = [(s, ()) for s in starts]

    def ev(off):
        if off not in events:
            events[off] = decode(data, off)
        return events[off]

    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        off, stack = c
        if off >= len(data):
            flags.add('end')
            continue
        try:
            e, n = ev(off)
        except Bad:
            flags.add('bad')
            continue
        k = e[0]
        if k == 'EndTrack':
            continue
        if k == 'Return':
            if stack:
                todo.append((stack[-1], stack[:-1]))
            else:
                flags.add('return')
        elif k == 'Jump':
            todo.append((e[1], stack))
        elif k == 'Call':
            if len(stack) < STACK:
                todo.append((e[1], stack + (off + n,)))
            else:
                flags.add('deep')
        else:
            if k == 'BeginTrack':
                todo.append((e[2], ()))
            todo.append((off + n, stack))
            if k == 'If':
                try:
                    _, m = ev(off + n)
                except Bad:
                    if off + n < len(data):
                        flags.add('bad')
                    continue
                if off + n + m >= len(data):
                    flags.add('skipend')
                else:
                    todo.append((off + n + m, stack))
    return {o: events[o] for o in events}, flags
