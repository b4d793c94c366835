"""P20: parsing and saving sequence data is lossless and follows control flow."""
import itertools
from mc.core import Space, same, require, Violation
from mc import ref_seq as rs
import ndspy.soundSequence as ss
from ndspy.soundSequence import readSequenceEvents, saveSequenceEvents, SSEQ
from ndspy.soundSequenceArchive import SSAR


def analyse(data, starts):
    reach, flags = rs.explore(data, starts)
    spans = sorted((o, o + n) for o, (e, n) in reach.items())
    if any(a[1] > b[0] for a, b in zip(spans, spans[1:])):
        flags.add('overlap')
    return reach, flags


def judge(data, starts, got, notable, reach, ctx):
    """What a successful parse must look like."""
    off = 0
    at = {}
    posOf = {}
    for e in got:
        at[off] = e
        posOf[id(e)] = off
        off += e.dataLength
    same(len(posOf), len(got), 'distinct event objects')
    blob, offs = saveSequenceEvents(got, notable)
    same(bytes(blob), data, 'saved again')
    same(list(offs), list(starts), 'offsets of the starting points')
    for o, (e, n) in reach.items():
        require(o in at, 'the event at offset %d is not parsed as an event: %s', o, got)
        x = at[o]
        require(not isinstance(x, ss.RawDataSequenceEvent), 'the reachable event at offset %d is kept as raw data: %s', o, got)
        for t in (rs.target(x),):
            if t is not None:
                require(id(t) in posOf, 'target of the event at offset %d is not in the list', o)
        same(rs.read(x, posOf), e, 'event at offset %d' % o)
    same([posOf.get(id(e)) for e in notable], list(starts), 'starting point events')
    ctx.step(2)


def run(data, starts, ctx):
    reach, flags = analyse(data, starts or ([0] if data else []))
    try:
        got, notable = readSequenceEvents(data, list(starts))
    except Exception as e:
        if not flags or flags == {'deep'}:
            raise Violation('well-formed data does not parse: %s: %s' % (type(e).__name__, e))
        ctx.outcome('rejected')
        return
    require('overlap' not in flags, 'data with overlapping events parsed: %s', got)
    judge(data, starts, got, notable, reach, ctx)
    ctx.outcome('parsed')


# --- control flow -----------------------------------------------------------
SIZE = {'n': 2, 'j': 4, 'c': 4, 'b': 5, 'r': 1, 'e': 1, 'i': 1, 'x': 1}
END = 99      # a target just past the end


def assemble(prog, targets=None):
    offs = [0]
    for it in prog:
        offs.append(offs[-1] + SIZE[it[0]])
    out = b''
    for it in prog:
        k = it[0]
        if len(it) > 1:
            t = int(it[1:]) if targets == 'bytes' else offs[int(it[1:])]
        out += {'n': lambda: rs.encode(('Pan', 1)), 'r': lambda: b'\xFD', 'e': lambda: b'\xFF', 'i': lambda: b'\xA2',
                'x': lambda: b'\x82', 'j': lambda: rs.encode(('Jump', t)), 'c': lambda: rs.encode(('Call', t)),
                'b': lambda: rs.encode(('BeginTrack', 1, t))}[k]()
    return out, offs[:-1]


def items(n, kinds):
    out = []
    for k in kinds:
        if k in 'jcb':
            out += [k + str(t) for t in range(n)]
        else:
            out.append(k)
    return out


def genPrograms(tier):
    for n in (1, 2, 3, 4):
        yield from itertools.product(items(n, 'nreixjcb'), repeat=n)
    last = items(5, 'rej')
    for p in itertools.product(items(5, 'nreijc'), repeat=4):
        for l in last:
            yield p + (l,)
    if tier != 'quick':
        for p in itertools.product(items(5, 'nreixjcb'), repeat=4):
            for l in last:
                yield p + (l,)
        for p in itertools.product(items(6, 'nreijc'), repeat=5):
            for l in ('r', 'e'):
                yield p + (l,)


def checkPrograms(case, ctx):
    data, offs = assemble(case)
    run(data, [], ctx)
    ctx.state(case)


# All starting points
def genStarts(tier):
    for n in (1, 2, 3):
        for p in itertools.product(items(n, 'nreixjcb'), repeat=n):
            for k in (1, 2):
                for s in itertools.product(range(n), repeat=k):
                    yield (p, s)
    n = 4
    for p in itertools.product(items(n, 'nrejc' if tier == 'quick' else 'nreijcb'), repeat=n):
        for s in ((0, 1), (1, 0), (1, 2), (2, 0), (3,), (2, 3), (3, 1), (1, 1), (0, 2, 3)):
            yield (p, s)


def checkStarts(case, ctx):
    prog, idx = case
    data, offs = assemble(prog)
    run(data, [offs[i] for i in idx], ctx)
    ctx.state(case)


# Targets anywhere in the data, including the middle of events and past the end
def genTargets(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for kinds in itertools.product('nreixjcb' if n < 3 else 'nreijcb' if n < 4 else 'nejc', repeat=n):
            size = sum(SIZE[k] for k in kinds)
            spots = list(range(size + 2)) + [0xFFFFFF]
            if sum(k in 'jcb' for k in kinds) > 2:
                spots = spots[::2]
            for ts in itertools.product(*[spots if k in 'jcb' else [None] for k in kinds]):
                yield tuple(k if t is None else k + str(t) for k, t in zip(kinds, ts))


def checkTargets(case, ctx):
    data, offs = assemble(case, 'bytes')
    run(data, [], ctx)
    ctx.state(case)


# Long straight-line and deeply nested programs
def genBig(tier):
    for n in (1, 10, 100, 300, 1000, 3000, 20000):
        for kind in ('line', 'calls', 'jumps', 'tracks', 'nested', 'nestedtracks', 'sub'):
            yield (kind, n)


def checkBig(case, ctx):
    kind, n = case
    E, R = b'\xFF', b'\xFD'
    J = lambda t: rs.encode(('Jump', t))
    C = lambda t: rs.encode(('Call', t))
    B = lambda i, t: rs.encode(('BeginTrack', i % 16, t))
    if kind == 'line':
        data, k = b'\x3C\x64\x30' * n + E, n + 1
    elif kind == 'calls':      # n calls to one subroutine
        data, k = C(4 * n + 1) * n + E + R, n + 2
    elif kind == 'jumps':      # a chain of forward jumps
        data, k = b''.join(J(4 * i + 4) for i in range(n)) + E, n + 1
    elif kind == 'tracks':
        data, k = b''.join(B(i, 5 * n + 1) for i in range(n)) + E + E, n + 2
    elif kind == 'nested':     # every subroutine calls the next one
        data, k = b''.join(C(5 * i + 5) + R for i in range(n)) + R, 2 * n + 1
        data = C(4 + 1).replace(b'', b'') + E + b''.join(C(5 * i + 10) + R for i in range(n)) + R
        k = 2 + 2 * n + 1
    elif kind == 'nestedtracks':
        data, k = b''.join(B(i, 6 * i + 6) + E for i in range(n)) + E, 2 * n + 1
    else:                      # two tracks sharing subroutines, each called twice
        subs = 10 + 1 + 2 * (4 * 2 * n + 1)
        track = b''.join(C(subs + 3 * i) * 2 for i in range(n)) + E
        data = B(1, 11) + B(2, 11 + len(track)) + E + track + track + (b'\xC0\x01' + R) * n
        k = 3 + 2 * (2 * n + 1) + 2 * n
    got, _ = readSequenceEvents(data, [])
    same(len(got), k, 'number of events')
    require(not any(isinstance(e, ss.RawDataSequenceEvent) for e in got), 'reachable data kept as raw data')
    same(bytes(saveSequenceEvents(got)[0]), data, 'saved again')
    ctx.step(2)
    ctx.state(case)


# Many ways into one place, and many starting points
def genMany(tier):
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 1000]:
        for kind in ('back', 'fan', 'ifs', 'tracks', 'starts', 'startsrev', 'startsame', 'startstep'):
            yield (kind, n)
    for n in (4095, 4096, 4097, 20000):
        for kind in ('starts', 'startsrev', 'startsame', 'startstep'):
            yield (kind, n)


def checkMany(case, ctx):
    kind, n = case
    E, R, I = b'\xFF', b'\xFD', b'\xA2'
    J = lambda t: rs.encode(('Jump', t))
    C = lambda t: rs.encode(('Call', t))
    B = lambda i, t: rs.encode(('BeginTrack', i % 16, t))
    starts = []
    if kind == 'back':         # a subroutine with n jumps back to its start, each of them called as well
        s = 4 * (n + 2) + 1    # where it starts
        ret = s + 5 * (n + 1) + 4
        data = (C(s) + b''.join(C(s + 5 * i + 6) for i in range(n)) + C(ret - 4) + E
                + I + J(ret) + (I + J(s)) * n + J(s) + R)
    elif kind == 'fan':        # n subroutines that go on in the same place
        s = 4 * n + 1
        data = b''.join(C(s + 6 * i) for i in range(n)) + E + b''.join(b'\xC0\x01' + J(s + 6 * n) for i in range(n)) + b'\xC1\x02' + R
    elif kind == 'ifs':        # each If may skip the next one
        data = I * n + b'\xC0\x01' + E
    elif kind == 'tracks':     # n tracks, calling n subroutines that call one another
        t = 5 * n + 1
        s = t + 5 * n
        data = (b''.join(B(i, t + 5 * i) for i in range(n)) + E + b''.join(C(s + 5 * i) + E for i in range(n))
                + b''.join(C(s + 5 * n if i == 0 else s + 5 * (i - 1)) + R for i in range(n)) + R)
    else:
        data = b''.join(bytes([0xC0 + i % 7, i & 0x7F]) + E for i in range(n))
        at = [3 * i for i in range(n)]
        starts = {'starts': at, 'startsrev': at[::-1], 'startsame': [3 * (n // 2)] * n,
                  'startstep': at[::2] + at[1::2] + at[:3]}[kind]
    run(data, starts, ctx)
    ctx.outcome(kind)
    ctx.state(case)


# Targets far away, with unreachable data before them
def genFar(tier):
    for pad in (0, 1, 0x7A, 0x7B, 0x7F, 0xFA, 0xFB, 0xFF, 0x100, 0x7FFB, 0x7FFF, 0xFFFA, 0xFFFB, 0x10000, 0x12345, 0x20000):
        for kind in 'jcb':
            for dead in (b'\x3C', b'\xFF', b'\x00'):
                for st in (0, 1, 2):
                    yield (kind, pad, dead[0], st)


def checkFar(case, ctx):
    kind, pad, dead, st = case
    head = {'j': 4, 'c': 5, 'b': 6}[kind]
    to = head + pad
    enc = {'j': lambda: rs.encode(('Jump', to)), 'c': lambda: rs.encode(('Call', to)) + b'\xFF',
           'b': lambda: rs.encode(('BeginTrack', 2, to)) + b'\xFF'}[kind]()
    tail = rs.encode(('Pan', 5)) + rs.encode(('Rest', 300)) + {'j': b'\xFF', 'c': b'\xFD', 'b': b'\xFF'}[kind]
    run(enc + bytes([dead]) * pad + tail, ([], [0, 0], [0, to + 2] if kind != 'c' else [0])[st], ctx)
    ctx.state(case)


# --- arbitrary bytes --------------------------------------------------------
TAILS = (b'', b'\xFF', b'\0\xFF', b'\0\0\0\xFF', b'\x01\0\0\xFF\xFF', b'\0\0\0\0\0\0\0\xFF',
         b'\x05\0\0\x05\0\0\xFF\xFF', b'\xFF' * 9, b'\x80\x05\xFF\xFF\xFF\xFF\xFF\xFF\xFF',
         b'\x94\0\0\0', b'\xA2\xFF\xC0\x01\xFF', b'\x03\0\0\0\0\xFF\xFD\xFF')


def genBytes(tier):
    for t in range(len(TAILS)):
        for b in range(256):
            yield (b, t)


def checkBytes(case, ctx):
    b, t = case
    for c in range(256):
        run(bytes([b, c]) + TAILS[t], [], ctx)
        ctx.state((b, c, t))


# Every short string over the control bytes and their neighbours
ALPHA = (0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x7F, 0x80, 0x81, 0x93, 0x94, 0x95, 0xA0, 0xA1, 0xA2, 0xB0, 0xC0, 0xC7, 0xE1,
         0xFC, 0xFD, 0xFE, 0xFF)


def genShort(tier):
    yield ()
    small = (0, 1, 3, 4, 0x80, 0x94, 0x95, 0xA2, 0xFD, 0xFF)
    for n in range(0, 4 if tier == 'quick' else 5):
        yield from itertools.product(ALPHA, repeat=n)
    for n in (4, 5) if tier == 'quick' else (5, 6):
        yield from itertools.product(small, repeat=n)


def checkShort(case, ctx):
    run(bytes(case), [], ctx)
    ctx.state(case)


# --- SSEQ.parse() / SSAR.parse() --------------------------------------------
def genParse(tier):
    for n in (1, 2, 3):
        for p in itertools.product(items(n, 'nreixjcb'), repeat=n):
            yield p
    for p in itertools.product(items(4, 'nreijc'), repeat=4) if tier != 'quick' else ():
        yield p


def checkParse(case, ctx):
    data, offs = assemble(case)
    full = SSEQ.fromEvents([ss.RawDataSequenceEvent(data)], 1, 2, 3, 4, 5, 6).save()
    s = SSEQ(*full)
    reach, flags = analyse(data, [0])
    first = None
    for attempt in range(2):
        try:
            s.parse()
            first = True
        except Exception as e:
            require(bool(flags), 'well-formed sequence does not parse: %s', e)
            same(s.parsed, False, 'parsed after a failure')
            same(bytes(s.eventsData), data, 'eventsData after a failure')
            try:
                s.events
                raise Violation('.events is accessible after a failure')
            except ValueError:
                pass
        else:
            same(s.parsed, True, 'parsed')
            judge(data, [], s.events, [], reach, ctx)
        same(tuple(s.save()), tuple(full), 'saved file')
    ctx.outcome('sseq parsed' if first else 'sseq rejected')

    # An archive with a sequence at every item, one missing, and one twice
    from ndspy.soundSequenceArchive import SSARSequence
    starts = offs + [-1] + offs[:1]
    a0 = SSAR()
    a0.events = [ss.RawDataSequenceEvent(data)]
    blob = bytearray(a0.save()[0])
    table = b''.join(o.to_bytes(4, 'little', signed=True) + bytes([i, 0, 1, 2, 3, 4, 0, 0]) for i, o in enumerate(starts))
    dataOff = 0x20 + len(table)
    blob = (blob[:8] + (dataOff + len(data)).to_bytes(4, 'little') + blob[0xC:0x14]
            + (dataOff + len(data) - 0x10).to_bytes(4, 'little') + dataOff.to_bytes(4, 'little')
            + len(starts).to_bytes(4, 'little') + table + data)
    names = ['s%d' % i for i in range(len(starts))]
    a = SSAR(bytes(blob), 7, names)
    reach, flags = analyse(data, offs)
    for attempt in range(2):
        try:
            a.parse()
        except Exception as e:
            require(bool(flags), 'well-formed sequence archive does not parse: %s', e)
            same(a.parsed, False, 'archive parsed after a failure')
            same(bytes(a.eventsData), data, 'archive eventsData after a failure')
            same([q.firstEventOffset for n, q in a.sequences], [None if o == -1 else o for o in starts], 'entry points after a failure')
        else:
            same(a.parsed, True, 'parsed')
            judge(data, [o for o in starts if o != -1], a.events,
                  [q.firstEvent for n, q in a.sequences if q.firstEvent is not None], reach, ctx)
            same(a.sequences[len(offs)][1].firstEvent, None, 'missing entry')
        out = a.save()
        same((bytes(out[0]), out[1], list(out[2])), (bytes(blob), 7, names), 'saved archive')
    ctx.step(4)
    ctx.state(case)


spaces = [
    Space('short', genShort, checkShort, lambda tier:
          'all byte strings up to length %d over 23 bytes and up to length %d over 10 bytes' % ((3, 5) if tier == 'quick' else (4, 6))),
    Space('programs', genPrograms, checkPrograms, lambda tier:
          'all programs of up to 4 items (event, if, return, end, unknown byte, jump/call/begin-track to every item)'
          + (', all 5-item programs without unknown bytes and begin-track that end in return, end or jump' if tier == 'quick' else
             ', all 5-item programs that end in return, end or jump, all 6-item programs ending in return or end')),
    Space('starts', genStarts, checkStarts, 'all programs of up to 3 items with every list of 1 or 2 starting points; 4 items with 9 lists'),
    Space('targets', genTargets, checkTargets, 'all programs of up to %s items with jump targets at every byte' % 3),
    Space('big', genBig, checkBig, '7 shapes of up to 20000 events'),
    Space('many', genMany, checkMany, 'jumps, calls, tracks and Ifs in 4 shapes of 51 sizes up to 1000; 1..20000 starting points in 4 orders'),
    Space('far', genFar, checkFar, 'targets and starting points at 16 distances up to 0x20000, unreachable data in between'),
    Space('parse', genParse, checkParse, 'SSEQ.parse() and SSAR.parse() on all programs of up to 3 items'),
    Space('bytes', genBytes, checkBytes, 'all 65536 two-byte prefixes with each of %d tails' % len(TAILS)),
]
