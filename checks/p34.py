"""P34: music editing keeps every note at its intended time."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_seq as Q
from ndspy import soundSequence as ss
from ndspy.soundSequence import SSEQ
from ndspy.extras import music as M

MONO, POLY = ss.MonoPolySequenceEvent.Value.MONO, ss.MonoPolySequenceEvent.Value.POLY
N = ('Note', 60, 100, False, 4)
N2 = ('Note', 62, 90, False, 1)
P = ('Pan', 64)
R3, R1 = ('Rest', 3), ('Rest', 1)
QP, QM = ('MonoPoly', 0), ('MonoPoly', 1)
INST = ('InstrumentSwitch', 0, 5)
END = ('EndTrack',)
SILENT = ('Rest', 'Jump', 'Call', 'Return', 'If', 'EndTrack', 'DefineTracks', 'BeginTrack', 'RawData')


def takes(ev, mode):
    return ev[-1] if ev[0] == 'Rest' or (ev[0] == 'Note' and mode == 1) else 0


def times(evs, mode=1):
    """Start time of every event and of the end, and the mode at each."""
    t, out, modes = 0, [], []
    for e in evs:
        out.append(t)
        modes.append(mode)
        t += takes(e, mode)
        if e[0] == 'MonoPoly':
            mode = e[1]
    return out + [t], modes + [mode]


def timeline(evs, mode=1):
    ts, _ = times(evs, mode)
    return [(t, e) for t, e in zip(ts, evs) if e[0] not in SILENT], ts[-1]


# Durations

ALPHA = [N, N2, R3, R1, P, QP, QM]


def lists(top, alpha=ALPHA):
    for n in range(top + 1):
        yield from itertools.product(range(len(alpha)), repeat=n)


def genDurations(tier):
    return lists(4 if tier == 'quick' else 5)


def checkDurations(case, ctx):
    evs = [ALPHA[i] for i in case]
    objs = [Q.make(e) for e in evs]
    same(M.durationOf(objs), times(evs)[0][-1], 'duration')
    for mode in (MONO, POLY, 1, 0):
        same(M.durationOf(objs, mode), times(evs, int(mode))[0][-1], 'duration starting in mode %r' % mode)
        ctx.step()
    same(M.durationOf(iter(objs), initialMonoPolyMode=POLY), times(evs, 0)[0][-1], 'duration of an iterator')
    same([Q.read(o) for o in objs], evs, 'the events themselves')
    ctx.state(case)


# Moving in time

def expectMove(evs, start, time, mode, cut, append):
    """(index, moved, mode, events afterwards)"""
    evs = list(evs)
    if time == 0:
        return start, 0, mode, evs
    ts, modes = times(evs[start:], mode)
    if time in ts:
        i = ts.index(time)
        return start + i, time, modes[i], evs
    if time < ts[-1]:
        i = max(k for k in range(len(ts) - 1) if ts[k] < time)
        e = evs[start + i]
        if e[0] == 'Rest' and cut:
            evs[start + i:start + i + 1] = [('Rest', time - ts[i]), ('Rest', ts[i] + e[1] - time)]
            return start + i + 1, time, modes[i], evs
        i = ts.index(ts[i])
        return start + i, ts[i], modes[i], evs
    if append and not any(e[0] == 'Jump' for e in evs):
        evs.append(('Rest', time - ts[-1]))
        return len(evs), time, modes[-1], evs
    return len(evs), ts[-1], modes[-1], evs


def genMoves(tier):
    return lists(3 if tier == 'quick' else 4)


def checkMoves(case, ctx):
    evs = [ALPHA[i] for i in case]
    total = times(evs)[0][-1]
    for start in range(len(evs) + 1):
        for mode in (1, 0):
            for time in range(0, total + 3):
                for cut, append in itertools.product((False, True), repeat=2):
                    objs = [Q.make(e) for e in evs]
                    before = list(objs)
                    i, moved, m, after = expectMove(evs, start, time, mode, cut, append)
                    got = M.moveInTime(objs, start, time, ss.MonoPolySequenceEvent.Value(mode), cut=cut, append=append)
                    same((got[0], got[1], int(got[2])), (i, moved, m), 'moving by %d from event %d (cut %s, append %s)' % (time, start, cut, append))
                    same([Q.read(o) for o in objs], after, 'the events after moving')
                    require([o for o in objs if any(o is b for b in before)] == before, 'an event was replaced')
                    if mode == 1:
                        objs = [Q.make(e) for e in evs]
                        got = M.moveInTime(objs, start, time, cut=cut, append=append)
                        same((got[0], got[1], int(got[2])), (i, moved, m), 'moving, default mode')
                    if not cut and not append:
                        got = M.moveInTime(objs if mode == 1 else before, start, time, ss.MonoPolySequenceEvent.Value(mode))
                        same((got[0], got[1], int(got[2])), (i, moved, m), 'moving, default options')
                    ctx.step(2)
    for t in (-1, -100):
        raises(ValueError, lambda: M.moveInTime([Q.make(e) for e in evs], 0, t), 'moving backwards')
    raises(ValueError, lambda: M.moveInTime([Q.make(e) for e in evs], len(evs) + 1, 1), 'starting beyond the end')
    ctx.state(case)


def genLoopedMoves(tier):
    for k in itertools.product(range(len(ALPHA)), repeat=2):
        for t in range(0, 12):
            for at in range(3):
                for start in range(4):
                    yield (k, t, at, start)


def checkLoopedMoves(case, ctx):
    ks, time, at, start = case
    for cut, append in itertools.product((False, True), repeat=2):
        evs = [ALPHA[i] for i in ks]
        objs = [Q.make(e) for e in evs]
        evs.insert(at, ('Jump', 0))
        objs.insert(at, ss.JumpSequenceEvent(objs[0]))
        i, moved, m, after = expectMove(evs, start, time, 1, cut, append)
        got = M.moveInTime(objs, start, time, cut=cut, append=append)
        same((got[0], got[1], int(got[2])), (i, moved, m), 'moving in a looped track')
        same(len(objs), len(after), 'number of events')
        same([Q.read(o) for o in objs if not isinstance(o, ss.JumpSequenceEvent)], [e for e in after if e[0] != 'Jump'], 'the events after moving')
        ctx.step()
    ctx.state(case)


# Playing a whole song from its bytes

def play(data, decide=(True,), tmax=120, emax=60):
    """{track: ([(time, event)], time of the end or None if it goes on)}; each event carries no addresses."""
    out = {}
    todo = [(0, 0, 0)]
    while todo:
        tr, off, t = todo.pop()
        require(tr not in out, 'track %d is started twice', tr)
        mode, log, end, stack, k = 1, [], None, [], 0
        for _ in range(1500 + 20 * emax):
            if off >= len(data):
                raise AssertionError('ran off the end')
            e, n = Q.decode(data, off)
            if t > tmax or len(log) >= emax:
                break
            off += n
            if e[0] not in SILENT:
                log.append((t, e))
            if e[0] == 'EndTrack':
                end = t
                break
            elif e[0] == 'Jump':
                off = e[1]
            elif e[0] == 'Call':
                stack.append(off)
                off = e[1]
            elif e[0] == 'Return':
                off = stack.pop()
            elif e[0] == 'If':
                if not decide[k % len(decide)]:
                    off += Q.decode(data, off)[1]
                k += 1
            elif e[0] == 'BeginTrack':
                todo.append((e[1], e[2], t))
            elif e[0] == 'MonoPoly':
                mode = e[1]
            t += takes(e, mode)
        out[tr] = (log, end)
    return out


DECISIONS = [(True,), (False,), (True, False), (False, False, True)]


def closed(body):
    """Whether execution cannot continue behind the body."""
    return bool(body) and body[-1][0] in ('Jump', 'EndTrack', 'Return') and not (len(body) > 1 and body[-2][0] == 'If')


def assemble(tracks, header, order=None, begins=None):
    """tracks: {number: body}; targets of Jump and Call are indices into the body (its length: the end)."""
    items = []                                  # (track, index, event)
    if header:
        items.append((None, None, ('DefineTracks', frozenset(tracks))))
        for t in begins or sorted(tracks):
            if t:
                items.append((None, t, ('BeginTrack', t, 0)))
        if 0 not in tracks:
            items.append((None, None, END))
    for t in order or sorted(tracks):
        body = tracks[t]
        for i, e in enumerate(body):
            items.append((t, i, e))
        if not closed(body) or any(e[0] in ('Jump', 'Call') and e[1] == len(body) for e in body):
            items.append((t, len(body), END))
    offs, pos = {}, 0
    for t, i, e in items:
        if t is not None:
            offs[t, i] = pos
        pos += len(Q.encode(e))
    out = b''
    for t, i, e in items:
        if e[0] == 'BeginTrack':
            e = ('BeginTrack', i, offs[i, 0])
        elif e[0] in ('Jump', 'Call'):
            e = (e[0], offs[t, e[1]])
        out += Q.encode(e)
    return out


def song(tracks, header=None, order=None, begins=None):
    h = (set(tracks) != {0}) if header is None else header
    f = SSEQ(SSEQ().save()[0])
    f.eventsData = assemble(tracks, h, order, begins)
    return SSEQ(f.save()[0])


def savedBytes(music):
    sseq, sbnk, swars = music.save()
    require(sseq is music.sseq, 'another sequence is returned')
    return SSEQ(sseq.save()[0]).eventsData


def plays(data, tracks, what, tmax=120, emax=60):
    """The bytes play what the model song plays."""
    want = assemble(tracks, set(tracks) != {0})
    for d in DECISIONS:
        a, b = play(data, d, tmax, emax), play(want, d, tmax, emax)
        if 0 not in tracks:
            same(a.pop(0, ([], 0))[0], [], what + ': events on a track that does not exist')
            b.pop(0, None)
        same(a, b, what)


def keep(music, tracks, ctx, what, *limits):
    d1 = savedBytes(music)
    plays(d1, tracks, what + ', saved', *limits)
    same(savedBytes(music), d1, what + ', saved twice')
    again = M.SSEQMusic(SSEQ(music.sseq.save()[0]), None, [])
    same(set(again.tracks), set(tracks), what + ', tracks after loading')
    d2 = savedBytes(again)
    plays(d2, tracks, what + ', saved, loaded and saved', *limits)
    ctx.step(3)


# Bodies with jumps, subroutines and conditions
BODIES = [
    [], [P], [N], [R3], [P, N, R3], [QP, N, N, R3, N], [N, R3, ('Jump', 0)], [P, N, ('Jump', 1)], [N, ('If',), ('Jump', 0)],
    [N, ('If',), ('Jump', 0), R3], [('If',), ('Jump', 3), N], [('If',), ('Jump', 4), N, R3], [N, ('Call', 4), N, END, P, R1, ('Return',)],
    [('Call', 3), ('Jump', 0), END, N, R1, ('Return',)], [N, END, P, N], [N, ('If',), END, R3, N], [N, ('If',), END],
    [('BeginLoop', 2), N, ('EndLoop',), R3], [INST, ('Tempo', 120), ('TrackVolume', 100), N, R3, N2, ('Jump', 2)], [('Jump', 1), N],
    [N, ('If',), ('Jump', 4), R3], [('VariableEqual', 1, 2), ('If',), ('Call', 5), N, END, R1, P, ('Return',)], [('Jump', 1)], [QM, N, QP, N, QM, N],
    [('If',), ('Jump', 2)], [('If',), END], [('If',), ('Jump', 1), N],
]
SMALL = [P, N, R3]


def genSongs(tier):
    for b in range(len(BODIES)):
        for header in (None, True):
            yield ((0, b),), header
    two = [(b, c) for b in range(len(BODIES)) for c in range(len(BODIES))]
    for b, c in two:
        yield ((0, b), (1, c)), None
    for b, c in two:
        yield ((0, 1), (2, b), (15, c)), None
        yield ((1, b), (3, c)), None
    if tier != 'quick':
        for b, c, d in itertools.product(range(len(BODIES)), repeat=3):
            yield ((0, b), (1, c), (7, d)), None


def checkSongs(case, ctx):
    parts, header = case
    tracks = {t: [('Note', 40 + t, 100, False, 4) if e == N else e for e in BODIES[b]] for t, b in parts}
    f = song(tracks, header)
    m = M.SSEQMusic(f, None, [])
    same(set(m.tracks), set(tracks), 'track numbers')
    for t, body in tracks.items():
        same(m.tracks[t].looped, any(e[0] == 'Jump' for e in body), 'track %d is looped' % t)
        if not any(e[0] in ('Jump', 'Call', 'EndTrack', 'If') for e in body):
            evs = [Q.read(e) for e in m.tracks[t].events]
            same(timeline(evs), timeline(body), 'events of track %d' % t)
            same(M.durationOf(m.tracks[t].events), timeline(body)[1], 'duration of track %d' % t)
    keep(m, tracks, ctx, 'song')
    ctx.state(case)


# Tracks stored and announced in any order
ORDERS = [[P, N, R3], [N, R3, ('Jump', 0)], [N, ('If',), END, R3, N], [('Pan', 7), ('Note', 50, 90, True, 2), ('If',), END, P, R1, N], [QP, N, N2, R3, ('Jump', 1)]]


def genOrders(tier):
    for numbers in ((0, 1), (0, 1, 2), (1, 2, 3), (0, 3, 7, 12)) if tier == 'quick' else ((0, 1), (0, 1, 2), (1, 2, 3), (0, 3, 7, 12), (1, 4, 9, 15), (0, 1, 2, 3, 4)):
        rest = [t for t in numbers if t]
        for order in itertools.permutations(rest):
            for begins in itertools.permutations(rest):
                for k in range(len(ORDERS)):
                    yield (tuple([0] if 0 in numbers else []) + order, begins, k)


def checkOrders(case, ctx):
    order, begins, k = case
    tracks = {t: [('Note', 40 + t, 100, False, 4) if e == N else e for e in ORDERS[(k + i * (1 + k % 2)) % len(ORDERS)]] for i, t in enumerate(sorted(order))}
    m = M.SSEQMusic(song(tracks, True, order, begins), None, [])
    same(set(m.tracks), set(tracks), 'track numbers')
    for t, body in tracks.items():
        got = [Q.read(e, {id(x): q for q, x in enumerate(m.tracks[t].events)}) for e in m.tracks[t].events]
        same([e for e in got if e[0] != 'EndTrack'], [e for e in body if e[0] != 'EndTrack'], 'events of track %d' % t)
    keep(m, tracks, ctx, 'song')
    ctx.state(case)


# Options of the constructor
def genOptions(tier):
    return range(4)


def checkOptions(k, ctx):
    ctx.step()
    ctx.state(('opt', k))
    t = {0: [P, N], 2: [N, R3]}
    if k == 0:
        m = M.SSEQMusic(song(t))
        same((m.sbnk, m.swars), (None, None), 'bank and archives')
        plays(savedBytes(m), t, 'song without bank')
        same(m.save()[1:], (None, None), 'bank and archives when saving')
    elif k == 1:
        m = M.SSEQMusic(song(t), 'bank', ['a', 'b'])
        same(m.save()[1:], ('bank', ['a', 'b']), 'bank and archives when saving')
        m.loop(0, 5)
    elif k == 2:
        f = song(t)
        f.parse()
        m = M.SSEQMusic(f, None, [])
        plays(savedBytes(m), t, 'parsed song')
        raises(TypeError, lambda: M.SSEQMusic(song(t), None, 5), 'archives that are not a list')
    else:
        m = M.SSEQMusic(SSEQ.fromEvents([]), None, [])
        same(play(savedBytes(m)), {0: ([], 0)}, 'song without events')


# Looping

def expectLoop(evs, start, end, keepRest):
    """The list after looping, or None if a loop is not possible there."""
    i, t, _, evs = expectMove(evs, 0, start, 1, True, True)
    if t != start:
        return None
    j, t, _, evs = expectMove(evs, 0, end, 1, True, True)
    if t != end:
        return None
    return evs[:j] + [('Jump', i)] + (evs[j:] if keepRest else [])


def genLoops(tier):
    return lists(4 if tier == 'quick' else 5, [N, R3, P, QP])


def checkLoops(case, ctx):
    body = [[N, R3, P, QP][i] for i in case]
    total = times(body)[0][-1]
    for start in range(0, total + 3):
        for end in range(start + 1, total + 5):
            for clear in (True, False, None):
                tr = M.SSEQMusic.Track([Q.make(e) for e in body])
                want = expectLoop(body, start, end, clear is False)
                kw = {} if clear is None else {'clearTrailing': clear}
                if want is None:
                    raises(RuntimeError, lambda: tr.loop(start, end, **kw), 'looping from %d to %d' % (start, end))
                    same(timeline([Q.read(e) for e in tr.events]), timeline(body), 'track after refusing')
                    continue
                tr.loop(start, end, **kw)
                same(tr.looped, True, 'looped')
                f = SSEQ.fromEvents(list(tr.events))
                if not isinstance(tr.events[-1], ss.JumpSequenceEvent):
                    f.events.append(ss.EndTrackSequenceEvent())
                data = SSEQ(f.save()[0]).eventsData
                same(play(data), play(assemble({0: want}, False)), 'playing the loop from %d to %d' % (start, end))
                got = [Q.read(e, {id(x): k for k, x in enumerate(tr.events)}) for e in tr.events]
                same(got, want, 'events of the loop from %d to %d' % (start, end))
                raises(RuntimeError, lambda: tr.loop(start, end), 'looping twice')
                ctx.step(3)
    ctx.state(case)


# What comes after the loop: events of every kind, jumps' relatives included

TAILS = [('Call', 0), ('Return',), ('If',), END, ('BeginLoop', 2), ('EndLoop',), ('BeginTrack', 3, 0), INST, P, N, R3, ('RawData', b'\x01'), ('Tempo', 90)]


def genTails(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        yield from itertools.product(range(len(TAILS)), repeat=n)


def checkTails(case, ctx):
    evs = [N, R3, P] + [TAILS[i] for i in case]
    for clear in (True, False, None):
        for start, end in ((0, 4), (0, 7), (4, 7), (2, 7), (5, 6), (7, 11), (0, 30)):
            objs = []
            for e in evs:
                if e[0] == 'Call':
                    objs.append(ss.CallSequenceEvent(objs[e[1]]))
                elif e[0] == 'BeginTrack':
                    objs.append(ss.BeginTrackSequenceEvent(e[1], objs[e[2]]))
                else:
                    objs.append(Q.make(e))
            body = evs
            if evs[-1] == END:
                body = evs[:-1]
            tr = M.SSEQMusic.Track(objs)
            want = expectLoop(body, start, end, clear is False)
            kw = {} if clear is None else {'clearTrailing': clear}
            if want is None:
                raises(RuntimeError, lambda: tr.loop(start, end, **kw), 'looping from %d to %d' % (start, end))
                continue
            tr.loop(start, end, **kw)
            got = [Q.read(e, {id(x): q for q, x in enumerate(tr.events)}) for e in tr.events]
            same(got, want, 'events of the loop from %d to %d' % (start, end))
            ctx.step()
    music = M.SSEQMusic(SSEQ.fromEvents([]), None, [])
    music.tracks.clear()
    music.tracks[2] = M.SSEQMusic.Track([Q.make(N), Q.make(R3)])
    music.tracks[2].loop(0, 4)
    music.tracks[5] = M.SSEQMusic.Track([Q.make(N), Q.make(R3)])
    raises(RuntimeError, lambda: music.loop(0, 4), 'looping a song with a looped track')
    ctx.state(case)


# Initial values

PROPS = [('initialPan', 'Pan', 10, 20), ('initialVolume', 'TrackVolume', 11, 127), ('initialTranspose', 'Transpose', 12, 0),
         ('initialPriority', 'TrackPriority', 64, 1), ('initialMonoPoly', 'MonoPoly', 1, 0), ('initialAttackRate', 'AttackRate', 1, 2),
         ('initialDecayRate', 'DecayRate', 1, 2), ('initialSustainRate', 'SustainRate', 1, 2), ('initialReleaseRate', 'ReleaseRate', 1, 2),
         ('initialTempo', 'Tempo', 120, 240), ('initialInstrument', 'InstrumentSwitch', (0, 3), (2, 7))]
CONTEXTS = [[], ['X'], ['G', 'X'], ['X', 'N'], ['N', 'X'], ['R', 'X', 'N'], ['G', 'X', 'N', 'R'], ['X', 'N', 'X'], ['X', 'X'], ['G', 'N', 'X', 'J0'],
            ['X', 'N', 'R', 'J0'], ['G', 'X', 'N', 'R', 'J1'], ['X', 'X', 'N', 'R', 'J0'], ['X', 'R', 'J1'], ['N', 'R', 'J1'], ['G', 'R', 'J0'], ['r', 'X'], ['G', 'r', 'X', 'N'], ['L', 'X'], ['n', 'X'], ['G'] * 20 + ['X', 'N'],
            ['X', 'N', 'I', 'J0', 'R', 'J0'], ['G', 'X', 'I', 'J1', 'N', 'I', 'J1', 'R', 'I', 'J0', 'J1'], ['X', 'I', 'J0', 'X', 'I', 'J3', 'N', 'J0']]


def genInitial(tier):
    return itertools.product(range(len(PROPS)), range(len(CONTEXTS)), ('none', 'a', 'b', 'b-none', 'a-b', 'none-a', 'b-a'), (False, True))


def event(kind, v):
    return (kind,) + (v if isinstance(v, tuple) else (v,))


def checkInitial(case, ctx):
    p, c, ops, multi = case
    name, kind, va, vb = PROPS[p]
    body = []
    for x in CONTEXTS[c]:
        body.append({'X': event(kind, va), 'G': ('GlobalVolume', 5), 'N': N, 'R': R3, 'r': R1, 'L': ('Rest', 300), 'n': ('Note', 0, 0, False, 0), 'I': ('If',)}.get(x) or ('Jump', int(x[1:])))
    tracks = {0: body}
    if multi:
        tracks = {0: [P], 3: body}
    m = M.SSEQMusic(song(tracks), None, [])
    t = max(tracks)
    tr = m.tracks[t]

    def find():
        for i, e in enumerate(body):
            if e[0] == kind:
                return i
            if e[0] in ('Note', 'Rest'):
                return None

    def value(v):
        return tuple(v) if kind == 'InstrumentSwitch' and v is not None else v

    i = find()
    same(value(getattr(tr, name)), None if i is None else (body[i][1:] if kind == 'InstrumentSwitch' else body[i][1]), name)
    for op in ops.split('-'):
        v = {'none': None, 'a': va, 'b': vb}[op]
        setattr(tr, name, v)
        i = find()
        if v is None:
            if i is not None:
                del body[i]
                body[:] = [(e[0], e[1] - (e[1] > i)) if e[0] == 'Jump' else e for e in body]
        elif i is None:
            body[:] = [event(kind, v)] + [(e[0], e[1] + 1) if e[0] == 'Jump' else e for e in body]
        else:
            body[i] = event(kind, v)
        i = find()
        same(value(getattr(tr, name)), None if i is None else (body[i][1:] if kind == 'InstrumentSwitch' else body[i][1]), name + ' after setting it to %r' % (v,))
        if not any(e[0] == 'Jump' for e in body):
            same(M.durationOf(tr.events), timeline(body)[1], 'duration')
        ctx.step()
    tracks[t] = body
    for other, kind2, v, _ in PROPS:
        if kind2 != kind:
            same(getattr(tr, other), None, other)
    keep(m, tracks, ctx, 'song with changed ' + name)
    ctx.state(case)


# Velocities

def genVelocity(tier):
    for a in list(range(-130, 131)):
        yield ('add', a)
    for k in range(0, 65):
        yield ('mul', k / 16)


def checkVelocity(case, ctx):
    kind, x = case
    for clamp in (True, False, None):
        evs = [('Note', v, v, bool(v % 2), 3) for v in range(128)] + [P, R3]
        wants = [int(v + x if kind == 'add' else v * x) for v in range(128)]
        kw = {} if clamp is None else {'clamp': clamp}
        bad = [v for v in wants if not 0 <= v <= 127]
        if clamp is False and bad:
            for e, w in zip(evs, wants):
                tr = M.SSEQMusic.Track([Q.make(e)])
                f = tr.addToNoteVelocities if kind == 'add' else tr.multiplyNoteVelocitiesBy
                if 0 <= w <= 127:
                    f(x, clamp=False)
                    same(tr.events[0].velocity, w, 'velocity')
                else:
                    raises(ValueError, lambda: f(x, clamp=False), 'a velocity of %d' % w)
                    same(tr.events[0].velocity, e[2], 'velocity after refusing')
                ctx.step()
            continue
        tr = M.SSEQMusic.Track([Q.make(e) for e in evs])
        (tr.addToNoteVelocities if kind == 'add' else tr.multiplyNoteVelocitiesBy)(x, **kw)
        want = [('Note', v, min(127, max(0, w)), bool(v % 2), 3) for v, w in enumerate(wants)] + [P, R3]
        same([Q.read(e) for e in tr.events], want, 'events')
        ctx.step()
    ctx.state(case)


# Several list changes at once

OPS = ['i0', 'i1', 'i2', 'i3', 'd0', 'd1', 'd2', 's0', 's1', 's2']


def genTogether(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            for what in range(3):
                yield (ops, what)


def checkTogether(case, ctx):
    case, what = case
    items = ['a', 'b', 'c']
    ins, dele, rep = {k: [] for k in range(4)}, set(), {}
    with M.SimultaneousEventsModifier(items) as mod:
        for n, k in enumerate(case):
            op, i = OPS[k][0], int(OPS[k][1])
            new = ['n%d' % n, 'n', 'b'][what]      # different items, one item several times, one there already
            if op == 'i':
                mod.insert(i, new)
                ins[i].append(new)
            elif op == 'd':
                del mod[i]
                dele.add(i)
            else:
                mod[i] = new
                rep[i] = new
            same((list(mod), items), (['a', 'b', 'c'], ['a', 'b', 'c']), 'the list before leaving the block')
            ctx.step()
    want = []
    for i in range(4):
        want += ins[i]
        if i < 3:
            if i in rep:
                want.append(rep[i])
            elif i not in dele:
                want.append('abc'[i])
    same(items, want, 'the list afterwards')
    ctx.state(tuple(items))


# Histories of edits on a song

STEPS = ['loop0', 'loop1', 'loopall', 'collapse', 'pan', 'nopan', 'vel', 'del0', 'del2', 'add', 'addlow', 'reload', 'tempo', 'loopkeep']
START = [{0: [P, N, R3], 2: [N, R3, N2]}, {0: [N, R3, ('Jump', 0)], 2: [QP, P, N, R3, R3], 5: [N]}, {0: [N, R3]}, {0: [], 2: [N, N]}, {1: [N], 2: [P, N2]},
         {0: [R1, R3, P, N, N2, R3], 3: [R3, R1, ('Rest', 9), P]}]


def genHistories(tier):
    for s in range(len(START)):
        for n in range(1, 4 if tier == 'quick' else 5):
            for h in itertools.product(range(len(STEPS)), repeat=n):
                yield (s, h)


def checkHistories(case, ctx):
    s, h = case
    tracks = {t: list(b) for t, b in START[s].items()}
    m = M.SSEQMusic(song(tracks), None, [])

    def looped(t):
        return any(e[0] == 'Jump' for e in tracks[t])

    for n, k in enumerate(h):
        step = STEPS[k]
        last = max(tracks) if tracks else None
        if step in ('loop0', 'loop1') and last is not None:
            t = 0 if step == 'loop0' else last
            a, b = (0, 7) if step == 'loop0' else (4, 12)
            if t in tracks and not looped(t):
                want = expectLoop(tracks[t], a, b, False)
                if want is None:
                    raises(RuntimeError, lambda: m.tracks[t].loop(a, b), 'looping')
                else:
                    m.tracks[t].loop(a, b)
                    tracks[t] = want
        elif step in ('loopall', 'loopkeep'):
            wants = {t: expectLoop(b, 4, 8, step == 'loopkeep') for t, b in tracks.items()}
            if not any(looped(t) for t in tracks) and None not in wants.values():
                m.loop(4, 8, clearTrailing=step != 'loopkeep')
                tracks = wants
                for t in tracks:
                    got = [Q.read(e, {id(x): k for k, x in enumerate(m.tracks[t].events)}) for e in m.tracks[t].events if e.type != 0xFF]
                    same(got, [e for e in tracks[t] if e != END], 'track %d after %s' % (t, step))
        elif step == 'collapse':
            m.collapseTrackIDs()
            tracks = {i: tracks[t] for i, t in enumerate(sorted(tracks))}
        elif step in ('pan', 'nopan', 'tempo') and last is not None:
            kind, attr = ('Tempo', 'initialTempo') if step == 'tempo' else ('Pan', 'initialPan')
            v = {'pan': 33, 'nopan': None, 'tempo': 140}[step]
            setattr(m.tracks[last], attr, v)
            body = tracks[last]
            i = next((i for i, e in enumerate(body) if e[0] == kind and not any(x[0] in ('Note', 'Rest') for x in body[:i])), None)
            if v is None:
                if i is not None:
                    body = [(e[0], e[1] - (e[1] > i)) if e[0] == 'Jump' else e for q, e in enumerate(body) if q != i]
            elif i is None:
                body = [(kind, v)] + [(e[0], e[1] + 1) if e[0] == 'Jump' else e for e in body]
            else:
                body = body[:i] + [(kind, v)] + body[i + 1:]
            tracks[last] = body
        elif step == 'vel' and last is not None:
            m.tracks[last].addToNoteVelocities(15)
            tracks[last] = [e[:2] + (min(127, e[2] + 15),) + e[3:] if e[0] == 'Note' else e for e in tracks[last]]
        elif step in ('del0', 'del2'):
            t = int(step[3:])
            if t in tracks and len(tracks) > 1:
                del m.tracks[t], tracks[t]
        elif step == 'add':
            m.tracks[6 + n] = M.SSEQMusic.Track([Q.make(e) for e in (N2, R3, P)])
            tracks[6 + n] = [N2, R3, P]
        elif step == 'addlow':
            low = min(i for i in range(16) if i not in tracks)
            m.tracks[low] = M.SSEQMusic.Track([Q.make(e) for e in (P, N2, R1)])
            tracks[low] = [P, N2, R1]
        elif step == 'reload':
            m.save()
            m = M.SSEQMusic(SSEQ(m.sseq.save()[0]), None, [])
        same(set(m.tracks), set(tracks), 'tracks after %s' % step)
        for t, body in tracks.items():
            if not looped(t):
                same(timeline([Q.read(e) for e in m.tracks[t].events]), timeline(body), 'track %d after %s' % (t, step))
        ctx.step()
        ctx.state((step, tuple(sorted(tracks))))
    keep(m, tracks, ctx, 'edited song')


# Long lists, long durations, many tracks

LONG = [9, 17, 40, 130, 300, 1030]


def longList(n, k):
    """Notes and rests of changing length among events that take no time."""
    out = []
    for i in range(n):
        x = (i * i + k * i + k) % 11
        out.append([('Note', 40 + i % 60, 100, False, 1 + i % 5), ('Rest', 1 + i % 7), P, N, R3, QP if i % 3 else QM, ('TrackVolume', i % 128),
                    N2, R1, QM, ('Pan', i % 128)][x])
    return out


def genLong(tier):
    for n in LONG:
        for k in range(4):
            yield (n, k)


def checkLong(case, ctx):
    n, k = case
    evs = longList(n, k)
    for mode in (1, 0):
        same(M.durationOf([Q.make(e) for e in evs], ss.MonoPolySequenceEvent.Value(mode)), times(evs, mode)[0][-1], 'duration')
    ts = times(evs)[0]
    points = sorted({t + d for i in {*range(0, n, max(1, n // 12)), 8, n - 1} for t in (ts[i],) for d in (0, 1, 2)} | {ts[-1] + 1, ts[-1] + 300})
    for start in {0, 1, n // 2}:
        for time in points:
            for cut, append in itertools.product((False, True), repeat=2):
                objs = [Q.make(e) for e in evs]
                i, moved, m, after = expectMove(evs, start, time, 1, cut, append)
                got = M.moveInTime(objs, start, time, cut=cut, append=append)
                same((got[0], got[1], int(got[2])), (i, moved, m), 'moving by %d from event %d (cut %s, append %s)' % (time, start, cut, append))
                same([Q.read(o) for o in objs], after, 'the events after moving')
                ctx.step()
    for start, end in itertools.combinations(points[::max(1, len(points) // 7)], 2):
        tr = M.SSEQMusic.Track([Q.make(e) for e in evs])
        want = expectLoop(evs, start, end, False)
        if want is None:
            raises(RuntimeError, lambda: tr.loop(start, end), 'looping from %d to %d' % (start, end))
            continue
        tr.loop(start, end)
        same([Q.read(e, {id(x): q for q, x in enumerate(tr.events)}) for e in tr.events], want, 'loop from %d to %d' % (start, end))
        ctx.step()
    tracks = {0: evs, 4: evs[::-1]}
    m = M.SSEQMusic(song(tracks), None, [])
    keep(m, tracks, ctx, 'song', 5000, 2500)
    tr = m.tracks[4]
    tr.addToNoteVelocities(-3)
    tr.initialTranspose = 7
    tracks[4] = [('Transpose', 7)] + [e[:2] + (e[2] - 3,) + e[3:] if e[0] == 'Note' else e for e in tracks[4]]
    keep(m, tracks, ctx, 'edited song', 5000, 2500)
    ctx.state(case)


DURATIONS = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x3FFF, 0x4000, 0xFFFF, 0x10000, 0x1FFFFF, 0x200000, 0xFFFFFFF]


def genDurations2(tier):
    return itertools.product(DURATIONS, DURATIONS, (0, 1))


def checkDurations2(case, ctx):
    a, b, k = case
    evs = [('Rest', a), N, ('Rest', b), P] if k else [('Note', 60, 100, False, a), P, ('Rest', b)]
    total = times(evs)[0][-1]
    same(M.durationOf([Q.make(e) for e in evs]), total, 'duration')
    points = sorted({max(0, t + d) for t in (0, a, b, a + b, total, a // 2, total // 2, total - b // 3, total + 0x3FFF, total + 0x10000, total + 0x200000) for d in (-1, 0, 1)})
    for time in points:
        for cut, append in itertools.product((False, True), repeat=2):
            objs = [Q.make(e) for e in evs]
            i, moved, m, after = expectMove(evs, 0, time, 1, cut, append)
            got = M.moveInTime(objs, 0, time, cut=cut, append=append)
            same((got[0], got[1], int(got[2])), (i, moved, m), 'moving by %d (cut %s, append %s)' % (time, cut, append))
            same([Q.read(o) for o in objs], after, 'the events after moving')
            ctx.step()
    for start, end in itertools.combinations(points, 2):
        if end > 0xFFFFFFF:
            continue
        tr = M.SSEQMusic.Track([Q.make(e) for e in evs])
        want = expectLoop(evs, start, end, False)
        if want is None:
            raises(RuntimeError, lambda: tr.loop(start, end), 'looping from %d to %d' % (start, end))
            continue
        tr.loop(start, end)
        same([Q.read(e, {id(x): q for q, x in enumerate(tr.events)}) for e in tr.events], want, 'loop from %d to %d' % (start, end))
        ctx.step()
    ctx.state(case)


def genTracks(tier):
    for n in range(1, 17):
        for how in range(4):
            for k in range(3):
                yield (n, how, k)


def checkTracks(case, ctx):
    """Up to 16 tracks, in every order of creation: ascending, descending, rotated, from odd to even numbers."""
    n, how, k = case
    numbers = list(range(n)) if k == 0 else list(range(16))[-n:] if k == 1 else [(5 * i + 2) % 16 for i in range(n)]
    numbers.sort()
    if how == 1:
        numbers.reverse()
    elif how == 2:
        numbers = numbers[n // 2:] + numbers[:n // 2]
    elif how == 3:
        numbers.sort(key=lambda t: (t % 2 == 0, t))
    tracks = {t: [('Pan', t), ('Note', 40 + t, 100, False, 1 + t), R3] + ([('Jump', 1)] if t % 3 == 2 else [N2]) for t in numbers}
    m = M.SSEQMusic(SSEQ.fromEvents([]), None, [])
    m.tracks.clear()
    for t in numbers:
        objs = [Q.make(e) for e in tracks[t] if e[0] != 'Jump']
        if t % 3 == 2:
            objs.append(ss.JumpSequenceEvent(objs[1]))
        m.tracks[t] = M.SSEQMusic.Track(objs)
    keep(m, tracks, ctx, 'song')
    m2 = M.SSEQMusic(SSEQ(m.sseq.save()[0]), None, [])
    same(set(m2.tracks), set(tracks), 'tracks')
    for t in tracks:
        got = [Q.read(e, {id(x): k for k, x in enumerate(m2.tracks[t].events)}) for e in m2.tracks[t].events if e.type != 0xFF]
        same(got, tracks[t], 'events of track %d after loading' % t)
    for x in (m, m2):
        x.collapseTrackIDs()
        small = {i: tracks[t] for i, t in enumerate(sorted(tracks))}
        keep(x, small, ctx, 'renumbered song')
        for t in small:
            same(x.tracks[t].initialPan, small[t][0][1], 'initial pan of track %d' % t)
    if not any(t % 3 == 2 for t in numbers):
        m.loop(0, 40)
        keep(m, {t: expectLoop(b, 0, 40, False) for t, b in small.items()}, ctx, 'looped song')
    ctx.state(case)


# Simultaneous edits of long lists
def genTogether2(tier):
    for n in (5, 12, 40, 300):
        for k in range(6):
            yield (n, k)


def checkTogether2(case, ctx):
    n, k = case
    items = list(range(n))
    ins, dele, rep = {}, set(), {}
    with M.SimultaneousEventsModifier(items) as mod:
        for q in range(n + 10):
            i = (q * 7 + k) % n
            kind = (q * q + k) % 6
            if kind < 3:
                i = (i + 1) % (n + 1)
                mod.insert(i, ('n', q))
                ins.setdefault(i, []).append(('n', q))
            elif kind == 3:
                del mod[i]
                dele.add(i)
            else:
                mod[i] = ('r', q)
                rep[i] = ('r', q)
            ctx.step()
        same(items, list(range(n)), 'the list before leaving the block')
    want = []
    for i in range(n + 1):
        want += ins.get(i, [])
        if i < n:
            if i in rep:
                want.append(rep[i])
            elif i not in dele:
                want.append(i)
    same(items, want, 'the list afterwards')
    ctx.state(case)


spaces = [
    Space('long', genLong, checkLong, 'lists of up to 1030 events x times and loop points spread over them'),
    Space('durations2', genDurations2, checkDurations2, 'all pairs of 13 durations up to 0xFFFFFFF x times and loop points around them'),
    Space('tracks', genTracks, checkTracks, '1..16 tracks x 3 sets of numbers x 4 orders of creation'),
    Space('together2', genTogether2, checkTogether2, 'series of up to 310 simultaneous edits of lists of up to 300 items'),
    Space('durations', genDurations, checkDurations, lambda t: 'all lists of up to %d of 7 events x initial modes' % (4 if t == 'quick' else 5)),
    Space('moves', genMoves, checkMoves, lambda t: 'all lists of up to %d of 7 events x starts x times x options' % (3 if t == 'quick' else 4)),
    Space('loopedmoves', genLoopedMoves, checkLoopedMoves, 'lists of 2 events with a jump anywhere x starts x times x options'),
    Space('orders', genOrders, checkOrders, 'songs of 2 to 4 tracks (5 thorough) x all orders of their contents in the file x all orders of their begin events x 5 bodies'),
    Space('tails', genTails, checkTails, lambda t: 'loops before every series of up to %d of 13 events, references included' % (2 if t == 'quick' else 3)),
    Space('options', genOptions, checkOptions, 'optional bank and archives, parsed and empty songs'),
    Space('songs', genSongs, checkSongs, lambda t: 'all pairs%s of 27 track bodies on several track numbers' % ('' if t == 'quick' else ' and triples')),
    Space('loops', genLoops, checkLoops, lambda t: 'all lists of up to %d of 4 events x all loop points' % (4 if t == 'quick' else 5)),
    Space('initial', genInitial, checkInitial, '11 initial values x 24 contexts x 7 series of changes'),
    Space('velocity', genVelocity, checkVelocity, 'all velocities x additions -130..130 x factors 0..4'),
    Space('together', genTogether, checkTogether, lambda t: 'all series of up to %d simultaneous list edits with different or equal items' % (3 if t == 'quick' else 4)),
    Space('histories', genHistories, checkHistories, lambda t: 'all histories of up to %d of 14 edits on 6 songs' % (3 if t == 'quick' else 4)),
]
