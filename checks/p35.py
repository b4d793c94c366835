"""P35: minifying a sound bank keeps everything that is played."""
import itertools
from mc.core import Space, same, require
from mc import ref_seq as Q, ref_bank as B
from ndspy import WaveType
from ndspy import soundBank as sb
from ndspy.soundBank import SBNK
from ndspy.soundSequence import SSEQ
from ndspy.soundWave import SWAV
from ndspy.soundWaveArchive import SWAR
from ndspy.extras import music as M

END = ('EndTrack',)


def note(wave, archive=0, typ=1, pan=64):
    return (wave, archive, 60, 127, 126, 125, 124, pan, typ)


def resolve(bank, num, pitch):
    """The definition an instrument has for a pitch, or None."""
    inst = bank[num]
    if inst is None:
        return None
    if inst[0] == 'S':
        return inst[1]
    if inst[0] == 'R':
        i = pitch - inst[1]
        return inst[2][i] if 0 <= i < len(inst[2]) else None
    for end, n in inst[1]:
        if pitch <= end:
            return n
    return None


def definitions(inst):
    if inst is None:
        return []
    if inst[0] == 'S':
        return [inst[1]]
    return list(inst[2]) if inst[0] == 'R' else [n for e, n in inst[1]]


def wave(a, w):
    return SWAV.fromData(bytes([a, w % 256, w // 256, 7]), waveType=WaveType(w % 3), sampleRate=8000 + 100 * a + w, totalLength=1)


def waveKey(s):
    return (int(s.waveType), s.sampleRate, bytes(s.data))


def program(seq):
    """The event tuples of a sequence: tracks of (instrument, pitches) runs."""
    def run(track):
        out = []
        for inst, pitches in track:
            inst, bank = inst if isinstance(inst, tuple) else (inst, 0)
            out.append(('InstrumentSwitch', bank, inst))
            for p in pitches:
                p, vel, dur = p if isinstance(p, tuple) else (p, 100, 3)
                out += [('Note', p, vel, False, dur), ('Rest', 1)]
        return out + [END]

    if len(seq) == 1:
        return run(seq[0])
    return None, [run(t) for t in seq]


def makeSseq(seq):
    s = SSEQ(SSEQ().save()[0])
    s.parse()
    prog = program(seq)
    if isinstance(prog, list):
        s.events = [Q.make(e) for e in prog]
    else:
        tracks = [[Q.make(e) for e in t] for t in prog[1]]
        import ndspy.soundSequence as ss
        head = [ss.DefineTracksSequenceEvent(set(range(len(tracks))))]
        head += [ss.BeginTrackSequenceEvent(i, t[0]) for i, t in enumerate(tracks) if i]
        s.events = head + [e for t in tracks for e in t]
    return s


def sounds(events, bank, waves):
    """What each note sounds like, in event order."""
    cur, out = None, []
    for e in events:
        if type(e).__name__ == 'InstrumentSwitchSequenceEvent':
            cur = e.instrumentID
            require(cur < len(bank), 'instrument %d does not exist', cur)
            out.append(('switch' if bank[cur] else 'switch to none', e.bankID))
        elif type(e).__name__ == 'NoteSequenceEvent':
            d = resolve(bank, cur, e.pitch)
            if d is not None and d[8] == 1:
                require(d[1] < len(waves) and d[0] < len(waves[d[1]]), 'played wave %r does not exist', d[:2])
                d = (waves[d[1]][d[0]],) + d[1:]
            out.append((e.pitch, e.velocity, e.duration, d))
        else:
            out.append(type(e).__name__)
    return out


def check(case, ctx):
    archives, bank, seqs, api, times, flags = case
    bank = list(bank)
    insts = [B.makeInst(i) for i in bank]
    if 'shared' in flags:
        objs = {}
        for i in range(len(bank)):
            insts[i] = objs.setdefault(bank[i], insts[i])
    if 'shared notes' in flags:
        notes = {}

        def one(d):
            return notes.setdefault(B.readNote(d), d)
        for i in insts:
            if isinstance(i, sb.SingleNoteInstrument):
                i.noteDefinition = one(i.noteDefinition)
            elif isinstance(i, sb.RangeInstrument):
                i.noteDefinitions = [one(d) for d in i.noteDefinitions]
            elif isinstance(i, sb.RegionalInstrument):
                for r in i.regions:
                    r.noteDefinition = one(r.noteDefinition)
    sbnk = SBNK.fromInstruments(insts, 3, [0, 1, 2])
    swars = [SWAR.fromWaves([wave(a, w) for w in range(n)]) for a, n in enumerate(archives)]
    if 'inaccessible' in flags:
        spare = [B.makeInst(i) for i in (('S', note(0)), ('R', 60, (note(1, 1), note(2))), ('G', ((60, note(1)), (127, note(0)))))]
        sbnk.inaccessibleInstruments = {i: [spare[i % 3]] for i in range(-1, len(bank)) if i < 0 or bank[i] is not None}
        sbnk.inaccessibleInstruments[None] = sbnk.inaccessibleInstruments.pop(-1)
    if 'same waves' in flags:
        for s in swars:
            s.waves = [s.waves[i % 2] for i in range(len(s.waves))]
    waves = [[waveKey(w) for w in s.waves] for s in swars]
    given = None if 'no archives' in flags else swars
    sseqs = [makeSseq(s) for s in seqs]
    want = [sounds(s.events, bank, waves) for s in sseqs]
    seqs = [[[(i[0] if isinstance(i, tuple) else i, [p[0] if isinstance(p, tuple) else p for p in ps]) for i, ps in t] for t in s] for s in seqs]

    if 'from files' in flags:
        sbnk = SBNK(*sbnk.save())
    if 'unparsed' in flags:
        sseqs = [SSEQ(*s.save()) for s in sseqs]

    for _ in range(times):
        if api == 'events':
            M.minifyByEvents(itertools.chain.from_iterable(s.events for s in sseqs), sbnk, given)
        elif api == 'sseq':
            M.minifyBySseq(sseqs[0], sbnk, given)
        elif api == 'sseqs':
            M.minifyBySseqs(sseqs, sbnk, given)
        else:
            song = M.SSEQMusic(sseqs[0], sbnk, given)
            song.minify()
            song.save()
            sseqs = [song.sseq]
        ctx.step()

        # Everything is looked at as it is stored in files
        data = sbnk.save()
        same(tuple(data[1:]), (3, [0, 1, 2]), 'bank attributes')
        now = [B.readInst(i) for i in SBNK(*data).instruments]
        same([i for v in SBNK(*data).inaccessibleInstruments.values() for i in v], [], 'inaccessible instruments left')
        kept = [[waveKey(w) for w in SWAR(*s.save()).waves] for s in swars]
        got = []
        for s in sseqs:
            s = SSEQ(*s.save())
            s.parse()
            got.append(sounds(s.events, now, kept))
        ctx.state((tuple(now), tuple(map(tuple, kept)), repr(got)))
        if api == 'music':
            # Songs leave out unneeded track definitions
            drop = ('DefineTracksSequenceEvent', 'BeginTrackSequenceEvent', 'EndTrackSequenceEvent')
            got = [[x for x in g if x not in drop] for g in got]
            same(got, [[x for x in g if x not in drop] for g in want], 'sounds')
        else:
            same(got, want, 'sounds')

        selected = {i for s in seqs for t in s for i, ps in t}
        same(len(now), len(selected), 'number of instruments left')
        if given is None:
            same(kept, waves, 'waves of archives not given')
            ctx.outcome('archives not given')
            continue

        # Nothing superfluous is kept
        needed = set()
        for num in selected:
            inst = bank[num]
            played = [resolve(bank, num, p) for s in seqs for t in s for i, ps in t if i == num for p in ps]
            played = [d for d in played if d is not None]
            need = played if played and inst[0] != 'S' else definitions(inst)
            needed |= {waves[d[1]][d[0]] for d in need if d[8] == 1}
            ctx.outcome('played' if played else 'only selected')
        for k in kept:
            for w in k:
                require(w in needed, 'wave %r was kept but is not needed', w)
            if 'same waves' not in flags:
                same(len(set(k)), len(k), 'number of different waves kept')
        # The bank refers to nothing that was dropped
        for inst in now:
            for d in definitions(inst):
                if d[8] == 1:
                    require(d[0] < len(kept[d[1]]), 'instrument %r refers to a dropped wave', inst)


# One instrument of every shape

A, A1, A2 = note(0), note(1, pan=3), note(2)
Bw, B1 = note(0, 1), note(1, 1)
SQ, NOI = note(1, 0, 2), note(0, 0, 3)
NOTES = [A1, A2, B1, SQ, NOI]


def shapes(tier):
    yield None
    some = NOTES if tier == 'quick' else NOTES + [A, Bw]
    for n in some:
        yield ('S', n)
    for k in (1, 2, 3):
        for ns in itertools.product(some, repeat=k):
            yield ('R', 60, ns)
    for k in (1, 2, 3):
        ends = {1: (127,), 2: (60, 127), 3: (59, 61, 127)}[k]
        for ns in itertools.product(some, repeat=k):
            yield ('G', tuple(zip(ends, ns)))


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def pitchesOf(inst):
    if inst is None:
        return (60,)
    if inst[0] == 'S':
        return (60, 61)
    if inst[0] == 'R':
        return tuple(range(59, 61 + len(inst[2])))
    out = []
    low = 0
    for end, n in inst[1]:
        out += [low, end]
        low = end + 1
    return tuple(out)


def genOne(tier):
    for inst in shapes(tier):
        for ps in subsets(pitchesOf(inst)):
            flagsets = [(), ('no archives',)]
            for flags in flagsets:
                yield ((3, 2), (inst,), ((((0, ps),),),), 'events', 1, flags)


# Banks of several instruments: which are selected, which pitches are played

SMALL = [None, ('S', A1), ('S', B1), ('S', SQ), ('R', 60, (A2, A1)), ('R', 60, (B1, NOI)), ('G', ((60, A2), (127, Bw))), ('G', ((60, B1), (127, A1)))]


def genBanks(tier):
    for n in (2, 3):
        for bank in itertools.product(SMALL if n == 2 or tier != 'quick' else SMALL[1:3] + SMALL[4:5] + SMALL[6:7], repeat=n):
            for sel in subsets(range(n)):
                if not sel:
                    continue
                for order in {sel, sel[::-1]}:
                    for ps in itertools.product([(), (60,), (61, 60)], repeat=len(sel)):
                        track = tuple(zip(order, ps))
                        yield ((3, 2), bank, ((track,),), 'events', 1, ())


# Ways of calling it, histories, shared objects

def genApis(tier):
    banks = [(('S', A2), ('R', 60, (A1, B1, A1)), ('G', ((60, A2), (127, Bw)))),
             (('S', SQ), ('R', 60, (A2, SQ, A2)), ('R', 60, (A2, SQ, A2))),
             (('S', B1), ('S', B1), ('G', ((60, NOI), (62, A1), (127, B1))))]
    runs = [(i, ps) for i in range(3) for ps in ((), (60,), (62, 61))]
    for bank in banks:
        for r0 in runs:
            for r1 in runs:
                pair = (r0, r1)
                forms = [((pair,),), ((((r0,)), ((r1,))),), (((r0,),), ((r1,),))]
                for seqs in forms:
                    for api in ('events', 'sseq', 'sseqs', 'music'):
                        if len(seqs) > 1 and api in ('sseq', 'music'):
                            continue
                        for flags in ((), ('shared',), ('shared notes',), ('no archives',), ('from files',), ('unparsed',), ('unparsed', 'no archives'), ('inaccessible',)):
                            if 'unparsed' in flags and api == 'events':
                                continue
                            for times in (1, 2):
                                yield ((3, 2), bank, seqs, api, times, flags)


# Archives: every number of archives and waves, every used wave in each

def genArchives(tier):
    for archives in itertools.product(range(0, 4), repeat=3):
        every = [(a, w) for a in range(3) for w in range(archives[a])]
        for pick in itertools.chain(subsets(every)) if len(every) <= (6 if tier == 'quick' else 9) else itertools.combinations(every, 2):
            bank = tuple(('S', note(w, a)) for a, w in every)
            track = tuple((every.index(p), (60,)) for p in pick)
            if not track:
                continue
            yield (archives, bank, ((track,),), 'events', 1, ())


# Many waves, instruments, archives, definitions

WAVES = [0, 1, 9, 10, 11, 99, 100, 255, 256, 257, 299]


def genLarge(tier):
    # every wave number in two archives, played in various orders
    for a, b in itertools.product(WAVES, repeat=2):
        bank = (('S', note(a)), ('S', note(b, 1)), ('R', 60, (note(b), note(a, 1))), ('G', ((60, note(a, 1)), (127, note(b)))))
        for track in (((0, (60,)), (1, (60,))), ((2, (60, 61)), (0, (60,))), ((3, (60, 61)), (1, (60,)), (2, (61,)))):
            yield ((300, 300), bank, ((track,),), 'events', 1, ())
    # many waves in use at once
    for n, w in ((20, 20), (100, 300), (128, 300)):
        for step in (1, 7):
            bank = tuple(('S', note(i * step % w, i % 4)) for i in range(n))
            for sel in (range(n), range(n - 1, -1, -1), range(0, n, 3)):
                track = tuple((i, (60,)) for i in sel)
                for flags in ((), ('no archives',)):
                    yield ((w,) * 4, bank, ((track,),), 'events', 2, flags)
    # high instrument numbers
    for n in (17, 64, 100, 127, 128):
        bank = tuple(None if i % 5 == 1 else ('S', note(i % 3, i % 2)) if i % 5 else ('R', 60, (note(i % 3), note(0, 1))) for i in range(n))
        for sel in ((0, n - 1), (n - 1, 0), (n - 1, n - 2, n - 3), (15, 16, n - 1), (0, n // 2, n - 4)):
            track = tuple((i, (60, 61) if i % 5 == 0 else (60,)) for i in sel if bank[i])
            for api in ('events', 'sseqs', 'music'):
                for extra in (0, 1, 200):
                    yield ((3, 2), bank + bank[:extra], ((track,),), api, 1, ())
    # ranges and regions with many definitions
    for first, n in ((0, 128), (60, 68), (1, 16), (100, 28)):
        inst = ('R', first, tuple(note(i % 3, i % 2) if i % 2 == 0 else note(i % 2, 1, pan=i) if i % 7 else SQ for i in range(n)))
        for ps in ((first,), (first + n - 1,), (first, first + n - 1), tuple(range(128)), (0, 127), (first + 1, first + 2, first + 3)):
            yield ((3, 2), (('S', A2), inst), ((((1, ps), (0, (60,))),),), 'events', 1, ())
    for ends in ((0, 127), (0, 1, 2, 127), (126, 127), (10, 20, 30, 40, 50, 60, 70, 127), (0, 1, 125, 126, 127), (0, 63, 64, 127)):
        for rot in range(3):
            inst = ('G', tuple((e, (A, A1, A2, Bw, B1, SQ, NOI)[(i * 2 + rot) % 7]) for i, e in enumerate(ends)))
            at = sorted({p for e in ends for p in (e - 1, e, e + 1) if 0 <= p < 128})
            for k in range(len(at)):
                for ps in ((at[k],), tuple(at[k:k + 2]), (at[k], 127), (0, at[k]), tuple(p for p in at if p != at[k])):
                    yield ((3, 2), (inst,), ((((0, ps),),),), 'events', 1, ())
    # thousands of note definitions
    for n, k in ((30, 20), (128, 30)):
        bank = tuple(('R', 40, tuple(note((i * 3 + j * 5) % 100, (i + j) % 4) for j in range(k))) for i in range(n))
        for track in (tuple((i, (40, 40 + k - 1)) for i in range(n)), tuple((i, tuple(range(40, 40 + k))) for i in range(n - 1, -1, -1))):
            yield ((100,) * 4, bank, ((track,),), 'events', 1, ())
    # many sequences, many tracks
    for n in (3, 16):
        bank = tuple(('S', note(i, i % 4)) for i in range(20))
        tracks = tuple(((i, (60 + i,)), ((i * 7 + 3) % 20, (50, 51))) for i in range(n))
        for api in ('events', 'sseq', 'sseqs', 'music'):
            yield ((20,) * 4, bank, (tracks,), api, 1, ())
        for api in ('events', 'sseqs'):
            yield ((20,) * 4, bank, tuple((t,) for t in tracks), api, 1, ())
            yield ((20,) * 4, bank, tuple((t,) for t in tracks), api, 2, ('unparsed',) if api == 'sseqs' else ())


# Velocities, durations, banks of switches, archives with one wave object several times, long tracks

def genValues(tier):
    bank = (('S', A2), ('R', 60, (A1, B1, A1)), ('G', ((60, A2), (127, Bw))), ('S', B1))
    for vel, dur in itertools.product((0, 1, 100, 127), (0, 1, 127, 128, 0x4000, 0xFFFFFFF)):
        for inst, b in itertools.product(range(4), (0, 1, 127)):
            for p in (59, 60, 61, 62):
                for api in ('events', 'sseqs', 'music'):
                    yield ((3, 2), bank, (((((inst, b), ((p, vel, dur),)), (3, (60,))),),), api, 1, ())
                    yield ((3, 2), bank, (((((inst, b), ((60, vel, dur), (61, 100, 3)),), ((2, 3), ((p, 5, 0),))),),), api, 1, ())


def genSame(tier):
    for archives in itertools.product(range(0, 5), repeat=2):
        every = [(a, w) for a in range(2) for w in range(archives[a])]
        bank = tuple(('S', note(w, a)) for a, w in every)
        for pick in subsets(every):
            if pick:
                track = tuple((every.index(p), (60,)) for p in pick)
                yield (archives, bank, ((track,),), 'events', 1, ('same waves',))


def genLongTracks(tier):
    bank = tuple(('S', note(i, i % 4)) for i in range(20)) + (('R', 60, (note(0), note(1, 1), note(2, 2))),)
    for n in (130, 600, 1100, 5000):
        for last in (((20, (62,)), (7, (60,))), ((19, (60,)), (20, (60,)))):
            track = ((0, (60,) * (n // 2)),) + last
            for api in ('events', 'sseqs', 'music'):
                yield ((20,) * 4, bank, ((track,),), api, 1, ())
                yield ((20,) * 4, bank, ((((3, (60,)),), track),), api, 1, ())
    for n in (300, 1100):
        track = tuple((i % 20, (60 + i % 3,)) for i in range(n)) + ((20, (61,)),)
        for api in ('events', 'sseqs', 'music'):
            yield ((20,) * 4, bank, ((track,),), api, 1, ())


spaces = [
    Space('values', genValues, check, '4 velocities x 6 durations x 3 banks of switches x 4 instruments x 4 pitches x 3 entry points'),
    Space('same', genSame, check, 'two archives of 0..4 waves, each with two wave objects in several places x every subset in use'),
    Space('longtracks', genLongTracks, check, 'tracks of up to 10000 events whose last notes need their own waves'),
    Space('large', genLarge, check,
          'waves up to number 299 in up to 4 archives, up to 256 instruments (128 of them selectable), ranges of up to 128 pitches, up to 8 regions, up to 16 tracks or sequences'),
    Space('instruments', genOne, check,
          'every instrument of up to 3 definitions out of 5 kinds (7 thorough) x every subset of the pitches at its boundaries x archives given or not'),
    Space('banks', genBanks, check,
          'every bank of 2 or 3 instruments from 8 (4 for 3 in quick) x every selection in both orders x 3 sets of pitches each'),
    Space('calls', genApis, check,
          '3 banks x every pair of runs from 9 x one track, two tracks, two sequences x 4 entry points x 8 circumstances (shared objects, no archives, unparsed...) x once or twice'),
    Space('archives', genArchives, check,
          'every 3 archives of 0..3 waves x every subset of waves in use (pairs above 6 waves in quick)'),
]
assumptions = ['Every note follows a switch to its instrument in its own event list; the instruments selected and the waves of played notes exist.']
