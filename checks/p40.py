"""P40: what a format cannot hold is refused, never misread or mangled."""
import copy
import itertools
import struct
from mc.core import Space, Violation, same, require, raises, short
from mc import zoo, ref_bank as B, ref_seq as Q
from ndspy import WaveType, bmg, bnbl, bncl, code, fnt, graphics2D as G, lz10, narc, soundArchive, soundBank, texture
from ndspy import soundSequence as ss
from ndspy.soundSequence import SSEQ
from ndspy.soundSequenceArchive import SSAR, SSARSequence
from ndspy.soundStream import STRM
from ndspy.soundWave import SWAV
from ndspy.soundWaveArchive import SWAR

VERSIONS = {'NARC': 1, 'SDAT': 0x100, 'SBNK': 0x100, 'SSEQ': 0x100, 'SSAR': 0x100, 'STRM': 0x100, 'SWAV': 0x100, 'SWAR': 0x100, 'NSBMD': 2, 'NSBTX': 1}
FORMATS = ['BMG', 'BNBL', 'BNCL'] + list(VERSIONS)


def saved(name, k):
    """(file data, other values to load it with)"""
    kind = zoo.BY_NAME[name]
    s = kind.save(kind.makers[k]())
    return (bytes(s[0]), tuple(s[1:])) if isinstance(s, tuple) else (bytes(s), None)


def load(name, data, rest):
    return zoo.BY_NAME[name].load(data if rest is None else (data,) + rest)


def examples(name):
    first = 1 if name == 'NSBMD' else 0
    return range(first, len(zoo.BY_NAME[name].makers))


# Magic numbers

def genMagics(tier):
    for name in FORMATS:
        for k in examples(name):
            for at in range(8 if name == 'BMG' else 4):
                yield (name, k, at)
            yield (name, k, 'swap')
            for other in FORMATS:
                if other != name:
                    yield (name, k, other)


def checkMagics(case, ctx):
    name, k, how = case
    data, rest = saved(name, k)
    load(name, data, rest)
    n = 8 if name == 'BMG' else 4
    if how == 'swap':
        bad = [data[:n][::-1] + data[n:], data[:n].lower() + data[n:], b'\0' * n + data[n:], data[:n].swapcase() + data[n:], b'\xFF' * n + data[n:],
               data[1:] + b'\0' * 20, b'\0' + data, b'\x10' + data, data[:2] + data[1:2] + data[3:]]
        bad = [d for d in bad if d[:n] != data[:n]]
    elif isinstance(how, int):
        bad = [data[:how] + bytes([b]) + data[how + 1:] for b in range(256) if b != data[how]]
    else:
        # files of other formats, as they are and with everything but the magic replaced
        bad = [saved(how, i)[0] for i in examples(how)]
        bad += [bad[0][:n] + data[n:]] if how != 'BMG' or name == 'BMG' else [bad[0][:8] + data[8:]]
        bad = [d + b'\0' * 32 for d in bad]
    for d in bad:
        raises(ValueError, lambda: load(name, d, rest), 'loading a %s file with the magic %r' % (name, d[:n]))
        if rest is None or name in ('SBNK', 'SSEQ', 'SSAR', 'STRM', 'SWAR'):
            raises(ValueError, lambda: load(name, bytearray(d), rest), 'loading a %s file with the magic %r from a bytearray' % (name, d[:n]))
        ctx.step()
    ctx.state(case)


INNER = {'BMG': 'INF1 DAT1 FLW1 FLI1', 'NARC': 'BTAF BTNF GMIF', 'SDAT': 'SYMB INFO FAT_', 'SBNK': 'DATA', 'SSAR': 'DATA', 'STRM': 'HEAD DATA', 'SWAV': 'DATA', 'SWAR': 'DATA',
         'NSBMD': 'MDL0 TEX0', 'NSBTX': 'TEX0'}


def genInner(tier):
    for name, magics in INNER.items():
        for k in examples(name):
            for m in magics.replace('_', ' ').split(' ') if name != 'SDAT' else ('SYMB', 'INFO', 'FAT '):
                yield (name, k, m)
    for n in (0, 1, 2, 16, 17, 300):
        yield ('LZ10', n, None)
    for k in (1, 2):
        yield ('BMG', k, 'encoding')
    for k in (1, 2):
        for i in range(4):
            yield ('SBNK', k, i)


def checkInner(case, ctx):
    name, k, m = case
    ctx.state(case)
    if name == 'LZ10':
        data = lz10.compress(bytes(i * 7 % 256 for i in range(k)))
        for b in range(256):
            d = bytes([b]) + bytes(data[1:])
            if b == 0x10:
                same(len(lz10.decompress(d)), k, 'length')
            else:
                raises(TypeError, lambda: lz10.decompress(d), 'decompressing data of type %d' % b)
            ctx.step()
        return
    data, rest = saved(name, k)
    if m == 'encoding':
        for b in range(256):
            d = data[:16] + bytes([b]) + data[17:]
            if not 1 <= b <= 4:
                raises(ValueError, lambda: load(name, d, rest), 'loading BMG text encoding %d' % b)
            ctx.step()
    elif isinstance(m, int):
        for b in range(18, 256):
            d = data[:0x3C + 4 * m] + bytes([b]) + data[0x3D + 4 * m:]
            raises(ValueError, lambda: load(name, d, rest), 'loading instrument type %d' % b)
            ctx.step()
    else:
        m = m.encode()
        i = data.find(m, 16)
        if i < 0:
            return
        for j in range(4):
            for b in range(256):
                d = data[:i + j] + bytes([b]) + data[i + j + 1:]
                if d[i:i + 4] not in (m, b'FLW1', b'FLI1'):
                    refuses(lambda: load(name, d, rest), 'loading a %s file with %r in place of %r' % (name, d[i:i + 4], m))
                    ctx.step()
        ctx.outcome('%s %s' % (name, m))


# Version numbers

def genVersions(tier):
    for name in VERSIONS:
        for k in examples(name)[-1:] if tier == 'quick' else examples(name):
            for hi in range(256):
                yield (name, k, hi)


def checkVersions(case, ctx):
    name, k, hi = case
    data, rest = saved(name, k)
    for lo in range(256):
        v = hi * 256 + lo
        d = data[:6] + struct.pack('<H', v) + data[8:]
        if v == VERSIONS[name]:
            load(name, d, rest)
        else:
            raises(ValueError, lambda: load(name, d, rest), 'loading %s version %d' % (name, v))
        if name == 'NARC':
            d = d[:4] + b'\xFE\xFF' + d[6:]
            if v == 0x100:
                same(load(name, d, rest).endiannessOfBeginning, '>', 'endianness')
            else:
                raises(ValueError, lambda: load(name, d, rest), 'loading big-endian NARC version %d' % v)
        ctx.step()
    ctx.state(case)


# Number fields

FIELDS = [
    ('ROM', 1, 32, 'arm7CodeSettingsPointerAddress arm7EntryAddress arm7RamAddress arm9CodeSettingsPointerAddress arm9EntryAddress arm9RamAddress debugRomAddress '
                   'normalCardControlRegisterSettings secureCardControlRegisterSettings'),
    ('ROM', 1, 8, 'autostart deviceCapacity encryptionSeedSelect pad015 pad016 pad017 pad018 pad019 pad01A pad01B pad01C region unitCode version'),
    ('ROM', 1, 16, 'secureAreaChecksum secureTransferDelay filenames.firstID filenames.folders.0.1.firstID filenames.folders.1.1.firstID'),
    ('NARC', 1, 16, 'filenames.firstID filenames.folders.0.1.firstID filenames.folders.1.1.firstID'),
    ('file names', 1, 16, 'firstID folders.0.1.firstID folders.1.1.firstID'),
    ('BMG', 1, 32, 'id unk14 unk18 unk1C'),
    ('BMG', 2, 32, 'id unk14 unk18 unk1C'),
    ('BMG', 1, 8, 'messages.0.stringParts.1.type'),
    ('BMG', 2, 8, 'messages.0.stringParts.1.type'),
    ('main code', 2, 32, 'sections.1.bssSize sections.1.ramAddress sections.3.bssSize sections.3.ramAddress'),
    ('SSAR', 1, 16, 'sequences.0.1.bankID sequences.1.1.bankID'),
    ('SSAR', 1, 8, 'sequences.0.1.channelPressure sequences.0.1.playerID sequences.0.1.polyphonicPressure sequences.0.1.volume '
                   'sequences.1.1.channelPressure sequences.1.1.playerID sequences.1.1.polyphonicPressure sequences.1.1.volume'),
    ('SSAR', 2, 16, 'sequences.0.1.bankID sequences.2.1.bankID'),
    ('SSAR', 2, 8, 'sequences.0.1.channelPressure sequences.0.1.playerID sequences.1.1.polyphonicPressure sequences.2.1.volume'),
] + [('SBNK', k, bits, ' '.join('%s.%s' % (d, a) for d in where.split() for a in attrs.split()))
     for k in (1, 2)
     for where in ('instruments.0.noteDefinition', 'instruments.2.noteDefinitions.0', 'instruments.2.noteDefinitions.1', 'instruments.3.regions.0.noteDefinition',
                   'instruments.3.regions.1.noteDefinition') + (('inaccessibleInstruments.0.0.noteDefinitions.0',) if k == 2 else ())
     for bits, attrs in ((8, 'attack decay pan pitch release sustain'), (16, 'waveID waveArchiveIDID'))] + [
    ('SBNK', 1, 16, 'instruments.2.noteDefinitions.0.dutyCycle'),
    ('SWAV', 1, 16, 'sampleRate time'),
    ('SWAR', 2, 16, 'waves.0.sampleRate waves.0.time waves.1.sampleRate waves.1.time'),
    ('STRM', 1, 16, 'sampleRate time'),
    ('STRM', 2, 32, 'loopOffset samplesInLastBlock samplesPerBlock unk28 unk2C unk30 unk34 unk38 unk3C unk40 unk44'),
    ('STRM', 2, 8, 'unk03'),
    ('SDAT', 1, 16, 'banks.0.1.unk02 banks.1.1.unk02 sequenceArchives.0.1.unk02 sequencePlayers.0.1.maxSequences sequences.0.1.bankID sequences.1.1.bankID sequences.0.1.unk02 '
                    'sequences.1.1.unk02 streams.0.1.unk02 streams.1.1.unk02 waveArchives.0.1.unk02 waveArchives.1.1.unk02 sequenceArchives.0.1.sequences.0.1.bankID'),
    ('SDAT', 1, 32, 'groups.0.1.0.id groups.0.1.1.id groups.1.1.1.id sequencePlayers.0.1.heapSize sequencePlayers.1.1.heapSize'),
    ('SDAT', 1, 8, ' '.join('sequences.%d.1.%s' % (i, a) for i in (0, 1) for a in ('channelPressure', 'playerID', 'polyphonicPressure', 'volume'))),
    ('SDAT', 1, 8, ' '.join('streams.%d.1.%s' % (i, a) for i in (0, 1) for a in ('playerID', 'priority', 'unk07', 'volume'))),
    ('SDAT', 1, 8, 'streamPlayers.0.1.channels.0 streamPlayers.0.1.channels.1 streamPlayers.1.1.channels.2'),
    ('BNBL', 2, 16, 'unk04'),
    ('BNBL', 2, 8, 'touchAreas.0.height touchAreas.0.width touchAreas.1.height touchAreas.1.width'),
    ('BNCL', 2, 16, 'unk04'),
    ('BNCL', 2, 32, 'imagePositions.0.imageID imagePositions.1.imageID'),
    ('NSBTX', 1, 32, 'unk08 unk10 unk18 unk20 unk2C textures.0.1.unk04'),
    ('NSBTX', 1, 16, 'unk32 palettes.0.1.unk00 palettes.0.1.unk02 palettes.0.1.unkHeader02 textures.0.1.unk00 textures.0.1.unk02'),
    ('NSBMD', 1, 32, 'texUnk08 texUnk10 texUnk18 texUnk20 texUnk2C textures.0.1.unk04'),
    ('NSBMD', 1, 16, 'texUnk32 palettes.0.1.unk00 palettes.0.1.unk02 palettes.0.1.unkHeader02 textures.0.1.unk00 textures.0.1.unk02'),
]


def values(bits, tier):
    top = 1 << bits
    fine = {0, 1, 2, 127, 128, 255, top // 2 - 1, top // 2, top // 2 + 1, top - 2, top - 1, 0x5A5A5A5A % top, 0xC3C2C1C0 % top} | {1 << i for i in range(bits)}
    if bits <= 8:
        fine = set(range(top))
    wrong = {-1, -2, -128, -129, -(top // 2), -top // 2 - 1, -top, top, top + 1, 2 * top - 1, 2 * top, 1 << 16 if bits < 16 else top + 2, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 64}
    return sorted(v for v in fine if v < top), sorted(v for v in wrong if not 0 <= v < top)


def genFields(tier):
    for kind, k, bits, names in FIELDS:
        for name in names.split():
            yield (kind, k, bits, name, tier)


def at(obj, steps):
    for s in steps:
        obj = obj[int(s)] if s.isdigit() else getattr(obj, s)
    return obj


def refuses(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation('%s: nothing raised, returned %s' % (what, short(r, 100)))


def checkFields(case, ctx):
    kindName, k, bits, name, tier = case
    kind = zoo.BY_NAME[kindName]
    *steps, last = name.split('.')
    fine, wrong = values(bits, tier)
    if 'streamPlayers' in name:
        fine = [v for v in fine if v < 255]     # 0xFF is no channel
    if last in ('samplesInLastBlock', 'samplesPerBlock'):
        fine = [v for v in fine if v < 1 << 29]     # their total is stored as well
    for v, good in [(v, True) for v in fine] + [(v, False) for v in wrong]:
        obj = kind.makers[k]()
        place = at(obj, steps)
        if last.isdigit():
            place[int(last)] = v
        else:
            setattr(place, last, v)
        if good:
            got = at(kind.load(kind.save(obj)), steps + [last])
            same(got, v, '%s %s after saving and loading' % (kindName, name))
        else:
            refuses(lambda: kind.save(obj), 'saving a %s with %s = %d' % (kindName, name, v))
        ctx.step()
    ctx.state(case)
    ctx.outcome('%d bits' % bits)


OVERLAY = ['ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID']


def genOverlays(tier):
    for f in OVERLAY + ['id']:
        yield f


def checkOverlays(f, ctx):
    fine, wrong = values(32, 'quick')
    for v in fine + wrong:
        o = zoo.makeOverlay(0)
        if f != 'id':
            setattr(o, f, v)
        table = {v if f == 'id' else 5: o}
        if v in fine:
            got = code.loadOverlayTable(bytes(code.saveOverlayTable(table)), lambda a, b: b'')
            same(list(got), list(table), 'overlay ID')
            same(getattr(list(got.values())[0], 'fileID' if f == 'id' else f), o.fileID if f == 'id' else v, f)
        else:
            refuses(lambda: code.saveOverlayTable(table), 'saving an overlay table with %s = %d' % (f, v))
        ctx.step()
    ctx.state(f)


# More items than a count or offset field can express

def counted(what, n):
    """(object, what its items are after loading, the items)"""
    if what == 'touch areas':
        x = bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(1, 2)] * n)
        return x.save, lambda d: len(bnbl.BNBL(d).touchAreas)
    if what == 'image positions':
        x = bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(1, 2)] * n)
        return x.save, lambda d: len(bncl.BNCL(d).imagePositions)
    if what == 'channels':
        return STRM.fromChannels([[b'abcd']] * n).save, lambda d: len(STRM(*d).channels)
    if what == 'messages':
        return bmg.BMG.fromMessages([bmg.Message(b'', ['x'])] * n).save, lambda d: len(bmg.BMG(d).messages)
    if what == 'instructions':
        b = bmg.BMG()
        b.instructions = [b'12345678'] * n
        return b.save, lambda d: len(bmg.BMG(d).instructions)
    if what == 'scripts':
        b = bmg.BMG()
        b.scripts = [(1, 1)] * n
        return b.save, lambda d: len(bmg.BMG(d).scripts)
    if what == 'info':
        return bmg.BMG.fromMessages([bmg.Message(bytes(n), ['x'])]).save, lambda d: len(bmg.BMG(d).messages[0].info)
    if what == 'escape':
        for enc in ('utf-8', 'utf-16'):
            b = message(['a', bmg.Message.Escape(3, bytes(n + (1 if enc == 'utf-8' else 0))), 'z'], enc)
            if enc == 'utf-8':
                if n > 250:
                    refuses(b.save, 'saving an escape sequence of %d bytes' % (n + 1))
                else:
                    same(len(bmg.BMG(b.save()).messages[1].stringParts[1].data), n + 1, 'escape sequence length')
        return b.save, lambda d: len(bmg.BMG(d).messages[1].stringParts[1].data)
    if what == 'bank':
        insts = []
        for i in range(n):
            defs = [soundBank.NoteDefinition(i * 128 + j & 0xFFFF, 0) for j in range(128)]
            insts.append(soundBank.RangeInstrument(0, defs))
        return soundBank.SBNK.fromInstruments(insts).save, lambda d: len(soundBank.SBNK(*d).instruments)
    x = texture.NSBTX()
    if what == 'palettes':
        x.palettes = [('p%d' % i, texture.Palette.fromColors(0, 0, 0, [(0, 0, 0, 0)] * 4)) for i in range(n)]
        return x.save, lambda d: len(texture.NSBTX(d).palettes)
    x.textures = [('t%d' % i, zoo.makeNsbtx(1).textures[0][1]) for i in range(n)]
    return x.save, lambda d: len(texture.NSBTX(d).textures)


COUNTS = [('touch areas', [0, 1, 255, 256, 65535], [65536, 65537, 70000, 131072]), ('image positions', [0, 1, 255, 256, 65535], [65536, 65537, 70000, 131072]),
          ('channels', [0, 1, 127, 128, 255], [256, 257, 300, 512]), ('messages', [0, 1, 255, 256, 32768, 65535], [65536, 65537, 70000]), ('instructions', [0, 2, 256], [65536, 65537, 70000, 131072]),
          ('scripts', [0, 1, 256, 65535], [65536, 65537, 70000, 131072]), ('info', [0, 4, 252, 65528], [65532, 65536, 65540, 131068]), ('escape', [0, 2, 100, 248, 250], [252, 254, 256, 258, 300, 600]),
          ('bank', [0, 1, 30, 42], [45, 60, 90]), ('palettes', [0, 1, 127, 128, 255], [256, 257, 300, 512]), ('textures', [0, 1, 127, 128, 255], [256, 257, 300, 512])]


def genCounts(tier):
    for what, fine, wrong in COUNTS:
        for n in fine:
            yield (what, n, True)
        for n in wrong:
            yield (what, n, False)


def checkCounts(case, ctx):
    what, n, good = case
    save, count = counted(what, n)
    if good:
        same(count(save()), n, what)
    else:
        refuses(save, 'saving %d as %s' % (n, what))
    ctx.state(case)
    ctx.step()


NUMBERS = [('labels', 0, -128, 127), ('labels', 1, -32768, 32767), ('scripts', 0, 0, 0xFFFFFFFF), ('scripts', 1, 0, 0xFFFF)]


def genNumbers(tier):
    for what, side, low, high in NUMBERS:
        for v in sorted({low - 1, low, low + 1, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, high - 1, high, high + 1, high * 2 + 2, -high, low - 1000, 1 << 32, 1 << 64}):
            yield (what, side, v, low <= v <= high)


def checkNumbers(case, ctx):
    what, side, v, good = case
    for end in '<>':
        b = bmg.BMG()
        b.endianness = end
        b.instructions = [b'12345678'] * 3
        items = [(5, 1), (v, 1) if side == 0 else (5, v), (6, 1)]
        setattr(b, what, items)
        if good:
            same(getattr(bmg.BMG(b.save()), what)[:3], items, what)
        else:
            refuses(b.save, 'saving %s %r' % (what, items))
        ctx.step()
    ctx.state(case)


# Fields of fixed length

LENGTHS = [('developerCode', 2), ('idCode', 4), ('nintendoLogo', 0x9C), ('pad088', 0x38), ('pad16C', 0x94)]


def genLengths(tier):
    for name, n in LENGTHS:
        for m in range(0, n + 20):
            yield (name, n, m)


def checkLengths(case, ctx):
    name, n, m = case
    for k in range(4):
        r = zoo.makeRom(k)
        v = bytes((i * 7 + 1) % 256 for i in range(m))
        setattr(r, name, v)
        if m == n:
            same(bytes(getattr(zoo.BY_NAME['ROM'].load(r.save()), name)), v, name)
        else:
            refuses(r.save, 'saving a ROM with %s of %d bytes' % (name, m))
        ctx.step()
    ctx.state(case)


# Sequence events

EVENTS = [(k, 'loopCount' if k == 'BeginLoop' else 'value', 8) for k in Q.BYTE if k not in Q.BYTE_LIMIT]


def genEvents(tier):
    for k, attr, bits in EVENTS:
        yield (k, attr)
    for k in ('Note', 'Rest', 'InstrumentSwitch', 'BeginTrack', 'varlen'):
        yield (k, None)


def event(k, attr, v):
    e = Q.make((k, 1))
    setattr(e, attr, v)
    return e


def checkEvents(case, ctx):
    k, attr = case
    fine, wrong = values(8, 'thorough')

    def bytesOf(*events):
        return SSEQ(*SSEQ.fromEvents(list(events) + [ss.EndTrackSequenceEvent()]).save()).eventsData

    if attr:
        for v in fine:
            same(bytesOf(event(k, attr, v)), Q.encode((k, v)) + b'\xFF', 'event data')
            ctx.step()
        for v in wrong:
            refuses(lambda: bytesOf(event(k, attr, v)), 'saving %s %d' % (k, v))
            ctx.step()
    elif k == 'Note':
        for v in range(-130, 400):
            for which in ('pitch', 'velocity'):
                e = ss.NoteSequenceEvent(60, 100, 5)
                setattr(e, which, v)
                if 0 <= v < 128:
                    same(bytesOf(e), Q.encode(('Note', v if which == 'pitch' else 60, v if which == 'velocity' else 100, False, 5)) + b'\xFF', 'note data')
                elif v < 0 and which == 'velocity':
                    refuses(lambda: bytesOf(e), 'saving a note with velocity %d' % v)
                else:
                    raises(ValueError, lambda: bytesOf(e), 'saving a note with %s %d' % (which, v))
                ctx.step()
    elif k == 'BeginTrack':
        for v in fine + wrong:
            end = ss.EndTrackSequenceEvent()
            e = ss.BeginTrackSequenceEvent(1, end)
            e.trackNumber = v
            if v in fine:
                same(SSEQ(*SSEQ.fromEvents([e, end]).save()).eventsData, Q.encode(('BeginTrack', v, 5)) + b'\xFF', 'event data')
            else:
                refuses(lambda: SSEQ.fromEvents([e, end]).save(), 'saving track number %d' % v)
            ctx.step()
    else:
        for v in [-1, -2, -127, -128, -129, -(1 << 14), -(1 << 28), -(1 << 40)]:
            for e in (ss.RestSequenceEvent(v), ss.NoteSequenceEvent(60, 100, v), ss.InstrumentSwitchSequenceEvent(v, 0), ss.InstrumentSwitchSequenceEvent(0, v)):
                raises(ValueError, lambda: bytesOf(e), 'saving %r' % e)
                ctx.step()
    ctx.state(case)


# Contents that are refused

def bank(waveArchives, regions=1):
    n = soundBank.NoteDefinition(0, 0)
    return soundBank.SBNK.fromInstruments([soundBank.RegionalInstrument([soundBank.RegionalInstrument.Region(127 if i == regions - 1 else i + 1, n) for i in range(regions)])],
                                          0, list(waveArchives))


def message(text, encoding):
    b = bmg.BMG()
    b.encoding = encoding
    b.messages = [bmg.Message(b'', ['fine']), bmg.Message(b'', text)]
    return b


def genRefused(tier):
    for n in range(0, 12):
        for where in range(3):
            yield ('banks', n, where)
    for n in range(1, 20):
        yield ('regions', n)
    for enc in ('cp1252', 'utf-16', 'shift-jis', 'utf-8', 'ascii', 'latin-1', 'utf-32', '', 'UTF16', 'utf-16le'):
        for end in ('<', '>', 'x', '=', '!'):
            yield ('encoding', enc, end)
    for c in range(0, 0x100):
        yield ('character', c)
    for n in range(0, 20):
        for where in range(3):
            yield ('instruction', n, where)
            yield ('info', n, where)
    for w in list(range(0, 40)) + [48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 65536, -8, 1 << 32]:
        yield ('size', w)
    for n in range(0, 70):
        yield ('palette', n)
    for a in range(0, 20):
        for b in range(0, 12):
            yield ('texeled', a, b)
    for n in list(range(0, 40)) + [100, 127, 128, 255, 256, 1000]:
        yield ('name16', n)
    for n in list(range(1, 140)) + [254, 255, 256, 257, 300, 1000]:
        yield ('name127', n)
    for n in list(range(0, 70)) + [96, 127, 128, 256]:
        yield ('tile', n)
    for n in range(1, 6):
        for pattern in itertools.product((0, 1), repeat=n):
            yield ('formats', pattern)
    for a in (0, 1, 2, 7, 100, 1023):
        for b in (0, 1, 2, 7, 100, 101, 1023, 1024):
            yield ('offset', a, b)
    for a in range(0, 8):
        for b in range(0, 8):
            yield ('loop', a, b)
    for shape in itertools.product(range(0, 4), repeat=3):
        yield ('channels', shape)
    for lens in itertools.product((4, 8), repeat=6):
        yield ('blocks', lens)
    for k in range(8):
        yield ('parsing', k)
    for text in ('Ā', 'café', 'あ', 'x€', '\U0001F600'):
        yield ('text', text)


def checkRefused(case, ctx):
    what, *a = case
    ctx.state(case)
    ctx.step()
    ctx.outcome(what)

    def expect(good, fn, exc=ValueError):
        if good:
            return fn()
        raises(exc, fn, '%r' % (case,))

    if what == 'banks':
        n, where = a
        s = soundArchive.SDAT()
        s.banks = [('B%d' % i, bank(range(n) if i == where else [1])) for i in range(3)]
        got = expect(n <= 4, s.save)
        if n <= 4:
            same(soundArchive.SDAT(got).banks[where][1].waveArchiveIDs, list(range(n)), 'wave archives')
    elif what == 'regions':
        n, = a
        b = bank([0], n)
        got = expect(n <= 8, b.save)
        if n <= 8:
            same(len(soundBank.SBNK(*got).instruments[0].regions), n, 'regions')
    elif what == 'encoding':
        enc, end = a
        b = message(['text'], 'utf-8')
        b.encoding, b.endianness = enc, end
        got = expect(enc in ('cp1252', 'utf-16', 'shift-jis', 'utf-8') and end in '<>' and len(end) == 1, b.save)
        if got is not None:
            same((bmg.BMG(got).encoding, bmg.BMG(got).endianness), (enc, end), 'encoding')
    elif what == 'character':
        c = chr(a[0])
        for enc in ('utf-16', 'utf-8', 'cp1252'):
            for text in ([c], ['a' + c], [c + 'b'], ['x' * 300 + c + 'y'], ['one', 'two' + c + 'two', 'three'], ['', bmg.Message.Escape(1, b'\0\0'), c]):
                if enc == 'cp1252' and a[0] > 0x7F:
                    continue
                b = message(text, enc)
                got = expect(a[0] not in (0, 0x1A), b.save)
                if got is not None:
                    parts = bmg.BMG(got).messages[1].stringParts
                    same(''.join(p for p in parts if isinstance(p, str)), ''.join(p for p in text if isinstance(p, str)), 'text')
                ctx.step()
    elif what == 'instruction':
        n, where = a
        b = message(['x'], 'utf-8')
        b.instructions = [bytes(range(1, (n if i == where else 8) + 1)) for i in range(3)]
        got = expect(n == 8, b.save)
        if n == 8:
            same(bmg.BMG(got).instructions[:3], [bytes(range(1, 9))] * 3, 'instructions')
    elif what == 'info':
        n, where = a
        for base in (0, 4, 6):
            b = bmg.BMG()
            b.messages = [bmg.Message(bytes(range(n if i == where else base)), ['m%d' % i]) for i in range(3)]
            expect(n == base, b.save)
    elif what == 'size':
        w, = a
        for which in ('width', 'height'):
            for k in (1, 2):
                t = zoo.makeNsbtx(k)
                setattr(t.textures[0][1], which, w)
                expect(w in (8, 16, 32, 64, 128, 256, 512, 1024), t.save)
                m = zoo.makeNsbmd(k)
                if m.textures:
                    setattr(m.textures[0][1], which, w)
                    expect(w in (8, 16, 32, 64, 128, 256, 512, 1024), m.save)
    elif what == 'palette':
        n, = a
        for k in (1, 2):
            t = zoo.makeNsbtx(k)
            t.palettes[0][1].colors = [(i % 32, 1, 2, 0) for i in range(n)]
            expect(n % 4 == 0, t.save)
    elif what == 'texeled':
        x, y = a
        F = texture.TextureFormat.TEXELED
        t = zoo.makeNsbtx(1)
        t.textures[0][1].format, t.textures[0][1].data1, t.textures[0][1].data2 = F, bytes(4 * x), bytes(2 * y)
        expect(x == y, t.save)
        t.textures[0][1].data1 = bytearray(x)
        t.textures[0][1].data2 = bytearray(y)
        expect(x == 2 * y, t.save)
    elif what == 'name16':
        n, = a
        for kind in ('textures', 'palettes'):
            t = zoo.makeNsbtx(1)
            L = getattr(t, kind)
            for i in range(len(L)):
                t = zoo.makeNsbtx(1)
                L = getattr(t, kind)
                L[i] = ('n' * n, L[i][1])
                got = expect(n <= 16, t.save)
                if n <= 16:
                    same(getattr(texture.NSBTX(got), kind)[i][0], 'n' * n, 'name')
    elif what == 'name127':
        n, = a
        for model in ((('a' * n,), (), 0), (('x', 'a' * n), (), 0), ((), (('a' * n, (('y',), (), 0)),), 0), ((), (('d', (('a' * n,), (), 0)),), 0),
                      ((), (('d', ((), (('\xe9' * n, ((), (), 0)),), 0)),), 0)):
            def folder(m):
                return fnt.Folder([(name, folder(f)) for name, f in m[1]], list(m[0]), m[2])
            expect(n <= 127, lambda: fnt.save(folder(model)))
            x = narc.NARC.fromFilesAndNames([b'1', b'2'], folder(model))
            got = expect(n <= 127, x.save)
            if n <= 127:
                same(repr(narc.NARC(got).filenames), repr(folder(model)), 'file names')
            r = zoo.makeRom(0)
            r.files, r.filenames = [b'1', b'2'], folder(model)
            expect(n <= 127, r.save)
    elif what == 'tile':
        n, = a
        for F, size in ((G.ImageFormat.I4, 32), (G.ImageFormat.I8, 64)):
            expect(n == size, lambda: G.ImageTile(bytes(n), F))
            expect(n == size, lambda: G.ImageTile(bytearray(n), format=F))
        expect(n == 64, lambda: G.ImageTile(bytes(n)))
        for F in (None, 'I4', 4, 8, G.TilemapFormat.I8):
            raises(ValueError, lambda: G.ImageTile(None, F), 'a tile of format %r' % (F,))
        for F in (None, 'I8', 16, G.ImageFormat.I8):
            raises(ValueError, lambda: G.TilemapTile(0, F), 'an entry of format %r' % (F,))
    elif what == 'formats':
        p, = a
        tiles = [G.ImageTile(None, [G.ImageFormat.I4, G.ImageFormat.I8][x]) for x in p]
        expect(len(set(p)) == 1, lambda: G.saveImageTiles(tiles))
        maps = [G.TilemapTile(3, [G.TilemapFormat.I8, G.TilemapFormat.I10H1V1P4][x]) for x in p]
        expect(len(set(p)) == 1, lambda: G.saveTilemapTiles(maps))
    elif what == 'offset':
        num, off = a
        t = G.TilemapTile(num, G.TilemapFormat.I10H1V1P4)
        tiles = [G.ImageTile(bytes([i % 16]) * 64) for i in range(1024)]
        colors = [(i, 0, 0, 1) for i in range(16)]
        got = expect(num >= off, lambda: t.render(tiles, colors, off))
        if num >= off:
            same([c[0] for c in got], [(num - off) % 16] * 64, 'rendered tile')
        expect(num >= off, lambda: t.renderAsImage(tiles, colors, tileNumOffset=off))
    elif what == 'loop':
        start, total = a
        for T in WaveType:
            w = SWAV.fromData(bytes(32), waveType=T, isLooped=True, sampleRate=16000, time=1, loopOffset=start, totalLength=total)
            expect(start <= total, w.save)
            expect(start <= total, SWAR.fromWaves([SWAV.fromData(b'abcd', totalLength=1), w]).save)
    elif what == 'channels':
        shape, = a
        s = STRM.fromChannels([[b'abcd'] * n for n in shape])
        got = expect(len(set(shape)) == 1, s.save)
        if got is not None:
            same([len(c) for c in STRM(*got).channels], list(shape), 'blocks')
    elif what == 'blocks':
        lens, = a
        good = lens[0] == lens[1] == lens[3] == lens[4] and lens[2] == lens[5]
        s = STRM.fromChannels([[bytes(n) for n in lens[:3]], [bytes(n) for n in lens[3:]]])
        got = expect(good, s.save)
    elif what == 'parsing':
        parsing(a[0])
    elif what == 'text':
        text, = a
        good = all(ord(c) < 256 for c in text)
        expect(good, lambda: fnt.save(fnt.Folder([], [text])), UnicodeEncodeError)
        expect(good, lambda: fnt.save(fnt.Folder([(text, fnt.Folder())], [])), UnicodeEncodeError)
        t = zoo.makeNsbtx(1)
        t.textures[0] = (text, t.textures[0][1])
        expect(good, t.save, UnicodeEncodeError)
        b = message([text], 'cp1252')
        expect(good or text == 'x€', b.save, UnicodeEncodeError)


# One bad item among many good ones

def buriedTiles(n, bad):
    return lambda: G.saveImageTiles([G.ImageTile(None, G.ImageFormat.I4 if i == bad else G.ImageFormat.I8) for i in range(n)])


def buriedEntries(n, bad):
    return lambda: G.saveTilemapTiles([G.TilemapTile(i % 200, G.TilemapFormat.I8 if i == bad else G.TilemapFormat.I10H1V1P4) for i in range(n)])


def buriedInstruction(n, bad):
    b = message(['x'], 'utf-8')
    b.instructions = [bytes(7 if i == bad else 8) for i in range(n)]
    return b.save


def buriedInfo(n, bad):
    b = bmg.BMG()
    b.messages = [bmg.Message(bytes(3 if i == bad else 4), ['m%d' % i]) for i in range(n)]
    return b.save


def buriedText(char):
    def build(n, bad):
        b = bmg.BMG()
        b.encoding = 'utf-8'
        b.messages = [bmg.Message(b'', ['m%d' % i + char * (i == bad)]) for i in range(n)]
        return b.save
    return build


def buriedPart(n, bad):
    b = bmg.BMG()
    b.encoding = 'utf-16'
    b.messages = [bmg.Message(b'', ['p\0' if i == bad else 'p' for i in range(n)])]
    return b.save


def buriedLabel(n, bad):
    b = message(['x'], 'utf-8')
    b.labels = [(200 if i == bad else 3, i) for i in range(n)]
    return b.save


def buriedTexture(change):
    def build(n, bad):
        t = zoo.makeNsbtx(1)
        one = t.textures[0][1]
        t.textures = [('t%d' % i, copy.deepcopy(one)) for i in range(n)]
        t.palettes = [('p%d' % i, texture.Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4)) for i in range(n)]
        if bad is not None:
            change(t, bad)
        return t.save
    return build


def texSize(t, i):
    t.textures[i][1].height = 24


def texName(t, i):
    t.textures[i] = ('n' * 17, t.textures[i][1])


def palName(t, i):
    t.palettes[i] = ('n' * 17, t.palettes[i][1])


def palSize(t, i):
    t.palettes[i][1].colors = [(1, 2, 3, 0)] * 5


def buriedFile(n, bad):
    return lambda: fnt.save(fnt.Folder([], ['f' * (128 if i == bad else 1) + '%d' % i * (i != bad) for i in range(n)]))


def buriedFolder(n, bad):
    return lambda: fnt.save(fnt.Folder([('f' * (128 if i == bad else 1) + '%d' % i * (i != bad), fnt.Folder()) for i in range(n)]))


def buriedBank(n, bad):
    s = soundArchive.SDAT()
    s.banks = [('B%d' % i, bank([1] * (5 if i == bad else 4))) for i in range(n)]
    return s.save


def buriedRegions(n, bad):
    b = bank([1])
    b.instruments = [bank([1], 9 if i == bad else 1).instruments[0] for i in range(n)]
    return b.save


def buriedWave(n, bad):
    return SWAR.fromWaves([SWAV.fromData(bytes(8), isLooped=True, loopOffset=3 if i == bad else 0, totalLength=2) for i in range(n)]).save


def buriedChannel(n, bad):
    return STRM.fromChannels([[b'abcd'] * (3 if i == bad else 2) for i in range(n)]).save


def buriedSize(at):
    def build(n, bad):
        return STRM.fromChannels([[b'abcdefgh' if i == bad and j == at else b'abcd' for j in range(4)] for i in range(n)]).save
    return build


def buriedBlock(n, bad):
    return STRM.fromChannels([[b'abcd'] * n, [b'abcdefgh' if i == bad else b'abcd' for i in range(n)]]).save


def buriedNote(n, bad):
    return SSEQ.fromEvents([ss.NoteSequenceEvent(128 if i == bad else 60, 100, 5) for i in range(n)]).save


def buriedRest(n, bad):
    return SSEQ.fromEvents([ss.RestSequenceEvent(-1 if i == bad else 300) for i in range(n)]).save


BURIED = {'tiles': buriedTiles, 'entries': buriedEntries, 'instruction': buriedInstruction, 'info': buriedInfo, 'nul': buriedText('\0'), 'escape': buriedText('\x1A'),
          'part': buriedPart, 'label': buriedLabel, 'texture size': buriedTexture(texSize), 'texture name': buriedTexture(texName), 'palette name': buriedTexture(palName),
          'palette size': buriedTexture(palSize), 'file': buriedFile, 'folder': buriedFolder, 'bank': buriedBank, 'regions': buriedRegions, 'wave': buriedWave,
          'channel': buriedChannel, 'first block': buriedSize(0), 'third block': buriedSize(2), 'last block': buriedSize(3), 'block': buriedBlock, 'note': buriedNote, 'rest': buriedRest}


def genBuried(tier):
    for what in BURIED:
        for n in (5, 16, 64, 200, 255, 300, 1025) if tier == 'quick' else (5, 16, 33, 64, 128, 200, 255, 300, 512, 1025, 3000):
            if n > 300 and (what == 'regions' or n > 1025 and what in ('bank', 'wave')):
                continue
            if n > 255 and what in ('channel', 'first block', 'third block', 'last block', 'texture size', 'texture name', 'palette name', 'palette size'):
                continue
            for bad in [None] + sorted({0, 1, 2, 4, n // 2, n - 2, n - 1} | {i for i in (7, 8, 15, 127, 128, 254, 255, 256) if i < n}):
                yield (what, n, bad)


def checkBuried(case, ctx):
    what, n, bad = case
    ctx.state(case)
    ctx.step()
    ctx.outcome(what)
    fn = BURIED[what](n, bad)
    if bad is None:
        fn()
    else:
        raises(Exception if what == 'label' else ValueError, fn, '%r' % (case,))


def parsing(k):
    """What is only there before, or only after, parsing."""
    if k < 4:
        s = zoo.makeSseq(1)
        if k == 0:
            raises(ValueError, lambda: s.events, 'events before parsing')
        elif k == 1:
            s.parse()
            raises(ValueError, lambda: s.eventsData, 'data after parsing')
        elif k == 2:
            for v in (True, False):
                raises(RuntimeError, lambda: setattr(s, 'parsed', v), 'setting parsed')
            same(s.parsed, False, 'parsed')
        else:
            s = SSEQ.fromEvents([])
            raises(ValueError, lambda: s.eventsData, 'data of a sequence made from events')
            same(s.parsed, True, 'parsed')
    elif k == 4:
        s = zoo.makeSsar(1)
        raises(ValueError, lambda: s.events, 'events before parsing')
        raises(ValueError, lambda: s.sequences[0][1].firstEvent, 'first event before parsing')
    elif k == 5:
        s = zoo.makeSsar(1)
        s.parse()
        raises(ValueError, lambda: s.eventsData, 'data after parsing')
        raises(ValueError, lambda: s.sequences[0][1].firstEventOffset, 'offset after parsing')
    elif k == 6:
        # sequences of the other kind
        for at in (0, 1, 2):
            s = zoo.makeSsar(1)
            s.sequences.insert(at, ('other', SSARSequence(None, 1, 2, 3, 4, 5)))
            raises(ValueError, s.save, 'saving a parsed sequence in an unparsed archive')
    else:
        for at in (0, 1, 2):
            s = zoo.makeSsar(2)
            other = zoo.makeSsar(1).sequences[0]
            s.sequences.insert(at, other)
            raises(ValueError, s.save, 'saving an unparsed sequence in a parsed archive')


spaces = [
    Space('magics', genMagics, checkMagics, 'every example of 13 formats x every other value of every byte of its magic x 9 other magics x every example of the other 12 formats'),
    Space('inner', genInner, checkInner, 'every other value of every byte of the magics of the blocks inside files of 10 formats; every type byte of LZ10 data, BMG text and bank entries'),
    Space('versions', genVersions, checkVersions, 'all 65536 version numbers of 10 formats (both byte orders for NARC)'),
    Space('fields', genFields, checkFields, 'number fields of 16 kinds of objects x all values of an 8-bit field, up to 45 values that fit a wider one, and 16 that do not fit'),
    Space('overlays', genOverlays, checkOverlays, '7 fields of overlay table entries x 45 values that fit and 15 that do not'),
    Space('counts', genCounts, checkCounts, '11 kinds of items x numbers of them up to and beyond what the file can count'),
    Space('numbers', genNumbers, checkNumbers, 'BMG labels and scripts x 22 values x both byte orders'),
    Space('lengths', genLengths, checkLengths, '5 ROM header fields x every length up to 20 beyond the right one'),
    Space('events', genEvents, checkEvents, 'all single-byte events x all values -130..; note pitches and velocities -130..399; negative durations'),
    Space('buried', genBuried, checkBuried, '24 kinds of items that cannot be saved, at up to 14 places among up to 1025 good ones (255 textures, palettes and channels)'),
    Space('refused', genRefused, checkRefused, 'counts, lengths, sizes, names, characters, formats and block shapes around the limits of each format'),
]
assumptions = ['Data is long enough to hold a header. Values stored in bit fields (positions and alignments in BNBL and BNCL, texture formats, group entry options) are left out.']
