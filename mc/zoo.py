"""
Example objects of every kind in the library, and ways to look at, find and
change everything inside them.
"""
import enum
import types

import ndspy
from ndspy import (bmg, bnbl, bncl, code, fnt, graphics2D, model, narc, rom, soundArchive, soundBank, soundGroup,
                   soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer,
                   soundWave, soundWaveArchive, texture, WaveType)
from mc import ref_bank, ref_fs, ref_sdat, ref_tex
from checks import p12, p16, p32

TREE = (('a', 'b.bin'), (('d', (('c',), (), 2)), ('e', ((), (), 3))), 0)


# ------------------------------------------------------------------ looking

SCALARS = (int, float, complex, str, bytes, type(None), type(Ellipsis))


def fields(obj):
    """Names of the public data attributes of a library object."""
    names = set(vars(obj)) if hasattr(obj, '__dict__') else set()
    for c in type(obj).__mro__:
        if c is object:
            continue
        for k, v in vars(c).items():
            if isinstance(v, (types.FunctionType, classmethod, staticmethod, type)):
                continue
            names.add(k)
    # (constants and nested classes are not part of an object's contents)
    return sorted(n for n in names if n[0].islower())


def isContainer(x):
    return not isinstance(x, SCALARS + (enum.Enum, type, types.FunctionType, types.MethodType, types.ModuleType, range))


def children(x):
    """(step, value) for everything directly inside a container."""
    if isinstance(x, dict):
        return [(('key', k), v) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [(('item', i), v) for i, v in enumerate(x)]
    if isinstance(x, (set, frozenset, bytearray)):
        return []
    out = []
    for n in fields(x):
        try:
            v = getattr(x, n)
        except Exception:
            continue
        if callable(v) and not isinstance(v, type):
            continue
        out.append((('attr', n), v))
    return out


def snapshot(x, seen=None):
    """A comparable picture of everything reachable from x."""
    seen = {} if seen is None else seen
    if isinstance(x, enum.Enum):
        return (type(x).__name__, x.name)
    if isinstance(x, bool):
        return x
    if isinstance(x, SCALARS + (range,)):
        return (type(x).__name__, x)
    if isinstance(x, type):
        return ('class', x.__name__)
    if isinstance(x, bytearray):
        return ('bytearray', bytes(x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, frozenset(x))
    if id(x) in seen:
        return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    seen[('keep', id(x))] = x
    return (type(x).__name__, tuple((s, snapshot(v, seen)) for s, v in children(x)))


def sites(x):
    """Paths to every mutable container reachable from x (each object once)."""
    out, seen, todo = [], set(), [((), x)]
    keep = []
    while todo:
        path, v = todo.pop(0)
        if not isContainer(v) or id(v) in seen:
            continue
        seen.add(id(v))
        keep.append(v)
        if not isinstance(v, (tuple, frozenset)):
            out.append(path)
        todo += [(path + (s,), c) for s, c in children(v)]
    return out


def walk(x, path):
    for kind, k in path:
        x = getattr(x, k) if kind == 'attr' else x[k]
    return x


class Junk:
    """Something no library object contains."""

    def __eq__(self, other):
        return isinstance(other, Junk)

    def __hash__(self):
        return 5


def spoil(v, how):
    """Change a container in place."""
    if isinstance(v, list):
        if how == 0:
            v.append(77)
        elif how == 1:
            v[:] = v[1:] or [78]
        else:
            v.clear()
    elif isinstance(v, dict):
        if how == 0:
            v[9999] = 77
        else:
            v.clear()
    elif isinstance(v, set):
        v.add(14) if 14 not in v else v.discard(14)
    elif isinstance(v, bytearray):
        v.append(77)
    else:
        for n in fields(v):
            try:
                old = getattr(v, n)
                if isinstance(old, (int, str, bytes)) and not isinstance(old, enum.Enum):
                    setattr(v, n, 77)
            except Exception:
                pass


# ------------------------------------------------------------------ objects

class Kind:
    """
    makers: functions returning a fresh example; load: from what save returns
    (None if there is no loading); save: the whole saved form, as a value;
    data: the file data in the saved form.
    """
    def __init__(self, name, makers, load=None, save=None, fromFile=None, args=((), {}), extra=()):
        self.name, self.makers = name, makers
        self.load = load
        self.save = save or (lambda o: o.save())


def makeRom(k):
    if k == 0:
        return rom.NintendoDSRom()
    files = tuple(bytes([65 + i]) * (5 * i) for i in range(4))
    m = ref_fs.romModel(arm9=bytes(range(40)), arm7=b'seven!', files=files, filenames=TREE, debugRom=b'dbg' * k, name=b'zoo', iconBanner=bytes([1, 0]) + bytes(0x83E))
    r = ref_fs.romToNdspy(m)
    r.sortedFileIds = [3, 1]
    if k == 3:
        # everything changeable, as after loading
        for n in ('name', 'idCode', 'developerCode', 'secureAreaDisable', 'pad088', 'nintendoLogo', 'pad16C', 'pad200', 'rsaSignature', 'arm9', 'arm9PostData',
                  'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner', 'debugRom'):
            setattr(r, n, bytearray(getattr(r, n)))
        r.files = [bytearray(f) for f in r.files]
    return r


def makeNarc(k):
    if k == 0:
        return narc.NARC()
    return narc.NARC.fromFilesAndNames([(bytearray if k == 2 else bytes)(f) for f in (b'x', b'', b'abc', b'last!')], ref_fs.toNdspy(TREE))


def makeFolder(k):
    return fnt.Folder() if k == 0 else ref_fs.toNdspy(TREE)


def makeBmg(k):
    b = bmg.BMG(id=3 * k)
    if k:
        E = bmg.Message.Escape
        b.messages = [bmg.Message(b'\1\2\3\4', ['hi ', E(4, b'\x27\x01'), 'there']), bmg.Message(bytes(4), [], True), bmg.Message(b'\0\0\0\0', ['', E(0)])]
        b.instructions = [bytes(8), b'\1\2\3\4\5\6\7\x08']
        b.labels = [(0, 1), (-1, -1)]
        b.scripts = [(0, 1), (5, 0)]
        b.encoding = 'utf-8' if k == 1 else 'utf-16'
        b.endianness = '<' if k == 1 else '>'
    return b


def makeCode(k):
    S = code.MainCodeFile.Section
    if k == 0:
        return code.MainCodeFile.fromSections([], 0x2000000)
    m = code.MainCodeFile(p12.build(0x2000000, 8, 0x40, [(0x1FF8000, b'itcm', 0), (0x27E0000, b'dtcmdtcm', 32)])[0], 0x2000000)
    if k == 2:
        m.sections.append(S(b'more', 0x1FF8000, 16))
    return m


def makeOverlay(k):
    return code.Overlay(bytes(range(30)) * (1 + k), 0x2100000, 30, 8, 4, 8, 7, 0, 2)


E = soundSequence


def eventList(k):
    end = E.EndTrackSequenceEvent()
    note = E.NoteSequenceEvent(60, 127, 4)
    out = [E.DefineTracksSequenceEvent({0, 2}), E.BeginTrackSequenceEvent(2, note), E.InstrumentSwitchSequenceEvent(0, 3),
           E.JumpSequenceEvent(end), note, E.RestSequenceEvent(200), E.MonoPolySequenceEvent(1),
           E.RandomSequenceEvent(0xC1, [], 1, 2), E.FromVariableSequenceEvent(0xC1, 3),
           E.IfSequenceEvent(), E.CallSequenceEvent(note)]
    return out[:k] + [end] if k < 5 else out + [end, E.RawDataSequenceEvent(b'\xFE\xFD')]


def makeSseq(k):
    if k == 0:
        return soundSequence.SSEQ()
    if k == 1:
        return soundSequence.SSEQ(ref_sdat.sseqFile(b'\x3C\x7F\x04\x80\x05\xFF'), 1, 2, 3, 4, 5, 6)
    if k == 3:
        return soundSequence.SSEQ(ref_sdat.sseqFile(b'\x3C\x7F\x04\xFF' + bytes(8)), 1, 2, 3, 4, 5, 6)
    s = soundSequence.SSEQ.fromEvents(eventList(9), 6, 5, 4, 3, 2, 1)
    return s


def makeSsar(k):
    A = soundSequenceArchive
    if k == 0:
        return A.SSAR()
    if k == 1:
        return A.SSAR(ref_sdat.ssarFile([(0, 1, 2, 3, 4, 5), (None, 9, 8, 7, 6, 5)], b'\x80\x01\xFF'), 7, ['S', None])
    if k == 3:
        return A.SSAR(ref_sdat.ssarFile([(0, 1, 2, 3, 4, 5)], b'\x80\x01\x80\x02\xFF' + bytes(7)), 7, ['S'])
    ev = [E.RestSequenceEvent(3), E.EndTrackSequenceEvent()]
    return A.SSAR.fromEventsAndSequences(ev, [('one', A.SSARSequence(ev[0], 1, 2, 3, 4, 5)), (None, A.SSARSequence(None)), ('two', A.SSARSequence(ev[1]))], 3)


def makeSbnk(k):
    if k == 0:
        return soundBank.SBNK()
    n = lambda i: (i, i % 2, 60 + i, 127, 126, 125, 124, 64, 1 + i % 3)
    insts = [('S', n(0)), None, ('R', 60, (n(1), n(2))), ('G', ((60, n(1)), (127, n(5))))]
    b = soundBank.SBNK.fromInstruments([ref_bank.makeInst(i) for i in insts], 4, [1, None, 2])
    if k == 2:
        b.inaccessibleInstruments = {0: [ref_bank.makeInst(('R', 3, (n(7),)))]}
    return b


def makeSwav(k):
    if k == 0:
        return soundWave.SWAV()
    return soundWave.SWAV.fromData((bytearray if k == 3 else bytes)(b'wave data!!!'), waveType=WaveType(k % 3), isLooped=bool(k % 2), sampleRate=16000 + k, time=7, loopOffset=1, totalLength=3)


def makeSwar(k):
    W = soundWaveArchive.SWAR
    return W.fromWaves([makeSwav(i) for i in range(1, k + 1)], k)


def makeStrm(k):
    S = soundStream.STRM
    if k == 0:
        return S()
    if k == 4:
        return S.fromChannels([[], []])
    s = S.fromChannels([[(bytearray if k == 3 else bytes)(b) for b in (b'abcdefgh', b'ij%d\0' % c)] for c in range(k)], 1, 2, 3, 4, 5)
    s.samplesPerBlock, s.samplesInLastBlock, s.sampleRate, s.unk44 = 8, 4, 8100, 9
    return s


def makeSdat(k):
    if k == 0:
        return soundArchive.SDAT()
    kinds = ref_sdat.KINDS
    return ref_sdat.toNdspy({kind: (('N%d' % k, p16.variant(kind, 2)), (None, p16.FILL[kind]), ('GAP', None)) if k == 1
                             else ((None, p16.FILL[kind]),) for kind in kinds})


def makePlayer(k):
    return soundSequencePlayer.SequencePlayer() if k == 0 else soundSequencePlayer.SequencePlayer(k, {1, 3}, 99)


def makeStreamPlayer(k):
    P = soundStreamPlayer.StreamPlayer
    return P() if k == 0 else P([4, 5][:k])


def makeGroup(k):
    return soundGroup.GroupEntry() if k == 0 else soundGroup.GroupEntry(k % 4, 3, 7)


def makeBnbl(k):
    b = bnbl.BNBL()
    b.touchAreas = [bnbl.BNBLTouchArea(10 * i, 20, 30, 40) for i in range(k)]
    b.unk04 = k
    return b


def makeBncl(k):
    b = bncl.BNCL()
    b.imagePositions = [bncl.BNCLImagePosition(10 * i, 20, imageID=3) for i in range(k)]
    b.unk04 = k
    return b


def makeNsbtx(k):
    if k == 0:
        return texture.NSBTX()
    return texture.NSBTX(ref_tex.nsbtx(ref_tex.encode(*p32.exampleTex(k))))


def makeNsbmd(k):
    return model.NSBMD(p32.bmd([p32.exampleModel(k), ref_tex.encode(*p32.exampleTex(k))]))


def makeImageTile(k):
    F = [graphics2D.ImageFormat.I8, graphics2D.ImageFormat.I4]
    return graphics2D.ImageTile(None if k == 0 else bytes(i & 15 for i in range(64 if k == 1 else 32)), F[0 if k < 2 else 1])


def makeTilemapTile(k):
    F = graphics2D.TilemapFormat
    return graphics2D.TilemapTile([0, 0x1C05, 0x77][k], [F.I10H1V1P4, F.I10H1V1P4, F.I8][k])


def numbered(fn, n):
    return [lambda i=i: fn(i) for i in range(n)]


def makeEvent(i):
    return eventList(99)[i]


KINDS = [
    Kind('ROM', numbered(makeRom, 4), rom.NintendoDSRom),
    Kind('NARC', numbered(makeNarc, 3), narc.NARC),
    Kind('file names', numbered(makeFolder, 2), fnt.load, fnt.save),
    Kind('BMG', numbered(makeBmg, 3), bmg.BMG),
    Kind('main code', numbered(makeCode, 3), lambda d: code.MainCodeFile(d, 0x2000000)),
    Kind('overlay', numbered(makeOverlay, 2), lambda d: code.Overlay(d, 0x2100000, 30, 8, 4, 8, 7, 0, 2)),
    Kind('SSEQ', numbered(makeSseq, 4), lambda t: soundSequence.SSEQ(*t)),
    Kind('SSAR', numbered(makeSsar, 4), lambda t: soundSequenceArchive.SSAR(*t)),
    Kind('SBNK', numbered(makeSbnk, 3), lambda t: soundBank.SBNK(*t)),
    Kind('SWAV', numbered(makeSwav, 4), soundWave.SWAV),
    Kind('SWAR', numbered(makeSwar, 3), lambda t: soundWaveArchive.SWAR(*t)),
    Kind('STRM', numbered(makeStrm, 5), lambda t: soundStream.STRM(*t)),
    Kind('SDAT', numbered(makeSdat, 3), soundArchive.SDAT),
    Kind('sequence player', numbered(makePlayer, 2), lambda t: soundSequencePlayer.SequencePlayer(*t)),
    Kind('stream player', numbered(makeStreamPlayer, 3), lambda t: soundStreamPlayer.StreamPlayer(t)),
    Kind('group entry', numbered(makeGroup, 3), lambda t: soundGroup.GroupEntry(*t)),
    Kind('BNBL', numbered(makeBnbl, 3), bnbl.BNBL),
    Kind('BNCL', numbered(makeBncl, 3), bncl.BNCL),
    Kind('NSBTX', numbered(makeNsbtx, 3), texture.NSBTX),
    Kind('NSBMD', numbered(makeNsbmd, 3), model.NSBMD),
    Kind('image tile', numbered(makeImageTile, 3), None),
    Kind('tilemap tile', numbered(makeTilemapTile, 3), None, lambda o: o.value),
]
BY_NAME = {k.name: k for k in KINDS}
