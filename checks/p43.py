"""P43: constructors and factories put every argument into its attribute and leave the documented defaults."""
import itertools
import ndspy
from mc.core import Space, Violation, same, require
from mc import ref_fs as fs
from ndspy import (bmg, bnbl, bncl, code, color, fnt, graphics2D, narc, rom, soundArchive, soundBank, soundGroup, soundSequence as sq,
                   soundSequenceArchive as ssar, soundSequencePlayer, soundStream, soundStreamPlayer, soundWave, soundWaveArchive, texture)

SAME = object()


class Arg:
    """An argument: needed (no default), optional, or by keyword only."""
    def __init__(self, name, values, default=SAME, attr=SAME, kw=False, want=None):
        self.name, self.values, self.default = name, values, default
        self.attr = name if attr is SAME else attr
        self.needed = default is SAME
        self.kw = kw
        self.want = want or (lambda v: v)


def req(name, *values, **k):
    return Arg(name, values, **k)


def opt(name, default, *values, **k):
    return Arg(name, values, default, **k)


def key(name, default, *values, **k):
    return Arg(name, values, default, kw=True, **k)


def nums(*spec):
    return [opt(n, d, 0, 1, 255, 200) for n, d in spec]


NOTE = soundBank.NoteDefinition
REST, END = sq.RestSequenceEvent(3), sq.EndTrackSequenceEvent()
A, B = soundWave.SWAV.fromData(b'abcd'), soundWave.SWAV.fromData(b'')
SSEQARGS = nums(('unk02', 0), ('bankID', 0), ('volume', 127), ('channelPressure', 64), ('polyphonicPressure', 50), ('playerID', 0))
STRMARGS = nums(('unk02', 0), ('volume', 127), ('priority', 64), ('playerID', 0), ('unk07', 0))
STRMNEW = dict(isLooped=False, loopOffset=0, sampleRate=8000, samplesInLastBlock=0, samplesPerBlock=0, time=0, unk03=0, unk28=0, unk2C=0, unk30=0, unk34=0,
               unk38=0, unk3C=0, unk40=0, unk44=0, waveType=ndspy.WaveType.PCM8, dataMergeOptimizationID=0)
SSEQFILE = bytes(sq.SSEQ.fromEvents([REST, END]).save()[0])
SWARFILE = bytes(soundWaveArchive.SWAR.fromWaves([A]).save()[0])
STRMFILE = bytes(soundStream.STRM.fromChannels([[b'abcd']]).save()[0])
SBNKFILE = bytes(soundBank.SBNK.fromInstruments([soundBank.SingleNoteInstrument(NOTE())]).save()[0])
SSARFILE = bytes(ssar.SSAR.fromEventsAndSequences([REST, END], [('x', ssar.SSARSequence(REST))]).save()[0])
NONE = opt('file', None, None, attr=None)
FL, FI = fnt.Folder(files=['a', 'b']), fnt.Folder([('d', fnt.Folder(files=['c'], firstID=4))], [], 4)
NEWROM = dict(name=b'', idCode=b'####', developerCode=b'\0\0', unitCode=0, encryptionSeedSelect=0, deviceCapacity=9, region=0, version=0, autostart=0,
              arm9EntryAddress=0x02000800, arm9RamAddress=0x02000000, arm7EntryAddress=0x02380000, arm7RamAddress=0x02380000,
              normalCardControlRegisterSettings=0x00416657, secureCardControlRegisterSettings=0x081808f8, secureAreaChecksum=0, secureTransferDelay=0x0D7E,
              arm9CodeSettingsPointerAddress=0, arm7CodeSettingsPointerAddress=0, secureAreaDisable=bytes(8), pad088=bytes(0x38), debugRomAddress=0,
              pad16C=bytes(0x94), pad200=bytes(0x3E00), rsaSignature=b'', arm9=b'', arm9PostData=b'', arm7=b'', arm9OverlayTable=b'', arm7OverlayTable=b'',
              iconBanner=b'', debugRom=b'', filenames=fnt.Folder(), files=[], sortedFileIds=[], **{'pad%03X' % i: 0 for i in range(0x15, 0x1D)})
NEWSDAT = dict(banks=[], groups=[], sequenceArchives=[], sequencePlayers=[], sequences=[], streamPlayers=[], streams=[], waveArchives=[],
               fatLengthsIncludePadding=False, fileAlignment=0x20, firstFileAlignment=None, padAtEnd=True, padSymbSizeTo4InSDATHeader=False)
N = soundBank.NoteType
NOTEARGS = [opt('waveArchiveIDID', 0, 1, 3, 0), opt('pitch', 60, 0, 127, 61), opt('attack', 127, 0, 5), opt('decay', 127, 0, 6), opt('sustain', 127, 0, 7),
            opt('release', 127, 0, 8), opt('pan', 64, 0, 127)]
TEXF, TEXM = texture.TextureFormat, texture.TextureCoordinatesTransformationMode
LOAD = soundGroup.SWARLoadMethod
KINDS = soundGroup.GroupEntryType
IF, TF = graphics2D.ImageFormat, graphics2D.TilemapFormat
COLORS = [(0, 0, 0, 255), (255, 255, 255, 255), (0, 255, 0, 255), (255, 0, 0, 255)]

TABLE = {
    'BMG': (bmg.BMG, [key('id', 0, 1, 0xFFFFFFFF)],
            dict(encoding='utf-16', fullEncoding='utf-16le', endianness='<', instructions=[], labels=[], messages=[], scripts=[], unk14=0, unk18=0, unk1C=0)),
    'BMG.fromMessages': (bmg.BMG.fromMessages,
                         [req('messages', [], [bmg.Message()]), opt('instructions', [], [b'12345678'], []), opt('labels', [], [(1, 2)], []),
                          opt('scripts', [], [(3, 4)], []), key('id', 0, 1, 0xFFFFFFFF)],
                         dict(encoding='utf-16', fullEncoding='utf-16le', endianness='<', unk14=0, unk18=0, unk1C=0)),
    'Message': (bmg.Message, [opt('info', b'', b'', b'xyz'), opt('stringParts', [], 'text', ['a', 'b'], '', [], want=lambda v: [v] if isinstance(v, str) else v),
                              opt('isNull', False, True, False)], {}),
    'Message.Escape': (bmg.Message.Escape, [opt('type', 0, 0, 255), opt('data', b'', b'', b'q\0')], {}),
    'SWAV': (soundWave.SWAV, [NONE], dict(data=b'', isLooped=False, loopOffset=0, sampleRate=8000, time=0, totalLength=0, waveType=ndspy.WaveType.PCM8)),
    'SWAV.fromData': (soundWave.SWAV.fromData,
                      [opt('data', b'', b'abcd', b''), key('waveType', ndspy.WaveType.PCM8, *ndspy.WaveType), key('isLooped', False, True, False),
                       key('sampleRate', 8000, 32728, 256), key('time', 0, 5, 65535), key('loopOffset', 0, 1, 7), key('totalLength', 0, 9, 8)], {}),
    'SWAR': (soundWaveArchive.SWAR, [NONE, opt('unk02', 0, 1, 65535)], dict(waves=[], dataMergeOptimizationID=0)),
    'SWAR(file)': (soundWaveArchive.SWAR, [req('file', SWARFILE, attr=None), opt('unk02', 0, 1, 65535)], dict(dataMergeOptimizationID=0)),
    'SWAR.fromWaves': (soundWaveArchive.SWAR.fromWaves, [req('waves', [], [A, B, A]), opt('unk02', 0, 1, 65535)], dict(dataMergeOptimizationID=0)),
    'Folder': (fnt.Folder, [opt('folders', [], [('x', FL)], []), opt('files', [], ['f', 'g'], []), opt('firstID', 0, 1, 65535)], {}),
    'NARC': (narc.NARC, [opt('data', None, None, attr=None)], dict(endiannessOfBeginning='<', filenames=fnt.Folder(), files=[])),
    'NARC.fromFilesAndNames': (narc.NARC.fromFilesAndNames, [req('files', [b'x'], [], [b'', b'1', b'2']), opt('filenames', fnt.Folder(), FL, FI)], dict(endiannessOfBeginning='<')),
    'NintendoDSRom': (rom.NintendoDSRom, [opt('data', None, None, attr=None)], NEWROM),
    'SDAT': (soundArchive.SDAT, [opt('data', None, None, attr=None)], NEWSDAT),
    'STRM': (soundStream.STRM, [NONE] + STRMARGS, dict(STRMNEW, channels=[])),
    'STRM(file)': (soundStream.STRM, [req('file', STRMFILE, attr=None)] + STRMARGS, dict(dataMergeOptimizationID=0)),
    'STRM.fromChannels': (soundStream.STRM.fromChannels, [req('channels', [], [[b'abcd'], [b'efgh']])] + STRMARGS, STRMNEW),
    'SequencePlayer': (soundSequencePlayer.SequencePlayer, [opt('maxSequences', 1, 0, 5), opt('channels', set(), {0, 15}, set()), opt('heapSize', 0, 1, 0xFFFFFFFF)], {}),
    'StreamPlayer': (soundStreamPlayer.StreamPlayer, [opt('channels', [], [3, 0], [], [15])], {}),
    'GroupEntry': (soundGroup.GroupEntry, [opt('type', KINDS.SSEQ, *KINDS), opt('id', 0, 1, 0xFFFFFFFF, kw=True)],
                   dict(loadSSEQ=False, loadSBNKSWARsFrom=LOAD.SWAR_IDS, loadSWAR=False, loadSSAR=False)),
    'GroupEntry(options)': (lambda type, options, id: soundGroup.GroupEntry(type, options, id),
                            [req('type', *KINDS), req('options', *range(16), attr=None), req('id', 4, 0)], {}),
    'GroupEntry.fromFlags': (soundGroup.GroupEntry.fromFlags,
                             [req('type', *KINDS), req('id', 0, 1, 0xFFFFFFFF), opt('loadSSEQ', False, True, False),
                              opt('loadSBNKSWARsFrom', LOAD.SWAR_IDS, *LOAD), opt('loadSWAR', False, True, False), opt('loadSSAR', False, True, False)], {}),
    'SSEQ': (sq.SSEQ, [NONE] + SSEQARGS, dict(events=[], parsed=True, dataMergeOptimizationID=0)),
    'SSEQ(file)': (sq.SSEQ, [req('file', SSEQFILE, attr=None)] + SSEQARGS, dict(parsed=False, dataMergeOptimizationID=0)),
    'SSEQ.fromEvents': (sq.SSEQ.fromEvents, [req('events', [], [REST, END])] + SSEQARGS, dict(parsed=True, dataMergeOptimizationID=0)),
    'SSAR': (ssar.SSAR, [NONE, opt('unk02', 0, 1, 65535), opt('names', None, None, [], attr=None)], dict(events=[], sequences=[], parsed=True, dataMergeOptimizationID=0)),
    'SSAR(file)': (ssar.SSAR, [req('file', SSARFILE, attr=None), opt('unk02', 0, 1, 65535), opt('names', None, None, [], ['s'], ['s', 't'], attr=None)],
                   dict(parsed=False, dataMergeOptimizationID=0)),
    'SSAR.fromEventsAndSequences': (ssar.SSAR.fromEventsAndSequences,
                                    [req('events', [], [REST, END]), req('sequences', [], [('a', ssar.SSARSequence(REST)), (None, ssar.SSARSequence(END))]), opt('unk02', 0, 1, 65535)],
                                    dict(parsed=True, dataMergeOptimizationID=0)),
    'SSARSequence': (ssar.SSARSequence, [req('firstEvent_firstEventOffset', REST, None, END, attr='firstEvent')] + SSEQARGS[1:] + [key('parsed', True, True)], {}),
    'SSARSequence(offset)': (lambda *a, **k: ssar.SSARSequence(*a, parsed=False, **k),
                             [req('firstEvent_firstEventOffset', 0, 5, None, attr='firstEventOffset')] + SSEQARGS[1:], dict(parsed=False)),
    'NoteDefinition': (NOTE, [opt('waveID_dutyCycle', 0, 3, 7, attr='waveID')] + NOTEARGS + [opt('type', N.PCM, N.PCM)], {}),
    'NoteDefinition(square)': (lambda *a, **k: NOTE(*a, type=N.PSG_SQUARE_WAVE, **k), [opt('waveID_dutyCycle', 0, 3, 7, attr='dutyCycle')] + NOTEARGS, dict(type=N.PSG_SQUARE_WAVE)),
    'NoteDefinition(type)': (NOTE, [key('type', N.PCM, *N)], {}),
    'SingleNoteInstrument': (soundBank.SingleNoteInstrument, [req('noteDefinition', NOTE(), NOTE(1))], dict(bankOrderKey=0, dataMergeOptimizationID=0)),
    'RangeInstrument': (soundBank.RangeInstrument, [req('firstPitch', 0, 5, 127), req('noteDefinitions', [NOTE()], [NOTE(), NOTE(2)])], dict(bankOrderKey=0, dataMergeOptimizationID=0)),
    'RegionalInstrument': (soundBank.RegionalInstrument, [req('regions', [], [soundBank.RegionalInstrument.Region(5, NOTE())])], dict(bankOrderKey=0, dataMergeOptimizationID=0)),
    'RegionalInstrument.Region': (soundBank.RegionalInstrument.Region, [req('lastPitch', 0, 127, 5), req('noteDefinition', NOTE(), NOTE(1))], {}),
    'SBNK': (soundBank.SBNK, [NONE, opt('unk02', 0, 1, 65535), opt('waveArchiveIDs', [], [0], [3, 2, 1, 0], [])],
             dict(instruments=[], inaccessibleInstruments={}, dataMergeOptimizationID=0)),
    'SBNK(file)': (soundBank.SBNK, [req('file', SBNKFILE, attr=None), opt('unk02', 0, 1, 65535), opt('waveArchiveIDs', [], [0], [3, 2, 1, 0], [])],
                   dict(inaccessibleInstruments={}, dataMergeOptimizationID=0)),
    'SBNK.fromInstruments': (soundBank.SBNK.fromInstruments, [req('instruments', [], [soundBank.SingleNoteInstrument(NOTE()), None]), opt('unk02', 0, 1, 65535),
                                                              opt('waveArchiveIDs', [], [0], [3, 2, 1, 0], [])], dict(inaccessibleInstruments={}, dataMergeOptimizationID=0)),
    'Section': (code.MainCodeFile.Section, [req('data', b'', b'abcd'), req('ramAddress', 0, 0x2000000), req('bssSize', 0, 16), key('implicit', False, True, False)], {}),
    'MainCodeFile.fromSections': (code.MainCodeFile.fromSections, [req('sections', [], [code.MainCodeFile.Section(b'abcd', 4, 5)]), req('ramAddress', 0, 0x2000000)], {}),
    'Overlay': (code.Overlay, [req('data', b'', b'abcd')] + [req(n, 0, k + 1, 0xFFFFF0 + k) for k, n in enumerate(
        ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize'))] + [req('flags', 0, 1, 2, 3)], {}),
    'BNBL': (bnbl.BNBL, [opt('data', None, None, attr=None)], dict(touchAreas=[], unk04=0)),
    'BNBL.fromTouchAreas': (bnbl.BNBL.fromTouchAreas, [req('touchAreas', [], [bnbl.BNBLTouchArea(1)]), opt('unk04', 0, 1, 65535)], {}),
    'BNBLTouchArea': (bnbl.BNBLTouchArea, [opt('x', 0, 1, 4095), opt('y', 0, 2, 4095), opt('width', 0, 3, 255), opt('height', 0, 4, 255), opt('alignment', 0x11, 0x22, 0x44)], {}),
    'BNCL': (bncl.BNCL, [opt('data', None, None, attr=None)], dict(imagePositions=[], unk04=0)),
    'BNCL.fromImagePositions': (bncl.BNCL.fromImagePositions, [req('imagePositions', [], [bncl.BNCLImagePosition(1)]), opt('unk04', 0, 1, 65535)], {}),
    'BNCLImagePosition': (bncl.BNCLImagePosition, [opt('x', 0, 1, 4095), opt('y', 0, 2, 4095), opt('alignment', 0x11, 0x22, 0x44), opt('imageID', 0, 5, 65535)], {}),
    'TilemapTile': (graphics2D.TilemapTile, [], dict(tileNum=0, hFlip=False, vFlip=False, paletteNum=0, format=TF.I10H1V1P4)),
    'TilemapTile.fromParameters': (graphics2D.TilemapTile.fromParameters,
                                   [req('tileNum', 0, 5, 255), opt('format', TF.I10H1V1P4, TF.I10H1V1P4), opt('hFlip', False, True, False), opt('vFlip', False, True, False),
                                    opt('paletteNum', 0, 1, 15)], {}),
    'TilemapTile.fromParameters(I8)': (graphics2D.TilemapTile.fromParameters, [req('tileNum', 0, 5, 255), req('format', TF.I8)], dict(hFlip=False, vFlip=False, paletteNum=0)),
    'ImageTile': (graphics2D.ImageTile, [], dict(pixels=[0] * 64, format=IF.I8)),
    'ImageTile.fromPixels': (graphics2D.ImageTile.fromPixels, [req('pixels', list(range(16)) * 4, [0] * 64), opt('format', IF.I8, *IF)], {}),
    'Texture.fromFlags': (texture.Texture.fromFlags,
                          [req('unk00', 0, 1), req('unk02', 0, 2), req('repeatS', True, False), req('repeatT', True, False), req('mirrorS', True, False),
                           req('mirrorT', False, True), req('width', 8, 16, 1024), req('height', 32, 8, 512), req('format', *list(TEXF)[1:]),
                           req('isColor0Transparent', True, False), req('coordsTransformationMode', *TEXM), req('unk04', 0, 3), req('data1', b'', b'ab'), req('data2', b'', b'cd')], {}),
    'Palette': (texture.Palette, [req('unk00', 0, 1), req('unk02', 0, 2), req('unkHeader02', 0, 3), req('data', b'abcdefgh', b'', attr=None)], {}),
    'Palette.fromColors': (texture.Palette.fromColors, [req('unk00', 0, 1), req('unk02', 0, 2), req('unkHeader02', 0, 3), req('colors', COLORS, [], attr=None)], {}),
    'NSBTX.fromTexturesAndPalettes': (texture.NSBTX.fromTexturesAndPalettes,
                                      [req(n, 0, k + 1) for k, n in enumerate(('unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32'))]
                                      + [req('textures', [], [('t', texture.Texture(0, 0, 0, 0, b'', b''))]), req('palettes', [], [('p', texture.Palette(0, 0, 0, b''))])], {}),
    'RestSequenceEvent': (sq.RestSequenceEvent, [req('duration', 0, 5, 127, 128)], {}),
    'InstrumentSwitchSequenceEvent': (sq.InstrumentSwitchSequenceEvent, [req('bankID', 0, 5, 127), req('instrumentID', 0, 6, 127)], {}),
    'BeginTrackSequenceEvent': (sq.BeginTrackSequenceEvent, [req('trackNumber', 0, 5, 255), req('firstEvent', REST, END)], {}),
    'JumpSequenceEvent': (sq.JumpSequenceEvent, [req('destination', REST, END)], {}),
    'CallSequenceEvent': (sq.CallSequenceEvent, [req('destination', REST, END)], {}),
    'RandomSequenceEvent': (sq.RandomSequenceEvent, [req('subType', 0xC0, 0xC1), req('args', [], [1]), req('randMin', -5, 0, 1), req('randMax', 7, 0, -1)], {}),
    'FromVariableSequenceEvent': (sq.FromVariableSequenceEvent, [req('subType', 0xC0, 0xC1), req('variableID', 0, 5, 127), opt('unknown', None, 0, 5, None)], {}),
    'BeginLoopSequenceEvent': (sq.BeginLoopSequenceEvent, [req('loopCount', 0, 5, 255)], {}),
    'DefineTracksSequenceEvent': (sq.DefineTracksSequenceEvent, [req('trackNumbers', {0, 5}, set(), {15})], {}),
    'NoteSequenceEvent': (sq.NoteSequenceEvent, [req('type', 0, 60, 127, attr='pitch'), req('velocityAndFlag', *range(256), attr='velocity', want=lambda v: v % 128),
                                                 req('duration', 0, 5, 70000)], {}),
    'MonoPolySequenceEvent': (sq.MonoPolySequenceEvent, [req('value', 0, 1, *sq.MonoPolySequenceEvent.Value)], {}),
    'VibratoTypeSequenceEvent': (sq.VibratoTypeSequenceEvent, [req('value', 0, 1, 2, *sq.VibratoTypeSequenceEvent.Value)], {}),
    'TieSequenceEvent': (sq.TieSequenceEvent, [req('value', True, False, 0, 1, 2, 255)], {}),
    'PortamentoOnOffSequenceEvent': (sq.PortamentoOnOffSequenceEvent, [req('value', True, False, 0, 1, 2, 255)], {}),
    'PortamentoSequenceEvent': (sq.PortamentoSequenceEvent, [req('value', 0, 6, 127)], {}),
    'Texture': (texture.Texture, [req('unk00', 0, 1), req('unk02', 0, 2), req('params', *[1 << b for b in range(16)], 0xDFFF, 0x5555, 0xCAAA, 0, attr=None), req('unk04', 0, 3),
                                  req('data1', b'', b'ab'), req('data2', b'', b'cd')], {}),
    'RawDataSequenceEvent': (sq.RawDataSequenceEvent, [req('data', b'', b'abc')], {}),
}
for _n in ('Assignment', 'Addition', 'Subtraction', 'Multiplication', 'Division', 'Shift', 'Rand', 'UnknownB7', 'Equal', 'GreaterThanOrEqual', 'GreaterThan',
           'LessThanOrEqual', 'LessThan', 'NotEqual'):
    _n = 'Variable%sSequenceEvent' % _n
    TABLE[_n] = (getattr(sq, _n), [req('variableID', 0, 5, 255), req('value', 0, 6, -1)], {})
for _n in ('Pan', 'TrackVolume', 'GlobalVolume', 'Transpose', 'PortamentoRange', 'TrackPriority', 'PortamentoFrom', 'VibratoDepth', 'VibratoSpeed',
           'VibratoRange', 'PortamentoDuration', 'AttackRate', 'DecayRate', 'SustainRate', 'ReleaseRate', 'Expression', 'PrintVariable', 'VibratoDelay', 'Tempo', 'SweepPitch'):
    _n += 'SequenceEvent'
    TABLE[_n] = (getattr(sq, _n), [req('value', 0, 6, 127)], {})


def plain(v):
    if isinstance(v, fnt.Folder):
        return fs.fromNdspy(v)
    return v


def copied(v):
    return list(v) if isinstance(v, list) else set(v) if isinstance(v, set) else v


# Every subset of the optional arguments, every split into positional and keyword ones
def genSubsets(tier):
    for name, (make, args, new) in TABLE.items():
        optional = [i for i, a in enumerate(args) if not a.needed]
        for r in range(len(optional) + 1):
            for chosen in itertools.combinations(optional, r):
                for turn in range(2):
                    yield (name, chosen, turn)


def build(name, chosen, turn, pick, ctx, split=None):
    make, args, new = TABLE[name]
    values = {}
    for i, a in enumerate(args):
        if a.needed or i in chosen:
            values[i] = copied(a.values[pick(i) % len(a.values)])
    most = 0
    while most < len(args) and most in values and not args[most].kw:
        most += 1
    named = 'lambda' not in getattr(make, '__name__', '')
    for count in range(most + 1) if named else (most,):
        if split is not None and count != split(most):
            continue
        given = {i: copied(v) for i, v in values.items()}
        obj = make(*[given[i] for i in range(count)], **{args[i].name: v for i, v in given.items() if i >= count})
        what = '%s with %s (%d positional): ' % (name, ', '.join(args[i].name for i in sorted(values)) or 'no arguments', count)
        for i, a in enumerate(args):
            if a.attr is not None:
                want = a.want(values[i]) if i in values else a.default
                same(plain(getattr(obj, a.attr)), plain(want), what + a.attr)
            if i in given:
                same(plain(given[i]), plain(values[i]), what + 'the argument ' + a.name)
        for k, v in new.items():
            same(plain(getattr(obj, k)), plain(v), what + k)
        extra(name, obj, values, what)
        ctx.step()
    return obj


def extra(name, obj, values, what):
    """Arguments that end up elsewhere."""
    if name == 'SSAR(file)':
        names = values.get(2) or []
        same([n for n, s in obj.sequences], (list(names) + [None])[:1], what + 'names of the sequences')
    elif name == 'SBNK(file)':
        same(len(obj.instruments), 1, what + 'instruments')
    elif name == 'SWAR(file)':
        same([bytes(w.data) for w in obj.waves], [b'abcd'], what + 'waves')
    elif name == 'SSEQ(file)':
        obj.parse()
        same(len(obj.events), 2, what + 'events')
    elif name == 'GroupEntry(options)':
        o = values[1]
        same((obj.loadSSEQ, obj.loadSWAR, obj.loadSSAR), (bool(o & 1), bool(o & 4), bool(o & 8)), what + 'flags')
        same(obj.loadSBNKSWARsFrom, LOAD.SWAR_IDS if o & 2 else LOAD.FILE_IDS, what + 'loadSBNKSWARsFrom')
        same(tuple(obj.save()), (values[0], o, values[2]), what + 'save()')
    elif name == 'NoteSequenceEvent':
        same((obj.type, bool(obj.unknownFlag)), (values[0], values[1] > 127), what + 'type and unknownFlag')
    elif name == 'Texture':
        p = values[2]
        same((obj.repeatS, obj.repeatT, obj.mirrorS, obj.mirrorT, obj.isColor0Transparent), tuple(bool(p >> b & 1) for b in (0, 1, 2, 3, 13)), what + 'flags')
        same((obj.width, obj.height, int(obj.format), int(obj.coordsTransformationMode)), (8 << (p >> 4 & 7), 8 << (p >> 7 & 7), p >> 10 & 7, p >> 14 & 3), what + 'size, format and mode')
    elif name == 'Palette':
        same(list(obj.colors), list(color.loadPalette(values[3])), what + 'colours')
    elif name == 'Palette.fromColors':
        same([tuple(c) for c in obj.colors], values[3], what + 'colours')


def checkSubsets(case, ctx):
    name, chosen, turn = case
    build(name, chosen, turn, lambda i: turn + i, ctx)
    ctx.outcome(name)
    ctx.state(case)


# Every combination of values of all arguments
def genValues(tier):
    cap = 20000
    for name, (make, args, new) in TABLE.items():
        total = 1
        for a in args:
            total *= len(a.values)
        if total <= cap:
            for pick in itertools.product(*[range(len(a.values)) for a in args]):
                yield (name, pick)
        else:
            for i, j in itertools.combinations(range(len(args)), 2):
                for x, y in itertools.product(range(len(args[i].values)), range(len(args[j].values))):
                    for other in (0, 1):
                        yield (name, tuple(x if k == i else y if k == j else other % len(a.values) for k, a in enumerate(args)))


def checkValues(case, ctx):
    name, pick = case
    n = len(TABLE[name][1])
    build(name, tuple(range(n)), 0, lambda i: pick[i], ctx, lambda most: most)
    ctx.state(case)


# Objects made the same way do not share what can be changed
def genShare(tier):
    for name in TABLE:
        yield name


def checkShare(name, ctx):
    make, args, new = TABLE[name]
    a, b = (build(name, (), 0, lambda i: 0, ctx, lambda most: most) for _ in range(2))
    for k in sorted(set(new) | {x.attr for x in args if x.attr is not None and not x.needed}):
        v, w = getattr(a, k), getattr(b, k)
        if isinstance(v, (list, dict, set, bytearray, fnt.Folder)):
            require(v is not w, '%s: two new objects share %s', name, k)
            if isinstance(v, list):
                v.append('added')
            elif isinstance(v, set):
                v.add('added')
            elif isinstance(v, dict):
                v['added'] = 1
            elif isinstance(v, fnt.Folder):
                v.files.append('added')
    build(name, (), 0, lambda i: 0, ctx)
    ctx.state(name)
    ctx.step()


# Where save() matches the parameters of the constructor
AGAIN = {'SSEQ': sq.SSEQ, 'SSEQ.fromEvents': sq.SSEQ, 'SWAR': soundWaveArchive.SWAR, 'SWAR.fromWaves': soundWaveArchive.SWAR, 'SSAR': ssar.SSAR,
         'SSAR.fromEventsAndSequences': ssar.SSAR, 'SSARSequence': ssar.SSARSequence, 'SBNK': soundBank.SBNK, 'SBNK.fromInstruments': soundBank.SBNK,
         'STRM': soundStream.STRM, 'STRM.fromChannels': soundStream.STRM, 'SequencePlayer': soundSequencePlayer.SequencePlayer,
         'GroupEntry': soundGroup.GroupEntry, 'GroupEntry.fromFlags': soundGroup.GroupEntry}


def genAgain(tier):
    for name in AGAIN:
        args = TABLE[name][1]
        for pick in itertools.product(*[range(len(a.values)) if a.name != 'events' else (1,) for a in args]):
            yield (name, pick)


def checkAgain(case, ctx):
    name, pick = case
    args = TABLE[name][1]
    obj = build(name, tuple(range(len(args))), 0, lambda i: pick[i], ctx, lambda most: most)
    back = AGAIN[name](*obj.save())
    for a in args:
        if a.attr is not None and a.name not in ('events', 'sequences', 'waves', 'instruments', 'channels', 'parsed', 'waveArchiveIDs'):
            same(getattr(back, a.attr), getattr(obj, a.attr), '%s made again from save(): %s' % (name, a.attr))
    if name == 'SequencePlayer':
        same(back.channels, obj.channels, 'channels of a player made again')
    ctx.step()
    ctx.state(case)


spaces = [
    Space('subsets', genSubsets, checkSubsets, 'every subset of the optional arguments of 109 constructors and factories x every split into positional and keyword arguments x two values'),
    Space('values', genValues, checkValues, 'every combination of two or more values of all arguments (pairs of arguments where there are more than 20000)'),
    Space('share', genShare, checkShare, 'changing the lists, sets and dictionaries of one new object of each kind'),
    Space('again', genAgain, checkAgain, 'every combination of values for the 14 whose save() gives constructor arguments'),
]
