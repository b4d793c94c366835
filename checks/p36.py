"""P36: file-based functions and command-line tools match the in-memory API."""
import contextlib
import io
import itertools
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from mc.core import Space, same, require, REPO
from mc import zoo
from ndspy import (bmg, bnbl, bncl, code, codeCompression, color, graphics2D, lz10, narc, rom, soundArchive, soundBank,
                   soundSequence, soundSequenceArchive, soundStream, soundWave, soundWaveArchive)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='p36-')
    back = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d)


class PathLike:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


PATHS = {
    'str': lambda d, n: os.path.join(d, n),
    'Path': lambda d, n: pathlib.Path(d) / n,
    'relative': lambda d, n: n,
    'PathLike': lambda d, n: PathLike(os.path.join(d, n)),
}


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def get(name):
    with open(name, 'rb') as f:
        return f.read()


def call(*a, **k):
    return (a, k)


def attempt(fn, *a, **k):
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('error', type(e))


class Form:
    def __init__(self, cls, makers, loads, saves, broken, data=None):
        self.cls, self.makers, self.loads, self.saves, self.broken = cls, makers, loads, saves, broken
        self.data = data or (lambda r: bytes(r[0] if isinstance(r, tuple) else r))


def spoiled(name, fn):
    def make():
        o = zoo.BY_NAME[name].makers[1]()
        fn(o)
        return o
    return make


def setter(attr, value):
    return lambda o: setattr(o, attr, value)


PLAIN = [call()]
FORMS = {
    'ROM': Form(rom.NintendoDSRom, 'ROM', PLAIN, [call(), call(updateDeviceCapacity=True), call(updateDeviceCapacity=False)],
                spoiled('ROM', setter('files', [None]))),
    'NARC': Form(narc.NARC, 'NARC', PLAIN, PLAIN, spoiled('NARC', setter('files', [None]))),
    'BMG': Form(bmg.BMG, 'BMG', [call(), call(id=9)], PLAIN, spoiled('BMG', setter('encoding', 'nonsense'))),
    'main code': Form(code.MainCodeFile, 'main code', [call(0x2000000), call(0x2000004), call(ramAddress=0x2000000)],
                      [call(), call(compress=True), call(compress=False)], spoiled('main code', setter('sections', [None]))),
    'SSEQ': Form(soundSequence.SSEQ, 'SSEQ', [call(), call(1, 2, 3, 4, 5, 6), call(7, playerID=9), call(unk02=3, volume=1, bankID=8),
                                             call(channelPressure=2, polyphonicPressure=5)], PLAIN,
                 lambda: soundSequence.SSEQ.fromEvents([soundSequence.NoteSequenceEvent(200, 0, 0)])),
    'SSAR': Form(soundSequenceArchive.SSAR, 'SSAR', [call(), call(5), call(5, ['x']), call(names=['x', None]), call(unk02=4)], PLAIN,
                 lambda: soundSequenceArchive.SSAR.fromEventsAndSequences([soundSequence.NoteSequenceEvent(200, 0, 0)], [])),
    'SBNK': Form(soundBank.SBNK, 'SBNK', [call(), call(5), call(5, [1]), call(waveArchiveIDs=[3, None, 4]), call(unk02=4)], PLAIN,
                 spoiled('SBNK', setter('instruments', [77]))),
    'SWAV': Form(soundWave.SWAV, 'SWAV', PLAIN, [call(), call(updateTime=True), call(updateTotalLength=True),
                                                 call(updateTime=True, updateTotalLength=True), call(updateTime=False, updateTotalLength=False)],
                 spoiled('SWAV', setter('loopOffset', 60000))),
    'SWAR': Form(soundWaveArchive.SWAR, 'SWAR', [call(), call(5), call(unk02=6)], PLAIN, spoiled('SWAR', setter('waves', [None]))),
    'STRM': Form(soundStream.STRM, 'STRM', [call(), call(1, 2, 3, 4, 5), call(9, unk07=8), call(unk02=3, volume=4, priority=5, playerID=6)],
                 [call(), call(updateTime=True), call(updateTime=False)],
                 spoiled('STRM', setter('channels', [[b'abcd'], []]))),
    'SDAT': Form(soundArchive.SDAT, 'SDAT', PLAIN, PLAIN, spoiled('SDAT', setter('sequences', [('x', 77)]))),
    'BNBL': Form(bnbl.BNBL, 'BNBL', PLAIN, PLAIN, spoiled('BNBL', setter('touchAreas', [None]))),
    'BNCL': Form(bncl.BNCL, 'BNCL', PLAIN, PLAIN, spoiled('BNCL', setter('imagePositions', [None]))),
}

EXISTING = (None, 'empty', 'shorter', 'longer', 'same')


def existing(kind, want):
    return {'empty': b'', 'shorter': want[:3], 'longer': want + b'leftover' * 50, 'same': bytes(len(want))}[kind]


def checkLoads(case, ctx):
    name, m, path = case
    form = FORMS[name]
    data = form.data(zoo.BY_NAME[form.makers].makers[m]().save())
    with scratch() as d:
        put('in.bin', data)
        for a, k in form.loads:
            mem = form.cls(data, *a, **k)
            got = form.cls.fromFile(PATHS[path](d, 'in.bin'), *a, **k)
            same(type(got), form.cls, 'type of the loaded object')
            same(zoo.snapshot(got), zoo.snapshot(mem), '%s loaded from a file with %r' % (name, (a, k)))
            same(got.save(), mem.save(), '%s loaded from a file with %r, saved' % (name, (a, k)))
            same(get('in.bin'), data, 'the file that was loaded')
            ctx.state((name, m, repr(a), repr(k)))
            ctx.step()
        same(os.listdir(d), ['in.bin'], 'files after loading')


def genLoads(tier):
    for name, form in FORMS.items():
        for m in range(len(zoo.BY_NAME[form.makers].makers)):
            for path in PATHS:
                yield (name, m, path)


def checkSaves(case, ctx):
    name, m, path, old = case
    form = FORMS[name]
    make = form.broken if m == 'broken' else zoo.BY_NAME[form.makers].makers[m]
    for a, k in form.saves:
        mem, obj = make(), make()
        try:
            want = form.data(mem.save(*a, **k))
            err = None
        except Exception as e:
            want, err = b'previous contents', type(e)
        with scratch() as d:
            before = None if old is None else existing(old, want)
            if before is not None:
                put('out.bin', before)
            try:
                got = obj.saveToFile(PATHS[path](d, 'out.bin'), *a, **k)
            except Exception as e:
                same(type(e), err, 'error saving %s with %r to a file' % (name, (a, k)))
                ctx.outcome('refused')
            else:
                same(err, None, 'error saving %s with %r to memory' % (name, (a, k)))
                same(got, None, 'result of saving to a file')
                ctx.outcome('saved')
            if err is not None:
                same(get('out.bin') if before is not None or os.path.exists('out.bin') else None, before, 'existing file after a failed save of %s' % name)
            else:
                same(get('out.bin'), want, '%s saved to a file with %r' % (name, (a, k)))
            same(os.listdir(d), [] if before is None and err else ['out.bin'], 'files after saving')
        same(zoo.snapshot(obj), zoo.snapshot(mem), '%s after saving it to a file with %r' % (name, (a, k)))
        ctx.state((name, m, repr(k), old))
        ctx.step()


def genSaves(tier):
    for name, form in FORMS.items():
        for m in list(range(len(zoo.BY_NAME[form.makers].makers))) + ['broken']:
            for path in PATHS:
                for old in EXISTING:
                    yield (name, m, path, old)


# Files that are cut short, go on after their end, or end in special bytes

TAILS = [b'\0', bytes(4), bytes(100), b'\n', b'\r\n', b'\x1A', b' ', b'\xFF' * 4, b'\r\n\0']


def checkTails(case, ctx):
    name, m, path = case
    form = FORMS[name]
    whole = form.data(zoo.BY_NAME[form.makers].makers[m]().save())
    contents = [whole + t for t in TAILS] + [t + whole for t in TAILS] + [whole[:len(whole) - n] for n in (1, 2, 4, 16)] + TAILS + [b'']
    a, k = form.loads[0]
    with scratch() as d:
        for c in contents:
            put('in.bin', c)
            want = attempt(form.cls, c, *a, **k)
            got = attempt(form.cls.fromFile, PATHS[path](d, 'in.bin'), *a, **k)
            same(zoo.snapshot(got), zoo.snapshot(want), '%s loaded from a file' % name)
            ctx.step()
            ctx.outcome(want[0])
    ctx.state(case)


def payload(name, data):
    """An object of which the file ends with the given data."""
    if name == 'ROM':
        r = rom.NintendoDSRom()
        r.files = [data]
        return r
    if name == 'NARC':
        return narc.NARC.fromFilesAndNames([data])
    if name == 'main code':
        return code.MainCodeFile(data, 0x2000000)
    if name == 'SSEQ':
        return soundSequence.SSEQ(zoo.ref_sdat.sseqFile(data))
    if name == 'SSAR':
        return soundSequenceArchive.SSAR(zoo.ref_sdat.ssarFile([(0, 1, 2, 3, 4, 5)], data), 0, ['S'])
    if name == 'SWAV':
        return soundWave.SWAV.fromData(data)
    if name == 'SWAR':
        return soundWaveArchive.SWAR.fromWaves([soundWave.SWAV.fromData(data)])
    if name == 'STRM':
        return soundStream.STRM.fromChannels([[data]])
    if name == 'BMG':
        return bmg.BMG.fromMessages([bmg.Message(b'', [data.decode('latin-1').replace('\0', '0').replace('\x1A', '1')])])
    if name == 'BNBL':
        return bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(x & 255, 1, 2, x >> 3) for x in data[:60000]])
    if name == 'BNCL':
        return bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(x & 255, 1, imageID=x) for x in data[:60000]])
    if name == 'SBNK':
        N = soundBank.NoteDefinition
        return soundBank.SBNK.fromInstruments([soundBank.SingleNoteInstrument(N(x, i)) for i, x in enumerate(data[:4000])])
    s = soundArchive.SDAT()
    s.streams = [('S', soundStream.STRM.fromChannels([[data]]))]
    return s


HOLDERS = ('ROM', 'NARC', 'main code', 'SSEQ', 'SSAR', 'SWAV', 'SWAR', 'STRM', 'SDAT')
FEWER = ('BMG', 'BNBL', 'BNCL', 'SBNK')
SIZES = (0, 1, 255, 256, 4095, 4096, 8192, 65535, 65536, 65537, 0x100001)


def genSizes(tier):
    for name in HOLDERS:
        for n in SIZES + ((0x200001, 0x400001) if name in ('ROM', 'NARC', 'STRM', 'SDAT') else ()):
            yield (name, n)
    for name in FEWER:
        for n in (0, 1, 255, 256, 700, 1400, 4095, 4096, 11000, 65536):
            yield (name, n)


def checkSizes(case, ctx):
    name, n = case
    form = FORMS[name]
    for t in [b'end!'] + ([] if name in FEWER else TAILS if n < 70000 else TAILS[:2]):
        data = (bytes(range(1, 252)) * (n // 251 + 1))[:n] + t
        data += t[-1:] * (-len(data) % 4)
        obj = payload(name, data)
        want = form.data(obj.save())
        with scratch() as d:
            put('out.bin', bytes(len(want)))
            payload(name, data).saveToFile('out.bin')
            same(get('out.bin') == want, True, '%s of %d bytes saved to a file is as saved to memory' % (name, n))
            a, k = form.loads[0]
            got, mem = form.cls.fromFile('out.bin', *a, **k), form.cls(want, *a, **k)
            same(zoo.snapshot(got) == zoo.snapshot(mem), True, '%s of %d bytes loaded from a file is as loaded from memory' % (name, n))
        ctx.step(2)
    ctx.state(case)


# Functions on plain data

G = graphics2D
I8, I4, M8, M10 = G.ImageFormat.I8, G.ImageFormat.I4, G.TilemapFormat.I8, G.TilemapFormat.I10H1V1P4
LZ = [lz10.compress(x) for x in (b'', b'abc', b'abcabcabcabc' * 20)]
RAW = [b'', b'abc', b'abcabcabcabc' * 20, bytes(0x4000) + b'code data' * 90]
BIG = [b'abcd' * 0x40001, b'\r\n' * 0x8001]
# (compressed data made of literal bytes only)
LITERAL = [b'\x10' + n.to_bytes(3, 'little') + (b'\0' + b'literal!') * (n // 8) for n in (0x800, 0x10000, 0x20000)]
CC = [codeCompression.compress(x) for x in RAW]
PIX = [b'', bytes(range(64)), bytes(range(128))]
ENDS = [b'abcd' * 16 + t + t[-1:] * (-len(t) % 64) for t in TAILS]
READS = {
    # name: (file function, memory function, contents, calls)
    'lz10.decompress': (lz10.decompressFromFile, lz10.decompress, LZ + [x + t for x in LZ for t in TAILS] + LITERAL, PLAIN),
    'lz10.compress': (lz10.compressFromFile, lz10.compress, RAW + ENDS + BIG, PLAIN),
    'codeCompression.decompress': (codeCompression.decompressFromFile, codeCompression.decompress, CC + RAW[:2] + ENDS + BIG, PLAIN),
    'codeCompression.compress': (codeCompression.compressFromFile, codeCompression.compress, RAW + ENDS + BIG[1:],
                                 [call(), call(True), call(False), call(isArm9=True), call(isArm9=False)]),
    'loadPalette': (color.loadPaletteFromFile, color.loadPalette, PIX + ENDS + BIG, PLAIN),
    'loadImageTiles': (G.loadImageTilesFromFile, G.loadImageTiles, PIX + ENDS + BIG[1:], [call(), call(I8), call(I4), call(format=I4)]),
    'loadTilemapTiles': (G.loadTilemapTilesFromFile, G.loadTilemapTiles, PIX + ENDS + BIG[1:], [call(), call(M8), call(M10), call(format=M8)]),
}
WRITES = {
    'lz10.compress': (lz10.compressToFile, lz10.compress, RAW + ENDS, PLAIN),
    'lz10.decompress': (lz10.decompressToFile, lz10.decompress, LZ + [b'\x10\x05\0\0\x00a', b'junk'] + [lz10.compress(x) for x in ENDS], PLAIN),
    'codeCompression.compress': (codeCompression.compressToFile, codeCompression.compress, RAW,
                                 [call(), call(True), call(False), call(isArm9=True), call(isArm9=False)]),
    'codeCompression.decompress': (codeCompression.decompressToFile, codeCompression.decompress, CC + RAW[:2], PLAIN),
    'savePalette': (color.savePaletteToFile, color.savePalette, [[], [(1, 2, 3, 1)], [(31, 0, 5, 0)] * 40, [None]], PLAIN),
    'saveImageTiles': (G.saveImageTilesToFile, G.saveImageTiles,
                       [[], G.loadImageTiles(PIX[2], I8), G.loadImageTiles(PIX[2], I4), G.loadImageTiles(PIX[1], I4) + G.loadImageTiles(PIX[1], I8)], PLAIN),
    'saveTilemapTiles': (G.saveTilemapTilesToFile, G.saveTilemapTiles,
                         [[], G.loadTilemapTiles(PIX[1], M8), G.loadTilemapTiles(PIX[1], M10), G.loadTilemapTiles(PIX[1], M8) + G.loadTilemapTiles(PIX[1], M10)], PLAIN),
}


def checkReads(case, ctx):
    name, i, path = case
    fromFile, mem, contents, calls = READS[name]
    for a, k in calls:
        with scratch() as d:
            put('x.bin', contents[i])
            want = attempt(mem, contents[i], *a, **k)
            got = attempt(fromFile, PATHS[path](d, 'x.bin'), *a, **k)
            same(zoo.snapshot(got), zoo.snapshot(want), '%s from a file with %r' % (name, (a, k)))
            same(get('x.bin'), contents[i], 'the file read')
            same(os.listdir(d), ['x.bin'], 'files afterwards')
        ctx.state((name, i, repr(a), repr(k)))
        ctx.step()
        ctx.outcome(want[0])


def genReads(tier):
    for name, (f, m, contents, calls) in READS.items():
        for i in range(len(contents)):
            for path in PATHS:
                yield (name, i, path)


def checkWrites(case, ctx):
    name, i, path, old = case
    toFile, mem, contents, calls = WRITES[name]
    for a, k in calls:
        want = attempt(mem, contents[i], *a, **k)
        with scratch() as d:
            data = bytes(want[1]) if want[0] == 'ok' else b'previous contents'
            before = None if old is None else existing(old, data)
            if before is not None:
                put('x.bin', before)
            got = attempt(toFile, contents[i], PATHS[path](d, 'x.bin'), *a, **k)
            same(got, ('ok', None) if want[0] == 'ok' else want, '%s to a file with %r' % (name, (a, k)))
            after = get('x.bin') if os.path.exists('x.bin') else None
            same(after, data if want[0] == 'ok' else before, '%s: contents of the file' % name)
            require(set(os.listdir(d)) <= {'x.bin'}, 'unexpected files')
        ctx.state((name, i, repr(a), repr(k), old))
        ctx.step()
        ctx.outcome(want[0])


def genWrites(tier):
    for name, (f, m, contents, calls) in WRITES.items():
        for i in range(len(contents)):
            for path in PATHS:
                for old in EXISTING:
                    yield (name, i, path, old)


# Command lines

TOOLS = {'lz10': lz10, 'codeCompression': codeCompression}
NAMES = ['data.bin', 'noext', 'two.dots.bin', '.hidden', 'a.cmp', 'a.dec', 'sub/data.bin', 'sub.d/noext', 'name with blanks.x', 'UPPER.BIN']


def default(name, ext):
    folder, base = os.path.split(name)
    dot = base.rfind('.')
    if dot > 0:
        base = base[:dot]
    return os.path.join(folder, base + ext)


def checkCli(case, ctx):
    tool, command, flags, name, out, content, old, process = case
    lib = TOOLS[tool]
    isArm9 = '--is_arm9' in flags
    compressing = command in ('c', 'compress')
    data = RAW[content] if compressing else (LZ if tool == 'lz10' else CC)[content]
    want = (lib.compress(data, True) if isArm9 else lib.compress(data)) if compressing else lib.decompress(data)
    with scratch() as d:
        os.makedirs('sub')
        os.makedirs('sub.d')
        put(name, data)
        target = out or default(name, '.cmp' if compressing else '.dec')
        if old and target != name:
            put(target, existing(old, bytes(want)))
        files = {target, name}
        pos = [name] + ([out] if out else [])
        orders = [pos] if not flags else [list(flags) + pos, pos + list(flags)]
        for order in orders:
            put(name, data)
            if process:
                env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
                r = subprocess.run([sys.executable, '-m', 'ndspy.' + tool, command] + order, env=env, capture_output=True)
                same((r.returncode, r.stderr), (0, b''), 'exit status and messages')
            else:
                lib.main([command] + order)
            same(get(target), bytes(want), 'output file %s' % target)
            if target != name:
                same(get(name), data, 'input file')
            found = {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}
            same(found, files, 'files afterwards')
            ctx.step()
    ctx.state((tool, compressing, isArm9, name, out, content, old))
    ctx.outcome('compressed' if compressing else 'decompressed')


def genCli(tier):
    for process in (False, True):
        for tool in TOOLS:
            for command in ('compress', 'c', 'decompress', 'd'):
                compressing = command in ('c', 'compress')
                for flags in ((), ('--is_arm9',)) if tool == 'codeCompression' and compressing else ((),):
                    for name in NAMES[:1] if process else NAMES:
                        for out in (None, 'out.x', 'sub/out', 'noext') if not process else (None, 'out.x'):
                            if out == name:
                                continue
                            for content in (2, 3) if process and tool == 'codeCompression' else range(4 if tool == 'codeCompression' or compressing else 3) if not process else (2,):
                                for old in (None, 'longer', 'same', 'shorter') if not process else (None,):
                                    yield (tool, command, flags, name, out, content, old, process)


# Unusual file names
ODD = ['~', ' lead', 'trail ', 'arm9.bin', 'arm9', 'arm7.bin', 'overlay9_0.bin', 'y9.bin', '$HOME', '${HOME}', '%d', '*', '?', '[a]', '{}', 'caf\xe9.bin', '\u65e5\u672c',
       'x' * 200, 'a\nb', '..x', 'x.', 'x..', 'x.gz', 'x.zip', 'x.lz', 'x.LZ10', 'x.narc', 'NUL', 'a;b', 'a&b', 'a\\b', "a'b", 'a"b', '#', '1', '0', 'None', 'x.tmp', 'x.bak']


def genOdd(tier):
    for name in ODD:
        for path in PATHS:
            yield (name, path)


def checkOdd(case, ctx):
    name, path = case
    for form in FORMS.values():
        make = zoo.BY_NAME[form.makers].makers[-1]
        a, k = form.saves[0]
        want = form.data(make().save(*a, **k))
        with scratch() as d:
            make().saveToFile(PATHS[path](d, name), *a, **k)
            same(os.listdir(d), [name], 'files after saving')
            same(get(name), want, 'file saved')
            a, k = form.loads[0]
            got = form.cls.fromFile(PATHS[path](d, name), *a, **k)
            same(zoo.snapshot(got), zoo.snapshot(form.cls(want, *a, **k)), 'object loaded')
            same(os.listdir(d), [name], 'files after loading')
            ctx.step()
    for what, (toFile, mem, contents, calls) in WRITES.items():
        a, k = calls[0]
        want = attempt(mem, contents[0], *a, **k)
        if want[0] == 'ok':
            with scratch() as d:
                same(attempt(toFile, contents[0], PATHS[path](d, name), *a, **k), ('ok', None), what)
                same(os.listdir(d), [name], 'files afterwards')
                same(get(name), bytes(want[1]), what)
                ctx.step()
    for what, (fromFile, mem, contents, calls) in READS.items():
        a, k = calls[0]
        with scratch() as d:
            put(name, contents[0])
            same(attempt(fromFile, PATHS[path](d, name), *a, **k)[0], attempt(mem, contents[0], *a, **k)[0], what)
            same(os.listdir(d), [name], 'files afterwards')
            ctx.step()
    for n, out in ((name, 'result'), ('plain', name), (name, None)):
        if path == 'relative' and not (out is None and name.startswith(('x.', '..'))):
            for tool in TOOLS:
                for command in 'cd':
                    checkCli((tool, command, (), n, out, 2, None, False), ctx)
    ctx.state(case)
    ctx.outcome('odd name')


# Bad command lines and inputs leave everything alone

def checkCliBad(case, ctx):
    tool, args = case
    lib = TOOLS[tool]
    with scratch() as d:
        put('bad', b'\x11\x05\0\0junk')
        put('out', b'previous')
        err = io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                lib.main(list(args))
            except (Exception, SystemExit) as e:
                ctx.outcome('refused')
            else:
                require(not args, 'accepted %r', args)
                ctx.outcome('usage')
        same(get('bad'), b'\x11\x05\0\0junk', 'input file')
        same(get('out'), b'previous', 'output file after an error')
        same(sorted(os.listdir(d)), ['bad', 'out'], 'files afterwards')
    ctx.step()


def genCliBad(tier):
    for tool in TOOLS:
        yield (tool, ())
        for c in ('compress', 'd', 'c', 'decompress'):
            yield (tool, (c,))
            yield (tool, (c, 'missing'))
            yield (tool, (c, 'missing', 'out'))
            yield (tool, (c, 'bad', 'out', 'more'))
        yield (tool, ('nonsense', 'bad', 'out'))
    yield ('lz10', ('d', 'bad', 'out'))
    yield ('lz10', ('decompress', 'bad'))
    yield ('lz10', ('c', 'bad', 'out', '--is_arm9'))
    yield ('codeCompression', ('d', 'bad', 'out', '--is_arm9'))


spaces = [
    Space('loading', genLoads, checkLoads, '13 formats x 2-3 example files x 4 kinds of path x every documented set of options'),
    Space('saving', genSaves, checkSaves, '13 formats x 2-3 examples and one that cannot be saved x 4 kinds of path x every option x 5 states of the existing file'),
    Space('file ends', genLoads, checkTails, '13 formats x examples x 4 kinds of path x files cut short, extended at either end, or consisting of special bytes'),
    Space('file sizes', genSizes, checkSizes, '9 formats x data of 0 to 4194305 bytes x 10 endings; 4 more x up to 65536 items'),
    Space('reading functions', genReads, checkReads, '7 functions x 3-30 inputs (of up to 1 MiB) x 4 kinds of path x every option'),
    Space('writing functions', genWrites, checkWrites, '7 functions x 3-14 inputs x 4 kinds of path x every option x 5 states of the existing file'),
    Space('command lines', genCli, checkCli, '2 tools x 4 commands x options in both positions x 10 input names x 4 output names x 3-4 inputs x existing output; and through a separate process'),
    Space('names', genOdd, checkOdd, '39 unusual file names x 4 kinds of path x all formats, functions and command-line tools'),
    Space('bad command lines', genCliBad, checkCliBad, 'incomplete, unknown and failing commands of both tools'),
]
