"""P38: printable forms of every object are available and faithful."""
import ast
import itertools
import re

from mc.core import Space, same, require
from mc import ref_bank, ref_fs, ref_seq as rs, zoo
from checks import p19
import ndspy
from ndspy import (bmg, bnbl, bncl, code, fnt, graphics2D, model, narc, rom, soundArchive, soundBank, soundGroup,
                   soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer,
                   soundWave, soundWaveArchive, texture)
from ndspy import Alignment, WaveType

MODULES = (ndspy, bmg, bnbl, bncl, code, fnt, graphics2D, model, narc, rom, soundArchive, soundBank, soundGroup,
           soundSequence, soundSequenceArchive, soundSequencePlayer, soundStream, soundStreamPlayer, soundWave,
           soundWaveArchive, texture)
NAMES = {k: v for m in MODULES for k, v in vars(m).items() if isinstance(v, type)}
NAMES.update(Section=code.MainCodeFile.Section, Escape=bmg.Message.Escape, Region=soundBank.RegionalInstrument.Region)
ENUM = re.compile(r'<([A-Za-z_.]+)\.\w+: (\d+)>')
LITERAL = re.compile(r"""b'(?:[^'\\]|\\.)*'|b"(?:[^"\\]|\\.)*\"""", re.S)


def texts(obj, what):
    """Both printable forms; printing must not change the object."""
    before = zoo.snapshot(obj)
    s, r = str(obj), repr(obj)
    require(isinstance(s, str) and isinstance(r, str), '%s: text forms are not strings', what)
    same(zoo.snapshot(obj), before, '%s after printing' % what)
    return s, r


def evaluates(obj, what):
    """The detailed form is an expression for an equal object."""
    s, r = texts(obj, what)
    expr = ENUM.sub(r'\1(\2)', r)
    try:
        back = eval(expr, dict(NAMES))
    except Exception as e:
        require(False, '%s: detailed form %r does not evaluate: %r', what, r, e)
    same(zoo.snapshot(back), zoo.snapshot(obj), '%s: object described by %r' % (what, r))


def literals(text):
    """(bytes, marked as a prefix) for each byte literal in a text."""
    out = []
    for m in LITERAL.finditer(text):
        try:
            out.append((ast.literal_eval(m.group()), text.startswith('...', m.end())))
        except Exception as e:
            require(False, 'text %r contains a bad byte literal: %r', text, e)
    return out


def shows(text, datas, what):
    got = literals(text)
    same(len(got), len(datas), '%s: number of byte literals in %r' % (what, text))
    for (g, prefix), want in zip(got, datas):
        if prefix:
            require(len(g) < len(want) and g == want[:len(g)] and len(g) > 0, '%s: %r is marked as a prefix of %r (in %r)', what, g, want, text)
        else:
            require(g == want, '%s: shows %r instead of %r (in %r)', what, g, want, text)


# ------------------------------------------------------------------ byte literals

def oneFile(d):
    return narc.NARC.fromFilesAndNames([d], fnt.Folder(files=['f']))


def strm(d):
    return soundStream.STRM.fromChannels([[d]])


def tex(d):
    return texture.Texture(0, 0, 0x1C00, 0, d, d)


def unparsedSseq(d):
    return soundSequence.SSEQ(zoo.ref_sdat.sseqFile(d))


def unparsedSsar(d):
    return soundSequenceArchive.SSAR(zoo.ref_sdat.ssarFile([(0, 1, 2, 3, 4, 5)], d), 0, ['S'])


def swav(d):
    return soundWave.SWAV.fromData(d)


def section(d):
    return code.MainCodeFile.Section(d, 0x2000000, 0)


SHOWN = {
    'section': lambda d: (section(d), (1, 1)),
    'main code': lambda d: (code.MainCodeFile.fromSections([section(d), section(d)], 0x2000000), (2, 2)),
    'overlay': lambda d: (code.Overlay(d, 0x2000000, 4, 0, 0, 0, 0, 0, 0), (0, 1)),
    'NARC': lambda d: (oneFile(d), (1, 1)),
    'SWAV': lambda d: (swav(d), (0, 1)),
    'SWAR': lambda d: (soundWaveArchive.SWAR.fromWaves([swav(d), swav(d)]), (0, 2)),
    'STRM': lambda d: (strm(d), (0, 1)),
    'SSEQ': lambda d: (unparsedSseq(d), (0, 1)),
    'SSAR': lambda d: (unparsedSsar(d), (0, 1)),
    'texture': lambda d: (tex(d), (0, 2)),
}

CLASSES = [0, 1, 7, 8, 9, 10, 13, 0x1F, 0x20, 0x22, 0x27, 0x2F, 0x30, 0x37, 0x38, 0x39, 0x3A, 0x5C, 0x61, 0x62, 0x78, 0x7E, 0x7F, 0x80, 0xFF]


def genBytes(tier):
    for kind in SHOWN:
        # every pair of adjacent bytes, by first byte
        for a in range(256):
            if kind in ('section', 'NARC') or a in CLASSES or tier != 'quick':
                yield (kind, 'pairs', a)
        # every class string of three
        for a in CLASSES:
            if kind in ('section', 'SWAV') or tier != 'quick':
                yield (kind, 'triples', a)
        # every length around the cut, over each class at the cut
        for n in range(0, 70):
            yield (kind, 'lengths', n)


def datas(kind, how, a):
    if how == 'pairs':
        for b in range(256):
            yield bytes([a, b])
        yield bytes([a])
    elif how == 'triples':
        for b in CLASSES:
            for c in CLASSES:
                yield bytes([a, b, c])
    else:
        n = a
        yield bytes(range(65, 65 + n))
        for i in {x for x in (0, n - 1, n - 2, 15, 16, 17, 30, 31, 32, 33) if 0 <= x < n}:
            for c in CLASSES:
                for f in (0x61, 0x33, 1):
                    yield bytes([f] * i + [c] + [f] * (n - i - 1))


def checkBytes(case, ctx):
    kind, how, a = case
    n = 0
    for d in datas(kind, how, a):
        if kind in ('SSEQ', 'SSAR') and len(d) % 4:
            # (files store events in whole words)
            d += bytes(-len(d) % 4)
        obj, counts = SHOWN[kind](d)
        s, r = str(obj), repr(obj)
        shows(s, [d] * counts[0], '%s' % kind)
        shows(r, [d] * counts[1], '%s, detailed' % kind)
        n += 1
    ctx.step(n)
    ctx.state(case)
    ctx.outcome(kind + ' ' + how)


# ------------------------------------------------------------------ descriptions that evaluate

def genEvents(tier):
    for a in rs.NONE:
        yield ('none', a, 0)
    for a in rs.BYTE:
        yield ('byte', a, 0)
    for k in ('RestBig', 'Random1Arg', 'InstrumentSwitch', 'FromVariable', 'DefineTracks'):
        yield from p19.batches(k, None, p19.SIZES[k])
    for a in rs.ARITH:
        yield from p19.batches('arithVar', a, 256 * len(p19.S16))
    for a in rs.WORD:
        yield from p19.batches('word', a, 65536 if tier != 'quick' else 2048)
    if tier == 'quick':
        for k in ('Note', 'Rest', 'Random0', 'Random1', 'FromVariable2'):
            yield from itertools.islice(p19.batches(k, None, p19.SIZES[k]), 24)
    else:
        for k in ('Note', 'Rest', 'Random0', 'Random1', 'FromVariable2', 'RandomMin', 'RandomMax'):
            yield from p19.batches(k, None, p19.SIZES[k])
    yield ('raw', None, 0)


def checkEvents(case, ctx):
    kind, arg, first = case
    if kind == 'raw':
        evs = [rs.make(('RawData', d)) for d in itertools.chain((bytes([a]) for a in range(256)), (bytes([a, b]) for a in CLASSES for b in CLASSES))]
        for e in evs:
            evaluates(e, 'raw data event')
        ctx.step(len(evs))
        return
    n = 0
    for i in range(first, first + p19.BATCH):
        e = p19.event(kind, arg, i)
        if e is None:
            break
        evaluates(rs.make(e), 'event %r' % (e,))
        n += 1
    ctx.step(n)
    ctx.state(case)
    ctx.outcome(kind)


# ------------------------------------------------------------------ short texts that tell objects apart

APART = [('layout', None), ('mixed', None), ('Note', None), ('Rest', None), ('InstrumentSwitch', None), ('DefineTracks', None), ('FromVariable', None), ('Random0', None)]
APART += [('byte', a) for a in rs.BYTE] + [('word', a) for a in rs.WORD] + [('arithVar', a) for a in rs.ARITH]


def genApart(tier):
    for k, a in APART:
        yield (k, a, 20000 if tier == 'quick' else 300000)


def checkApart(case, ctx):
    kind, arg, limit = case
    if kind == 'layout':
        edges = (0, 1, 9, 10, 99, 100, 255)
        objs = {}
        for x, y, a in itertools.product(edges, edges, ALIGNS):
            for w, h in itertools.product(edges, repeat=2):
                objs['area', x, y, w, h, int(a)] = bnbl.BNBLTouchArea(x, y, w, h, a)
            for i in edges:
                objs['position', x, y, int(a), i] = bncl.BNCLImagePosition(x, y, a, i)
        items = list(objs.items())
    elif kind == 'mixed':
        evs = [(k, None, i) for k in ('Note', 'Rest', 'InstrumentSwitch', 'DefineTracks', 'FromVariable', 'Random0') for i in range(64)]
        evs += [('none', a, 0) for a in rs.NONE] + [('byte', a, i) for a in rs.BYTE for i in range(256)]
        evs += [('word', a, i) for a in rs.WORD for i in range(256)] + [('arithVar', a, i) for a in rs.ARITH for i in range(256)]
        evs = [p19.event(*e) for e in evs]
        # every pitch, velocity and duration
        evs += [('Note', p, v, False, d) for p in range(128) for v, d in ((100, 3), (3, 100))]
        items = [(e, rs.make(e)) for e in evs if e is not None]
    else:
        evs = itertools.takewhile(lambda e: e is not None, (p19.event(kind, arg, i) for i in range(limit)))
        items = [(e, rs.make(e)) for e in evs]
    seen = {}
    for key, obj in items:
        other = seen.setdefault((type(obj).__name__, str(obj)), key)
        require(other == key, '%r and %r both read %s', other, key, str(obj))
    ctx.step(len(items))
    ctx.state((kind, arg))
    ctx.outcome(kind)


BYTE_EDGES = (0, 1, 126, 127, 128, 255)
ALIGNS = [h | v for h in (Alignment.LEFT, Alignment.RIGHT, Alignment.H_CENTER) for v in (Alignment.TOP, Alignment.BOTTOM, Alignment.V_CENTER)]


def genSimple(tier):
    for k in range(len(FIELDS)):
        yield ('fields', k)
    for p in range(256):
        yield ('note', p)
    for t in itertools.product(range(3), repeat=3):
        yield ('instruments', t)
    for x in (0, 7, 8, 255, 256, 257, 4095):
        for y in (0, 15, 16, 191, 192, 4095):
            for a in ALIGNS:
                yield ('layout', (x, y, a))
    for n in (0, 1, 2, 9, 10, 11, 12, 99, 100, 101):
        yield ('counts', n)
    for m in range(17):
        yield ('players', m)
    for o in range(16):
        for t in range(4):
            yield ('group', (t, o))
    for t in ref_fs.treeShapes(4):
        yield ('folder', t)
    for k in range(len(MESSAGES)):
        yield ('message', k)
    for w in range(3):
        for n in range(0, 33):
            yield ('wave', (w, n))
    for n in range(0, 33):
        yield ('code', n)


EDGES = sorted({0, 1, 2, 3, 7, 9, 10, 99, 100, 127, 128, 1000, 4095, 4096} | {(1 << i) - j for i in range(4, 33) for j in (0, 1)} - {1 << 32} | {0xFFFFFFFF, 0x12345678, 0x89ABCDEF})
FIELDS = [
    (lambda: code.MainCodeFile.Section(b'abc', 1, 2), 'ramAddress bssSize'),
    (lambda: code.Overlay(b'abc', 1, 2, 3, 4, 5, 6, 7, 8), 'ramAddress ramSize bssSize staticInitStart staticInitEnd fileID compressedSize'),
    (lambda: bnbl.BNBLTouchArea(1, 2, 3, 4), 'x y width height'),
    (lambda: bncl.BNCLImagePosition(1, 2), 'x y imageID'),
    (lambda: bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(1, 2, 3, 4)]), 'unk04'),
    (lambda: bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(1, 2)]), 'unk04'),
    (lambda: soundSequencePlayer.SequencePlayer(1, {2}, 3), 'maxSequences heapSize'),
    (lambda: soundGroup.GroupEntry(1, 0, 3), 'id'),
    (lambda: soundBank.NoteDefinition(0, 0), 'waveID waveArchiveIDID attack decay sustain release pan'),
    (lambda: soundWave.SWAV.fromData(b'abcd'), 'sampleRate time loopOffset totalLength'),
    (lambda: bmg.Message.Escape(1, b'ab'), 'type'),
    (lambda: fnt.Folder([], ['a', 'b'], 5), 'firstID'),
]


def note(p, i, t):
    return (i & 0xFFFF, i % 4, p, i & 127, (i * 3) & 127, (i * 5) & 127, (i * 7) & 127, i & 127, t)


def escapes():
    return [bmg.Message.Escape(t, d) for t in (0, 1, 255) for d in (b'', b"'", b'"', b'\\', b'\0\1', bytes(range(20)))]


PARTS = [[], [''], ['a'], ["it's"], ['"'], ['\\n\n\0'], ['\u3042'], ['a', ('E', 0), 'b'], [('E', 3), ('E', 8)], ['', ('E', 17), '']]
INFOS = [b'', bytes(4), b"'\"\\\x7f"]
MESSAGES = [(i, j, null) for i in range(len(INFOS)) for j in range(len(PARTS)) for null in (False, True)]


def instrument(k, n):
    if k == 0:
        return ref_bank.makeInst(('S', note(60, n, 1)))
    if k == 1:
        return ref_bank.makeInst(('R', 40 + n, tuple(note(40 + i, i, 1 + i % 3) for i in range(n))))
    return ref_bank.makeInst(('G', tuple((min(127, 30 * (i + 1)), note(60, i, 2)) for i in range(n + 1))))


def folder(shape):
    names = iter("fold er %d'\"\\" % i for i in range(99))
    files = iter('file %d' % i for i in range(99))
    def build(s, depth):
        return fnt.Folder([(next(names), build(c, depth + 1)) for c in s], [next(files) for _ in range((depth + len(s)) % 3)], 7 * depth)
    return build(shape, 0)


def checkSimple(case, ctx):
    kind, p = case
    objs = []
    if kind == 'fields':
        make, names = FIELDS[p]
        for f in names.split():
            for v in EDGES:
                o = make()
                setattr(o, f, v)
                objs.append(o)
        for f, g in itertools.combinations(names.split(), 2):
            for v in EDGES[::5]:
                o = make()
                setattr(o, f, v)
                setattr(o, g, EDGES[-1] - v)
                objs.append(o)
    elif kind == 'note':
        for t in range(0, 16):
            for i in (0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 65535):
                objs.append(soundBank.NoteDefinition(*note(p, i, t)))
    elif kind == 'instruments':
        objs = [instrument(k, n) for n, k in enumerate(p)]
        if 2 in p:
            objs.append(objs[p.index(2)].regions[0])
    elif kind == 'layout':
        x, y, a = p
        for w, h in itertools.product(BYTE_EDGES, repeat=2):
            ta = bnbl.BNBLTouchArea(x, y, w, h, a)
            b = bnbl.BNBL()
            b.touchAreas = [ta]
            objs += [ta, b]
        for i in (0, 1, 0x7FFFFFFF):
            ip = bncl.BNCLImagePosition(x, y, a, i)
            c = bncl.BNCL()
            c.imagePositions = [ip]
            objs += [ip, c]
    elif kind == 'counts':
        for u in (0, 1, 65535):
            b, c = bnbl.BNBL(), bncl.BNCL()
            b.touchAreas = [bnbl.BNBLTouchArea(3 * i, 2 * i, i % 50, 20) for i in range(p)]
            c.imagePositions = [bncl.BNCLImagePosition(3 * i, 2 * i, imageID=i) for i in range(p)]
            b.unk04 = c.unk04 = u
            objs += [b, c]
    elif kind == 'players':
        for q in range(17):
            objs.append(soundSequencePlayer.SequencePlayer(p, set(range(min(p, q), max(p, q))), 999 * q))
            objs.append(soundStreamPlayer.StreamPlayer(list(range(p, q))))
    elif kind == 'group':
        objs = [soundGroup.GroupEntry(p[0], p[1], i) for i in (0, 1, 77, 65535)]
    elif kind == 'folder':
        objs = [folder(p)]
    elif kind == 'message':
        i, j, null = MESSAGES[p]
        E = escapes()
        objs = [bmg.Message(INFOS[i], [E[x[1]] if isinstance(x, tuple) else x for x in PARTS[j]], null)] + E
    elif kind == 'wave':
        w, n = p
        objs = [soundWave.SWAV.fromData(bytes((7 * i) % 256 for i in range(n)), waveType=WaveType(w), isLooped=l, sampleRate=r, time=t, loopOffset=lo, totalLength=tl)
                for l in (False, True) for r in (0, 8000, 65535) for t in (0, 65535) for lo in (0, 65535) for tl in (0, 77777)]
    elif kind == 'code':
        d = bytes((37 * i) % 256 for i in range(p))
        for a in (0, 0x2000000, 0xFFFFFFFF):
            for bss in (0, 32, 0xFFFFFF):
                for imp in (False, True):
                    objs.append(code.MainCodeFile.Section(d, a, bss, implicit=imp))
                for fl in (0, 1, 2, 3, 255):
                    objs.append(code.Overlay(d, a, bss, bss, a, a, 70000 * fl, bss, fl))
    for o in objs:
        evaluates(o, type(o).__name__)
        ctx.step()
    ctx.state(case)
    ctx.outcome(kind)


# ------------------------------------------------------------------ listings

def numbers(s):
    return [int(x) for x in re.findall(r'\d+', s)]


def checkItems(text, items, what):
    """Each item is listed once, in order, with its index and its own text."""
    lines = text.split('\n')
    at = 0
    for i, item in enumerate(items):
        want = str(item)
        found = [j for j in range(at, len(lines)) if re.search(r'\[\s*%d\]' % i, lines[j])]
        require(bool(found), '%s: item %d is not listed in %r', what, i, text)
        j = found[0]
        require(want in '\n'.join(lines[j:]), '%s: item %d is listed as %r instead of %r', what, i, lines[j], want)
        require(want in lines[j] or '\n' in want, '%s: item %d is listed as %r instead of %r', what, i, lines[j], want)
        at = j + 1


def genLists(tier):
    for n in (0, 1, 2, 3, 9, 10, 11, 12, 99, 100, 101, 127, 1000, 1001):
        for what in ('SBNK', 'SWAR', 'BNBL', 'BNCL'):
            yield (what, n)


def checkLists(case, ctx):
    what, n = case
    if what == 'SBNK':
        items = [None if i % 4 == 3 else instrument(i % 3, i % 5) for i in range(n)]
        for ids in ([], [None], [1, None, 70]):
            checkItems(str(soundBank.SBNK.fromInstruments(items, 0, ids)), items, what)
    elif what == 'SWAR':
        items = [soundWave.SWAV.fromData(b'', waveType=WaveType(i % 3), isLooped=bool(i % 2), sampleRate=1000 + i) for i in range(n)]
        checkItems(str(soundWaveArchive.SWAR.fromWaves(items)), items, what)
    elif what == 'BNBL':
        items = [bnbl.BNBLTouchArea(i, 2 * i, i % 256, 20) for i in range(n)]
        for u in (0, 3):
            checkItems(str(bnbl.BNBL.fromTouchAreas(items, u)), items, what)
    else:
        items = [bncl.BNCLImagePosition(i, 2 * i, imageID=i) for i in range(n)]
        for u in (0, 3):
            checkItems(str(bncl.BNCL.fromImagePositions(items, u)), items, what)
    ctx.step(n)
    ctx.state(case)
    ctx.outcome(what)


def genTrees(tier):
    for size in range(1, 5 if tier == 'quick' else 6):
        for shape in ref_fs.treeShapes(size):
            for counts in itertools.product(range(3), repeat=size):
                for base in (0, 1, 9998, 60000):
                    yield (shape, counts, base)


def checkTrees(case, ctx):
    shape, counts, base = case
    counts, ids = list(counts), [base]
    data, listing = {}, []

    def build(s, path):
        n = counts.pop(0)
        first = ids[0]
        ids[0] += n
        names = ['%sf%d' % (path, i) for i in range(n)]
        for i, f in enumerate(names):
            listing.append((first + i, f, False))
            data[first + i] = bytes([first + i & 0xFF, 0x27]) * (n * 5 + i)
        subs = []
        for i, c in enumerate(s):
            at = len(listing)
            name = '%sd%d' % (path, i)
            listing.append(None)
            sub = build(c, name)
            listing[at] = (sub.firstID, name, True)
            subs.append((name, sub))
        return fnt.Folder(subs, names, first)

    root = build(shape, 'q')

    def checkListing(lines, previews):
        same(len(lines), len(listing), 'lines of the listing %r' % (lines,))
        for line, (fid, name, isFolder) in zip(lines, listing):
            m = re.match(r'\s*(\d+)\s+(\S+)(.*)$', line, re.S)
            require(bool(m), 'listing line %r', line)
            same((int(m.group(1)), m.group(2)), (fid, name + '/' * isFolder), 'listing line %r' % line)
            if previews and not isFolder:
                shows(m.group(3), [data[fid]] if fid < len(files) else [], 'preview of %s' % name)

    text, r = texts(root, 'folder')
    checkListing(text.split('\n') if text else [], False)
    if base == 0:
        for short in (0, 1):
            files = [data[i] for i in range(max(0, len(data) - short))]
            n = narc.NARC.fromFilesAndNames(files, root)
            text, r = texts(n, 'NARC')
            lines = [l for l in text.split('\n')[1:-1] if l.strip()]
            checkListing(lines, True)
            if files:
                shows(r, [files[0]], 'NARC, detailed')
    ctx.step(2)
    ctx.state((shape, case[1]))
    ctx.outcome('nested' if len(case[1]) > 1 else 'flat')


KEYS = ('note', 'rest', 'end', 'jump', 'call', 'track')


def genPrograms(tier):
    # lists of events; a branch goes to any event, or to one outside the list
    top = 3 if tier == 'quick' else 4
    for n in range(0, top + 1):
        steps = [(k,) for k in KEYS[:3]] + [(k, t) for k in KEYS[3:] for t in list(range(n)) + ['out', 'outloop']]
        for prog in itertools.product(steps, repeat=n):
            yield prog
    for n in (8, 9, 10, 11, 12, 100, 101):
        for t in (0, n // 2, n - 1):
            yield (('rest',),) * (n - 2) + (('jump', t), ('end',))


def program(prog):
    E = soundSequence
    evs = []
    for i, (k, *t) in enumerate(prog):
        evs.append({'note': lambda: E.NoteSequenceEvent(60 + i, 100, i), 'rest': lambda: E.RestSequenceEvent(200 + i),
                    'end': E.EndTrackSequenceEvent, 'jump': lambda: E.JumpSequenceEvent(None),
                    'call': lambda: E.CallSequenceEvent(None), 'track': lambda: E.BeginTrackSequenceEvent(i % 16, None)}[k]())
    for e, (k, *t) in zip(evs, prog):
        if t:
            if t[0] == 'out':
                d = E.RestSequenceEvent(5)
            elif t[0] == 'outloop':
                d = E.JumpSequenceEvent(None)
                d.destination = d
            else:
                d = evs[t[0]]
            if k == 'track':
                e.firstEvent = d
            else:
                e.destination = d
    return evs


LINE = re.compile(r'\[\s*(\d+)\](.*)$')


def checkProgramText(text, prog, evs):
    got = [LINE.search(l) for l in text.split('\n') if 'WARNING' not in l]
    got = [(int(m.group(1)), m.group(2)) for m in got if m]
    same([i for i, _ in got], list(range(len(evs))), 'numbers of the events listed in %r' % text)
    for (i, line), e, (k, *t) in zip(got, evs, prog):
        if not t:
            require(str(e) in line, 'event %d %s is listed as %r', i, e, line)
        else:
            require({'jump': 'jump', 'call': 'call', 'track': 'track'}[k] in line, 'event %d (%s) is listed as %r', i, k, line)
            if isinstance(t[0], int):
                same(numbers(line)[-1:], [t[0]], 'destination shown for event %d in %r' % (i, line))
                if k == 'track':
                    same(numbers(line), [i % 16, t[0]], 'track number shown for event %d in %r' % (i, line))


def checkPrograms(case, ctx):
    evs = program(case)
    for i, e in enumerate(evs):
        str(e), repr(e)
    s = soundSequence.SSEQ.fromEvents(evs, 1, 2, 3, 4, 5, 6)
    checkProgramText(str(s), case, evs)
    repr(s)
    checkProgramText(soundSequence.printSequenceEventList(evs), case, evs)
    A = soundSequenceArchive
    # every event is the start of a sequence; one more is missing
    for names in ([chr(65 + i) * (1 + 3 * i) for i in range(min(len(evs), 6))], ['long_name_%d_' % i * (1 + 4 * i) for i in range(min(len(evs), 3))]):
        seqs = [(n, A.SSARSequence(evs[(2 * i) % len(evs)], i)) for i, n in enumerate(names)]
        a = A.SSAR.fromEventsAndSequences(evs, seqs + [('MISSING', A.SSARSequence(None))], 1)
        text = str(a)
        repr(a)
        checkProgramText(text, case, evs)
        flat = re.sub(r'\s', '', text)
        for i, n in enumerate(names):
            require(re.search(re.escape(n) + r'(,[^:\[]*)?:\[%d\]' % ((2 * i) % len(evs)), flat), 'sequence %s is not listed at its first event in %r', n, text)
        require('MISSING' in text, 'sequence without events is not listed in %r', text)
    ctx.step(3 + len(evs))
    ctx.state(case)
    kinds = {t[0] if isinstance(t[0], str) else 'back' if t[0] <= i else 'on' for i, (k, *t) in enumerate(case) if t}
    ctx.outcome(' '.join(sorted(kinds)) or 'plain')


# ------------------------------------------------------------------ everything else

def genZoo(tier):
    for k in zoo.KINDS:
        for i in range(len(k.makers)):
            yield (k.name, i)


def checkZoo(case, ctx):
    name, i = case
    kind = zoo.BY_NAME[name]
    obj = kind.makers[i]()
    n = 0
    texts(obj, name)
    # everything inside the object prints too
    for path in zoo.sites(obj):
        o = zoo.walk(obj, path)
        texts(o, '%s %r' % (name, path))
        n += 1
    # and so does the object with any one number or container replaced
    paths = zoo.sites(obj)
    for path in paths:
        for how in ('empty',) + EXTREMES:
            fresh = kind.makers[i]()
            o = zoo.walk(fresh, path)
            if how == 'empty':
                if not isinstance(o, (list, set, dict, bytearray)):
                    continue
                o.clear()
                str(fresh), repr(fresh)
                n += 1
                continue
            if isinstance(o, (list, set, dict, bytearray, tuple)):
                continue
            for f in zoo.fields(o):
                if f == 'parsed':
                    continue
                try:
                    v = getattr(o, f)
                except ValueError:
                    continue
                if type(v) is not int and not (isinstance(v, int) and type(v) is bool):
                    continue
                try:
                    setattr(o, f, type(v)(how))
                except Exception:
                    continue
                str(o), repr(o), str(fresh), repr(fresh)
                setattr(o, f, v)
                n += 1
    ctx.step(n)
    ctx.state(case)
    ctx.outcome(name)


EXTREMES = (0, 1, 2, 127, 128, 255)


def genRom(tier):
    for a in range(256):
        yield a


def checkRom(a, ctx):
    r = rom.NintendoDSRom()
    for b in range(256):
        for name in (bytes([a]), bytes([a, b]), bytes([a, b]) * 6):
            for t in (bytes, bytearray):
                r.name = t(name)
                r.idCode = t(bytes([b, a, 0x27, 0x22]))
                s, d = str(r), repr(r)
                require(isinstance(s, str) and isinstance(d, str), 'text of a ROM')
                if all(0x20 < c < 0x7F and c not in b'\\\'"' for c in name):
                    require(name.decode() in s, 'title %r is not shown in %r', name, s)
        ctx.step()
    ctx.state(a)


spaces = [
    Space('byte literals', genBytes, checkBytes,
          'every text that shows byte data (10 kinds of object): every adjacent byte pair, every triple over 25 byte classes, every length 0..69 with each class at each position near the cut-off'),
    Space('events that evaluate', genEvents, checkEvents,
          'detailed form of every event type over its parameter values (see P19); quick tier keeps 12288 events of the largest families'),
    Space('values that evaluate', genSimple, checkSimple,
          'detailed form of notes (all pitches x types 0-15), instruments, touch areas, image positions, players, group entries, folders up to 4 nodes, messages, waves and code up to 32 bytes; each of 30 numbers at 70 values, and pairs of them'),
    Space('short texts', genApart, checkApart, 'every pair among up to 20000 events of each kind (thorough: 300000), among the first 64 or 256 of all kinds mixed, among 21609 touch areas and 3087 image positions'),
    Space('item listings', genLists, checkLists, 'SBNK, SWAR, BNBL and BNCL of 0..1001 items'),
    Space('folder listings', genTrees, checkTrees, lambda t: 'every tree of up to %d folders with 0-2 files each, 4 first IDs, with and without missing files' % (4 if t == 'quick' else 5)),
    Space('sequence listings', genPrograms, checkPrograms,
          lambda t: 'every list of up to %d events of 6 kinds with every branch target, loops and outside targets included' % (3 if t == 'quick' else 4)),
    Space('ROM texts', genRom, checkRom, 'every pair of title bytes'),
    Space('all objects', genZoo, checkZoo, 'every example object of every kind and everything inside it, with each number replaced by 6 values and each container emptied'),
]
