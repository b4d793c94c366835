"""P22: sequence files and sequence archives survive saving and loading."""
import itertools
import os
import shutil
import tempfile
from mc.core import Space, same, require, Violation
from mc import ref_seq as rs
from checks import p20
import ndspy.soundSequence as ss
from ndspy.soundSequence import SSEQ, readSequenceEvents
from ndspy.soundSequenceArchive import SSAR, SSARSequence


def u32(b, o):
    return int.from_bytes(b[o:o + 4], 'little')


def u16(b, o):
    return int.from_bytes(b[o:o + 2], 'little')


def checkHeader(b, magic):
    same(bytes(b[:4]), magic, 'magic')
    same(bytes(b[4:8]), b'\xFF\xFE\0\1', 'byte order mark and version')
    same(u32(b, 8), len(b), 'file size')
    same((u16(b, 12), u16(b, 14)), (0x10, 1), 'header size, blocks')
    same(bytes(b[16:20]), b'DATA', 'block magic')
    same(u32(b, 20), len(b) - 16, 'block size')


def readSseq(b):
    checkHeader(b, b'SSEQ')
    same(u32(b, 0x18), 0x1C, 'data offset')
    return bytes(b[0x1C:])


def readSsar(b):
    checkHeader(b, b'SSAR')
    n = u32(b, 0x1C)
    off = u32(b, 0x18)
    require(off >= 0x20 + 12 * n, 'data offset')
    rows = []
    for i in range(n):
        r = bytes(b[0x20 + 12 * i:0x2C + 12 * i])
        s = int.from_bytes(r[:4], 'little', signed=True)
        same(r[10:], b'\0\0', 'row padding')
        rows.append((None if s == -1 else s, u16(r, 4)) + tuple(r[6:10]))
    return tuple(rows), bytes(b[off:])


def makeSseq(data, gap=0):
    return (b'SSEQ\xFF\xFE\0\1' + (0x1C + gap + len(data)).to_bytes(4, 'little') + b'\x10\0\1\0DATA'
            + (0xC + gap + len(data)).to_bytes(4, 'little') + (0x1C + gap).to_bytes(4, 'little') + bytes(gap) + data)


def makeSsar(rows, data, gap=0):
    off = 0x20 + 12 * len(rows) + gap
    return (b'SSAR\xFF\xFE\0\1' + (off + len(data)).to_bytes(4, 'little') + b'\x10\0\1\0DATA'
            + (off + len(data) - 16).to_bytes(4, 'little') + off.to_bytes(4, 'little') + len(rows).to_bytes(4, 'little')
            + b''.join((-1 if r[0] is None else r[0]).to_bytes(4, 'little', signed=True) + r[1].to_bytes(2, 'little') + bytes(r[2:]) + b'\0\0'
                       for r in rows) + bytes(gap) + data)


PROGRAMS = [(), ('e',), ('n', 'e'), ('n', 'j0'), ('x',), ('c2', 'e', 'n', 'r'), ('b3', 'n', 'e', 'n', 'e'), ('e', 'n', 'e'),
            ('e', 'x', 'e'), ('i', 'e', 'n', 'e'), ('n',), ('r',)]


def prog(p):
    return p20.assemble(p)


SATTRS = ((0, 0, 127, 64, 50, 0), (1, 2, 3, 4, 5, 6), (65535, 65535, 255, 255, 255, 255), (0, 0, 0, 0, 0, 0))


def sseqAttrs(s):
    return (s.unk02, s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID)


# --- SSEQ histories ---------------------------------------------------------
def genSseq(tier):
    depth = 4 if tier == 'quick' else 6
    for p in PROGRAMS:
        for a in range(len(SATTRS)):
            for n in range(1, depth + 1):
                for h in itertools.product('pslf', repeat=n):
                    if n == depth or True:
                        yield (p, a, ''.join(h))


def checkSseq(case, ctx):
    p, a, hist = case
    data, offs = prog(p)
    attrs = SATTRS[a]
    s = SSEQ(makeSseq(data), *attrs)
    parses = not p20.analyse(data, [0] if data else [])[1]
    parsed = False
    for h in hist:
        if h == 'p':
            try:
                s.parse()
                parsed = True
            except Exception as e:
                require(not parses, 'well-formed sequence does not parse: %r', e)
        elif h == 's':
            out = s.save()
            same((readSseq(out[0]),) + tuple(out[1:]), (data,) + attrs, 'saved')
        elif h == 'l':
            s = SSEQ(*s.save())
            parsed = False
        elif h == 'f':
            d = tempfile.mkdtemp(prefix='verif-p22-')
            try:
                f = os.path.join(d, 'x.sseq')
                s.saveToFile(f)
                same(readSseq(open(f, 'rb').read()), data, 'saved to a file')
                s = SSEQ.fromFile(f, *attrs)
                parsed = False
            finally:
                shutil.rmtree(d)
        same(s.parsed, parsed, 'parsed state after %r' % h)
        same(sseqAttrs(s), attrs, 'attributes after %r' % h)
        if not parsed:
            same(bytes(s.eventsData), data, 'data after %r' % h)
        ctx.step()
    ctx.state((p, a, hist))


# --- SSAR histories ---------------------------------------------------------
def genSsar(tier):
    depth = 3 if tier == 'quick' else 5
    for p in PROGRAMS:
        offs = p20.assemble(p)[1]
        cands = [None] + offs
        for n in range(0, 3 if tier == 'quick' else 4):
            for st in itertools.product(cands, repeat=n):
                for h in itertools.product('pslf', repeat=depth):
                    if n == 2 and h[0] != 'p' and h[1] != 'p':
                        continue
                    yield (p, st, ''.join(h))


def rowsFor(starts):
    return tuple((s, 300 * i + 1, 127 - i, 64 + i, 50 + i, i) for i, s in enumerate(starts))


def state(a):
    """Entries as (name, offset or None, attributes...)."""
    pos = {}
    off = 0
    if a.parsed:
        for e in a.events:
            pos[id(e)] = off
            off += e.dataLength
    rows = []
    names = []
    for n, q in a.sequences:
        same(q.parsed, a.parsed, 'sequence parsed state')
        if a.parsed:
            o = None if q.firstEvent is None else pos[id(q.firstEvent)]
        else:
            o = q.firstEventOffset
        rows.append((o, q.bankID, q.volume, q.channelPressure, q.polyphonicPressure, q.playerID))
        names.append(n)
    return tuple(rows), names


def checkSsar(case, ctx):
    p, starts, hist = case
    data, offs = prog(p)
    rows = rowsFor(starts)
    names = [None if i == 1 else 'SEQ_%d' % i for i in range(len(starts))]
    a = SSAR(makeSsar(rows, data), 77, names)
    real = [s for s in starts if s is not None]
    ok = not p20.analyse(data, real or ([0] if data else []))[1]
    if data and not real:
        ok = False        # no starting point is given: may or may not parse
    parsed = False
    for h in hist:
        if h == 'p':
            try:
                a.parse()
                parsed = True
            except Exception as e:
                require(not ok, 'well-formed archive does not parse: %r', e)
        elif h == 's':
            blob, unk, nm = a.save()
            same((readSsar(blob), unk, list(nm)), ((rows, data), 77, names), 'saved')
        elif h == 'l':
            a = SSAR(*a.save())
            parsed = False
        elif h == 'f':
            d = tempfile.mkdtemp(prefix='verif-p22-')
            try:
                f = os.path.join(d, 'x.ssar')
                a.saveToFile(f)
                same(readSsar(open(f, 'rb').read()), (rows, data), 'saved to a file')
                a = SSAR.fromFile(f, 77, names)
                parsed = False
            finally:
                shutil.rmtree(d)
        same(a.parsed, parsed, 'parsed state after %r' % h)
        same((a.unk02,) + state(a), (77, rows, names), 'entries after %r' % h)
        if not parsed:
            same(bytes(a.eventsData), data, 'data after %r' % h)
        ctx.step()
    ctx.state(case)


# --- attributes -------------------------------------------------------------
def genAttrs(tier):
    for field in range(1, 6):
        vals = range(256) if field > 1 else list(range(0, 65536, 257)) + [1, 255, 256, 32767, 32768, 65535]
        for v in vals:
            for parsed in (False, True):
                yield (field, v, parsed)


def checkAttrs(case, ctx):
    field, v, parsed = case
    data, offs = prog(('n', 'e', 'n', 'e'))
    rows = [list(r) for r in rowsFor((offs[2], None, 0))]
    a = SSAR(makeSsar([tuple(r) for r in rows], data), 3, ['a', 'b', 'c'])
    if parsed:
        a.parse()
    for i in range(3):
        q = a.sequences[i][1]
        setattr(q, ('', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID')[field], v)
        rows[i][field] = v
        same(readSsar(a.save()[0]), (tuple(map(tuple, rows)), data), 'after setting an attribute of entry %d' % i)
        ctx.step()
    same(state(SSAR(*a.save())), (tuple(map(tuple, rows)), ['a', 'b', 'c']), 'loaded again')
    same(tuple(a.sequences[0][1].save()[1:]), tuple(rows[0][1:]), 'SSARSequence.save()')
    ctx.state(case)


# --- names, gaps, edits and construction ------------------------------------
def genMisc(tier):
    for n in range(4):
        for k in range(n + 1):
            yield ('names', n, ('N0', 'N1', 'N2')[:k])
        for nm in itertools.product((None, '', 'N', 'x' * 40), repeat=n):
            yield ('names', n, nm)
        yield ('nonames', n, 0)
    for gap in range(0, 9):
        for n in range(3):
            yield ('gap', n, gap)
    for n in range(4):
        for parsed in (False, True):
            for op in ('del', 'ins', 'swap', 'retarget', 'rename', 'data', 'clear'):
                yield ('edit', n, (parsed, op))
    for n in range(4):
        yield ('new', n, None)
        for k in range(n):
            for parsed in (False, True):
                yield ('twice', n, (k, parsed))
    for tail in range(5):
        yield ('trailing', 2, tail)


def checkMisc(case, ctx):
    kind, n, x = case
    data, offs = prog(('n', 'e', 'n', 'e'))
    starts = ([offs[2], None, 0, offs[2]])[:n]
    if kind == 'edit':
        data, offs = prog(('n', 'n', 'n', 'e'))
        starts = ([0, None, offs[2], offs[1]])[:n]
    rows = rowsFor(starts)
    ctx.state(case)
    ctx.step()
    if kind in ('names', 'nonames'):
        given = list(x) if x else []
        want = given + [None] * (n - len(given))
        orig = list(given)
        a = SSAR(makeSsar(rows, data), 0, given) if kind == 'names' else SSAR(makeSsar(rows, data))
        same(state(a), (rows, want), 'entries')
        same(given, orig, 'the list of names passed in')
        same(list(a.save()[2]), want, 'names saved')
        a.parse() if any(s is not None for s in starts) else None
        same(state(SSAR(*a.save())), (rows, want), 'loaded again')
    elif kind == 'gap':
        a = SSAR(makeSsar(rows, data, x), 0, ['a'] * n)
        same(bytes(a.eventsData), data, 'data')
        same(readSsar(a.save()[0]), (rows, data), 'saved')
        s = SSEQ(makeSseq(data, x), 0)
        same(bytes(s.eventsData), data, 'sequence data')
        same(readSseq(s.save()[0]), data, 'saved sequence')
    elif kind == 'twice':
        # the same sequence object under two names
        k, parsed = x
        a = SSAR(makeSsar(rows, data), 0, ['a', 'b', 'c'][:n])
        if parsed:
            if not any(s is not None for s in starts):
                return
            a.parse()
        a.sequences.insert(0, ('again', a.sequences[k][1]))
        a.sequences.append(('more', a.sequences[k + 1][1]))
        want = (rows[k],) + rows + (rows[k],)
        blob, unk, nm = a.save()
        same((readSsar(blob), list(nm)), ((want, data), ['again'] + ['a', 'b', 'c'][:n] + ['more']), 'saved')
    elif kind == 'trailing':
        # bytes after the file size stated in the header are not part of the file
        a = SSAR(makeSsar(rows, data) + b'Z' * x)
        same(bytes(a.eventsData), data, 'archive data')
        s = SSEQ(makeSseq(data) + b'Z' * x)
        same(bytes(s.eventsData), data, 'sequence data')
    elif kind == 'new':
        evs = [rs.make(('Pan', 1)), rs.make(('EndTrack',)), rs.make(('Pan', 1)), rs.make(('EndTrack',))]
        byOff = dict(zip(offs, evs))
        seqs = [('x%d' % i, SSARSequence(None if r[0] is None else byOff[r[0]], *r[1:])) for i, r in enumerate(rows)]
        a = SSAR.fromEventsAndSequences(evs, seqs, 5)
        same(state(a), (rows, ['x%d' % i for i in range(n)]), 'new archive')
        blob, unk, nm = a.save()
        same((readSsar(blob), unk, list(nm)), ((rows, data), 5, ['x%d' % i for i in range(n)]), 'saved')
        s = SSEQ.fromEvents(evs, *SATTRS[1])
        out = s.save()
        same((readSseq(out[0]),) + tuple(out[1:]), (data,) + SATTRS[1], 'saved sequence')
        e = SSEQ()
        same(readSseq(e.save()[0]), b'', 'empty sequence')
        e = SSEQ(*e.save())
        e.parse()
        same(e.events, [], 'events of an empty sequence')
        b = SSAR()
        same(readSsar(b.save()[0]), ((), b''), 'empty archive')
        b = SSAR(*b.save())
        b.parse()
        same((b.events, b.sequences), ([], []), 'contents of an empty archive')
        # new objects start out independent and with the documented defaults
        same(sseqAttrs(SSEQ()), (0, 0, 127, 64, 50, 0), 'defaults')
        q = SSARSequence(evs[0])
        same((q.bankID, q.volume, q.channelPressure, q.polyphonicPressure, q.playerID, q.parsed), (0, 127, 64, 50, 0, True), 'defaults')
    else:
        parsed, op = x
        names = ['a', 'b', 'c', 'd'][:n]
        a = SSAR(makeSsar(rows, data), 0, names)
        rows, names = list(rows), list(names)
        if parsed:
            if not any(s is not None for s in starts):
                return
            a.parse()
        want = data
        if op == 'del' and n:
            del a.sequences[0]
            del rows[0], names[0]
        elif op == 'ins':
            tgt = a.events[1] if parsed else offs[1]
            a.sequences.insert(1, ('new', SSARSequence(tgt, 1, 2, 3, 4, 5, parsed=parsed)))
            rows.insert(1, (offs[1], 1, 2, 3, 4, 5))
            names.insert(1, 'new')
        elif op == 'swap':
            a.sequences.reverse()
            rows.reverse()
            names.reverse()
        elif op == 'retarget' and n:
            q = a.sequences[-1][1]
            if parsed:
                q.firstEvent = a.events[3]
            else:
                q.firstEventOffset = offs[3]
            rows[-1] = (offs[3],) + rows[-1][1:]
        elif op == 'rename' and n:
            a.sequences[0] = ('zz', a.sequences[0][1])
            names[0] = 'zz'
        elif op == 'data':
            if parsed:
                a.events.append(rs.make(('Tempo', 999)))
            else:
                a.eventsData = data + rs.encode(('Tempo', 999))
            want = data + rs.encode(('Tempo', 999))
        elif op == 'clear' and n:
            q = a.sequences[0][1]
            if parsed:
                q.firstEvent = None
            else:
                q.firstEventOffset = None
            rows[0] = (None,) + rows[0][1:]
        blob, unk, nm = a.save()
        same((readSsar(blob), list(nm)), ((tuple(rows), want), names), 'after the edit')
        same(state(SSAR(blob, unk, nm)), (tuple(rows), names), 'loaded after the edit')


# --- large offsets and counts -----------------------------------------------
def genLong(tier):
    for pad in (5, 0x7B, 0xFB, 0xFC, 0x7FFB, 0x7FFC, 0x7FFF, 0x8000, 0xFFFB, 0xFFFC, 0x10000, 0x12345, 0x20000):
        for starts in ((0,), (0, 1), (1, None, 0), (1, 1, 0)):
            for parsed in (False, True):
                yield ('far', pad, starts, parsed)
    for n in (127, 128, 255, 256, 257, 1000, 3000):
        for parsed in (False, True):
            yield ('many', n, None, parsed)
            yield ('nonames', n, None, parsed)
            for k in (1, 2, 5):
                yield ('shared', n, k, parsed)
    for n in (4095, 4096, 4097, 65535, 65536, 65537):
        yield ('many', n, None, False)
        yield ('nonames', n, None, False)


def checkLong(case, ctx):
    kind, n, starts, parsed = case
    if kind == 'far':
        data = rs.encode(('Jump', 4 + n)) + b'\x3D' * n + rs.encode(('Pan', 1)) + b'\xFF'
        rows = rowsFor([None if s is None else (0, 4 + n)[s] for s in starts])
    else:
        data = rs.encode(('Pan', 1)) * n + b'\xFF'
        rows = tuple((2 * (i * 7 % n % (starts or n)), i % 65536, i % 256, i // 256 % 256, 50, 3) for i in range(n))
    names = ['n%d' % i if i % 3 else None for i in range(len(rows))]
    a = SSAR(makeSsar(rows, data), 7, names)
    if kind == 'nonames':
        names = ['only', 'two'] + [None] * (n - 2)
        a = SSAR(makeSsar(rows, data), 7, ['only', 'two'])
    for _ in range(2):
        same(bytes(a.eventsData), data, 'data')
        same((a.unk02,) + state(a), (7, rows, names), 'entries')
        if parsed:
            a.parse()
            same((a.unk02,) + state(a), (7, rows, names), 'entries, parsed')
        blob, unk, nm = a.save()
        same((readSsar(blob), unk, list(nm)), ((rows, data), 7, names), 'saved')
        a = SSAR(blob, unk, nm)
        ctx.step()
    s = SSEQ(makeSseq(data), *SATTRS[1])
    if parsed:
        s.parse()
    out = s.save()
    same((readSseq(out[0]),) + tuple(out[1:]), (data,) + SATTRS[1], 'saved sequence')
    ctx.state(case)


spaces = [
    Space('misc', genMisc, checkMisc, 'all name lists over 4 names, name lists shorter than the archive, gaps before the data, single edits, construction, 0..3 entries'),
    Space('sseq', genSseq, checkSseq, lambda tier: '%d programs x 4 attribute sets x all histories of up to %d parse/save/reload/file steps' % (len(PROGRAMS), 4 if tier == 'quick' else 6)),
    Space('ssar', genSsar, checkSsar, lambda tier: '%d programs x all entry point lists of up to %d entries (missing, shared, dead code) x all histories of %d steps'
          % ((len(PROGRAMS),) + ((2, 3) if tier == 'quick' else (3, 5)))),
    Space('long', genLong, checkLong, 'sequence data of up to 0x20000 bytes with entry points and jumps at 13 offsets; archives of up to 3000 entries (65537 unparsed) at as many, one, two or five places'),
    Space('attributes', genAttrs, checkAttrs, 'every 8-bit attribute value and 261 bank IDs, parsed and unparsed'),
]
