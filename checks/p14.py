"""P14: BMG messages survive saving and loading in every encoding."""
import itertools
from mc.core import Space, same, require, raises
from mc import ref_bmg as rb
import ndspy.bmg
from ndspy.bmg import BMG, Message

ENCODINGS = ('cp1252', 'utf-16', 'shift-jis', 'utf-8')


CAPITALS = ('CP1252', 'Cp1252', 'UTF-16', 'Utf-16', 'SHIFT-JIS', 'Shift-JIS', 'UTF-8', 'Utf-8')


def toMsg(m):
    info, parts, null = m
    return Message(info, [p if isinstance(p, str) else Message.Escape(*p) for p in parts], null)


def fromMsg(m):
    parts = tuple(p if isinstance(p, str) else (p.type, bytes(p.data)) for p in m.stringParts)
    return (bytes(m.info), parts, bool(m.isNull))


def make(msgs, enc, se, **kw):
    b = BMG.fromMessages([toMsg(m) for m in msgs], **kw)
    b.encoding = enc
    b.endianness = se
    return b


def compare(b, msgs, enc, se, what):
    same(b.encoding, enc, what + ': encoding')
    same(b.endianness, se, what + ': endianness')
    same([fromMsg(m) for m in b.messages], [(i, () if n else rb.norm(p), n) for i, p, n in msgs], what + ': messages')


def roundTrip(msgs, enc, se, ctx, ident=0, unks=(0, 0, 0)):
    b = make(msgs, enc, se, id=ident)
    b.unk14, b.unk18, b.unk1C = unks
    blob = b.save()
    ref = rb.decode(blob)
    want = tuple((i, () if n else rb.norm(p), n) for i, p, n in msgs)
    same(ref['messages'], want, 'independent reader: messages')
    same((ref['encoding'], ref['endianness'], ref['id']), (enc, se, ident), 'independent reader: encoding, endianness, ID')
    same(ref['sections'], [b'INF1', b'DAT1'], 'sections')
    back = BMG(blob)
    compare(back, msgs, enc, se, 'loaded file')
    same((back.id, back.unk14, back.unk18, back.unk1C), (ident,) + unks, 'ID and header values')
    same((back.instructions, back.labels, back.scripts), ([], [], []), 'script data')
    same(back.save(), blob, 'saving the loaded file')
    ctx.step(4)
    return blob


MULTI = {'cp1252': '\xe9\x80', 'utf-16': '日ᨚ', 'shift-jis': '日ソ', 'utf-8': '日\U0001f600'}
MULTI['cp1252'] = '\xe9€'
ATOMS = ('a', '', 'M', (0, b''), (0xFF, b'\0\x1a\0'), (4, b'\x1a\0xy'))


def genLists(tier):
    msgs = [()] + [(a,) for a in range(6)] + list(itertools.product(range(6), repeat=2)) + [None]
    if tier != 'quick':
        msgs += list(itertools.product(range(6), repeat=3))
    for enc in ENCODINGS:
        for se in '<>':
            yield (enc, se, ())
            for m in msgs:
                yield (enc, se, (m,))
                for m2 in msgs:
                    yield (enc, se, (m, m2))
            for ms in itertools.product((None, (), (0,), (2,), (4,)), repeat=3):
                yield (enc, se, ms)
    if tier == 'quick':
        for enc in ENCODINGS:
            for se in '<>':
                for m in itertools.product(range(6), repeat=3):
                    yield (enc, se, (m,))


def checkList(case, ctx):
    enc, se, ms = case
    msgs = []
    for i, m in enumerate(ms):
        parts = tuple(MULTI[enc] if ATOMS[a] == 'M' else ATOMS[a] for a in m or ())
        msgs.append((b'', parts, m is None))
    ctx.state(case)
    roundTrip(msgs, enc, se, ctx)
    ctx.outcome('%s%s %d messages' % (enc, se, len(ms)))


def genChars(tier):
    for se in '<>':
        for base in range(0, 0x10000, 64):
            yield ('utf-16', se, base)
            yield ('utf-8', se, base)
            yield ('shift-jis', se, base)
        for base in (0x10000, 0x1F600, 0x20000, 0x10FFC0):
            yield ('utf-16', se, base)
            yield ('utf-8', se, base)
        for base in list(range(0, 0x200, 64)) + [0x2C0, 0x2000, 0x2040, 0x2080, 0x2100]:
            yield ('cp1252', se, base)


def checkChars(case, ctx):
    enc, se, base = case
    chars = []
    for c in range(base, base + 64):
        ch = chr(c)
        try:
            if ch in '\0\x1A' or ch.encode(rb.codec(enc, se)).decode(rb.codec(enc, se)) != ch:
                continue
        except UnicodeError:
            continue
        chars.append(ch)
    msgs = [(b'', (ch,), False) for ch in chars] + [(b'', (ch, (7, b'q'), ch), False) for ch in chars] + [(b'', (''.join(chars),), False)]
    ctx.state(case)
    roundTrip(msgs, enc, se, ctx)
    ctx.outcome(enc + se)


def genEscapes(tier):
    for enc in ENCODINGS:
        w = 2 if enc == 'utf-16' else 1
        for se in '<>':
            for n in range(0, 254 - w):
                yield (enc, se, 5, n)
            for t in range(256):
                yield (enc, se, t, 3)


def checkEscape(case, ctx):
    enc, se, ty, n = case
    data = bytes((i * 7) % 256 for i in range(n))
    msgs = [(b'', ('x', (ty, data), 'y'), False), (b'', ((ty, data), (ty, data)), False), (b'', ('z',), False)]
    ctx.state(case)
    roundTrip(msgs, enc, se, ctx)
    ctx.outcome('escape')


def genInfo(tier):
    for se in '<>':
        for n in range(0, 40):
            for count in (1, 2, 3, 9):
                yield ('info', se, n, count)
        for count in list(range(0, 20)) + [127, 128, 255, 256, 257, 1000, 32767, 32768, 40000]:
            yield ('count', se, 0, count)
            yield ('count', se, 4, count)
        for n in (40, 60, 124, 127, 128, 252, 255, 256, 257, 1000, 32768, 65531):
            yield ('info', se, n, 3)
        for n in list(range(0, 70)) + [126, 127, 128, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 65535, 65536]:
            yield ('text', se, n, 1)
        for b in range(32):
            for f in range(4):
                yield ('value', se, f, 1 << b)
        yield ('long', se, 0x30000, 3)
        yield ('long', se, 0x50000, 7)
        for i in range(len(CAPITALS)):
            yield ('capitals', se, i, 0)
        # file sizes whose bytes read the other way round are smaller
        for size in (0x100, 0xFF00, 0xFFE0, 0x10000, 0x10020, 0x10100, 0x20000, 0x20100, 0x30100, 0xFFFE0, 0x100000, 0x100100, 0x300020):
            yield ('size', se, size, 0)


def checkInfo(case, ctx):
    kind, se, n, k = case
    ctx.state(case)
    ctx.outcome(kind)
    if kind == 'info' or kind == 'count':
        roundTrip([(bytes((i + j) % 256 for j in range(n)), ('m%d' % i,) if i % 4 else (), i % 4 == 3) for i in range(k)], 'utf-16', se, ctx)
    elif kind == 'text':
        for enc in ENCODINGS:
            roundTrip([(b'', ('t' * n,), False)], enc, se, ctx)
            roundTrip([(b'', ('t' * n,), False), (b'', ('u' * (n % 13),), False)], enc, se, ctx)
    elif kind == 'long':            # strings beyond 2^20 bytes
        for enc in ENCODINGS:
            roundTrip([(b'', (chr(97 + i) * (n + i),), False) for i in range(k)], enc, se, ctx)
    elif kind == 'capitals':
        enc, msgs = CAPITALS[n], [(b'', ('m', (1, b'q'), 'n'), False)]
        same(make(msgs, enc, se).save(), make(msgs, enc.lower(), se).save(), 'file saved with encoding %r' % enc)
    elif kind == 'value':
        v = [0, 0, 0, 0]
        v[n] = k
        roundTrip([(b'', ('v',), False)], 'utf-16', se, ctx, v[0], tuple(v[1:]))
        roundTrip([(b'', ('v',), False)], 'utf-16', se, ctx, 0xFFFFFFFF - v[0], tuple(0xFFFFFFFF - x for x in v[1:]))
    else:
        text = 's' * (n - 0x20 - 0x20 - 10 - 4)
        blob = roundTrip([(b'', (text,), False)], 'cp1252', se, ctx)
        same(len(blob), n, 'file size')


def genForeign(tier):
    msgs = [None, (), ('a',), ('a', (1, b'xy')), ('M',)]
    for ms in itertools.chain(itertools.product(msgs, repeat=2), itertools.product(msgs, repeat=3)):
        for layout in ('standard', 'reversed', 'shared', 'datfirst'):
            for enc in ENCODINGS:
                for se in '<>':
                    yield (ms, layout, enc, se)


def checkForeign(case, ctx):
    ms, layout, enc, se = case
    msgs = [(bytes([i, 9]), tuple(MULTI[enc] if a == 'M' else a for a in m or ()), m is None) for i, m in enumerate(ms)]
    blob = rb.encode(msgs, enc, se, 77, layout)
    b = BMG(blob)
    compare(b, msgs, enc, se, 'loaded file')
    same(b.id, 77, 'ID')
    out = b.save()
    compare(BMG(out), msgs, enc, se, 'resaved file')
    if layout == 'standard':
        same(out, blob, 'resaving a file in the standard layout')
    ctx.state(blob); ctx.step(3)
    ctx.outcome(layout)


def genReject(tier):
    for enc in ENCODINGS:
        for bad in '\0\x1A':
            for s in (bad, 'a' + bad, bad + 'a', 'a' + bad + 'b'):
                for pos in range(3):
                    yield (enc, s, pos)
    for pos in range(1, 4):
        for n in (0, 1, 3, 5):
            yield ('info', n, pos)
            yield ('infonull', n, pos)


def checkReject(case, ctx):
    """What cannot be represented is refused instead of being written wrongly."""
    enc, s, pos = case
    if enc in ('info', 'infonull'):
        msgs = [Message(b'ab', 'x') for _ in range(4)]
        msgs[pos] = Message(b'z' * s, 'x') if enc == 'info' else Message(b'z' * s, [], True)
        b = BMG.fromMessages(msgs)
    else:
        parts = ['x', Message.Escape(1, b''), 'y']
        parts.insert(pos, s)
        b = BMG.fromMessages([Message(b'', 'ok'), Message(b'', parts)])
        b.encoding = enc
    raises(ValueError, b.save, 'saving %r' % (case,))
    ctx.state(case); ctx.step(); ctx.outcome('rejected')


spaces = [
    Space('lists', genLists, checkList, lambda t: 'every list of up to 2 messages of up to %d parts each from 6 kinds of parts (or null), 3-message lists over 5 kinds, single messages of 3 parts; 4 encodings, both endiannesses' % (2 if t == 'quick' else 3)),
    Space('chars', genChars, checkChars, 'every character of the basic plane (and samples beyond) in every encoding that has it, alone and around an escape'),
    Space('escapes', genEscapes, checkEscape, 'every escape data length the format allows and every type'),
    Space('info', genInfo, checkInfo, 'metadata lengths 0..39 and up to 65531, message counts up to 40000, text lengths 0..69 around the padding and up to 65536, every bit of the ID and header values, file sizes around 64 KiB and 1 MiB, text beyond 2 MiB, encoding names in other capitalisations'),
    Space('foreign', genForeign, checkForeign, 'files by an independent writer: string orders, shared strings, section orders'),
    Space('reject', genReject, checkReject, 'terminator and escape characters in text, unequal metadata lengths'),
]
