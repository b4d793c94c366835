"""
Independent model of instrument banks.  A note is the tuple (waveID, archive,
pitch, attack, decay, sustain, release, pan, type); an instrument is None,
('S', note), ('R', firstPitch, (notes...)) or ('G', ((lastPitch, note)...)).
"""
import ndspy.soundBank as sb


def noteBytes(n, withType):
    b = n[0].to_bytes(2, 'little') + n[1].to_bytes(2, 'little') + bytes(n[2:8])
    return (n[8].to_bytes(2, 'little') if withType else b'') + b


def kind(i):
    if i is None:
        return 0
    return {'R': 16, 'G': 17}.get(i[0]) or i[1][8]


def encodeInst(i):
    if i[0] == 'S':
        return noteBytes(i[1], False)
    if i[0] == 'R':
        return bytes([i[1], i[1] + len(i[2]) - 1]) + b''.join(noteBytes(n, True) for n in i[2])
    ends = bytes(e for e, n in i[1])
    return ends + bytes(8 - len(ends)) + b''.join(noteBytes(n, True) for e, n in i[1])


def makeNote(n):
    return sb.NoteDefinition(*n)


def makeInst(i):
    if i is None:
        return None
    if i[0] == 'S':
        return sb.SingleNoteInstrument(makeNote(i[1]))
    if i[0] == 'R':
        return sb.RangeInstrument(i[1], [makeNote(n) for n in i[2]])
    return sb.RegionalInstrument([sb.RegionalInstrument.Region(e, makeNote(n)) for e, n in i[1]])


def readNote(n):
    return (n.waveID, n.waveArchiveIDID, n.pitch, n.attack, n.decay, n.sustain, n.release, n.pan, int(n.type))


def readInst(i):
    if i is None:
        return None
    if isinstance(i, sb.SingleNoteInstrument):
        return ('S', readNote(i.noteDefinition))
    if isinstance(i, sb.RangeInstrument):
        return ('R', i.firstPitch, tuple(readNote(n) for n in i.noteDefinitions))
    return ('G', tuple((r.lastPitch, readNote(r.noteDefinition)) for r in i.regions))


def build(table, stored, tail=b''):
    """A bank file: table entries are None or (instrument, index into stored)."""
    base = 0x3C + 4 * len(table)
    offs = []
    body = b''
    for s in stored:
        offs.append(base + len(body))
        body += encodeInst(s)
    body += tail
    body += bytes(-len(body) % 4)
    rows = b''
    for t in table:
        if t is None:
            rows += bytes(4)
        else:
            rows += bytes([kind(t[0])]) + offs[t[1]].to_bytes(2, 'little') + b'\0'
    size = base + len(body)
    return (b'SBNK\xFF\xFE\0\1' + size.to_bytes(4, 'little') + b'\x10\0\1\0DATA' + (size - 0x10).to_bytes(4, 'little')
            + bytes(32) + len(table).to_bytes(4, 'little') + rows + body)


def layout(insts, keys=None, merges=None):
    """The file the writer should produce for a list of instruments."""
    keys = keys or [0] * len(insts)
    merges = merges or [0] * len(insts)
    stored = []
    table = [None] * len(insts)
    seen = {}
    for group in (lambda k: 0 < k < 16, lambda k: k == 16, lambda k: k == 17):
        ids = [i for i, x in enumerate(insts) if group(kind(x))]
        for i in sorted(ids, key=lambda i: keys[i]):
            key = (encodeInst(insts[i]), merges[i])
            if key not in seen:
                seen[key] = len(stored)
                stored.append(insts[i])
            table[i] = (insts[i], seen[key])
    return build(table, stored)


class Bad(Exception):
    pass


def decode(b):
    """List of instruments of a bank file (strict about everything that matters)."""
    def u(o, n):
        if o + n > len(b):
            raise Bad('read past the end at %#x' % o)
        return int.from_bytes(b[o:o + n], 'little')

    def note(o, typ=None):
        if typ is None:
            typ = u(o, 2)
            o += 2
        u(o, 10)
        return (u(o, 2), u(o + 2, 2)) + tuple(b[o + 4:o + 10]) + (typ,)

    if bytes(b[:8]) != b'SBNK\xFF\xFE\0\1' or u(8, 4) != len(b) or u(12, 4) != 0x10010:
        raise Bad('header')
    if bytes(b[16:20]) != b'DATA' or u(20, 4) != len(b) - 16 or len(b) % 4:
        raise Bad('block header')
    out = []
    n = u(0x38, 4)
    for i in range(n):
        t, o = b[0x3C + 4 * i], u(0x3D + 4 * i, 3)
        if t == 0:
            out.append(None)
            continue
        if o < 0x3C + 4 * n:
            raise Bad('instrument inside the table')
        if t < 16:
            out.append(('S', note(o, t)))
        elif t == 16:
            first, last = u(o, 1), u(o + 1, 1)
            out.append(('R', first, tuple(note(o + 2 + 12 * k) for k in range(last - first + 1))))
        elif t == 17:
            ends = [u(o + k, 1) for k in range(8)]
            k = 1
            while k < 8 and ends[k]:
                k += 1
            out.append(('G', tuple((ends[j], note(o + 8 + 12 * j)) for j in range(k))))
        else:
            raise Bad('type')
    return out
