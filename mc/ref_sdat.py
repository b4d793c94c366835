"""Independent model, reader and file builders for sound archives (SDAT)."""
import struct
from mc.core import require, same

KINDS = ('sequences', 'sequenceArchives', 'banks', 'waveArchives',
         'sequencePlayers', 'groups', 'streamPlayers', 'streams')
FILE_KINDS = ('sequences', 'sequenceArchives', 'banks', 'waveArchives', 'streams')


# ---------------------------------------------------------------- files

def stdHeader(magic, size, blocks):
    return magic + struct.pack('<HHIHH', 0xFEFF, 0x100, size, 0x10, blocks)


def sseqFile(events):
    n = 0x1C + len(events)
    return stdHeader(b'SSEQ', n, 1) + b'DATA' + struct.pack('<II', n - 0x10, 0x1C) + bytes(events)


def ssarFile(entries, events):
    """entries: (offset or None, bankID, volume, channelPressure, polyphonicPressure, playerID)"""
    off = 0x20 + 12 * len(entries)
    n = off + len(events)
    out = stdHeader(b'SSAR', n, 1) + b'DATA' + struct.pack('<III', n - 0x10, off, len(entries))
    for o, *rest in entries:
        out += struct.pack('<iH4B2x', -1 if o is None else o, *rest)
    return out + bytes(events)


def sbnkFile(notes):
    """A bank of PCM single-note instruments; notes: 10-byte records."""
    off = 0x3C + 4 * len(notes)
    table, blob = b'', b''
    for nd in notes:
        table += struct.pack('<BHx', 1, off + len(blob))
        blob += nd
    blob += b'\0' * (-(off + len(blob)) % 4)
    n = off + len(blob)
    return stdHeader(b'SBNK', n, 1) + b'DATA' + struct.pack('<I32xI', n - 0x10, len(notes)) + table + blob


def swarFile(waves):
    """waves: raw sample data of PCM8 waves"""
    off = 0x3C + 4 * len(waves)
    table, blob = b'', b''
    for w in waves:
        table += struct.pack('<I', off + len(blob))
        blob += struct.pack('<BBHHHI', 0, 0, 8000, 2094, 0, len(w) // 4) + w
    n = off + len(blob)
    return stdHeader(b'SWAR', n, 1) + b'DATA' + struct.pack('<I32xI', n - 0x10, len(waves)) + table + blob


def strmFile(block):
    """A mono PCM8 stream of one block (length a multiple of 4)."""
    assert len(block) % 4 == 0
    n = 0x68 + len(block)
    head = struct.pack('<BBBBHH', 0, 0, 1, 0, 8000, 65)
    head += struct.pack('<16I', 0, len(block), 0x68, 1, len(block), len(block), len(block), len(block),
                        0, 0, 0, 0, 0, 0, 0, 0)
    return (stdHeader(b'STRM', n, 2) + b'HEAD' + struct.pack('<I', 0x50) + head
            + b'DATA' + struct.pack('<I', 8 + len(block)) + bytes(block))


# ---------------------------------------------------------------- ndspy <-> model

def toNdspy(model, options=None):
    """model: {kind: ((name, entry or None), ...)}"""
    from ndspy import (soundArchive, soundSequence, soundSequenceArchive, soundBank, soundWaveArchive,
                       soundSequencePlayer, soundGroup, soundStreamPlayer, soundStream)
    make = {
        'sequences': lambda e: soundSequence.SSEQ(*e),
        'sequenceArchives': lambda e: soundSequenceArchive.SSAR(e[0], e[1], list(e[2])),
        'banks': lambda e: soundBank.SBNK(e[0], e[1], list(e[2])),
        'waveArchives': lambda e: soundWaveArchive.SWAR(*e),
        'sequencePlayers': lambda e: soundSequencePlayer.SequencePlayer(e[0], set(e[1]), e[2]),
        'groups': lambda e: [soundGroup.GroupEntry(*g) for g in e],
        'streamPlayers': lambda e: soundStreamPlayer.StreamPlayer(list(e)),
        'streams': lambda e: soundStream.STRM(*e),
    }
    s = soundArchive.SDAT()
    for kind in KINDS:
        lst = getattr(s, kind)
        for name, e in model.get(kind, ()):
            lst.append((name, None if e is None else make[kind](e)))
    for k, v in (options or {}).items():
        setattr(s, k, v)
    return s


def fromNdspy(s):
    def seq(o):
        t = o.save()
        return (bytes(t[0]),) + tuple(t[1:])

    def ssar(o):
        f, u, names = o.save()
        return (bytes(f), u, tuple(names))

    def bank(o):
        f, u, ids = o.save()
        return (bytes(f), u, tuple(ids))

    conv = {
        'sequences': seq, 'sequenceArchives': ssar, 'banks': bank, 'waveArchives': seq,
        'sequencePlayers': lambda o: (o.maxSequences, frozenset(o.channels), o.heapSize),
        'groups': lambda o: tuple((int(g.save()[0]),) + tuple(g.save()[1:]) for g in o),
        'streamPlayers': lambda o: tuple(o.channels),
        'streams': seq,
    }
    return {k: tuple((n, None if o is None else conv[k](o)) for n, o in getattr(s, k)) for k in KINDS}


def norm(model):
    """What a saved and reloaded model should be: all kinds present, banks'
    wave archive lists without trailing holes."""
    out = {}
    for k in KINDS:
        lst = []
        for name, e in model.get(k, ()):
            if e is not None and k == 'banks':
                ids = list(e[2])
                while ids and ids[-1] is None:
                    ids.pop()
                e = (e[0], e[1], tuple(ids))
            lst.append((name, e))
        out[k] = tuple(lst)
    return out


# ---------------------------------------------------------------- reader

class Layout:
    pass


def decode(d):
    """Strictly decode a saved archive; returns (model, Layout)."""
    d = bytes(d)
    L = Layout()
    require(d[:4] == b'SDAT', 'bad magic')
    bom, version, size, hsize, blocks = struct.unpack_from('<HHIHH', d, 4)
    same((bom, version, hsize), (0xFEFF, 0x100, 0x40), 'archive header')
    same(size, len(d), 'file size field')
    so, sz, io, iz, fo, fz, do, dz = struct.unpack_from('<8I', d, 0x10)
    same(d[0x30:0x40], bytes(16), 'header padding')
    same(blocks, 4 if so else 3, 'block count')
    pos = 0x40
    L.hasSymb = bool(so)

    def cstr(off):
        end = d.index(b'\0', off)
        return d[off:end].decode('latin-1')

    # symbols
    symb = [None] * 8
    if so:
        same(so, pos, 'symbol block offset')
        require(d[so:so + 4] == b'SYMB', 'symbol block magic')
        inner = struct.unpack_from('<I', d, so + 4)[0]
        require(inner % 4 == 0, 'symbol block size is not padded to 4: %#x', inner)
        require(inner - 4 < sz <= inner, 'symbol block size in header %#x, in block %#x', sz, inner)
        L.symbSize, L.symbInner = sz, inner
        offs = struct.unpack_from('<8I', d, so + 8)
        ends = []

        def table(off, nested):
            n = struct.unpack_from('<I', d, so + off)[0]
            out = []
            for i in range(n):
                if nested:
                    a, b = struct.unpack_from('<II', d, so + off + 4 + 8 * i)
                    sub = table(b, False) if b else []
                else:
                    a, = struct.unpack_from('<I', d, so + off + 4 + 4 * i)
                    sub = None
                name = None
                if a:
                    require(a < sz, 'symbol string outside the symbol block')
                    name = cstr(so + a)
                    ends.append(a + len(name) + 1)
                    require(ends[-1] <= sz, 'symbol string runs out of the symbol block')
                out.append((name, sub) if nested else name)
            return out
        symb = [table(o, i == 1) for i, o in enumerate(offs)]
        L.symbEnd = max(ends) if ends else 0
        pos = so + inner
    else:
        same(sz, 0, 'symbol block size when there is none')

    # file table
    require(io % 4 == 0 and io >= pos and io - pos < 4, 'info block offset %#x does not follow %#x', io, pos)
    require(d[io:io + 4] == b'INFO', 'info magic')
    same(struct.unpack_from('<I', d, io + 4)[0], iz, 'info block size')
    require(fo % 4 == 0 and 0 <= fo - (io + iz) < 4, 'FAT block offset')
    require(d[fo:fo + 4] == b'FAT ', 'FAT magic')
    fsz, fcount = struct.unpack_from('<II', d, fo + 4)
    same(fsz, fz, 'FAT block size')
    same(fz, 0xC + 0x10 * fcount, 'FAT block size')
    same(do, fo + fz, 'FILE block offset')
    require(d[do:do + 4] == b'FILE', 'FILE magic')
    dsz, dcount = struct.unpack_from('<II', d, do + 4)
    same((dsz, dcount), (dz, fcount), 'FILE block header')
    same(do + dz, len(d), 'end of FILE block')
    L.fileBlock = do
    L.entries = []
    files = []
    pos = do + 0xC
    for i in range(fcount):
        o, n, p1, p2 = struct.unpack_from('<4I', d, fo + 0xC + 0x10 * i)
        same((p1, p2), (0, 0), 'FAT padding')
        require(o >= pos, 'file %d overlaps what precedes it', i)
        require(not any(d[pos:o]), 'non-zero padding before file %d', i)
        real = struct.unpack_from('<I', d, o + 8)[0]
        require(real <= n, 'stored file %d longer than its FAT length', i)
        require(o + real <= len(d), 'file %d runs out of the archive', i)
        L.entries.append((o, n, real))
        files.append(d[o:o + real])
        pos = o + real
    require(not any(d[pos:]), 'non-zero padding at the end')
    L.end = pos
    L.total = len(d)

    # info
    def entries(part):
        off = struct.unpack_from('<I', d, io + 8 + 4 * part)[0]
        require(0 < off < iz, 'info part offset')
        n = struct.unpack_from('<I', d, io + off)[0]
        return [None if e == 0 else io + e for e in struct.unpack_from('<%dI' % n, d, io + off + 4)]

    used = {}

    def file(kind, i, fid):
        require(fid < fcount, 'file ID %d out of range', fid)
        used[(kind, i)] = fid
        return files[fid]

    model = {}
    for part, kind in enumerate(KINDS):
        ents = entries(part)
        names = symb[part]
        if names is None:
            names = [(None, []) if part == 1 else None] * len(ents)
        same(len(names), len(ents), 'number of symbols of ' + kind)
        out = []
        for i, (e, nm) in enumerate(zip(ents, names)):
            if part == 1:
                nm, sub = nm
            v = None
            if e is not None:
                require(e % 4 == 0, 'unaligned info entry')
                if part == 0:
                    fid, u, b, *r = struct.unpack_from('<3H4B', d, e)
                    v = (file(kind, i, fid), u, b, *r)
                elif part == 1:
                    fid, u = struct.unpack_from('<HH', d, e)
                    f = file(kind, i, fid)
                    n = struct.unpack_from('<I', f, 0x1C)[0]
                    require(not so or len(sub) == n, 'number of sub-symbols of sequence archive %d', i)
                    v = (f, u, tuple(sub) + (None,) * (n - len(sub)))
                elif part == 2:
                    fid, u, *ids = struct.unpack_from('<HH4h', d, e)
                    ids = [None if x == -1 else x for x in ids]
                    while ids and ids[-1] is None:
                        ids.pop()
                    v = (file(kind, i, fid), u, tuple(ids))
                elif part == 3:
                    fid, u = struct.unpack_from('<HH', d, e)
                    v = (file(kind, i, fid), u)
                elif part == 4:
                    m, mask, heap = struct.unpack_from('<HHI', d, e)
                    v = (m, frozenset(j for j in range(16) if mask >> j & 1), heap)
                elif part == 5:
                    n, = struct.unpack_from('<I', d, e)
                    v = tuple(struct.unpack_from('<BHxI', d, e + 4 + 8 * j) for j in range(n))
                elif part == 6:
                    n = d[e]
                    require(n <= 16, 'stream player channel count')
                    v = tuple(d[e + 1:e + 1 + n])
                    same(d[e + 1 + n:e + 17], b'\xFF' * (16 - n), 'unused stream player channels')
                else:
                    fid, u, *r = struct.unpack_from('<HH4B', d, e)
                    v = (file(kind, i, fid), u, *r)
            elif part == 1:
                same(sub, [], 'sub-symbols of a missing sequence archive')
            out.append((nm, v))
        model[kind] = tuple(out)
    same(set(used.values()), set(range(fcount)), 'stored files used by entries')
    L.used = used
    return model, L
