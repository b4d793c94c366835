"""P41: files laid out differently by other tools load with the contents they define."""
import itertools
import struct
from mc.core import Space, same, require
from mc import ref_fs as fs, ref_sdat as rs, ref_bmg as rb
from checks import p09, p14, p16
import ndspy.rom, ndspy.soundArchive, ndspy.soundSequence, ndspy.soundSequenceArchive, ndspy.bmg

# ---------------------------------------------------------------- ROMs

REGIONS = ('arm9', 'ovt9', 'arm7', 'ovt7', 'fnt', 'fat', 'banner', 'debug')


def romLayout(m, start, order, gap, align, fill=b'\xEE', alias=None, sigAt='both', empty='here'):
    """
    A ROM image with its regions in any order. order: region names and
    file IDs; alias: {file ID: file ID whose data it shares}.
    """
    out = bytearray(start)
    fnt = fs.fntEncode(m['filenames'])
    data = {'arm9': m['arm9'] + m['arm9PostData'], 'ovt9': m['arm9OverlayTable'], 'arm7': m['arm7'], 'ovt7': m['arm7OverlayTable'],
            'fnt': fnt, 'fat': bytes(8 * len(m['files'])), 'banner': m['iconBanner'], 'debug': m['debugRom'], 'sig': m['rsaSignature']}
    off = {}
    for r in order:
        d = m['files'][r] if isinstance(r, int) else data[r]
        if isinstance(r, int) and alias and r in alias:
            continue
        if not d and r in ('ovt9', 'ovt7', 'banner', 'debug'):
            off[r] = 0
            continue
        out += fill * (-len(out) % align)
        off[r] = len(out)
        out += d
        out += fill * gap
    for a, b in (alias or {}).items():
        off[a] = off[b]
    for i, f in enumerate(m['files']):
        o = off[i]
        if not f and empty == 'zero':
            o = 0
        elif not f and empty == 'end':
            o = len(out)
        struct.pack_into('<II', out, off['fat'] + 8 * i, o, o + len(f))
    for k, (o, kind) in fs.HEADER.items():
        if isinstance(kind, int):
            out[o:o + kind] = m[k][:kind].ljust(kind, b'\0')
        else:
            struct.pack_into('<' + kind, out, o, m[k])
    sig = off['sig'] if m['rsaSignature'] else len(out)
    for o, v in ((0x20, off['arm9']), (0x2C, len(m['arm9'])), (0x30, off['arm7']), (0x3C, len(m['arm7'])),
                 (0x40, off['fnt']), (0x44, len(fnt)), (0x48, off['fat']), (0x4C, 8 * len(m['files'])),
                 (0x50, off['ovt9']), (0x54, len(m['arm9OverlayTable'])), (0x58, off['ovt7']), (0x5C, len(m['arm7OverlayTable'])),
                 (0x68, off['banner']), (0x80, sig if sigAt != 'only1000' else len(out)), (0x84, min(start, 0x4000)),
                 (0x160, off['debug']), (0x164, len(m['debugRom']))):
        struct.pack_into('<I', out, o, v)
    if start >= 0x1004:
        struct.pack_into('<I', out, 0x1000, 0 if sigAt == 'header' else sig)
    struct.pack_into('<H', out, 0x15C, fs.crc16(out[0xC0:0x15C]))
    struct.pack_into('<H', out, 0x15E, fs.crc16(out[:0x15E]))
    return bytes(out)


def romCheck(m, img, ctx, signature=True):
    what = 'ROM in another layout'
    arm9 = struct.unpack_from('<I', img, 0x20)[0]
    if arm9 <= 0x8000:
        same(bytes(ndspy.rom.NintendoDSRom(img).pad200), img[0x200:arm9], what + ': data between header and code')
    for kind in (bytes, bytearray):
        rom = ndspy.rom.NintendoDSRom(kind(img))
        want = dict(m) if signature else dict(m, rsaSignature=bytes(rom.rsaSignature))
        fs.romCompare(rom, want, what)
        ctx.step()
    again = ndspy.rom.NintendoDSRom(rom.save())
    n = len(want['rsaSignature'])
    if not signature:
        want['rsaSignature'] = bytes(again.rsaSignature)
    elif 0 < n < 0x88:
        # one cut short by the end of the image is as long as any other once saved
        same(bytes(again.rsaSignature[:n]), want['rsaSignature'], what + ': signature after saving')
        want['rsaSignature'] = bytes(again.rsaSignature)
    fs.romCompare(again, want, what + ' after saving')
    ctx.step()


MODEL = p09.model(arm9=0x123, post=1, ov9=(1, 3), arm7=0x45, ov7=(0,), files=(5, 0x210, 0, 7, 3), names=p09.TREE, banner=1, debug=9, rsa=0x88)
PLAIN = p09.model(arm9=0x123, arm7=0x45, files=(5, 0x210, 0, 7, 3), names=p09.TREE)


def genRom(tier):
    for order in itertools.permutations(range(7)):
        yield ('order', order)
    for start in (0x200, 0x204, 0x400, 0x1004, 0x4000, 0x8000):
        for gap in (0, 1, 4, 0x200, 0x1000):
            for align in (1, 4, 0x10, 0x200):
                for rev in (False, True):
                    for full in (False, True):
                        yield ('gaps', start, gap, align, rev, full)
    for order in itertools.permutations(range(5)):
        for align in (1, 0x200):
            for empty in ('here', 'zero', 'end'):
                yield ('files', order, align, empty)
    for sigAt in ('both', 'header', 'only1000'):
        for pos in range(14):
            for rsa in (0x88, 0x10):
                for tail in (0, 1, 0x88, 0x400):
                    for start in (0x1004, 0x2000, 0x4000, 0x8000):
                        yield ('signature', sigAt, pos, rsa, tail, start)
    for n in range(0x180, 0x210):
        for post in (1, 2, 3, 30):
            yield ('post', n, post)
    for a, b in itertools.permutations(range(4), 2):
        for c in (None, 4):
            for how in ('same', 'prefix', 'suffix'):
                yield ('shared', a, b, c, how)


def checkRom(case, ctx):
    ctx.state(case)
    ctx.outcome(case[0])
    names = list(REGIONS)
    files = [0, 1, 2, 3, 4]
    if case[0] == 'order':
        parts = [['arm9'], ['ovt9', 'ovt7'], ['arm7'], ['fnt'], ['fat', 'sig'], ['banner', 'debug'], files]
        romCheck(MODEL, romLayout(MODEL, 0x4000, [r for i in case[1] for r in parts[i]], 0, 4), ctx)
    elif case[0] == 'gaps':
        _, start, gap, align, rev, full = case
        m = MODEL if full else PLAIN
        order = names + files + ['sig']
        if rev:
            order.reverse()
        # without room for the word at 0x1000 the signature cannot be told
        romCheck(m, romLayout(m, start, order, gap, align), ctx, start >= 0x1004)
    elif case[0] == 'files':
        romCheck(MODEL, romLayout(MODEL, 0x4000, names + list(case[1]) + ['sig'], 0, case[2], empty=case[3]), ctx)
    elif case[0] == 'signature':
        _, sigAt, pos, rsa, tail, start = case
        m = dict(MODEL, rsaSignature=p09.blob(4, rsa))
        order = names + files
        order.insert(pos, 'sig')
        img = romLayout(m, start, order, 0x10, 4, sigAt=sigAt)
        # it is read up to 0x88 bytes, as far as the image goes
        sig = struct.unpack_from('<I', img, 0x80 if sigAt != 'only1000' else 0x1000)[0]
        img += bytes(tail)
        m['rsaSignature'] = img[sig:sig + 0x88]
        romCheck(m, img, ctx)
    elif case[0] == 'post':
        m = dict(MODEL, arm9=p09.blob(1, case[1]), arm9PostData=p09.POST * case[2])
        romCheck(m, romLayout(m, 0x4000, names + files + ['sig'], 0, 0x200), ctx)
    else:
        _, a, b, c, how = case
        fl = list(MODEL['files'])
        base = fl[b] = fl[b] or b'base file'
        alias = {a: b}
        if c is not None:
            alias[c] = b
        cut = {'same': lambda n: base, 'prefix': lambda n: base[:n], 'suffix': lambda n: base[:n]}[how]
        for k, i in enumerate(alias):
            fl[i] = cut(len(base) - 1 - k)
        m = dict(MODEL, files=tuple(fl))
        romCheck(m, romLayout(m, 0x4000, names + files + ['sig'], 0, 0x200, alias=alias), ctx)


# ---------------------------------------------------------------- sound archives

def sdatLayout(model, blocks=(0, 1, 2, 3), parts=range(8), records='up', strings='up', ids='up', place='up', gap=0, align=0x20,
               padded=False, symb=True, shareNames=False, shareRecords=False, shareFiles=False, cut=None, spare=0, lists='first'):
    """
    A sound archive in any arrangement. blocks: order of SYMB, INFO, FAT
    and FILE; parts: order of the eight lists; records, strings, ids and
    place: order of info records, symbol strings, file IDs and file data.
    lists: whether lists are stored before or after what they refer to.
    cut: {kind: (number of names, number of records)}.
    """
    def direction(seq, how):
        seq = list(seq)
        return {'up': seq, 'down': seq[::-1], 'weave': seq[1::2] + seq[::2]}[how]

    # file IDs
    owners = [(k, i) for k in rs.FILE_KINDS for i, (n, e) in enumerate(model.get(k, ())) if e is not None]
    table, fid = [b'spare%d' % i for i in range(spare)], {}
    for k, i in direction(owners, ids):
        f = model[k][i][1][0]
        if shareFiles and f in table:
            fid[k, i] = table.index(f)
        else:
            fid[k, i] = len(table)
            table.append(f)

    # SYMB
    S = bytearray(b'SYMB' + bytes(4 + 32 + 24))
    early = {}
    if lists == 'last':
        # every string and every list of names inside sequence archives comes first
        subs = [e[2] for n, e in model.get('sequenceArchives', ()) if e is not None]
        for n in direction([n for k in rs.KINDS for n, e in model.get(k, ())] + [n for ns in subs for n in ns], strings):
            if n is not None and n not in early:
                early[n] = len(S)
                S += n.encode('latin-1') + b'\0'
        S += bytes(-len(S) % 4)
        for ns in subs:
            early[ns] = len(S)
            S += struct.pack('<I', len(ns)) + b''.join(struct.pack('<I', 0 if n is None else early[n]) for n in ns)
    fixups = []
    for p in parts:
        kind = rs.KINDS[p]
        lst = list(model.get(kind, ()))
        if cut and kind in cut:
            lst = lst[:cut[kind][0]]
        struct.pack_into('<I', S, 8 + 4 * p, len(S))
        S += struct.pack('<I', len(lst))
        sub = []
        for n, e in lst:
            fixups.append((len(S), n))
            S += bytes(4)
            if kind == 'sequenceArchives':
                sub.append((len(S), e))
                S += bytes(4)
        for at, e in sub:
            if e is not None and lists == 'last':
                struct.pack_into('<I', S, at, early[e[2]])
            elif e is not None:
                struct.pack_into('<I', S, at, len(S))
                S += struct.pack('<I', len(e[2]))
                for n in e[2]:
                    fixups.append((len(S), n))
                    S += bytes(4)
    seen = early
    for at, n in direction(fixups, strings):
        if n is None:
            continue
        if not ((shareNames or lists == 'last') and n in seen):
            seen[n] = len(S)
            S += n.encode('latin-1') + b'\0'
        struct.pack_into('<I', S, at, seen[n])
    S += bytes(-len(S) % 4)

    # INFO
    I = bytearray(b'INFO' + bytes(4 + 32 + 24))
    fixups, tables = [], []
    for p in parts:
        kind = rs.KINDS[p]
        lst = list(model.get(kind, ()))
        if cut and kind in cut:
            lst = lst[:cut[kind][1]]
        tables.append((p, len(lst)))
        for i, (n, e) in enumerate(lst):
            if e is None:
                rec = None
            elif kind == 'sequences':
                rec = struct.pack('<3H4B2x', fid[kind, i], *e[1:])
            elif kind in ('sequenceArchives', 'waveArchives'):
                rec = struct.pack('<HH', fid[kind, i], e[1])
            elif kind == 'banks':
                w = [-1 if x is None else x for x in e[2]]
                rec = struct.pack('<HH4h', fid[kind, i], e[1], *(w + [-1] * (4 - len(w))))
            elif kind == 'sequencePlayers':
                rec = struct.pack('<HHI', e[0], sum(1 << c for c in e[1]), e[2])
            elif kind == 'groups':
                rec = struct.pack('<I', len(e)) + b''.join(struct.pack('<BHxI', *g) for g in e)
            elif kind == 'streamPlayers':
                rec = bytes([len(e)]) + bytes(e) + b'\xff' * (16 - len(e)) + bytes(7)
            else:
                rec = struct.pack('<HH4B4x', fid[kind, i], *e[1:])
            fixups.append((p, i, rec))
    at = {}
    def putTables():
        for p, n in tables:
            struct.pack_into('<I', I, 8 + 4 * p, len(I))
            I.extend(struct.pack('<I', n))
            for i in range(n):
                at[p, i] = len(I)
                I.extend(bytes(4))
    if lists == 'first':
        putTables()
    seen, found = {}, {}
    for p, i, rec in direction(fixups, records):
        if rec is None:
            continue
        if not (shareRecords and rec in seen):
            seen[rec] = len(I)
            I += rec + bytes(-len(rec) % 4)
        found[p, i] = seen[rec]
    if lists == 'last':
        putTables()
    for k, o in found.items():
        struct.pack_into('<I', I, at[k], o)

    # FAT and FILE
    F = bytearray(b'FAT ' + struct.pack('<II', 0xC + 16 * len(table), len(table)) + bytes(16 * len(table)))
    out = bytearray(0x40)
    where = {}
    for b in blocks:
        if b == 0 and not symb:
            where[0] = (0, 0)
            continue
        out += b'\xDD' * (-len(out) % 4 + gap)
        if b < 3:
            blk = (S, I, F)[b]
            struct.pack_into('<I', blk, 4, len(blk))
            where[b] = (len(out), len(blk))
            out += blk
            continue
        start = len(out)
        out += b'FILE' + struct.pack('<II', 0, len(table))
        for i in direction(range(len(table)), place):
            out += b'\0' * (-len(out) % align)
            size = len(table[i])
            if padded:
                size += -size % align
            struct.pack_into('<II', F, 0xC + 16 * i, len(out), size)
            out += table[i].ljust(size, b'\0') + b'\xCC' * gap
        struct.pack_into('<I', out, start + 4, len(out) - start)
        where[b] = (start, len(out) - start)
    out[where[2][0]:where[2][0] + len(F)] = F
    struct.pack_into('<4sHHIHH', out, 0, b'SDAT', 0xFEFF, 0x100, len(out), 0x40, 4 if symb else 3)
    for b in range(4):
        struct.pack_into('<II', out, 0x10 + 8 * b, *where[b])
    return bytes(out)


def sdatModel(which):
    if which == 'one':
        return {k: ((('N ' + k), p16.FILL[k]),) for k in rs.KINDS}
    if which == 'three':
        return {k: tuple((None if i == 1 and k != 'banks' else 'N%d%s' % (i, k[:i]), p16.variant(k, i + 1)) for i in range(3)) for k in rs.KINDS}
    if which == 'holes':
        return {k: (('first', None), (None, None), ('third', p16.variant(k, 2)), (None, p16.variant(k, 3)), ('last', None)) for k in rs.KINDS}
    if which == 'equal':
        return {k: tuple(('same', p16.FILL[k]) for i in range(3)) for k in rs.KINDS}
    return {'sequences': (('only', p16.FILL['sequences']),)}


OPTIONS = {
    'records': ('up', 'down', 'weave'), 'strings': ('up', 'down', 'weave'), 'ids': ('up', 'down', 'weave'),
    'place': ('up', 'down', 'weave'), 'gap': (0, 4, 0x104), 'align': (1, 2, 4, 0x20, 0x200), 'padded': (False, True),
    'symb': (True, False), 'shareNames': (False, True), 'shareRecords': (False, True), 'shareFiles': (False, True), 'spare': (0, 1, 3), 'lists': ('first', 'last'),
}
MODELS = ('one', 'three', 'holes', 'equal', 'little')


def genSdat(tier):
    for which in MODELS:
        for blocks in itertools.permutations(range(4)):
            for gap in (0, 4):
                for symb in (True, False):
                    yield (which, (('blocks', blocks), ('gap', gap), ('symb', symb)))
        for a, b in itertools.combinations(OPTIONS, 2):
            for x in OPTIONS[a]:
                for y in OPTIONS[b]:
                    yield (which, ((a, x), (b, y)))
        for r, s, i, p in itertools.product(('up', 'down', 'weave'), repeat=4):
            yield (which, (('records', r), ('strings', s), ('ids', i), ('place', p)))
    for k in range(8):
        for j in range(8):
            order = list(range(8))
            order[k], order[j] = order[j], order[k]
            for which in MODELS[:3]:
                yield (which, (('parts', tuple(order)),))
    for kind in rs.KINDS:
        for names in range(4):
            for recs in range(4):
                yield ('three', (('cut', ((kind, (names, recs)),)),))


def checkSdat(case, ctx):
    which, opts = case
    opts = dict(opts)
    model = sdatModel(which)
    want = rs.norm(model)
    if 'cut' in opts:
        opts['cut'] = dict(opts['cut'])
        for k, (names, recs) in opts['cut'].items():
            lst = []
            for i, (n, e) in enumerate(want[k][:max(names, recs)]):
                e = e if i < recs else None
                if e is not None and i >= names and k == 'sequenceArchives':
                    e = e[:2] + ((None,) * len(e[2]),)
                lst.append((n if i < names else None, e))
            want[k] = tuple(lst)
    if opts.get('symb') is False:
        for k in rs.KINDS:
            want[k] = tuple((None, e if e is None or k != 'sequenceArchives' else e[:2] + ((None,) * len(e[2]),)) for n, e in want[k])
    blob = sdatLayout(model, **opts)
    for what in ('archive in another layout', 'archive after saving'):
        s = ndspy.soundArchive.SDAT(blob)
        got = rs.fromNdspy(s)
        for k in rs.KINDS:
            same(got[k], want[k], '%s: %s' % (what, k))
        if not opts.get('padded'):
            blob = s.save()
        ctx.step()
    same(rs.decode(s.save())[0], want, 'independent reader of the saved archive')
    ctx.state(case)
    ctx.outcome('%s %s' % (which, '+'.join(opts)))


# ---------------------------------------------------------------- messages

TEXTS = (((b'a', ('one',), False), (b'b', (), True), (b'c', ('two', (5, b'xy'), 'three'), False), (b'd', ('one',), False), (b'e', (), False)),
         ((b'', ((1, b''),), False),), (),
         ((b'', (), False), (b'', ('one',), False), (b'', (), True), (b'', (), False), (b'', ('two',), False), (b'', ('one',), False)))


def genBmg(tier):
    for t in range(len(TEXTS)):
        for enc in p14.ENCODINGS:
            for se in '<>':
                for order in itertools.permutations(range(4)):
                    for scripts in (False, True):
                        if not scripts and order[2:] != (2, 3):
                            continue
                        for strings in ('up', 'down', 'weave'):
                            for share in (False, True):
                                for gap, pad in ((0, 32), (2, 32), (32, 32), (0, 4), (6, 1)):
                                    yield (t, enc, se, order, scripts, strings, share, gap, pad)


def checkBmg(case, ctx):
    """Sections in any order, strings in any order, shared, and with unused data between them."""
    t, enc, se, order, scripts, strings, share, gap, pad = case
    msgs = TEXTS[t]
    c = rb.codec(enc, se)
    dat = bytearray('\0'.encode(c))
    idx = list(range(len(msgs)))
    idx = {'up': idx, 'down': idx[::-1], 'weave': idx[1::2] + idx[::2]}[strings]
    offs, seen = {}, {}
    for i in idx:
        info, parts, null = msgs[i]
        if null:
            offs[i] = 0
            continue
        s = rb.encodeMessage(parts, enc, se)
        if not (share and s in seen):
            dat += b'ZZ' * (gap // 2)
            seen[s] = len(dat)
            dat += s
        offs[i] = seen[s]
    elen = 4 + (len(msgs[0][0]) if msgs else 0)
    inf = struct.pack(se + 'HHI', len(msgs), elen, 7) + b''.join(struct.pack(se + 'I', offs[i]) + m[0] for i, m in enumerate(msgs))
    flw = struct.pack(se + 'HHI', 1, 8, 0) + b'ABCDEFGH' + struct.pack(se + '8h', *range(1, 9)) + bytes(range(1, 9))
    fli = struct.pack(se + 'HHI', 2, 8, 0) + struct.pack(se + 'IHxxIHxx', 0x12345, 1, 6, 0)
    def section(magic, body):
        ln = 8 + len(body)
        ln += -ln % pad
        return (struct.pack(se + '4sI', magic, ln) + body).ljust(ln, b'\0')
    secs = [section(n, b) for n, b in ((b'INF1', inf), (b'DAT1', bytes(dat)), (b'FLW1', flw), (b'FLI1', fli))]
    body = [secs[i] for i in order if scripts or i < 2]
    total = 0x20 + sum(map(len, body))
    blob = (b'MESGbmg1' + struct.pack(se + 'II', total, len(body)) + bytes([rb.ENC_ID[enc]])).ljust(0x20, b'\0') + b''.join(body)
    for what in ('file in another layout', 'file after saving'):
        b = ndspy.bmg.BMG(blob)
        p14.compare(b, msgs, enc, se, what)
        same(b.id, 7, what + ': ID')
        same([bytes(x) for x in b.instructions], [b'ABCDEFGH'] if scripts else [], what + ': instructions')
        same(b.labels, [(i, i) for i in range(1, 9)] if scripts else [], what + ': labels')
        same(b.scripts, [(0x12345, 1), (6, 0)] if scripts else [], what + ': scripts')
        blob = b.save()
        ctx.step()
    ctx.state(case)
    ctx.outcome('%s %s' % (enc, strings))


# ---------------------------------------------------------------- sequences

EVENTS = (b'', b'\xFF', b'\x3C\x7F\x30\xFF', b'\xFE\x03\0\x93\1\x08\0\0\xFF\x80\x05\xFF', bytes(range(1, 40)))


def genSequences(tier):
    for kind in ('sseq', 'ssar'):
        for ev in range(len(EVENTS)):
            for gap in (0, 1, 4, 0x40, 0x1000):
                for trail in (0, 1, 3, 0x20):
                    for n in (0, 1, 3) if kind == 'ssar' else (0,):
                        yield (kind, ev, gap, trail, n)


def checkSequences(case, ctx):
    """Events behind a gap, and data behind the end of the file."""
    kind, ev, gap, trail, n = case
    data = EVENTS[ev]
    rows = [(i if i != 1 else None, i, 2, 3, 4, 5) for i in range(n)]
    std = rs.sseqFile(data) if kind == 'sseq' else rs.ssarFile(rows, data)
    f = bytearray(std)
    f[len(f) - len(data):len(f) - len(data)] = b'\xBB' * gap
    struct.pack_into('<I', f, 8, len(f))
    struct.pack_into('<II', f, 0x14, len(f) - 0x10, len(f) - len(data))
    f = bytes(f) + b'\xAA' * trail
    if kind == 'sseq':
        o = ndspy.soundSequence.SSEQ(f, 1, 2, 3, 4, 5, 6)
    else:
        o = ndspy.soundSequenceArchive.SSAR(f, 1, ['n%d' % i for i in range(n)])
        same([(name, q.firstEventOffset) for name, q in o.sequences], [('n%d' % i, None if i == 1 else i) for i in range(n)], 'sequences')
    same(bytes(o.eventsData), data, 'event data')
    same(bytes(o.save()[0]), std, 'saved file')
    ctx.state(case); ctx.step(2); ctx.outcome(kind)


spaces = [
    Space('sequences', genSequences, checkSequences, 'sequence files and archives with event data behind 5 gaps and with data behind their end'),
    Space('roms', genRom, checkRom, 'ROM images with 7 region groups in each of 5040 orders; 6 start positions with 5 gaps and 4 alignments; 5 files in every order, empty ones anywhere; the signature at every place, named by the header, the word at 0x1000 or both; files sharing data'),
    Space('sound', genSdat, checkSdat, '5 sound archives with their blocks in every order, every pair among 13 layout options, every combination of 3 orders of records, strings, file IDs and file data, swapped lists, and lists with fewer names than records or the reverse'),
    Space('messages', genBmg, checkBmg, 'message files with their sections in every order, strings in 3 orders, shared or apart, with unused data between them, sections padded to 1, 4 or 32 bytes, all encodings and endiannesses'),
]
