"""P13: overlays and overlay tables survive saving and loading."""
import itertools
import struct
from mc.core import Space, same, require
from mc import ref_fs as fs, ref_lz
import ndspy.code, ndspy.rom, ndspy.codeCompression

FIELDS = ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize', 'flags')
IDS = (0, 1, 2, 7, 0x100, 0xFFFFFFFF)


def pack(entries):
    """entries: {id: values}; console format, ascending IDs."""
    return b''.join(struct.pack('<8I', i, *v[:6], v[6] | v[7] << 24) for i, v in sorted(entries.items()))


def values(o):
    return tuple(getattr(o, f) for f in FIELDS)


def data(i):
    return bytes([1 + i % 7, 2, 3, 1 + i % 5, 1])


def entry(i, flags=0):
    return (0x2100000 + 16 * i, 0x20 + i, 3 * i, 0x2100004 + i, 0x2100008 + i, 50 + i, 0x123 + i, flags)


def genIds(tier):
    for n in range(0, 5):
        for ids in itertools.permutations(IDS, n):
            yield ids


def checkIds(ids, ctx):
    ent = {i: entry(k) for k, i in enumerate(ids)}
    table = {i: ndspy.code.Overlay(data(k), *ent[i]) for k, i in enumerate(ids)}
    blob = bytes(ndspy.code.saveOverlayTable(table))
    same(blob, pack(ent), 'overlay table data')
    subsets = [None] + [set(s) for n in range(len(ids) + 1) for s in itertools.combinations(ids, n)]
    subsets += [list(ids[:1]), tuple(ids[1:]), {12345}, range(0, 3), frozenset(ids[:1]) | {9}]
    # stored in any order by other tools
    for raw in (blob, b''.join(pack({i: ent[i]}) for i in ids)):
        for want in subsets:
            calls = []
            def callback(ovID, fileID):
                calls.append((ovID, fileID))
                return data(ids.index(ovID))
            got = ndspy.code.loadOverlayTable(raw, callback, want) if want is not None else ndspy.code.loadOverlayTable(raw, callback)
            keys = [i for i in ids if want is None or i in want]
            same(sorted(got), sorted(keys), 'IDs loaded with idsToLoad=%r' % (want,))
            same(sorted(calls), sorted((i, ent[i][5]) for i in keys), 'files fetched with idsToLoad=%r' % (want,))
            for i in keys:
                same(values(got[i]), ent[i], 'fields of overlay %d' % i)
                same(bytes(got[i].data), data(ids.index(i)), 'data of overlay %d' % i)
            if want is None:
                same(bytes(ndspy.code.saveOverlayTable(got)), blob, 'resaved table')
            ctx.step()
    ctx.state(ids)
    ctx.outcome('%d overlays' % len(ids))


def genFields(tier):
    for f in range(8):
        bits = 24 if f == 6 else 8 if f == 7 else 32
        for b in range(bits):
            yield (f, 1 << b)
        yield (f, 0)
        yield (f, (1 << bits) - 1)
        yield (f, 0x04030201 & ((1 << bits) - 1))
    for b in range(32):
        yield ('id', 1 << b)
    for flags in range(256):
        yield (7, flags)


def checkField(case, ctx):
    f, v = case
    for base in (entry(0), (0,) * 8, (0xFFFFFFFF,) * 6 + (0xFFFFFF, 0xFE)):
        e = list(base)
        i = 3
        if f == 'id':
            i = v
        else:
            e[f] = v
        e = tuple(e)
        o = ndspy.code.Overlay(data(1), *e)
        same(values(o), e, 'constructed fields')
        same((o.compressed, o.verifyHash), (bool(e[7] & 1), bool(e[7] & 2)), 'flag aliases')
        blob = bytes(ndspy.code.saveOverlayTable({i: o}))
        same(blob, pack({i: e}), 'table entry')
        back = ndspy.code.loadOverlayTable(blob, lambda a, b: data(1))
        same(list(back), [i], 'loaded ID')
        same(values(back[i]), e, 'loaded fields')
        same(bytes(back[i].data), data(1), 'loaded data')
        for attr, bit in (('compressed', 1), ('verifyHash', 2)):
            for on in (True, False):
                setattr(o, attr, on)
                same(o.flags, e[7] | bit if on else e[7] & ~bit, 'flags after %s = %s' % (attr, on))
                same(getattr(o, attr), on, attr)
            o.flags = e[7]
        ctx.step(7); ctx.state((i, e))
    ctx.outcome(FIELDS[f] if f != 'id' else 'id')


DATAS = (b'', b'\1\2\3\4\5', b'\5' * 64, bytes(range(7)) * 9 + b'\1', b'\0' * 40)
HOPS = ['save', 'savec', 'data0', 'data1', 'data2', 'data3', 'data4', 'verify', 'noverify', 'flags', 'reload', 'fields']


def genHist(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        yield from itertools.product(range(len(HOPS)), repeat=n)


def reloadCheck(o, blob, content, ctx):
    table = bytes(ndspy.code.saveOverlayTable({5: o}))
    back = ndspy.code.loadOverlayTable(table, lambda ov, fid: blob)[5]
    same(values(back), values(o), 'fields after reloading')
    got = bytes(back.data)
    same(got[:len(content)], content, 'contents after reloading')
    require(not any(got[len(content):]) and (o.compressed or len(got) == len(content)), 'reloading gave extra data')
    ctx.step()
    return back


def checkHist(seq, ctx):
    content = DATAS[1]
    model = {'ramAddress': 0x2100000, 'bssSize': 8, 'staticInitStart': 1, 'staticInitEnd': 2, 'fileID': 9, 'flags': 0}
    o = ndspy.code.Overlay(content, 0x2100000, 5, 8, 1, 2, 9, 5, 0)
    for k in seq + (0, 1):
        op = HOPS[k]
        if op.startswith('save') or op == 'reload':
            comp = op == 'savec' or (op == 'reload' and bool(model['flags'] & 1))
            blob = o.save(compress=comp) if comp else o.save()
            model['flags'] = model['flags'] & ~1 | comp
            same(o.ramSize, len(content), 'ramSize after save(compress=%s)' % comp)
            same(o.compressedSize, len(blob), 'compressedSize after save(compress=%s)' % comp)
            same(o.compressed, comp, 'compressed after saving')
            same(bytes(o.data), content, 'data after saving')
            if not comp:
                same(bytes(blob), content, 'uncompressed overlay file')
            else:
                got = bytes(ndspy.codeCompression.decompress(bytes(blob)))
                same(got[:len(content)], content, 'decompressed overlay file')
            back = reloadCheck(o, bytes(blob), content, ctx)
            if op == 'reload':
                o = back
                content = bytes(o.data)
        elif op.startswith('data'):
            content = DATAS[int(op[4])]; o.data = bytearray(content)
        elif op == 'verify':
            o.verifyHash = True; model['flags'] |= 2
        elif op == 'noverify':
            o.verifyHash = False; model['flags'] &= ~2
        elif op == 'flags':
            o.flags |= 0xA4; model['flags'] |= 0xA4
        elif op == 'fields':
            o.fileID = model['fileID'] = 77; o.bssSize = model['bssSize'] = 0x1234
            o.staticInitEnd = model['staticInitEnd'] = 0x99
        for f, v in model.items():
            same(getattr(o, f), v, '%s after %s' % (f, op))
        ctx.step(); ctx.outcome(op)
        ctx.state((content, tuple(model.items())))


def genRom(tier):
    for n9 in range(0, 3):
        for n7 in range(0, 3):
            for comp in itertools.product((False, True), repeat=n9 + n7):
                for edit in range(0, 3):
                    yield (n9, n7, comp, edit)


def checkRom(case, ctx):
    """Through a ROM: load overlays, edit one, write everything back, reload."""
    n9, n7, comp, edit = case
    rom = ndspy.rom.NintendoDSRom()
    rom.arm9, rom.arm7 = b'nine', b'seven'
    contents = {}
    for cpu, n, base in (('9', n9, 0), ('7', n7, n9)):
        table = {}
        for k in range(n):
            c = bytes([1 + k + base]) * (30 + base + k)
            o = ndspy.code.Overlay(c, 0x2100000 + k, 0, 4, 0, 0, base + k, 0, 2)
            rom.files.append(o.save(compress=comp[base + k]))
            table[k] = o
            contents[cpu, k] = c
        setattr(rom, 'arm%sOverlayTable' % cpu, ndspy.code.saveOverlayTable(table))
    rom.files.append(b'plain')
    for rnd in range(2):
        rom = ndspy.rom.NintendoDSRom(rom.save())
        loaded = {'9': rom.loadArm9Overlays(), '7': rom.loadArm7Overlays()}
        for cpu, n, base in (('9', n9, 0), ('7', n7, n9)):
            same(sorted(loaded[cpu]), list(range(n)), 'ARM%s overlay IDs' % cpu)
            for k in range(n):
                o = loaded[cpu][k]
                same(bytes(o.data), contents[cpu, k], 'ARM%s overlay %d' % (cpu, k))
                same((o.compressed, o.verifyHash, o.fileID), (comp[base + k], True, base + k), 'ARM%s overlay %d fields' % (cpu, k))
            only = getattr(rom, 'loadArm%sOverlays' % cpu)([0])
            same(sorted(only), [0] if n else [], 'ARM%s overlays loaded selectively' % cpu)
            for want in ([], (), set(), {1}, [1, 0], range(1, 5), {7}, frozenset(range(n))):
                only = getattr(rom, 'loadArm%sOverlays' % cpu)(want)
                same(sorted(only), [k for k in range(n) if k in want], 'ARM%s overlays loaded with %r' % (cpu, want))
                for k, o in only.items():
                    same(bytes(o.data), contents[cpu, k], 'ARM%s overlay %d loaded with %r' % (cpu, k, want))
            if n > edit and rnd == 0:
                o = loaded[cpu][edit]
                o.data += b'\5\5\5more'
                contents[cpu, edit] += b'\5\5\5more'
                rom.files[o.fileID] = o.save(compress=o.compressed)
                setattr(rom, 'arm%sOverlayTable' % cpu, ndspy.code.saveOverlayTable(loaded[cpu]))
        same(bytes(rom.files[-1]), b'plain', 'file that is not an overlay')
        a9, a7 = rom.loadArm9(), rom.loadArm7()
        same((bytes(a9.sections[0].data), a9.ramAddress), (b'nine', 0x2000000), 'loadArm9')
        same((bytes(a7.sections[0].data), a7.ramAddress), (b'seven', 0x2380000), 'loadArm7')
        ctx.step(4)
    ctx.state(case)
    ctx.outcome('%d+%d' % (n9, n7))


def genShared(tier):
    for flags in itertools.product((0, 1, 2, 3), repeat=3):
        for fids in itertools.product((0, 1), repeat=3):
            for packed in itertools.product((False, True), repeat=2):
                yield (flags, fids, packed)


def checkShared(case, ctx):
    """Overlays that use the same file: each is loaded by its own flags."""
    flags, fids, packed = case
    plain = [b'\5' * 50, b'\6' * 60 + b'\1']
    files = [bytes(ndspy.codeCompression.compress(p)) if c else p for p, c in zip(plain, packed)]
    for i, f in zip(fids, flags):
        if not packed[i] and f & 1:
            return
    ent = {k: (0x2100000 + k, 9, k, 0, 0, i, 3, f) for k, (i, f) in enumerate(zip(fids, flags))}
    blob = pack(ent)
    got = ndspy.code.loadOverlayTable(blob, lambda o, i: files[i])
    rom = ndspy.rom.NintendoDSRom()
    rom.files, rom.arm9OverlayTable = list(files), blob
    for what, table in (('table', got), ('ROM', rom.loadArm9Overlays())):
        for k, (i, f) in enumerate(zip(fids, flags)):
            same(values(table[k]), ent[k], '%s: overlay %d' % (what, k))
            d = bytes(table[k].data)
            if f & 1:
                same(d.rstrip(b'\0'), plain[i], '%s: data of overlay %d' % (what, k))
            else:
                same(d, files[i], '%s: data of overlay %d' % (what, k))
        table[0].data += b'!'
        same([bytes(table[k].data[-1:]) == b'!' for k in (1, 2)], [False, False], '%s: changing one overlay changed another' % what)
    same([bytes(f) for f in rom.files], files, 'files of the ROM')
    ctx.state(case); ctx.step(2); ctx.outcome('%d files' % len(set(fids)))


def genLarge(tier):
    for n in (5, 16, 100, 255, 256, 257, 300):
        for order in ('up', 'down', 'weave', 'sparse'):
            yield ('table', n, order)
    for size in (0xFF, 0x100, 0x3FFF, 0x4000, 0x4001, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x20003):
        for content in ('run', 'count', 'words'):
            yield ('data', size, content)


def checkLarge(case, ctx):
    kind, n, how = case
    ctx.state(case)
    if kind == 'table':
        ids = list(range(n))
        if how == 'down': ids.reverse()
        elif how == 'weave': ids = ids[::2] + ids[1::2][::-1]
        elif how == 'sparse': ids = [i * 0x1001 for i in ids]
        ent = {i: entry(k, k & 0xFE) for k, i in enumerate(ids)}
        table = {i: ndspy.code.Overlay(data(k), *ent[i]) for k, i in enumerate(ids)}
        blob = bytes(ndspy.code.saveOverlayTable(table))
        same(blob, pack(ent), 'overlay table data')
        for raw in (blob, b''.join(pack({i: ent[i]}) for i in ids)):
            for want in (None, set(ids[::3]), ids[-1:], range(n // 2)):
                calls = []
                def callback(ovID, fileID):
                    calls.append((ovID, fileID))
                    return data(fileID - 50)
                got = ndspy.code.loadOverlayTable(raw, callback, *([] if want is None else [want]))
                keys = {i for i in ids if want is None or i in want}
                same(set(got), keys, 'IDs loaded')
                same(sorted(calls), sorted((i, ent[i][5]) for i in keys), 'files fetched')
                for i in keys:
                    same((values(got[i]), bytes(got[i].data)), (ent[i], data(ent[i][5] - 50)), 'overlay %d' % i)
                ctx.step()
        ctx.outcome(how)
        return
    d = {'run': b'\7' * n, 'count': bytes(k % 251 % 128 + 1 for k in range(n)),
         'words': (b''.join(struct.pack('<I', 0xE3A00000 + k * 9) for k in range(n // 4 + 1)) + b'\1')[:n - 1] + b'\1'}[how]
    o = ndspy.code.Overlay(d, *entry(1))
    for comp in (True, False, True):
        blob = bytes(o.save(compress=comp))
        same((o.ramSize, o.compressedSize, o.compressed), (n, len(blob), comp), 'sizes and flag after saving')
        same(bytes(o.data), d, 'data after saving')
        back = reloadCheck(o, blob, d, ctx)
        same(bytes(back.save()), bytes(back.data), 'uncompressed save of the reloaded overlay')
    ctx.outcome(how)


spaces = [
    Space('shared', genShared, checkShared, 'three overlays on two files, compressed or not, every combination of the two flags'),
    Space('large', genLarge, checkLarge, 'tables of 5..300 overlays in four orders, four selections; overlays of up to 0x20003 bytes of three kinds'),
    Space('ids', genIds, checkIds, 'every ordered choice of up to 4 of 6 overlay IDs, every subset requested for loading'),
    Space('fields', genFields, checkField, 'every bit of every table field on three backgrounds, all 256 flag values'),
    Space('histories', genHist, checkHist, lambda t: 'every sequence of up to %d of 12 edits and saves' % (3 if t == 'quick' else 4)),
    Space('rom', genRom, checkRom, 'ROMs with up to 2+2 overlays, every compression choice, one overlay edited'),
]
