"""P12: main code files keep their sections through save and load."""
import hashlib
import itertools
import struct
from mc.core import Space, same, require
from mc import ref_lz
import ndspy.code, ndspy.codeCompression, ndspy.rom

assumptions = ['Code data is word-structured: sections of loaded files have word-multiple sizes, the settings block is complete and '
               'lies in the implicit section (in its first 0x4000 bytes when saving compressed), as in every real code file.']

MAGIC = b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21'


def fill(tag, n):
    """Bytes that look like neither settings, table ends nor compression footers."""
    return bytes(1 + (tag * 3 + i * 5 + i // 7) % 7 for i in range(n))


def build(ram, cso, implSize, secs, magic=True, ptrAt=None, impl=None):
    """An uncompressed code file; secs: (ramAddress, data, bss) with empty ones last."""
    d = bytearray(fill(1, implSize) if impl is None else impl)
    if magic:
        d[cso + 0x1C:cso + 0x24] = MAGIC
    body = b''.join(s[1] for s in secs)
    table = b''.join(struct.pack('<3I', s[0], len(s[1]), s[2]) for s in secs)
    tab = ram + len(d) + len(body)
    struct.pack_into('<3I', d, cso, tab, tab + len(table), ram + len(d))
    struct.pack_into('<I', d, cso + 0x14, 0)
    if ptrAt is not None:
        struct.pack_into('<I', d, ptrAt, ram + cso)
    return bytes(d) + body + table, bytes(d)


def expectSections(m, impl, secs, what, mask=None):
    got = []
    for i, s in enumerate(m.sections):
        got.append((s.ramAddress, bytes(s.data), s.bssSize, bool(s.implicit)))
    want = [(m.ramAddress, impl, 0, True)] + [(a, d, b, False) for a, d, b in secs]
    if mask is not None and got and len(got[0][1]) == len(impl):
        # the settings block itself is rewritten by every save
        def hide(d):
            d = bytearray(d)
            d[mask:mask + 12] = bytes(12); d[mask + 0x14:mask + 0x18] = bytes(4)
            return bytes(d)
        got[0] = (got[0][0], hide(got[0][1])) + got[0][2:]
        want[0] = (want[0][0], hide(want[0][1])) + want[0][2:]
    same(len(got), len(want), what + ': number of sections')
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, '%s: section %d' % (what, i))


LOCATE = ('pointer', 'magic', 'table', 'both', 'badpointer', 'zeropointer')


def sectionLists(maxN, sizes):
    for n in range(0, maxN + 1):
        for empties in range(0, n + 1):
            for ss in itertools.product(sizes, repeat=n - empties):
                yield ss + (0,) * empties


def genLayouts(tier):
    for sizes in sectionLists(3 if tier == 'quick' else 4, (4, 0x20)):
        for bss in itertools.product((0, 0x24), repeat=len(sizes)):
            for implSize in (0x40, 0x44, 0x80):
                for cso in (0x08, 0x10, 0x1C):
                    for loc in LOCATE:
                        for ram in (0x2000000, 0x2380000, 0x1FF8000):
                            yield (sizes, bss, implSize, cso, loc, ram)


def load(loc, ram, cso, implSize, secs, impl=None):
    magic = loc in ('magic', 'both', 'badpointer', 'zeropointer')
    ptrAt = 4 if loc in ('pointer', 'both') else None
    f, imp = build(ram, cso, implSize, secs, magic, ptrAt, impl)
    arg = {'pointer': (ram + 8,), 'both': (ram + 8,), 'badpointer': (ram + 0x100000,), 'zeropointer': (0,)}.get(loc, ())
    return f, imp, arg


def checkLayout(case, ctx):
    sizes, bss, implSize, cso, loc, ram = case
    secs = [(0x1FF8000 + 0x1000 * i, fill(10 + i, n), b) for i, (n, b) in enumerate(zip(sizes, bss))]
    f, impl, arg = load(loc, ram, cso, implSize, secs)
    m = ndspy.code.MainCodeFile(f, ram, *arg)
    same(m.codeSettingsOffs, cso, 'codeSettingsOffs')
    same(m.ramAddress, ram, 'ramAddress')
    expectSections(m, impl, secs, 'loaded file')
    same(bytes(m.save()), f, 'saving the unmodified file')
    expectSections(m, impl, secs, 'object after saving')
    packed = bytes(m.save(compress=True))
    same(struct.unpack_from('<I', packed, cso + 0x14)[0], ram + len(packed), 'compressed end address')
    for cls in (ndspy.code.MainCodeFile, ndspy.code.MainCodeFile.fromCompressed):
        if loc == 'table':
            break              # the file may have grown, so its table is no longer the last thing
        m2 = cls(packed, ram, *arg)
        expectSections(m2, impl, secs, 'reloaded compressed file', cso)
        same(bytes(m2.save()), f, 'saving the reloaded compressed file uncompressed')
    ctx.state(f); ctx.step(5)
    ctx.outcome('%s %d sections' % (loc, len(secs)))


def genCompressed(tier):
    for extra in (0x20, 0x200, 0x800):
        for sizes in ((), (0x40,), (0x20, 0x100), (0x300, 0), (4, 4, 4)):
            for zero in (False, True):
                for loc in ('pointer', 'magic'):
                    yield (extra, sizes, zero, loc)


def checkCompressed(case, ctx):
    extra, sizes, zero, loc = case
    ram, cso = 0x2000000, 0x800
    implSize = 0x4000 + extra
    impl = bytearray(fill(1, implSize))
    if zero:
        impl[0x3F00:] = bytes(len(impl) - 0x3F00)
    secs = [(0x1FF8000 + 0x1000 * i, bytes(n) if zero else fill(10 + i, n), 0) for i, n in enumerate(sizes)]
    f, imp, arg = load(loc, ram, cso, implSize, secs, impl)
    m = ndspy.code.MainCodeFile(f, ram, *arg)
    expectSections(m, imp, secs, 'loaded file')
    packed = bytes(m.save(compress=True))
    expectSections(ndspy.code.MainCodeFile(packed, ram, *arg), imp, secs, 'reloaded compressed file', cso)
    expectSections(ndspy.code.MainCodeFile.fromCompressed(packed, ram, *arg), imp, secs, 'fromCompressed', cso)
    same(struct.unpack_from('<I', packed, cso + 0x14)[0], ram + len(packed), 'compressed end address')
    same(bytes(ndspy.code.MainCodeFile(packed, ram, *arg).save()), f, 'saving the reloaded file uncompressed')
    ext = ndspy.codeCompression.compress(f, True)
    expectSections(ndspy.code.MainCodeFile(ext, ram, *arg), imp, secs, 'file compressed separately')
    ctx.outcome('compressed' if len(packed) < len(f) else 'stored')
    ctx.state(f); ctx.step(5)


def genNoSettings(tier):
    for n in range(0, 13):
        yield ('data', fill(3, n))
    for n in (0x100, 0x8000, 0x8004):
        yield ('data', fill(3, n))
    ram = 0x2000000
    for n in (8, 12, 16, 20, 40):
        for pos in range(0, n - 3):
            d = bytearray(fill(2, n))
            d[pos:pos + 4] = struct.pack('<I', ram + n)
            yield ('tableend', bytes(d))
    for n in (0x20, 0x40):
        for pos in range(4, n - 3, 4):
            for before in (ram + n + 12, ram + n + 0x108, 0xE12FFF1C + n % 12, 0xFFFFFFFC, ram + n - 0x120, ram + n - 8, ram + n - 10):
                d = bytearray(fill(2, n))
                d[pos - 4:pos + 4] = struct.pack('<II', before, ram + n)
                yield ('tablelike', bytes(d))
    for n in (8, 12, 16, 0x40):
        for after in range(0, 0x10, 4):
            if n >= 8 + after:
                d = fill(2, n - 8 - after) + struct.pack('<II', ram + n - 12, ram + n) + fill(1, after)
                yield ('tablelast', d)
    for n in (8, 0x20, 0x24, 0x40):
        for pos in range(0, min(n - 7, 0x1C), 4):
            d = bytearray(fill(2, n))
            d[pos:pos + 8] = MAGIC
            yield ('magic', bytes(d))
    yield ('none', b'')


def checkNoSettings(case, ctx):
    kind, data = case
    ram = 0x2000000
    m = ndspy.code.MainCodeFile(None if kind == 'none' else data, ram)
    same(m.codeSettingsOffs, None, 'codeSettingsOffs')
    if kind == 'none' and not m.sections:
        m.sections = [ndspy.code.MainCodeFile.Section(data, ram, 0, implicit=True)]
    expectSections(m, data, [], 'loaded file')
    want = data + b'\0' * (-len(data) % 4)
    same(bytes(m.save()), want, 'saving a file without settings')
    got = bytes(ndspy.codeCompression.decompress(m.save(compress=True)))
    same(got[:len(want)], want, 'saving a file without settings compressed')
    require(not any(got[len(want):]), 'compressed save grew the file')
    fresh = ndspy.code.MainCodeFile.fromSections([ndspy.code.MainCodeFile.Section(data, ram, 0, implicit=True)], ram)
    expectSections(fresh, data, [], 'fromSections')
    same(bytes(fresh.save()), want, 'saving a file made from a section')
    ctx.state(case); ctx.step(4)
    ctx.outcome(kind)


EDITS = [('grow0', 0x10), ('grow0', 3), ('set', 4), ('set', 7), ('set', 0), ('add', 8), ('add', 0), ('del', 0),
         ('bss', 0x40), ('addr', 0x2300000), ('reload', 0), ('reloadc', 0)]


def genEdits(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        yield from itertools.product(range(len(EDITS)), repeat=n)


def pad4(d):
    return d + b'\0' * (-len(d) % 4)


def checkEdits(seq, ctx):
    """Edits of sections followed by saves; sizes are rounded up to words in the file."""
    ram, cso = 0x2000000, 0x10
    secs = [(0x1FF8000, fill(5, 8), 0), (0x27E0000, fill(6, 12), 0x20)]
    f, impl = build(ram, cso, 0x40, secs)
    m = ndspy.code.MainCodeFile(f, ram)

    def normal():
        nonlocal impl, secs
        impl = pad4(impl)
        full = [(a, pad4(d), b) for a, d, b in secs if d]
        secs = full + [s for s in secs if not s[1]]

    def reload(compress):
        nonlocal m
        blob = m.save(compress=compress)
        normal()
        m = ndspy.code.MainCodeFile(bytes(blob), ram)
        expectSections(m, impl, secs, 'after save and reload', cso)
        ctx.state((impl, tuple(secs)))

    for k, idx in enumerate(seq):
        op, v = EDITS[idx]
        ctx.step()
        ctx.outcome(op)
        if op == 'grow0':
            m.sections[0].data += fill(20 + k, v); impl = impl + fill(20 + k, v)
        elif op in ('set', 'bss', 'addr', 'del'):
            if not secs:
                continue
            a, d, b = secs[0]
            s = m.sections[1]
            if op == 'set':
                d = fill(30 + k, v); s.data = bytearray(d)
            elif op == 'bss':
                b = v; s.bssSize = v
            elif op == 'addr':
                a = v; s.ramAddress = v
            if op == 'del':
                del m.sections[1]; del secs[0]
            else:
                secs[0] = (a, d, b)
        elif op == 'add':
            d = fill(40 + k, v)
            m.sections.append(ndspy.code.MainCodeFile.Section(d, 0x2400000 + k, 4))
            secs.append((0x2400000 + k, d, 4))
        else:
            reload(op == 'reloadc')
    expectSections(m, impl, secs, 'before the final save', cso)
    reload(False)
    again = bytes(m.save())
    same(bytes(ndspy.code.MainCodeFile(again, ram).save()), again, 'resaving the edited file')


def genRom(tier):
    for cso9, cso7 in itertools.product((0x08, 0x10, 0x1C), repeat=2):
        for n9 in range(3):
            for n7 in range(3):
                yield (cso9, cso7, n9, n7)


def checkRom(case, ctx):
    """The ROM passes each processor's own address and settings pointer."""
    cso9, cso7, n9, n7 = case
    rom = ndspy.rom.NintendoDSRom()
    want = {}
    for cpu, cso, n, ram in ((9, cso9, n9, 0x2004000), (7, cso7, n7, 0x2390000)):
        secs = [(0x1FF8000 + cpu + i, fill(cpu + i, 8 + 4 * i), i) for i in range(n)]
        # no magic, and data after the table, so that only the pointer can locate the settings
        f, impl = build(ram, cso, 0x40, secs, False, 4)
        setattr(rom, 'arm%d' % cpu, f + fill(3, 4))
        setattr(rom, 'arm%dRamAddress' % cpu, ram)
        setattr(rom, 'arm%dCodeSettingsPointerAddress' % cpu, ram + 8)
        want[cpu] = impl, secs, cso, ram
    for r in (rom, ndspy.rom.NintendoDSRom(rom.save())):
        for cpu, m in ((9, r.loadArm9()), (7, r.loadArm7())):
            impl, secs, cso, ram = want[cpu]
            same((m.ramAddress, m.codeSettingsOffs), (ram, cso), 'ARM%d address and settings' % cpu)
            expectSections(m, impl, secs, 'ARM%d' % cpu)
            ctx.step()
    ctx.state(case)
    ctx.outcome('rom')


def genAnywhere(tier):
    for cso in (0, 4, 8, 0x10, 0x3C, 0x7C, 0x100, 0x3FF0, 0x4000, 0x7FD8, 0x7FDC, 0x7FE0, 0x7FE4, 0x7FFC, 0x8000, 0xFFFC, 0x10000, 0x12344, 0x20000, 0x100000):
        for ptr in ('before', 'after', 'last', None):
            if ptr == 'before' and cso < 4 or ptr is None and cso > 0x7FE0:
                continue
            for magic in (False, True):
                if ptr is None and not magic:
                    continue
                for table in ('first', 'inside', 'behind', 'end'):
                    if table == 'first' and cso < 0x40:
                        continue
                    for n in (0, 1, 2, 5):
                        yield (cso, ptr, magic, table, n)


def checkAnywhere(case, ctx):
    """Settings, their pointer and the section table anywhere in the file, as other tools may lay them out."""
    cso, ptr, magic, table, n = case
    ram = 0x2004000
    secs = [(0x1FF8000 + 0x100 * i, fill(20 + i, 4 + 4 * (i % 3) if i < 4 else 0), 0x20 * (i % 3)) for i in range(n)]
    d = bytearray(fill(1, cso + 0x24))
    if magic:
        d[cso + 0x1C:cso + 0x24] = MAGIC
    if ptr == 'before':
        ptrAt = cso - 4
    elif ptr == 'after':
        ptrAt = len(d); d += fill(2, 8)
    tab = None
    if table == 'first':
        tab = 0
    elif table == 'inside':
        tab = len(d)
        d += fill(3, 12 * n)
    if table == 'first' and n > 4:
        d[0:60] = fill(4, 60)
    if ptr == 'last':
        ptrAt = len(d); d += fill(2, 4)
    size = len(d)
    body = b''.join(s[1] for s in secs)
    rows = b''.join(struct.pack('<3I', s[0], len(s[1]), s[2]) for s in secs)
    f = d + body
    if tab is None:
        tab = len(f)
        f += rows
        if table == 'behind':
            f += fill(5, 8)
    else:
        f[tab:tab + len(rows)] = rows
    struct.pack_into('<3I', f, cso, ram + tab, ram + tab + len(rows), ram + size)
    struct.pack_into('<I', f, cso + 0x14, 0)
    arg = ()
    if ptr is not None:
        struct.pack_into('<I', f, ptrAt, ram + cso)
        arg = (ram + ptrAt + 4,)
    impl = bytes(f[:size])
    m = ndspy.code.MainCodeFile(bytes(f), ram, *arg)
    same(m.codeSettingsOffs, cso, 'codeSettingsOffs')
    expectSections(m, impl, secs, 'loaded file')
    saved = bytes(m.save())
    back = ndspy.code.MainCodeFile(saved, ram, *arg)
    same(back.codeSettingsOffs, cso, 'codeSettingsOffs after saving')
    expectSections(back, impl, secs, 'reloaded file', cso)
    if table == 'end':
        same(saved, bytes(f), 'saving the unmodified file')
    for cpu in (9, 7):
        rom = ndspy.rom.NintendoDSRom()
        setattr(rom, 'arm%d' % cpu, bytes(f))
        setattr(rom, 'arm%dRamAddress' % cpu, ram)
        if arg:
            setattr(rom, 'arm%dCodeSettingsPointerAddress' % cpu, arg[0])
        m = rom.loadArm9() if cpu == 9 else rom.loadArm7()
        expectSections(m, impl, secs, 'ARM%d code loaded from a ROM' % cpu)
    ctx.state(case); ctx.step(5)
    if cso > 0x4000:
        return ctx.outcome('large')
    packed = bytes(ndspy.codeCompression.compress(bytes(f), False))
    m = ndspy.code.MainCodeFile(packed, ram, *arg)
    if len(ndspy.codeCompression.decompress(packed)) == len(f):
        expectSections(m, impl, secs, 'compressed file')
    ctx.outcome('%s %s' % (ptr, table))


def genTiny(tier):
    for n in range(0, 40):
        for c in (0, 5):
            yield (n, c)
    for n in (64, 100, 255, 256, 1000):
        yield (n, 5)


def checkTiny(case, ctx):
    """Small compressed code without settings."""
    n, c = case
    d = bytes([c]) * n + fill(1, 3)
    ram = 0x2000000
    packed = bytes(ndspy.codeCompression.compress(d, False))
    plain = bytes(ndspy.codeCompression.decompress(packed))
    same(plain.rstrip(b'\0'), d.rstrip(b'\0'), 'decompressed data')
    for m in (ndspy.code.MainCodeFile(packed, ram), ndspy.code.MainCodeFile.fromCompressed(packed, ram)):
        expectSections(m, plain, [], 'compressed code')
    ctx.outcome('shrunk' if len(packed) < len(d) else 'grown')
    ctx.state(case); ctx.step(2)


def genLarge(tier):
    for n in (4, 5, 8, 16, 17, 40, 100, 300):
        for kind in ('full', 'empty', 'half'):
            for loc in LOCATE:
                if loc != 'table' or n <= 17:      # the search expects a table below 0x100 bytes
                    yield (n, kind, loc)
    for size in (0xFC, 0x100, 0x3FFC, 0x4000, 0x7FFC, 0x8000, 0xFFFC, 0x10000, 0x10004, 0x20000):
        for where in range(3):
            yield (3, (where, size), 'magic')
            yield (3, (where, size, 'noise'), 'magic')
    for cso in (0, 4, 0x7C, 0x80, 0xFC, 0x100, 0x1FC, 0x400, 0xFFC, 0x1000, 0x2000, 0x3FDC, 0x4000, 0x7000, 0x7FE0):
        for loc in LOCATE if cso > 4 else ('magic', 'badpointer', 'zeropointer'):
            yield (2, ('cso', cso), loc)
    for bit in range(32):
        yield (2, ('bss', 1 << bit), 'magic')
        yield (2, ('emptybss', 1 << bit), 'magic')
        if bit >= 2:
            yield (2, ('emptyaddr', 1 << bit), 'magic')
            yield (2, ('addr', 1 << bit), 'magic')


def checkLarge(case, ctx):
    """Many sections, large sections, every bit of the table's fields."""
    n, kind, loc = case
    ram, cso, implSize = 0x2000000, 0x10, 0x40
    sizes = [4 + 4 * (i % 5) for i in range(n)]
    bss, addr = [i % 3 * 0x20 for i in range(n)], [0x1000000 + 0x100 * i for i in range(n)]
    if kind == 'empty':
        sizes[n - 2:] = [0, 0]
    elif kind == 'half':
        sizes[n // 2:] = [0] * (n - n // 2)
    elif kind[0] == 'emptybss':
        sizes[1], bss[1] = 0, kind[1]
    elif kind[0] == 'emptyaddr':
        sizes[1], addr[1] = 0, kind[1]
    elif kind[0] == 'bss':
        bss[1] = kind[1]
    elif kind[0] == 'cso':
        cso, implSize = kind[1], kind[1] + 0x40
    elif kind[0] == 'addr':
        addr[1] = kind[1]
    elif kind != 'full':
        sizes[kind[0]] = kind[1]
    secs = [(a, fill(10 + i, s), b) for i, (a, s, b) in enumerate(zip(addr, sizes, bss))]
    if kind[-1] == 'noise':         # compression saves little
        a, d, b = secs[kind[0]]
        secs[kind[0]] = (a, b''.join(hashlib.sha256(b'%d' % i).digest()[:24] + bytes(8) for i in range(len(d) // 32 + 1))[:len(d)], b)
    f, impl, arg = load(loc, ram, cso, implSize, secs)
    m = ndspy.code.MainCodeFile(f, ram, *arg)
    same(m.codeSettingsOffs, cso, 'codeSettingsOffs')
    expectSections(m, impl, secs, 'loaded file')
    same(bytes(m.save()), f, 'saving the unmodified file')
    if loc != 'table' and cso + 0x24 <= 0x4000:
        packed = bytes(m.save(compress=True))
        same(struct.unpack_from('<I', packed, cso + 0x14)[0], ram + len(packed), 'compressed end address')
        expectSections(ndspy.code.MainCodeFile(packed, ram, *arg), impl, secs, 'reloaded compressed file', cso)
    made = ndspy.code.MainCodeFile.fromSections(list(m.sections), ram)
    made.codeSettingsOffs = cso
    same(bytes(made.save()), f, 'saving a file made from the same sections')
    ctx.state(f); ctx.step(4)
    ctx.outcome('%d sections' % n)


spaces = [
    Space('anywhere', genAnywhere, checkAnywhere, 'settings at 20 offsets up to 0x100000, their pointer before, behind, at the end or absent, with and without magic, the section table at the start, inside, behind the sections or last, 0..5 sections; directly, from a ROM and compressed'),
    Space('tiny', genTiny, checkTiny, 'compressed code of 3..1003 bytes without settings'),
    Space('large', genLarge, checkLarge, '4..300 sections with none, two or half of them empty, 6 ways of locating the settings; sections of up to 0x20000 bytes, compressible and not, at each of three positions; settings at 15 offsets up to the end of the search range; every bit of address and BSS size of full and empty sections'),
    Space('layouts', genLayouts, checkLayout, lambda t: 'every list of up to %d sections (two sizes, empty ones last), BSS sizes, 3 implicit sizes, 3 settings offsets, 6 ways of locating the settings, 3 load addresses' % (3 if t == 'quick' else 4)),
    Space('compressed', genCompressed, checkCompressed, 'files beyond the uncompressed 0x4000 bytes, compressible and not, 5 section lists'),
    Space('nosettings', genNoSettings, checkNoSettings, 'data of 0..12 bytes and larger without settings; table-end values and magic numbers at every misleading position'),
    Space('rom', genRom, checkRom, 'ARM9 and ARM7 code loaded through a ROM, 3x3 settings offsets, 0..2 sections each'),
    Space('edits', genEdits, checkEdits, lambda t: 'every sequence of up to %d of 12 section edits and save/reload steps' % (3 if t == 'quick' else 4)),
]
