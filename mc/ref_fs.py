"""Reference codecs for filename tables, NARC archives and ROM images."""
import itertools
import struct
from mc.core import Violation, require, same

# A model folder is (files tuple, folders tuple of (name, folder), firstID).


def treeShapes(n):
    """All ordered trees with n nodes, as nested tuples of children."""
    if n == 1:
        yield ()
        return
    for forest in forests(n - 1):
        yield forest


def forests(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in treeShapes(k):
            for rest in forests(n - k):
                yield (first,) + rest


def countNodes(shape):
    return 1 + sum(countNodes(c) for c in shape)


def buildTree(shape, counts, names, ids):
    """
    shape: tree shape; counts: files per folder in preorder;
    names: 'distinct' | 'repeat' | 'clash'; ids: 'seq' | 'base' | 'gap' | 'rev' | 'zero'
    """
    order = []          # preorder nodes
    def collect(s):
        order.append(s)
        for c in s:
            collect(c)
    collect(shape)
    n = len(order)
    # first IDs
    total = sum(counts)
    firsts = [0] * n
    if ids in ('seq', 'base', 'gap'):
        cur = {'seq': 0, 'base': 87, 'gap': 3}[ids]
        for k in range(n):
            firsts[k] = cur
            cur += counts[k] + (2 if ids == 'gap' else 0)
    elif ids == 'rev':
        cur = total
        for k in range(n):
            cur -= counts[k]
            firsts[k] = cur
    elif ids == 'top':
        cur = 0x10000 - total - 1
        for k in range(n):
            firsts[k] = cur
            cur += counts[k]
    idx = itertools.count()
    def build(s, pos):
        k = next(idx)
        if names == 'distinct':
            files = tuple('f%d_%d' % (k, i) for i in range(counts[k]))
        elif names == 'repeat':
            files = tuple('ab'[i] if i < 2 else 'f%d' % i for i in range(counts[k]))
        else:
            files = tuple('cd'[i] if i < 2 else 'g%d' % i for i in range(counts[k]))
        folders = []
        for j, c in enumerate(s):
            if names == 'distinct':
                nm = 'D%d.%d' % (k, j)
            elif names == 'repeat':
                nm = 'cde'[j] if j < 3 else 'k%d' % j
            else:                      # folder names equal to file names
                nm = 'cde'[j] if j < 3 else 'k%d' % j
            folders.append((nm, build(c, j)))
        return (files, tuple(folders), firsts[k])
    return build(shape, 0)


def toNdspy(model):
    import ndspy.fnt
    files, folders, firstID = model
    return ndspy.fnt.Folder([(n, toNdspy(f)) for n, f in folders], list(files), firstID)


def fromNdspy(folder):
    require(isinstance(folder.files, list) and isinstance(folder.folders, list), 'folder lists have wrong types')
    for f in folder.files:
        require(isinstance(f, str), 'file name is %s', type(f).__name__)
    return (tuple(folder.files), tuple((n, fromNdspy(f)) for n, f in folder.folders), folder.firstID)


def fntEncode(model, layout='standard'):
    """
    layout: 'standard'  depth-first folder numbers, tables in that order
            'bfs'       breadth-first folder numbers
            'revtables' standard numbers, name tables stored in reverse order
            'mixed'     folders listed before files in every table
            'gap'       unused bytes between the tables
    """
    nodes = []    # (model, parentIndex)
    ids = {}
    if layout == 'bfs':
        queue = [(model, None, ())]
        while queue:
            m, par, path = queue.pop(0)
            ids[path] = len(nodes)
            nodes.append((m, par, path))
            for j, (n, c) in enumerate(m[1]):
                queue.append((c, path, path + (j,)))
    else:
        def rec(m, par, path):
            ids[path] = len(nodes)
            nodes.append((m, par, path))
            for j, (n, c) in enumerate(m[1]):
                rec(c, path, path + (j,))
        rec(model, None, ())
    tables = []
    for m, par, path in nodes:
        fpart = b''.join(bytes([len(f)]) + f.encode('latin-1') for f in m[0])
        dpart = b''.join(bytes([0x80 | len(n)]) + n.encode('latin-1')
                         + struct.pack('<H', 0xF000 + ids[path + (j,)]) for j, (n, c) in enumerate(m[1]))
        tables.append((dpart + fpart if layout == 'mixed' else fpart + dpart) + b'\0')
    n = len(nodes)
    offs = [0] * n
    blob = bytearray(8 * n)
    order = range(n - 1, -1, -1) if layout == 'revtables' else range(n)
    for k in order:
        if layout == 'gap':
            blob += b'\xAA\xBB'
        offs[k] = len(blob)
        blob += tables[k]
    for k, (m, par, path) in enumerate(nodes):
        struct.pack_into('<IHH', blob, 8 * k, offs[k], m[2], n if par is None else 0xF000 + ids[par])
    return bytes(blob)


def fntDecode(blob):
    """Strict independent reader; returns the model tree."""
    require(len(blob) >= 8, 'filename table shorter than one folder entry')
    count = struct.unpack_from('<H', blob, 6)[0]
    require(1 <= count <= 0x1000 and 8 * count <= len(blob), 'folder count %d', count)
    seen = set()
    used = []
    def rec(fid, parent):
        k = fid - 0xF000
        require(0 <= k < count, 'folder ID %#x out of range', fid)
        require(k not in seen, 'folder %#x referenced twice', fid)
        seen.add(k)
        off, first, par = struct.unpack_from('<IHH', blob, 8 * k)
        if parent is not None:
            same(par, parent, 'parent of folder %#x' % fid)
        require(8 * count <= off < len(blob), 'name table offset %#x', off)
        start = off
        files, folders = [], []
        while True:
            require(off < len(blob), 'name table runs past the end')
            c = blob[off]; off += 1
            if c == 0:
                break
            ln = c & 0x7F
            require(off + ln <= len(blob), 'name runs past the end')
            name = bytes(blob[off:off + ln]).decode('latin-1'); off += ln
            if c & 0x80:
                require(off + 2 <= len(blob), 'folder entry runs past the end')
                sub = struct.unpack_from('<H', blob, off)[0]; off += 2
                folders.append((name, sub))
            else:
                files.append(name)
        used.append((start, off))
        return (tuple(files), tuple((n, rec(s, fid)) for n, s in folders), first)
    m = rec(0xF000, None)
    require(len(seen) == count, 'only %d of %d folders reachable', len(seen), count)
    used.sort()
    for (a, b), (c, d) in zip(used, used[1:]):
        require(b <= c, 'name tables overlap')
    return m


def filesOf(model, prefix=()):
    """(path tuple, id) for every file."""
    files, folders, first = model
    for i, f in enumerate(files):
        yield prefix + (f,), first + i
    for n, c in folders:
        yield from filesOf(c, prefix + (n,))


def foldersOf(model, prefix=()):
    for n, c in model[1]:
        yield prefix + (n,), c
        yield from foldersOf(c, prefix + (n,))


# ---------------------------------------------------------------- NARC

def narcDecode(blob):
    require(len(blob) >= 0x10, 'NARC shorter than its header')
    require(blob[:4] == b'NARC', 'NARC magic %r', bytes(blob[:4]))
    require(blob[4:8] in (b'\xff\xfe\x01\x00', b'\xfe\xff\x00\x01'), 'NARC byte order / version %r', bytes(blob[4:8]))
    endian = '<' if blob[4] == 0xFF else '>'
    size, hdr, n = struct.unpack_from('<IHH', blob, 8)
    same(size, len(blob), 'NARC size field'); same(hdr, 0x10, 'NARC header size'); same(n, 3, 'NARC block count')
    require(blob[0x10:0x14] == b'BTAF', 'FAT block magic')
    fsize, count, = struct.unpack_from('<II', blob, 0x14)
    same(fsize, 12 + 8 * count, 'FAT block size')
    o = 0x10 + fsize
    require(blob[o:o + 4] == b'BTNF', 'FNT block magic')
    nsize, = struct.unpack_from('<I', blob, o + 4)
    require(nsize % 4 == 0, 'FNT block size not aligned')
    g = o + nsize
    require(blob[g:g + 4] == b'GMIF', 'file block magic')
    gsize, = struct.unpack_from('<I', blob, g + 4)
    same(g + gsize, len(blob), 'end of file block')
    same(g % 4, 0, 'file block alignment')
    base = g + 8
    files, prev = [], 0
    for i in range(count):
        a, b = struct.unpack_from('<II', blob, 0x1C + 8 * i)
        require(prev <= a <= b and base + b <= len(blob), 'file %d range %#x-%#x', i, a, b)
        require(a % 4 == 0, 'file %d not word aligned', i)
        prev = b
        files.append(bytes(blob[base + a:base + b]))
    names = fntDecode(bytes(blob[o + 8:o + nsize]))
    return endian, tuple(files), names


def narcEncode(files, names, endian, fnt=None, order=None, gap=0, align=4, fill=b'\xff'):
    """A NARC as another tool might write it."""
    fnt = fntEncode(names) if fnt is None else fnt
    fnt += b'\xff' * (-len(fnt) % 4)
    body = bytearray()
    pos = {}
    for i in (order or range(len(files))):
        body += fill * gap
        body += fill * (-len(body) % align)
        pos[i] = (len(body), len(body) + len(files[i]))
        body += files[i]
    body += fill * (-len(body) % 4)
    fat = b''.join(struct.pack('<II', *pos[i]) for i in range(len(files)))
    out = b'BTAF' + struct.pack('<II', 12 + len(fat), len(files)) + fat
    out += b'BTNF' + struct.pack('<I', 8 + len(fnt)) + fnt
    out += b'GMIF' + struct.pack('<I', 8 + len(body)) + body
    head = b'NARC' + (b'\xff\xfe\x01\x00' if endian == '<' else b'\xfe\xff\x00\x01')
    return head + struct.pack('<IHH', 0x10 + len(out), 0x10, 3) + out


# ---------------------------------------------------------------- ROM

BANNER_LEN = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}


def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = crc >> 1 ^ (0xA001 if crc & 1 else 0)
    return crc


LOGO = bytes.fromhex(
    '24ffae51699aa2213d84820a84e409ad11248b98c0817f21a352be199309ce2010464a4af82731ec58c7e83382e3cebf'
    '85f4df94ce4b09c194568ac01372a7fc9f844d73a3ca9a615897a327fc039876231dc7610304ae56bf38840040a70efd'
    'ff52fe036f9530f197fbc08560d68025a963be03014e38e2f9a234ffbb3e0344780090cb88113a9465c07c6387f03caf'
    'd625e48b380aac7221d4f807')

# documented header fields: attribute -> (offset, kind)
HEADER = {
    'name': (0x00, 12), 'idCode': (0x0C, 4), 'developerCode': (0x10, 2),
    'unitCode': (0x12, 'B'), 'encryptionSeedSelect': (0x13, 'B'), 'deviceCapacity': (0x14, 'B'),
    'pad015': (0x15, 'B'), 'pad016': (0x16, 'B'), 'pad017': (0x17, 'B'), 'pad018': (0x18, 'B'),
    'pad019': (0x19, 'B'), 'pad01A': (0x1A, 'B'), 'pad01B': (0x1B, 'B'), 'pad01C': (0x1C, 'B'),
    'region': (0x1D, 'B'), 'version': (0x1E, 'B'), 'autostart': (0x1F, 'B'),
    'arm9EntryAddress': (0x24, 'I'), 'arm9RamAddress': (0x28, 'I'),
    'arm7EntryAddress': (0x34, 'I'), 'arm7RamAddress': (0x38, 'I'),
    'normalCardControlRegisterSettings': (0x60, 'I'), 'secureCardControlRegisterSettings': (0x64, 'I'),
    'secureAreaChecksum': (0x6C, 'H'), 'secureTransferDelay': (0x6E, 'H'),
    'arm9CodeSettingsPointerAddress': (0x70, 'I'), 'arm7CodeSettingsPointerAddress': (0x74, 'I'),
    'secureAreaDisable': (0x78, 8), 'pad088': (0x88, 0x38), 'nintendoLogo': (0xC0, 0x9C),
    'debugRomAddress': (0x168, 'I'), 'pad16C': (0x16C, 0x94),
}
DEFAULTS = {
    'name': b'', 'idCode': b'####', 'developerCode': b'\0\0', 'unitCode': 0, 'encryptionSeedSelect': 0,
    'deviceCapacity': 9, 'pad015': 0, 'pad016': 0, 'pad017': 0, 'pad018': 0, 'pad019': 0, 'pad01A': 0,
    'pad01B': 0, 'pad01C': 0, 'region': 0, 'version': 0, 'autostart': 0, 'arm9EntryAddress': 0x2000800,
    'arm9RamAddress': 0x2000000, 'arm7EntryAddress': 0x2380000, 'arm7RamAddress': 0x2380000,
    'normalCardControlRegisterSettings': 0x416657, 'secureCardControlRegisterSettings': 0x81808f8,
    'secureAreaChecksum': 0, 'secureTransferDelay': 0xD7E, 'arm9CodeSettingsPointerAddress': 0,
    'arm7CodeSettingsPointerAddress': 0, 'secureAreaDisable': b'\0' * 8, 'pad088': b'\0' * 0x38,
    'nintendoLogo': LOGO, 'debugRomAddress': 0, 'pad16C': b'\0' * 0x94,
}
PARTS = ('arm9', 'arm9PostData', 'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner', 'debugRom', 'rsaSignature')

EMPTY_TREE = ((), (), 0)


def romModel(**kw):
    m = {k: b'' for k in PARTS}
    m.update(DEFAULTS)
    m.update(files=(), filenames=EMPTY_TREE, order=())
    m.update(kw)
    return m


def romToNdspy(m):
    import ndspy.rom
    rom = ndspy.rom.NintendoDSRom()
    for k in PARTS + tuple(HEADER):
        if k in DEFAULTS and m[k] == DEFAULTS[k]:
            continue
        setattr(rom, k, m[k])
    rom.files = list(m['files'])
    rom.filenames = toNdspy(m['filenames'])
    rom.sortedFileIds = list(m['order'])
    return rom


def romCompare(rom, m, what):
    """The loaded ndspy ROM object must equal the model."""
    for k in HEADER:
        want = m[k]
        if k == 'name':
            want = want[:12].rstrip(b'\0')
        same(getattr(rom, k), want, '%s: %s' % (what, k))
    for k in PARTS:
        same(bytes(getattr(rom, k)), m[k], '%s: %s' % (what, k))
    same([bytes(f) for f in rom.files], list(m['files']), '%s: files' % what)
    same(fromNdspy(rom.filenames), m['filenames'], '%s: filenames' % what)


def ovtFileIds(table):
    return [struct.unpack_from('<I', table, i + 0x18)[0] for i in range(0, len(table), 32)]


def romEncode(m):
    """Canonical ROM image for a model."""
    out = bytearray(0x200)
    def align(n, fill):
        out.extend(fill * (-len(out) % n))
    out.extend(b'\0' * (0x4000 - 0x200))
    hdr = {}
    fileOff = {}
    for cpu in ('9', '7'):
        hdr['arm%s' % cpu] = len(out)
        out.extend(m['arm' + cpu])
        if cpu == '9':
            out.extend(m['arm9PostData'])
        align(0x200, b'\xff')
        t = m['arm%sOverlayTable' % cpu]
        hdr['ovt' + cpu] = len(out) if t else 0
        if t:
            out.extend(t)
            align(0x200, b'\xff')
            for fid in ovtFileIds(t):
                fileOff[fid] = len(out)
                out.extend(m['files'][fid])
                align(0x200, b'\xff')
    hdr['fnt'] = len(out)
    fnt = fntEncode(m['filenames'])
    out.extend(fnt)
    align(0x200, b'\xff')
    hdr['fat'] = len(out)
    out.extend(bytes(8 * len(m['files'])))
    align(0x200, b'\xff')
    hdr['banner'] = len(out) if m['iconBanner'] else 0
    if m['iconBanner']:
        out.extend(m['iconBanner'])
        align(0x200, b'\xff')
    hdr['debug'] = len(out) if m['debugRom'] else 0
    if m['debugRom']:
        out.extend(m['debugRom'])
        align(0x200, b'\xff')
    order = [i for i in m['order'] if i not in fileOff]
    order += [i for i in range(len(m['files'])) if i not in fileOff and i not in order]
    for i in order:
        align(0x200, b'\xff')
        fileOff[i] = len(out)
        out.extend(m['files'][i])
    for i, f in enumerate(m['files']):
        struct.pack_into('<II', out, hdr['fat'] + 8 * i, fileOff[i], fileOff[i] + len(f))
    align(0x20, b'\0')
    sig = len(out)
    out.extend(m['rsaSignature'])
    struct.pack_into('<I', out, 0x1000, sig)
    align(0x400, b'\0')
    for k, (off, kind) in HEADER.items():
        if isinstance(kind, int):
            out[off:off + kind] = m[k][:kind].ljust(kind, b'\0')
        else:
            struct.pack_into('<' + kind, out, off, m[k])
    for off, v in ((0x20, hdr['arm9']), (0x2C, len(m['arm9'])), (0x30, hdr['arm7']), (0x3C, len(m['arm7'])),
                   (0x40, hdr['fnt']), (0x44, len(fnt)), (0x48, hdr['fat']), (0x4C, 8 * len(m['files'])),
                   (0x50, hdr['ovt9']), (0x54, len(m['arm9OverlayTable'])),
                   (0x58, hdr['ovt7']), (0x5C, len(m['arm7OverlayTable'])),
                   (0x68, hdr['banner']), (0x80, sig), (0x84, 0x4000),
                   (0x160, hdr['debug']), (0x164, len(m['debugRom']))):
        struct.pack_into('<I', out, off, v)
    struct.pack_into('<H', out, 0x15C, crc16(out[0xC0:0x15C]))
    struct.pack_into('<H', out, 0x15E, crc16(out[:0x15E]))
    return bytes(out)


def romValidate(img, m):
    """Structural validity of an image against the model it should hold."""
    n = len(img)
    require(n >= 0x4000, 'image of %#x bytes is too short', n)
    u32 = lambda o: struct.unpack_from('<I', img, o)[0]
    u16 = lambda o: struct.unpack_from('<H', img, o)[0]
    for k, (off, kind) in HEADER.items():
        if isinstance(kind, int):
            same(img[off:off + kind], m[k][:kind].ljust(kind, b'\0'), 'header field %s' % k)
        else:
            same(struct.unpack_from('<' + kind, img, off)[0], m[k], 'header field %s' % k)
    same(u32(0x84), 0x4000, 'header size field')
    same(u16(0x15C), crc16(img[0xC0:0x15C]), 'logo checksum')
    same(u16(0x15E), crc16(img[:0x15E]), 'header checksum')
    regions = [(0, 0x4000, 'header')]
    def region(off, want, name, alignment=0x200, optional=False):
        if optional and not want:
            return
        require(off % alignment == 0, '%s at %#x is not aligned', name, off)
        require(0x4000 <= off and off + len(want) <= n, '%s at %#x (+%#x) outside the image', name, off, len(want))
        same(img[off:off + len(want)], want, 'contents of %s' % name)
        if want:
            regions.append((off, off + len(want), name))
    same(u32(0x2C), len(m['arm9']), 'ARM9 size')
    region(u32(0x20), m['arm9'] + m['arm9PostData'], 'ARM9', 0x4000)
    same(u32(0x3C), len(m['arm7']), 'ARM7 size')
    region(u32(0x30), m['arm7'], 'ARM7')
    for off, key in ((0x50, 'arm9OverlayTable'), (0x58, 'arm7OverlayTable')):
        same(u32(off + 4), len(m[key]), key + ' size')
        if m[key]:
            region(u32(off), m[key], key)
        else:
            same(u32(off), 0, key + ' offset when absent')
    fo, fl = u32(0x40), u32(0x44)
    require(fo + fl <= n and fo % 0x200 == 0, 'filename table outside the image')
    same(fntDecode(img[fo:fo + fl]), m['filenames'], 'filename table')
    regions.append((fo, fo + fl, 'filename table'))
    ao, al = u32(0x48), u32(0x4C)
    same(al, 8 * len(m['files']), 'file allocation table size')
    require(ao + al <= n and ao % 0x200 == 0, 'file allocation table outside the image')
    if al:
        regions.append((ao, ao + al, 'file allocation table'))
    for i, f in enumerate(m['files']):
        a, b = struct.unpack_from('<II', img, ao + 8 * i)
        same(b - a, len(f), 'length of file %d' % i)
        region(a, f, 'file %d' % i)
    if m['iconBanner']:
        region(u32(0x68), m['iconBanner'], 'icon banner')
    else:
        same(u32(0x68), 0, 'banner offset when absent')
    same(u32(0x164), len(m['debugRom']), 'debug ROM size')
    if m['debugRom']:
        region(u32(0x160), m['debugRom'], 'debug ROM')
    else:
        same(u32(0x160), 0, 'debug ROM offset when absent')
    sig = u32(0x80)
    require(sig <= n, 'used size %#x beyond the image', sig)
    if m['rsaSignature']:
        region(sig, m['rsaSignature'], 'signature', 0x20)
    regions.sort()
    for (a, b, x), (c, d, y) in zip(regions, regions[1:]):
        require(b <= c, '%s (%#x-%#x) overlaps %s (%#x-%#x)', x, a, b, y, c, d)
    end = max(b for a, b, x in regions if x != 'signature')
    require(end <= sig < end + 0x200, 'used size %#x, last region ends at %#x', sig, end)
    require(n % 0x400 == 0, 'image size %#x is not a multiple of 0x400', n)
    # files come in the requested order (those not next to overlay tables)
    return regions
