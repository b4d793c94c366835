"""Independent reader and writer of texture blocks (TEX0), and an independent texture renderer.

A texture is (name, unk00, unk02, params, unk04, data1, data2), a palette is (name, unk00, unk02, unkHeader02, data).
"""
import struct
from mc.core import require, same

BITS = {0: 0, 1: 8, 2: 2, 3: 4, 4: 8, 5: 2, 6: 8, 7: 16}


def size(params):
    return 8 << (params // 16 % 8), 8 << (params // 128 % 8)


def lengths(params):
    """How many bytes of data a texture has in each of its two areas."""
    w, h = size(params)
    f = params // 1024 % 8
    return w * h * BITS[f] // 8, (w * h // 8 if f == 5 else 0)


def fill(n, seed):
    return bytes((seed * 31 + i * 7 + i // 256 * 3 + 1) % 256 for i in range(n))


def tex(name, params, seed=0, unk=(0, 0, 0)):
    a, b = lengths(params)
    return (name, unk[0], unk[1], params, unk[2], fill(a, seed), fill(b, seed + 100))


def table(entries, each):
    """Name table: entries are (name, unk00, unk02, data)."""
    n = len(entries)
    out = struct.pack('<BBH', 0, n, 4 + 8 + 4 * n + 4 + each * n + 16 * n)
    out += struct.pack('<HHI', 8, 12 + 4 * n, 0x17F)
    for e in entries:
        out += struct.pack('<HH', e[1], e[2])
    out += struct.pack('<HH', each, 4 + each * n)
    for e in entries:
        assert len(e[3]) == each
        out += e[3]
    for e in entries:
        out += e[0].encode('latin-1').ljust(16, b'\0')
    return out


def readTable(d, off, each):
    zero, n, total, eight, unkLen, magic = struct.unpack_from('<BBHHHI', d, off)
    same((zero, eight, unkLen, magic), (0, 8, 12 + 4 * n, 0x17F), 'name table header')
    same(total, 16 + 4 * n + each * n + 16 * n, 'name table size')
    require(off + total <= len(d), 'name table reaches beyond the end')
    p = off + 12
    unks = [struct.unpack_from('<HH', d, p + 4 * i) for i in range(n)]
    p += 4 * n
    same(struct.unpack_from('<HH', d, p), (each, 4 + each * n), 'name table entries header')
    p += 4
    datas = [bytes(d[p + each * i:p + each * i + each]) for i in range(n)]
    p += each * n
    names = [bytes(d[p + 16 * i:p + 16 * i + 16]).rstrip(b'\0').decode('latin-1') for i in range(n)]
    return [(names[i], unks[i][0], unks[i][1], datas[i]) for i in range(n)], (off, off + total)


def encode(texs, pals, unks=(0,) * 6, order=0, share=False, gap=0, texOrder=1, palOrder=1, lead=0):
    """TEX0 block; order picks the order of the four data areas, texOrder and palOrder the order inside them;
    share stores equal data just once; gap leaves unused bytes around areas; lead is how many bytes (a multiple of 8)
    of the texture areas come before the first texture."""
    a1, c1, c2, pd = bytearray([0xCC] * lead), bytearray([0xCC] * lead), bytearray([0xCC] * (lead // 2)), bytearray()
    toff, poff = {}, {}
    seen = {}
    for i in list(range(len(texs)))[::texOrder]:
        t = texs[i]
        key = (t[3] // 1024 % 8 == 5, t[5], t[6])
        if share and key in seen:
            toff[i] = seen[key]
            continue
        if key[0]:
            toff[i] = len(c1)
            c1 += t[5]
            c2 += t[6]
        else:
            toff[i] = len(a1)
            a1 += t[5]
        seen[key] = toff[i]
    seen = {}
    for i in list(range(len(pals)))[::palOrder]:
        if share and pals[i][4] in seen:
            poff[i] = seen[pals[i][4]]
            continue
        poff[i] = seen[pals[i][4]] = len(pd)
        pd += pals[i][4]
    tt = table([(t[0], t[1], t[2], struct.pack('<HHI', toff[i] // 8, t[3], t[4])) for i, t in enumerate(texs)], 8)
    pt = table([(p[0], p[1], p[2], struct.pack('<HH', poff[i] // 8, p[3])) for i, p in enumerate(pals)], 4)
    out = bytearray(0x3C) + bytes(gap)
    texOff = len(out)
    out += tt + bytes(gap)
    palOff = len(out)
    out += pt
    areas = [a1, c1, c2, pd]
    perm = [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2)][order]
    offs = {}
    for k in perm:
        out += bytes([0xEE]) * gap
        offs[k] = len(out)
        out += areas[k]
    out += bytes([0xDD]) * gap
    out[:0x3C] = struct.pack('<4sIIHHIIIHHIIIIHHII', b'TEX0', len(out), unks[0], len(a1) // 8, texOff, unks[1], offs[0],
                             unks[2], len(c1) // 8, texOff, unks[3], offs[1], offs[2], unks[4], len(pd) // 8, unks[5], palOff, offs[3])
    return bytes(out)


def decode(d):
    """Strict reader: (texs, pals, unks)."""
    (magic, length, u08, texLen, texOff, u10, texData, u18, cLen, cInfo, u20, c1, c2, u2C, palLen, u32, palOff, palData) = \
        struct.unpack_from('<4sIIHHIIIHHIIIIHHII', d, 0)
    same((magic, length), (b'TEX0', len(d)), 'block header')
    tt, span1 = readTable(d, texOff, 8)
    pt, span2 = readTable(d, palOff, 4)
    areas = sorted(s for s in [(0, 0x3C), span1, span2, (texData, texData + texLen * 8), (c1, c1 + cLen * 8), (c2, c2 + cLen * 4),
                               (palData, palData + palLen * 8)] if s[0] < s[1])
    for s, t in zip(areas, areas[1:]):
        require(s[1] <= t[0], 'areas %r and %r overlap', s, t)
    require(areas[-1][1] <= len(d), 'area %r reaches beyond the end', areas[-1])
    texs = []
    for name, a, b, e in tt:
        off, params, u04 = struct.unpack('<HHI', e)
        off *= 8
        n1, n2 = lengths(params)
        if params // 1024 % 8 == 5:
            require(off + n1 <= cLen * 8, 'texture %r reaches beyond its area', name)
            texs.append((name, a, b, params, u04, bytes(d[c1 + off:c1 + off + n1]), bytes(d[c2 + off // 2:c2 + off // 2 + n2])))
        else:
            require(off + n1 <= texLen * 8, 'texture %r reaches beyond its area', name)
            texs.append((name, a, b, params, u04, bytes(d[texData + off:texData + off + n1]), b''))
    starts = [struct.unpack('<HH', e)[0] * 8 for _, _, _, e in pt]
    pals = []
    for (name, a, b, e), s in zip(pt, starts):
        require(s <= palLen * 8, 'palette %r starts beyond its area', name)
        end = min([t for t in starts if t > s] + [palLen * 8])
        pals.append((name, a, b, struct.unpack('<HH', e)[1], bytes(d[palData + s:palData + end])))
    return texs, pals, (u08, u10, u18, u20, u2C, u32)


def nsbtx(block):
    return struct.pack('<4sHHIHHI', b'BTX0', 0xFEFF, 1, 0x14 + len(block), 0x10, 1, 0x14) + block


def readNsbtx(d):
    same(struct.unpack_from('<4sHHIHH', d, 0), (b'BTX0', 0xFEFF, 1, len(d), 0x10, 1), 'file header')
    off, = struct.unpack_from('<I', d, 0x10)
    return decode(d[off:])


# The library's objects

def makeTex(t):
    from ndspy.texture import Texture
    return (t[0], Texture(*t[1:]))


def makePal(p):
    from ndspy.texture import Palette
    return (p[0], Palette(*p[1:]))


def readObjTex(entry):
    """Through the attributes, not through save()."""
    name, t = entry
    w, h = t.width, t.height
    p = t.repeatS | t.repeatT << 1 | t.mirrorS << 2 | t.mirrorT << 3
    p |= (w.bit_length() - 4) << 4 | (h.bit_length() - 4) << 7 | int(t.format) << 10
    p |= t.isColor0Transparent << 13 | int(t.coordsTransformationMode) << 14
    require(w == 8 << (p >> 4 & 7) and h == 8 << (p >> 7 & 7), 'bad size %dx%d', w, h)
    return (name, t.unk00, t.unk02, p, t.unk04, bytes(t.data1), bytes(t.data2))


def readObjPal(entry):
    name, p = entry
    data = b''.join(struct.pack('<H', r | g << 5 | b << 10 | a << 15) for r, g, b, a in p.colors)
    return (name, p.unk00, p.unk02, p.unkHeader02, data)


# Rendering, straight from the hardware documentation

def render(params, d1, d2, colours, c0):
    """List of (r, g, b, a5) or None where the pixel is fully transparent."""
    w, h = size(params)
    return renderRows(params // 1024 % 8, w, h, d1, d2, colours, c0)


def renderRows(f, w, h, d1, d2, colours, c0):
    out = []
    for y in range(h):
        for x in range(w):
            n = y * w + x
            if f == 7:
                v = d1[2 * n] + 256 * d1[2 * n + 1]
                c, a = v, 31 * (v // 32768)
            elif f == 1:
                c, a = colours[d1[n] % 32], d1[n] // 32 * 4 + d1[n] // 64
            elif f == 6:
                c, a = colours[d1[n] % 8], d1[n] // 8
            elif f in (2, 3, 4):
                bits = BITS[f]
                v = d1[n * bits // 8] >> (n * bits % 8) & ((1 << bits) - 1)
                c, a = (colours[v] if v or not c0 else 0), (0 if v == 0 and c0 else 31)
            else:
                block = y // 4 * (w // 4) + x // 4
                v = d1[block * 4 + y % 4] >> (x % 4 * 2) & 3
                info = d2[block * 2] + 256 * d2[block * 2 + 1]
                base, mode = info % 16384 * 2, info // 16384
                a = 31
                if v < 2 or mode == 2 or (mode == 0 and v == 2):
                    c = colours[base + v]
                elif mode in (0, 1) and v == 3:
                    c = a = 0
                else:
                    p, q = colours[base], colours[base + 1]
                    k0, k1 = (1, 1) if mode == 1 else ((5, 3) if v == 2 else (3, 5))
                    c = 0
                    for s in (0, 5, 10):
                        c |= ((p >> s) % 32 * k0 + (q >> s) % 32 * k1) // (k0 + k1) << s
            out.append((c % 32, c // 32 % 32, c // 1024 % 32, a) if a else None)
    return out
