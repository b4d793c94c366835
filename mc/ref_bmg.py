"""Reference reader and writer for BMG files."""
import struct
from mc.core import require, same

ENC = {1: 'cp1252', 2: 'utf-16', 3: 'shift-jis', 4: 'utf-8'}
ENC_ID = {v: k for k, v in ENC.items()}


def codec(enc, se):
    return {'utf-16': 'utf-16-le' if se == '<' else 'utf-16-be'}.get(enc, enc)


def norm(parts):
    """Merge adjacent text, drop empty text."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def encodeMessage(parts, enc, se):
    c = codec(enc, se)
    esc = '\x1A'.encode(c)
    out = b''
    for p in parts:
        out += p.encode(c) if isinstance(p, str) else esc + bytes([len(p[1]) + 2 + len(esc), p[0]]) + p[1]
    return out + '\0'.encode(c)


def sections(blob):
    require(blob[:8] == b'MESGbmg1', 'BMG magic')
    require(len(blob) >= 0x20, 'BMG header')
    le, be = struct.unpack_from('<I', blob, 12)[0], struct.unpack_from('>I', blob, 12)[0]
    se = '<' if le < be else '>'
    size, n = struct.unpack_from(se + 'II', blob, 8)
    off = 0x20
    out = []
    for i in range(n):
        require(off + 8 <= len(blob), 'section %d outside the file', i)
        magic, ln = struct.unpack_from(se + '4sI', blob, off)
        require(ln % 32 == 0 and ln >= 16 or magic == b'DAT1' and ln % 32 == 0, 'length of section %r is %d', magic, ln)
        out.append((magic, off, ln))
        off += ln
    # the last section may be stored without its padding
    require(off == size, 'file size field is %d, sections end at %d', size, off)
    require(len(blob) <= off and off - len(blob) < 32, 'file is %d bytes, sections end at %d', len(blob), off)
    return se, out


def decode(blob):
    se, secs = sections(blob)
    names = [m for m, o, l in secs]
    require(len(set(names)) == len(names), 'duplicate sections %r', names)
    d = {m: (o, l) for m, o, l in secs}
    require(blob[0x10] in ENC, 'encoding %d', blob[0x10])
    enc = ENC[blob[0x10]]
    r = {'endianness': se, 'encoding': enc, 'sections': names}
    io, il = d[b'INF1']
    do, dl = d[b'DAT1']
    count, elen, ident = struct.unpack_from(se + 'HHI', blob, io + 8)
    require(elen >= 4 and 16 + count * elen <= il, 'INF1 entries do not fit')
    require(not any(blob[io + 16 + count * elen:io + il]), 'INF1 padding')
    r['id'] = ident
    c = codec(enc, se)
    nul, esc = '\0'.encode(c), '\x1A'.encode(c)
    w = len(nul)
    dat = blob[do + 8:do + dl]
    same(dat[:w], nul, 'string at offset 0')
    end = w
    msgs = []
    for i in range(count):
        p = io + 16 + i * elen
        off, = struct.unpack_from(se + 'I', blob, p)
        info = bytes(blob[p + 4:p + elen])
        if off == 0:
            msgs.append((info, (), True))
            continue
        parts, text = [], off
        def flush():
            if text != off:
                parts.append(dat[text:off].decode(c))
        while True:
            require(off + w <= len(dat), 'message %d is not terminated', i)
            ch = dat[off:off + w]
            if ch == nul:
                flush()
                break
            if ch == esc:
                flush()
                require(off + w + 2 <= len(dat), 'escape runs past the end')
                ln, ty = dat[off + w], dat[off + w + 1]
                require(ln >= w + 2 and off + ln <= len(dat), 'escape length %d', ln)
                parts.append((ty, bytes(dat[off + w + 2:off + ln])))
                off += ln
                text = off
            else:
                off += w
        end = max(end, off + w)
        msgs.append((info, tuple(parts), False))
    require(not any(dat[end:]) and len(dat) - end < 32, 'DAT1 padding')
    r['messages'] = tuple(msgs)
    return r


def section(se, magic, body, padded=True):
    ln = 8 + len(body)
    ln += -ln % 32
    out = struct.pack(se + '4sI', magic, ln) + body
    return out.ljust(ln, b'\0') if padded else out


def encode(messages, enc='utf-16', se='<', ident=0, layout='standard', extra=()):
    """
    layout: 'standard'; 'reversed' (strings stored in reverse order);
    'shared' (equal strings stored once); 'datfirst' (DAT1 before INF1)
    """
    c = codec(enc, se)
    dat = bytearray('\0'.encode(c))
    offs = {}
    order = range(len(messages))
    if layout == 'reversed':
        order = reversed(order)
    seen = {}
    for i in order:
        info, parts, null = messages[i]
        if null:
            offs[i] = 0
            continue
        s = encodeMessage(parts, enc, se)
        if layout == 'shared' and s in seen:
            offs[i] = seen[s]
        else:
            offs[i] = seen[s] = len(dat)
            dat += s
    elen = 4 + (len(messages[0][0]) if messages else 0)
    inf = struct.pack(se + 'HHI', len(messages), elen, ident)
    for i, (info, parts, null) in enumerate(messages):
        inf += struct.pack(se + 'I', offs[i]) + info
    secs = [section(se, b'INF1', inf), section(se, b'DAT1', bytes(dat))]
    if layout == 'datfirst':
        secs.reverse()
    secs += list(extra)
    body = b''.join(secs)
    total = 0x20 + len(body)
    total += -total % 32
    head = b'MESGbmg1' + struct.pack(se + 'II', total, len(secs)) + bytes([ENC_ID[enc]])
    return head.ljust(0x20, b'\0') + body
