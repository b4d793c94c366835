"""Reference codecs for LZ10 and backwards LZ, written from the format."""
import struct
from mc.core import require


def lz10Validate(blob):
    """Strictly decode an LZ10 stream; raise Violation if it is not valid."""
    require(len(blob) >= 4, 'LZ10 stream shorter than its header')
    require(blob[0] == 0x10, 'LZ10 type byte is %d', blob[0])
    size = blob[1] | blob[2] << 8 | blob[3] << 16
    pos = 4
    out = bytearray()
    flags = 0
    bit = 0
    ntok = 0
    while len(out) < size:
        if ntok % 8 == 0:
            require(pos < len(blob), 'LZ10 stream ends before a flag byte')
            flags = blob[pos]
            pos += 1
        bit = flags >> (7 - ntok % 8) & 1
        ntok += 1
        if bit:
            require(pos + 2 <= len(blob), 'LZ10 stream ends inside a back-reference')
            b0, b1 = blob[pos], blob[pos + 1]
            pos += 2
            length = (b0 >> 4) + 3
            disp = ((b0 & 15) << 8 | b1) + 1
            require(disp <= len(out), 'LZ10 back-reference reaches before the start (%d > %d)', disp, len(out))
            require(len(out) + length <= size, 'LZ10 back-reference runs past the end')
            for _ in range(length):
                out.append(out[-disp])
        else:
            require(pos < len(blob), 'LZ10 stream ends before a literal')
            out.append(blob[pos])
            pos += 1
    if ntok % 8:
        require(flags & (0xFF >> (ntok % 8)) == 0, 'LZ10 unused flag bits set')
    rest = blob[pos:]
    require(len(rest) <= 11 and not any(rest), 'LZ10 leftover data %r', bytes(rest[:20]))
    return bytes(out)


def lz10Encode(tokens, size=None, trailing=b''):
    """tokens: ints (literals) or (length, disp).  Returns (stream, output)."""
    out = bytearray()
    body = bytearray()
    for g in range(0, len(tokens), 8):
        group = tokens[g:g + 8]
        flags = 0
        chunk = bytearray()
        for k, t in enumerate(group):
            if isinstance(t, int):
                chunk.append(t)
                out.append(t)
            else:
                length, disp = t
                flags |= 0x80 >> k
                chunk.append((length - 3) << 4 | (disp - 1) >> 8)
                chunk.append((disp - 1) & 0xFF)
                for _ in range(length):
                    out.append(out[-disp])
        body.append(flags)
        body += chunk
    if size is None:
        size = len(out)
    return struct.pack('<I', size << 8 | 0x10) + bytes(body) + trailing, bytes(out[:size])


def blzTokensToFile(prefix, tokens, appended=b'', padTo=4, morePad=0):
    """
    Build a backwards-LZ file: raw prefix, then the token stream reversed,
    footer, and appended data.  Returns (file, expected) or None if the
    result would not be representable (decoded not larger than the file).
    """
    out = bytearray()     # decoded, from the end backwards
    body = bytearray()    # stream in reading order
    for g in range(0, len(tokens), 8):
        flags = 0
        chunk = bytearray()
        for k, t in enumerate(tokens[g:g + 8]):
            if isinstance(t, int):
                chunk.append(t)
                out.append(t)
            else:
                length, disp = t
                flags |= 0x80 >> k
                chunk.append((length - 3) << 4 | (disp - 3) >> 8)
                chunk.append((disp - 3) & 0xFF)
                for _ in range(length):
                    out.append(out[-disp])
        body.append(flags)
        body += chunk
    body.reverse()
    out.reverse()
    f = bytearray(prefix) + body
    hdr = 8
    while len(f) % padTo:
        f.append(0xFF)
        hdr += 1
    f += b'\xFF' * morePad
    hdr += morePad
    compLen = len(body) + hdr
    extra = len(prefix) + len(out) - (len(f) + 8)
    if extra <= 0:
        return None
    f += struct.pack('<II', compLen | hdr << 24, extra)
    return bytes(f) + appended, bytes(prefix) + bytes(out) + appended


def blzPlausibleFooter(data):
    """
    The amount of appended data (0, 4 ... 0x1C) behind the first plausible
    footer, and its extra size, or None.
    """
    n = len(data)
    for amt in range(0, 0x20, 4):
        end = n - amt
        if end < 8:
            return None
        w, extra = struct.unpack_from('<II', data, end - 8)
        hdr, comp = w >> 24, w & 0xFFFFFF
        if hdr < 8 or comp > end or hdr > comp:
            continue
        if any(b != 0xFF for b in data[end - hdr:end - 8]):
            continue
        return amt, extra
    return None


def blzInPlace(f):
    """
    Decode a backwards-LZ file exactly as the console does: in place, until
    the read pointer reaches the start of the compressed region.  Raises
    Violation if the file is inconsistent or decoding would overwrite unread
    compressed bytes.  Returns the decoded memory image.
    """
    n = len(f)
    require(n >= 8, 'compressed file too short')
    w, extra = struct.unpack_from('<II', f, n - 8)
    hdr, comp = w >> 24, w & 0xFFFFFF
    require(8 <= hdr <= 11, 'footer length %d', hdr)
    require(hdr <= comp <= n, 'compressed length %d (file %d)', comp, n)
    require(0 < extra < 1 << 24, 'size increase field %d', extra)
    require(all(b == 0xFF for b in f[n - hdr:n - 8]), 'footer padding is not 0xFF')
    mem = bytearray(f) + bytearray(extra)
    src = n - hdr
    stop = n - comp
    dst = n + extra
    while src > stop:
        src -= 1
        flags = mem[src]
        for k in range(8):
            if flags & (0x80 >> k):
                require(src - 2 >= stop, 'stream ends inside a back-reference')
                b0, b1 = mem[src - 1], mem[src - 2]
                src -= 2
                length = (b0 >> 4) + 3
                disp = ((b0 & 15) << 8 | b1) + 3
                require(dst - 1 + disp < n + extra, 'back-reference before the start of the output')
                for _ in range(length):
                    dst -= 1
                    require(dst >= stop, 'decoding writes below the compressed region')
                    require(dst >= src, 'in-place decoding overwrites unread data')
                    mem[dst] = mem[dst + disp]
            else:
                require(src - 1 >= stop, 'stream ends before a literal')
                src -= 1
                b = mem[src]
                dst -= 1
                require(dst >= src, 'in-place decoding overwrites unread data')
                mem[dst] = b
            if src <= stop:
                break
    require(dst == stop, 'decoded data ends at %d instead of %d', dst, stop)
    return bytes(mem)
