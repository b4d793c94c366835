"""P04: code decompression decodes every valid file and leaves other data alone."""
import struct
from mc.core import Space, same, require
from mc import ref_lz, shapes
import ndspy.codeCompression as cc


def decode(f, want, appendedLen, ctx, what):
    fp = ref_lz.blzPlausibleFooter(f)
    ctx.state(f)
    if fp is None or fp[0] != appendedLen:
        ctx.outcome('ambiguous trailer')
        return
    got = cc.decompress(f)
    ctx.step()
    same(bytes(got), want, what)
    ctx.outcome('decoded, appended %d' % appendedLen)


def tokenSeqs(n, lengths, disps, produced):
    if n == 0:
        yield ()
        return
    for lit in (0, 97):
        for rest in tokenSeqs(n - 1, lengths, disps, produced + 1):
            yield (lit,) + rest
    for L in lengths:
        for d in disps:
            if d <= produced:
                for rest in tokenSeqs(n - 1, lengths, disps, produced + L):
                    yield ((L, d),) + rest


def genSeqs(tier):
    n = 4 if tier == 'quick' else 5
    head = (65, 66, 67, 68)
    for k in range(1, n + 1):
        for toks in tokenSeqs(k, (3, 5, 18), (3, 4, 9), 4):
            if any(not isinstance(t, int) for t in toks):
                yield head + toks


def checkSeq(toks, ctx):
    for prefix in (b'', b'P', b'PREF', b'\x08' * 7):
        r = ref_lz.blzTokensToFile(prefix, toks)
        if r is not None:
            decode(r[0], r[1], 0, ctx, 'decompress, prefix %r' % prefix)


def genPhase(tier):
    for pre in range(3, 24):
        for post in range(0, 18):
            for L in range(3, 19):
                for d in sorted({3, 4, min(pre, 8), pre}):
                    if d <= pre:
                        yield (pre, post, L, d)


def checkPhase(case, ctx):
    pre, post, L, d = case
    toks = tuple(48 + i for i in range(pre)) + ((L, d), (18, 3), (L, d)) + tuple(80 + i for i in range(post)) + ((18, 3), (17, 3))
    r = ref_lz.blzTokensToFile(b'', toks)
    if r is not None:
        decode(r[0], r[1], 0, ctx, 'decompress')


def genAppended(tier):
    fills = ['zeros', 'ff', 'count', 'nitro', 'nitrozero']
    for npre in range(0, 9):
        for nlit in range(3, 8):
            for amt in range(0, 0x20, 4):
                for fill in fills:
                    yield (npre, nlit, amt, fill)


def checkAppended(case, ctx):
    npre, nlit, amt, fill = case
    app = {'zeros': b'\0' * amt, 'ff': b'\xff' * amt, 'count': bytes(range(1, amt + 1)),
           'nitro': (struct.pack('<III', 0xDEC00621, 0xB6C, 0x4000) * 3)[:amt],
           'nitrozero': (struct.pack('<III', 0xDEC00621, 0xB6C, 0) * 3)[-amt:] if amt else b''}[fill]
    toks = tuple(48 + i for i in range(nlit)) + ((18, 3),) * 3
    f, want = ref_lz.blzTokensToFile(b'Q' * npre, toks, app)
    decode(f, want, amt, ctx, 'decompress with %d appended bytes (%s)' % (amt, fill))


def genPadding(tier):
    for more in list(range(0, 17)) + [31, 32, 100, 200, 240, 244]:
        for npre in (0, 1, 2, 3, 4, 50):
            for nlit in range(3, 8):
                for amt in (0, 4, 0xC):
                    yield (more, npre, nlit, amt)


def checkPadding(case, ctx):
    more, npre, nlit, amt = case
    toks = tuple(48 + i for i in range(nlit)) + ((18, 3),) * (4 + more // 8)
    r = ref_lz.blzTokensToFile(b'Q' * npre, toks, b'\5' * amt, morePad=more)
    if r is not None:
        decode(r[0], r[1], amt, ctx, 'decompress with %d more padding bytes' % more)


def genLate(tier):
    for P in (0x1000, 0x8000, 0xFFFF, 0x10000, 0x1FFFF):
        for d in (3, 4, 256, 257, 258, 4096, 4097, 4098):
            for npre in (0, 3, 0x4000, 0x12345):
                yield (P, d, npre)
    for n in (0x8000, 0xFFF0, 0x10000, 0x18000):
        yield (n, None, 5)


def checkLate(case, ctx):
    P, d, npre = case
    prefix = bytes(1 + i % 7 for i in range(npre))
    if d is None:       # long compressed data
        toks = tuple(i * 7 & 0xFF for i in range(P)) + ((18, 5),) * (P // 60)
    else:
        toks = (9, 8, 7) + ((18, 3),) * (P // 18) + tuple(i % 251 for i in range(300)) + ((18, 200),) * 220 + ((18, d), 5, (3, d), 6)
    r = ref_lz.blzTokensToFile(prefix, toks)
    require(r is not None, 'bad case')
    decode(r[0], r[1], 0, ctx, 'decompress')


def genGrowth(tier):
    for target in (0x100, 0x200, 0x8000, 0x10000, 0x20000, 0x30000):
        for last in range(3, 19):
            for more in range(0, 16):
                yield (target, last, more)
    yield (0x100000, 18, 0)
    yield (0x800000, 18, 0)


def checkGrowth(case, ctx):
    """Files that grow by an amount around a multiple of 2^8 or 2^16."""
    target, last, more = case
    k = 8 * target // 127
    toks = (9, 8, 7) + ((18, 3),) * k + ((last, 3), 1, 2)
    f, want = ref_lz.blzTokensToFile(b'', toks, b'', morePad=more)
    decode(f, want, 0, ctx, 'decompress')
    grown = len(want) - len(f)
    ctx.outcome('grows by a multiple of %#x' % next(n for n in (0x10000, 0x8000, 0x100, 1) if grown % n == 0))


def genFar(tier):
    for n in (255, 256, 257, 258, 259, 4094, 4095, 4096, 4097, 4098, 4099, 4110):
        for d in (3, 4, 255, 256, 257, 258, 259, 2047, 2048, 2049, 2050, 2051, 4095, 4096, 4097, 4098):
            if d <= n:
                for L in (3, 4, 10, 17, 18):
                    yield (n, d, L)


def checkFar(case, ctx):
    n, d, L = case
    toks = tuple((i * 7 + (i >> 8)) & 0xFF for i in range(n)) + ((L, d),) + ((18, 5),) * (n // 64 + 4) + ((L, d), 9)
    r = ref_lz.blzTokensToFile(b'abc', toks)
    require(r is not None, 'bad case')
    decode(r[0], r[1], 0, ctx, 'decompress')


def untouched(data, ctx):
    ctx.state(data)
    fp = ref_lz.blzPlausibleFooter(data)
    if fp is not None and fp[1] != 0:
        ctx.outcome('looks compressed')
        return
    got = cc.decompress(data)
    ctx.step()
    same(bytes(got), bytes(data), 'decompress of uncompressed data')
    ctx.outcome('unmodified' + (', zero size field' if fp else ''))


def genPlain(tier):
    q = tier == 'quick'
    yield from shapes.strings(b'\0\x08\xff', 8 if q else 10)
    yield from shapes.strings(b'\x08\x09', 12 if q else 15, 9)
    for n in range(0, 70):
        yield bytes(range(n))
        yield b'\xff' * n
        yield b'\x08' * n
        yield b'\x0c' * n


def genFooters(tier):
    for body in (0, 1, 3, 4, 9, 20):
        for pad in (b'', b'\xff', b'\xff\xff\xff', b'\0\xff', b'\xff\xfe'):
            for hdr in (0, 7, 8, 9, 10, 11, 12, 255):
                n = body + len(pad) + 8
                for comp in sorted({0, 7, 8, 9, n - 1, n, n + 1, n + 4, 0xFFFFFF}):
                    for extra in (0, 1, 8, 0xFFFFFFFF):
                        for app in (0, 4, 0x1C, 0x20):
                            yield (body, pad, hdr, comp, extra, app)


def checkFooter(case, ctx):
    body, pad, hdr, comp, extra, app = case
    f = bytes((i * 3 + 1) & 7 for i in range(body)) + pad + struct.pack('<II', comp | hdr << 24, extra) + b'\x05' * app
    untouched(f, ctx)


spaces = [
    Space('plain', genPlain, untouched, 'all strings over {0,8,FF} up to length 8 and {8,9} up to 12, ramps and runs up to 69 bytes'),
    Space('footers', genFooters, checkFooter, 'every combination of boundary footer lengths, compressed sizes, padding bytes and appended amounts'),
    Space('token-sequences', genSeqs, checkSeq, lambda t: 'every token sequence of up to %d tokens after 4 literals, with several raw prefixes' % (4 if t == 'quick' else 5)),
    Space('flag-phase', genPhase, checkPhase, 'back-references of every length at every flag-group phase'),
    Space('appended', genAppended, checkAppended, 'every appended amount 0..0x1C with several contents, every file remainder'),
    Space('padding', genPadding, checkPadding, 'footers with up to 244 more padding bytes, six prefix lengths, appended data'),
    Space('late', genLate, checkLate, 'references behind up to 0x1FFFF bytes of output, raw prefixes of up to 0x12345 bytes, more than 64 KiB of compressed data'),
    Space('growth', genGrowth, checkGrowth, 'decoded data larger than the file by every amount around 2^8, 2^9, 2^15, 2^16, 2^17, 3 * 2^16; 2^20 and 2^23'),
    Space('distances', genFar, checkFar, 'distances around powers of two up to the maximum 0x1002'),
]
assumptions = ['A file whose appended trailer itself contains a plausible footer is ambiguous in the format and excluded.']
