"""P11: resaving an unmodified ROM reproduces it byte for byte."""
import itertools
from mc.core import Space, same, require
from mc import ref_fs as fs
import ndspy.rom
from checks import p09


def firstDiff(a, b):
    if len(a) != len(b):
        return 'sizes %#x and %#x' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'first difference at %#x: %02x instead of %02x' % (i, x, y)


def resave(img, ctx, what, rounds=2):
    cur = img
    for r in range(rounds):
        cur = ndspy.rom.NintendoDSRom(cur).save()
        ctx.step()
        require(cur == img, '%s, round %d: image changed (%s)', what, r + 1, firstDiff(cur, img) if cur != img else '')


def both(m, ctx):
    resave(fs.romEncode(m), ctx, 'independently written canonical image')
    resave(fs.romToNdspy(m).save(), ctx, 'image saved by the library')


def checkParts(case, ctx):
    m = p09.model(**case)
    ctx.state(repr(case))
    both(m, ctx)
    ctx.outcome('%d parts' % sum(bool(m[k]) for k in fs.PARTS))


def checkContents(case, ctx):
    both(p09.contentModel(case), ctx)
    ctx.state(case)
    ctx.outcome(case[0])


def genOrders(tier):
    for n in range(0, 5):
        for sizes in itertools.product((0, 3, 0x200) if n < 4 else (0, 9), repeat=n):
            for order in itertools.permutations(range(n)):
                yield (sizes, (), (), order)
    for n in range(1, 4):
        for sizes in itertools.product((0, 5), repeat=n):
            for perm in itertools.permutations(range(n)):
                for a in range(0, n + 1):
                    for b in range(a, n + 1):
                        if b:
                            yield (sizes, perm[:a], perm[a:b], tuple(reversed(perm)))


def checkOrder(case, ctx):
    sizes, ov9, ov7, order = case
    m = p09.model(files=sizes, ov9=ov9, ov7=ov7, order=order, arm9=3, arm7=7)
    ctx.state(repr(case))
    both(m, ctx)
    ctx.outcome('%d files, %d empty' % (len(sizes), sizes.count(0)))


def genSig(tier):
    for end in range(0, 0x440, 0x10):
        for sig in ('none', 'zero', 'ff', 'last', 'first'):
            yield (end, sig)


def checkSig(case, ctx):
    end, sig = case
    data = {'none': b'', 'zero': bytes(0x88), 'ff': b'\xff' * 0x88, 'last': bytes(0x87) + b'\1', 'first': b'\1' + bytes(0x87)}[sig]
    m = fs.romModel(arm9=b'abc', files=(p09.blob(3, end),), rsaSignature=data)
    ctx.state(case)
    both(m, ctx)
    ctx.outcome(sig)


def genFields(tier):
    yield from p09.genFields(tier)


def checkField(case, ctx):
    key, value = case
    m = fs.romModel(arm9=b'abc', files=(b'f',))
    m[key] = value
    ctx.state(case)
    resave(fs.romEncode(m), ctx, 'canonical image')
    ctx.outcome(key)


def genEdit(tier):
    for sizes in itertools.product((0, 3), repeat=3):
        for order in itertools.permutations(range(3)):
            for i in range(3):
                for n in (0, 4, 0x201):
                    yield (sizes, order, i, n)


def checkEdit(case, ctx):
    """Replacing one file keeps the others in their storage order."""
    sizes, order, i, n = case
    m = p09.model(files=sizes, order=order, arm9=3)
    rom = ndspy.rom.NintendoDSRom(fs.romEncode(m))
    new = p09.blob(77, n)
    rom.files[i] = new
    files = list(m['files']); files[i] = new
    # empty files have no observable place relative to what follows them
    pos = {}
    img = rom.save()
    ao = int.from_bytes(img[0x48:0x4C], 'little')
    for k in range(3):
        pos[k] = int.from_bytes(img[ao + 8 * k:ao + 8 * k + 4], 'little')
    want = [k for k in order if sizes[k] and k != i]
    same(sorted(want, key=pos.get), want, 'storage order of the untouched files')
    fs.romValidate(img, dict(m, files=tuple(files)))
    resave(img, ctx, 'edited image')
    ctx.state(case)
    ctx.outcome('edit')


def checkPad(case, ctx):
    n, fill, rsa = case
    pad = {'zero': bytes(n), 'ramp': p09.blob(5, n), 'ff': b'\xff' * n}[fill]
    for ov9 in ((), (1,)):
        rom = fs.romToNdspy(p09.model(arm9=5, post=1, arm7=3, files=(1, 0x200), ov9=ov9, banner=1, rsa=rsa))
        rom.pad200 = pad
        resave(rom.save(), ctx, 'image with %#x bytes between header and code' % n)
    ctx.state(case)
    ctx.outcome('pad')


def checkTree(case, ctx):
    both(p09.model(files=(2,) * sum(case[1]), names=fs.buildTree(*case), arm9=4), ctx)
    ctx.state(repr(case))
    ctx.outcome('tree')


def checkLarge(case, ctx):
    both(p09.largeModel(case), ctx)
    ctx.state(case)
    ctx.outcome(case[0])


spaces = [
    Space('parts', p09.genParts, checkParts, 'canonical images with every combination of parts of P09, two load/save rounds each'),
    Space('orders', genOrders, checkOrder, 'every storage order and every set of empty files among up to 4 files; every overlay assignment of up to 3 files'),
    Space('signatures', genSig, checkSig, 'absent, zero and non-zero signatures at every position relative to the final alignment'),
    Space('fields', genFields, checkField, 'every bit of every header field'),
    Space('contents', p09.genContents, checkContents, 'each part alone and among others, holding only zeros, only 0xFF, or either at the start or end'),
    Space('padding', p09.genPad, checkPad, 'header padding of 11 lengths and 3 contents'),
    Space('large', p09.genLarge, checkLarge, 'up to 1000 files (61440 mostly empty ones) and 200 overlays in 3 storage orders, regions around 2^15, 2^16, 2^17, 2^20 and 2^21 bytes, up to 500 names and 150 levels'),
    Space('trees', p09.genTrees, checkTree, 'every filename tree of up to 4 folders with 0..2 files each'),
    Space('edits', genEdit, checkEdit, 'every order of 3 empty or non-empty files, one file replaced'),
]
