"""P10: saved ROM images are structurally valid."""
import itertools
from mc.core import Space, same, require
from mc import ref_fs as fs
import ndspy.rom
from checks import p09


def validate(m, ctx):
    img = fs.romToNdspy(m).save()
    fs.romValidate(img, m)
    ctx.step()
    return img


def checkParts(case, ctx):
    m = p09.model(**case)
    ctx.state(repr(case))
    validate(m, ctx)
    ctx.outcome('%d parts' % sum(bool(m[k]) for k in fs.PARTS))


def checkContents(case, ctx):
    validate(p09.contentModel(case), ctx)
    ctx.state(case)
    ctx.outcome(case[0])


def genSizes(tier):
    edges = (0, 1, 0x1F, 0x20, 0x1FF, 0x200, 0x201, 0x3FF, 0x400)
    for a in edges:
        for b in edges:
            for c in edges:
                yield ('code', a, b, c)
    for n in range(0, 4):
        for sizes in itertools.product((0, 1, 0x1FF, 0x200, 0x201), repeat=n):
            for order in itertools.permutations(range(n)):
                yield ('files', sizes, order)
                if n:
                    yield ('files', sizes, order[:-1])
                    yield ('files', sizes, order + order[:1])
                    yield ('files', sizes, (n + 3,) + order)


def checkSizes(case, ctx):
    if case[0] == 'code':
        m = p09.model(arm9=case[1], arm7=case[2], debug=case[3], post=case[3] % 2, files=(case[3], case[1]))
    else:
        m = p09.model(files=case[1], order=case[2], arm9=2)
    ctx.state(repr(case))
    img = validate(m, ctx)
    if case[0] == 'files':
        # the files with content are stored in the requested order
        ao = int.from_bytes(img[0x48:0x4C], 'little')
        pos = {i: int.from_bytes(img[ao + 8 * i:ao + 8 * i + 4], 'little') for i in range(len(case[1]))}
        n = len(case[1])
        want = []
        for i in list(case[2]) + list(range(n)):
            if i < n and i not in want:
                want.append(i)
        want = [i for i in want if case[1][i]]
        same(sorted(want, key=pos.get), want, 'storage order of the files')
    ctx.outcome(case[0])


def genOverlays(tier):
    for n in range(1, 4):
        for sizes in itertools.product((0, 5, 0x200), repeat=n):
            for perm in itertools.permutations(range(n)):
                for a in range(0, n + 1):
                    for b in range(a, n + 1):
                        yield (sizes, perm[:a], perm[a:b])


def checkOverlays(case, ctx):
    sizes, ov9, ov7 = case
    for order in (tuple(range(len(sizes))), tuple(reversed(range(len(sizes))))):
        m = p09.model(files=sizes, ov9=ov9, ov7=ov7, arm9=6, arm7=9, order=order)
        ctx.state(repr((case, order)))
        validate(m, ctx)
    ctx.outcome('%d+%d overlays of %d files' % (len(ov9), len(ov7), len(sizes)))


def genCapacity(tier):
    base = 0x4A00            # rough overhead; the image size is measured
    for target in (0x4A00, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000) + ((0x100000, 0x200000) if tier != 'quick' else ()):
        for d in (-0x800, -0x400, -0x200, -1, 0, 1, 0x200, 0x400, 0x401, 0x800):
            yield (max(0, target - base + d),)
            yield (max(0, target - base + d) // 2,) * 2
    for a in range(0, 0x20000, 0x1000):
        yield (a,)


def checkCapacity(sizes, ctx):
    m = fs.romModel(files=tuple(bytes(n) for n in sizes), deviceCapacity=5)
    rom = fs.romToNdspy(m)
    plain = rom.save()
    same(plain[0x14], 5, 'capacity byte without the option')
    same(rom.deviceCapacity, 5, 'deviceCapacity without the option')
    img = rom.save(updateDeviceCapacity=True)
    want = next(c for c in range(40) if (0x20000 << c) >= len(img))
    same(img[0x14], want, 'capacity byte of an image of %#x bytes' % len(img))
    same(rom.deviceCapacity, want, 'deviceCapacity after saving')
    same(len(img), len(plain), 'image size with and without the option')
    fs.romValidate(img, dict(m, deviceCapacity=want))
    ctx.state(sizes); ctx.step(2)
    ctx.outcome('capacity %d' % want)


def genFields(tier):
    yield from p09.genFields(tier)


def checkField(case, ctx):
    key, value = case
    m = fs.romModel(arm9=b'abc', files=(b'f',))
    m[key] = value
    ctx.state(case)
    validate(m, ctx)
    ctx.outcome(key)


def checkPad(case, ctx):
    n, fill, rsa = case
    pad = {'zero': bytes(n), 'ramp': p09.blob(5, n), 'ff': b'\xff' * n}[fill]
    for ov9 in ((), (1,)):
        m = p09.model(arm9=5, post=1, arm7=3, files=(1, 0x200), ov9=ov9, banner=1, rsa=rsa)
        rom = fs.romToNdspy(m)
        rom.pad200 = pad
        fs.romValidate(rom.save(), m)
        ctx.step()
    ctx.state(case)
    ctx.outcome('pad')


def checkTree(case, ctx):
    validate(p09.model(files=(2,) * sum(case[1]), names=fs.buildTree(*case), arm9=4), ctx)
    ctx.state(repr(case))
    ctx.outcome('tree')


def checkLarge(case, ctx):
    validate(p09.largeModel(case), ctx)
    ctx.state(case)
    ctx.outcome(case[0])


spaces = [
    Space('parts', p09.genParts, checkParts, 'the combinations of parts of P09, each image checked region by region by an independent reader'),
    Space('sizes', genSizes, checkSizes, 'sizes at and around every alignment unit, every storage order (complete, partial, with repeated and unknown IDs) of up to 3 files'),
    Space('overlays', genOverlays, checkOverlays, 'every assignment of up to 3 files to ARM9 overlays, ARM7 overlays and plain files'),
    Space('capacity', genCapacity, checkCapacity, 'image sizes at and around powers of two from 16 KiB to 512 KiB (2 MiB thorough)'),
    Space('contents', p09.genContents, checkContents, 'each part alone and among others, holding only zeros, only 0xFF, or either at the start or end'),
    Space('padding', p09.genPad, checkPad, 'header padding of 11 lengths and 3 contents'),
    Space('large', p09.genLarge, checkLarge, 'up to 1000 files (61440 mostly empty ones) and 200 overlays in 3 storage orders, regions around 2^15, 2^16, 2^17, 2^20 and 2^21 bytes, up to 500 names and 150 levels'),
    Space('trees', p09.genTrees, checkTree, 'every filename tree of up to 4 folders with 0..2 files each'),
    Space('checksums', genFields, checkField, 'header and logo checksums with every bit of every header field set'),
]
