"""P33: button and cell layout files survive saving and loading."""
import itertools, struct
from mc.core import Space, same, raises
from ndspy import Alignment as A
from ndspy.bnbl import BNBL, BNBLTouchArea
from ndspy.bncl import BNCL, BNCLImagePosition

H = [A.LEFT, A.H_CENTER, A.RIGHT]
V = [A.TOP, A.V_CENTER, A.BOTTOM]
BYTES = [0, 1, 2, 3, 127, 128, 254, 255]
WORDS = [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]


def areaBytes(x, h, y, v, w, ht):
    return struct.pack('<HHBB', x + 4096 * h, y + 4096 * v, w, ht)


def cellBytes(x, h, y, v, i):
    return struct.pack('<HHI', x + 4096 * h, y + 4096 * v, i)


def areaFields(a):
    return (a.x, a.y, a.width, a.height, a.alignment)


def cellFields(c):
    return (c.x, c.y, c.alignment, c.imageID)


def corner(x, y, h, v, w, ht):
    return (x - [0, (w + 1) // 2, w][h], y - [0, (ht + 1) // 2, ht][v])


# Every position with every alignment
def genPos(tier):
    return range(0, 4096, 16)


def checkPos(base, ctx):
    for x in range(base, base + 16):
        for h, v in itertools.product(range(3), repeat=2):
            for other in (0, 1, 2048, 4095 - x):
                for px, py in ((x, other), (other, x)):
                    d = areaBytes(px, h, py, v, 10, 21)
                    f = (px, py, 10, 21, H[h] | V[v])
                    a = BNBLTouchArea.fromData(d)
                    same(areaFields(a), f, 'touch area')
                    same(a.save(), d, 'saved touch area')
                    same(BNBLTouchArea(*f).save(), d, 'saved new touch area')
                    same(tuple(a.getTopLeft()), corner(px, py, h, v, 10, 21), 'top-left corner')
                    d = cellBytes(px, h, py, v, x)
                    f = (px, py, H[h] | V[v], x)
                    c = BNCLImagePosition.fromData(d)
                    same(cellFields(c), f, 'image position')
                    same(c.save(), d, 'saved image position')
                    same(BNCLImagePosition(*f).save(), d, 'saved new image position')
                    ctx.step(6)
    ctx.state(base)


# Every size with every alignment
def genSizes(tier):
    return range(256)


def checkSizes(w, ctx):
    for h, v in itertools.product(range(3), repeat=2):
        for x, y in ((0, 0), (100, 50), (4095, 4095), (3, 300)):
            for ht in (0, 1, 2, w, 255 - w, 255):
                d = areaBytes(x, h, y, v, w, ht)
                a = BNBLTouchArea.fromData(d)
                same(areaFields(a), (x, y, w, ht, H[h] | V[v]), 'touch area')
                same(a.save(), d, 'saved touch area')
                same(tuple(a.getTopLeft()), corner(x, y, h, v, w, ht), 'top-left corner')
                ctx.step(3)
    ctx.state(('s', w))


# Alignment code 3 reads like 0, and the two bits above are ignored
def genThree(tier):
    return itertools.product(range(16), repeat=2)


def checkThree(case, ctx):
    h, v = case
    want = H[h % 4 % 3] | V[v % 4 % 3]
    same(areaFields(BNBLTouchArea.fromData(areaBytes(5, h, 6, v, 7, 8))), (5, 6, 7, 8, want), 'touch area')
    same(cellFields(BNCLImagePosition.fromData(cellBytes(5, h, 6, v, 7))), (5, 6, want, 7), 'image position')
    ctx.step(2)
    ctx.state(case)


# Combined alignment flags given by the caller
def genFlags(tier):
    return itertools.product(H, V)


def checkFlags(case, ctx):
    a = case[0] | case[1]
    for cls, attr in ((BNBLTouchArea, 'width'), (BNCLImagePosition, 'imageID')):
        o = cls()
        o.alignment = a
        o.x, o.y = 17, 18
        setattr(o, attr, 9)
        p = cls.fromData(o.save())
        same((p.x, p.y, p.alignment, getattr(p, attr)), (17, 18, a, 9), 'edited entry')
        ctx.step(2)
    same(A.CENTER, A.H_CENTER | A.V_CENTER, 'centre')
    ctx.state(case)


# Whole files
def entry(i, k):
    x, h, y, v = (i * 37 + k) % 4096, (i + k) % 3, (i * 101 + 5) % 4096, (i // 3 + k) % 3
    return x, h, y, v


def genFiles(tier):
    for n in list(range(0, 24)) + [255, 256, 257, 1000, 65535]:
        for u in (0, 1, 0x1234, 0xFFFF):
            if n < 1000 or u == 1:
                yield (n, u)


def checkFiles(case, ctx):
    n, u = case
    for k in range(3):
        es = [entry(i, k) for i in range(n)]
        d = struct.pack('<4sHH', b'JNBL', u, n) + b''.join(areaBytes(*e, i % 256, (i * 3 + k) % 256) for i, e in enumerate(es))
        want = [(e[0], e[2], i % 256, (i * 3 + k) % 256, H[e[1]] | V[e[3]]) for i, e in enumerate(es)]
        for given in (d, bytearray(d)):
            f = BNBL(given)
            same(f.unk04, u, 'unknown value')
            same([areaFields(a) for a in f.touchAreas], want, 'touch areas')
            same(f.save(), d, 'saved button layout')
        new = BNBL.fromTouchAreas([BNBLTouchArea(*w) for w in want], u)
        same(new.save(), d, 'saved new button layout')
        same(new.save(), d, 'saved twice')
        f.touchAreas.reverse()
        same([areaFields(a) for a in BNBL(f.save()).touchAreas], want[::-1], 'reversed touch areas')

        d = struct.pack('<4sHH', b'JNCL', u, n) + b''.join(cellBytes(*e, (i * 65537 + k) % 2 ** 32) for i, e in enumerate(es))
        want = [(e[0], e[2], H[e[1]] | V[e[3]], (i * 65537 + k) % 2 ** 32) for i, e in enumerate(es)]
        for given in (d, bytearray(d)):
            f = BNCL(given)
            same(f.unk04, u, 'unknown value')
            same([cellFields(a) for a in f.imagePositions], want, 'image positions')
            same(f.save(), d, 'saved cell layout')
        new = BNCL.fromImagePositions([BNCLImagePosition(*w) for w in want], u)
        same(new.save(), d, 'saved new cell layout')
        same(new.save(), d, 'saved twice')
        f.imagePositions.reverse()
        same([cellFields(a) for a in BNCL(f.save()).imagePositions], want[::-1], 'reversed image positions')
        ctx.step(10)
    ctx.state(case)


# Files of entries that are empty, equal or extreme
def genAlike(tier):
    for n in range(1, 6):
        for ks in itertools.product(range(4), repeat=n):
            yield ks
    for n in (255, 256, 1000):
        for k in range(4):
            yield (k,) * n


def checkAlike(case, ctx):
    E = [(0, 0, 0, 0), (4095, 2, 4095, 2), (0, 1, 0, 1), (7, 0, 9, 2)]
    S = [(0, 0), (255, 255), (0, 0), (1, 0)]
    I = [0, 2 ** 32 - 1, 0, 7]
    d = struct.pack('<4sHH', b'JNBL', 0, len(case)) + b''.join(areaBytes(*E[k], *S[k]) for k in case)
    want = [(E[k][0], E[k][2], *S[k], H[E[k][1]] | V[E[k][3]]) for k in case]
    f = BNBL(d)
    same([areaFields(a) for a in f.touchAreas], want, 'touch areas')
    same(f.save(), d, 'saved button layout')
    same(BNBL.fromTouchAreas([BNBLTouchArea(*w) for w in want]).save(), d, 'saved new button layout')
    f.touchAreas[0].x = 77
    want[0] = (77,) + want[0][1:]
    same([areaFields(a) for a in f.touchAreas], want, 'touch areas after changing the first')
    d = struct.pack('<4sHH', b'JNCL', 0, len(case)) + b''.join(cellBytes(*E[k], I[k]) for k in case)
    want = [(E[k][0], E[k][2], H[E[k][1]] | V[E[k][3]], I[k]) for k in case]
    f = BNCL(d)
    same([cellFields(a) for a in f.imagePositions], want, 'image positions')
    same(f.save(), d, 'saved cell layout')
    same(BNCL.fromImagePositions([BNCLImagePosition(*w) for w in want]).save(), d, 'saved new cell layout')
    f.imagePositions[0].x = 77
    want[0] = (77,) + want[0][1:]
    same([cellFields(a) for a in f.imagePositions], want, 'image positions after changing the first')
    ctx.step(8)
    ctx.state(case[:6])


def genValues(tier):
    for v in WORDS:
        yield ('image', v)
    for v in BYTES:
        yield ('w', v)
        yield ('h', v)
    yield ('default', 0)
    yield ('wrong', 0)


def checkValues(case, ctx):
    k, v = case
    ctx.step()
    ctx.state(case)
    if k == 'image':
        c = BNCLImagePosition(1, 2, A.RIGHT | A.BOTTOM, v)
        same(cellFields(BNCLImagePosition.fromData(c.save())), (1, 2, A.RIGHT | A.BOTTOM, v), 'image position')
        same(c.save(), cellBytes(1, 2, 2, 2, v), 'saved image position')
    elif k in 'wh':
        w, h = (v, 9) if k == 'w' else (9, v)
        same(BNBLTouchArea(1, 2, w, h, A.CENTER).save(), areaBytes(1, 1, 2, 1, w, h), 'saved touch area')
    elif k == 'default':
        same(areaFields(BNBLTouchArea()), (0, 0, 0, 0, A.TOP | A.LEFT), 'default touch area')
        same(cellFields(BNCLImagePosition()), (0, 0, A.TOP | A.LEFT, 0), 'default image position')
        for cls, m in ((BNBL, b'JNBL'), (BNCL, b'JNCL')):
            same(cls().save(), m + bytes(4), 'default file')
        a, b = BNBL(), BNBL()
        a.touchAreas.append(BNBLTouchArea())
        same(len(b.touchAreas), 0, 'touch areas of another file')
        a, b = BNCL(), BNCL()
        a.imagePositions.append(BNCLImagePosition())
        same(len(b.imagePositions), 0, 'image positions of another file')
        same(BNBL.fromTouchAreas([]).unk04, 0, 'default unknown value')
        same(BNCL.fromImagePositions([]).unk04, 0, 'default unknown value')
    else:
        for cls, m in ((BNBL, b'JNCL'), (BNCL, b'JNBL')):
            raises(ValueError, lambda: cls(m + bytes(4)), 'a file of the other kind')
            raises(ValueError, lambda: cls(b''), 'an empty file')


spaces = [
    Space('values', genValues, checkValues, 'limit values, defaults, wrong kinds of file'),
    Space('three', genThree, checkThree, 'all pairs of the upper four bits, alignment code 3 included'),
    Space('flags', genFlags, checkFlags, 'all 9 alignments'),
    Space('positions', genPos, checkPos, 'all 4096 positions of either axis x 9 alignments'),
    Space('sizes', genSizes, checkSizes, 'all 256 sizes x 9 alignments'),
    Space('alike', genAlike, checkAlike, 'all files of up to 5 of 4 empty or extreme entries'),
    Space('files', genFiles, checkFiles, 'files of 0..23 and up to 65535 entries'),
]
