"""P24: bank storage order, sharing and unreachable instruments are preserved."""
import itertools
from mc.core import Space, same, require
from mc import ref_bank as rb
from ndspy.soundBank import SBNK

from checks.p23 import N

# Two variants of each type
V = {'S': (('S', N(1)), ('S', N(2))), 'T': (('S', N(1, 2)), ('S', N(2, 2))),
     'R': (('R', 40, (N(1), N(2))), ('R', 41, (N(1), N(2)))),
     'G': (('G', ((60, N(1)), (127, N(2)))), ('G', ((127, N(3)),)))}


def compare(b, want, what):
    same(bytes(b.save()[0]), want, what)


def genOrder(tier):
    n = 3
    for kinds in itertools.product('STRG', repeat=n):
        for var in itertools.product((0, 1), repeat=n):
            for merge in itertools.product((0, 1), repeat=n):
                yield (kinds, var, merge)
    if tier != 'quick':
        for kinds in itertools.product('SRG', repeat=4):
            for var in itertools.product((0, 1), repeat=4):
                for merge in itertools.product((0, 1), repeat=4):
                    yield (kinds, var, merge)


def checkOrder(case, ctx):
    kinds, var, merge = case
    insts = [V[k][v] for k, v in zip(kinds, var)]
    for keys in itertools.product(range(3), repeat=len(kinds)):
        objs = [rb.makeInst(i) for i in insts]
        for o, k, m in zip(objs, keys, merge):
            o.bankOrderKey = k
            o.dataMergeOptimizationID = m
        want = rb.layout(insts, keys, merge)
        b = SBNK.fromInstruments(objs)
        compare(b, want, 'storage layout with order keys %s' % (keys,))
        back = SBNK(want)
        same([rb.readInst(i) for i in back.instruments], insts, 'loaded')
        same(back.inaccessibleInstruments, {}, 'unreachable instruments')
        compare(back, want, 'saved again with order keys %s' % (keys,))
        ctx.step(2)
    ctx.state(case)


# Defaults: identical instruments share, order is by ID
def genDefault(tier):
    alpha = [None] + [V[k][v] for k in 'STRG' for v in (0, 1)]
    for n in range(0, 5 if tier == 'quick' else 6):
        yield from itertools.product(range(len(alpha)), repeat=n)


def checkDefault(case, ctx):
    alpha = [None] + [V[k][v] for k in 'STRG' for v in (0, 1)]
    insts = [alpha[i] for i in case]
    want = rb.layout(insts)
    compare(SBNK.fromInstruments([rb.makeInst(i) for i in insts]), want, 'storage layout')
    compare(SBNK(want), want, 'saved again')
    ctx.step(2)
    ctx.state(case)


# Stored instruments: reachable (through one or two IDs) or not
def genStored(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for kinds in itertools.combinations_with_replacement('SRG', n):
            for uses in itertools.product((0, 1, 2), repeat=n):
                if not any(uses):
                    continue
                yield (kinds, uses)


def stored(kinds):
    out = []
    for i, k in enumerate(kinds):
        if k == 'S':
            out.append(('S', N(i)))
        elif k == 'R':
            out.append(('R', 40 + i, (N(i), N(i + 1))))
        else:
            out.append(('G', ((50 + i, N(i)), (127, N(i, 2)))))
    return out


def checkStored(case, ctx):
    kinds, uses = case
    st = stored(kinds)
    slots = [i for i, u in enumerate(uses) for _ in range(u)]
    perms = list(itertools.permutations(range(len(slots)))) if len(slots) <= 4 else [
        tuple(range(len(slots))), tuple(reversed(range(len(slots)))), tuple(range(1, len(slots))) + (0,)]
    for perm in perms:
        for gap in (False, True):
            table = [(st[slots[p]], slots[p]) for p in perm]
            if gap:
                table.insert(1, None)
            blob = rb.build(table, st)
            b = SBNK(blob, 0, [])
            same([rb.readInst(i) for i in b.instruments], [None if t is None else t[0] for t in table], 'loaded instruments')
            # Where each unreachable instrument belongs
            want = {}
            prev = None
            for i, u in enumerate(uses):
                if u:
                    prev = min(k for k, t in enumerate(table) if t is not None and t[1] == i)
                else:
                    want.setdefault(prev, []).append(st[i])
            got = {k: [rb.readInst(x) for x in v] for k, v in b.inaccessibleInstruments.items()}
            same(got, want, 'unreachable instruments')
            compare(b, blob, 'saved again')
            ctx.step(2)
    ctx.state(case)


# Unreachable instruments whose kind follows from both neighbours, any contents
def genBetween(tier):
    for k in 'SRG':
        for f in range(8):
            for v in (range(0, 256) if f > 1 else (0, 1, 60, 255, 256, 2560, 2561, 65535)):
                for around in range(len(AROUND[k])):
                    yield (k, f, v, around)


# The neighbours: their own kinds (- for none), and whether the later one has the lower ID
AROUND = {'S': [('S', 'S', 0), ('S', 'S', 1), ('T', 'T', 1), ('S', 'U', 0), ('U', 'T', 0), ('-', 'S', 0), ('-', 'U', 0), ('T', 'S', 1)],
          'R': [('R', 'R', 0), ('R', 'R', 1)], 'G': [('G', 'G', 0), ('G', 'G', 1), ('G', '-', 0)]}


def checkBetween(case, ctx):
    k, f, v, around = case
    n = list(N(9))
    n[f] = v
    n = tuple(n)
    mk = {'S': lambda x: ('S', x), 'T': lambda x: ('S', x[:-1] + (2,)), 'U': lambda x: ('S', x[:-1] + (3,)),
          'R': lambda x: ('R', 5, (x,)), 'G': lambda x: ('G', ((127, x),)), '-': lambda x: None}
    before, after, swap = AROUND[k][around]
    for count in (1, 2):
        st = [mk[before](N(1))] * (before != '-') + [mk[k](n)] + [mk[k](N(8))] * (count - 1) + [mk[after](N(2))] * (after != '-')
        reach = [0] * (before != '-') + [len(st) - 1] * (after != '-')
        if swap:
            reach.reverse()
        blob = rb.build([(st[i], i) for i in reach], st)
        b = SBNK(blob)
        hidden = [s for i, s in enumerate(st) if i not in reach]
        same({a: [rb.readInst(x) for x in c] for a, c in b.inaccessibleInstruments.items()},
             {None if before == '-' else reach.index(0): hidden}, 'unreachable instruments')
        compare(b, blob, 'saved again')
        # ... and they can be dropped
        b.inaccessibleInstruments.clear()
        left = sorted(reach)
        compare(b, rb.build([(st[i], left.index(i)) for i in reach], [st[i] for i in left]), 'saved without unreachable instruments')
        ctx.step(3)
    ctx.state(case)


# Placing unreachable instruments by hand
def genPlaced(tier):
    keys = (None, 0, 1, 2, 3, 7)
    for kinds in itertools.combinations_with_replacement('SRG', 3):
        for ks in itertools.chain(itertools.combinations(keys, 1), itertools.combinations(keys, 2)):
            for cnt in (1, 2):
                yield (kinds, ks, cnt)


def checkPlaced(case, ctx):
    kinds, ks, cnt = case
    st = stored(kinds)
    b = SBNK.fromInstruments([rb.makeInst(i) for i in st])
    extra = {}
    serial = 20
    for k in ks:
        kind = kinds[0] if k is None else kinds[min(k, 2)]
        lst = []
        for _ in range(cnt):
            serial += 1
            lst.append({'S': ('S', N(serial)), 'R': ('R', 30, (N(serial),)), 'G': ('G', ((90, N(serial)),))}[kind])
        extra[k] = lst
        b.inaccessibleInstruments[k] = [rb.makeInst(x) for x in lst]
    order = list(extra.get(None, []))
    where = []
    for i, s in enumerate(st):
        where.append(len(order))
        order.append(s)
        order += extra.get(i, [])
    order += extra.get(3, []) + extra.get(7, [])
    want = rb.build([(s, w) for s, w in zip(st, where)], order)
    compare(b, want, 'storage layout')
    ctx.step()
    ctx.state(case)


# Many instruments, and ones that differ late
def genLarge(tier):
    for n in (16, 17, 100, 128, 255, 256, 257, 600):
        for how in ('distinct', 'pairs', 'same'):
            for keys in ('default', 'reverse', 'weave', 'wide'):
                yield (n, how, keys)
    for n in (100, 130, 300, 1400, 4000):
        for kind in 'SRG':
            yield (min(n, 64000 // {'S': 14, 'R': 30, 'G': 36}[kind]), 'apart', kind)
    for n in (5, 20, 100, 300):
        for every in (2, 3, n - 1):
            yield (n, 'unreachable', every)
    for k in 'RG':
        for pos in range(127 if k == 'R' else 8):
            yield (pos, 'late', k)


def checkLarge(case, ctx):
    n, how, keys = case
    ctx.state(case)
    ctx.step(2)
    if how == 'unreachable':
        st = [('S', (i, 1, 60, 127, 127, 127, 127, 64, 1)) for i in range(n)]
        reach = [i for i in range(n) if i % keys == 0]
        blob = rb.build([(st[i], i) for i in reach], st)
        b = SBNK(blob, 0, [])
        want = {}
        for i in range(n):
            if i % keys:
                want.setdefault(i // keys, []).append(st[i])
        same({k: [rb.readInst(x) for x in v] for k, v in b.inaccessibleInstruments.items()}, want, 'unreachable instruments')
        compare(b, blob, 'saved again')
        return
    if how == 'apart':
        # equal instruments with different merge IDs, stored at many offsets
        inst = {'S': ('S', N(1)), 'R': ('R', 7, (N(1), N(2))), 'G': ('G', ((60, N(1)), (127, N(2))))}[keys]
        want = rb.build([(inst, i) for i in range(n)], [inst] * n)
        b = SBNK(want)
        compare(b, want, 'saved again')
        objs = [rb.makeInst(inst) for _ in range(n)]
        for i, o in enumerate(objs):
            o.dataMergeOptimizationID = 1000 + i
        compare(SBNK.fromInstruments(objs), want, 'storage layout')
        # equal but not identical merge IDs
        objs = [rb.makeInst(inst) for _ in range(n)]
        for i, o in enumerate(objs):
            o.dataMergeOptimizationID = 100000 + i % 3 - 100 + 100
        compare(SBNK.fromInstruments(objs), rb.build([(inst, i % 3) for i in range(n)], [inst] * 3), 'storage layout')
        return
    if how == 'late':
        # shared only if equal up to the last note
        if keys == 'R':
            a = [N(1)] * 127
            c = list(a); c[n] = N(2)
            insts = [('R', 1, tuple(a)), ('R', 1, tuple(c)), ('R', 1, tuple(a)), ('R', 1, tuple(c)), ('R', 1, tuple(a[:n + 1]))]
        else:
            a = [(10 + 10 * k, N(1)) for k in range(8)]
            c = list(a); c[n] = (a[n][0] + 1, N(1))
            d = list(a); d[n] = (a[n][0], N(2))
            insts = [('G', tuple(x)) for x in (a, c, d, a, c, d, a[:n + 1])]
        want = rb.layout(insts)
        compare(SBNK.fromInstruments([rb.makeInst(i) for i in insts]), want, 'storage layout')
        compare(SBNK(want), want, 'saved again')
        return
    def num(i):
        return (i, i % 4, i % 128, i * 3 % 128, 126, 125, 124, 64, 1)
    insts = [('S', num({'distinct': i, 'pairs': i % (n // 2), 'same': 1}[how])) for i in range(n)]
    objs = [rb.makeInst(i) for i in insts]
    order = {'default': list(range(n)), 'reverse': [n - i for i in range(n)], 'weave': [i % 2 * n + i for i in range(n)],
             'wide': [(i * 7 % 5) * 100000 - 200000 for i in range(n)]}[keys]
    if keys != 'default':
        for o, k in zip(objs, order):
            o.bankOrderKey = k
    want = rb.layout(insts, order)
    compare(SBNK.fromInstruments(objs), want, 'storage layout')
    compare(SBNK(want), want, 'saved again')


spaces = [
    Space('large', genLarge, checkLarge, 'banks of 16..600 instruments, distinct, in equal pairs or all equal, in four orders; up to 300 stored instruments of which every second, third or only the first is reachable; instruments that differ in any single note or region only; up to 4000 equal instruments with different merge IDs'),
    Space('default', genDefault, checkDefault, lambda tier: 'all lists of up to %d of 8 instruments and missing entries' % (4 if tier == 'quick' else 5)),
    Space('order', genOrder, checkOrder, lambda tier: 'all lists of 3 instruments of 4 kinds x 2 contents x 2 merge IDs x all order keys 0..2'
          + ('' if tier == 'quick' else ', and 4 of 3 kinds')),
    Space('stored', genStored, checkStored, lambda tier: 'all type-sorted storages of up to %d instruments, each reached by 0, 1 or 2 IDs, all ID orders' % (4 if tier == 'quick' else 5)),
    Space('between', genBetween, checkBetween, 'every value of every note field of one or two unreachable instruments between two of their kind, of 2 to 8 sorts and in either order of IDs, or at an end where this settles their kind'),
    Space('placed', genPlaced, checkPlaced, 'unreachable instruments placed after every ID, before all, and past the end'),
]
assumptions = ['recovery of unreachable instruments is heuristic: in storages where the kind does not follow from the neighbours, '
               'single notes have pitch 60, ranges have at least two notes and end at pitch 10 or higher, regions are strictly increasing']
