"""P21: editing a parsed sequence keeps every jump target attached to its event."""
import itertools
from mc.core import Space, same, require, Violation
from mc import ref_seq as rs
import ndspy.soundSequence as ss
from ndspy.soundSequence import readSequenceEvents, saveSequenceEvents, SSEQ
from ndspy.soundSequenceArchive import SSAR, SSARSequence

# The model: `objs` maps a token to its event tuple, with target tokens; `order`
# is the list of tokens in the sequence; `real` maps tokens to ndspy events.
KINDS = {'n': ('Pan', 7), 'w': ('Rest', 300), 'e': ('EndTrack',), 'r': ('Return',), 'i': ('If',),
         'm': ('Note', 60, 100, False, 48), 'x': ('RawData', b'\x10\x20\x30')}
# What an event of each kind can be changed to
CHANGED = {'n': (('Pan', 9),), 'w': (('Rest', 301), ('Rest', 5), ('Rest', 70000)), 'm': (('Note', 61, 99, True, 49), ('Note', 60, 100, False, 20000)),
           'x': (('RawData', b'\x40\x50\x60'), ('RawData', b''), ('RawData', b'\x10' * 9))}


def makeSseq(data):
    return (b'SSEQ\xFF\xFE\0\1' + (0x1C + len(data)).to_bytes(4, 'little') + b'\x10\0\1\0DATA'
            + (0xC + len(data)).to_bytes(4, 'little') + b'\x1C\0\0\0' + data)


class Program:
    def __init__(self, prog):
        """Programs are lists of items: 'n', 'e', ..., 'j2', 'c0', 'b1' (targets are item indices)."""
        self.kind = {}
        self.tgt = {}
        self.order = list(range(len(prog)))
        for i, it in enumerate(prog):
            self.kind[i] = it[0]
            if len(it) > 1:
                self.tgt[i] = int(it[1:])
        self.real = {}
        self.over = {}           # events whose parameters were changed

    def size(self, t):
        k = self.kind[t]
        return {'j': 4, 'c': 4, 'b': 5}.get(k) or len(rs.encode(self.spec(t, 0)))

    def offsets(self):
        """{token: [offsets]}"""
        out = {}
        off = 0
        for t in self.order:
            out.setdefault(t, []).append(off)
            off += self.size(t)
        return out, off

    def spec(self, t, off):
        k = self.kind[t]
        if k == 'j':
            return ('Jump', off)
        if k == 'c':
            return ('Call', off)
        if k == 'b':
            return ('BeginTrack', 3, off)
        return self.over.get(t, KINDS[k])

    def encode(self):
        """Expected bytes, or None when a reference is dangling."""
        offs, total = self.offsets()
        out = b''
        for t in self.order:
            to = None
            if t in self.tgt:
                if self.tgt[t] not in offs:
                    return None
                to = offs[self.tgt[t]][0]
            out += rs.encode(self.spec(t, to))
        return out

    def makeReal(self, t):
        k = self.kind[t]
        self.real[t] = rs.make(self.spec(t, 0), self.real.get(self.tgt.get(t)))

    def adopt(self, events):
        same(len(events), len(self.order), 'number of parsed events')
        for t, e in zip(self.order, events):
            self.real[t] = e


def opsFor(n, jumps, kinds=()):
    """All edits of a sequence with n events; jumps: positions with a target."""
    for i in range(n + 1):
        for k in ('n', 'w', 'j'):
            if k == 'j':
                for t in range(n):
                    yield ('ins', i, k, t)
            else:
                yield ('ins', i, k, None)
    for i in range(n):
        yield ('del', i)
        yield ('rep', i, 'w')
        for j in range(n):
            if i != j:
                yield ('mov', i, j)
    for i in jumps:
        for t in range(n):
            yield ('tgt', i, t)
    for i, k in enumerate(kinds):
        for c in range(len(CHANGED.get(k, ()))):
            yield ('chg', i, c)


def kindsOf(p):
    return [p.kind[t] for t in p.order]


def jumpsOf(p):
    return [i for i, t in enumerate(p.order) if t in p.tgt]


def setTarget(e, to):
    if isinstance(e, ss.BeginTrackSequenceEvent):
        e.firstEvent = to
    else:
        e.destination = to


def apply(p, op, events):
    """Apply an edit to the model and to the real event list."""
    k = op[0]
    if k == 'ins':
        t = len(p.kind)
        p.kind[t] = op[2]
        if op[3] is not None:
            p.tgt[t] = p.order[op[3]]
        p.makeReal(t)
        p.order.insert(op[1], t)
        events.insert(op[1], p.real[t])
    elif k == 'del':
        del p.order[op[1]]
        del events[op[1]]
    elif k == 'rep':
        t = len(p.kind)
        p.kind[t] = op[2]
        p.makeReal(t)
        p.order[op[1]] = t
        events[op[1]] = p.real[t]
    elif k == 'mov':
        p.order.insert(op[2], p.order.pop(op[1]))
        events.insert(op[2], events.pop(op[1]))
    elif k == 'tgt':
        p.tgt[p.order[op[1]]] = p.order[op[2]]
        setTarget(events[op[1]], events[op[2]])
    elif k == 'chg':
        t, e = p.order[op[1]], events[op[1]]
        new = p.over[t] = CHANGED[p.kind[t]][op[2]]
        if p.kind[t] == 'n':
            e.value = new[1]
        elif p.kind[t] == 'w':
            e.duration = new[1]
        elif p.kind[t] == 'm':
            e.pitch, e.velocity, e.unknownFlag, e.duration = new[1:]
        else:
            e.data = new[1]


def failing(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation('%s: a reference to an event that is not in the list was saved: %s' % (what, r))


def compareSave(p, events, notable, ctx, seq=None):
    want = p.encode()
    offs, total = p.offsets()
    ctx.step()
    nt = [p.real[t] for t in notable]
    if want is None or any(t not in offs for t in notable):
        failing(lambda: saveSequenceEvents(events, nt), 'saveSequenceEvents')
        ctx.outcome('dangling')
        return
    data, no = saveSequenceEvents(events, nt)
    same(bytes(data), want, 'saved data')
    if seq is not None:
        same(bytes(seq.save()[0]), makeSseq(want), 'saved file')
    same(list(no), [offs[t][0] for t in notable], 'starting points')
    ctx.outcome('saved')


BASE = [
    ('n', 'j0'), ('j1', 'e'), ('c2', 'e', 'r'), ('b3', 'n', 'e', 'e'), ('n', 'i', 'j0', 'e'),
    ('b3', 'c4', 'e', 'e', 'r'), ('w', 'c3', 'j1', 'n', 'r'), ('j2', 'e', 'j1'), ('c2', 'e', 'm', 'r'), ('n', 'w', 'm', 'e'),
    ('b2', 'j0', 'c4', 'e', 'r'), ('i', 'c4', 'b5', 'e', 'r', 'j0'), ('j2', 'x', 'e'), ('b2', 'e', 'j4', 'x', 'm', 'w', 'e'),
]


def load(prog):
    p = Program(prog)
    s = SSEQ(makeSseq(p.encode()))
    s.parse()
    p.adopt(s.events)
    p.seq = s
    return p, s.events


def genHist(tier):
    depth = 2 if tier == 'quick' else 3
    for b, prog in enumerate(BASE):
        p = Program(prog)
        n = len(prog)
        for op in opsFor(n, jumpsOf(p), kindsOf(p)):
            yield (b, (op,))
    for b, prog in enumerate(BASE if tier == 'quick' else BASE[:4]):
        p = Program(prog)
        for op in opsFor(len(prog), jumpsOf(p), kindsOf(p)):
            yield (b, (op,), depth)


def checkHist(case, ctx):
    """One prefix; when a depth is given every continuation up to it is explored."""
    b, ops = case[:2]
    depth = case[2] if len(case) > 2 else len(ops)

    def go(ops):
        p, events = load(BASE[b])
        notable = [0, p.order[-1]]
        for op in ops:
            apply(p, op, events)
            if len(ops) == 1 or op is ops[-1]:
                compareSave(p, events, notable, ctx, p.seq)
        ctx.state((b, tuple(p.order), tuple(sorted(p.tgt.items())), tuple(sorted(p.over.items()))))
        if len(ops) < depth:
            for op in opsFor(len(p.order), jumpsOf(p), kindsOf(p)):
                go(ops + (op,))
    go(tuple(ops))


# Every reordering of the events
def genPerm(tier):
    for b, prog in enumerate(BASE):
        for perm in itertools.permutations(range(len(prog))):
            yield (b, perm)


def checkPerm(case, ctx):
    b, perm = case
    p, events = load(BASE[b])
    first = p.order[0]
    p.order = [p.order[i] for i in perm]
    p.seq.events = events = [events[i] for i in perm]
    compareSave(p, events, [first, first], ctx, p.seq)
    ctx.state(case)


# Programs built from scratch: every jump graph, targets also outside the list
def genBuilt(tier):
    n = 4
    kinds = ('n', 'w', 'x', 'j', 'c', 'b')
    for ks in itertools.product(kinds, repeat=3 if tier == 'quick' else 4):
        m = len(ks)
        for ts in itertools.product(*[range(m + 1) if k in 'jcb' else (None,) for k in ks]):
            yield tuple(k if t is None else k + str(t) for k, t in zip(ks, ts))
    if tier == 'quick':
        for ks in itertools.product(('w', 'j', 'b'), repeat=4):
            for ts in itertools.product(*[range(5) if k in 'jcb' else (None,) for k in ks]):
                yield tuple(k if t is None else k + str(t) for k, t in zip(ks, ts))


def checkBuilt(case, ctx):
    p = Program(case)
    out = len(case)
    p.kind[out] = 'n'          # an event that is not in the list
    for t in list(p.kind):
        p.makeReal(t)
    for t, to in p.tgt.items():
        setTarget(p.real[t], p.real[to])
    events = [p.real[t] for t in p.order]
    compareSave(p, events, [0], ctx)
    if p.encode() is not None:
        full = SSEQ.fromEvents(events, 9).save()
        same(bytes(full[0])[0x1C:], p.encode(), 'SSEQ data')
    else:
        failing(lambda: SSEQ.fromEvents(events).save(), 'SSEQ.save')
    ctx.step()
    ctx.state(case)


# The same event object several times in the list
def genTwice(tier):
    for ks in itertools.product(('n', 'w', 'j0', 'j1', 'c1', 'b0'), repeat=2):
        for n in (2, 3, 4):
            for order in itertools.product(range(2), repeat=n):
                if len(set(order)) == 2:
                    yield (ks, order)


def checkTwice(case, ctx):
    ks, order = case
    p = Program(ks)
    for t in (0, 1):
        p.makeReal(t)
    for t, to in p.tgt.items():
        setTarget(p.real[t], p.real[to])
    p.order = list(order)
    data = bytes(saveSequenceEvents([p.real[t] for t in order])[0])
    offs, total = p.offsets()
    same(len(data), total, 'length')
    off = 0
    for t in order:
        piece = data[off:off + p.size(t)]
        options = [rs.encode(p.spec(t, o)) for o in (offs[p.tgt[t]] if t in p.tgt else [None])]
        require(piece in options, 'event at offset %d saved as %s, expected one of %s', off, piece, options)
        off += p.size(t)
    ctx.step()
    ctx.state(case)


# Sequence archives: entry points follow their events
def genArchive(tier):
    for b, prog in enumerate(BASE):
        if 8 <= b < 12:
            continue
        n = len(prog)
        for starts in itertools.chain(itertools.product(range(n), repeat=1), itertools.product(range(n), repeat=2),
                                      [(0, None, n - 1), (None,)]):
            yield (b, starts)
        for starts in itertools.product(range(n), repeat=2):
            yield (b, starts, 'shared')


def checkArchive(case, ctx):
    b, starts = case[:2]
    prog = Program(BASE[b])
    for op in [None] + list(opsFor(len(BASE[b]), jumpsOf(prog), kindsOf(prog))):
        p, events = load(BASE[b])
        starts, ids = case[1], tuple(range(len(case[1])))
        seqs = [('s%d' % i, SSARSequence(None if s is None else p.real[s], i)) for i, s in enumerate(starts)]
        if len(case) > 2:         # the same sequence object under two names
            seqs.insert(1, ('s1', seqs[0][1]))
            seqs[2] = ('s2', seqs[2][1])
            starts, ids = (starts[0],) + starts, (0,) + ids
        a = SSAR.fromEventsAndSequences(events, seqs)
        if op:
            apply(p, op, a.events)
        want = p.encode()
        offs, _ = p.offsets()
        if want is None or any(s is not None and s not in offs for s in starts):
            failing(lambda: a.save(), 'SSAR.save')
            continue
        blob, unk, names = a.save()
        got = SSAR(bytes(blob), unk, names)
        same(bytes(got.eventsData), want, 'archive data')
        same([q.firstEventOffset for _, q in got.sequences], [None if s is None else offs[s][0] for s in starts], 'entry points')
        same([(n, q.bankID) for n, q in got.sequences], [('s%d' % i, k) for i, k in enumerate(ids)], 'entries')
        ctx.step()
    ctx.state(case)


# Many entry points
def genEntries(tier):
    for n in (17, 100, 128, 257, 600):
        for places in (1, 2, n):
            for edit in ('', 'first', 'middle', 'reverse', 'remove', 'lengthen'):
                yield (n, places, edit)


def checkEntries(case, ctx):
    n, places, edit = case
    pans = [ss.PanSequenceEvent(i % 128) for i in range(n)]
    rest = ss.RestSequenceEvent(5)
    events = pans + [rest, ss.EndTrackSequenceEvent()]
    firsts = [pans[i * 7 % n % places + n // 2 - places // 2] for i in range(n)]
    a = SSAR.fromEventsAndSequences(events, [('s%d' % i, SSARSequence(f, i)) for i, f in enumerate(firsts)])
    for _ in range(2):
        size = {id(e): len(bytes(e.save())) for e in a.events}
        offs, at = {}, 0
        for e in a.events:
            offs[id(e)] = at
            at += size[id(e)]
        blob, unk, names = a.save()
        got = SSAR(bytes(blob), unk, names)
        same([q.firstEventOffset for _, q in got.sequences], [offs[id(f)] for f in firsts], 'entry points')
        same([(m, q.bankID) for m, q in got.sequences], [('s%d' % i, i) for i in range(n)], 'entries')
        got.parse()
        where, at = {}, 0
        for e in got.events:
            where[at] = e
            at += len(bytes(e.save()))
        for (_, q), f in zip(got.sequences, firsts):
            require(where[offs[id(f)]] is q.firstEvent, 'entry point after loading')
        ctx.step(2)
        if edit == 'first':
            a.events.insert(0, ss.RestSequenceEvent(300))
        elif edit == 'middle':
            a.events.insert(n // 2, ss.RestSequenceEvent(300))
        elif edit == 'reverse':
            a.events[:n] = reversed(a.events[:n])
        elif edit == 'remove':
            a.events.remove(rest)
            a.events.insert(1, rest)
        elif edit == 'lengthen':
            rest.duration = 70000
            a.events.remove(rest)
            a.events.insert(n // 3, rest)
    ctx.state(case)


# Large offsets: three-byte targets
def genFar(tier):
    for k in 'jcb':
        for pad in (0, 1, 250, 251, 252, 65530, 65531, 65532, 65536, 70000, 0x12345 - 5, 0xFFFFF0):
            yield (k, pad)


def checkFar(case, ctx):
    k, pad = case
    end = ss.EndTrackSequenceEvent()
    j = rs.make({'j': ('Jump', 0), 'c': ('Call', 0), 'b': ('BeginTrack', 1, 0)}[k], end)
    events = [j, ss.RawDataSequenceEvent(b'\xFF' * pad), end]
    if k != 'j':
        events.insert(1, ss.EndTrackSequenceEvent())
    off = len(rs.encode(('Jump', 0))) + pad if k == 'j' else (4 if k == 'c' else 5) + 1 + pad
    data, no = saveSequenceEvents(events, [end])
    same(list(no), [off], 'offset')
    head = {'j': ('Jump', off), 'c': ('Call', off), 'b': ('BeginTrack', 1, off)}[k]
    enc = rs.encode(head)
    same(bytes(data[:len(enc)]), enc, 'target')
    got, _ = readSequenceEvents(bytes(data))
    require(rs.target(got[0]) is got[-1], 'target after loading')
    ctx.step(2)
    ctx.state(case)


spaces = [
    Space('built', genBuilt, checkBuilt, 'all programs of 3 items (4 items over 3 kinds) with every choice of targets, including an event outside the list'),
    Space('twice', genTwice, checkTwice, 'two events, repeated in every list of up to 4 places'),
    Space('perm', genPerm, checkPerm, 'every reordering of %d programs' % len(BASE)),
    Space('history', genHist, checkHist, lambda tier: 'every series of up to %d edits (insert, remove, replace, move, retarget, change parameters) of %d programs'
          % ((2, len(BASE)) if tier == 'quick' else (3, 4))),
    Space('archive', genArchive, checkArchive, 'every single edit x every 1- or 2-entry archive, and 3 entries of which two are the same object, over 10 programs'),
    Space('entries', genEntries, checkEntries, 'archives of 17..600 entries at one, two or as many places x 6 edits'),
    Space('far', genFar, checkFar, 'targets at 12 distances up to 0xFFFFF0'),
]
