"""P39: named-list helpers find and replace exactly the first match."""
import itertools

from mc.core import Space, same, require, raises
import ndspy
from ndspy import findInNamedList, indexInNamedList, setInNamedList

# None is a real name (unnamed SDAT entries), and so is the empty string
NAMES = [None, '', 'a', 'A', 'aa', 'a ']
VALUES = [None, 0, '', 'v', (), []]
MISSING = ['zz', 0, False, ' a', 'a\0', ('a',)]


class Value:
    """A value that is equal to nothing, and one that is equal to everything."""
    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        return self.answer

    __hash__ = object.__hash__


def genLists(tier):
    top = 5 if tier == 'quick' else 7
    for n in range(top + 1):
        for names in itertools.product(range(len(NAMES)), repeat=n):
            yield names


def build(names, how):
    out = []
    for i, n in enumerate(names):
        v = [VALUES[i % len(VALUES)], Value(False), Value(True), NAMES[n]][how]
        out.append((NAMES[n], v))
    return out


def fresh(name):
    """An equal name that is another object."""
    return ''.join(list(name)) if name else name


def identical(got, want, what):
    same(len(got), len(want), what + ': length')
    for i, (g, w) in enumerate(zip(got, want)):
        require(len(g) == 2 and g[0] == w[0] and g[1] is w[1], '%s: entry %d is %r instead of %r', what, i, g, w)


def firstMatch(L, name):
    for i in range(len(L)):
        if L[i][0] == name:
            return i
    return None


def checkLists(case, ctx):
    for how in range(4):
        original = build(case, how)
        for name in NAMES + MISSING:
            L = list(original)
            want = firstMatch(original, name)
            if want is None:
                for fn, what in ((lambda: indexInNamedList(L, name), 'index of a missing name'),
                                 (lambda: findInNamedList(L, name), 'value of a missing name'),
                                 (lambda: setInNamedList(L, name, 'new'), 'replacing a missing name')):
                    raises(KeyError, fn, '%s (%r in %r)' % (what, name, original))
                identical(L, original, 'list after looking for a missing name')
                ctx.outcome('missing')
                ctx.step(3)
                continue
            name = fresh(name)
            got = indexInNamedList(L, name)
            require(type(got) is int and got == want, 'index of %r in %r is %r instead of %r', name, original, got, want)
            require(findInNamedList(L, name) is original[want][1], 'value of %r in %r', name, original)
            identical(L, original, 'list after a lookup')
            new = Value(bool(how % 2)) if how else None
            keep = [id(e) for e in L]
            setInNamedList(L, name, new)
            expected = list(original)
            expected[want] = (original[want][0], new)
            identical(L, expected, 'list %r after replacing %r' % (original, name))
            same([i for i in range(len(L)) if i != want and id(L[i]) != keep[i]], [], 'other entries that were replaced')
            require(findInNamedList(L, name) is new, 'value of %r after replacing it', name)
            same(indexInNamedList(L, name), want, 'index after replacing')
            ctx.step(5)
            ctx.outcome('first' if want == 0 else 'last' if want == len(L) - 1 else 'middle')
    ctx.state(case)


def genHistories(tier):
    depth = 3 if tier == 'quick' else 4
    ops = [(op, n) for op in ('set', 'find', 'index') for n in range(4)]
    for names in itertools.product(range(3), repeat=3):
        for h in itertools.product(range(len(ops)), repeat=depth):
            yield (names, h)


def checkHistory(case, ctx):
    names, h = case
    ops = [(op, n) for op in ('set', 'find', 'index') for n in range(4)]
    words = ['', 'x', None, 'gone']
    L = [(words[n], i) for i, n in enumerate(names)]
    model = [list(e) for e in L]
    for step, k in enumerate(h):
        op, n = ops[k]
        at = firstMatch(model, words[n])
        if at is None:
            raises(KeyError, lambda: {'set': lambda: setInNamedList(L, words[n], step), 'find': lambda: findInNamedList(L, words[n]),
                                      'index': lambda: indexInNamedList(L, words[n])}[op](), 'missing name')
        elif op == 'set':
            setInNamedList(L, words[n], 100 + step)
            model[at][1] = 100 + step
        elif op == 'find':
            same(findInNamedList(L, words[n]), model[at][1], 'value found')
        else:
            same(indexInNamedList(L, words[n]), at, 'index found')
        same([tuple(e) for e in L], [tuple(e) for e in model], 'list after step %d' % step)
        ctx.step()
        ctx.state(tuple(map(tuple, model)))
    ctx.outcome(ops[h[-1]][0])


def genLong(tier):
    for n in (2, 127, 128, 255, 256, 257, 1000, 1001, 4097, 65537):
        for at in sorted({0, 1, n // 2, n - 2, n - 1}):
            yield (n, at)


def checkLong(case, ctx):
    n, at = case
    for dup in (False, True):
        L = [('n%d' % i, object() if i % 2 else None) for i in range(n)]
        if dup:
            L.append(('n%d' % at, object()))
        original = list(L)
        same(indexInNamedList(L, 'n%d' % at), at, 'index')
        require(findInNamedList(L, 'n%d' % at) is original[at][1], 'value')
        setInNamedList(L, 'n%d' % at, 5)
        original[at] = ('n%d' % at, 5)
        identical(L, original, 'list after replacing')
        ctx.step(3)
    ctx.state(case)
    ctx.outcome('long')


spaces = [
    Space('lists', genLists, checkLists,
          lambda t: 'every list of up to %d entries over 6 names (None and "" included), 12 searched names and 4 kinds of values' % (5 if t == 'quick' else 7)),
    Space('histories', genHistories, checkHistory, lambda t: 'every sequence of %d helper calls on every list of 3 entries' % (3 if t == 'quick' else 4)),
    Space('long lists', genLong, checkLong, 'lists up to 65538 entries'),
]
