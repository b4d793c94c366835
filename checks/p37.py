"""P37: saving is repeatable and objects are independent."""
import copy
import itertools
from mc.core import Space, same, require
from mc import zoo
from ndspy import (bmg, bnbl, bncl, code, fnt, graphics2D, model, narc, rom, soundArchive, soundBank, soundSequence, soundSequenceArchive,
                   soundSequencePlayer, soundStream, soundStreamPlayer, soundWave, soundWaveArchive, texture)

KINDS = zoo.BY_NAME


def genKinds(tier):
    for k in zoo.KINDS:
        for m in range(len(k.makers)):
            yield (k.name, m)


# Saving again and again

def options(kind):
    """Ways of saving, with the attributes they are documented to update."""
    save = kind.save
    if kind.name == 'overlay':
        f = ('ramSize', 'compressedSize', 'flags', 'compressed')
        return [(save, f), (lambda o: o.save(compress=True), f)]
    if kind.name == 'ROM':
        return [(save, ()), (lambda o: o.save(updateDeviceCapacity=True), ('deviceCapacity',))]
    if kind.name == 'main code':
        return [(save, ()), (lambda o: o.save(compress=True), ())]
    if kind.name == 'SWAV':
        return [(save, ()), (lambda o: o.save(updateTime=True), ('time',)), (lambda o: o.save(updateTotalLength=True), ('totalLength',))]
    if kind.name == 'STRM':
        return [(save, ()), (lambda o: o.save(updateTime=True), ('time',))]
    return [(save, ())]


def picture(o, without=()):
    s = zoo.snapshot(o)
    if without:
        s = (s[0], tuple(x for x in s[1] if x[0][1] not in without))
    return s


def checkRepeat(case, ctx):
    name, m = case
    kind = KINDS[name]
    loads = [lambda: kind.makers[m]()]
    if kind.load:
        loads.append(lambda: kind.load(kind.save(kind.makers[m]())))
    for make in loads:
        for save, updated in options(kind):
            o = make()
            before = picture(o, updated)
            first = save(o)
            keep = copy.deepcopy(first)
            same(picture(o, updated), before, '%s after saving' % name)
            afterOne = picture(o)
            second = save(o)
            same(second, first, '%s saved a second time' % name)
            same(picture(o), afterOne, '%s after saving a second time' % name)
            same(save(o), first, '%s saved a third time' % name)
            same(first, keep, '%s: what the first save returned, after further saves' % name)
            if kind.load:
                # Loading what was saved gives an object that saves the same
                b = kind.load(first)
                same(kind.save(b), kind.save(kind.load(first)), '%s loaded twice, saved' % name)
                same(first, keep, '%s: data that was loaded' % name)
            ctx.step(4)
            ctx.state((name, m, repr(before)))


# Editing one of two objects

ORIGINS = ('two made', 'two loaded', 'saved and loaded', 'loaded and saved result')


def pair(kind, m, origin):
    """Two objects with the same contents, and whatever data they came from."""
    a = kind.makers[m]()
    if origin == 'two made':
        return a, kind.makers[m](), None
    data = kind.save(a)
    if origin == 'two loaded':
        return kind.load(data), kind.load(copy.deepcopy(data)) if kind.name in SHARING else kind.load(data), data if kind.name not in SHARING else None
    if origin == 'saved and loaded':
        return a, kind.load(data), None
    b = kind.load(data)
    return b, kind.load(kind.save(b)), None


def genEdits(tier):
    for k in zoo.KINDS:
        for m in range(len(k.makers)):
            for origin in ORIGINS if k.load else ORIGINS[:1]:
                yield (k.name, m, origin)


# (parts of these may refer to one another)
LINKED = ('SSEQ', 'SSAR', 'SBNK', 'SDAT')


def changeable(x):
    """Loadable data with every bytes object replaced by a bytearray."""
    if isinstance(x, bytes):
        return bytearray(x)
    if isinstance(x, tuple):
        return tuple(changeable(y) for y in x)
    return x


def checkChangeable(case, ctx):
    """Data given as a bytearray is neither changed nor kept."""
    name, m = case
    kind = KINDS[name]
    plain = kind.save(kind.makers[m]())
    extra = [plain] if name != 'ROM' else [plain, plain[:0x15], b'', bytes(0x1FF)]
    for plain in extra:
        def load():
            d = changeable(copy.deepcopy(plain))
            return d, kind.load(d)
        d, o = load()
        same(d, changeable(plain), '%s: data that was loaded' % name)
        if name not in LINKED:
            found = {}
            for path in walkAll(o):
                other = found.setdefault(id(zoo.walk(o, path)), path)
                same(path, other, '%s: two names of one and the same part of a loaded object' % name)
        kind.save(o)
        same(d, changeable(plain), '%s: data that was loaded, after saving' % name)
        for path in zoo.sites(o):
            if name in SHARING and path and path[0] == ('attr', {'SBNK': 'waveArchiveIDs'}.get(name, 'channels')):
                continue
            d, o = load()
            zoo.spoil(zoo.walk(o, path), 0)
            same(d, changeable(plain), '%s: data that was loaded, after editing %r' % (name, path))
            ctx.step()
        d, o = load()
        saved = kind.save(o)
        before = zoo.snapshot(o)
        keep = copy.deepcopy(saved)
        for c in containers(d):
            if isinstance(c, bytearray):
                for i in range(len(c)):
                    c[i] ^= 0xFF
                c.append(5)
        same(zoo.snapshot(o), before, '%s after changing the data it was loaded from' % name)
        same(kind.save(o), keep, '%s saved after changing the data it was loaded from' % name)
        same(saved, keep, '%s: earlier result after changing the data loaded' % name)
        ctx.step(3)
    ctx.state(case)


def genChangeable(tier):
    for k in zoo.KINDS:
        if k.load:
            for m in range(len(k.makers)):
                yield (k.name, m)


# Objects in unusual states

def replacements(o, f, v):
    """Other values for one part, those of its neighbours among them."""
    if isinstance(v, bool):
        return [not v]
    if type(v) is int:
        near = set()
        for g in zoo.fields(o):
            try:
                w = getattr(o, g)
            except Exception:
                continue
            if isinstance(w, int) and not isinstance(w, bool):
                near |= {int(w), int(w) + 1, max(0, int(w) - 1)}
            elif isinstance(w, (bytes, bytearray, list)):
                near |= {len(w), len(w) // 4}
        return sorted((near | {0, 1, 2, 127, 128, 255}) - {v})
    if isinstance(v, (bytes, bytearray)):
        t = type(v)
        return [t(x) for x in (b'', bytes(len(v)), v + b'\0', v + b'\0\0\0\0', b'\xFF' * len(v), v[:-1], v[:len(v) // 2], b'\0\0\0\0' + v, v + v)]
    if type(v) is list:
        return [[], v[:1], v[:-1], v[::-1], v + v[:1], v[1:] + v[:1], v + v]
    return []


def checkUnusual(case, ctx):
    """Saving leaves objects in any state alone."""
    name, m = case
    kind = KINDS[name]
    o = kind.makers[m]()
    for path in zoo.sites(o):
        part = zoo.walk(o, path)
        if isinstance(part, (list, set, dict, bytearray)):
            continue
        for f in zoo.fields(part):
            try:
                v = getattr(part, f)
            except Exception:
                continue
            for i in range(len(replacements(part, f, v))):
                for save, updated in options(kind):
                    x = kind.makers[m]()
                    p = zoo.walk(x, path)
                    value = replacements(p, f, getattr(p, f))[i]
                    try:
                        setattr(p, f, value)
                    except Exception:
                        continue
                    before = picture(x, updated)
                    ctx.step()
                    try:
                        first = save(x)
                    except Exception:
                        continue
                    same(picture(x, updated), before, '%s with %r %s = %r, after saving' % (name, path, f, value))
                    afterOne = picture(x)
                    same(save(x), first, '%s with %r %s = %r, saved a second time' % (name, path, f, value))
                    same(picture(x), afterOne, '%s with %r %s = %r, after saving a second time' % (name, path, f, value))
    ctx.state(case)


def genLists(tier):
    for n in range(0, 5):
        for given in range(0, 5):
            for what in ('SSAR', 'SBNK', 'SSAR twice', 'SBNK twice'):
                yield (what, n, given)


def checkListArguments(case, ctx):
    """Lists that loading takes its details from are not changed by it."""
    what, n, given = case
    if what.startswith('SSAR'):
        data = zoo.ref_sdat.ssarFile([(0, i, 2, 3, 4, 5) for i in range(n)], b'\xFF\0\0\0')
        names = [('n%d' % i if i % 2 else None) for i in range(given)]
        keep = list(names)
        o = soundSequenceArchive.SSAR(data, 5, names)
        if 'twice' in what:
            o = soundSequenceArchive.SSAR(data, 5, names)
        o.sequences.append(('more', 1))
        same(names, keep, 'list of names given to an SSAR of %d sequences' % n)
    else:
        b = zoo.BY_NAME['SBNK'].makers[1]()
        data = b.save()[0]
        ids = [i if i % 2 else None for i in range(given)]
        keep = list(ids)
        o = soundBank.SBNK(data, 5, ids)
        if 'twice' in what:
            o = soundBank.SBNK(data, 5, ids)
        o.save()
        same(ids, keep, 'list of wave archives given to an SBNK')
    ctx.state(case)
    ctx.step()


# Newly created objects

NEW = {
    'ROM': rom.NintendoDSRom, 'NARC': narc.NARC, 'Folder': fnt.Folder, 'BMG': bmg.BMG, 'Message': bmg.Message, 'SSEQ': soundSequence.SSEQ,
    'SSAR': soundSequenceArchive.SSAR, 'SBNK': soundBank.SBNK, 'SWAV': soundWave.SWAV, 'SWAR': soundWaveArchive.SWAR, 'STRM': soundStream.STRM,
    'SDAT': soundArchive.SDAT, 'SequencePlayer': soundSequencePlayer.SequencePlayer, 'StreamPlayer': soundStreamPlayer.StreamPlayer, 'BNBL': bnbl.BNBL,
    'BNCL': bncl.BNCL, 'NSBTX': texture.NSBTX, 'NSBMD': model.NSBMD, 'code': lambda: code.MainCodeFile(None, 0x2000000),
    'code from none': lambda: code.MainCodeFile.fromSections([], 0x2000000), 'Section': lambda: code.MainCodeFile.Section(b'', 0, 0),
    'Overlay': lambda: code.Overlay(b'', 0, 0, 0, 0, 0, 0, 0, 0), 'NARC from none': lambda: narc.NARC.fromFilesAndNames([]),
    'palette': lambda: texture.Palette(0, 0, 0, b''), 'image tile': lambda: graphics2D.ImageTile(), 'tilemap tile': lambda: graphics2D.TilemapTile(0),
    'SSEQ from none': lambda: soundSequence.SSEQ.fromEvents([]), 'range': lambda: soundBank.RangeInstrument(60, []), 'regional': lambda: soundBank.RegionalInstrument([]),
}


def genNew(tier):
    return iter(NEW)


def checkNew(name, ctx):
    make = NEW[name]
    fresh = zoo.snapshot(make())
    a = make()
    for path in zoo.sites(a):
        for how in range(3):
            a, b = make(), make()
            target = zoo.walk(a, path)
            # (no other part of the object is the same container)
            parts = [zoo.walk(a, p) for p in zoo.sites(a)]
            names = [p for p in walkAll(a) if zoo.walk(a, p) is target]
            same(names, [path], '%s: names of one and the same part' % name)
            if isinstance(target, (list, dict, set, bytearray)):
                zoo.spoil(target, how)
                same(zoo.snapshot(b), fresh, '%s: another new object after editing %r' % (name, path))
                same(zoo.snapshot(make()), fresh, '%s: a later object after editing %r' % (name, path))
            ctx.step()
    ctx.state(name)


def walkAll(x, path=()):
    """Paths to every mutable container, objects with several paths included."""
    v = zoo.walk(x, path)
    if zoo.isContainer(v):
        if not isinstance(v, (tuple, frozenset)):
            yield path
        for s, _ in zoo.children(v):
            yield from walkAll(x, path + (s,))


def checkEdits(case, ctx):
    name, m, origin = case
    kind = KINDS[name]
    a, b, data = pair(kind, m, origin)
    for which in (0, 1):
        for path in zoo.sites((a, b)[which]):
            for how in range(3):
                x = pair(kind, m, origin)
                data = copy.deepcopy(x[2])
                fresh = zoo.snapshot(kind.makers[0]())
                mine, other = x[which], x[1 - which]
                saved = kind.save(other)
                keep = copy.deepcopy(saved)
                own = kind.save(mine)
                ownKeep = copy.deepcopy(own)
                before = zoo.snapshot(other)
                target = zoo.walk(mine, path)
                zoo.spoil(target, how)
                what = '%s: editing %s' % (name, '.'.join(str(k) for _, k in path) or 'the object')
                same(zoo.snapshot(other), before, '%s (%s) and looking at the other object' % (what, origin))
                same(kind.save(other), keep, '%s (%s) and saving the other object' % (what, origin))
                same(saved, keep, '%s: data saved before from the other object' % what)
                same(own, ownKeep, '%s: data saved before from this object' % what)
                same(x[2], data, '%s: data both were loaded from' % what)
                same(zoo.snapshot(kind.makers[0]()), fresh, '%s: objects created afterwards' % what)
                ctx.step()
                ctx.state((name, m, path, how))
    ctx.outcome(origin)


# Changing what save returned

def containers(x):
    if isinstance(x, (list, bytearray, set, dict)):
        yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from containers(y)


def checkResults(case, ctx):
    name, m = case
    kind = KINDS[name]
    for save, updated in options(kind):
        o = kind.makers[m]()
        n = len(list(containers(save(o))))
        for i in range(n):
            o = kind.makers[m]()
            want = copy.deepcopy(save(o))
            before = zoo.snapshot(o)
            got = save(o)
            zoo.spoil(list(containers(got))[i], 0)
            same(zoo.snapshot(o), before, '%s after changing what save returned' % name)
            same(save(o), want, '%s saved after changing what an earlier save returned' % name)
            ctx.step()
        # and what the object was loaded from
        if kind.load:
            data = kind.save(kind.makers[m]())
            for i in range(len(list(containers(data)))):
                data = kind.save(kind.makers[m]())
                o = kind.load(data)
                before = zoo.snapshot(o)
                zoo.spoil(list(containers(data))[i], 0)
                if name not in SHARING:
                    same(zoo.snapshot(o), before, '%s after changing the data it was loaded from' % name)
                ctx.step()
    ctx.state((name, m))


# Their constructors take over the list or set of channels or archive IDs they are given
SHARING = ('SBNK', 'sequence player', 'stream player')


# Histories on two objects: each must end up as if it were alone

def histOps(kind):
    return ['save 0', 'save 1', 'edit 0', 'edit 1', 'reload 0', 'reload 1', 'copy 0 to 1']


def step(kind, o, what, n, outs):
    if what == 'save':
        outs.append(kind.save(o))
    elif what == 'reload':
        return kind.load(kind.save(o))
    elif what == 'edit':
        edit(kind, o, n)
    else:
        kind.save(o)
    return o


def together(kind, m, ops):
    objs = [kind.makers[m](), kind.makers[m]()]
    outs = [[], []]
    for n, op in enumerate(ops):
        what, i = op.split()[:2]
        if what == 'copy':
            objs[1] = kind.load(kind.save(objs[0]))
            outs[1] = []
        else:
            objs[int(i)] = step(kind, objs[int(i)], what, n, outs[int(i)])
    return objs, outs


def alone(kind, m, ops, i):
    """The same for one of the objects, without the other ever existing next to it."""
    cut = max([n for n, op in enumerate(ops) if op.startswith('copy')], default=-1) if i else -1
    o = kind.load(kind.save(alone(kind, m, ops[:cut], 0)[0])) if cut >= 0 else kind.makers[m]()
    outs = []
    for n, op in enumerate(ops):
        what, j = op.split()[:2]
        if n > cut and int(j) == i:
            o = step(kind, o, what, n, outs)
    return o, outs


def edit(kind, o, n):
    """A sensible edit, different each time."""
    name = kind.name
    if name == 'ROM':
        o.files.append(b'new file %d' % n)
        o.filenames.files.append('n%d' % n)
        o.arm9 = bytes(o.arm9) + b'four'
    elif name == 'NARC':
        o.files.append(b'%d' % n)
        o.filenames.files.append('n%d' % n)
    elif name == 'file names':
        o.files.append('n%d' % n)
        o.folders.append(('f%d' % n, type(o)()))
    elif name == 'BMG':
        o.labels.append((n, n))
        o.instructions.append(bytes([n] * 8))
    elif name == 'main code':
        if o.sections:
            o.sections[-1].data.extend(b'word')
            o.sections[-1].bssSize += n
    elif name == 'overlay':
        o.data.append(n)
    elif name == 'SSEQ':
        o.parse()
        o.events.insert(0, soundSequence.RestSequenceEvent(n))
        if len(o.events) == 1:
            o.events.append(soundSequence.EndTrackSequenceEvent())
        o.volume = n
    elif name == 'SSAR':
        o.parse()
        o.events.insert(0, soundSequence.RestSequenceEvent(n))
        if len(o.events) == 1:
            o.events.append(soundSequence.EndTrackSequenceEvent())
        o.unk02 = n
    elif name == 'SBNK':
        o.instruments.append(soundBank.SingleNoteInstrument(soundBank.NoteDefinition(n)))
        o.waveArchiveIDs.append(n)
    elif name == 'SWAV':
        o.data = bytes(o.data) + bytes([n] * 4)
    elif name == 'SWAR':
        o.waves.append(zoo.makeSwav(1 + n))
    elif name == 'STRM':
        o.channels = o.channels or [[]]
        for c in o.channels:
            c.insert(0, bytes([n] * 8))
        if len(o.channels[0]) == 1:
            o.samplesInLastBlock = 8
        o.volume = n
    elif name == 'SDAT':
        o.sequences.append(('E%d' % n, zoo.makeSseq(1)))
        o.banks.append(('B%d' % n, zoo.makeSbnk(1)))
        for _, b in o.banks:
            if b is not None:
                b.waveArchiveIDs[0:1] = [n]
        for _, p in o.sequencePlayers:
            if p is not None:
                p.channels.add(n)
    elif name == 'sequence player':
        o.channels.add(n + 4)
    elif name == 'stream player':
        o.channels.append(n)
    elif name == 'group entry':
        o.id += n + 1
    elif name == 'BNBL':
        o.touchAreas.append(zoo.makeBnbl(1).touchAreas[0])
        o.touchAreas[-1].x = n
    elif name == 'BNCL':
        o.imagePositions.append(zoo.makeBncl(1).imagePositions[0])
        o.imagePositions[-1].x = n
    elif name in ('NSBTX', 'NSBMD'):
        o.palettes.append(('n%d' % n, zoo.makeNsbtx(2).palettes[0][1]))
        for _, t in o.palettes:
            t.colors[0] = (n, n, n, 0)


def genHistories(tier):
    for k in zoo.KINDS:
        if not k.load:
            continue
        for m in range(3 if tier == 'quick' and k.name != 'STRM' else len(k.makers)):
            if m >= len(k.makers):
                break
            for n in range(2, 5 if tier == 'quick' else 6):
                for ops in itertools.product(range(7), repeat=n):
                    yield (k.name, m, ops)


def checkHistories(case, ctx):
    name, m, nums = case
    kind = KINDS[name]
    ops = [histOps(kind)[i] for i in nums]
    objs, outs = together(kind, m, ops)
    for i in (0, 1):
        want, wantOuts = alone(kind, m, ops, i)
        text = ', '.join(ops)
        same(zoo.snapshot(objs[i]), zoo.snapshot(want), '%s: object %d after %s, compared with going through its part alone' % (name, i, text))
        same(outs[i], wantOuts, '%s: everything object %d was saved as in %s' % (name, i, text))
        same(kind.save(objs[i]), kind.save(want), '%s: object %d saved after %s' % (name, i, text))
    ctx.step(len(ops))
    ctx.state(repr((name, zoo.snapshot(objs[0]), zoo.snapshot(objs[1]))))
    ctx.outcome(name)


# Parts of a ROM: overlays and code files are separate from the ROM's files

def genRomParts(tier):
    for which in range(5):
        for ops in itertools.product(range(4), repeat=3):
            for loaded in range(3):
                yield (which, ops, loaded)


def romWithOverlays(loaded):
    r = rom.NintendoDSRom()
    r.arm9 = zoo.makeCode(1).save()
    r.arm9RamAddress = r.arm7RamAddress = 0x2000000
    r.arm7 = bytes(range(64))
    ovs = {i: code.Overlay(b'overlay %d ' % i * 3, 0x2100000, 0, 0, 0, 0, i, 0, 0) for i in range(2)}
    r.files = [bytes(o.save()) for o in ovs.values()]
    r.arm9OverlayTable = code.saveOverlayTable(ovs)
    r.arm7OverlayTable = r.arm9OverlayTable
    if loaded == 1:
        return rom.NintendoDSRom(r.save())
    if loaded == 2:
        r.files = [bytearray(f) for f in r.files]
        r.arm9, r.arm7 = bytearray(r.arm9), bytearray(r.arm7)
    return r


def part(r, which):
    if which == 0:
        return r.loadArm9()
    if which == 1:
        return r.loadArm7()
    if which == 2:
        return r.loadArm9Overlays()[1]
    if which == 3:
        return r.loadArm7Overlays()[0]
    return r.loadArm9Overlays([0])[0]


def poke(p, n):
    if isinstance(p, code.Overlay):
        p.data[n] = 0xEE
    else:
        p.sections[-1].data[n] = 0xEE


def checkRomParts(case, ctx):
    which, ops, loaded = case
    r = romWithOverlays(loaded)
    before = zoo.snapshot(r)
    saved = r.save()
    p, q = part(r, which), part(r, which)
    model = [bytearray(p.data if isinstance(p, code.Overlay) else p.sections[-1].data) for _ in range(2)]
    results = []
    for n, op in enumerate(ops):
        if op < 2:
            poke((p, q)[op], n)
            model[op][n] = 0xEE
        else:
            x = (p, q)[op - 2]
            out = x.save()
            results.append((out, bytes(out)))
        ctx.step()
        for x, w in zip((p, q), model):
            same(bytes(x.data if isinstance(x, code.Overlay) else x.sections[-1].data), bytes(w), 'contents of the loaded part')
    for out, want in results:
        same(bytes(out), want, 'what was saved before further edits')
    same(zoo.snapshot(r), before, 'ROM after editing parts loaded from it')
    same(r.save(), saved, 'ROM saved after editing parts loaded from it')
    ctx.state((which, ops, loaded))


spaces = [
    Space('repeated saving', genKinds, checkRepeat, '22 kinds of object x 2-5 examples, made and loaded, x every way of saving, three times'),
    Space('unusual states', genKinds, checkUnusual, '22 kinds x 2-5 examples x each number, flag, data and list inside replaced by edge values and by those of its neighbours, saved in every way, twice'),
    Space('list arguments', genLists, checkListArguments, 'SSARs and SBNKs loaded with 0-4 names or numbers'),
    Space('new objects', genNew, checkNew, '29 ways of creating an object x every mutable part x 3 changes'),
    Space('changeable data', genChangeable, checkChangeable, '20 kinds x 2-5 examples loaded from data given as bytearrays (ROMs also cut short) x every mutable part'),
    Space('single edits', genEdits, checkEdits, '22 kinds x 2-5 examples x 4 origins of a pair of objects x every mutable part of either object x 3 changes'),
    Space('results', genKinds, checkResults, '22 kinds x 2-5 examples x every way of saving x every mutable part of the result and of the loaded data'),
    Space('histories', genHistories, checkHistories, lambda tier: '20 kinds x 2-3 examples x every history of 2 to %d steps out of 7 (save, edit, reload either; copy)' % (4 if tier == 'quick' else 5)),
    Space('ROM parts', genRomParts, checkRomParts, '3 kinds of ROM (new, loaded, with bytearrays) x 5 ways of loading code twice x every history of 3 edits and saves'),
]
