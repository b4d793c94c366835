"""P42: the stand-alone tools convert filename tables, archives and LZ10 files faithfully."""
import contextlib
import io
import itertools
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from mc.core import Space, Violation, same, require, REPO
from mc import ref_fs as fs
from mc import ref_lz
from ndspy import lz10, narc, rom

FOLDER = os.path.join(REPO, 'tools')


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='p42-')
    back = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d)


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def get(name):
    with open(name, 'rb') as f:
        return f.read()


def listing():
    return {os.path.join(p, f)[2:]: get(os.path.join(p, f)) for p, _, fs_ in os.walk('.') for f in fs_}


def run(tool, args, process=False):
    """Run a tool like "python3 tools/<tool>.py <args>"; None, or what it failed with."""
    script = os.path.join(FOLDER, tool + '.py')
    if process:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, script] + args, env=env, capture_output=True, text=True)
        return None if r.returncode == 0 else 'exit status %d: %s' % (r.returncode, r.stderr[-300:])
    was = sys.argv, list(sys.path), sys.modules.pop('_common', None)
    sys.argv = [script] + args
    sys.path.insert(0, FOLDER)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(script, run_name='__main__')
    except (Exception, SystemExit) as e:
        if not (isinstance(e, SystemExit) and e.code in (None, 0)):
            return '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv, sys.path[:] = was[0], was[1]
        sys.modules.pop('_common', None)
        if was[2] is not None:
            sys.modules['_common'] = was[2]
    return None


def works(tool, args, process=False):
    fail = run(tool, args, process)
    require(fail is None, '%s %s fails: %s', tool, ' '.join(args), fail)


# --- filename tables ---------------------------------------------------------
def toDict(m, full):
    d = {'first_id': m[2]}
    if m[0] or full:
        d['files'] = list(m[0])
    if m[1] or full:
        d['folders'] = [[n, toDict(f, full)] for n, f in m[1]]
    return dict(reversed(d.items())) if full else d


def fromDict(d):
    require(isinstance(d, dict) and 'first_id' in d, 'not a folder: %s', d)
    require(set(d) <= {'first_id', 'files', 'folders'}, 'keys of a folder: %s', sorted(d))
    return (tuple(d.get('files', [])), tuple((n, fromDict(f)) for n, f in d.get('folders', [])), d['first_id'])


def filesFor(m, extra):
    n = max([i + 1 for _, i in fs.filesOf(m)] or [0]) + extra
    return tuple(bytes([i % 256]) * (i % 5) for i in range(n))


def makeRom(m, extra, **kw):
    files = filesFor(m, extra)
    kw.setdefault('order', tuple(range(len(files)))[::-1 if extra else 1])
    return fs.romEncode(fs.romModel(files=files, filenames=m, arm9=b'NINE' * 20, arm7=b'SEVEN' * 9,
                                    name=b'EXAMPLE', idCode=b'ABCD', developerCode=b'01', **kw))


def makeInput(form, m, variant):
    if form == 'b':
        return fs.fntEncode(m, ('standard', 'bfs')[variant])
    if form == 'j':
        return json.dumps(toDict(m, variant), indent=None if variant else 2, ensure_ascii=not variant).encode('utf-8')
    if form == 'n':
        return fs.narcEncode(filesFor(m, variant), m, '<>'[variant])
    return makeRom(m, variant)


def judge(form, m, got, before):
    """What a tool wrote."""
    if form == 'b':
        same(fs.fntDecode(got), m, 'table written')
    elif form == 'j':
        same(fromDict(json.loads(got.decode('utf-8'))), m, 'table written as JSON')
    elif form == 'n':
        end, files, _ = fs.narcDecode(before)
        same(fs.narcDecode(got), (end, files, m), 'archive (byte order, files, names)')
        n = narc.NARC(before)
        n.filenames = fs.toNdspy(m)
        same(got, bytes(n.save()), 'archive')
    else:
        r = rom.NintendoDSRom(before)
        new = rom.NintendoDSRom(got)
        same(fs.fromNdspy(new.filenames), m, 'names in the ROM')
        same([bytes(f) for f in new.files], [bytes(f) for f in r.files], 'files of the ROM')
        for k in tuple(fs.HEADER) + fs.PARTS:
            same(getattr(new, k), getattr(r, k), k)
        r.filenames = fs.toNdspy(m)
        same(got, bytes(r.save()), 'ROM')


LONG = {'b': 'bin', 'j': 'json', 'r': 'rom', 'n': 'narc'}
OTHER = ((('old', 'names'), (('folder', (('x',), (), 2)),), 0), ((), (), 0))


def convert(m, a, b, variant, ctx, long=False, process=False, samefile=False):
    src = makeInput(a, m, variant)
    before = {'n': lambda: fs.narcEncode((b'one', b'', b'three'), OTHER[variant], '<>'[1 - variant]),
              'r': lambda: makeRom(OTHER[variant], 1, iconBanner=b'', arm9PostData=b'')}.get(b, lambda: (b'old' * 1000, None)[variant])()
    if samefile:
        before = src
    with scratch():
        put('in', src)
        out = 'in' if samefile else 'out'
        if before is not None:
            put(out, before)
        flags = ['--input_' + LONG[a], '--output_' + LONG[b]] if long else ['-i' + a, '-o' + b]
        args = (flags + ['in', out], ['in', out] + flags, ['in'] + flags + [out])[(variant + len(m[0])) % 3]
        works('fnttool', args, process)
        after = listing()
        same(sorted(after), sorted({'in', out}), 'files afterwards')
        if not samefile:
            same(after['in'], src, 'input file')
        judge(b, m, after[out], before)
        ctx.step()


FORMS = 'bjnr'


def genTables(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2) if n < 4 else (0, 1), repeat=n):
                for names, ids in (('distinct', 'seq'), ('repeat', 'rev'), ('clash', 'gap')):
                    yield (shape, counts, names, ids)


def checkTables(case, ctx):
    m = fs.buildTree(*case)
    k = len(m[0]) + len(m[1]) + sum(case[1])
    for i, (a, b) in enumerate(itertools.product(FORMS, repeat=2)):
        if 'r' in (a, b) and (i + k) % 4 and len(case[1]) > 2:
            continue
        convert(m, a, b, (i + k) % 2, ctx, (i + k) % 3 == 0)
        ctx.outcome(a + '>' + b)
    ctx.state(case)


# Names of all kinds
def genNames(tier):
    for c in range(1, 256):
        yield chr(c)
    for n in (1, 2, 16, 100, 126, 127):
        yield 'x' * n
    for x in ('a.b', 'null', '\\', '"', 'first_id', 'files', 'folders', '\\u0041', "'", '[', '{}', ' a ', '\xff\xfe', 'a"b\\c'):
        yield x


def checkNames(name, ctx):
    for k in range(2):
        m = ((name, 'p'), ((name + 'q' if len(name) < 127 else name, (('r', name), (), 2)),), 0) if k else (('p',), ((name, ((), ((name, ((name,), (), 1)),), 1)),), 0)
        for a, b in itertools.product('bjn', repeat=2):
            convert(m, a, b, k, ctx)
    ctx.state(name)


# First IDs and large tables
def genLarge(tier):
    for first in (1, 255, 256, 4095, 32767, 32768, 65535):
        yield ('first', first)
    for n in (127, 128, 255, 256, 1000, 3000):
        yield ('files', n)
        yield ('folders', n)
    for n in (10, 50, 100):
        yield ('deep', n)


def checkLarge(case, ctx):
    kind, n = case
    if kind == 'first':
        m = ((), (('a', (('x',), (), n)), ('b', ((), (), n))), 0)
    elif kind == 'files':
        m = (tuple('f%d' % i for i in range(n)), (('a', (('x',), (), n)),), 0)
    elif kind == 'folders':
        m = (('x',), tuple(('d%d' % i, ((str(i),), (), i + 1)) for i in range(n)), 0)
    else:
        m = (('x',), (), n)
        for i in range(n):
            m = (('x%d' % i,), (('d', m),), n - i - 1)
    for a, b in itertools.product('bj', repeat=2):
        convert(m, a, b, 0, ctx)
        convert(m, a, b, 1, ctx)
    for a, b in ('nj', 'bn', 'jn', 'rj', 'jr') if n < 2000 else ():
        convert(m, a, b, n % 2, ctx)
    ctx.state(case)


# Into the same file, every form of the command line, and as a separate process
def genForms(tier):
    for a, b in itertools.product(FORMS, repeat=2):
        for variant in (0, 1):
            for long in (False, True):
                for process in (False, True):
                    yield (a, b, variant, long, process, False)
        if b in 'bj' or a == b:
            yield (a, b, 0, False, False, True)


def checkForms(case, ctx):
    a, b, variant, long, process, samefile = case
    for m in (((), (('d', (('a',), (), 0)), ('d', (('b', 'b'), (), 1)), ('e', ((), (), 3)), ('d', ((), (), 3))), 0), (('a', 'b'), (('d', (('c',), (('e', ((), (), 3)),), 2)),), 0), OTHER[1], (('x',), (), 0)):
        convert(m, a, b, variant, ctx, long, process, samefile)
    ctx.state(case)


# --- LZ10 --------------------------------------------------------------------
RAW = [b'', b'\0', b'a', b'abcabcabcabc' * 9, bytes(range(256)) * 3, b'\x10' + bytes(range(40)), b'\x10' * 50, b'\x11\x10',
       b'\x0f' + b'z' * 30, b'\x0f' * 9, b'\xff' * 300, b'q' * 70000]


def genLz(tier):
    for k in range(len(RAW)):
        for kind in ('raw', 'packed'):
            for flag in ('', '-c', '--compress', '-d', '--decompress'):
                for name in ('file', 'file.bin', 'file.lz10', 'a.b/c'):
                    for out in (None, 'result', 'file.out', 'IN'):
                        yield (k, kind, flag, name, out)


def checkLz(case, ctx):
    k, kind, flag, name, out = case
    data = RAW[k] if kind == 'raw' else bytes(lz10.compress(RAW[k]))
    packing = flag in ('-c', '--compress') if flag else data[:1] != b'\x10'
    lib = lz10.compress if packing else lz10.decompress
    try:
        want = bytes(lib(data))
    except Exception:
        want = None
    if kind == 'packed' and not packing:
        require(want == RAW[k], 'decompression of the example')
    if name == out:
        return
    with scratch():
        os.makedirs('a.b')
        put(name, data)
        out = name if out == 'IN' else out
        target = out or name + ('.lz10' if packing else '.raw')
        old = b'previous' * 20000 if k % 2 else None
        if old and target != name:
            put(target, old)
        before = listing()
        pos = [name] + ([out] if out else [])
        args = ([flag] if flag else []) + pos if k % 3 else pos + ([flag] if flag else [])
        process = name == 'file' and out is None and k in (0, 3, 5)
        fail = run('lz10tool', args, process)
        if want is None:
            require(fail is not None, 'data that cannot be decompressed is accepted')
            same(listing(), before, 'files after a failure')
            ctx.outcome('refused')
        else:
            require(fail is None, 'lz10tool %s fails: %s', ' '.join(args), fail)
            same(listing(), dict(before, **{target: want}), 'files afterwards')
            if packing:
                same(bytes(lz10.decompress(get(target))), data, 'decompressed again')
            ctx.outcome('packed' if packing else 'unpacked')
        ctx.step()
    ctx.state(case)


# --- archives ----------------------------------------------------------------
def genNarc(tier):
    for n in (1, 2, 3):
        for shape in fs.treeShapes(n):
            for counts in itertools.product((0, 1, 2), repeat=n):
                for names, ids in (('distinct', 'seq'), ('repeat', 'rev'), ('repeat', 'seq')):
                    for where in (None, 'there', 'new'):
                        yield (shape, counts, names, ids, where)
    for n in (9, 10, 11, 100, 999, 1000, 1001, 9999, 10000, 10001):
        yield ('many', n, 'new')
    for c in range(1, 256):
        if chr(c) not in './':
            yield ('name', chr(c), (None, 'there', 'new')[c % 3])
    for n in range(2, 118):
        yield ('name', 'x' * n, 'new')
    for x in ('a.b', '...', '.hidden', ' ', 'a b ', '-l', 'filenames.json', 'file_0000_a', '~', '%s', '{}', 'a\\b', 'FILENAMES.JSON'):
        yield ('name', x, 'there')
    for k in range(len(RAW)):
        yield ('data', k, 'new')


def checkNarc(case, ctx):
    where = case[-1]
    files = None
    if case[0] == 'many':
        m = (('x',), (('folder', (tuple('f%d' % i for i in range(case[1] - 1)), (), 1)),), 0)
    elif case[0] == 'name':
        m = ((case[1], case[1] + 'q'), ((case[1] + 'd', ((case[1],), ((case[1], (('a', case[1]), (), 3)),), 2)),), 0)
    elif case[0] == 'data':
        m = (('a', 'b'), (('c', (('d',), (), 2)),), 0)
        files = (RAW[case[1]], RAW[case[1]], RAW[case[1] - 1])
    else:
        m = fs.buildTree(*case[:-1])
    files = files or filesFor(m, 0)
    names = {i: p[-1] for p, i in fs.filesOf(m)}
    same(sorted(names), list(range(len(files))), 'the example')
    data = fs.narcEncode(files, m, '<')
    with scratch():
        put('x.narc', data)
        out = where or 'x.narc.dir'
        want = {'x.narc': data}
        if where == 'there':
            os.makedirs(out)
            put(out + '/other', b'kept')
            put(out + '/filenames.json', b'[' * 9999)
            want[out + '/other'] = b'kept'
        for flags in (['-l'], ['-e', '--lowlevel'], ['--extract', '-l'])[:1 if case[0] == 'many' else 3]:
            works('narctool', ['x.narc'] + ([where] if where else []) + flags, False)
            got = listing()
            table = got.pop(out + '/filenames.json', None)
            require(table is not None, 'filenames.json is missing')
            same(fromDict(json.loads(table.decode('utf-8'))), m, 'names written')
            same(got, dict(want, **{'%s/file_%04d_%s' % (out, i, names[i]): f for i, f in enumerate(files)}), 'files written')
            ctx.step()
    ctx.state(case)


# --- bad calls ---------------------------------------------------------------
def genBad(tier):
    for form in 'rn':
        for a in FORMS:
            yield ('fnttool', ['-i' + a, '-o' + form, 'in' + a, 'missing'])
    for flags in ([], ['-ib'], ['-oj'], ['-ib', '-ij', '-ob'], ['-ib', '-ob', '-oj'], ['-ix', '-ob']):
        yield ('fnttool', flags + ['inb', 'out'])
    for a, b in itertools.product(FORMS, repeat=2):
        yield ('fnttool', ['-i' + a, '-o' + b, 'missing', 'in' + b])
        yield ('fnttool', ['-i' + a, '-o' + b, 'in' + a])
    for a in 'jn':
        yield ('fnttool', ['-i' + a, '-oj', 'junk', 'inj'])
        yield ('fnttool', ['-i' + a, '-on', 'junk', 'inn'])
    yield ('fnttool', ['-ib', '-on', 'inb', 'junk'])
    for flags in ([], ['-c'], ['-d']):
        yield ('lz10tool', flags)
        yield ('lz10tool', flags + ['missing'])
        yield ('lz10tool', flags + ['missing', 'inb'])
    yield ('lz10tool', ['-c', '-d', 'junk'])
    yield ('lz10tool', ['-d', 'junk', 'inb'])
    yield ('narctool', ['missing', '-l'])
    yield ('narctool', ['missing'])
    yield ('narctool', ['-e', '-p', '-l', 'inn'])
    yield ('narctool', [])


def checkBad(case, ctx):
    tool, args = case
    with scratch():
        for form in FORMS:
            put('in' + form, makeInput(form, OTHER[0], 0))
        put('junk', b'this is nothing of the kind' * 4)
        before = listing()
        fail = run(tool, args)
        require(fail is not None, '%s %s succeeds', tool, ' '.join(args))
        same(listing(), before, 'files after a failure')
    ctx.step()
    ctx.state((tool,) + tuple(args))


spaces = [
    Space('forms', genForms, checkForms, 'all 16 pairs of input and output form x option spelling x separate process or not x four tables; output over the input'),
    Space('tables', genTables, checkTables, lambda t: 'all trees of up to %d folders with 0..2 files each x three namings x the 16 pairs of forms (ROMs thinned out)' % (4 if t == 'quick' else 5)),
    Space('names', genNames, checkNames, 'names of every single character and 20 others x 9 pairs of forms'),
    Space('large', genLarge, checkLarge, 'up to 3000 files or folders, up to 100 levels, first IDs up to 65535'),
    Space('lz10', genLz, checkLz, '12 contents, raw and compressed x 5 options x 4 names x 4 output names'),
    Space('narc', genNarc, checkNarc, 'all trees of up to 3 folders with 0..2 files each, archives of up to 10001 files, files of every one-character name, names of up to 117 characters, 12 contents x three ways to name the output'),
    Space('bad', genBad, checkBad, '66 command lines that cannot work'),
]
assumptions = ['of the archive tool only the low-level extraction is claimed, for archives whose files all have names that can be used as file names; the rest is unfinished']
