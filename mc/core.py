"""
Exhaustive bounded exploration engine.

A check is a list of Spaces.  A Space is a finite, deterministically ordered,
size-increasing enumeration of cases (plain Python literals) and a function
that runs the real ndspy code on one case next to a reference model, and
raises Violation when they disagree.  Every case of every space is executed
(no sampling); the work is striped over forked worker processes.

Anything the code under test does wrong - wrong answers, unexpected
exceptions, not terminating, exhausting memory, not importing - is reported
as a violation together with the smallest offending case, which is stored in
a file that can be replayed on its own.
"""
import ast
import collections
import hashlib
import json
import multiprocessing
import os
import pickle
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')

CASE_CPU_S = 40        # CPU seconds one case may use
CASE_WALL_S = 240      # wall clock seconds one case may use
RUN_WALL_S = 780       # wall clock seconds for a whole quick run
MEM_BYTES = 6 << 30


class Violation(Exception):
    """The implementation disagrees with the property."""


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=400):
    try:
        s = repr(x)
    except BaseException as e:
        s = '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def raises(excTypes, fn, what):
    """fn() must raise one of excTypes; returns the exception."""
    try:
        r = fn()
    except excTypes as e:
        return e
    except Exception as e:
        raise Violation('%s: raised %s(%s), expected %s' % (
            what, type(e).__name__, short(str(e)), excTypes))
    raise Violation('%s: returned %s, expected %s' % (what, short(r), excTypes))


class Ctx:
    """Per-worker counters (merged by the parent)."""
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.perSpace = collections.Counter()
        self.samples = {}

    def state(self, x):
        """Record a visited model state (any hashable value)."""
        self.states.add(hash(x))

    def step(self, n=1):
        """Record n implementation operations compared with the model."""
        self.transitions += n

    def outcome(self, label):
        self.outcomes[label] += 1


class Space:
    def __init__(self, name, gen, check, bound):
        self.name = name      # short identifier
        self.gen = gen        # callable(tier) -> iterable of literal cases
        self.check = check    # callable(case, ctx)
        self.bound = bound    # text or callable(tier): the stated bound


def _onAlarm(signum, frame):
    raise CaseTimeout()


def runCase(space, case, ctx):
    """Run one case; returns None or a violation message."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        space.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return 'did not terminate within %d s of CPU time\n%s' % (
            CASE_CPU_S, _tb())
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, short(str(e)), _tb())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _tb():
    tb = traceback.format_exc().splitlines()
    return '\n'.join(tb[:4] + ['  ...'] + tb[-24:] if len(tb) > 30 else tb)


class KnownFindings:
    """
    known-findings.txt lines:
      known: property=<id> space=<space> case-sha=<sha> <what fails>
      fixed: property=<id> <commit> <what failed>          (suppresses nothing)
    A known line matches exactly one enumerated case.
    """
    def __init__(self, pid):
        self.known = {}
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            for line in open(path):
                if not line.startswith('known: '):
                    continue
                parts = line.strip().split(' ', 4)
                if parts[1] != 'property=' + pid:
                    continue
                self.known[(parts[2][len('space='):], parts[3][len('case-sha='):])] = parts[4]

    def match(self, spaceName, case):
        if not self.known:
            return None
        return self.known.get((spaceName, caseSha(case)))


def caseSha(case):
    return hashlib.sha256(repr(case).encode()).hexdigest()[:16]


def _enumerate(spaces, tier):
    i = 0
    for s in spaces:
        for case in s.gen(tier):
            yield i, s, case
            i += 1


def _worker(w, nw, spaces, tier, best, deadline, known, conn):
    signal.signal(signal.SIGPROF, _onAlarm)
    signal.signal(signal.SIGALRM, _onAlarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    except Exception:
        pass
    ctx = Ctx()
    found = None
    capped = False
    hits = collections.Counter()
    genError = None
    it = _enumerate(spaces, tier)
    try:
        for i, s, case in it:
            if i % nw != w:
                continue
            if i > best.value:
                break
            msg = runCase(s, case, ctx)
            ctx.traces += 1
            ctx.perSpace[s.name] += 1
            if s.name not in ctx.samples:
                ctx.samples[s.name] = short(case, 300)
            if msg is not None:
                k = known.match(s.name, case)
                if k is not None:
                    hits[k] += 1
                    continue
                found = (i, s.name, case, msg)
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                break
            if time.time() > deadline:
                capped = True
                break
    except BaseException:
        genError = traceback.format_exc()
    try:
        conn.send_bytes(pickle.dumps((ctx, found, capped, hits, genError)))
    except BaseException as e:
        conn.send_bytes(pickle.dumps((Ctx(), (found[:2] + (None, found[3])) if found else None,
                                      capped, hits, genError or repr(e))))
    conn.close()


def explore(spaces, tier, pid, nw=None):
    nw = nw or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1
    mp = multiprocessing.get_context('fork')
    best = mp.Value('q', 1 << 62)
    limit = RUN_WALL_S if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_S', '10000'))
    deadline = time.time() + limit
    known = KnownFindings(pid)
    procs = []
    for w in range(nw):
        r, s = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(w, nw, spaces, tier, best, deadline, known, s))
        p.start()
        s.close()
        procs.append((p, r))
    total = Ctx()
    found, capped, hits, errors = [], False, collections.Counter(), []
    for w, (p, r) in enumerate(procs):
        try:
            ctx, f, c, h, e = pickle.loads(r.recv_bytes())
        except (EOFError, OSError):
            p.join()
            errors.append('worker %d died (exit code %s)' % (w, p.exitcode))
            continue
        p.join()
        total.states |= ctx.states
        total.transitions += ctx.transitions
        total.traces += ctx.traces
        total.outcomes += ctx.outcomes
        total.perSpace += ctx.perSpace
        for k, v in ctx.samples.items():
            total.samples.setdefault(k, v)
        if f: found.append(f)
        if e: errors.append(e)
        capped = capped or c
        hits += h
    found.sort(key=lambda f: f[0])
    return total, found, capped, hits, errors


def writeReplay(pid, spaceName, case, msg):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.txt' % (pid, spaceName.replace(' ', '-').replace('/', '-')))
    with open(path, 'w') as f:
        f.write('# replay: cd /verif && bash run.sh replay %s\n' % path)
        f.write(repr({'property': pid, 'space': spaceName, 'case': case}) + '\n')
        f.write('# ' + msg.replace('\n', '\n# ') + '\n')
    return path


def loadCheck(pid):
    import importlib
    return importlib.import_module('checks.' + pid.lower())


def setupImports():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def main(argv):
    setupImports()
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        import ndspy
        if os.path.dirname(os.path.dirname(os.path.abspath(ndspy.__file__))) != os.path.abspath(REPO):
            raise ImportError('ndspy imported from %s' % ndspy.__file__)
        mod = loadCheck(pid)
        spaces = mod.spaces
    except (Exception, SystemExit) as e:
        msg = 'the library cannot be imported: %s' % traceback.format_exc()
        path = writeReplay(pid, 'import', None, msg)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        _evidence(pid, tier, seed, Ctx(), False, t0, 1, [], None)
        return 1
    total, found, capped, hits, errors = explore(spaces, tier, pid)
    wall = time.time() - t0
    _evidence(pid, tier, seed, total, not (capped or found or errors), t0, len(found), spaces, mod)
    for k, n in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, k, n))
    print('%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s%s' % (
        pid, tier, total.traces, len(total.states), total.transitions,
        len(total.outcomes), wall, ' (capped by time limit)' if capped else ''))
    if os.environ.get('VERIF_VERBOSE'):
        print(dict(total.perSpace)); print(total.outcomes.most_common(40))
    if found:
        i, sp, case, msg = found[0]
        path = writeReplay(pid, sp, case, msg)
        print('space %s, case %s' % (sp, short(case, 600)))
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        # A worker died or a case generator failed: the generators only use
        # the library to build inputs, so this too is a library failure.
        msg = '\n'.join(errors)
        path = writeReplay(pid, 'generator', None, msg)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def _evidence(pid, tier, seed, total, exhaustive, t0, nviol, spaces, mod):
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(total.states),
            'transitions': total.transitions,
            'traces_validated_against_impl': total.traces,
            'exhaustive': bool(exhaustive),
            'distinct_outcomes': len(total.outcomes),
            'outcomes': {str(k): v for k, v in total.outcomes.most_common(40)},
            'spaces': [{'name': s.name,
                        'bound': s.bound(tier) if callable(s.bound) else s.bound,
                        'cases': total.perSpace.get(s.name, 0)} for s in spaces],
            'samples': ['%s: %s' % kv for kv in sorted(total.samples.items())][:12],
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': nviol,
        'assumptions': list(getattr(mod, 'assumptions', [])),
    }
    tmp = os.path.join(EVIDENCE, pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))


def replay(path):
    d = None
    for line in open(path):
        if line.startswith('{'):
            d = ast.literal_eval(line)
            break
    pid = d['property']
    if d['space'] in ('import', 'generator'):
        return main([pid])
    mod = loadCheck(pid)
    for s in mod.spaces:
        if s.name == d['space']:
            signal.signal(signal.SIGPROF, _onAlarm)
            signal.signal(signal.SIGALRM, _onAlarm)
            msg = runCase(s, d['case'], Ctx())
            if msg is None:
                print('%s %s: no violation' % (pid, s.name))
                return 0
            print('case %s' % short(d['case'], 2000))
            print(msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
    print('unknown space', d['space'])
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
