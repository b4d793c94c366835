"""Helper to record a planted bug: plant(id, property, file, [(old, new)...], needs, breaks, demo).

Edits a scratch worktree of /repo under /tmp, stores the diff, the demo and the
metadata under /verif/seeded/<id>, checks that the demo and the test suite behave
as they should, and removes the worktree again.
"""
import json, os, subprocess, sys, shutil

WT = '/tmp/plant-wt'
PY = '/opt/venv/bin/python'
OUT = '/verif/seeded'

def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)

def plant(id, prop, file, edits, needs, breaks, demo):
    sh(f'git -C /repo worktree remove --force {WT}; git -C /repo worktree prune')
    r = sh(f'git -C /repo worktree add --detach {WT} HEAD')
    assert r.returncode == 0, r.stderr
    try:
        path = os.path.join(WT, file)
        src = open(path).read()
        for old, new in edits:
            assert src.count(old) == 1, (id, src.count(old), old)
            src = src.replace(old, new)
        open(path, 'w').write(src)
        diff = sh('git diff', WT).stdout
        d = os.path.join(OUT, id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nexec /opt/venv/bin/python - <<\'EOF\'\n'
            'import sys; sys.path.insert(0, ".")\n' + demo.strip() + '\nEOF\n')
        os.chmod(d + '/demo.sh', 0o755)
        good = sh(f'bash {d}/demo.sh', '/repo')
        bad = sh(f'bash {d}/demo.sh', WT)
        tests = sh(f'{PY} -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', WT)
        ok = good.returncode == 0 and bad.returncode != 0 and ' passed' in tests.stdout and 'failed' not in tests.stdout
        print(id, prop, 'OK' if ok else 'BAD', 'good', good.returncode, 'bad', bad.returncode,
              tests.stdout.strip().splitlines()[-1:])
        if not ok:
            print(good.stderr[-600:], bad.stderr[-300:], tests.stdout[-500:])
        return ok
    finally:
        sh(f'git -C /repo worktree remove --force {WT}; git -C /repo worktree prune')
