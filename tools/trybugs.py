"""Apply each planted bug to a scratch copy of /repo in turn and run its property's quick check on it.

usage: trybugs.py [id ...]      (developer helper; no registered check uses it)
"""
import json, os, shutil, subprocess, sys, time
root = '/verif/seeded'
WT = '/tmp/trybugs-wt'
ids = sys.argv[1:] or sorted(os.listdir(root))
for i in ids:
    d = f'{root}/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(WT, ignore_errors=True)
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', WT], check=True)
        r = subprocess.run(['git', '-C', WT, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            print(i, prop, 'DOES NOT APPLY', r.stderr[:200]); continue
        t = time.time()
        r = subprocess.run(['bash', '/verif/run.sh', prop, 'quick'], capture_output=True, text=True, cwd='/verif',
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=WT))
    finally:
        shutil.rmtree(WT, ignore_errors=True)
    hit = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
    print(f'{i:28s} {prop} {"caught" if hit else "MISSED rc=%d" % r.returncode} {time.time()-t:.1f}s', flush=True)
