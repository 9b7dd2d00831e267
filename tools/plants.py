"""Runs the check of each planted bug's property against it: plants.py OUT.tsv [ID...]

Applies /verif/seeded/ID/patch.diff to /repo, runs the quick check, undoes the patch. /repo must be clean."""
import json, os, re, subprocess, sys, time


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


out = sys.argv[1]
ids = sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    assert sh(f'git -C /repo apply {d}/patch.diff').returncode == 0, i
    t = time.time()
    try:
        r = sh(f'python3 check.py {prop}', cwd='/verif')
    finally:
        sh('git -C /repo checkout -- .')
    v = re.findall(r'VIOLATION property=(\S+) replay=\S*/\w+?-(\S+?)-(\d+)-(\d+)\.replay', r.stdout)
    runs = re.findall(r'quick: (\d+) runs', r.stdout)
    with open(out, 'a') as f:
        f.write('\t'.join([i, prop, str(r.returncode), ';'.join(f'{x[1]} at run {x[3]}' for x in v) or r.stdout[-200:].replace('\n', ' '), runs[0] if runs else '', '%.0f s' % (time.time() - t)]) + '\n')
