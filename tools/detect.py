#!/usr/bin/env python3
"""Which checks see which planted change: detect.py [-a] [seed ids...].  Runs on a scratch copy; -a runs every check on every change."""
import json, os, subprocess, sys, glob
S = '/tmp/scratch'
V = '/verif'
a = sys.argv[1:]
allc = '-a' in a
ids = [x for x in a if x != '-a'] or sorted(os.path.basename(x) for x in glob.glob(V + '/seeded/*'))
env = dict(os.environ, HOP_REPO=S, HOPSA_WORK='/tmp/hopsawork')
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    d = V + '/seeded/' + i
    if not os.path.exists(d + '/patch.diff'):
        print(i, 'no patch')
        continue
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply %s/patch.diff' % d, shell=True, cwd=S, check=True)
    res = []
    for c in (checks if allc else [prop]):
        if c not in checks:
            res.append(c + ':unclaimed')
            continue
        r = subprocess.run(['python3', V + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            res.append(c)
            if c == prop:
                line = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
                res.append('[%s]' % (line[0].strip()[:160] if line else ''))
        elif r.returncode != 0 or 'UNDECIDED' in r.stdout:
            res.append('(%s rc %d undecided %d)' % (c, r.returncode, r.stdout.count('UNDECIDED')))
    print('%-28s %s  %s' % (i, 'CAUGHT' if prop in res else 'MISSED', ' '.join(res)), flush=True)
    subprocess.run('git checkout -q -- .', shell=True, cwd=S)
