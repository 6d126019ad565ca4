#!/usr/bin/env python3
"""Quick experiments: mut.py SPEC.py [-j N] [name...].  SPEC defines M = [(name, [(file, old, new), ...], 'checks that must alarm', 'checks that must stay quiet'), ...].
Each is applied to a scratch copy and the checks named are run on it; nothing is kept."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
V = '/verif'
args = sys.argv[1:]
j = 4
if '-j' in args:
    i = args.index('-j')
    j = int(args[i + 1])
    del args[i:i + 2]
ns = {}
exec(open(args[0]).read(), ns)
M = [m for m in ns['M'] if len(args) == 1 or m[0] in args[1:]]
slots = queue.Queue()
for n in range(j):
    S = '/tmp/mut%d' % n
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', '/repo', S])
    slots.put(S)


def run(m):
    name, edits, alarm, quiet = m
    S = slots.get()
    try:
        subprocess.run('git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=S)
        for f, old, new in edits:
            p = os.path.join(S, f)
            s = open(p).read()
            if old not in s:
                return '%-30s NO MATCH in %s: %r' % (name, f, old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, HOP_REPO=S, HOPSA_WORK=S + '.work', HOPSA_EVID=S + '.ev')
        out = []
        bad = False
        for c in alarm.split() + quiet.split():
            r = subprocess.run(['python3', V + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.split('\n') if l.startswith('  ')]
            und = [l for l in r.stdout.split('\n') if l.startswith('UNDECIDED')]
            want = c in alarm.split()
            good = r.returncode == (1 if want else 0)
            bad |= not good
            err = '' if r.returncode in (0, 1) and 'FactsError' not in r.stdout and 'driver' not in r.stdout else ' ' + r.stdout[-600:].replace('\n', ' | ')
            out.append('   %s %s rc%d %s%s%s' % ('ok ' if good else 'BAD', c, r.returncode, lines[0].strip()[:170] if lines else '', ' U%d %s' % (len(und), und[0][:150]) if und else '', err))
        return '%-30s %s\n%s' % (name, 'BAD' if bad else 'ok', '\n'.join(out))
    finally:
        slots.put(S)


with ThreadPoolExecutor(j) as ex:
    for r in ex.map(run, M):
        print(r, flush=True)
