#!/usr/bin/env python3
"""Mutation of single tokens and statements all over the sources: auto.py OUT [-j N] [-n COUNT] [-s SEED] [path-prefix ...].
Each mutant that compiles is given to the checks, those about its file first; one that no check reports is given to the tests.  What survives both is listed for reading: it is either the
same program or a change the checks miss."""
import os, random, re, subprocess, sys, queue, json
from concurrent.futures import ThreadPoolExecutor
V, R = '/verif', '/repo'
args = sys.argv[1:]


def opt(n, d):
    if n in args:
        i = args.index(n)
        v = args[i + 1]
        del args[i:i + 2]
        return int(v)
    return d


j, count, seed = opt('-j', 6), opt('-n', 100), opt('-s', 1)
OUT, only = args[0], args[1:]
KT = ['Bytes', 'Boolean', 'Float', 'Integer', 'String', 'List', 'Map', 'Set']
SWAPS = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('+= ', '-= '), ('-= ', '+= '),
         (' as u8', ' as i8 as u8'), ('true', 'false'), ('false', 'true'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('is_ok()', 'is_err()'), ('is_err()', 'is_ok()'),
         ('.is_empty()', '.len() < 2'), ('to_be_bytes', 'to_le_bytes'), ('from_be_bytes', 'from_le_bytes'), ('break', 'continue'), ('continue', 'break'), ('saturating_', 'wrapping_'),
         ('checked_', 'overflowing_'), ('..=', '..'), ('.min(', '.max('), ('.max(', '.min('), ('if !', 'if '), ('if ', 'if !'), ('.all(', '.any('), ('.any(', '.all('), ('unwrap_or_default()', 'unwrap()'),
         ('.first()', '.last()'), ('.last()', '.first()'), ('.rev()', ''), ('.skip(1)', ''), ('.get(0)', '.get(1)'), ('.filter(', '.filter(|_| true).filter('), ('_or_else(', '_or_else(')]


def mutants(path):
    src = open(os.path.join(R, path)).read()
    cut = src.find('#[cfg(test)]\nmod tests')
    body = src if cut < 0 else src[:cut]
    lines = body.split('\n')
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or 'const ' in s and 'fn' in s or s.startswith(('//', 'use ', '#', 'pub use', 'mod ', 'pub mod', 'extern', '*', 'assert_impl')) or 'unreachable' in s:
            continue
        code = l.split('//')[0]
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if a in ('true', 'false', 'break', 'continue') and re.match(r'\w', code[m.end():m.end() + 1] or ' ') or a == b:
                    continue
                if a in (' + ', ' - ') and re.search(r"impl<|struct |where|fn |Send|: Backend|dyn |: '", code):
                    continue
                if a == 'if ' and ('let' in code[m.end():m.end() + 4] or '=>' in code or code[m.end():m.end() + 1] == '!'):
                    continue
                yield n, l[:m.start()] + b + l[m.end():]
        for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.])', code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}:
                yield n, l[:m.start()] + str(w) + l[m.end():]
        if re.match(r'^[\w.*]+(\(|\.|\s*[+-]?=[^=])', s) and s.endswith(';') and not s.startswith(('let ', 'return', 'pub', 'const', 'type', 'static', 'break', 'continue')) and s.count('(') == s.count(')'):
            yield n, ''
        if s.startswith('return ') and s.endswith(';'):
            yield n, ''
        for m in re.finditer(r'(KeyType|Value|ResponseType|DispatchError|CommandId|Error|ParseError|Self|Metric|InnerProcessError|Response|Stage|KeyNotation|ArgumentNotation|LookupType|ArgumentInput|Instruction)::([A-Z]\w+)', code):
            yield n, ('VAR', m.group(1), m.group(2), m.start(2), m.end(2))
        for m in re.finditer(r'\.clone\(\)\?|\)\?', code):
            pass


def others(path, kind, name, all_):
    alt = sorted(v for k, v in all_ if k == kind and v != name)
    return alt


def gather():
    fs = [f for f in subprocess.run(['git', 'ls-files', '*.rs'], cwd=R, stdout=subprocess.PIPE, text=True).stdout.split() if 'bench' not in f and (not only or any(f.startswith(o) for o in only))]
    out = []
    rnd = random.Random(seed)
    for f in fs:
        src = open(os.path.join(R, f)).read().split('#[cfg(test)]\nmod tests')[0]
        used = set(re.findall(r'(\w+)::([A-Z]\w+)', src))
        for n, m in mutants(f):
            if isinstance(m, tuple):
                _, kind, name, a, b = m
                alt = [v for v in KT if v != name] if kind in ('KeyType', 'Value') and name in KT else sorted(v for k, v in used if k == kind and v != name)
                if not alt:
                    continue
                l = src.split('\n')[n]
                out.append((f, n, l[:a] + rnd.choice(alt) + l[b:]))
            else:
                out.append((f, n, m))
    rnd.shuffle(out)
    return out


FIRST = [('client/src/backend', 'B01 B04 B03 B07 E01'), ('client/src/request', 'B02 E01 V02'), ('client/src', 'B02 B07 V01'), ('cli/lib/src/parse', 'L02 E01'), ('cli/lib/src/p', 'L03 L01 E01'), ('cli/bin', 'L04'),
         ('server/', 'B05 B06'), ('lib/timer', 'T01 V02'), ('lib/metrics', 'M01'), ('engine/src/command/impl', 'C01 C16 C17 C02 C06 C07 C05 C10 C09 C12 C13 C11 C03 C04 C08'),
         ('engine/src/command/request/builder', 'W02 W06 E01 V02'), ('engine/src/command/request', 'W03 W02'), ('engine/src/command/response', 'W04 W05 C02'), ('engine/src/command/', 'W01 E01 W03 C12 L02'),
         ('engine/src/session', 'C14'), ('engine/src/pubsub', 'C15 P01'), ('engine/src/state', 'V01 W01 C01 V02'), ('engine/src', 'H01 M01 C12 C13')]
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
slots = queue.Queue()
for i in range(j):
    S = '/tmp/auto/w%d' % i
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', R, S])
    slots.put(S)


def run(m):
    f, n, new = m
    S = slots.get()
    try:
        subprocess.run('git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=S)
        p = os.path.join(S, f)
        ls = open(p).read().split('\n')
        old = ls[n]
        ls[n] = new
        open(p, 'w').write('\n'.join(ls))
        tag = '%s:%d  %s  ==>  %s' % (f, n + 1, old.strip(), new.strip() or '(deleted)')
        env = dict(os.environ, HOP_REPO=S, HOPSA_WORK=S + '.work', HOPSA_EVID=S + '.ev')
        order = [c for pre, cs in FIRST if f.startswith(pre) for c in cs.split()]
        order = list(dict.fromkeys(order + ALL))
        und = []
        for c in order:
            try:
                r = subprocess.run(['python3', V + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                und.append(c + ':timeout')
                continue
            if 'FactsError' in r.stdout or 'could not compile' in r.stdout:
                return 'NOCOMP   ' + tag
            if r.returncode == 1:
                return 'CAUGHT %s %s' % (c, tag)
            u = r.stdout.count('UNDECIDED:')
            if u or r.returncode:
                und.append('%s:%d' % (c, u))
        t = subprocess.run('timeout 300 cargo test --offline --workspace -q 2>&1 | tail -40', shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
        if 'error: test failed' in t or 'FAILED' in t or 'could not compile' in t or 'panicked' in t:
            return 'TESTED   %s   [%s]' % (tag, ' '.join(und))
        return 'SURVIVED %s   [%s]' % (tag, ' '.join(und))
    finally:
        slots.put(S)


ms = gather()
print(len(ms), 'mutants in all')
done = set()
if os.path.exists(OUT):
    done = {l.split(' ', 2)[-1].split('   [')[0].strip() for l in open(OUT)}
with open(OUT, 'a') as o, ThreadPoolExecutor(j) as ex:
    for r in ex.map(run, ms[:count]):
        o.write(r + '\n')
        o.flush()
