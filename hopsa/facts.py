"""Build the MIR driver, run it over /repo's working tree, load the facts it writes.

Nothing here executes hop code: `cargo check` type-checks the workspace and the
driver dumps the compiler's intermediate representation of every function."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HOP_REPO', '/repo')
WORK = os.environ.get('HOPSA_WORK', os.path.join(VERIF, '.work'))
DRIVER_DIR = os.path.join(VERIF, 'driver')
EXPECT = ['hop-rlib', 'hop_engine-rlib', 'hop_cli-rlib', 'hop_cli-executable', 'hop_server-executable',
          'hop_internal_metrics-rlib', 'hop_internal_timer-rlib']


class FactsError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = 'nightly'
    env['CI'] = 'true'
    for v in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(v, None)
    root = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    env['LD_LIBRARY_PATH'] = root + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
    return env


def build_driver():
    exe = os.path.join(DRIVER_DIR, 'target', 'debug', 'hopfacts')
    r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=DRIVER_DIR, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise FactsError('driver build failed:\n' + r.stdout[-4000:])
    return exe


def _hash_tree():
    h = hashlib.sha256()
    n = 0
    for dp, dn, fn in os.walk(REPO):
        dn[:] = sorted(d for d in dn if d not in ('target', '.git', 'node_modules'))
        for f in sorted(fn):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
                n += 1
    h.update(open(os.path.join(DRIVER_DIR, 'src', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24], n


def produce():
    """Returns (facts dir, tree hash, number of source files hashed)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        hsh, n = _hash_tree()
        out = os.path.join(WORK, 'facts-' + hsh)
        done = os.path.join(out, 'DONE')
        if not os.path.exists(done):
            for old in glob.glob(os.path.join(WORK, 'facts-*')):
                shutil.rmtree(old, ignore_errors=True)
            tdir = os.path.join(WORK, 'target')
            # cargo would skip the driver on crates it finds fresh
            for d in ('.fingerprint', 'build'):
                for fp in glob.glob(os.path.join(tdir, 'debug', d, 'hop*')):
                    shutil.rmtree(fp, ignore_errors=True)
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            env = _env()
            env['HOPFACTS_OUT'] = tmp
            env['RUSTC_WORKSPACE_WRAPPER'] = exe
            env['CARGO_TARGET_DIR'] = tdir
            cmd = ['cargo', 'check', '--workspace', '--locked', '--offline']
            r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise FactsError('cargo check of %s failed:\n%s' % (REPO, r.stdout[-6000:]))
            missing = [e for e in EXPECT if not os.path.exists(os.path.join(tmp, e + '.json'))]
            if missing:
                raise FactsError('crates without facts: %s\n%s' % (missing, r.stdout[-3000:]))
            os.rename(tmp, out)
            open(done, 'w').close()
        missing = [e for e in EXPECT if not os.path.exists(os.path.join(out, e + '.json'))]
        if missing:
            raise FactsError('crates without facts: %s' % missing)
        return out, hsh, n


class Facts:
    def __init__(self, d=None):
        if d is None:
            d, self.hash, self.nfiles = produce()
        else:
            self.hash, self.nfiles = '', 0
        self.dir = d
        self.crates = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.unsafe = []
        self._tc = {}
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            j = json.load(open(f))
            name = os.path.basename(f)[:-5]
            c = Crate(name, j)
            self.crates[name] = c
            for a in j['adts']:
                if a and (a['d'] not in self.adts):
                    self.adts[a['d']] = Adt(c, a)
            for fn in j['fns']:
                fn['crate'] = c
                self.fns.setdefault(fn['k'], fn)
                # executables share their crate name with a library of the same name
                if self.fns[fn['k']] is not fn:
                    self.fns[name + '//' + fn['k']] = fn
            for im in j['impls']:
                im['crate'] = c
                self.impls.append(im)
            for t in j['traits']:
                self.traits[t['k']] = t
            for u in j['unsafe']:
                u['crate'] = name
                self.unsafe.append(u)


class Adt:
    def __init__(self, crate, a):
        self.key = a['d']
        self.name = a['n']
        self.kind = a['k']
        self.generics = a['g']
        self.box = a['box']
        self.variants = a['v']
        self.crate = crate
        self.discr = [v['d'] for v in a['v']]
        self.by_discr = {v['d']: i for i, v in enumerate(a['v'])}
        self.names = [v['n'] for v in a['v']]

    def vi(self, name):
        return self.names.index(name)

    def fi(self, vi, name):
        return [f[0] for f in self.variants[vi]['f']].index(name)

    def ftys(self, vi):
        return [self.crate.ty(f[1]) for f in self.variants[vi]['f']]

    def fty(self, vi, fi):
        return self.crate.ty(self.variants[vi]['f'][fi][1])


class Crate:
    def __init__(self, name, j):
        self.name = name
        self.j = j
        self.cache = {}

    def arg(self, a):
        if isinstance(a, dict):
            return ('const', a['c'])
        return self.ty(a)

    def ty(self, i):
        c = self.cache.get(i)
        if c is not None:
            return c
        t = self.j['types'][i]
        k = t['k']
        if k == 'prim':
            r = ('prim', t['n'])
        elif k in ('bool', 'char', 'str', 'never', 'fnptr'):
            r = (k,)
        elif k == 'adt':
            r = ('adt', t['d'], tuple(self.arg(x) for x in t['a']))
        elif k in ('ref', 'ptr'):
            r = (k, t['m'], self.ty(t['t']))
        elif k == 'slice':
            r = ('slice', self.ty(t['t']))
        elif k == 'array':
            r = ('array', self.ty(t['t']), t['len'].get('c'))
        elif k == 'tuple':
            r = ('tuple', tuple(self.ty(x) for x in t['a']))
        elif k == 'param':
            r = ('param', t['n'])
        elif k in ('closure', 'coroutine', 'coroclosure'):
            r = (k, t['d'], tuple(self.arg(x) for x in t['a']))
        elif k == 'fndef':
            r = ('fndef', t['f']['k'], t['f']['n'])
        elif k == 'dyn':
            r = ('dyn', t.get('d', ''))
        elif k == 'alias':
            r = ('alias', t['n'])
        else:
            r = ('other', t['s'])
        self.cache[i] = r
        return r


def subst_ty(t, m):
    if not m:
        return t
    k = t[0]
    if k == 'param':
        return m.get(t[1], t)
    if k in ('adt', 'closure', 'coroutine', 'coroclosure'):
        return (k, t[1], tuple(subst_ty(x, m) if x[0] != 'const' else x for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst_ty(t[2], m))
    if k == 'slice':
        return (k, subst_ty(t[1], m))
    if k == 'array':
        return (k, subst_ty(t[1], m), t[2])
    if k == 'tuple':
        return (k, tuple(subst_ty(x, m) for x in t[1]))
    return t


def unify(p, t, m):
    """Match the pattern type p (with params) against t; extends m."""
    k = p[0]
    if k == 'param':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    if k == 'alias' or t[0] in ('alias', 'other'):
        return True
    if k != t[0]:
        return False
    if k in ('adt',):
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, m) for a, b in zip(p[2], t[2]))
    if k in ('ref', 'ptr'):
        return p[1] == t[1] and unify(p[2], t[2], m)
    if k == 'slice':
        return unify(p[1], t[1], m)
    if k == 'array':
        return unify(p[1], t[1], m) and (p[2] == t[2] or not isinstance(p[2], int))
    if k == 'tuple':
        return len(p[1]) == len(t[1]) and all(unify(a, b, m) for a, b in zip(p[1], t[1]))
    return p == t
