"""The engine's dispatch paths, read as observable behaviour: outcome, response, effects on stored data."""
from .vals import *
from . import engine
from .engine import RESP, ARGC, KT, arg_term
from .canon import *

NAMES = {'error': 'hop_engine::command::error::Error', 'kt': 'hop_engine::state::KeyType',
         'value': 'hop_engine::state::value::Value', 'cmd': 'hop_engine::command::command_id::CommandId',
         'resp': 'hop_engine::command::response::ResponseType', 'metric': 'hop_engine::metrics::Metric'}

MUT = ('insert', 'remove', 'clear', 'retain', 'alter', 'take', 'drain', 'extend', 'swap')


class Tables:
    def __init__(self, F):
        def a(n):
            x = F.adts.get(NAMES[n])
            if x is None:
                # the type may have moved: look it up by its last name
                last = NAMES[n].split('::')[-1]
                c = [v for k, v in F.adts.items() if k.split('::')[-1] == last and k.startswith('hop_engine')]
                if n == 'error':
                    c = [v for v in c if 'KeyTypeDifferent' in v.names]
                if not c:
                    raise engine.Missing('type %s' % NAMES[n])
                x = c[0]
            return x
        self.adts = {n: a(n) for n in NAMES}
        self.err = self.adts['error'].names
        self.kt = [n.lower() for n in self.adts['kt'].names]
        self.ktd = self.adts['kt'].discr
        self.val = [n.lower() for n in self.adts['value'].names]
        self.cmd = self.adts['cmd'].names
        self.metric = self.adts['metric'].names
        self.resp = {d: n.lower() for n, d in zip(self.adts['resp'].names, self.adts['resp'].discr) if not n.endswith('Error')}


def state_map(t, tab):
    """is the map term the engine's key-value store?"""
    ty = TY.get(t)
    n = 0
    while ty is not None and n < 4:
        n += 1
        if ty[0] == 'ref':
            ty = ty[2]
            continue
        if ty[0] == 'adt' and ty[1].split('::')[-1] in ('DashMap', 'HashMap') and len(ty[2]) >= 2:
            v = ty[2][1]
            return v[0] == 'adt' and v[1] == tab.adts['value'].key
        return False
    return False


def inner_of_state(t, tab):
    """is the map one that lies inside a stored value?"""
    return find(t, lambda x: isinstance(x, T) and x.op == 'entv' and state_map(x.a[0], tab)) is not None


class Path:
    def __init__(self, tab, cmd, o, I):
        self.tab, self.cmd, self.o, self.st, self.I = tab, cmd, o, o.st, I
        self.kind = o.kind
        self.out = self.code = None
        if o.kind == 'ret':
            v = o.val
            if isinstance(v, Adt) and v.key.endswith('Result'):
                if v.vi == 0:
                    self.out = 'ok'
                else:
                    self.out = 'err'
                    e = v.f[0]
                    self.code = tab.err[e.vi] if isinstance(e, Adt) and e.key == tab.adts['error'].key else None
        ps = self.st.mem.get(('in', 'resp'))
        ps = parts(ps) if isinstance(ps, (Seq, T)) else None
        self.resp = None
        self.kept = True
        if ps is not None:
            if ps and ps[0] == ('t', RESP):
                self.resp = ps[1:]
            elif ps == () or RESP not in [p[1] for p in ps if p[0] == 't']:
                self.resp = ps
                self.kept = False
        self.unknown = o.kind == 'ret' and (self.out is None or self.resp is None)
        self.events = list(self.flat(o.st.events()))

    def flat(self, evs, loop=None):
        for e in evs:
            if e[0] == 'loop':
                for alt in e[3]:
                    for x in self.flat(alt, e[1]):
                        yield x
            else:
                yield (e, loop)

    # ------------------------------------------------------------ conditions
    def argc(self):
        lo, hi = self.st.facts.get(('rng', ARGC)) or (0, 255)
        ne = self.st.facts.get(('ne', ARGC)) or ()
        while lo in ne and lo < hi:
            lo += 1
        return (lo, hi)

    def kt(self):
        """set of possible explicit key types ('none' or a lower-case name)"""
        v = self.st.facts.get(('var', KT))
        if v == 0:
            return {'none'}
        p = mk('fld', KT, 1, 0)
        names = set(self.tab.kt)
        pv = self.st.facts.get(('var', p))
        nv = self.st.facts.get(('nvar', p)) or ()
        some = {self.tab.kt[pv]} if pv is not None else {n for i, n in enumerate(self.tab.kt) if i not in nv}
        if v == 1:
            return some
        nn = self.st.facts.get(('nvar', KT)) or ()
        if 0 in nn:
            return some
        if 1 in nn:
            return {'none'}
        return some | {'none'}

    def key_empty(self, i=0):
        """True / False / None for argument i being empty"""
        t = mk('len', arg_term(i))
        r = self.st.facts.get(('rng', t))
        if r:
            if r[1] == 0:
                return True
            if r[0] > 0:
                return False
        ne = self.st.facts.get(('ne', t))
        if ne and 0 in ne:
            return False
        return None

    def stored(self, v):
        """set of possible stored types of an entry value term"""
        vi = self.st.facts.get(('var', v))
        if vi is not None:
            return {self.tab.val[vi]}
        nv = self.st.facts.get(('nvar', v)) or ()
        return {n for i, n in enumerate(self.tab.val) if i not in nv}

    # ------------------------------------------------------------ store
    def store_ops(self):
        """operations on the key-value store in order: (op, key, ver, outcome, rest, loop)"""
        for e, lp in self.events:
            if e[0] == 'dm' and state_map(e[2], self.tab):
                yield e[1], e[3], e[4], e[5], e[6:], lp

    def lookups(self):
        """reads of the store: list of (key, ver, possible types | {'absent'})"""
        out = []
        for op, key, ver, oc, rest, lp in self.store_ops():
            if op in ('get', 'get_mut', 'contains', 'entry', 'remove') or op == 'insert' and 'locked' not in rest:
                if oc == 0:
                    out.append((op, key, ver, {'absent'}))
                elif oc == 1:
                    m = [e[2] for e, l in self.events if e[0] == 'dm' and e[1] == op and e[3] is key and e[4] == ver]
                    out.append((op, key, ver, self.stored(mk('entv', m[0], key, ver))))
        return out

    def mutations(self):
        """net changes of stored data: list of (kind, detail)"""
        out = []
        seen = set()
        for e, lp in self.events:
            if e[0] == 'dm' and e[1] in MUT:
                if state_map(e[2], self.tab):
                    if e[1] == 'remove' and e[5] == 0:
                        continue
                    out.append((e[1], e[3], e[6:] if len(e) > 6 else ()))
                elif inner_of_state(e[2], self.tab):
                    out.append(('nested ' + e[1], e[2], e[3:]))
            elif e[0] == 'ew' and self.is_entry(e[1]):
                cell = e[1]
                if cell in seen:
                    continue
                seen.add(cell)
                now = self.st.mem.get(cell)
                was = mk('entv', cell[1], cell[2], cell[3])
                if now is None or not self.same_value(now, was):
                    out.append(('write', cell[2], (now,)))
            elif e[0] == 'w' and self.is_entry(e[1]) and e[1] not in seen:
                cell = e[1]
                seen.add(cell)
                now = self.st.mem.get(cell)
                was = mk('entv', cell[1], cell[2], cell[3])
                if now is None or not self.same_value(now, was):
                    out.append(('write', cell[2], (now,)))
        return out

    def is_entry(self, cell):
        return cell[0] == 'ent' and (state_map(cell[1], self.tab) or inner_of_state(cell[1], self.tab))

    def same_value(self, now, was):
        if now is was:
            return True
        if isinstance(now, Adt):
            return all(f is mk('fld', was, now.vi, i) for i, f in enumerate(now.f)) and self.st.facts.get(('var', was)) == now.vi
        return False

    def final(self, key):
        """the value stored under the key by this path's last entry access or insert: (cell, value) or None"""
        r = None
        for e, lp in self.events:
            if e[0] == 'dm' and state_map(e[2], self.tab) and e[3] is key:
                if e[1] in ('entry', 'get_mut', 'get'):
                    cell = ('ent', e[2], e[3], e[4])
                    v = self.st.mem.get(cell)
                    if v is None and (e[1] != 'entry' or e[5] == 1):
                        v = mk('entv', e[2], e[3], e[4])
                    r = (cell, v)
                elif e[1] == 'insert' and 'locked' in e[6:]:
                    cell = ('ent', e[2], e[3], e[4])
                    r = (cell, self.st.mem.get(cell, e[6]))
                elif e[1] == 'insert':
                    r = (None, e[6])
        return r

    def value_of(self, v):
        """(type, content) of a stored value on this path"""
        if isinstance(v, T):
            ts = self.stored(v)
            if len(ts) != 1:
                return None
            n = list(ts)[0]
            vi = self.tab.val.index(n)
            return n, norm(content(n, mk('fld', v, vi, 0)), self)
        r = read_value(v, self.tab.val)
        return (r[0], norm(r[1], self)) if r else None

    def frame(self):
        if self.resp is None:
            raise Bad('the response could not be followed')
        f = read_frame(self.resp, self.tab.resp)
        f.val = norm(f.val, self)
        return f

    def describe(self):
        s = []
        lo, hi = self.argc()
        s.append('%s arguments' % (lo if lo == hi else '%d..%d' % (lo, hi)))
        k = self.kt()
        s.append('key type %s' % ('any or none' if len(k) > len(self.tab.kt) else '/'.join(sorted(k)) if len(k) < 5 else 'not ' + '/'.join(sorted({'none', *self.tab.kt} - k))))
        for op, key, ver, ts in self.lookups():
            s.append('%s %s: %s' % (op, short(key, 40), '/'.join(sorted(ts)) if len(ts) < 5 else 'present'))
        return '; '.join(s)


def args_each(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'each' and isinstance(x[1], T) and x[1].op == 'args' and isinstance(x[1].a[0], int) \
        and x[1].a[1] is ARGC


def stride(body, c):
    """how many elements of c one step of the body uses"""
    n = 0
    for i in range(4):
        e = mk('elem', c, i)
        if find(body, lambda x: x is e):
            n = i + 1
    return n


def with_elem(body, c, base):
    """the body for the step whose first element is argument number base"""
    def f(x):
        if isinstance(x, T) and x.op == 'deref' and isinstance(x.a[0], T) and x.a[0].op == 'elem' and x.a[0].a[0] is c and isinstance(x.a[0].a[1], int):
            return arg_term(base + x.a[0].a[1])
        if isinstance(x, T) and x.op == 'elem' and x.a[0] is c and isinstance(x.a[1], int):
            return arg_term(base + x.a[1])
        return None
    return rebuild(body, f)


def settle(v, n):
    """v when there are exactly n arguments: what ranges over the arguments is written out"""
    def f(x):
        if args_each(x):
            k = stride(x[2], x[1])
            lo = x[1].a[0]
            if k == 0 or n < lo:
                return None if k == 0 else ()
            out = []
            for i in range(lo, n, k):
                b = with_elem(x[2], x[1], i)
                if isinstance(x[2], tuple) and x[2] and isinstance(x[2][0], tuple):
                    out.extend(b)
                else:
                    out.append(('one', b))
            return tuple(out)
        if x is ARGC:
            return n
        if isinstance(x, T) and x.op == 'count' and isinstance(x.a[0], T) and x.a[0].op == 'args' and isinstance(x.a[0].a[0], int) and x.a[0].a[1] is ARGC:
            return max(0, n - x.a[0].a[0])
        return None
    if isinstance(v, Seq):
        out = []
        for q in v.p:
            r = f(q)
            if r is None:
                out.append(q)
            else:
                out.extend(r)
        return seq(out)
    if isinstance(v, tuple):
        out = []
        for q in v:
            r = f(q)
            if r is None:
                out.append(q)
            else:
                out.extend(r)
        return tuple(out)
    return v


def refold(items):
    """a first element handled on its own, then the others alike: one step per element of the whole"""
    items = list(items)
    i = 0
    while i < len(items):
        x = items[i]
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'each' and isinstance(x[1], T):
            c = x[1]
            many = isinstance(x[2], tuple) and x[2] and isinstance(x[2][0], tuple) and isinstance(x[2][0][0], str)
            w = len(x[2]) if many else 1
            if c.op == 'args' and isinstance(c.a[0], int) and c.a[0] > 0 and c.a[1] is ARGC and stride(x[2], c) == 1 and i >= w:
                want = with_elem(x[2], c, c.a[0] - 1)
                want = [('one', want)] if not many else list(want)
                if [canon(y) if isinstance(y, T) else y for y in items[i - w:i]] == want:
                    c2 = mk('args', c.a[0] - 1, c.a[1])
                    if c in TY:
                        typed(c2, TY[c])
                    e1, e2 = mk('elem', c, 0), mk('elem', c2, 0)
                    items[i - w:i + 1] = [('each', c2, rebuild(x[2], lambda y: e2 if y is e1 else None))]
                    i -= w
                    continue
            if c.op == 'tail' and i >= w * c.a[1]:
                e1 = mk('elem', c, 0)
                n = c.a[1]
                want = []
                for j in range(n):
                    ej = mk('elem', c.a[0], j)
                    b = rebuild(x[2], lambda y: ej if y is e1 else None)
                    want += list(b) if many else [('one', b)]
                if items[i - w * n:i] == want:
                    e0 = mk('elem', c.a[0], 0)
                    items[i - w * n:i + 1] = [('each', c.a[0], rebuild(x[2], lambda y: e0 if y is e1 else None))]
                    i -= w * n
                    continue
        i += 1
    return items


def norm(v, p=None):
    """expand items over compound collections; resolve what the path knows of single values"""
    if p is not None and isinstance(v, (Seq, tuple)):
        lo, hi = p.argc()
        if lo == hi and lo <= 6:
            v = settle(v, lo)
    if isinstance(v, Seq):
        return seq(refold(v.p))
    if isinstance(v, tuple):
        v = tuple(refold(v))
        out = []
        for it in v:
            if isinstance(it, tuple) and len(it) == 3 and it[0] == 'each' and isinstance(it[1], Seq):
                out.extend(expand_each(it[1], it[2]))
            else:
                out.append(it)
        return tuple(out)
    if p is not None and isinstance(v, T):
        r = p.st.facts.get(('rng', v))
        if r and r[0] == r[1]:
            return r[0]
        b = p.I.truth(p.st, v)
        if b is not None:
            return b
    return v


def expand_each(c, body):
    out = []
    e = mk('elem', c, 0)
    ke, ve = mk('key', e), mk('val', e)

    def put(x):
        pr = isinstance(x, Adt) and x.key == '()' and len(x.f) == 2

        def f(y):
            if y is e:
                return x
            if y is ke:
                return x.f[0] if pr else mk('key', x)
            if y is ve:
                return x.f[1] if pr else mk('val', x)
            return None
        return rebuild(body, f)
    for p in c.p:
        if p[0] == 'v':
            out.append(('one', put(p[1])))
        elif p[0] == 't':
            out.append(('each', p[1], put(mk('elem', p[1], 0))))
        elif p[0] == 'each' and len(p[2]) == 1 and p[2][0][0] == 'v':
            out.append(('each', p[1], put(p[2][0][1])))
        else:
            out.append(('each', c, body))
    return out


class Engine:
    """all commands, explored once"""

    def __init__(self, F, want=None, argc=None):
        self.F = F
        self.tab = Tables(F)
        self.paths = {}
        self.I = {}
        self.broken = {}
        for i, n in enumerate(self.tab.cmd):
            if want and n not in want:
                continue
            try:
                I, terms = engine.dispatch(F, i, argc=argc)
                ps = [Path(self.tab, n, o, I) for o in terms]
            except engine.Missing:
                raise
            except Exception as e:
                self.broken[n] = '%s: %s' % (type(e).__name__, e)
                continue
            self.I[n] = I
            self.paths[n] = ps

    def all(self):
        for n in self.paths:
            for p in self.paths[n]:
                yield n, p
