"""The libraries and the handle of the engine: timers (T01), metrics (M01), values (V01), the handle (H01)."""
from .vals import *
from .canon import *
from .interp import Interp, State, some
from .engine import find_method, find_trait_method, Missing
from .models import NONE, ok, err, RES, OPT
from .rules_engine import floor, vague
from .rules_wire import HE

TIMER = 'hop_internal_timer'
STEADY = (1, 4, 7)        # CLOCK_MONOTONIC, CLOCK_MONOTONIC_RAW, CLOCK_BOOTTIME: none of them is ever set back


# ---------------------------------------------------------------- timers
def p_clock(sane):
    def go(I, st, a, c, k):
        n = st.mem.get(('clock', 'reads'), 0)
        st.mem[('clock', 'reads')] = n + 1
        st.event('clock', a[0], n)
        r = a[1]
        ts = next((x for x in I.F.adts if x.endswith('::timespec')), None)
        names = [q[0] for q in I.F.adts[ts].variants[0]['f']] if ts else ['tv_sec', 'tv_nsec']
        v = {'tv_sec': typed(mk('sec', n), ('prim', 'i64')), 'tv_nsec': typed(mk('nsec', n), ('prim', 'i64'))}
        if sane:
            I.add_range(st, v['tv_sec'], 0, (1 << 63) - 1)
            I.add_range(st, v['tv_nsec'], 0, 10 ** 9 - 1)
        from .models import target
        cell, proj = target(I, st, r)
        I.write(st, cell, proj, adt(ts, 0, tuple(v[x] for x in names)))
        return k(st, 0)
    return go


def read_of(d):
    """the reading of the clock a duration stands for"""
    if isinstance(d, T) and d.op == 'dur_new' and isinstance(d.a[0], T) and isinstance(d.a[1], T) and d.a[0].op == 'sec' and d.a[1].op == 'nsec' and d.a[0].a == d.a[1].a:
        return d.a[0].a[0]
    return None


def later(x, y):
    i, j = read_of(x), read_of(y)
    if i is None or j is None:
        return None
    return True if i >= j else None


def timer_interp(F, sane=True):
    I = Interp(F, 60000)
    for k in clock_fns(F):
        I.prims[k] = p_clock(sane)
    I.later = later
    return I


def clock_fns(F):
    """the names the clock of the C library goes by"""
    out = set()
    for k, f in F.fns.items():
        if f['body'] is None or not k.startswith(TIMER):
            continue
        for b in f['body']['blocks']:
            t = b['t']
            if t[0] == 'call':
                x = t[1][1].get('f') if isinstance(t[1], list) and isinstance(t[1][1], dict) else None
                if x and x['n'].endswith('::clock_gettime'):
                    out.add(x['k'])
    return out


def shape(v, seen):
    """a value with the readings of the clock renamed by age"""
    idx = sorted({x.a[0] for x in terms(v) if x.op in ('sec', 'nsec')})
    return repr(rebuild(v, lambda x: mk(x.op, idx.index(x.a[0])) if isinstance(x, T) and x.op in ('sec', 'nsec') else None))


def terms(v):
    out = []
    find(v, lambda x: out.append(x) or False if isinstance(x, T) else False)
    return out


def T01(F, rep):
    """every state a timer can get into by any sequence of its methods (closed under renaming of the clock readings): whether it started, whether it runs, and the duration are those
    of the readings taken by the start and stop that took effect; no reading whatever makes it panic"""
    ops = {n: find_method(F, 'Timer', TIMER, n) for n in ('start', 'stop', 'duration', 'is_running', 'reset')}
    seen, todo, n = set(), [], 0
    I = timer_interp(F)
    for k in (find_method(F, 'Timer', TIMER, 'new'), find_trait_method(F, 'Default', 'Timer', 'default', TIMER)):
        for o in I.start(k, [], State()):
            if rep.check(o.kind == 'ret', 'new', 'a new timer cannot be made'):
                todo.append((o.st, o.val, ('new',)))
    while todo and n < 400:
        st, v, model = todo.pop()
        key = (shape(canon(v), None), model[0])
        if key in seen:
            continue
        seen.add(key)
        for op in sorted(ops):
            n += 1
            s = st.copy()
            s.mem[('in', 'timer')] = v
            before = len(s.events())
            I = timer_interp(F)
            outs = I.start(ops[op], [ref(('in', 'timer'))], s)
            rep.saw(I)
            if not outs:
                rep.undecided(op, '%s of a timer could not be followed' % op)
            for o in outs:
                d = '%s of a timer that %s' % (op, {'new': 'was never started', 'run': 'is running', 'done': 'was stopped'}[model[0]])
                if o.kind != 'ret':
                    rep.check(False if o.kind == 'panic' else None, op + ':' + o.kind, '%s panics: %s' % (d, short(o.val)))
                    continue
                reads = [e for e in o.st.events()[before:] if e[0] == 'clock']
                for e in reads:
                    rep.check(e[1] in STEADY if isinstance(e[1], int) else None, op + ':clock', '%s reads clock %s, which can be set back' % (d, short(e[1])))
                now = frozenset(e[2] for e in reads)
                nxt = step(I, rep, op, d, o, model, now)
                w = o.st.mem[('in', 'timer')]
                o.st.mem.pop(('in', 'timer'))
                if nxt is not None:
                    todo.append((o.st, w, nxt))
    rep.count('states', len(seen))
    rep.count('steps', n)
    floor(rep, len(seen), 3, 'states of a timer')
    # any reading at all
    s = State()
    I = timer_interp(F, False)
    s.mem[('in', 'timer')] = I.start(find_method(F, 'Timer', TIMER, 'new'), [], State())[0].val
    for o in I.start(ops['start'], [ref(('in', 'timer'))], s):
        rep.check(o.kind == 'ret' if o.kind in ('ret', 'panic') else None, 'reading', 'a reading of the clock makes the timer panic: %s' % short(o.val))
    rep.assume.append('the clocks %s of the system are never set back and answer 0 to 999999999 nanoseconds' % (STEADY,))


def step(I, rep, op, d, o, model, now):
    """the state after a step, checking what it answers"""
    v = canon(I.content(o.st, o.val))
    st = o.st
    if op == 'start':
        first = model[0] == 'new'
        rep.check(v == int(first) if isinstance(v, int) else None, 'start', '%s answers %s' % (d, short(v)))
        if first and not now:
            rep.bad('start:clock', '%s does not read the clock' % d)
            return None
        return ('run', now) if first else model
    if op == 'is_running':
        rep.check(v == int(model[0] == 'run') if isinstance(v, int) else None, 'is_running', '%s answers %s' % (d, short(v)))
        return model
    if op == 'reset':
        return ('new',)
    if op == 'stop' and model[0] == 'run':
        if not now:
            rep.bad('stop:clock', '%s does not read the clock' % d)
            return None
        model = ('done', model[1], now)
    elif op == 'stop':
        rep.check(isinstance(v, Adt) and v.vi == 0 if isinstance(v, Adt) else None, 'stop', '%s answers %s' % (d, short(v)))
        return model
    if model[0] != 'done':
        rep.check(v.vi == 0 if isinstance(v, Adt) else None, op, '%s answers %s' % (d, short(v)))
        return model
    x = v.f[0] if isinstance(v, Adt) and v.f else None
    good = isinstance(x, T) and x.op == 'dur_sub' and read_of(x.a[0]) in model[2] and read_of(x.a[1]) in model[1]
    rep.check(True if good else None if vague(v) else False, op, '%s answers %s; it is the time from the reading of start to that of stop' % (d, short(v)))
    return model


# ---------------------------------------------------------------- metrics
METRICS = 'hop_internal_metrics'
KEY, VAL = mk('key'), typed(mk('value'), ('prim', 'u64'))


def on_self(F, rep, ty, name, args, trait=None):
    """the paths of a method of a type of the metrics library on any value of it"""
    from .rules_session import guard_clashes, flat
    ak = [k for k in F.adts if k.startswith(METRICS) and k.endswith('::' + ty)]
    if not ak:
        raise Missing(ty)
    st = State()
    st.mem[('in', 'key')] = KEY
    me = typed(mk('self'), ('ref', False, ('adt', ak[0], (('param', 'T'),))))
    I = Interp(F, 20000)
    fk = find_trait_method(F, trait, ty, name, METRICS) if trait else find_method(F, ty, METRICS, name)
    ts = I.start(fk, [me] + args, st)
    rep.saw(I)
    rep.count('paths', len(ts))
    for o in ts:
        cl, k, left = guard_clashes(flat(I, o))
        rep.check(not cl, '%s:%s:deadlock' % (ty, name), '%s of a %s uses a table of which it holds an entry' % (name, ty))
    return I, ts


def table_of(t):
    """(which table, of what) a term that is a field of a snapshot stands for"""
    t = canon(t)
    if isinstance(t, Adt) and t.key == '@dm':
        t = canon(t.f[0])
    if isinstance(t, T) and t.op == 'fld':
        return t.a[-1], t.a[0]
    return None


def own(t):
    """is t part of what the method was called on"""
    return find(t, lambda x: isinstance(x, T) and x is mk('self')) is not None


def effect(o):
    """what a path does to tables: (locking accesses, {(table, key): value left}, plain reads)"""
    left, locks, old = {}, [], {}
    for e in o.st.events():
        if e[0] == 'dm':
            op, tab, key = e[1], e[2], e[3]
            if op == 'insert' and e[-1] == 'locked':
                left[(tab, key)] = e[6] if len(e) > 7 else None
                continue
            locks.append((op, tab, key))
            if op == 'insert':
                left[(tab, key)] = e[6] if len(e) > 6 else None
            elif op in ('remove', 'clear', 'retain', 'alter'):
                left[(tab, key)] = mk('top')
        elif e[0] == 'ew':
            ent = e[1]
            left[(ent[1], ent[2])] = e[3] if not e[2] else mk('top')
    return locks, left


def yesno(I, o):
    v = canon(I.content(o.st, o.val))
    return bool(v) if isinstance(v, int) else None


def M01(F, rep):
    """the writer adds one to the counter it is given, or sets the gauge it is given, in one hold of it and touches nothing else; readers, snapshots and the writer agree on the tables;
    readers and writers are of the metrics they were made from, and answer false or nothing when those are gone"""
    tables = {}
    for name, what, args in (('increment', 'counter', [KEY]), ('gauge', 'gauge', [KEY, VAL])):
        I, ts = on_self(F, rep, 'Writer', name, args)
        changed = 0
        for o in ts:
            up = [e for e in o.st.events() if e[0] == 'upgrade']
            if o.kind == 'panic':
                full = any(k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'ovf' and v and 'entv' in repr(k[1]) for k, v in o.st.facts.items())
                rep.check(full and name == 'increment', name + ':panic', '%s panics: %s' % (name, short(o.val)))
                continue
            if o.kind != 'ret':
                rep.undecided(name, '%s could not be followed' % name)
                continue
            locks, left = effect(o)
            alive = bool(up) and up[-1][2] == 1
            rep.check(yesno(I, o) == alive if yesno(I, o) is not None else None, name + ':answer', '%s answers %s when the metrics are %s' % (name, short(o.val), 'there' if alive else 'gone'))
            if not alive:
                rep.check(not locks and not left, name + ':gone', '%s changes something although the metrics are gone' % name)
                continue
            changed += 1
            if len(left) != 1:
                rep.check(False, name + ':one', '%s changes %d entries' % (name, len(left)))
                continue
            (tab, key), v = next(iter(left.items()))
            rep.check(key == KEY, name + ':key', '%s changes the entry %s' % (name, short(key)))
            t = table_of(tab)
            rep.check(None if t is None else own(t[1]), name + ':table', '%s changes %s' % (name, short(tab)))
            if t is not None:
                rep.check(tables.setdefault(what, t[0]) == t[0], name + ':table', '%s changes one table on one path and another on the other' % name)
            if name == 'gauge':
                rep.check(True if v == VAL else None if v is None or vague(v) else False, 'gauge:value', 'setting a gauge leaves %s' % short(v))
                continue
            rep.check(len(locks) == 1, 'increment:atomic', 'increment takes the entry %d times, so what others count in between is lost' % len(locks))
            occ = next((e[5] for e in o.st.events() if e[0] == 'dm' and e[1] != 'insert'), None)
            old = typed(mk('entv', tab, key, 0), ('prim', 'u64')) if occ else 0
            v = canon(v)
            if any(k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'ovf' and x and 'entv' in repr(k[1]) for k, x in o.st.facts.items()) or v == (1 << 64) - 1:
                continue
            good = v == canon(ladd(old, 1))
            rep.check(True if good else None if v is None or vague(v) else False, 'increment:value', 'incrementing a counter at %s leaves %s' % (short(old), short(v)))
        floor(rep, changed, 1, 'paths on which %s counts' % name)
    rep.check(tables.get('counter') != tables.get('gauge') if len(tables) == 2 else None, 'tables', 'counters and gauges are kept in one table')
    # reading
    for ty in ('Reader', 'Snapshot'):
        for name in ('counter', 'gauge'):
            I, ts = on_self(F, rep, ty, name, [ref(('in', 'key'))])
            got = 0
            for o in ts:
                if o.kind != 'ret':
                    rep.check(False if o.kind == 'panic' else None, '%s:%s' % (ty, name), '%s of a %s %s' % (name, ty, short(o.val)))
                    continue
                locks, left = effect(o)
                rep.check(not left, '%s:%s:pure' % (ty, name), 'reading a %s changes one' % name)
                up = [e for e in o.st.events() if e[0] == 'upgrade']
                dm = [e for e in o.st.events() if e[0] == 'dm']
                v = canon(I.content(o.st, o.val))
                if up and up[-1][2] == 0:
                    rep.check(v == NONE, '%s:%s:gone' % (ty, name), 'a %s of metrics that are gone is read as %s' % (name, short(v)))
                    continue
                if len(dm) != 1:
                    rep.undecided('%s:%s' % (ty, name), 'a %s is read with %d accesses' % (name, len(dm)))
                    continue
                e = dm[0]
                t = table_of(e[2])
                rep.check(None if t is None or name not in tables else t[0] == tables[name] and own(t[1]) and e[3] == KEY, '%s:%s:table' % (ty, name), 'a %s is read from %s at %s' % (name, short(e[2]), short(e[3])))
                if not e[5]:
                    rep.check(v == NONE, '%s:%s:missing' % (ty, name), 'a %s that was never counted is read as %s' % (name, short(v)))
                    continue
                got += 1
                w = some(mk('entv', e[2], KEY, 0))
                rep.check(True if v == canon(w) else None if vague(v) else False, '%s:%s:value' % (ty, name), 'a %s is read as %s' % (name, short(v)))
            floor(rep, got, 1, 'paths on which a %s reads a %s' % (ty, name))
    for name, what in (('counters', 'counter'), ('gauges', 'gauge')):
        I, ts = on_self(F, rep, 'Snapshot', name, [])
        for o in ts:
            t = table_of(canon(I.content(o.st, o.val))) if o.kind == 'ret' else None
            rep.check(None if t is None or what not in tables else t[0] == tables[what], 'Snapshot:' + name, 'the %s of a snapshot are %s' % (name, short(o.val)))
    # what they are of
    for name in ('writer', 'reader'):
        I, ts = on_self(F, rep, 'Metrics', name, [])
        for o in ts:
            v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
            w = find(v, lambda x: isinstance(x, Adt) and x.key == '@weak') if v is not None else None
            rep.check(None if v is None or w is None and vague(v) else w is not None and own(w.f[0]), 'Metrics:' + name, 'a %s of some metrics is of %s' % (name, short(v)))
    I, ts = on_self(F, rep, 'Metrics', 'snapshot', [])
    for o in ts:
        v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
        if not isinstance(v, Adt) or len(tables) != 2:
            rep.undecided('Metrics:snapshot', 'a snapshot could not be followed')
            continue
        for what, i in tables.items():
            t = table_of(v.f[i]) if i < len(v.f) else None
            rep.check((False if i < len(v.f) and canon(v.f[i]) in (EMPTY, adt('@dm', 0, (EMPTY,))) else None) if t is None else t[0] == i and own(t[1]), 'Metrics:snapshot:' + what, 'the %ss of a snapshot are %s' % (what, short(v.f[i]) if i < len(v.f) else '?'))
    for name, trait in (('new', None), ('default', 'Default')):
        I = Interp(F, 20000)
        fk = find_trait_method(F, trait, 'Metrics', name, METRICS) if trait else find_method(F, 'Metrics', METRICS, name)
        for o in I.start(fk, [], State()):
            arcs = [v for k, v in o.st.mem.items() if k[0] == 'arc']
            rep.check(None if o.kind != 'ret' or len(arcs) != 1 else all(canon(x) in (adt('@dm', 0, (EMPTY,)), EMPTY) for x in arcs[0].f) if isinstance(arcs[0], Adt) else None,
                      'Metrics:' + name, 'new metrics are not empty')
    for ty in ('Writer', 'Reader'):
        I, ts = on_self(F, rep, ty, 'valid', [])
        for o in ts:
            v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
            up = [e for e in o.st.events() if e[0] == 'upgrade']
            n = find(v, lambda x: isinstance(x, T) and x.op == 'refcount') if v is not None else None
            rep.check(v == up[-1][2] if up and isinstance(v, int) else False if isinstance(v, int) and not find(tuple(o.st.facts), lambda x: isinstance(x, T) and x.op == 'refcount') else (False if v is not None and find(v, lambda x: isinstance(x, T) and x.op == 'weakcount') else None) if n is None else v in (mk('ge0', ladd(n, -1)), mk('not', mk('eq0', n))), ty + ':valid', 'a %s is valid if %s' % (ty, short(v)))
        I, ts = on_self(F, rep, ty, 'clone', [], 'Clone')
        for o in ts:
            v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
            rep.check(None if v is None or vague(v) else own(v), ty + ':clone', 'a clone of a %s is %s' % (ty, short(v)))
    rep.assume.append('no counter reaches 2^64')


# ---------------------------------------------------------------- values and the store
def called(I, o):
    return I.content(o.st, o.val) if o.kind == 'ret' else None


def of_variant(I, rep, key, ts, want, d, opt=True):
    """every path answers want: a value, or None for nothing"""
    if not ts:
        rep.undecided(key, '%s could not be followed' % d)
    for o in ts:
        if o.kind != 'ret':
            rep.check(False if o.kind == 'panic' else None, key, '%s panics: %s' % (d, short(o.val)))
            continue
        v = called(I, o)
        if isinstance(v, Adt) and v.f and isinstance(v.f[0], Ref):
            v = adt(v.key, v.vi, (I.content(o.st, v.f[0]),))
        v = canon(v)
        good = v == want or (isinstance(v, T) and isinstance(want, T) and v is want)
        rep.check(True if good else None if vague(v) else False, key, '%s answers %s' % (d, short(v)))


def values(F, rep):
    from .rules_build import value_adt
    va = value_adt(F)
    kt = F.adts[next(k for k in F.adts if k.startswith(HE) and k.endswith('::KeyType'))]
    for i, name in enumerate(va.names):
        x = mk('content', i)
        low = name.lower()

        def on(fn):
            st = State()
            st.mem[('in', 'v')] = adt(va.key, i, (x,))
            I = Interp(F, 5000)
            ts = I.start(fn, [ref(('in', 'v'))], st)
            rep.saw(I)
            return I, ts
        I, ts = on(find_method(F, 'Value', HE, 'kind'))
        of_variant(I, rep, 'kind:' + low, ts, adt(kt.key, kt.names.index(name)), 'the kind of a %s' % low)
        for j, other in enumerate(va.names):
            o = other.lower()
            d = 'a value that is a %s, asked for a %s,' % (low, o)
            for how in ('ref', 'mut'):
                I, ts = on(find_method(F, 'Value', HE, 'as_%s_%s' % (o, how)))
                of_variant(I, rep, 'as_%s_%s' % (o, how), ts, some(x) if i == j else NONE, d)
                if how == 'mut' and i == j:
                    for q in ts:
                        r = q.val.f[0] if q.kind == 'ret' and isinstance(q.val, Adt) and q.val.f else None
                        cell = r.cell if isinstance(r, Ref) else None
                        rep.check(None if cell is None else cell == ('in', 'v'), 'as_%s_mut' % o, '%s answers a part of something else' % d)
            I, ts = on(find_method(F, 'Value', HE, 'is_' + o))
            of_variant(I, rep, 'is_' + o, ts, int(i == j), d)
        I = Interp(F, 5000)
        ts = I.start(find_method(F, 'Value', HE, low), [], State())
        rep.saw(I)
        for o in ts:
            v = canon(called(I, o)) if o.kind == 'ret' else None
            z = v.f[0] if isinstance(v, Adt) and v.f else None
            nil = z in (0, 0.0, EMPTY) or (isinstance(z, Adt) and all(y in (EMPTY, adt('@dm', 0, (EMPTY,))) for y in z.f)) or (isinstance(z, T) and z.op == 'float' and float(z.a[0]) == 0)
            rep.check(None if z is None or vague(z) else v.vi == i and nil, 'new:' + low, 'a new %s is %s' % (low, short(v)))
    # conversions into values
    n = 0
    for im in F.impls:
        if not (im.get('trait') or '').endswith('convert::From') or im['crate'].ty(im['self']) != ('adt', va.key, ()):
            continue
        t = im['crate'].ty(im['targs'][1])
        i = next((i for i in range(len(va.names)) if va.ftys(i) == [t]), None)
        if i is None:
            continue
        n += 1
        I = Interp(F, 5000)
        x = typed(mk('given'), t)
        ts = I.start(im['items'][0]['k'], [x], State())
        rep.saw(I)
        of_variant(I, rep, 'from:' + va.names[i].lower(), ts, adt(va.key, i, (x,)), 'a value made from what a %s holds' % va.names[i].lower())
    floor(rep, n, len(va.names), 'conversions into values')


INTERNAL = b'__hop__:'


def bad_key(o):
    """did the path find the key empty or internal"""
    for k, v in o.st.facts.items():
        s = repr(k)
        if 'starts_with' in s and INTERNAL.decode() in s and v:
            return True
        if k[0] == 'rng' and 'len(key)' in s and v[1] is not None and v[1] <= 0:
            return True
    return False


def empty_key(o):
    return any(k[0] == 'rng' and 'len(key)' in repr(k) and v[1] is not None and v[1] <= 0 for k, v in o.st.facts.items())


def V01(F, rep):
    """values answer what they are and what they hold, and are made as what they are made from; each operation of the store is one access, of the one entry of the key it is given, in the one
    table that all clones of a store share, and answers what that access found"""
    values(F, rep)
    from .rules_build import value_adt
    va = value_adt(F)
    sk = [k for k in F.adts if k.startswith(HE) and k.endswith('::State')][0]
    me = typed(mk('self'), ('ref', False, ('adt', sk, ())))
    given = typed(mk('given'), ('adt', va.key, ()))
    kr = rval(mk('key'))
    tables = set()
    kt = F.adts[next(k for k in F.adts if k.startswith(HE) and k.endswith('::KeyType'))]
    for name, args in (('contains_key', [kr]), ('insert', [mk('key'), given]), ('remove', [kr]), ('key_ref', [kr]), ('key_mut', [kr]), ('key_or_insert_with', [kr, mk('f')]), ('key_type', [kr])):
        I = Interp(F, 20000)
        ts = I.start(find_method(F, 'State', HE, name), [me] + args, State())
        rep.saw(I)
        seen = set()
        for o in ts:
            if o.kind == 'panic':
                rep.check(bad_key(o) and name.startswith('key'), name + ':panic', '%s panics on a key that is neither empty nor internal: %s' % (name, short(o.val)))
                continue
            if o.kind != 'ret':
                rep.undecided(name, '%s could not be followed' % name)
                continue
            dm = [e for e in o.st.events() if e[0] == 'dm' and e[-1] != 'locked']
            lk = [e for e in o.st.events() if e[0] == 'dm' and e[-1] == 'locked']
            ew = [e for e in o.st.events() if e[0] == 'ew']
            if not dm:
                # what the path found out can only be about the key: one that the table may well hold
                blind = (not bad_key(o) or name not in ('key_ref', 'key_mut', 'key_or_insert_with')) and not empty_key(o) and not lk and not ew
                rep.check(False if blind and not vague(canon(o.val)) else None, name + ':look', '%s answers %s without a look at the table' % (name, short(canon(o.val))))
                continue
            for e in dm + lk:
                tables.add(e[2])
                rep.check(canon(e[3]) == mk('key'), name + ':key', '%s uses the key %s' % (name, short(e[3])))
            for e in dm[:-1]:
                rep.check(e[1] in ('get', 'contains', 'get_mut', 'len'), name + ':steps', '%s takes more than one step' % name)
            last = dm[-1]
            occ = last[5]
            seen.add(occ)
            old = mk('entv', last[2], mk('key'), last[4])
            v = canon(o.val)
            locks, left = effect(o)
            want = {'insert': given, 'remove': mk('top')}.get(name)
            if name == 'remove' and not occ:
                want = left.get((last[2], last[3]))          # removing nothing
            if name == 'key_or_insert_with' and not occ:
                calls = [e for e in o.st.events() if e[0] == 'callopaque']
                rep.check(len(calls) == 1 and calls[0][1] == mk('f') and len(lk) == 1 if calls or lk else False, name + ':default', 'key_or_insert_with of a missing key does not insert what it was given')
                want = lk[0][6] if lk else None
                rep.check(None if not lk else True if isinstance(want, T) and want.op == 'ext' and want.a[0] == 'fnvalue' else None if vague(want) else False, name + ':default', 'key_or_insert_with of a missing key inserts %s' % short(want))
            elif name == 'key_or_insert_with':
                rep.check(not [e for e in o.st.events() if e[0] == 'callopaque'], name + ':default', 'key_or_insert_with makes a value for a key that has one')
            got = list(left.values())
            rep.check(got == ([want] if want is not None else []) and not (ew and name != 'key_or_insert_with'), name + ':effect', '%s of a %s key leaves %s' % (name, 'stored' if occ else 'missing', short(got)))
            d = '%s of a %s key answers %s' % (name, 'stored' if occ else 'missing', short(v))
            if name == 'contains_key':
                exp = int(bool(occ))
            elif name == 'insert':
                exp = some(old) if occ else NONE
            elif name == 'remove':
                exp = NONE
                if occ:
                    ok_ = isinstance(v, Adt) and v.vi == 1 and find(v, lambda x: x == old) is not None and find(v, lambda x: x == mk('key')) is not None
                    rep.check(True if ok_ else None if vague(v) else False, name + ':answer', d)
                    continue
            elif name == 'key_type':
                vi = next((y for k, y in o.st.facts.items() if k[0] == 'var' and k[1] == old), None)
                exp = NONE if not occ else some(adt(kt.key, kt.names.index(va.names[vi]))) if vi is not None else None
                if exp is None:
                    rep.undecided(name + ':answer', d)
                    continue
            else:
                g = find(v, lambda x: isinstance(x, Adt) and x.key == '@guard')
                always = name == 'key_or_insert_with'
                if not occ and not always:
                    exp = NONE
                else:
                    ent, mode = (g.f[0], g.f[1]) if g is not None else (None, None)
                    good = g is not None and ent[1] == last[2] and ent[2] == last[3] and (mode == 'w' or name == 'key_ref')
                    rep.check(True if good else None if vague(v) else False, name + ':answer', d)
                    continue
            rep.check(True if v == exp else None if vague(v) else False, name + ':answer', d)
        rep.check(seen == {0, 1} if seen else None, name + ':both', '%s does not look whether the key is stored' % name)
    rep.check(len(tables) == 1 if tables else None, 'table', 'the operations of the store are on %s' % ', '.join(short(x) for x in tables))
    # clones share, new ones do not
    I = Interp(F, 5000)
    for o in I.start(find_trait_method(F, 'Clone', 'State', 'clone', HE), [me], State()):
        v = canon(called(I, o)) if o.kind == 'ret' else None
        rep.check(None if v is None or vague(v) else own(v) and not find(v, lambda x: isinstance(x, Adt) and x.key == '@dm'), 'clone', 'a clone of a store is %s' % short(v))
    for fk in (find_method(F, 'State', HE, 'new'), find_trait_method(F, 'Default', 'State', 'default', HE)):
        I = Interp(F, 5000)
        for o in I.start(fk, [], State()):
            arcs = [v for k, v in o.st.mem.items() if k[0] == 'arc']
            rep.check(None if o.kind != 'ret' or len(arcs) != 1 else canon(arcs[0]) == adt('@dm', 0, (EMPTY,)), 'new', 'a new store is not empty')


# ---------------------------------------------------------------- the handle of the engine
def arcs_in(v, op='@arc'):
    out = []
    find(v, lambda x: out.append(x) or False if isinstance(x, Adt) and x.key == op else False)
    return out


def reach(st, v):
    """(everything strongly held by v, the cells all weak references in it are to)"""
    held, weak, todo, seen = set(), set(), [v], set()
    while todo:
        x = todo.pop()
        for w in arcs_in(x, '@weak'):
            for a in arcs_in(w.f[0]):
                weak.add(a.f[0])
        for a in arcs_in(rebuild(x, lambda y: NONE if isinstance(y, Adt) and y.key == '@weak' else None)):
            if a.f[0] in held:
                continue
            held.add(a.f[0])
            if a.f[0] in st.mem:
                todo.append(st.mem[a.f[0]])
    return held, weak


def H01(F, rep):
    """however an engine is made, its configuration is the one of the builder (by default pubsub, and as many sessions as can be), everything that counts and everything that reads the
    counters is of the one set of metrics it keeps alive, it starts empty, and clones and repeated questions are answered with the same parts"""
    ck = [k for k in F.adts if k.startswith(HE) and k.endswith('::Config')][0]
    cfg = F.adts[ck]
    names = [q[0] for q in cfg.variants[0]['f']]
    usz = (1 << 64) - 1
    DEF = {'pubsub_enabled': 1, 'sessions_active_max': usz}
    get = {n: find_method(F, 'Config', HE, n) for n in DEF}

    def config_of(st, r, d, want):
        for n in DEF:
            I = Interp(F, 5000)
            ts = I.start(get[n], [r], st.copy())
            rep.saw(I)
            for o in ts:
                v = canon(called(I, o)) if o.kind == 'ret' else None
                rep.check(None if v is None else True if v == want[n] else None if vague(v) else False, 'config:' + n, '%s of %s is %s' % (n, d, short(v)))
    # the builder
    start = []
    for d, fk in (('Builder::new', find_method(F, 'Builder', HE, 'new', 'hop::')), ('Builder::default', find_trait_method(F, 'Default', 'Builder', 'default', HE + '::hop')), ('Hop::builder', find_method(F, 'Hop', HE, 'builder', 'hop::'))):
        I = Interp(F, 5000)
        for o in I.start(fk, [], State()):
            if o.kind != 'ret':
                rep.undecided('builder', '%s could not be followed' % d)
                continue
            start.append((d, o.st, o.val, dict(DEF)))
    old = {n: typed(mk('before', n), ('bool',) if n == 'pubsub_enabled' else ('prim', 'usize')) for n in DEF}
    bk = [k for k in F.adts if k.startswith(HE + '::hop') and k.endswith('::Builder')][0]
    if sorted(names) == sorted(DEF) and len(F.adts[bk].variants[0]['f']) == 1:
        start.append(('any builder', State(), adt(bk, 0, (adt(ck, 0, tuple(old[n] for n in names)),)), {n: canon(old[n]) for n in DEF}))
    vals = {'pubsub_enabled': typed(mk('pubsub'), ('bool',)), 'sessions_active_max': typed(mk('max'), ('prim', 'usize'))}
    made = list(start)
    for d, st, b, model in list(start) + []:
        todo = [(d, st, b, model, tuple(DEF))]
        while todo:
            d, st, b, model, left = todo.pop()
            for n in left:
                s = st.copy()
                s.mem[('in', 'builder')] = b
                I = Interp(F, 5000)
                ts = I.start(find_method(F, 'Builder', HE, n, 'hop::'), [ref(('in', 'builder')), vals[n]], s)
                rep.saw(I)
                for o in ts:
                    if o.kind != 'ret':
                        rep.undecided('builder:' + n, '%s of a builder could not be followed' % n)
                        continue
                    rep.check(isinstance(o.val, Ref) and o.val.cell == ('in', 'builder') and not o.val.proj if isinstance(o.val, Ref) else None, 'builder:' + n, '%s answers another builder' % n)
                    m = dict(model)
                    m[n] = canon(vals[n])
                    w = o.st.mem.pop(('in', 'builder'))
                    x = ('%s and %s' % (d, n), o.st, w, m)
                    made.append(x)
                    todo.append(x + (tuple(y for y in left if y != n),))
    # engines
    hops = []
    for d, fk in (('Hop::new', find_method(F, 'Hop', HE, 'new', 'hop::')), ('Hop::default', find_trait_method(F, 'Default', 'Hop', 'default', HE + '::hop'))):
        I = Interp(F, 20000)
        for o in I.start(fk, [], State()):
            hops.append((d, o, dict(DEF)))
        rep.saw(I)
    for how, fk in (('build', find_method(F, 'Builder', HE, 'build', 'hop::')), ('from', find_trait_method(F, 'From', 'Hop', 'from', HE + '::hop'))):
        for d, st, b, model in made:
            I = Interp(F, 20000)
            for o in I.start(fk, [b], st.copy()):
                hops.append(('%s of %s' % (how, d), o, model))
            rep.saw(I)
    rep.count('engines made', len(hops))
    floor(rep, len(hops), 10, 'ways to make an engine')
    parts = {n: find_method(F, 'Hop', HE, n, 'hop::') for n in ('config', 'metrics', 'pubsub', 'sessions', 'state')}
    clone = find_trait_method(F, 'Clone', 'Hop', 'clone', HE + '::hop')
    for d, o, model in hops:
        if o.kind != 'ret':
            rep.check(False if o.kind == 'panic' else None, 'new', '%s: %s' % (d, short(o.val)))
            continue
        st = o.st
        st.mem[('in', 'hop')] = o.val
        got = {}
        copies = [('it', ref(('in', 'hop')), st)]
        I = Interp(F, 5000)
        for q in I.start(clone, [ref(('in', 'hop'))], st.copy()):
            if q.kind == 'ret':
                q.st.mem[('in', 'copy')] = q.val
                copies.append(('its clone', ref(('in', 'copy')), q.st))
        rep.check(len(copies) == 2 or None, 'clone', 'a clone of the engine could not be followed')
        for who, r, s in copies:
            for n, fk in parts.items():
                I = Interp(F, 5000)
                for q in I.start(fk, [r], s.copy()):
                    if q.kind != 'ret':
                        rep.undecided(n, '%s of an engine could not be followed' % n)
                        continue
                    if n == 'config':
                        config_of(q.st, q.val, '%s, of %s' % (who, d), model)
                    v = canon(I.content(q.st, q.val))
                    if n in got and n != 'config':
                        rep.check(True if got[n] == v else None if vague(v) else False, n + ':same', '%s of an engine is %s and of %s %s' % (n, short(got[n]), who, short(v)))
                    got[n] = v
                rep.saw(I)
        held, weak = reach(st, o.val)
        rep.check(len(weak) == 1 if weak else None, 'metrics:one', '%s: what counts is of %d sets of metrics' % (d, len(weak)))
        rep.check(weak <= held if weak else None, 'metrics:alive', '%s: the metrics are not kept' % d)
        rd = {a.f[0] for w in arcs_in(got.get('metrics'), '@weak') for a in arcs_in(w.f[0])} if got.get('metrics') is not None else set()
        rep.check(rd == weak if rd and weak else None, 'metrics:reader', '%s: the counters read are not those written' % d)
        for n in ('sessions', 'state', 'pubsub'):
            if got.get(n) is not None:
                h, w = reach(st, got[n])
                rep.check(h <= held if h else None, n + ':own', '%s: %s is not of the engine' % (d, n))
        for c in held:
            x = canon(st.mem.get(c))
            rep.check(None if x is None else find(x, lambda y: isinstance(y, Adt) and y.key == '@dm' and canon(y) != adt('@dm', 0, (EMPTY,))) is None, 'empty', '%s: not empty: %s' % (d, short(x)))
