"""The client's requests (property B02): which operation of the backend a request performs when it is awaited, and what it makes of the result."""
from .vals import *
from .canon import *
from .interp import Interp, State, some
from .facts import unify
from .engine import find_method, find_trait_method, Missing
from .models import NONE, ok, err, RES, POLL, OPT
from . import models as B
from .models_io import FUT
from .rules_engine import floor, vague
from .rules_wire import names, same_value, HE
from .rules_build import value_adt
from .rules_client import VEC8, STRING, KEY, KEY2, KEYS, Dest, kind_of, events, SPEC

LIST8 = ('adt', 'alloc::vec::Vec', (VEC8,))
PAIRS = ('adt', 'alloc::vec::Vec', (('tuple', (VEC8, VEC8)),))
K1 = typed(mk('key'), VEC8)
K2 = typed(mk('key2'), VEC8)
KS = typed(mk('keys'), LIST8)
BACKEND = 'hop::backend::Backend::'
ARG = {'Boolean': ('prim', 'bool'), 'Bytes': VEC8, 'Float': ('prim', 'f64'), 'Integer': ('prim', 'i64'), 'List': LIST8, 'String': STRING, 'Set': LIST8, 'Map': PAIRS}


def arg(name):
    return typed(mk('given', name), ARG[name])


# what is called on the client, then on the request; the operation of the backend with its arguments; how the result is returned
# arguments: k, k2, ks the keys, None no key type, a name the key type, ('v', kind) the value given, ('c', kind, number) a constant
TABLE = []


def t(path, args, op, opargs, how, bad=()):
    TABLE.append((path, args, op, opargs, how, bad))


for n, vs in (('Bytes', ('bytes',)), ('List', ('list',)), ('String', ('str', 'string'))):
    for v in vs:
        t(('append', v), ((K1,), (arg(n),)), 'append', ('k', ('v', n)), n)
for op in ('increment', 'decrement'):
    t((op,), ((K1,),), op, ('k', None), 'value')
    for v, n, one in (('float', 'Float', 1.0), ('int', 'Integer', 1)):
        t((op, v), ((K1,), ()), op + '_by', ('k', ('c', n, one)), n)
        t((op, v, 'by'), ((K1,), (), (arg(n),)), op + '_by', ('k', ('v', n)), n)
t(('delete',), ((K1,),), 'delete', ('k',), 'same')
t(('echo',), ((K1,),), 'echo', ('k',), 'same')
t(('exists', 'key'), ((), (K1,)), 'exists', ('one',), 'same')
t(('exists', 'keys'), ((), (KS,)), 'exists', ('ks',), 'same', ('NoKeys', 'TooManyKeys'))
t(('get',), ((K1,),), 'get', ('k', None), 'value')
for n, vs in (('Boolean', ('bool', 'boolean')), ('Bytes', ('bytes',)), ('Float', ('float',)), ('Integer', ('int', 'integer')), ('List', ('list',)), ('Map', ('map',)),
              ('Set', ('set',)), ('String', ('str', 'string'))):
    for v in vs:
        t(('get', v), ((K1,), ()), 'get', ('k', n), n)
        t(('set', v), ((K1,), (arg(n),)), 'set', ('k', ('v', n)), n)
    if n not in ('Boolean', 'Float', 'Integer'):
        for v in vs:
            t(('length', v), ((K1,), ()), 'length', ('k', n), 'same')
t(('set', 'value'), ((K1,), ('any',)), 'set', ('k', 'any'), 'value')
t(('is', 'key'), (('kt',), (K1,)), 'is', ('kt', 'one'), 'same')
t(('is', 'keys'), (('kt',), (KS,)), 'is', ('kt', 'ks'), 'same', ('NoKeys', 'TooManyKeys'))
t(('key_type',), ((K1,),), 'key_type', ('k',), 'same')
t(('keys',), ((K1,),), 'keys', ('k',), 'same')
t(('length',), ((K1,),), 'length', ('k', None), 'same')
t(('rename',), ((K1, K2),), 'rename', ('k', 'k2'), 'same')
t(('stats',), ((),), 'stats', (), 'same')


def p_backend(op):
    def f(I, st, a, c, k):
        return k(st, adt('@fut', 0, ('backend',  op) + tuple(a)))
    return f


def r_backend(I, st, a, ty, k):
    """an operation of the backend answers or fails"""
    op = a[0]
    st.event('op', op, tuple(canon(I.content(st, x)) for x in a[2:]))
    out = []
    s2 = st.copy()
    if SPEC[op][5] == 'value':
        va = value_adt(I.F)
        for i, nm in enumerate(va.names):
            s = st.copy()
            x = adt(va.key, i, (typed(mk('answer', nm), va.ftys(i)[0]),))
            s.event('result', x)
            out += k(s, ok(x))
    else:
        x = typed(mk('answer', op), B.targ(ty))
        st.event('result', x)
        out += k(st, ok(x))
    e = mk('backenderr', 0)
    et = B.targ(ty, 1)
    if et is not None and et[0] == 'alias':
        et = next((t for n, t in getattr(I, 'aliases', {}).items() if n in et[1]), None)
    if et is not None and et[0] == 'adt':
        e = typed(mk('backenderr', et[1]), et)
    s2.event('fails', e)
    return out + k(s2, err(e))


FUT['backend'] = r_backend


def p_poll(I, st, a, c, k):
    """the future a request keeps may be pending the first time it is polled"""
    r = a[0]
    v = I.content_once(st, r) if isinstance(r, Ref) else r
    n = 0
    while isinstance(v, Ref) and n < 10:
        v = I.content_once(st, v)
        n += 1
    if isinstance(v, Adt) and v.key == '@coro' and st.mem.get(('in', 'polls'), 0) == 0:
        st.mem[('in', 'polls')] = 1
        s2 = st.copy()
        s2.event('pending')
        return B.M['Future::poll'](I, st, a, c, k) + k(s2, adt(POLL, 1, ()))
    return B.M['Future::poll'](I, st, a, c, k)


def explore(F, path, args, anyval=None):
    """the paths of building a request on a client and awaiting it"""
    I = Interp(F, 400000)
    for op in SPEC:
        I.prims[BACKEND + op] = p_backend(op)
    I.prims['core::future::future::Future::poll'] = p_poll
    ck = [k for k in F.adts if k.startswith('hop::') and k.endswith('::Client')]
    if not ck:
        raise Missing('Client')
    cl = F.adts[ck[0]]
    st = State()
    back = typed(mk('arc backend'), cl.ftys(0)[0])
    st.mem[('in', 'client')] = adt(ck[0], 0, (back,))
    kts = names(F)[1]
    kt = typed(mk('kt'), ('adt', kts.key, ()))

    def val(x):
        return kt if x == 'kt' else anyval if x == 'any' else x

    def step(i):
        def k(s, v):
            r = v
            if isinstance(v, Adt) and v.key == RES:
                if v.vi == 1:
                    s.frames = []
                    s.event('unbuilt', v.f[0])
                    return I.end('ret', v, s)
                r = v.f[0]
            if i + 1 < len(path):
                return go(s, i + 1, r)
            # awaited
            cell = ('in', 'request')
            s.mem[cell] = r
            return poll(s, r, 0)
        return k

    def poll(s, r, n):
        rt = r.key if isinstance(r, Adt) else '?'
        fk = find_trait_method(F, 'Future', rt.split('::')[-1], 'poll', 'hop')
        fn = F.fns[fk]

        def fin(s2, p):
            if isinstance(p, Adt) and p.key == POLL and p.vi == 1 and n == 0:
                s2.event('again')
                return poll(s2, r, 1)
            s2.frames = []
            x = p.f[0] if isinstance(p, Adt) and p.key == POLL and p.vi == 0 else p
            return I.end('ret', x, s2)
        return I.push(s, fn, bind(fn, []), [ref(('in', 'request')), UNIT], fin)

    def bind(fn, vs):
        """the type parameters of a function, by the arguments given"""
        sub = {}
        for i, v in enumerate(vs):
            tv = TY.get(v) if isinstance(v, T) else ('adt', v.key, ()) if isinstance(v, Adt) else None
            if tv is not None:
                unify(fn['crate'].ty(fn['body']['locals'][i + 1]), tv, sub)
        for g in fn['g']:
            if g in ('K', 'F', 'T', 'U') and g not in sub:
                sub[g] = VEC8
        return {g: x for g, x in sub.items() if g in fn['g']}

    def go(s, i, recv):
        own = 'Client' if i == 0 else recv.key.split('::')[-1]
        key = find_method(F, own, 'hop', path[i])
        fn = F.fns[key]
        vs = [val(x) for x in args[i]]
        me = ref(('in', 'client')) if i == 0 else recv
        sub = bind(fn, [me] + vs)
        if i == 0:
            return I.start(key, [me] + vs, s, sub, step(i))
        return I.push(s, fn, sub, [me] + vs, step(i))
    ts = go(st, 0, None)
    return I, ts if ts is not None else I.terms


def expected(F, spec, anyval):
    va = value_adt(F)
    kts = names(F)[1]
    out = []
    for s in spec:
        if s == 'k':
            out.append(K1)
        elif s == 'k2':
            out.append(K2)
        elif s == 'one':
            out.append(seq((('v', K1),)))
        elif s == 'ks':
            out.append(KS)
        elif s == 'kt':
            out.append(typed(mk('kt'), ('adt', kts.key, ())))
        elif s is None:
            out.append(NONE)
        elif s == 'any':
            out.append(anyval)
        elif isinstance(s, str):
            out.append(some(kind_of(F, s)))
        elif s[0] == 'v':
            x = arg(s[1])
            out.append(adt(va.key, va.names.index(s[1]), (adt('@dm', 0, (x,)) if s[1] in ('Set', 'Map') else x,)))
        else:
            out.append(adt(va.key, va.names.index(s[1]), (mk('float', repr(s[2])) if isinstance(s[2], float) else s[2],)))
    return out


def plain(v):
    """a collection made of the items of another is compared as that other"""
    if isinstance(v, Adt) and v.key == '@dm':
        x = plain(v.f[0])
        return x if isinstance(x, T) else adt('@dm', 0, (x,))
    if isinstance(v, Seq):
        p = parts(v)
        if len(p) == 1 and p[0][0] == 't':
            return plain(p[0][1])
        if len(p) == 1 and p[0][0] == 'each' and len(p[0][2]) == 1 and p[0][2][0][0] == 'v':
            x = p[0][2][0][1]
            e = mk('elem', p[0][1], 0)
            f = x if isinstance(x, tuple) else x.f if isinstance(x, Adt) else ()
            if x == e or len(f) == 2 and all(isinstance(q, T) and q.op == 'fld' and q.a[0] == e for q in f) and [q.a[-1] for q in f] == [0, 1]:
                return plain(p[0][1])
    if isinstance(v, Adt) and v.key[0] != '@':
        return adt(v.key, v.vi, tuple(plain(x) for x in v.f))
    return v


def same(I, st, got, want):
    g, w = plain(canon(I.content(st, got))), plain(canon(want))
    if g == w or type(g) is type(w) and same_value(I, st, g, w):
        return True
    perm = lambda y: isinstance(y, T) and y.op == 'perm'
    if isinstance(g, T) and perm(g) and g.a[0] == w and not find(w, lambda y: isinstance(y, T) and y.op in ('answer', 'given') and y.a[0] in ('Set', 'Map')):
        return False        # in another order
    return None if vague(g) else False


def keys_ok(I, st):
    """(may be none, may be between 1 and 255, may be more)"""
    lo, hi = I.rng(st, slen(KS))
    return lo <= 0, hi >= 1 and lo <= 255, hi > 255


def B02(F, rep):
    """every way to build a request on a client: awaiting it performs exactly one operation of the backend, the one it is named after, with the key, key type and value given
    (also when it has to be polled more than once); returns the result or the error of it; lists of keys are refused exactly when there are none or more than 255"""
    va = value_adt(F)
    runs = []
    for path, args, op, opargs, how, bad in TABLE:
        if 'any' in opargs:
            for i, n in enumerate(va.names):
                runs.append((path, args, op, opargs, how, bad, adt(va.key, i, (typed(mk('val', n), va.ftys(i)[0]),))))
        else:
            runs.append((path, args, op, opargs, how, bad, None))
    done = 0
    for path, args, op, opargs, how, bad, anyval in runs:
        d = 'client.%s' % '.'.join(p + '()' for p in path)
        key = '.'.join(path)
        rep.count('requests')
        I, ts = explore(F, path, args, anyval)
        rep.saw(I)
        rep.count('paths', len(ts))
        if not ts:
            rep.undecided(key, '%s has no path to its end' % d)
        want = expected(F, opargs, anyval)
        for o in ts:
            if o.kind not in ('ret', 'panic'):
                rep.undecided(key, '%s could not be followed: %s' % (d, short(o.val)))
                continue
            ops = events(o, 'op')
            refused = events(o, 'unbuilt')
            if bad:
                none, fine, many = keys_ok(I, o.st)
                if refused:
                    e = refused[0][1]
                    nm = F.adts[e.key].names[e.vi] if isinstance(e, Adt) and e.key in F.adts else None
                    rep.check(None if nm is None else not fine and (nm == 'NoKeys') == none, key + ':refused', '%s refuses %s keys as %s' % (
                        d, 'no' if none else 'up to 255' if fine else 'more than 255', nm))
                    continue
                rep.check(not none and not many, key + ':keys', '%s accepts %s keys' % (d, 'no' if none else 'more than 255'))
            elif refused:
                rep.bad(key + ':refused', '%s refuses to build the request: %s' % (d, short(refused[0][1])))
                continue
            rep.check(len(ops) == 1, key + ':once', '%s performs %s' % (d, 'nothing: %s' % short(o.val) if not ops else '%d operations when polled again' % len(ops)))
            if len(ops) != 1:
                continue
            rep.check(ops[0][1] == op, key + ':operation', '%s performs the operation %s' % (d, ops[0][1]))
            if ops[0][1] != op or len(ops[0][2]) != len(want):
                continue
            for i, (g, w) in enumerate(zip(ops[0][2], want)):
                rep.check(same(I, o.st, g, w), key + ':argument', '%s passes on %s; it was given %s' % (d, short(canon(I.content(o.st, g))), short(w)))
            f = events(o, 'fails')
            r = error = None
            isok = isinstance(o.val, Adt) and o.val.key == RES and o.val.vi == 0
            iserr = isinstance(o.val, Adt) and o.val.key == RES and o.val.vi == 1
            if f:
                rep.check(False if o.kind == 'panic' or isok else same(I, o.st, o.val.f[0], f[0][1]) if iserr else None, key + ':error', '%s answers %s when the operation fails' % (d, short(o.val)))
                continue
            x = events(o, 'result')[0][1]
            if how in va.names and va.names[x.vi] != how:
                rep.check(not isok, key + ':kind', '%s answers success when the operation answers a %s' % (d, va.names[x.vi]))
                continue
            w = x.f[0] if how in va.names else x
            done += 1
            rep.check(False if o.kind == 'panic' or iserr else same(I, o.st, o.val.f[0], w) if isok else None, key + ':result', '%s answers %s when the operation answers %s' % (d, short(o.val), short(x)))
    floor(rep, done, len(runs), 'requests followed to their result')
    rep.sample('%d ways to build a request, each awaited to its result, and again after it was pending' % len(runs))
