"""The client backends (properties B01, B03, B04): what a call sends, how it waits and what it makes of the answer."""
from .vals import *
from .canon import *
from .interp import Interp, State, some
from .engine import find_method, find_trait_method, Missing
from .models import NONE, ok, err, RES, POLL, OPT
from . import models as B
from .models_io import ioerr
from .rules_engine import floor, vague
from .rules_wire import names, same_value, HE
from .rules_build import value_adt
from .rules_session import flat

VEC8 = ('adt', 'alloc::vec::Vec', (('prim', 'u8'),))
STRING = ('adt', 'alloc::string::String', ())
ANS = mk('answer')
KEY = typed(mk('key'), ('slice', ('prim', 'u8')))
KEY2 = typed(mk('key2'), ('slice', ('prim', 'u8')))
KEYS = typed(mk('keys'), ('adt', 'alloc::vec::Vec', (VEC8,)))
KT = mk('kt')


class Dest:
    def __init__(self, dest):
        self.dest = dest
        self.args = ()
        self.argtys = ()
        self.m = 'poll'
        self.trait = None
        self.key = self.name = 'Future::poll'
        self.rk = self.rn = None
        self.ra = ()
        self.self = None


def payload_ty(F, vi):
    return value_adt(F).ftys(vi)[0]


def value_args(F, I, st, v):
    """the arguments a value is sent as"""
    a = value_adt(F)
    name, x = a.names[v.vi], v.f[0]
    if name == 'Boolean':
        return [('v', rval(seq((('v', typed(mk('asbyte', x), ('prim', 'u8'))),))))]
    if name == 'Integer':
        return [('v', rval(seq(be('i64', x))))]
    if name == 'Float':
        return [('v', rval(seq(be('f64', x))))]
    if name in ('Bytes', 'String'):
        return [('v', rval(x))]
    if name == 'Map':
        e = mk('elem', x, 0)
        return [('each', x, (('v', rval(mk('key', e))), ('v', rval(mk('val', e)))))]
    return [('t', x)]


# ---------------------------------------------------------------- the builder and the request, as the arguments put in
def rb_of(I, st, r):
    v = r
    n = 0
    while isinstance(v, Ref) and n < 8:
        v = I.content_once(st, v)
        n += 1
    return v if isinstance(v, Adt) and v.key == '@rb' else None


def kt_opt(v):
    if isinstance(v, Adt) and v.key.endswith('::KeyType') or isinstance(v, T) and TY.get(v, ('?',))[0] == 'adt' and TY[v][1].endswith('::KeyType'):
        return some(v)
    return v


def p_new(I, st, a, c, k):
    cell = ('H', ('rb', st.fresh('rb')))
    st.mem[cell] = EMPTY
    return k(st, adt('@rb', 0, (a[0], kt_opt(a[1]) if len(a) > 1 else NONE, ref(cell))))


def refusal(I, st, why):
    e = mk('builderr', st.fresh('builderr'), why)
    return typed(e, ('adt', 'hop_engine::command::request::builder::RequestBuilderError', ()))


def p_add(items):
    def f(I, st, a, c, k):
        rb = rb_of(I, st, a[0])
        if rb is None:
            return I.opaque(st, c, a, k)
        s2 = st.copy()
        x = I.content(st, a[1])
        new = [('v', rval(x))]
        if items:
            if not isinstance(x, Adt):
                return I.opaque(st, c, a, k)
            new = value_args(I.F, I, st, x)
        cell = rb.f[2].cell
        I.write(st, cell, (), seq(tuple(parts(I.read(st, cell, ()))) + tuple(new)))
        e = refusal(I, s2, 'value' if items else 'bytes')
        s2.event('refused', e)
        return k(st, ok(a[0])) + k(s2, err(e))
    return f


def p_request(I, st, a, c, k):
    rb = rb_of(I, st, a[0])
    if rb is None:
        return I.opaque(st, c, a, k)
    return k(st, adt('@req', 0, (rb.f[0], rb.f[1], I.read(st, rb.f[2].cell, ()))))


def p_wire(I, st, a, c, k):
    v = I.content(st, a[0])
    if not (isinstance(v, Adt) and v.key == '@req'):
        return I.opaque(st, c, a, k)
    t = typed(mk('wire', v), VEC8)
    return k(st, t if c.m == 'into_bytes' else rval(t))


def p_dispatch(I, st, a, c, k):
    """the engine: the request succeeds with one response, or fails without any"""
    hop = a[0]
    v = I.content(st, a[1])
    s2 = st.copy()
    for s, o in ((st, 1), (s2, 0)):
        s.event('dispatch', hop, v, o)
    cell, proj = B.target(I, st, a[2])
    old = I.read(st, cell, proj)
    n = typed(mk('response', v, st.fresh('response')), ('slice', ('prim', 'u8')))
    I.write(st, cell, proj, seq(tuple(parts(old)) + (('t', n),)))
    e = typed(mk('dispatcherr', 0), ('adt', 'hop_engine::command::error::Error', ()))
    return k(st, ok(UNIT)) + k(s2, err(e))


def instruction(F, name):
    for k, a in F.adts.items():
        if k.startswith(HE) and k.endswith('response::context::Instruction') or k.endswith('::Instruction') and k.startswith(HE):
            return k, a.names.index(name)
    raise Missing('Instruction')


def response(F, name):
    for k, a in F.adts.items():
        if k.startswith(HE) and k.endswith('::Response'):
            return k, a.names.index(name)
    raise Missing('Response')


def answers(I, F, st):
    """an answer per kind of value"""
    if getattr(I, 'ans', None) is not None:
        return [(st, I.ans)]
    va = value_adt(F)
    out = []
    for i in range(len(va.names)):
        s = st.copy()
        out.append((s, adt(va.key, i, (typed(mk('answer', va.names[i]), va.ftys(i)[0]),))))
    return out


def p_feed(server):
    def f(I, st, a, c, k):
        F = I.F
        buf = I.content(st, a[1])
        ik, ci = instruction(F, 'Concluded')
        rk, vi = response(F, 'Value')
        out = []
        ctx = B.target(I, st, a[0])

        def ev(s, what, x=None):
            s.event('feed', ctx, buf, what, x)
        if not server:
            p = parts(buf)
            whole = len(p) == 1 and p[0][0] == 't' and isinstance(p[0][1], T) and p[0][1].op == 'response'
            if whole:
                for s, x in answers(I, F, st):
                    ev(s, 'value', x)
                    out += k(s, ok(adt(ik, ci, (adt(rk, vi, (x,)),))))
                return out
        for s, x in answers(I, F, st):
            ev(s, 'value', x)
            out += k(s, ok(adt(ik, ci, (adt(rk, vi, (x,)),))))
        for n in ('DispatchError', 'ParseError'):
            s = st.copy()
            ev(s, n)
            rv = response(F, n)[1]
            e = typed(mk('answererr', n), F.adts[rk].ftys(rv)[0])
            s.event('why', e)
            out += k(s, ok(adt(ik, ci, (adt(rk, rv, (e,)),))))
        s = st.copy()
        ev(s, 'error')
        out += k(s, err(typed(mk('feederr', s.fresh('fe')), B.targ(c.dest, 1))))
        s = st.copy()
        ev(s, 'more')
        n = typed(mk('missing', s.fresh('missing')), ('prim', 'usize'))
        s.event('missing', n)
        I.add_range(s, n, 1, (1 << 33))
        out += k(s, ok(adt(ik, instruction(F, 'ReadBytes')[1], (n,))))
        return out
    return f


def interp(F, server, passes):
    I = Interp(F, 600000)
    P = I.prims
    RBN = lambda n: find_method(F, 'RequestBuilder', HE, n, 'builder')
    P[RBN('new')] = P[RBN('new_with_key_type')] = p_new
    P[RBN('bytes')] = p_add(False)
    P[RBN('value')] = p_add(True)
    P[RBN('into_request')] = p_request
    P[find_trait_method(F, 'From', 'Request', 'from', HE)] = p_request
    for n in ('as_bytes', 'into_bytes'):
        P[find_method(F, 'Request', HE, n, 'request')] = p_wire
    P[find_method(F, 'Hop', 'hop_engine', 'dispatch')] = p_dispatch
    P[find_method(F, 'Context', HE, 'feed', 'response')] = p_feed(server)
    I.feeds = passes

    def cut(s, fr, bb):
        """a loop that waits for something is walked pass by pass, any other is summarised"""
        body = I.loops_of(fr)[bb]
        if not any(fr.body['blocks'][b]['t'][0] == 'yield' for b in body):
            return None
        n = s.mem.get(('passes', fr.fid, bb), 0)
        if n > passes:
            return True
        s.mem[('passes', fr.fid, bb)] = n + 1
        return 'go'
    I.cut = cut
    I.alone = server
    return I


def connected(F):
    """a backend as connecting leaves it: (memory, value), or None if that cannot be followed"""
    if 'connected' not in F.__dict__:
        F.connected = None
        I = interp(F, True, 1)
        key = find_method(F, 'ServerBackend', 'hop', 'connect')
        addr = typed(mk('addr'), ('ref', False, ('str',)))
        ts = [o for o in I.start(key, [addr], State(), dict(zip(F.fns[key]['g'], [TY[addr]])), awaited(I)) if ok_of(o) is not None]
        if len(ts) == 1:
            v = I.content(ts[0].st, ok_of(ts[0]))
            if isinstance(v, Adt) and v.key.endswith('ServerBackend'):
                F.connected = ({k: x for k, x in ts[0].st.mem.items() if k[0] not in ('passes', 'L')}, v, any('BufWriter' in str(e) for e in ts[0].st.events()))
    return F.connected


def call(F, which, method, args, targs=(), passes=3, ans=None, after=None, dropping=False):
    """the paths of a method of a backend, awaited"""
    server = which == 'ServerBackend'
    I = interp(F, server, passes)
    I.ans = ans
    key = find_trait_method(F, 'Backend', which, method, 'hop')
    fn = F.fns[key]
    st = State()
    st.mem[('in', 'backend')] = typed(mk('backend'), ('adt', [k for k in F.adts if k.endswith('::' + which)][0], ()))
    if server:
        c = connected(F)
        if c is not None:
            st.mem.update(c[0])
            st.mem[('in', 'backend')] = c[1]
    if after is not None:
        st = after.copy()
    I.dropping = dropping

    ts = I.start(key, [ref(('in', 'backend'))] + list(args), st, dict(zip(fn['g'], targs)), awaited(I))
    return I, ts


def awaited(I, until=None):
    """continue with the future a function returned"""
    def k(s, v):
        cell = ('H', ('fut', s.fresh('fut')))
        s.mem[cell] = v

        def fin(s2, p):
            if isinstance(p, Adt) and p.key == POLL and p.vi == 1:
                s2.frames = []
                return I.end('dropped', None, s2)
            x = p.f[0] if isinstance(p, Adt) and p.key == POLL else p
            s2.frames = []
            return I.end('ret', x, s2)
        return B.M['Future::poll'](I, s, [ref(cell), UNIT], Dest(('adt', POLL, (('tuple', ()),))), fin)
    return k


# ---------------------------------------------------------------- what each method stands for
NUM, ANY = ('Float', 'Integer'), None
# method: (arguments, command, key type, arguments sent, kinds of answers, what is made of them)
SPEC = {
    'append': ('kv', 'Append', 'kind', 'kv', ANY, 'value'),
    'decrement': ('kt', 'Decrement', 'kt', 'k', NUM, 'value'),
    'decrement_by': ('kv', 'DecrementBy', 'kind', 'kv', NUM, 'value'),
    'delete': ('k', 'Delete', None, 'k', ('Bytes',), 'payload'),
    'echo': ('k', 'Echo', None, 'k', ('List',), 'payload'),
    'exists': ('ks', 'Exists', None, 'ks', ('Boolean',), 'payload'),
    'get': ('kt', 'Get', 'kt', 'k', ANY, 'value'),
    'increment': ('kt', 'Increment', 'kt', 'k', NUM, 'value'),
    'increment_by': ('kv', 'IncrementBy', 'kind', 'kv', NUM, 'value'),
    'is': ('tks', 'Is', 'type', 'ks', ('Boolean',), 'payload'),
    'key_type': ('k', 'Type', None, 'k', ('Integer',), 'keytype'),
    'keys': ('k', 'Keys', None, 'k', ('List',), 'payload'),
    'length': ('kt', 'Length', 'kt', 'k', ('Integer',), 'payload'),
    'rename': ('kk', 'Rename', None, 'kk', ('Bytes',), 'payload'),
    'set': ('kv', 'Set', 'kind', 'kv', ANY, 'value'),
    'stats': ('', 'Stats', None, '', ('Map',), 'stats'),
}
TAKES = {'append': ('Bytes', 'List', 'String'), 'increment_by': NUM, 'decrement_by': NUM}


class Case:
    """one call: its arguments and the request it stands for"""

    def __init__(self, method, d, args, targs, want, takes=True):
        self.method, self.d, self.args, self.targs, self.want, self.takes = method, d, args, targs, want, takes


def kind_of(F, name):
    k = [x for x in F.adts if x.startswith(HE) and x.endswith('::KeyType')][0]
    return adt(k, F.adts[k].names.index(name))


def cases(F, method):
    shape, cmd, ktrule, sent, _, _ = SPEC[method]
    cid, kts, pe = names(F)
    va = value_adt(F)
    VT = ('adt', va.key, ())
    c = adt(cid.key, cid.names.index(cmd))
    key = rval(KEY)
    k1 = ('v', rval(KEY))

    def want(kt, parts_):
        return adt('@req', 0, (c, kt, seq(parts_)))
    if shape == 'k':
        yield Case(method, '', [key], [], want(NONE, [k1]))
    elif shape == 'kk':
        yield Case(method, '', [key, rval(KEY2)], [], want(NONE, [k1, ('v', rval(KEY2))]))
    elif shape == '':
        yield Case(method, '', [], [], want(NONE, []))
    elif shape == 'kt':
        one = typed(mk('kt'), ('adt', kts.key, ()))
        for d, kt in (('without key type', NONE), ('with key type', some(one))):
            yield Case(method, d, [key, kt], [], want(kt, [k1]))
    elif shape == 'ks':
        yield Case(method, '', [KEYS], [TY[KEYS], VEC8], want(NONE, [('t', KEYS)]))
    elif shape == 'tks':
        one = typed(mk('kt'), ('adt', kts.key, ()))
        yield Case(method, '', [one, KEYS], [TY[KEYS], VEC8], want(some(one), [('t', KEYS)]))
    elif shape == 'kv':
        for i, n in enumerate(va.names):
            v = adt(va.key, i, (typed(mk('val', n), va.ftys(i)[0]),))
            yield Case(method, n, [key, v], [VT], want(some(kind_of(F, n)), [k1] + value_args(F, None, None, v)), n in TAKES.get(method, va.names))


def events(o, *kinds):
    return [e for e in o.st.events() if e[0] in kinds]


def sent(o, which):
    """the requests sent on a path: (request or None when it cannot be told, went through)"""
    out = []
    for e in o.st.events():
        if e[0] == 'dispatch' and which == 'MemoryBackend':
            out.append((e[2], e[3], e))
        if e[0] == 'io' and e[1] == 'write' and which == 'ServerBackend':
            p = parts(e[3])
            t = p[0][1] if len(p) == 1 and p[0][0] == 't' else e[3]
            out.append((t.a[0] if isinstance(t, T) and t.op == 'wire' else None, e[4], e))
    return out


def same_request(I, st, got, want):
    if got is None:
        return None
    g, w = canon(I.content(st, got)), canon(want)
    if g == w or same_value(I, st, g, w):
        return True
    if not isinstance(g, Adt) or g.f[0] != w.f[0] and isinstance(g.f[0], Adt):
        return False if isinstance(g, Adt) else None
    if g.f[1] != w.f[1] and not same_value(I, st, g.f[1], w.f[1]):
        return None if vague(g.f[1]) or isinstance(g.f[1], T) else False
    if find(g.f[2], lambda y: isinstance(y, T) and y.op == 'perm') or any(p[0] == 'some' and p[1] in [q[1] for q in parts(w.f[2]) if q[0] == 't'] for p in parts(g.f[2])):
        return False        # other order, or some left out
    if vague(g.f[2]):
        return None
    # a collection walked in another way than expected cannot be compared
    gp, wp = parts(g.f[2]), parts(w.f[2])
    coll = [p for p in wp if p[0] in ('each', 't')]
    if coll and any(p[0] in ('each', 'star', 'some') for p in gp) and gp[:1] == wp[:1] and mentions(g.f[2], coll[0][1]):
        return None
    return False


def error_of(o):
    return o.val.f[0] if isinstance(o.val, Adt) and o.val.key == RES and o.val.vi == 1 else None


def ok_of(o):
    return o.val.f[0] if isinstance(o.val, Adt) and o.val.key == RES and o.val.vi == 0 else None


def fed(o):
    """what the decoder said last: (what, the value)"""
    e = events(o, 'feed')
    return (e[-1][3], e[-1][4]) if e else (None, None)


def explore(F, rep, which, method, case, passes):
    I, ts = call(F, which, method, case.args, case.targs, passes)
    rep.saw(I)
    rep.count('paths', len(ts))
    return I, ts


def result_ok(F, I, o, method, x):
    """whether what a call returns is what the answer x says; None when it cannot be told"""
    how = SPEC[method][5]
    v = ok_of(o)
    if v is None:
        return False if error_of(o) is not None else None
    v = canon(I.content(o.st, v))
    if how == 'value':
        return True if v == canon(x) or same_value(I, o.st, v, canon(x)) else None if vague(v) else False
    want = canon(x.f[0])
    if how == 'payload':
        return True if v == want or same_value(I, o.st, v, want) else None if vague(v) else False
    if how == 'keytype':
        kt = names(F)[1]
        n = x.f[0]
        if not isinstance(v, Adt) or not isinstance(n, int):
            return None
        return n in kt.discr and v == adt(kt.key, kt.discr.index(n))
    # stats: a map with the same items
    maps = []
    find(v, lambda y: maps.append(y) or False if isinstance(y, Adt) and y.key == '@dm' else False)
    if mentions(v, want):
        whole = [y for y in maps if parts(y.f[0])] if maps else []
        for y in whole:
            p = [q for q in parts(y.f[0])]
            if len(p) == 1 and p[0][0] == 'each' and p[0][1] == want and len(p[0][2]) == 1 and p[0][2][0][0] == 'v':
                kv = p[0][2][0][1]
                f = kv if isinstance(kv, tuple) else kv.f if isinstance(kv, Adt) else ()
                if len(f) == 2 and all(isinstance(q, T) for q in f):
                    return f[0].op == 'key' and f[1].op == 'val' and f[0].a == f[1].a
            return None
        return True if not maps else None
    return False


BACKENDS = ('MemoryBackend', 'ServerBackend')


def each_call(F, rep, passes=1):
    for which in BACKENDS:
        for method in sorted(SPEC):
            for case in cases(F, method):
                d = '%s::%s%s' % (which, method, ' of ' + case.d if case.d else '')
                I, ts = explore(F, rep, which, method, case, passes)
                rep.count('calls')
                if not ts:
                    rep.undecided('%s:%s' % (which, method), '%s has no path to its end' % d)
                for o in ts:
                    if o.kind not in ('ret', 'panic'):
                        rep.undecided('%s:%s' % (which, method), '%s could not be followed: %s' % (d, short(o.val)))
                        continue
                    yield which, method, case, d, I, o


def facts_on_input(o):
    return any(mentions(x, t) for k in o.st.facts for x in (k if isinstance(k, tuple) else (k,)) for t in (KEY, KEY2, KEYS)
               if isinstance(x, (T, Adt, Seq)) or isinstance(x, tuple))


def B01(F, rep):
    """every method of both backends: sends exactly the one request it stands for (command, key type, arguments in order), unless an argument is refused or the kind of
    value is not one the command takes, and then nothing; answers the value of the response, of the documented kind only"""
    n = 0
    for which, method, case, d, I, o in each_call(F, rep):
        key = '%s:%s' % (which, method)
        s = sent(o, which)
        if events(o, 'refused') or not case.takes:
            rep.check(not s, key + ':sent', '%s sends a request although %s' % (d, 'the builder refused it' if case.takes else 'the command does not take such a value'))
            rep.check(None if o.kind == 'panic' else ok_of(o) is None, key + ':refused', '%s answers success although nothing was sent' % d)
            continue
        if o.kind == 'panic' and not s:
            rep.bad(key + ':panic', '%s panics instead of sending its request: %s' % (d, short(o.val)))
            continue
        if not s:
            rep.check(None if facts_on_input(o) else False, key + ':unsent', '%s sends nothing, and answers %s' % (d, short(o.val)))
            continue
        rep.check(len(s) == 1, key + ':once', '%s sends %d requests' % (d, len(s)))
        rep.check(same_request(I, o.st, s[0][0], case.want), key + ':request', '%s sends %s; it stands for %s' % (d, short(canon(s[0][0]) if s[0][0] is not None else s[0][2][3]), short(canon(case.want))))
        n += 1
        what, x = fed(o)
        if what != 'value':
            bad = needless(I, o, which)
            rep.check(None if bad is None else not bad, key + ':needless', '%s gives up with %s although nothing went wrong' % (d, short(canon(I.content(o.st, o.val)))))
            continue
        kinds = SPEC[method][4]
        name = value_adt(F).names[x.vi]
        if kinds is not None and name not in kinds:
            rep.check(ok_of(o) is None, key + ':kind', '%s answers success for a response of kind %s' % (d, name))
            continue
        if SPEC[method][5] == 'keytype':
            continue
        if o.kind == 'panic':
            rep.bad(key + ':panic', '%s panics on its response: %s' % (d, short(o.val)))
            continue
        rep.check(result_ok(F, I, o, method, x), key + ':answer', '%s answers %s to the response %s' % (d, short(canon(I.content(o.st, o.val))), short(x)))
    # every identifier the type command can answer
    va, kt = value_adt(F), names(F)[1]
    for which in BACKENDS:
        case = list(cases(F, 'key_type'))[0]
        for i in range(256):
            x = adt(va.key, va.names.index('Integer'), (i,))
            I, ts = call(F, which, 'key_type', case.args, case.targs, 0, ans=x)
            for o in ts:
                if fed(o)[0] != 'value' or o.kind != 'ret':
                    rep.check(o.kind != 'panic', which + ':key_type:panic', '%s::key_type panics on the response %d' % (which, i))
                    continue
                rep.check(result_ok(F, I, o, 'key_type', x) if i in kt.discr else ok_of(o) is None, which + ':key_type:answer',
                          '%s::key_type answers %s to the response %d' % (which, short(canon(o.val)), i))
                n += 1
    floor(rep, n, 600, 'responses')


def reasons(o, which):
    """what went wrong on a path, last: (text, the error if it has to be passed on)"""
    for e in reversed(o.st.events()):
        if e[0] == 'refused':
            return 'the builder refuses an argument', e[1]
        if e[0] == 'why':
            return 'the response is an error', e[1]
        if e[0] == 'dispatch':
            return ('the engine fails', mk('dispatcherr', 0)) if not e[3] else None
        if e[0] == 'io' and e[1] in ('read', 'write', 'connect', 'flush') and not e[4]:
            return 'the connection fails to %s' % e[1], True
        if e[0] == 'feed':
            return ('the response is malformed', None) if e[3] == 'error' else None
    return None


def needless(I, o, which):
    """does a path end in an error although the connection and the decoder did all they were asked to, and the input did not end; None if that cannot be said"""
    if error_of(o) is None or reasons(o, which) is not None:
        return False
    for e in reversed(o.st.events()):
        if e[0] == 'io' and e[1] == 'read' and e[4]:
            lo, hi = I.rng(o.st, slen(e[3])) if e[3] is not None else (0, 0)
            return False if hi == 0 else None if lo == 0 or facts_on_input(o) else True
    return None if facts_on_input(o) or which != 'ServerBackend' or not sent(o, which) else True


def B04(F, rep):
    """every path of every method of both backends, and of connecting, on which something fails (an argument is refused, the engine fails, writing or reading fails, the
    response is malformed, is an error or is of the wrong kind): an error is returned that carries the reason where there is one; with a server nothing panics"""
    n = 0
    for which, method, case, d, I, o in each_call(F, rep, 2):
        key = '%s:%s' % (which, method)
        what, x = fed(o)
        kinds = SPEC[method][4]
        wrong = what == 'value' and kinds is not None and value_adt(F).names[x.vi] not in kinds
        if o.kind == 'panic':
            if which == 'ServerBackend' or not wrong:
                rep.bad(key + ':panic', '%s panics: %s in %s' % (d, short(o.val), o.where))
            continue
        if wrong and which == 'MemoryBackend':
            continue
        if wrong or not case.takes:
            why = 'the response is a %s' % value_adt(F).names[x.vi] if wrong else 'the command does not take such a value', None
        else:
            why = reasons(o, which)
        if why is None and any(e[0] == 'refused' and lp for e, lp in flat(I, o)):
            why = 'the builder refuses an argument', None
        if why is None:
            continue
        n += 1
        e = error_of(o)
        rep.check(e is not None if ok_of(o) is not None or e is not None else None, key + ':surfaced', '%s answers %s although %s' % (d, short(canon(I.content(o.st, o.val))), why[0]))
        if e is not None and why[1] is not None:
            e = I.content(o.st, e)
            has = find(e, lambda y: isinstance(y, T) and y.op == 'ioerr') if why[1] is True else mentions(e, why[1])
            rep.check(True if has else None if vague(e) else False, key + ':reason', '%s loses the reason when %s: %s' % (d, why[0], short(canon(e))))
        rep.sample('%s: %s -> %s' % (d, why[0], short(canon(I.content(o.st, o.val)), 80)))
    # connecting
    I = interp(F, True, 1)
    key = find_method(F, 'ServerBackend', 'hop', 'connect')
    addr = typed(mk('addr'), ('ref', False, ('str',)))
    ts = I.start(key, [addr], State(), dict(zip(F.fns[key]['g'], [TY[addr]])), awaited(I))
    rep.saw(I)
    for o in ts:
        c = [e for e in o.st.events() if e[0] == 'io' and e[1] == 'connect']
        if o.kind != 'ret' or not c:
            rep.check(False if o.kind == 'panic' else None, 'connect:panic', 'connecting does not end in an answer: %s' % short(o.val))
            continue
        n += 1
        if c[-1][4]:
            rep.check(ok_of(o) is not None, 'connect:ok', 'connecting answers %s although it succeeds' % short(canon(o.val)))
        else:
            e = error_of(o)
            rep.check(e is not None and bool(find(I.content(o.st, e), lambda y: isinstance(y, T) and y.op == 'ioerr')), 'connect:surfaced',
                      'a failure to connect is answered as %s' % short(canon(o.val)))
    floor(rep, n, 300, 'failures')


def B03(F, rep):
    """every path of every method over a server: the request is written once, whole, and flushed if buffered; from before it is written until the whole response has been
    read one lock is held throughout; the locks are always taken in one order; each read asks for at most what the decoder said is missing (the first one for no more than the
    shortest response); the decoder is fed exactly all bytes read so far; nothing is read past the response, and no success is answered before its end"""
    n = 0
    order = {}
    for method in sorted(SPEC):
        for case in list(cases(F, method))[:1] if method not in TAKES else [c for c in cases(F, method) if c.takes][:1]:
            I, ts = explore(F, rep, 'ServerBackend', method, case, 4)
            d = 'ServerBackend::%s' % method
            for o in ts:
                if o.kind not in ('ret', 'panic'):
                    rep.undecided(method, '%s could not be followed: %s' % (d, short(o.val)))
                    continue
                n += pairing(F, rep, method, d, I, o, order)
    for (a, b), d in sorted(order.items(), key=str):
        rep.check((b, a) not in order, 'lock-order', '%s takes the lock %s while it holds %s, and elsewhere the other way round' % (d, short(b), short(a)))
    floor(rep, n, 150, 'paths over a connection')


def pairing(F, rep, method, d, I, o, order):
    ev = o.st.events()
    st = o.st
    io = [i for i, e in enumerate(ev) if e[0] == 'io' and e[1] in ('read', 'write', 'flush')]
    if not io:
        return 0
    writes = [i for i in io if ev[i][1] == 'write']
    reads = [i for i in io if ev[i][1] == 'read']
    first, last = io[0], io[-1]
    rep.check(len(writes) == 1 and writes[0] == first, method + ':write', '%s does not write its request once, before it reads' % d)
    w = ev[first]
    p = parts(w[3])
    whole = len(p) == 1 and p[0][0] == 't' and isinstance(p[0][1], T) and p[0][1].op == 'wire'
    cutoff = bool(find(w[3], lambda y: isinstance(y, T) and y.op == 'sub'))
    rep.check(True if whole else False if cutoff else None, method + ':whole', '%s may write only a part of its request: %s' % (d, short(w[3])))
    if ('BufWriter' in str(TY.get(w[2])) or (connected(I.F) or (0, 0, False))[2]) and reads:
        rep.check(any(ev[i][1] == 'flush' and ev[i][4] for i in io if first < i < reads[0]), method + ':flush', '%s waits for a response to a request it has not flushed' % d)
    held, cand = [], None
    for i, e in enumerate(ev):
        if e[0] == 'lock':
            for h in held:
                order.setdefault((h, e[1]), d)
            held.append(e[1])
        elif e[0] == 'unlock':
            c = e[1]
            x = [h for h in held if released(c, h)]
            if x:
                held.remove(x[0])
                if cand is not None and i < last and x[0] in cand:
                    cand.remove(x[0])
        if i == first:
            cand = list(held)
    if reads:
        rep.check(bool(cand), method + ':lock', '%s does not hold one lock from before it writes the request until it has read the response: another request can come between' % d)
    rep.check(not any(e[0] == 'buffered' for e in ev), method + ':buffer', '%s reads through a buffer of its own, which is thrown away with what else it has read' % d)
    # what is read and what the decoder is fed
    got, room = [], 2
    for i, e in enumerate(ev):
        if e[0] == 'io' and e[1] == 'read':
            if room is None:
                rep.bad(method + ':past', '%s reads on although the decoder asked for nothing' % d)
                break
            if e[3] is not None:
                r = I.cmp(st, 'Le', slen(e[3]), room)
                t = I.truth(st, r) if not isinstance(r, int) else r
                rep.check(bool(t) if t is not None else None, method + ':amount', '%s reads %s bytes although at most %s belong to the response' % (d, short(slen(e[3])), short(room)))
                got.append(('t', e[3]))
            room = None
        elif e[0] == 'missing':
            room = e[1]
        elif e[0] == 'feed':
            want = canon(seq(got))
            b = canon(e[2])
            same = b == want or same_value(I, st, b, want) or same_bytes(I, st, b, got)
            rep.check(True if same else None if vague(b) or find(b, lambda y: isinstance(y, T) and y.op == 'upd') else False, method + ':fed',
                      '%s feeds the decoder %s after reading %s' % (d, short(b), short(want)))
            room = None
    f = fed(o)[0]
    if ok_of(o) is not None:
        rep.check(f == 'value', method + ':early', '%s answers success before the response is complete' % d)
    if o.kind == 'ret' and f == 'more' and ev[last][0:2] == ('io', 'read') and ev[last][4] and room is not None:
        rep.bad(method + ':stops', '%s stops before the response is complete' % d)
    return 1


def same_bytes(I, st, b, got):
    """the bytes read one by one are the same as read whole"""
    out = list(parts(b))
    for x in got:
        n = slen(x[1])
        lo, hi = I.rng(st, n)
        if out and out[0] == x:
            out.pop(0)
        elif lo == hi and lo <= 16 and [p for p in out[:lo]] == [('v', I.elem_at(x[1], i)) for i in range(lo)]:
            del out[:lo]
        else:
            return False
    return not out


# ---------------------------------------------------------------- what a connection is good for afterwards
def B08(F, rep):
    """every path of every method over a server, from a connection as it was made, including those on which the operation is dropped at any place where it waits: if its request may have been
    written in part or whole and its response has not been read whole, a later operation on what is left of the backend has no path to success; if nothing was written, or the
    response was read whole, it has one; no lock is left held"""
    n = 0
    case2 = list(cases(F, 'delete'))[0]
    seen = {}

    def later(st):
        s = st.copy()
        s.frames, s.ev, s.loops, s.stop = [], None, (), None
        s.mem = {k: v for k, v in s.mem.items() if k[0] not in ('passes', 'L', 'dropped') and not (k[0] == 'H' and k[1][:1] == ('fut',))}
        key = tuple(sorted(((str(k), str(v)) for k, v in s.mem.items() if k[0] in ('in', 'mx', 'D', 'A', 'arc', 'H')), key=str))
        if key not in seen:
            I, ts = call(F, 'ServerBackend', 'delete', case2.args, case2.targs, 1, after=s)
            rep.saw(I)
            fine, odd = [], []
            for o in ts:
                if o.kind not in ('ret', 'panic'):
                    odd.append(o)
                elif ok_of(o) is not None:
                    io = [e[1] for e in o.st.events() if e[0] == 'io' and e[1] in ('read', 'write', 'connect')]
                    (fine if io[:1] == ['write'] else odd).append(o)
            seen[key] = (len(fine), len(odd))
        return seen[key]

    if connected(F) is None:
        rep.undecided('connect', 'what a connection is made of could not be read')
        return
    for method in sorted(SPEC):
        for case in [c for c in cases(F, method) if c.takes][:1]:
            d = 'ServerBackend::%s' % method
            I, ts = call(F, 'ServerBackend', method, case.args, case.targs, 2, dropping=True)
            rep.saw(I)
            rep.count('paths', len(ts))
            for o in ts:
                if o.kind == 'panic':
                    continue
                if o.kind not in ('ret', 'dropped'):
                    rep.undecided(method, '%s could not be followed: %s' % (d, short(o.val)))
                    continue
                ev = o.st.events()
                waits = next((e[1] for e in ev if e[0] == 'dropped'), None)
                wrote = any(e[0] == 'io' and e[1] == 'write' for e in ev) or waits is not None and waits.startswith('AsyncWriteExt')
                whole = fed(o)[0] in ('value', 'DispatchError', 'ParseError')
                how = 'it is dropped while it waits for %s' % waits if waits else 'it fails' if ok_of(o) is None else 'it succeeds'
                held = []
                for e in ev:
                    if e[0] == 'lock':
                        held.append(e[1])
                    elif e[0] == 'unlock':
                        held = [h for h in held if not released(e[1], h)]
                rep.check(not held, method + ':held', '%s still holds %s when %s' % (d, short(tuple(held)), how))
                fine, odd = later(o.st)
                n += 1
                if whole or not wrote:
                    rep.check(bool(fine) or (None if odd else False), method + ':usable', 'after %s no operation succeeds any more, although %s and %s' % (
                        d, how, 'its response was read whole' if whole else 'nothing was sent'))
                else:
                    rep.check(False if fine else None if odd else True, method + ':left', 'when %s, %s leaves its response on the connection, and the next operation can take it for its own' % (how, d))
                rep.sample('%s: %s; %d reads: later operations %s' % (d, how, sum(1 for e in ev if e[:2] == ('io', 'read')), 'work' if fine else 'fail'))
    floor(rep, n, 150, 'ends of an operation')


def released(c, h):
    return c == ('D', h) or isinstance(c, tuple) and (h in c or h.op == 'place' and (c[:1] == ('mx',) and h.a == c[1:] or h.a == (c, ())))
