"""Building requests (properties W02, W06): the builder and the accessors of a request, as steps on the request built so far."""
from .vals import *
from .canon import *
from .interp import Interp, State
from .engine import find_method, find_trait_method, Missing
from .rules_engine import floor, vague, eq
from .rules_wire import names, simple_cmds, decide, single, same_value, NoShape, IDX, PRE, HE

VEC8 = ('adt', 'alloc::vec::Vec', (('prim', 'u8'),))
BODY = typed(mk('body'), ('slice', ('prim', 'u8')))
BIG = 1 << 40
NARG = ladd(slen(seq((('t', PRE),))), 1)      # the number of arguments in the general state: those before the last, and the last


def value_adt(F):
    return F.adts[[k for k in F.adts if k.startswith(HE) and k.endswith('::Value')][0]]


def builder(F, name):
    return find_method(F, 'RequestBuilder', HE, name, 'builder')


def new_interp(F, passes=3):
    """loops over opaque collections are walked pass by pass"""
    I = Interp(F, 400000)

    def cut(s, fr, bb):
        hs = I.loops_of(fr)
        if any(h != bb and bb in body for h, body in hs.items()):
            # a loop within a loop starts over with every pass of the outer one
            n = s.mem.get(('inner', fr.fid, bb), 0)
            s.mem[('inner', fr.fid, bb)] = n + 1
            return 'go' if n <= 4 * passes else True
        for h in hs:
            if h != bb and h in hs[bb]:
                s.mem.pop(('inner', fr.fid, h), None)
        n = s.mem.get(('passes', fr.fid, bb), 0)
        if n > passes:
            return True
        s.mem[('passes', fr.fid, bb)] = n + 1
        return 'go'
    I.cut = cut
    I.unroll = passes
    return I


def start(F, key, args, st, targs=(), passes=3):
    I = new_interp(F, passes)
    fn = F.fns[key]
    sub = dict(zip(fn['g'], targs))
    st = st.copy()
    st.frames = []
    return I, I.start(key, args, st, sub)


class Built:
    """A builder value together with the request it stands for: command, key type, and its arguments; args is a list of byte contents, or
    (count so far, body so far) followed by one for the general state"""

    def __init__(self, st, val, cmd, kt, args, any=False):
        self.st, self.val, self.cmd, self.kt, self.args, self.any = st, val, cmd, kt, args, any

    def count(self):
        return ladd(NARG, len(self.args)) if self.any else len(self.args)


def header(F, b):
    cid, kt, pe = names(F)
    h = [('v', cid.discr[b.cmd] | (0x80 if b.kt is not None else 0))]
    if b.kt is not None:
        h.append(('v', kt.discr[b.kt]))
    return h


def arg_parts(x):
    """the parts of an argument: its length and its bytes"""
    c = parts(seq((('t', x),))) if isinstance(x, T) else parts(x)
    return be_parts(slen(seq(c))) + c


def be_parts(n):
    if isinstance(n, int):
        return tuple(('v', (n >> s) & 255) for s in (24, 16, 8, 0))
    return (('be', 'u32', n),)


def wire(F, b, simple):
    """the bytes the request must be"""
    p = tuple(header(F, b))
    if b.cmd in simple:
        return seq(p)
    p += (('v', b.count()),)
    if b.any:
        p += (('t', BODY),)
    for x in b.args:
        p += arg_parts(x)
    return seq(p)


def matches(I, st, got, want):
    """True / False / None"""
    g, w = canon(I.content(st, got)), canon(want)
    if g is w or g == w or same_value(I, st, g, w):
        return True
    if isinstance(g, T) or isinstance(w, T):
        g, w = seq((('t', g),)) if isinstance(g, T) else g, seq((('t', w),)) if isinstance(w, T) else w
        if parts(g) == parts(w):
            return True
    if not isinstance(g, Seq) or vague(g) or vague(w):
        return None
    # the same parts with equal numbers in them
    if len(g.p) == len(w.p) and all(x[0] == y[0] for x, y in zip(g.p, w.p)):
        r = True
        for x, y in zip(g.p, w.p):
            if x == y:
                continue
            if x[0] == 'v' or x[0] == 'be' and x[1] == y[1]:
                q = I.same(st, x[-1], y[-1]) if lparts(x[-1]) is not None and lparts(y[-1]) is not None else None
                if q is not True:
                    r = False
            else:
                r = False
        return r
    return False


def ask(F, st, req, name, args=(), targs=()):
    st = st.copy()
    st.mem[('in', 'req')] = req
    I, ts = start(F, find_method(F, 'Request', HE, name, 'request'), [ref(('in', 'req'))] + list(args), st, targs)
    return I, ts


def one(F, rep, key, d, st, req, name, args=(), targs=()):
    """(interp, out) of an accessor with one outcome; a panic is a violation"""
    I, ts = ask(F, st, req, name, args, targs)
    if any(o.kind == 'panic' for o in ts):
        rep.bad('%s:%s-panics' % (key, name), '%s of a request panics %s' % (name, d))
        return None, None
    if len(ts) != 1 or ts[0].kind != 'ret':
        rep.undecided('%s:%s' % (key, name), '%s of a request could not be followed %s' % (name, d))
        return None, None
    return I, ts[0]


KEYLESS = ('Echo', 'Stats')         # these work on no key of the store


def observe(F, rep, key, b, simple, st, req, iterate=False):
    """the bytes and the accessors of a request against what it stands for"""
    cid, kt, pe = names(F)
    d = '(%s%s, %s)' % (cid.names[b.cmd], ', key type ' + kt.names[b.kt] if b.kt is not None else '',
                        'any number of arguments' if b.any else '%d arguments' % len(b.args))
    n = b.count()
    I, o = one(F, rep, key, d, st, req, 'as_bytes')
    if o:
        w = wire(F, b, simple)
        rep.check(matches(I, o.st, o.val, w), key + ':bytes', 'the request is written as %s; it should be %s %s' % (
            short(canon(I.content(o.st, o.val))), short(canon(w)), d))
        if iterate:
            J, ts = start(F, find_method(F, 'Request', HE, 'into_bytes', 'request'), [req], st)
            for o in ts:
                v = J.content(o.st, o.val) if o.kind == 'ret' else None
                if isinstance(v, Adt) and len(v.f) == 1:
                    v = J.content(o.st, v.f[0])
                rep.check(False if o.kind == 'panic' else None if v is None else matches(J, o.st, v, w), key + ':into_bytes', 'the request is turned into the bytes %s; it should be %s %s' % (
                    short(canon(v)), short(canon(w)), d))
    I, o = one(F, rep, key, d, st, req, 'command_id')
    if o:
        rep.check(o.val.vi == b.cmd if isinstance(o.val, Adt) else None, key + ':command', 'the request answers command %s %s' % (short(o.val), d))
    I, o = one(F, rep, key, d, st, req, 'key_type')
    if o:
        v = o.val
        got = None if not isinstance(v, Adt) else -1 if v.vi == 0 else v.f[0].vi if isinstance(v.f[0], Adt) else None
        rep.check(None if got is None else got == (-1 if b.kt is None else b.kt), key + ':keytype', 'the request answers key type %s %s' % (short(v), d))
    I, o = one(F, rep, key, d, st, req, 'arg_count')
    if o:
        rep.check(I.same(o.st, o.val, n) if lparts(o.val) is not None else None, key + ':count', 'the request answers %s arguments %s' % (short(o.val), d))
    for j in list(range(len(b.args))) + [-1]:
        i = n if j < 0 else ladd(NARG, j) if b.any else j
        I, o = one(F, rep, key, d, st, req, 'arg', [i])
        if not o:
            continue
        v = o.val
        if not isinstance(v, Adt):
            rep.undecided(key + ':arg', 'argument %s could not be read %s' % (short(i), d))
        elif j < 0:
            rep.check(v.vi == 0, key + ':arg-extra', 'the request answers an argument %s it does not have %s' % (short(i), d))
        elif v.vi == 0:
            rep.bad(key + ':arg-missing', 'the request does not answer its argument %s %s' % (short(i), d))
        else:
            x = b.args[j]
            rep.check(matches(I, o.st, v.f[0], x if isinstance(x, Seq) else seq((('t', x),))), key + ':arg', 'argument %s is answered as %s; it is %s %s' % (
                short(i), short(canon(I.content(o.st, v.f[0]))), short(canon(x)), d))
    if not b.any:
        I, os_ = ask(F, st, req, 'key')
        for o in os_:
            v = o.val
            x = b.args[0] if b.args and cid.names[b.cmd] not in KEYLESS else None
            x = seq((('t', x),)) if x is not None and not isinstance(x, Seq) else x
            if o.kind != 'ret' or not isinstance(v, Adt):
                rep.check(False if o.kind == 'panic' else None, key + ':key', 'the key could not be read %s' % d)
            else:
                rep.check((v.vi == 0) == (x is None) or v.vi == 0 and I.rng(o.st, slen(x))[0] in (0, None), key + ':key', 'the request answers %s key %s' % ('a' if v.vi else 'no', d))
                if v.vi and x is not None:
                    rep.check(matches(I, o.st, v.f[0], x), key + ':key', 'the key is answered as %s; the first argument is %s %s' % (short(canon(I.content(o.st, v.f[0]))), short(canon(x)), d))
    if not iterate:
        return
    R = 'core::ops::range::'
    if b.any:
        # how many there are from each place on, for any number of arguments
        for lo in (None, 0, 1, 2):
            r = adt(R + 'RangeFull', 0, ()) if lo is None else adt(R + 'RangeFrom', 0, (lo,))
            I, os_ = ask(F, st, req, 'args', [r], [('adt', r.key, (('prim', 'usize'),) if r.f else ())])
            for o in os_:
                if o.kind != 'ret' or not isinstance(o.val, Adt) or o.val.vi == 0:
                    rep.check(None if o.kind != 'panic' and not isinstance(o.val, Adt) else False, key + ':args', 'a request with arguments lists none %s' % d)
                    continue
                s = o.st.copy()
                s.mem[('in', 'it')] = o.val.f[0]
                J, ts = start(F, find_trait_method(F, 'ExactSizeIterator', 'Arguments', 'len', HE), [ref(('in', 'it'))], s)
                for t in ts:
                    left = ladd(n, -(lo or 0))
                    rep.check(False if t.kind == 'panic' else None if t.kind != 'ret' or lparts(t.val) is None else J.same(t.st, t.val, left) if decide(J, t.st, 'Ge', left, 0) is True else True,
                              key + ':len', '%s arguments are said to be left where there are %s %s' % (short(t.val), short(left), d))
        return
    for lo, hi, r in [(0, len(b.args), adt(R + 'RangeFull', 0, ()))] + [(x, len(b.args), adt(R + 'RangeFrom', 0, (x,))) for x in range(3)] + [
            (0, min(2, len(b.args)), adt(R + 'RangeTo', 0, (min(2, len(b.args)),))), (min(1, len(b.args)), min(2, len(b.args)), adt(R + 'Range', 0, (min(1, len(b.args)), min(2, len(b.args)))))] + (
            [(0, 1, adt(R + 'RangeInclusive', 0, (0, 0, 0))), (1, 2, adt(R + 'RangeInclusive', 0, (1, 1, 0))), (0, 2, adt(R + 'RangeToInclusive', 0, (1,)))] if len(b.args) > 1 else []):
        ty = ('adt', r.key, (('prim', 'usize'),) if r.f else ())
        I, o = one(F, rep, key, d, st, req, 'args', [r], [ty])
        if not o:
            continue
        v = o.val
        if not isinstance(v, Adt):
            rep.undecided(key + ':args', 'the arguments could not be listed %s' % d)
            continue
        if not b.args:
            rep.check(v.vi == 0, key + ':args', 'a request without arguments lists some %s' % d)
            continue
        if v.vi == 0:
            rep.bad(key + ':args', 'a request with arguments lists none %s' % d)
            continue
        s = o.st.copy()
        s.mem[('in', 'it')] = v.f[0]
        for j in list(range(lo, hi)) + [None]:
            J, ts = start(F, find_trait_method(F, 'ExactSizeIterator', 'Arguments', 'len', HE), [ref(('in', 'it'))], s)
            left = max(hi - (hi if j is None else j), 0)
            if len(ts) != 1 or ts[0].kind != 'ret':
                rep.check(False if any(x.kind == 'panic' for x in ts) else None, key + ':len', 'how many arguments are left is not told %s' % d)
            else:
                rep.check(J.same(ts[0].st, ts[0].val, left) if lparts(ts[0].val) is not None else None, key + ':len', '%s arguments are said to be left where there are %d %s' % (short(ts[0].val), left, d))
            J, ts = start(F, find_trait_method(F, 'Iterator', 'Arguments', 'next', HE), [ref(('in', 'it'))], s)
            if len(ts) != 1 or ts[0].kind != 'ret' or not isinstance(ts[0].val, Adt):
                rep.check(False if any(x.kind == 'panic' for x in ts) else None, key + ':args', 'listing the arguments does not go on to argument %s %s' % (j, d))
                break
            x = ts[0].val
            s = ts[0].st
            if j is None or x.vi == 0:
                rep.check(j is None and x.vi == 0, key + ':args', 'the arguments from %d on end %s %s' % (lo, 'late' if j is None else 'early', d))
                break
            a = b.args[j]
            rep.check(matches(J, s, x.f[0], a if isinstance(a, Seq) else seq((('t', a),))), key + ':args', 'the arguments from %d on list %s where argument %d is %s %s' % (
                lo, short(canon(J.content(s, x.f[0]))), j, short(canon(a)), d))


def request_of(F, rep, key, b):
    """(state, request) of a builder"""
    I, ts = start(F, builder(F, 'into_request'), [b.val], b.st)
    if len(ts) != 1 or ts[0].kind != 'ret':
        rep.check(False if any(o.kind == 'panic' for o in ts) else None, key + ':into_request', 'a builder does not become a request')
        return None
    return ts[0].st, ts[0].val


def fresh(F, rep, cmd, kt, simple):
    """a new builder"""
    key = builder(F, 'new_with_key_type') if kt is not False else builder(F, 'new')
    cid, kta, pe = names(F)
    c = adt(cid.key, cmd)
    OPT = 'core::option::Option'
    if kt is False:
        I, ts = start(F, key, [c], State())
        kt = None
    else:
        v = adt(OPT, 0, ()) if kt is None else adt(OPT, 1, (adt(kta.key, kt),))
        I, ts = start(F, key, [c, v], State(), [('adt', OPT, (('adt', kta.key, ()),))])
    rep.saw(I)
    if len(ts) != 1 or ts[0].kind != 'ret':
        rep.check(False if any(o.kind == 'panic' for o in ts) else None, 'new', 'a builder for %s could not be made' % cid.names[cmd])
        return None
    return Built(ts[0].st, ts[0].val, cmd, kt, [])


def add(F, b, x, op='bytes', targ=VEC8, passes=3):
    """paths of adding x to a builder: (I, [(out, builder value after)])"""
    st = b.st.copy()
    st.mem[('in', 'b')] = b.val
    I, ts = start(F, builder(F, op), [ref(('in', 'b')), x], st, [targ], passes)
    return I, [(o, o.st.mem[('in', 'b')]) for o in ts]


def errors(F):
    return F.adts[[k for k in F.adts if k.endswith('::RequestBuilderError')][0]]


def code_of(F, v):
    """None for Ok, the name of the error otherwise, '?' when unreadable"""
    if not isinstance(v, Adt):
        return '?'
    if v.vi == 0:
        return None
    e = v.f[0]
    a = errors(F)
    return a.names[e.vi] if isinstance(e, Adt) and e.key == a.key else '?'


def general(I, v1, v2, at2, h, first=()):
    """the builder after two arguments as an instance of a builder after any number: build(idx, before, n, body).
    With first, the bytes of an argument in front of them all, after three"""
    keep = 1 if first else 0
    def go(x, y):
        if x is y or x == y:
            return lambda i, b, n, t: y
        if isinstance(x, Adt) and isinstance(y, Adt) and x.key == y.key and x.vi == y.vi and len(x.f) == len(y.f):
            fs = [go(p, q) for p, q in zip(x.f, y.f)]
            return lambda i, b, n, t: adt(y.key, y.vi, [f(i, b, n, t) for f in fs])
        if isinstance(x, Seq) and isinstance(y, Seq):
            if len(y.p) == len(x.p) + 1 == 2 + keep and y.p[:-1] == x.p and isinstance(ladd(y.p[-1][1], at2, -1), int):
                c = ladd(y.p[-1][1], at2, -1)
                return lambda i, b, n, t: seq(x.p[:keep] + b + (('v', ladd(i, c)),))
            if len(y.p) > len(x.p) > h and y.p[h + 1:len(x.p)] == x.p[h + 1:] and all(p[0] == 'v' for p in y.p[:h + 1]):
                hs = [go(p[1], q[1]) for p, q in zip(x.p[:h + 1], y.p[:h + 1])]
                if x.p[h + 1:h + 1 + len(first)] != tuple(first):
                    raise NoShape
                return lambda i, b, n, t: seq(tuple(('v', f(i, b, n, t)) for f in hs) + tuple(first) + t)
            raise NoShape
        if isinstance(x, int) and isinstance(y, int) and y == x + 1:
            return lambda i, b, n, t: ladd(n, y - 2 - keep)
        if lparts(x) is not None and lparts(y) is not None:
            c = ladd(y, at2, -1)
            if isinstance(c, int):
                return lambda i, b, n, t: ladd(i, c)
        raise NoShape
    return go(v1, v2)


def vec8(name):
    return typed(mk(name), VEC8)


def some_builders(F, rep, cmd, kt, simple):
    """builders with 0, 1, 2 arguments and with any number of them (or None), and the general form"""
    b0 = fresh(F, rep, cmd, kt, simple)
    if b0 is None:
        return None
    kt = b0.kt
    bs = [b0]
    for j in range(2):
        x = vec8('a%d' % j)
        I, ts = add(F, bs[-1], x)
        rep.saw(I)
        ok = [(o, v) for o, v in ts if o.kind == 'ret' and code_of(F, o.val) is None]
        if len(ok) != 1:
            return bs, None, None
        bs.append(Built(ok[0][0].st, ok[0][1], cmd, kt, bs[-1].args + [x]))
    h = 1 if kt is None else 2
    at = h + 1
    for x in bs[2].args:
        at = ladd(ladd(at, 4), slen(seq((('t', x),))))
    I = Interp(F)
    s1, s2 = bs[1], bs[2]
    try:
        build = general(I, canon(I.content(s1.st, s1.val)), canon(I.content(s2.st, s2.val)), at, h)
    except NoShape:
        return bs, None, None
    st = State()
    I.add_range(st, NARG, 1, 255)
    I.add_range(st, IDX, h + 6, BIG)
    body = slen(seq((('t', BODY),)))
    I.add_range(st, body, 5, BIG)
    I.assume(st, I.cmp(st, 'Eq', body, ladd(IDX, h + 1, -1)), 1)
    g = Built(st, build(IDX, (('t', PRE),), NARG, (('t', BODY),)), cmd, kt, [], any=True)
    return bs, g, build


def room(I, st, b, need, simple):
    """do `need` more arguments fit? True / False / None"""
    if b.cmd in simple:
        return False
    return decide(I, st, 'Le', ladd(b.count(), need), 255)


def first_kept(F, rep, bs, g, simple):
    """the first of any number of arguments is answered whole"""
    if g is None or len(bs) < 3:
        return
    b2 = bs[2]
    I, ts = add(F, b2, vec8('a2'))
    ok = [(o, v) for o, v in ts if o.kind == 'ret' and code_of(F, o.val) is None]
    h = 1 if b2.kt is None else 2
    b3 = Built(ok[0][0].st, ok[0][1], b2.cmd, b2.kt, b2.args + [vec8('a2')]) if len(ok) == 1 else None
    build = None
    if b3:
        at = h + 1
        for x in b3.args:
            at = ladd(ladd(at, 4), slen(seq((('t', x),))))
        first = arg_parts(b3.args[0])
        try:
            build = general(I, canon(I.content(b2.st, b2.val)), canon(I.content(b3.st, b3.val)), at, h, first)
        except NoShape:
            pass
    if build is None:
        rep.undecided('first:general', 'the builder after a first and any number of arguments was not recognised')
        return
    st = State()
    n = ladd(NARG, 1)
    I.add_range(st, n, 2, 255)
    I.add_range(st, IDX, h + 11, BIG)
    I.assume(st, I.cmp(st, 'Eq', slen(seq((('t', BODY),))), ladd(ladd(IDX, h + 1, -1), slen(seq(first)), -1)), 1)
    b = Built(st, build(IDX, (('t', PRE),), n, (('t', BODY),)), b2.cmd, b2.kt, [], any=True)
    cid, kt, pe = names(F)
    d = '(%s%s, any number of arguments)' % (cid.names[b.cmd], ', key type ' + kt.names[b.kt] if b.kt is not None else '')
    q = request_of(F, rep, 'first', b)
    if not q:
        return
    I, ts = ask(F, q[0], q[1], 'arg', [0])
    for o in ts:
        v = o.val if o.kind == 'ret' else None
        if not isinstance(v, Adt):
            rep.check(False if o.kind == 'panic' else None, 'first:arg', 'the first argument cannot be read %s' % d)
        elif v.vi == 0:
            rep.bad('first:arg', 'the first of several arguments is not answered %s' % d)
        else:
            r = matches(I, o.st, v.f[0], seq((('t', b3.args[0]),)))
            c = canon(I.content(o.st, v.f[0]))
            if r is None and isinstance(c, T) and c.op == 'sub' and not vague(c) and lparts(c.a[1]) is not None:
                # a stretch of the request that begins elsewhere
                at = I.same(o.st, c.a[1], h + 5)
                r = False if at is False else None
            rep.check(r, 'first:arg', 'the first of several arguments is answered as %s; it is %s %s' % (
                short(canon(I.content(o.st, v.f[0]))), short(b3.args[0]), d))


VALS = ('Boolean', 'Bytes', 'Float', 'Integer', 'String', 'List', 'Set', 'Map')


def expected_args(va, vi, x, I, st, k):
    """the arguments a value stands for; k: how many items it has on this path"""
    n = va.names[vi]
    if n == 'Boolean':
        return [seq((('v', x),))]
    if n in ('Float', 'Integer'):
        return [seq((('be', 'f64' if n == 'Float' else 'i64', x),))]
    if n in ('Bytes', 'String'):
        return [x]
    out = []
    for j in range(k):
        e = mk('elem', x, j)
        out += [mk('key', e), mk('val', e)] if n == 'Map' else [e]
    return out


def passes_of(st):
    """how many items the loop of this path saw"""
    ns = [v for c, v in st.mem.items() if c[0] == 'passes']
    return max(ns) - 1 if ns else 0


def items_of(I, st, x, code):
    """how many items this path took from the value"""
    if code is None and isinstance(x, T):
        lo, hi = counts_of(I, st, x)
        if lo == hi:
            return lo
    return passes_of(st)


def looked(st):
    """how many items any pass over the collection saw"""
    return max([v for c, v in st.mem.items() if c[0] == 'cpasses'] or [0])


def combos(F, simple):
    """(command, key type): every command without one, and with the first and the last; False: made without naming one"""
    cid, kt, pe = names(F)
    for c in range(len(cid.names)):
        for k in (False, None, 0, len(kt.names) - 1):
            yield c, k


def grown(F, b, more):
    return Built(None, None, b.cmd, b.kt, b.args + more, b.any)


def says(F, rep, b):
    """what a builder says it is building"""
    cid, kt, pe = names(F)
    for name, want in (('command_id_ref', b.cmd), ('key_type_ref', -1 if b.kt is None else b.kt)):
        try:
            fk = find_method(F, 'RequestBuilder', HE, name)
        except Missing:
            continue
        st = b.st.copy()
        st.mem[('in', 'builder')] = b.val
        I, ts = start(F, fk, [ref(('in', 'builder'))], st)
        rep.saw(I)
        for o in ts:
            v = I.content(o.st, o.val) if o.kind == 'ret' else None
            if isinstance(v, Adt) and v.key.endswith('::Option'):
                v = I.content(o.st, v.f[0]) if v.vi else -1
            got = v if v == -1 else v.vi if isinstance(v, Adt) else None
            rep.check(False if o.kind == 'panic' else None if got is None else got == want, 'builder:' + name, '%s of a builder answers %s' % (name, short(v)))


def W02(F, rep):
    """a request as built is written, and answered by its accessors, as exactly the arguments put in, after any number of them"""
    simple = simple_cmds(F)
    cid, kta, pe = names(F)
    va = value_adt(F)
    steps = shapes = 0
    for c, k in combos(F, simple):
        r = some_builders(F, rep, c, k, simple)
        if r is None:
            continue
        bs, g, build = r
        shapes += 1
        for b in bs + ([g] if g else []):
            says(F, rep, b)
            q = request_of(F, rep, 'build', b)
            if q:
                observe(F, rep, 'build', b, simple, q[0], q[1], iterate=True)
        if c in simple:
            continue
        if k in (False, 0):
            first_kept(F, rep, bs, g, simple)
        if g is None:
            rep.undecided('build:general', 'the builder after any number of arguments was not recognised')
        for b in (bs[1] if len(bs) > 1 else bs[0], g):
            if b is None:
                continue
            x = vec8('x')
            I, ts = add(F, b, x)
            for o, v in ts:
                if o.kind != 'ret':
                    continue        # W06
                code = code_of(F, o.val)
                e = grown(F, b, [x] if code is None else [])
                e.st, e.val = o.st, v
                q = request_of(F, rep, 'bytes', e)
                if q:
                    observe(F, rep, 'bytes', e, simple, q[0], q[1])
                if b.any and code is None:
                    at = ladd(ladd(IDX, 4), slen(seq((('t', x),))))
                    last = [p for p in seqs_of(b.val) if p and p[0] == ('t', PRE)]
                    want = build(at, (('t', PRE),) + (last[0][1:] if last else ()), ladd(NARG, 1), (('t', BODY),) + arg_parts(x))
                    rep.check(True if same_value(I, o.st, canon(I.content(o.st, v)), canon(want)) else None, 'bytes:step',
                              'the builder after one more argument is not the expected one')
                    steps += 1
            # a request taken back into a builder
            q = request_of(F, rep, 'back', b)
            if q:
                J, ts = start(F, find_trait_method(F, 'From', 'RequestBuilder', 'from', HE), [q[1]], q[0])
                for o in ts:
                    if o.kind != 'ret':
                        rep.check(False if o.kind == 'panic' else None, 'back:' + o.kind, 'a request cannot be taken back into a builder')
                        continue
                    e = Built(o.st, o.val, b.cmd, b.kt, b.args, b.any)
                    K, us = add(F, e, x)
                    for u, v in us:
                        code = code_of(F, u.val) if u.kind == 'ret' else '?'
                        if code == '?':
                            rep.check(False if u.kind == 'panic' else None, 'back:add', 'a builder made from a request panics when an argument is added')
                            continue
                        f = grown(F, b, [x] if code is None else [])
                        f.st, f.val = u.st, v
                        q2 = request_of(F, rep, 'back', f)
                        if q2:
                            observe(F, rep, 'back', f, simple, q2[0], q2[1])
        if k in (False, 0) and c in (sorted(set(range(len(cid.names))) - simple)[:2]):
            for b in (bs[0], g):
                if b is None:
                    continue
                for vi in range(len(va.names)):
                    steps += values(F, rep, b, va, vi, simple)
    rep.count('headers', shapes)
    floor(rep, shapes, 4 * 15, 'headers')
    floor(rep, steps, 50, 'steps')
    rep.sample('%d headers, %d steps' % (shapes, steps))
    rep.assume.append('lengths in memory are below 2^32')
    rep.notes.append('a value of several items is walked through up to three of them, from builders with no and with any number of arguments')


def seqs_of(v):
    if isinstance(v, Seq):
        return [v.p]
    if isinstance(v, Adt):
        return [s for x in v.f for s in seqs_of(x)]
    return []


def value_term(va, vi):
    return typed(mk('val' + va.names[vi]), va.ftys(vi)[0])


def values(F, rep, b, va, vi, simple):
    """adding a value: the bytes written are those of its items, in order"""
    x = value_term(va, vi)
    nm = va.names[vi]
    I, ts = add(F, b, adt(va.key, vi, [x]), 'value', ('adt', va.key, ()))
    n = 0
    for o, v in ts:
        if o.kind != 'ret':
            continue
        code = code_of(F, o.val)
        m = items_of(I, o.st, x, code)
        ex = expected_args(va, vi, x, I, o.st, m + 1)
        k = m * (2 if nm == 'Map' else 1) if nm in ('List', 'Set', 'Map') else 1
        e = grown(F, b, ex[:k])
        e.st, e.val = o.st, v
        q = request_of(F, rep, 'value:' + nm, e)
        if not q:
            continue
        if code is not None:
            # refused: still the request it was
            J, a = one(F, rep, 'value:' + nm, '', q[0], q[1], 'arg_count')
            if not a:
                continue
            k = ladd(a.val, b.count(), -1) if lparts(a.val) is not None else None
            if k != 0:
                rep.check(False if isinstance(k, int) else None, 'value:%s:refused' % nm, 'a refused %s leaves %s arguments behind' % (nm, short(k)))
                continue
            e = grown(F, b, ex[:k])
            e.st, e.val = o.st, v
        observe(F, rep, 'value:' + nm, e, simple, q[0], q[1])
        n += 1
    if not any(o.kind == 'ret' and code_of(F, o.val) is None for o, v in ts):
        rep.bad('value:%s:never' % nm, 'a %s is never accepted' % nm)
    return n


def empty(I, st, x):
    """is it empty? True / False / None"""
    return decide(I, st, 'Eq', slen(seq((('t', x),))) if isinstance(x, T) else slen(x), 0)


def count_of(x):
    return slen(x) if not isinstance(x, T) else mk('len', x)


def W06(F, rep):
    """an argument or value is refused exactly when it is empty or does not fit, and no call on the builder panics"""
    simple = simple_cmds(F)
    cid, kta, pe = names(F)
    va = value_adt(F)
    n = 0
    for c, k in combos(F, simple):
        r = some_builders(F, rep, c, k, simple)
        if r is None:
            continue
        bs, g, build = r
        if c not in simple and len(bs) < 3:
            rep.undecided('bytes:never', 'adding a first and a second argument could not be followed')
        deep = c in simple and k in (False, 0) or k in (False, 0) and c in (sorted(set(range(len(cid.names))) - simple)[:2])
        for b in (bs[0], g):
            if b is None:
                continue
            x = vec8('x')
            I, ts = add(F, b, x)
            n += judge(F, rep, 'bytes', I, ts, b, simple, cid, [x], lambda st: 1, ['ArgumentEmpty'])
            if not deep:
                continue
            for vi in range(len(va.names)):
                x = value_term(va, vi)
                nm = va.names[vi]
                I, ts = add(F, b, adt(va.key, vi, [x]), 'value', ('adt', va.key, ()))
                n += judge(F, rep, 'value:' + nm, I, ts, b, simple, cid,
                           [x] if nm in ('Bytes', 'String') else x if nm in ('List', 'Set', 'Map') else [],
                           None, ['ValueEmpty'] if nm in ('Bytes', 'String', 'List', 'Set', 'Map') else [], nm)
    floor(rep, n, 200, 'paths')


def counts_of(I, st, x):
    """what is known of the number of items: (least, most)"""
    lo, hi = 0, 1 << 40
    for t in (mk('len', x), mk('count', x)):
        a, b = I.rng(st, t)
        lo, hi = max(lo, a), min(hi, b)
    return lo, hi


def judge(F, rep, key, I, ts, b, simple, cid, x, need, codes, nm=None):
    n = 0
    d = '(%s, %s)' % (cid.names[b.cmd], 'after any number of arguments' if b.any else 'no arguments yet')
    ok = False
    coll = isinstance(x, T)
    per = 2 if nm == 'Map' else 1
    for o, v in ts:
        n += 1
        if o.kind == 'panic':
            rep.bad(key + ':panic', 'adding to a request panics: %s in %s %s' % (short(o.val), o.where, d))
            continue
        code = code_of(F, o.val) if o.kind == 'ret' else '?'
        st = o.st
        if code == '?':
            rep.undecided(key + ':' + o.kind, 'a path of the builder could not be read %s' % d)
            continue
        seen = items_of(I, st, x, code) if coll else 0
        if code is None:
            ok = True
            rep.check(room(I, st, b, per * seen if coll else 1, simple), key + ':full', 'a request takes more than it has room for %s' % d)
            if coll:
                rep.check(seen >= 1, key + ':empty', 'an empty %s is accepted %s' % (nm, d))
                if nm == 'List':
                    for j in range(seen):
                        e = empty(I, st, mk('elem', x, j))
                        rep.check(e is False if e is not None else False, key + ':item-empty', 'a list with an empty item is accepted %s' % d)
            for y in x if not coll else []:
                e = empty(I, st, y)
                rep.check(e is False if e is not None else False, key + ':empty', 'an empty argument is accepted %s' % d)
        elif code == 'TooManyArguments':
            if coll:
                terms = [t for t in (mk('len', x), mk('count', x))]
                full = any(room_n(I, st, b, t, per, simple) is False for t in terms) or room(I, st, b, per * max(counts_of(I, st, x)[0], 0), simple) is False
                rep.check(full, key + ':room', 'a %s is refused as too much although there may be room for it %s' % (nm, d))
            else:
                r = room(I, st, b, 1, simple)
                rep.check(r is False, key + ':room', 'an argument is refused as one too many although there may be room for it %s' % d)
        elif code in codes or code in ('ArgumentEmpty', 'ValueEmpty') and codes:
            if coll:
                zero = counts_of(I, st, x)[1] == 0 or any(empty(I, st, p) is True for j in range(max(seen, looked(st)) + 1)
                                                         for p in [mk('elem', x, j), mk('key', mk('elem', x, j)), mk('val', mk('elem', x, j))])
                rep.check(zero, key + ':not-empty', 'a %s is refused as empty although it may not be %s' % (nm, d))
            else:
                rep.check(any(empty(I, st, y) is True for y in x), key + ':not-empty', 'an argument is refused as empty although it may not be %s' % d)
        else:
            rep.bad(key + ':' + code, 'an argument that cannot be empty is refused as %s %s' % (code, d))
    if b.cmd not in simple:
        rep.check(ok, key + ':never', 'nothing is ever accepted %s' % d)
    return n


def room_n(I, st, b, t, per, simple):
    if b.cmd in simple:
        return False
    return decide(I, st, 'Le', ladd(b.count(), lmul(t, per)), 255)
