"""Rules over the engine's dispatch paths (properties C01-C12, L06)."""
import re
from .vals import *
from .canon import *
from .epaths import *
from .split import nonzero
from .engine import arg_term, ARGC

K0 = arg_term(0)
A1 = arg_term(1)
ARGS1 = mk('args', 1, ARGC)
ARGS0 = mk('args', 0, ARGC)
AEL = mk('deref', mk('elem', ARGS1, 0))

WRITE = ('Increment', 'Decrement', 'IncrementBy', 'DecrementBy', 'Set', 'Append')
READ = ('Get', 'Exists', 'Is', 'Type', 'Length', 'Keys', 'Echo', 'Stats')
NOKEYTYPE = ('Delete', 'Exists', 'Rename', 'Stats', 'Type')
KEYED = ('Increment', 'Decrement', 'IncrementBy', 'DecrementBy', 'Set', 'Get', 'Delete', 'Rename', 'Type', 'Append',
         'Length', 'Keys')
DEFAULT = {'Set': 'bytes', 'Append': 'bytes', 'Length': 'bytes', 'Keys': 'map', 'Increment': 'integer',
           'Decrement': 'integer'}
SUPPORT = {'Append': {'bytes', 'list', 'string'}, 'Length': {'bytes', 'list', 'map', 'set', 'string'}, 'Keys': {'map'}}
VAGUE = ('ext', 'havoc', 'top', 'lv', 'badd', 'bmul', 'lsum', 'prefix', 'lvcoll', 'rt', 'const', 'some', 'star', 'plen', 'wrapsum', 'perm')


def vague(v):
    """does the value contain anything the analysis could not follow?"""
    return find(v, lambda x: isinstance(x, T) and (x.op in VAGUE or x.op in ('arg', 'elem', 'idx') and any(isinstance(q, str) for q in x.a))
                or isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str) and x[0] in ('star', 'some', 'rep')) is not None


def eq(a, b):
    """True / False, or None when it cannot be told"""
    if a is None or b is None:
        return None
    if a is b or a == b:
        return True
    ca, cb = rb(a), rb(b)
    if ca is cb or ca == cb:
        return True
    if vague(ca) or vague(cb):
        return None
    return False


def rb(v):
    v = canon(v) if not isinstance(v, (int, str)) else v
    if isinstance(v, Seq):
        # a sequence of opaque pieces per element, flattened
        return v
    return v


def flin(v):
    """a float expression as a multiset of signed terms, or None"""
    v = canon(v)
    out = {}

    def go(x, s):
        if isinstance(x, T) and x.op in ('fadd', 'fsub') and len(x.a) == 2:
            return go(x.a[0], s) and go(x.a[1], s if x.op == 'fadd' else -s)
        if isinstance(x, T) and x.op == 'fneg':
            return go(x.a[0], -s)
        if isinstance(x, T) and x.op == 'fmul' and len(x.a) == 2:
            for c, o in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if isinstance(c, T) and c.op == 'float' and c.a[0] == '-1.0':
                    return go(o, -s)
            out[x] = out.get(x, 0) + s
            return True
        if isinstance(x, T) and x.op == 'float':
            try:
                f = float(x.a[0])
            except ValueError:
                return False
            if f == int(f):
                out[1] = out.get(1, 0) + s * int(f)
                return True
        out[x] = out.get(x, 0) + s
        return True
    if not go(v, 1):
        return None
    return {k: n for k, n in out.items() if n}


def feq(a, b):
    if a is None or b is None:
        return None
    fa, fb = flin(a), flin(b)
    if fa is None or fb is None:
        return None
    if fa == fb:
        return True
    if vague(a) or vague(b):
        return None
    return False


def be_arg(ty):
    return mk('frombe', ty, mk('sub', A1, 0, 8))


# ------------------------------------------------------------------ resolved types
def kt_related(p):
    """does a fact of this path relate the key type with something else?"""
    for k in p.st.facts:
        if k[0] in ('var', 'nvar', 'rng', 'ne') and (k[1] is KT or isinstance(k[1], T) and k[1].op == 'fld' and k[1].a[0] is KT):
            continue
        if isinstance(k[1], (T, Lin)) and mentions(k[1], KT):
            return True
    return False


def required_for(p, kt):
    """types a request with this explicit key type (or none) resolves to on this path, and how"""
    cmd = p.cmd
    if cmd in ('IncrementBy', 'DecrementBy'):
        return ({'float'}, 'explicit') if kt == 'float' else ({'integer'}, 'default')
    if cmd in ('Increment', 'Decrement'):
        if kt != 'none':
            return ({'float'} if kt == 'float' else {'integer'}), 'explicit'
    elif kt != 'none':
        return {kt}, 'explicit'
    lk = [x for x in p.lookups() if x[1] is K0]
    if not lk:
        return {DEFAULT[cmd]}, 'default, without looking at the stored value'
    ts = lk[0][3]
    if ts == {'absent'}:
        return {DEFAULT[cmd]}, 'default'
    if cmd in ('Increment', 'Decrement'):
        out = set()
        if 'float' in ts:
            out.add('float')
        if ts - {'float'}:
            out.add('integer')
        return out, 'stored'
    return ts, 'stored'


def required(p):
    """the types the request may resolve to: (set of names, how) following explicit > stored > default; None when not settled"""
    kts = p.kt()
    if len(kts) > 1 and kt_related(p):
        return None, 'mixed'
    out, hows = set(), set()
    for kt in kts:
        r, how = required_for(p, kt)
        out |= r
        hows.add(how)
    return out, '/'.join(sorted(hows))


def final_value(p):
    f = p.final(K0)
    if f is None or f[1] is None:
        return None
    return p.value_of(f[1])


def initial(p):
    """(kind, value term) of the entry under which this path updates the key: ('absent', None) or ('present', entv)"""
    r = None
    for e, lp in p.events:
        if e[0] == 'dm' and state_map(e[2], p.tab) and e[3] is K0 and e[1] in ('entry', 'get_mut'):
            r = ('present', mk('entv', e[2], e[3], e[4])) if e[5] == 1 else ('absent', None)
    return r


def old_content(p, ty):
    i = initial(p)
    if i is None:
        return None
    if i[0] == 'absent':
        return {'bytes': EMPTY, 'string': EMPTY, 'list': (), 'map': (), 'set': (), 'integer': 0, 'float': mk('float', '0.0'), 'boolean': 0}[ty]
    if p.stored(i[1]) != {ty}:
        return None
    return p.value_of(i[1])[1]


def expected_content(p, ty):
    """content the documented update leaves for type ty; None when not stated"""
    c = p.cmd
    if c == 'Set':
        if ty in ('bytes', 'string'):
            return A1
        if ty == 'integer':
            return be_arg('i64')
        if ty == 'float':
            return be_arg('f64')
        if ty in ('list', 'set'):
            return (('each', ARGS1, AEL),)
        if ty == 'map':
            return (('each', mk('by', ARGS1, 2), (mk('deref', mk('elem', ARGS1, 0)), mk('deref', mk('elem', ARGS1, 1)))),)
        return None
    old = old_content(p, ty)
    if old is None:
        return None
    if c == 'Append':
        if p.argc()[1] == 1:
            return old
        if ty == 'list':
            return old + (('each', ARGS1, AEL),)
        if ty in ('bytes', 'string'):
            return seq(parts(old) + (('each', ARGS1, (('t', AEL),)),))
        return None
    sign = 1 if c.startswith('Inc') else -1
    if ty == 'integer':
        d = be_arg('i64') if c.endswith('By') else 1
        return ladd(old, d, sign)
    if ty == 'float':
        d = be_arg('f64') if c.endswith('By') else mk('float', '1.0')
        return mk('fadd' if sign > 0 else 'fsub', old, d)
    return None


def bool_of_arg(p, b):
    """is the boolean b the truth of the first byte of argument 1 on this path?"""
    return nonzero(p.I, p.st, typed(mk('idx', A1, 0), ('prim', 'u8')), norm(b, p))


def of(x):
    return seq(x) if isinstance(x, tuple) else x


def leaves_out(got, want, p=None):
    """is got what want says, except that some of a collection's elements are passed over?"""
    if isinstance(got, Seq):
        got, want = canon(got), canon(want)
    g = got.p if isinstance(got, Seq) else got
    w = want.p if isinstance(want, Seq) else want
    if not isinstance(g, tuple) or not isinstance(w, tuple):
        return False
    if p is not None and len(g) == len(w) + 1 and g[:len(w) - 1] == w[:-1] and w[-1][0] == 'each':
        # the last element it came to is beside those before it
        a, b = g[len(w) - 1], w[-1]
        if a[0] == 'each' and isinstance(a[1], T) and a[1].op == 'prefix' and a[1].a[0] is b[1] and a[2] == b[2] and stops(p, b[1]):
            return True
    if len(g) != len(w):
        return False
    hit = False
    for a, b in zip(g, w):
        if a == b:
            continue
        if a[0] == 'some' and b[0] == 'each' and a[1] is b[1] and () not in a[3]:
            # what it does for an element depends on the element
            if any(eq(of(x), of(b[2])) is False if isinstance(b[2], tuple) else len(x) != 1 or eq(x[0], b[2]) is False for x in a[3]):
                hit = True
                continue
        if a[0] == b[0] == 'each' and a[1] is b[1] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and leaves_out(a[2], b[2]):
            hit = True
            continue
        if a[0] == 'some' and b[0] == 't' and isinstance(a[1], T) and (a[1] is b[1] or mk('deref', a[1]) is b[1] or a[1] is mk('deref', b[1])) and len(a[3]) == 2 and () in a[3]:
            x = next(x for x in a[3] if x)
            if len(x) == 1 and x[0][0] == 'v' and isinstance(x[0][1], T) and (x[0][1].op == 'elem' or x[0][1].op == 'deref' and isinstance(x[0][1].a[0], T) and x[0][1].a[0].op == 'elem'):
                hit = True
                continue
        if isinstance(g, tuple) and p is not None and a[0] == b[0] == 'each' and isinstance(a[1], T) and a[1].op == 'prefix' and a[1].a[0] is b[1] and stops(p, b[1]):
            return True
        if a[0] == 'some' and b[0] == 'each' and a[1] is b[1] and len(a[3]) == 2 and () in a[3]:
            x = next(x for x in a[3] if x)
            if x == (b[2] if isinstance(b[2], tuple) else (b[2],)):
                hit = True
                continue
        return False
    return hit


def stops(p, coll):
    """a pass over the collection is given up on this path, for no reason that has to do with its end"""
    def place(x):
        return isinstance(x, T) and (x.op in ('count', 'len', 'plen', 'idx') and x.a and find(x.a[0], lambda y: isinstance(y, T) and y.op == 'prefix') is not None and x.op != 'plen'
                                     or x.op in ('rest', 'tail', 'after', 'pos', 'ended', 'lv', 'top', 'ext', 'havoc', 'rt'))
    n = count(coll)
    for k, v in p.st.facts.items():
        t = k[1] if len(k) > 1 else None
        if k[0] == 'lin' and t is not None and {x for x, _ in (t.t if isinstance(t, Lin) else t)} <= {ARGC, n}:
            continue
        if k[0] in ('rng', 'ne') and (t is ARGC or t is n):
            continue
        if k[0] not in ('rng', 'ne', 'lin', 'var', 'nvar') and not (k[0] == 'b' and isinstance(t, T) and t.op in ('pred', 'utf8', 'ovf', 'fcmp')):
            return False
        if find(t, place) is not None or how_many(t):
            return False
    return True


def how_many(x):
    """does it speak of a number of arguments?"""
    if x is ARGC or isinstance(x, T) and x.op == 'count':
        return True
    if isinstance(x, T):
        return x.op != 'args' and any(how_many(y) for y in x.a)
    if isinstance(x, Lin):
        return any(how_many(y) for y, _ in x.t)
    return isinstance(x, tuple) and any(how_many(y) for y in x)




def partial(ps, c):
    """is there a pass over c that writes something for some elements and nothing for others?"""
    return find(canon(ps), lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'some' and x[1] is c and () in x[3] and len(x[3]) == 2
                and not find(tuple(y for y in x[3]), lambda z: isinstance(z, T) and z.op == 'lv')) is not None


def content_ok(p, ty, got):
    if p.cmd == 'Set' and ty == 'boolean':
        return bool_of_arg(p, got)
    want = expected_content(p, ty)
    if want is None:
        return None
    if ty == 'float':
        r = feq(got, want)
        return r
    got, want = norm(got, p), norm(want, p)
    if ty in ('list', 'string', 'bytes') and leaves_out(got, want, p):
        return False
    return eq(got, want)


def same(p, ty, a, b):
    a, b = norm(a, p), norm(b, p)
    if ty == 'float':
        return feq(a, b)
    if isinstance(a, int) != isinstance(b, int) and ty in ('integer', 'boolean'):
        # one side was decided by a branch of this path
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and isinstance(x, (T, Lin)):
                t = p.I.truth(p.st, x)
                if t is not None:
                    return t == y
                lo, hi = p.I.rng(p.st, x)
                if not lo <= y <= hi:
                    return False
                return None if ty == 'boolean' or vague(x) else False
    return eq(a, b)


# ------------------------------------------------------------------ the rules
def every(E, rep, cmds=None):
    for n in E.broken:
        if not cmds or n in cmds:
            rep.undecided('%s:internal' % n, 'the analysis of %s failed: %s' % (n, E.broken[n]))
    for n in E.paths:
        if cmds and n not in cmds:
            continue
        rep.saw(E.I[n])
        for p in E.paths[n]:
            rep.count('paths')
            if p.kind == 'limit' or p.unknown:
                rep.undecided('%s:path' % n, 'a path of %s was not followed to its end' % n)
                continue
            yield n, p


def refusal(rep, n, p):
    """a request that has to be carried out is not turned away instead"""
    if p.kind == 'ret' and p.out == 'err' and p.code is not None:
        j = justified(p)
        rep.check(None if j is False and not settled(p) else j, '%s:refused' % n, '%s is refused with %s although nothing on this path calls for that error (%s)' % (n, p.code, p.describe()))


def C01(E, rep):
    """write commands leave the documented value and answer with it"""
    n_ok = 0
    for n, p in every(E, rep, WRITE):
        refusal(rep, n, p)
        if p.out != 'ok':
            continue
        n_ok += 1
        fv = final_value(p)
        if fv is None:
            if p.final(K0) is None:
                rep.bad('%s:nothing-stored' % n, '%s succeeds without storing anything under its key (%s)' % (n, p.describe()))
            else:
                v = p.final(K0)[1]
                kept = n == 'Set' and isinstance(v, T) and v.op == 'entv' and not any(mentions(k, v) and any(mentions(k, a) for a in (A1, ARGS1)) for k in p.st.facts)
                rep.check(False if kept else None, '%s:value' % n, '%s succeeds and leaves the value as it was (%s)' % (n, p.describe()) if kept else 'the stored value could not be read')
            continue
        ty, c = fv
        rep.check(content_ok(p, ty, c), '%s:%s:content' % (n, ty),
                  '%s leaves %s %s stored; documented is %s (%s)' % (n, ty, short(c), short(expected_content(p, ty)), p.describe()))
        try:
            f = p.frame()
        except Bad as e:
            rep.undecided('%s:frame' % n, str(e))
            continue
        r = f.ty == ty and same(p, ty, f.val, c)
        rep.check(r, '%s:%s:answer' % (n, ty), '%s answers %s %s while %s %s is stored (%s)' % (n, f.ty, short(f.val), ty, short(c), p.describe()))
        rep.sample('%s: %s -> stores and answers %s %s' % (n, p.describe(), ty, short(c, 80)))
    floor(rep, n_ok, 40, 'successful write paths')


def floor(rep, n, least, what):
    rep.counts[what] = n
    if n < least:
        rep.notes.append('only %d %s (expected at least %d)' % (n, what, least))


def C02(E, rep):
    """one well-formed response on success, nothing on failure"""
    n_ok = 0
    for n, p in every(E, rep):
        if p.kind != 'ret':
            continue
        if not p.kept:
            rep.bad('%s:buffer' % n, '%s discards what the response buffer already held (%s)' % (n, p.describe()))
            continue
        if p.out == 'err':
            rep.check(not p.resp, '%s:err-output' % n, '%s fails with %s after having written %s to the response (%s)' % (n, p.code, short(seq(p.resp)), p.describe()))
            continue
        n_ok += 1
        if not p.resp:
            rep.bad('%s:no-output' % n, '%s succeeds without writing a response (%s)' % (n, p.describe()))
            continue
        try:
            f = p.frame()
            for ty, w in sorted(f.narrowed):
                rep.bad('narrowed:%s:%s' % (ty, w), 'the %s of a %s response is cut to %s without a check that it fits: what follows no longer matches (%s, %s)'
                        % ('item count' if w == 'count' else 'length of an item', ty, 'its width' if w == 'count' else w, n, p.describe()))
            if not f.narrowed:
                rep.ok()
            rep.sample('%s -> one %s response of length %s' % (n, f.ty, short(slen(seq(p.resp)), 60)))
        except Bad as e:
            if vague_frame(p.resp):
                rep.undecided('%s:frame' % n, str(e))
            else:
                rep.bad('%s:frame' % n, '%s writes a malformed response: %s (%s)' % (n, e, p.describe()))
    floor(rep, n_ok, 100, 'successful paths')


def vague_frame(ps):
    return vague(canon(seq(ps)))


def C03(E, rep):
    """a failed command changes nothing that is stored"""
    n_err = 0
    for n, p in every(E, rep):
        if p.out != 'err':
            continue
        n_err += 1
        m = p.mutations()
        rep.check(not m, '%s:%s' % (n, p.code), '%s fails with %s but %s stored data: %s (%s)' % (n, p.code, 'changed', what(m), p.describe()))
        rep.sample('%s fails with %s, store untouched: %s' % (n, p.code, p.describe()))
    floor(rep, n_err, 60, 'failing paths')


def what(m):
    return '; '.join('%s %s' % (k, short(d, 60)) for k, d, _ in m)


def C04(E, rep):
    """read-only commands never change what is stored"""
    c = 0
    for n, p in every(E, rep, READ):
        c += 1
        m = p.mutations()
        rep.check(not m, n, '%s is a read-only command but changes stored data: %s (%s)' % (n, what(m), p.describe()))
    floor(rep, c, 60, 'read-only paths')
    rep.sample('commands: ' + ', '.join(READ))


def C05(E, rep):
    """only Set gives a stored value another type"""
    c = 0
    for n, p in every(E, rep):
        if p.kind != 'ret':
            continue
        for k, key, d in p.mutations():
            c += 1
            if k == 'write':
                cell = [e[1] for e, l in p.events if e[0] in ('ew', 'w') and p.is_entry(e[1]) and e[1][2] is key]
                if not cell:
                    continue
                cell = cell[-1]
                if not state_map(cell[1], p.tab):
                    rep.ok()
                    continue
                fresh = any(e[0] == 'dm' and e[1] in ('entry',) and e[5] == 0 and e[3] is cell[2] and e[4] == cell[3] for e, l in p.events)
                now = p.value_of(d[0]) if d[0] is not None else None
                if n == 'Set' or fresh:
                    rep.ok()
                    continue
                was = p.stored(mk('entv', cell[1], cell[2], cell[3]))
                if now is None:
                    rep.undecided('%s:type' % n, 'the written value could not be read')
                    continue
                rep.check(was == {now[0]}, '%s:type' % n, '%s turns a stored value of type %s into type %s (%s)' % (n, '/'.join(sorted(was)), now[0], p.describe()))
            elif k == 'insert' and 'locked' not in d and n not in ('Set', 'Rename'):
                rep.bad('%s:insert' % n, '%s replaces whatever is stored under %s, of any type (%s)' % (n, short(key, 40), p.describe()))
            else:
                rep.ok()
        if p.out == 'ok' and n in ('Append', 'Increment', 'Decrement', 'IncrementBy', 'DecrementBy', 'Length', 'Keys', 'Get'):
            # a value of another type than the one worked on is refused
            i = last_value(p)
            if i is None:
                continue
            c += 1
            have = p.stored(i)
            try:
                f = p.frame()
            except Bad:
                continue
            okset = {'Append': {f.ty}, 'Get': {f.ty}, 'Keys': {'map'}, 'Length': SUPPORT['Length']}.get(n, {f.ty})
            rep.check(have <= okset, '%s:other-type' % n, '%s succeeds on a stored value of type %s, working on it as %s (%s)' % (n, '/'.join(sorted(have)), '/'.join(sorted(okset)), p.describe()))
            kt = p.kt()
            if 'none' not in kt and n not in ('IncrementBy', 'DecrementBy', 'Increment', 'Decrement'):
                rep.check(have <= kt and (len(kt) == 1 or kt == have), '%s:explicit' % n, '%s with key type %s succeeds on a stored %s (%s)' % (n, '/'.join(sorted(kt)), '/'.join(sorted(have)), p.describe()))
    floor(rep, c, 60, 'typed accesses')


def last_value(p, key=K0):
    r = None
    for e, lp in p.events:
        if e[0] == 'dm' and state_map(e[2], p.tab) and e[3] is key and e[1] in ('get', 'get_mut', 'entry', 'remove') and e[5] == 1:
            r = mk('entv', e[2], e[3], e[4])
        elif e[0] == 'dm' and state_map(e[2], p.tab) and e[3] is key and e[1] in ('get', 'get_mut', 'entry', 'insert'):
            r = None
    return r


def C06(E, rep):
    """explicit key type, then the stored type, then the default"""
    c = 0
    for n, p in every(E, rep, WRITE + ('Length', 'Keys', 'Get')):
        if p.kind == 'ret' and p.out == 'err' and n != 'Get' and p.code in ('KeyTypeDifferent', 'KeyTypeInvalid', 'KeyTypeRequired', 'KeyTypeUnexpected'):
            j = justified(p)
            rep.check(None if j is False and not settled(p) else j, '%s:refused' % n, '%s is refused with %s although the key type it has to work on is one it takes, and is that of the key (%s)' % (n, p.code, p.describe()))
        if p.out != 'ok':
            continue
        kt = p.kt()
        c += 1
        if n == 'Get':
            continue
        if n in WRITE:
            fv = final_value(p)
            got = fv[0] if fv else None
        else:
            v = last_value(p)
            ts = p.stored(v) if v is not None else set()
            got = list(ts)[0] if len(ts) == 1 else None
        if got is None:
            rep.undecided('%s:type' % n, 'the type worked on could not be read')
            continue
        req, how = required(p)
        if req is None:
            rep.undecided('%s:resolve' % n, 'the path does not settle the key type')
            continue
        if len(req) > 1 and got in req:
            # several explicit or stored types lead to one result: only one can be right
            rep.bad('%s:resolve' % n, '%s works on type %s although the %s type may be any of %s (%s)' % (n, got, how, '/'.join(sorted(req)), p.describe()))
            continue
        rep.check(got in req, '%s:resolve' % n, '%s works on type %s; %s type gives %s (%s)' % (n, got, how, '/'.join(sorted(req)), p.describe()))
        rep.sample('%s: %s type -> %s (%s)' % (n, how, got, p.describe()))
    floor(rep, c, 80, 'typed command paths')


# ------------------------------------------------------------------ validation
MINARGS = {'IncrementBy': 2, 'DecrementBy': 2, 'Set': 2, 'Rename': 2, 'Exists': 1, 'Is': 1}
MISSING_ERR = ('Get', 'Length', 'Keys', 'Type', 'Rename')


def len_range(p, i):
    return p.I.rng(p.st, mk('len', arg_term(i)))


def utf8_of(p, i):
    return p.st.facts.get(('b', mk('utf8', arg_term(i))))


def settled(p):
    """are all the conditions of this path of the kinds the rules below look at?"""
    for k, v in p.st.facts.items():
        if k[0] in ('var', 'nvar'):
            continue
        if k[0] in ('rng', 'ne', 'lin'):
            ts = [k[1]] if isinstance(k[1], T) else [t for t, n in k[1].t] if isinstance(k[1], Lin) else [x[0] for x in k[1]] if isinstance(k[1], tuple) else None
            if ts is not None and all(t is ARGC or t.op in ('len', 'count') or TY.get(t) is not None for t in ts) and not vague(k[1]):
                continue
            return False
        if k[0] == 'b' and isinstance(k[1], T) and (k[1].op in ('utf8', 'ovf', 'pred', 'fcmp') or k[1].op in ('fop', 'nop') and k[1].a[0][:3] == 'is_'):
            continue
        return False
    return True


def amount_is_min(p):
    for k, v in p.st.facts.items():
        if isinstance(k[1], (T, Lin)) and mentions(k[1], be_arg('i64')):
            if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'ovf' and v == 1:
                return True
            if k[0] == 'rng' and v[0] == v[1] == -(1 << 63):
                return True
    return False


def overflows(p):
    """is the sum out of the range of an integer? True / False / None"""
    for k, v in p.st.facts.items():
        if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'ovf' and v == 1 and k[1].a[0] == 'i64':
            return True
    w = expected_content(p, 'integer')
    if w is None:
        return None
    lo, hi = p.I.rng(p.st, w)
    if lo > (1 << 63) - 1 or hi < -(1 << 63):
        return True
    if lo >= -(1 << 63) and hi <= (1 << 63) - 1:
        return False
    if any(k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'ovf' and v == 0 and k[1].a[0] == 'i64' and same_sum(k[1].a[1], w) for k, v in p.st.facts.items()):
        return False
    return None


def same_sum(x, y):
    d = ladd(x, y, -1) if lparts(x) is not None and lparts(y) is not None else None
    return d == 0


def resolved(p):
    """type worked on, also for commands without a written or read value"""
    if p.cmd in DEFAULT or p.cmd in ('IncrementBy', 'DecrementBy'):
        return required(p)[0]
    return None


def justified(p):
    """is the error of this path the documented one for what the path knows? True / False / None"""
    c, n = p.code, p.cmd
    lo, hi = p.argc()
    l1 = len_range(p, 1)
    if c == 'KeyUnspecified':
        return n in KEYED and (hi == 0 or p.key_empty(0) is True)
    if c == 'KeyTypeUnexpected':
        return n in NOKEYTYPE and 'none' not in p.kt()
    if c == 'KeyTypeRequired':
        return n == 'Is' and p.kt() == {'none'}
    if c == 'ArgumentRetrieval':
        if n in MINARGS and hi < MINARGS[n]:
            return True
        if n in ('IncrementBy', 'DecrementBy'):
            return l1[1] < 8
        if n == 'Rename':
            return p.key_empty(1) is True
        if n == 'Set':
            R = required(p)[0]
            if R is None:
                return None
            if R <= {'integer', 'float'}:
                return l1[1] < 8
            if R == {'boolean'}:
                return l1[1] < 1
            if R == {'string'}:
                return utf8_of(p, 1) == 0
            if R == {'map'}:
                return True      # an odd number of items: parity is not tracked
            return False
        if n == 'Append':
            R = required(p)[0]
            if R is None:
                return None
            bad = any(k[0] == 'b' and v == 0 and isinstance(k[1], T) and k[1].op == 'utf8' for k, v in p.st.facts.items())
            return R == {'string'} and bad
        return False
    lk = [x for x in p.lookups() if x[1] is K0]
    if c == 'KeyNonexistent':
        return n in MISSING_ERR and bool(lk) and lk[-1][3] == {'absent'}
    if c == 'PreconditionFailed':
        if n == 'Delete':
            return bool(lk) and lk[-1][3] == {'absent'}
        if n == 'Rename':
            other = [x for x in p.lookups() if x[1] is not K0]
            return bool(other) and other[-1][3] != {'absent'} and other[-1][1] is A1
        if n in ('Increment', 'Decrement', 'IncrementBy', 'DecrementBy'):
            R = required(p)[0]
            if R is None:
                return None
            if R != {'integer'}:
                return False
            o = overflows(p)
            return True if n == 'DecrementBy' and amount_is_min(p) else o
        return False
    if c == 'KeyTypeDifferent':
        if n == 'Get':
            return bool(lk) and 'none' not in p.kt() and not (lk[-1][3] & p.kt())
        if n == 'Set' or n not in DEFAULT and n not in ('IncrementBy', 'DecrementBy'):
            return False
        R = required(p)[0]
        if R is None:
            return None
        if n == 'Append' and not (R & SUPPORT['Append']):
            return True
        return bool(lk) and lk[-1][3] != {'absent'} and not (lk[-1][3] & R)
    if c == 'KeyTypeInvalid':
        if n not in ('Length', 'Keys'):
            return False
        R = required(p)[0]
        return None if R is None else not (R & SUPPORT[n])
    return False


PAIRS = (3, 4, 5, 6, 9, 10, 33, 34)


def C07(E, rep):
    """each error is returned under exactly the documented condition, and success implies none of them"""
    c = 0
    for n, p in every(E, rep):
        if p.kind != 'ret':
            continue
        c += 1
        if p.out == 'err':
            if p.code is None:
                rep.undecided('%s:code' % n, 'the error code could not be read')
                continue
            j = justified(p)
            if j is False and not settled(p):
                j = None
            rep.check(j, '%s:%s' % (n, p.code), '%s is refused with %s although nothing on this path calls for that error (%s)' % (n, p.code, p.describe()))
            rep.sample('%s -> %s: %s' % (n, p.code, p.describe()))
            continue

        def need(ok, what_):
            if ok is False and not settled(p):
                ok = None
            rep.check(ok, '%s:ok:%s' % (n, what_), '%s succeeds %s (%s)' % (n, what_, p.describe()))
        lo, hi = p.argc()
        if n in KEYED:
            need(lo >= 1 and p.key_empty(0) is False, 'with a missing or empty key')
        if n in MINARGS:
            need(lo >= MINARGS[n], 'with %d argument(s) at most' % lo)
        if n == 'Rename':
            need(p.key_empty(1) is False, 'with an empty new key')
        if n in NOKEYTYPE:
            need(p.kt() == {'none'}, 'with a key type')
        if n == 'Is':
            need('none' not in p.kt(), 'without a key type')
        lk = [x[3] for x in p.lookups() if x[1] is K0]
        if n in MISSING_ERR + ('Delete',):
            need(bool(lk) and lk[-1] != {'absent'}, 'without a stored value')
        if n == 'Rename':
            other = [x for x in p.lookups() if x[1] is A1 and x[0] != 'insert']
            rep.check(other[0][3] == {'absent'} if other else False, 'Rename:ok:over', 'Rename succeeds %s (%s)' % ('over an existing key' if other else 'without looking for the new key', p.describe()))
        if n in WRITE + ('Length', 'Keys', 'Get') and n != 'Set' and lk and lk[-1] != {'absent'}:
            R = p.kt() if n == 'Get' else required(p)[0]
            if n == 'Get' and 'none' in R:
                R = None
            if R is not None:
                need(bool(R & lk[-1]), 'for the key type %s on a stored %s' % ('/'.join(sorted(R)), '/'.join(sorted(lk[-1]))))
        if n in ('IncrementBy', 'DecrementBy'):
            need(len_range(p, 1)[0] >= 8, 'with an amount shorter than 8 bytes')
        if n in ('Increment', 'Decrement', 'IncrementBy', 'DecrementBy') and required(p)[0] == {'integer'} and p.final(K0):
            o = overflows(p)
            if o is None and find(p.final(K0)[1], lambda x: isinstance(x, T) and x.op in ('wrap', 'wrapping', 'saturating')):
                o = True
            need(None if o is None else not o, 'although the result does not fit an integer')
        if n == 'Append' and required(p)[0] == {'string'} and p.final(K0):
            v = p.final(K0)[1]
            loose = find(v, lambda x: isinstance(x, T) and x.op == 'lossy' or isinstance(x, Seq) and any(y[0] == 'some' and mentions(y[1], ARGC) for y in x.p))
            rep.check(not loose, 'Append:ok:utf8', 'Append succeeds with a string that may not be UTF-8 (%s)' % p.describe())
        if n == 'Set':
            R = required(p)[0]
            if R is None:
                rep.undecided('%s:type' % n, 'the key type is not settled')
            elif R <= {'integer', 'float'}:
                need(len_range(p, 1)[0] >= 8, 'with a number shorter than 8 bytes')
            elif R == {'boolean'}:
                need(len_range(p, 1)[0] >= 1, 'with an empty boolean')
            elif R == {'string'}:
                need(utf8_of(p, 1) == 1, 'with a string that may not be UTF-8')
    # the items of a map come in pairs: exact numbers of arguments
    for k in PAIRS:
        E2 = Engine(E.F, ('Set',), argc=k)
        seen = 0
        for n, p in every(E2, rep):
            R = required(p)[0]
            if p.kind != 'ret' or R != {'map'} or p.out == 'err' and p.code != 'ArgumentRetrieval':
                continue
            seen += 1
            if k % 2:
                rep.check(p.out != 'err', 'Set:ArgumentRetrieval', 'Set of a map is refused for %d items, which are whole pairs (%s)' % (k - 1, p.describe()))
            else:
                rep.check(p.out == 'err', 'Set:ok:pairs', 'Set of a map succeeds with %d items, one of which has no value (%s)' % (k - 1, p.describe()))
        rep.check(seen > 0 or None, 'Set:pairs', 'no path of Set of a map with %d arguments was seen' % k)
    floor(rep, c, 300, 'returning paths')


# ------------------------------------------------------------------ atomicity and locks
def entvs(v, tab):
    """versions of stored values a value depends on: {(key, ver)}"""
    out = set()

    def f(x):
        if isinstance(x, T) and x.op == 'entv' and state_map(x.a[0], tab):
            out.add((x.a[1], x.a[2]))
        return False
    find(v, f)
    return out


def C08(E, rep):
    """a write happens under one exclusive hold of its key and from the value seen under that hold; a read answers from one look"""
    c = 0
    for n, p in every(E, rep, WRITE + ('Get', 'Length', 'Keys')):
        if p.out != 'ok':
            continue
        c += 1
        if n not in WRITE:
            vs = entvs(p.resp and seq(p.resp), E.tab)
            rep.check(len(vs) <= 1, '%s:one-read' % n, '%s answers from %d separate reads of the store (%s)' % (n, len(vs), p.describe()))
            if len(vs) == 1 and n == 'Get' and 'none' not in p.kt():
                # what it answers from is what it looked at, whatever happened in between
                key, ver = next(iter(vs))
                for mt in {e[2] for e, lp in p.events if e[0] == 'dm' and e[3] is key and e[4] == ver}:
                    ts = p.stored(mk('entv', mt, key, ver))
                    rep.check(ts <= p.kt(), '%s:other-look' % n, '%s answers with a %s although the type is to be %s: the type was that of an earlier look (%s)' % (
                        n, '/'.join(sorted(ts)), '/'.join(sorted(p.kt())), p.describe()))
            continue
        holds = []       # exclusive holds under which this path changes the store
        loose = []       # inserts that replace whatever is there
        removed = False
        for e, lp in p.events:
            if e[0] == 'dm' and state_map(e[2], p.tab):
                if e[1] == 'insert' and 'locked' in e[6:]:
                    h = (e[3], e[4])
                    if h not in holds:
                        holds.append(h)
                elif e[1] == 'insert':
                    loose.append((e[3], e[4], e[6]))
                elif e[1] in ('remove', 'clear', 'retain', 'alter') and e[5] != 0:
                    removed = True
            elif e[0] in ('ew', 'w') and p.is_entry(e[1]) and state_map(e[1][1], p.tab):
                h = (e[1][2], e[1][3])
                if h not in holds:
                    holds.append(h)
        if removed:
            rep.bad('%s:removes' % n, '%s takes its key out of the store on the way, so others see it missing (%s)' % (n, p.describe()))
            continue
        if loose:
            ok = n == 'Set' and len(loose) == 1 and not holds and not entvs(loose[0][2], E.tab)
            rep.check(ok, '%s:unguarded-insert' % n, '%s stores a value with an insert that is not under the hold in which the old value was read: an update in between is lost (%s)' % (n, p.describe()))
            continue
        if len(holds) > 1:
            rep.bad('%s:two-steps' % n, '%s changes its key in %d separate steps (%s)' % (n, len(holds), p.describe()))
            continue
        if not holds:
            # nothing changed: nothing to be atomic about
            rep.ok()
            continue
        h = holds[0]
        cells = [('ent', e[1][1], e[1][2], e[1][3]) for e, lp in p.events if e[0] in ('ew', 'w') and p.is_entry(e[1])] + \
                [('ent', e[2], e[3], e[4]) for e, lp in p.events if e[0] == 'dm' and e[1] == 'insert' and 'locked' in e[6:] and state_map(e[2], p.tab)]
        dep = set()
        for cl in cells:
            dep |= entvs(p.st.mem.get(cl), E.tab)
        dep |= entvs(p.resp and seq(p.resp), E.tab)
        rep.check(dep <= {h}, '%s:stale' % n, '%s works with a value of its key read before it held the key exclusively (%s)' % (n, p.describe()))
        rep.sample('%s: one exclusive hold (%s)' % (n, p.describe()))
    floor(rep, c, 100, 'successful paths')


def guard_clashes(p, same_table=None):
    """operations on a table while a guard of the same table is held: list of (held, op event); and whether any guard was seen"""
    held = {}       # cell -> 'r' | 'w'
    out = []
    n = 0
    for e, lp in p.events if hasattr(p, 'events') else p:
        if e[0] == 'dm':
            op, mt, key, ver, oc = e[1], e[2], e[3], e[4], e[5]
            if 'locked' in e[6:]:
                continue
            for cell, mode in held.items():
                if cell[1] is mt and not (cell[2] is key and cell[3] == ver and op == 'insert'):
                    wr = op in MUT or op in ('entry', 'get_mut')
                    if mode == 'w' or wr:
                        out.append((cell, e))
            if lp and (op in MUT or op in ('entry', 'get_mut')) and any(c is mt for c in lp) and any(
                    x[0][0] == 'dm' and x[0][1] == 'iter' and x[0][2] is mt for x in (p.events if hasattr(p, 'events') else p)):
                out.append((('iter', mt, None, None), e))
            if op in ('get', 'get_mut') and oc == 1 or op == 'entry':
                held[('ent', mt, key, ver)] = 'r' if op == 'get' else 'w'
                n += 1
        elif e[0] == 'rel':
            held.pop(tuple(e[1]), None)
    return out, n, held


def C09(E, rep):
    """no table of the engine is locked again while a lock on it is held, and none is left locked"""
    c = 0
    for n, p in every(E, rep):
        if p.kind != 'ret':
            continue
        cl, k, left = guard_clashes(p)
        c += k
        for cell, e in cl:
            rep.bad('%s:%s-under-guard' % (n, e[1]), '%s does "%s" on a table while it still holds an entry of that table: with both keys in one shard it waits for itself (%s)' % (n, e[1], p.describe()))
        if not cl:
            rep.ok()
        if left:
            rep.undecided('%s:left' % n, 'a guard taken on this path was not seen released')
    floor(rep, c, 100, 'guards followed')


# ------------------------------------------------------------------ delete, rename
def C10(E, rep):
    """delete removes just its key; rename moves the value unchanged and never over an existing key"""
    c = 0
    for n, p in every(E, rep, ('Delete', 'Rename')):
        refusal(rep, n, p)
        if p.out != 'ok':
            continue
        c += 1
        m = p.mutations()
        target = K0 if n == 'Delete' else A1
        try:
            f = p.frame()
            rep.check(True if f.ty == 'bytes' and eq(f.val, target) else False if f.ty != 'bytes' else eq(f.val, target), '%s:answer' % n,
                      '%s answers %s %s instead of the %s key (%s)' % (n, f.ty, short(f.val), 'removed' if n == 'Delete' else 'new', p.describe()))
        except Bad as e:
            rep.undecided('%s:frame' % n, str(e))
        if n == 'Delete':
            rep.check(len(m) == 1 and m[0][0] == 'remove' and m[0][1] is K0, 'Delete:effect', 'Delete succeeds with other effects than removing its key: %s (%s)' % (what(m) or 'none', p.describe()))
            continue
        rem = [x for x in m if x[0] == 'remove']
        ins = [x for x in m if x[0] == 'insert' or x[0] == 'write']
        oth = [x for x in m if x[0] not in ('remove', 'insert', 'write')]
        if oth or len(rem) != 1 or rem[0][1] is not K0:
            rep.bad('Rename:remove', 'Rename succeeds without removing exactly the old key: %s (%s)' % (what(m), p.describe()))
            continue
        if len(ins) < 1 or any(x[1] is not A1 for x in ins):
            rep.bad('Rename:insert', 'Rename succeeds without storing exactly the new key: %s (%s)' % (what(m), p.describe()))
            continue
        rver = [e[4] for e, lp in p.events if e[0] == 'dm' and e[1] == 'remove' and e[3] is K0 and e[5] == 1 and state_map(e[2], p.tab)]
        fin = p.final(A1)
        v = fin[1] if fin else None
        smap = [e[2] for e, lp in p.events if e[0] == 'dm' and e[1] == 'remove' and e[3] is K0 and state_map(e[2], p.tab)]
        want = mk('entv', smap[0], K0, rver[0])
        if v is want or isinstance(v, Adt) and p.same_value(v, want):
            rep.ok()
        elif v is None or vague(v):
            rep.undecided('Rename:value', 'the moved value could not be read')
        else:
            vs = entvs(v, p.tab)
            if vs and vs != {(K0, rver[0])} and isinstance(v, T):
                rep.bad('Rename:copied', 'Rename stores a copy read before the old key was removed: an update in between is lost (%s)' % p.describe())
            else:
                rep.bad('Rename:value', 'Rename stores %s under the new key (%s)' % (short(v), p.describe()))
        # the new key must be free
        locked = any(e[0] == 'dm' and e[1] == 'entry' and e[3] is A1 and e[5] == 0 for e, lp in p.events)
        over = any(e[0] == 'dm' and e[1] == 'entry' and e[3] is A1 and e[5] == 1 for e, lp in p.events)
        looked = [x for x in p.lookups() if x[1] is A1 and x[0] not in ('insert',)]
        if over or looked and looked[-1][3] != {'absent'}:
            rep.bad('Rename:overwrites', 'Rename succeeds although the new key exists (%s)' % p.describe())
        elif locked:
            rep.ok()
        elif looked:
            rep.bad('Rename:check-then-insert', 'Rename looks whether the new key is free and inserts it later without holding it: a value stored in between is overwritten')
        else:
            rep.bad('Rename:no-check', 'Rename stores the new key without looking whether it exists (%s)' % p.describe())
    floor(rep, c, 2, 'successful paths')


# ------------------------------------------------------------------ metrics
def C12(E, rep):
    """each dispatched command counts itself once, as successful or as errored, whichever it was"""
    good, badm = 'CommandsSuccessful', 'CommandsErrored'
    c = 0
    for n, p in every(E, rep):
        if p.kind != 'ret':
            continue
        c += 1
        ms = []
        for e, lp in p.events:
            if e[0] == 'metric':
                v = e[2]
                ms.append((e[1], p.tab.metric[v.vi] if isinstance(v, Adt) and v.key == p.tab.adts['metric'].key else None, lp))
        want = good if p.out == 'ok' else badm
        if any(m is None for a, m, lp in ms):
            rep.undecided('%s:metric' % n, 'a counted metric could not be read')
            continue
        rep.check(ms == [('increment', want, None)], '%s:%s' % (n, p.out), '%s returns %s and counts %s; it has to count %s once (%s)' % (
            n, 'Ok' if p.out == 'ok' else p.code, ', '.join('%s %s' % (a, m) for a, m, lp in ms) or 'nothing', want, p.describe()))
    floor(rep, c, 300, 'returning paths')


def metric_names(F, tab):
    """metric variant -> the bytes Metric::name gives for it"""
    from . import engine
    from .interp import Interp
    out = {}
    for i, m in enumerate(tab.metric):
        I = Interp(F, 20000)
        from .interp import State
        st = State()
        k = engine.find_method(F, 'Metric', 'hop_engine', 'name')
        vs = set()
        for o in I.start(k, [adt(tab.adts['metric'].key, i)], st):
            v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
            vs.add(v)
        if len(vs) == 1:
            out[m] = next(iter(vs))
    return out


def C13(E, rep):
    """stats reports each counter that exists, under its name, as the value read"""
    names = metric_names(E.F, E.tab)
    vals = [short(v) for v in names.values()]
    rep.check(len(set(vals)) == len(vals) == len(E.tab.metric), 'names', 'two metrics share a name: %s' % ', '.join(vals))
    mk_ = E.tab.adts['metric'].key
    c = 0
    seen = set()
    for n, p in every(E, rep, ('Stats',)):
        if p.out != 'ok':
            continue
        c += 1
        try:
            f = p.frame()
        except Bad as e:
            rep.undecided('Stats:frame', str(e))
            continue
        if f.ty != 'map':
            rep.bad('Stats:type', 'Stats answers %s' % f.ty)
            continue
        want = {}
        up = [e for e, lp in p.events if e[0] == 'upgrade' and e[2] == 0]
        for e, lp in p.events:
            if e[0] == 'dm' and e[1] == 'get' and isinstance(e[3], Adt) and e[3].key == mk_:
                m = E.tab.metric[e[3].vi]
                seen.add(m)
                if e[5] == 1:
                    ev = mk('entv', e[2], e[3], e[4])
                    if p.I.rng(p.st, ev)[1] <= (1 << 63) - 1:
                        want[m] = ev
        got = {}
        okread = True
        for it in f.val:
            if it[0] != 'one' or not isinstance(it[1], tuple):
                okread = False
                continue
            got[canon(it[1][0])] = canon(it[1][1])
        if not okread:
            rep.undecided('Stats:items', 'the items of the answer could not be read one by one')
            continue
        for m, ev in want.items():
            g = got.pop(names.get(m), None)
            if g is None:
                rep.bad('Stats:%s:missing' % m, 'Stats reads %s and leaves it out of its answer (%s)' % (m, p.describe()))
                continue
            w = canon(seq((('be', 'i64', ev),)))
            rep.check(True if g == w or g is w else None if vague(g) else False, 'Stats:%s:value' % m, 'Stats reports %s for %s; the counter is %s' % (short(g), m, short(w)))
        for k in got:
            rep.bad('Stats:extra', 'Stats reports %s, which it has not read (%s)' % (short(k), p.describe()))
        if not up and len(p.events) and all(True for _ in ()):
            pass
    for m in E.tab.metric:
        rep.check(m in seen, 'Stats:%s:unread' % m, 'Stats never reads %s' % m)
    floor(rep, c, 16, 'successful paths')
    rep.sample('; '.join('%s = %s' % (m, short(v)) for m, v in names.items()))


# ------------------------------------------------------------------ what reads answer
def expected_read(p):
    """(type, content) the answer of a reading command must have on this path; None when not stated"""
    n = p.cmd
    if n == 'Echo':
        if p.argc()[1] == 0:
            return 'list', ()
        return 'list', (('each', ARGS0, mk('deref', mk('elem', ARGS0, 0))),)
    v = last_value(p)
    if v is None:
        return None
    if n == 'Type':
        ts = p.stored(v)
        if len(ts) != 1:
            return None
        return 'integer', p.tab.ktd[p.tab.kt.index(next(iter(ts)))]
    pv = p.value_of(v)
    if pv is None:
        return None
    ty, c = pv
    if n == 'Get':
        return ty, c
    vi = p.tab.val.index(ty)
    raw = mk('fld', v, vi, 0)
    if n == 'Length':
        if ty == 'string':
            return 'integer', mk('len', mk('chars', raw))
        if ty in ('bytes', 'list', 'map', 'set'):
            return 'integer', slen(raw)
        return None
    if n == 'Keys' and ty == 'map':
        return 'list', (('each', raw, mk('key', mk('elem', raw, 0))),)
    return None


def C16(E, rep):
    """get, length, keys, type and echo answer with what is stored (or sent)"""
    c = 0
    for n, p in every(E, rep, ('Get', 'Length', 'Keys', 'Type', 'Echo')):
        refusal(rep, n, p)
        if p.out != 'ok':
            continue
        c += 1
        w = expected_read(p)
        if w is None:
            rep.check(False if n != 'Echo' and last_value(p) is None and settled(p) else None, '%s:unread' % n, '%s succeeds without a stored value to answer from (%s)' % (n, p.describe()))
            continue
        try:
            f = p.frame()
        except Bad as e:
            if p.resp is not None and isinstance(w[1], tuple) and any(x[0] == 'each' and partial(seq(p.resp), x[1]) for x in w[1]):
                rep.bad('%s:left-out' % n, '%s leaves some of the items of its answer out (%s)' % (n, p.describe()))
            else:
                rep.undecided('%s:frame' % n, str(e))
            continue
        r = f.ty == w[0] and same(p, w[0], f.val, w[1])
        rep.check(r, '%s:%s' % (n, w[0]), '%s answers %s %s; expected is %s %s (%s)' % (n, f.ty, short(f.val), w[0], short(w[1]), p.describe()))
        rep.sample('%s: answers %s %s' % (n, w[0], short(w[1], 70)))
    floor(rep, c, 40, 'successful paths')


def args_covered(p, ops):
    """do the lookups of this path look at every argument as a key? (direct indices, loops over the rest)"""
    direct, froms = set(), set()
    for e, lp in p.events:
        if e[0] != 'dm' or not state_map(e[2], p.tab) or e[1] not in ops:
            continue
        k = canon(e[3])
        if isinstance(k, T) and k.op == 'arg' and isinstance(k.a[0], int):
            direct.add(k.a[0])
        elif isinstance(k, T) and k.op == 'deref' and isinstance(k.a[0], T) and k.a[0].op == 'elem':
            cl = k.a[0].a[0]
            if isinstance(cl, T) and cl.op == 'args' and isinstance(cl.a[0], int) and cl.a[1] is ARGC:
                froms.add(cl.a[0])
            else:
                return None
        else:
            return None
    lo, hi = p.argc()
    if froms:
        return set(range(min(froms))) <= direct
    return lo == hi and set(range(lo)) <= direct


LOOK = ('get', 'contains', 'get_mut', 'entry')


def C17(E, rep):
    """exists and is answer true exactly when every key given exists (and has the type)"""
    c = 0
    for n, p in every(E, rep, ('Exists', 'Is')):
        refusal(rep, n, p)
        if p.out != 'ok':
            continue
        c += 1
        try:
            f = p.frame()
        except Bad as e:
            rep.undecided('%s:frame' % n, str(e))
            continue
        if f.ty != 'boolean':
            rep.bad('%s:type' % n, '%s answers %s' % (n, f.ty))
            continue
        if f.val not in (0, 1):
            rep.undecided('%s:value' % n, 'the answer is not settled by the path')
            continue
        if f.val == 1:
            cv = args_covered(p, LOOK)
            rep.check(cv, '%s:all' % n, '%s answers true without having looked at every key (%s)' % (n, p.describe()))
    # the meaning per key, on requests with exactly this many keys
    for k in (1, 2, 3, 12, 33):
        E2 = Engine(E.F, ('Exists', 'Is'), argc=k)
        for n, p in every(E2, rep):
            if p.out != 'ok':
                continue
            c += 1
            try:
                f = p.frame()
            except Bad as e:
                rep.undecided('%s:frame' % n, str(e))
                continue
            if f.val not in (0, 1):
                rep.undecided('%s:value' % n, 'the answer is not settled by the path')
                continue
            state = {}
            for op, key, ver, ts in p.lookups():
                i = key.a[0] if isinstance(key, T) and key.op == 'arg' else None
                if i is None or op not in LOOK:
                    continue
                if n == 'Exists':
                    state[i] = None if ts == {'absent'} else True
                    state[i] = ts != {'absent'}
                else:
                    kt = p.kt()
                    state[i] = False if not (ts & kt) else True if len(kt) == 1 and ts == kt else None
            if f.val == 1:
                for i in range(k):
                    s = state.get(i, False)
                    rep.check(s if s is not False or settled(p) else None, '%s:true' % n, '%s answers true although key %d of %d is missing%s (%s)' % (n, i + 1, k, ' or of another type' if n == 'Is' else '', p.describe()))
            else:
                no = [i for i in range(k) if state.get(i) is False]
                un = [i for i in range(k) if i in state and state[i] is None]
                rep.check(True if no else None if un or not settled(p) else False, '%s:false' % n, '%s answers false although no key was found missing%s (%s)' % (n, ' or of another type' if n == 'Is' else '', p.describe()))
    floor(rep, c, 20, 'successful paths')


# ------------------------------------------------------------------ panics
def fn_of(where):
    return str(where).split(':')[-2].split('::')[-1] if ':' in str(where) else str(where)


def size_sum(t):
    """is the overflowing value made up of lengths of values in memory?"""
    return isinstance(t, T) and t.op == 'ovf' and t.a[0] in ('u32', 'u64', 'usize', 'i64') and \
        find(t, lambda x: isinstance(x, T) and x.op in ('len', 'sum', 'count', 'plen')) is not None and \
        find(t, lambda x: isinstance(x, T) and x.op in ('entv', 'frombe') and TY.get(x, ('',))[0] == 'prim') is None


def panic_kind(v):
    """(kind, operands, the literal text of the message)"""
    k, info = v if isinstance(v, tuple) and len(v) == 2 else (v, None)
    m = re.search(r"""b(['"])(.*?)\1""", repr(info)) if info is not None else None
    return str(k), info, m.group(2).strip(' :') if m else None


def C18(E, rep):
    """no request makes a command panic"""
    c = 0
    for n, p in every(E, rep):
        c += 1
        if p.kind == 'ret':
            rep.ok()
            continue
        if p.kind != 'panic':
            rep.undecided('%s:%s' % (n, p.kind), 'a path does not end')
            continue
        k, info, msg = panic_kind(p.o.val)
        fn = fn_of(p.o.where)
        if k == 'overflow' and size_sum(info):
            rep.count('length sums assumed to fit')
            rep.ok()
            continue
        narrow = k == 'overflow' and isinstance(info, T) and info.op == 'ovf' and info.a[0] in ('u8', 'u16')
        txt = '%s panics (%s%s) in %s: %s' % (n, k, ', "%s"' % msg if msg else '', p.o.where, p.describe())
        # a panic is known by the command and what it says or what overflows, not by the function it happens to sit in
        key = '%s:%s:%s' % (n, k, msg.replace(' ', '-')) if msg else '%s:%s:%s' % (n, k, info.a[0]) if narrow else '%s:%s:%s' % (n, k, fn)
        if not narrow and not settled(p):
            rep.undecided(key, txt)
        else:
            rep.bad(key, txt)
    floor(rep, c, 600, 'paths')
