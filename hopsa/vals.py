"""Abstract values: interned terms, affine forms, structured values, byte/element sequences."""

_tab = {}
_uid = [0]


class T:
    """Opaque term op(args); interned, so identity is equality."""
    __slots__ = ('op', 'a', 'uid')

    def __repr__(self):
        if self.op in ('fld', 'deref'):
            if self.op == 'deref':
                return '*%r' % (self.a[0],)
            return '%r.%s' % (self.a[0], '%s' % (self.a[2],) if self.a[1] == 0 else '%s#%s' % (self.a[1], self.a[2]))
        if not self.a:
            return self.op
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


def mk(op, *a):
    k = ('T', op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _uid[0] += 1
        t.uid = _uid[0]
        _tab[k] = t
    return t


class Lin:
    """c + sum(k*t)"""
    __slots__ = ('c', 't', 'uid')

    def __repr__(self):
        s = []
        for t, k in self.t:
            s.append(('%r' % t) if k == 1 else '%d*%r' % (k, t))
        if self.c or not s:
            s.append(str(self.c))
        return '(' + ' + '.join(s) + ')'


def lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].uid))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    k = ('L', c, items)
    r = _tab.get(k)
    if r is None:
        r = Lin()
        r.c = c
        r.t = items
        _uid[0] += 1
        r.uid = _uid[0]
        _tab[k] = r
    return r


def lparts(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, dict(v.t)
    if isinstance(v, T):
        return 0, {v: 1}
    return None


def ladd(a, b, k=1):
    pa, pb = lparts(a), lparts(b)
    if pa is None or pb is None:
        return mk('badd', a, b, k)
    d = dict(pa[1])
    for t, q in pb[1].items():
        d[t] = d.get(t, 0) + k * q
    return lin(pa[0] + k * pb[0], d)


def lmul(a, k):
    p = lparts(a)
    if p is None:
        return mk('bmul', a, k)
    return lin(p[0] * k, {t: q * k for t, q in p[1].items()})


class Adt:
    """A structured value with a known variant. key '()' is a tuple."""
    __slots__ = ('key', 'vi', 'f', 'uid')

    def __repr__(self):
        if self.key == '()':
            return '(%s)' % ', '.join(map(repr, self.f))
        return '%s#%s{%s}' % (self.key.split('::')[-1], self.vi, ', '.join(map(repr, self.f)))


def adt(key, vi, f=()):
    f = tuple(f)
    k = ('A', key, vi, f)
    r = _tab.get(k)
    if r is None:
        r = Adt()
        r.key, r.vi, r.f = key, vi, f
        _uid[0] += 1
        r.uid = _uid[0]
        _tab[k] = r
    return r


UNIT = adt('()', 0)
MOVED = mk('MOVED')
UNINIT = mk('UNINIT')


class Ref:
    __slots__ = ('cell', 'proj', 'mut', 'uid')

    def __repr__(self):
        return '&%r%s' % (self.cell[1] if self.cell[0] == 'val' else self.cell, ''.join('.%s' % (p,) for p in self.proj))


def ref(cell, proj=()):
    k = ('R', cell, proj)
    r = _tab.get(k)
    if r is None:
        r = Ref()
        r.cell, r.proj = cell, proj
        _uid[0] += 1
        r.uid = _uid[0]
        _tab[k] = r
    return r


def rval(v):
    """A shared reference to a pure value."""
    return ref(('val', v))


class Seq:
    """A sequence of elements. parts: ('v',x) one element; ('be',ty,x) the bytes of a scalar;
    ('t',T) the elements of an opaque sequence; ('rep',x,n) n copies; ('each',coll,parts) parts once per
    element of coll; ('star',loop,slot) placeholder inside a loop."""
    __slots__ = ('p', 'uid')

    def __repr__(self):
        o = []
        run = []

        def flush():
            if run:
                try:
                    o.append(repr(bytes(run)) if len(run) > 3 else ' '.join('%d' % x for x in run))
                except ValueError:
                    o.append(repr(run))
                del run[:]
        for x in self.p:
            if x[0] == 'v' and isinstance(x[1], int):
                run.append(x[1])
                continue
            flush()
            if x[0] == 'v':
                o.append(repr(x[1]))
            elif x[0] == 't':
                o.append('..%r' % x[1])
            elif x[0] == 'be':
                o.append('be_%s(%r)' % (x[1], x[2]))
            else:
                o.append('%s%r' % (x[0], x[1:]))
        flush()
        return '[' + ' '.join(o) + ']'


def seq(parts):
    parts = tuple(parts)
    if len(parts) == 1 and parts[0][0] == 't':
        return parts[0][1]
    k = ('S', parts)
    r = _tab.get(k)
    if r is None:
        r = Seq()
        r.p = parts
        _uid[0] += 1
        r.uid = _uid[0]
        _tab[k] = r
    return r


EMPTY = seq(())
WIDTH = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8,
         'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}


def irange(n):
    if n == 'bool':
        return (0, 1)
    if n == 'char':
        return (0, 0x10ffff)
    if n not in WIDTH or n[0] == 'f':
        return None
    b = WIDTH[n] * 8
    return (0, (1 << b) - 1) if n[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def be(ty, x):
    """parts of x.to_be_bytes()"""
    if isinstance(x, int) and ty in WIDTH:
        return tuple(('v', b) for b in (x & ((1 << (8 * WIDTH[ty])) - 1)).to_bytes(WIDTH[ty], 'big'))
    if isinstance(x, T) and x.op == 'frombe' and x.a[0] == ty:
        return parts(x.a[1])
    if WIDTH.get(ty) == 1:
        return (('v', x),)
    return (('be', ty, x),)


def parts(v):
    if isinstance(v, Seq):
        return v.p
    return (('t', v),)


def cat(a, b):
    return seq(parts(a) + parts(b))


def bytes_seq(b):
    return seq([('v', x) for x in b])


def slen(v):
    """Number of elements, as an affine form."""
    if isinstance(v, Seq):
        n = 0
        for p in v.p:
            n = ladd(n, plen(p))
        return n
    if isinstance(v, T) and v.op == 'sub':
        return ladd(v.a[2], v.a[1], -1)
    if isinstance(v, T) and v.op == 'filled':
        return v.a[2]
    if isinstance(v, T) and v.op == 'tail' and isinstance(v.a[1], int):
        return ladd(count(v.a[0]), -v.a[1])      # only made of elements that are there
    if isinstance(v, T) and v.op == 'char_indices':
        return mk('len', mk('chars', *v.a))
    return mk('len', v)


def plen(p):
    if p[0] == 'v':
        return 1
    if p[0] == 'be':
        return WIDTH[p[1]]
    if p[0] == 't':
        return slen(p[1])
    if p[0] == 'rep':
        return p[2]
    if p[0] == 'each':
        n = 0
        for q in p[2]:
            n = ladd(n, plen(q))
        return sumover(p[1], n)
    return mk('plen', p[0], p[1:])


def mentions(v, t):
    if v is t:
        return True
    if isinstance(v, T):
        return any(mentions(x, t) for x in v.a)
    if isinstance(v, Lin):
        return any(mentions(x, t) for x, _ in v.t)
    if isinstance(v, Adt):
        return any(mentions(x, t) for x in v.f)
    if isinstance(v, Ref):
        return any(mentions(x, t) for x in v.cell[1:])
    if isinstance(v, Seq):
        return any(mentions(x, t) for x in v.p)
    if isinstance(v, (tuple, frozenset)):
        return any(mentions(x, t) for x in v)
    return False


def find(v, pred, seen=None):
    """First sub-value satisfying pred."""
    if seen is None:
        seen = set()
    if isinstance(v, (T, Lin, Adt, Ref, Seq)):
        if v.uid in seen:
            return None
        seen.add(v.uid)
    if pred(v):
        return v
    it = ()
    if isinstance(v, T):
        it = v.a
    elif isinstance(v, Lin):
        it = [x for x, _ in v.t]
    elif isinstance(v, Adt):
        it = v.f
    elif isinstance(v, Ref):
        it = v.cell[1:]
    elif isinstance(v, Seq):
        it = v.p
    elif isinstance(v, (tuple, frozenset, list)):
        it = v
    for x in it:
        r = find(x, pred, seen)
        if r is not None:
            return r
    return None


def rebuild(v, f, memo=None):
    """Bottom-up rewrite; f(value) -> replacement or None."""
    if memo is None:
        memo = {}
    if isinstance(v, (int, str, bytes)) or v is None:
        return v
    if isinstance(v, (T, Lin, Adt, Ref, Seq)):
        m = memo.get(v.uid)
        if m is not None:
            return m
    r = f(v)
    if r is None:
        if isinstance(v, T):
            a = tuple(rebuild(x, f, memo) for x in v.a)
            r = v if a == v.a else reterm(v.op, a, v)
        elif isinstance(v, Lin):
            r = v.c
            for t, k in v.t:
                x = rebuild(t, f, memo)
                r = ladd(r, x, k) if lparts(x) is not None else ladd(r, t, k)
        elif isinstance(v, Adt):
            a = tuple(rebuild(x, f, memo) for x in v.f)
            r = v if a == v.f else adt(v.key, v.vi, a)
        elif isinstance(v, Ref):
            c = tuple(rebuild(x, f, memo) for x in v.cell)
            p = tuple(rebuild(x, f, memo) for x in v.proj)
            r = v if c == v.cell and p == v.proj else ref(c, p)
        elif isinstance(v, Seq):
            out = []
            ch = False
            for p in v.p:
                q = f(p)
                if q is not None:
                    out.extend(q)
                    ch = True
                    continue
                q = tuple(rebuild(x, f, memo) for x in p)
                if q != p:
                    ch = True
                if q[0] == 't' and isinstance(q[1], Seq):
                    out.extend(q[1].p)
                else:
                    out.append(q)
            r = seq(out) if ch else v
        elif isinstance(v, tuple):
            r = tuple(rebuild(x, f, memo) for x in v)
            if r == v:
                r = v
        elif isinstance(v, frozenset):
            r = frozenset(rebuild(x, f, memo) for x in v)
        else:
            r = v
    if isinstance(v, (T, Lin, Adt, Ref, Seq)):
        memo[v.uid] = r
    return r


TY = {}


def reterm(op, a, old=None):
    if op == 'len':
        return slen(a[0])
    r = mk(op, *a)
    if old is not None and old in TY and r not in TY:
        TY[r] = TY[old]
    return r


def sumover(coll, n):
    """sum over the elements of coll of the affine form n"""
    p = lparts(n)
    if p is None:
        return mk('sum', coll, n)
    r = lmul(count(coll), p[0])
    for t, k in p[1].items():
        r = ladd(r, mk('sum', coll, t), k)
    return r


def count(coll):
    if isinstance(coll, T) and coll.op == 'prefix':
        return mk('count', coll)
    if isinstance(coll, T) and coll.op == 'args':
        return mk('count', coll)
    return slen(coll)


def typed(t, ty):
    if ty is not None and isinstance(t, T) and t not in TY:
        TY[t] = ty
    return t


def is_unknown(v):
    """Does v contain something the analysis could not follow?"""
    return find(v, lambda x: isinstance(x, T) and x.op in ('ext', 'havoc', 'top', 'lv', 'badd', 'bmul', 'lsum')
                or isinstance(x, tuple) and x and x[0] == 'star') is not None
