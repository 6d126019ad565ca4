"""Canonical forms: loop names dropped, references stripped, maps over maps composed; and the reading of
values and encoded responses as (type, content)."""
from .vals import *


def single_each(c):
    """(coll, x) when c is exactly one mapped element per element of coll"""
    if isinstance(c, Seq) and len(c.p) == 1 and c.p[0][0] == 'each' and len(c.p[0][2]) == 1 and c.p[0][2][0][0] == 'v':
        return c.p[0][1], c.p[0][2][0][1]
    return None


_memo = {}


def canon(v):
    return rebuild(v, _f, _memo)


def _idx(name):
    while isinstance(name, tuple):
        if not name:
            return 0
        name = name[-1]
    return name if isinstance(name, int) else 0


def coll_of(c):
    """the collection behind an iterator's source"""
    if isinstance(c, Adt) and c.key == '@dm' and c.f:
        return coll_of(c.f[0])
    if isinstance(c, Ref):
        return coll_of(strip(c))
    return c


def of_text(c):
    """a collection whose elements are texts, however often they are borrowed"""
    while isinstance(c, T) and c.op in ('tail', 'by', 'prefix'):
        c = c.a[0]
    return isinstance(c, T) and c.op == 'split'


def strip(v):
    n = 0
    while isinstance(v, Ref) and n < 8:
        n += 1
        if v.proj:
            return v
        if v.cell[0] == 'val':
            v = v.cell[1]
        elif v.cell[0] == 'D':
            return mk('deref', v.cell[1])
        else:
            return v
    return v


def idx_run(ps):
    """the bytes of a known sequence, written one by one, are that sequence"""
    out, i = [], 0
    ch = False
    while i < len(ps):
        p = ps[i]
        if p[0] == 'v' and isinstance(p[1], T) and p[1].op in ('idx', 'elem') and p[1].a[1] == 0 and isinstance(p[1].a[0], Seq):
            c = p[1].a[0]
            n = slen(c)
            if isinstance(n, int) and n > 0 and len(ps) >= i + n and \
                    all(ps[i + j] == ('v', mk(p[1].op, c, j)) for j in range(n)):
                out.extend(c.p)
                i += n
                ch = True
                continue
        out.append(p)
        i += 1
    return seq(out) if ch else None


def over_some(ps):
    """one piece per element kept by a filter: the filter's alternatives, each as that piece"""
    out, ch = [], False
    for p in ps:
        if p[0] == 'each' and isinstance(p[1], Seq) and len(p[1].p) == 1 and p[1].p[0][0] == 'some':
            q = p[1].p[0]
            if all(len(a) <= 1 and all(x[0] == 'v' for x in a) for a in q[3]):
                e = mk('elem', canon(p[1]), 0)
                body = tuple(z for x in p[2] for z in canon_part(x))
                alts = set()
                for a in q[3]:
                    if a:
                        y = a[0][1]
                        b = rebuild(body, lambda z: y if z is e else None)
                        alts.add(tuple(b))
                    else:
                        alts.add(())
                out.append(('some', q[1], q[2], frozenset(alts)))
                ch = True
                continue
        out.append(p)
    return seq(out) if ch else None


def _f(v):
    if isinstance(v, Seq):
        s = idx_run(v.p)
        if s is None:
            s = over_some(v.p)
        return None if s is None else canon(s)
    if isinstance(v, Ref):
        s = strip(v)
        if s is not v:
            return canon(s)
        return None
    if isinstance(v, T):
        if v.op == 'elem':
            c = canon(coll_of(v.a[0]))
            se = single_each(c)
            if se:
                return se[1]
            if isinstance(c, Adt) and c.key == '@dm':
                c = c.f[0]
            return mk('elem', c, _idx(v.a[1]))
        if v.op in ('key', 'val') and len(v.a) == 1:
            x = canon(v.a[0])
            if isinstance(x, Adt) and x.key == '()' and len(x.f) == 2:
                return x.f[0 if v.op == 'key' else 1]
            return mk(v.op, x)
        if v.op == 'sum':
            c = canon(coll_of(v.a[0]))
            x = canon(v.a[1])
            se = single_each(c)
            if se:
                c = se[0]
            return sumover(c, x)
        if v.op in ('count', 'distinct'):
            c = canon(coll_of(v.a[0]))
            se = single_each(c)
            if se:
                c = se[0]
            return count(c) if v.op == 'count' else mk('distinct', c)
        if v.op == 'deref':
            x = canon(v.a[0])
            if isinstance(x, Ref):
                return strip(x)
            if isinstance(x, (Seq, Adt)):
                return x
            if isinstance(x, T) and x.op == 'deref' and isinstance(x.a[0], T) and x.a[0].op == 'elem':
                return x
            if isinstance(x, T) and x.op == 'elem' and of_text(x.a[0]):
                return x
            return mk('deref', x)
        if v.op == 'arg' and v.a[0] == 'seq':
            return None
        return None
    if isinstance(v, tuple) and v and v[0] == 'each' and len(v) == 3:
        c = canon(coll_of(v[1]))
        if not isinstance(v[2], tuple):          # an element of an abstract list
            x = canon(v[2])
            se = single_each(c)
            return (('each', se[0] if se else c, v[2] if x is None else x),)
        if not all(isinstance(p, tuple) for p in v[2]):
            return None
        ps = []
        for p in v[2]:
            q = canon_part(p)
            ps.extend(q)
        se = single_each(c)
        if se:
            c = se[0]
        return (('each', c, tuple(ps)),)
    return None


def canon_part(p):
    s = canon(seq([p]))
    return parts(s)


# ------------------------------------------------------------------ encoded frames
class Bad(Exception):
    pass


class Rd:
    """Reader over the parts of an encoded response."""

    def __init__(self, ps):
        self.p = list(ps)
        self.i = 0

    def end(self):
        return self.i >= len(self.p)

    def byte(self):
        if self.end():
            raise Bad('ends early')
        p = self.p[self.i]
        if p[0] == 'v':
            self.i += 1
            return p[1]
        raise Bad('expected one byte, found %s' % (describe(p),))

    def be(self, ty):
        if self.end():
            raise Bad('ends early')
        p = self.p[self.i]
        if p[0] == 'be':
            if p[1] != ty and not (WIDTH.get(p[1]) == WIDTH.get(ty)):
                raise Bad('expected a %s, found the bytes of a %s' % (ty, p[1]))
            self.i += 1
            return p[2]
        if p[0] == 't' and slen(p[1]) == WIDTH[ty]:
            self.i += 1
            return mk('frombe', ty, p[1])
        if WIDTH[ty] == 1:
            return self.byte()
        b = []
        for _ in range(WIDTH[ty]):
            x = self.byte()
            if not isinstance(x, int):
                raise Bad('expected the bytes of a %s' % ty)
            b.append(x)
        n = int.from_bytes(bytes(b), 'big')
        if ty[0] == 'i' and n >= 1 << (8 * WIDTH[ty] - 1):
            n -= 1 << (8 * WIDTH[ty])
        return n

    def run(self, n):
        """parts of total length n"""
        out = []
        acc = 0
        n = wide(n)
        while acc is not n and wide(acc) is not n:
            if isinstance(n, int) and isinstance(acc, int) and acc >= n:
                if acc > n:
                    raise Bad('length %s does not match the content' % n)
                break
            if self.end():
                raise Bad('length %s does not match the content that follows' % short(n))
            p = self.p[self.i]
            if p[0] == 't' and not out and False:
                pass
            acc = ladd(acc, plen(p))
            out.append(p)
            self.i += 1
        return seq(out)


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def describe(p):
    return short(seq([p]))


def uncast(v):
    """the value a narrowing conversion was applied to, and the width"""
    w = None
    while isinstance(v, T) and v.op == 'cast':
        w = v.a[0]
        v = v.a[1]
    return v, w


TYPES = ['boolean', 'bytes', 'float', 'integer', 'list', 'map', 'set', 'string']


def items_payload(r, one):
    """repeated items: list of ('one', content) / ('each', coll, content)"""
    out = []
    while not r.end():
        p = r.p[r.i]
        if p[0] == 'each':
            r.i += 1
            s = Rd(p[2])
            out.append(('each', p[1], one(s)))
            if not s.end():
                raise Bad('more than one item per element')
        else:
            out.append(('one', one(r)))
    return tuple(out)


def cnt(items):
    n = 0
    for it in items:
        n = ladd(n, 1 if it[0] == 'one' else count(it[1]))
    return n


def ok_count(n, items, ty=None, narrowed=None):
    n, w = uncast(n)
    if narrowed is not None and w is not None and WIDTH.get(w, 8) < 4:
        # a request has no more than 255 arguments: only what is stored can grow past the width
        if any(it[0] == 'each' and find(it[1], lambda x: isinstance(x, T) and x.op == 'entv') for it in items):
            narrowed.add((ty, 'count'))
    want = cnt(items)
    if n is want or n == want:
        return True
    cs = [it[1] for it in items if it[0] == 'each']
    if isinstance(n, T) and n.op in ('distinct', 'count', 'len') and len(n.a) == 1:
        if len(items) == 1 and cs and n.a[0] is cs[0]:
            return True
        # a map known entry by entry
        if isinstance(n.a[0], Seq) and n.op == 'distinct' and slen(n.a[0]) == want:
            return True
    return False


def wide(v):
    """an affine length with its widening and u32 conversions dropped (no value is 4 GiB long)"""
    def f(x):
        if isinstance(x, T) and x.op == 'cast' and x.a[0] in ('u32', 'u64', 'usize', 'i64'):
            return wide(x.a[1])
        if isinstance(x, T) and x.op == 'sum' and len(x.a) == 2:
            return sumover(x.a[0], wide(x.a[1]))
        return None
    return rebuild(canon(v), f)


class Frame:
    """One response: its type, its content, and the widths that were narrowed on the way."""

    def __init__(self, ty, val, narrowed):
        self.ty, self.val, self.narrowed = ty, val, narrowed

    def __repr__(self):
        return '%s %s' % (self.ty, short(self.val))


def read_frame(ps, table):
    """Parse the parts as exactly one response. table: type byte -> type name."""
    ps = parts(canon(seq(ps)))
    r = Rd(ps)
    total = r.be('u32')
    rest = slen(seq(r.p[r.i:]))
    narrowed = set()
    t, w = uncast(total)
    if wide(t) is not wide(rest) and wide(t) != wide(rest):
        raise Bad('the length field says %s but %s bytes follow' % (short(total), short(rest)))
    tb = r.byte()
    if not isinstance(tb, int):
        raise Bad('the type byte is not fixed: %s' % short(tb))
    ty = table.get(tb)
    if ty is None:
        raise Bad('type byte %d is no response type' % tb)

    def blob(r2, width):
        n = r2.be(width)
        m, w = uncast(n)
        c = r2.run(m)
        if w is not None and WIDTH.get(w, 8) < 4:
            narrowed.add((ty, width))
        return c
    if ty in ('bytes', 'string'):
        val = blob(r, 'u32')
    elif ty == 'boolean':
        val = r.byte()
    elif ty == 'integer':
        val = r.be('i64')
    elif ty == 'float':
        val = r.be('f64')
    elif ty == 'list':
        n = r.be('u16')
        val = items_payload(r, lambda q: blob(q, 'u32'))
        if not ok_count(n, val, ty, narrowed):
            raise Bad('the item count says %s but %s items follow' % (short(n), short(cnt(val))))
    elif ty == 'set':
        n = r.be('u16')
        val = items_payload(r, lambda q: blob(q, 'u16'))
        if not ok_count(n, val, ty, narrowed):
            raise Bad('the item count says %s but %s items follow' % (short(n), short(cnt(val))))
    elif ty == 'map':
        n = r.be('u16')
        val = items_payload(r, lambda q: (blob(q, 'u8'), blob(q, 'u32')))
        if not ok_count(n, val, ty, narrowed):
            raise Bad('the entry count says %s but %s entries follow' % (short(n), short(cnt(val))))
    elif ty == 'error':
        val = r.byte()
    else:
        raise Bad('type %s' % ty)
    if not r.end():
        raise Bad('%d extra parts after the response' % (len(r.p) - r.i))
    return Frame(ty, val, narrowed)


# ------------------------------------------------------------------ stored values
def read_value(v, names):
    """(type, content) of a stored Value whose variant is known; content None when it cannot be read.
    names: variant index -> lower-case name"""
    v = canon(v)
    if not isinstance(v, Adt):
        return None
    ty = names[v.vi].lower()
    x = v.f[0] if v.f else None
    return ty, content(ty, x)


def coll_items(x, kv=False):
    x = coll_of(x)
    if isinstance(x, Adt) and x.key == '@dm':
        x = x.f[0]
    if isinstance(x, T):
        e = mk('elem', x, 0)
        return (('each', x, (mk('key', e), mk('val', e)) if kv else e),)
    out = []
    for p in x.p:
        if p[0] == 'v':
            out.append(('one', pairup(p[1], kv)))
        elif p[0] == 'each' and len(p[2]) == 1 and p[2][0][0] == 'v':
            out.append(('each', p[1], pairup(p[2][0][1], kv)))
        elif p[0] == 't':
            e = mk('elem', p[1], 0)
            out.append(('each', p[1], (mk('key', e), mk('val', e)) if kv else e))
        elif p[0] == 'some' and all(len(a) <= 1 and all(q[0] == 'v' for q in a) for a in p[3]):
            out.append(('some', p[1], p[2], frozenset(tuple(pairup(q[1], kv) for q in a) for a in p[3])))
        else:
            return None
    return tuple(out)


def pairup(x, kv):
    if not kv:
        return x
    if isinstance(x, Adt) and x.key == '()' and len(x.f) == 2:
        return (x.f[0], x.f[1])
    return (mk('key', x), mk('val', x))


def content(ty, x):
    if ty in ('list', 'set'):
        return coll_items(x)
    if ty == 'map':
        return coll_items(x, True)
    return x
