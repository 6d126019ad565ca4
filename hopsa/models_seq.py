"""Iterators, sequences (slices, vectors, strings), integers, comparison and formatting."""
from .vals import *
from . import models as B
from .models import m, mp, M, some, ok, err, NONE, CF, POLL, COW, OPT, RES, selfname, target, target1, get, put, ofork, sty, targ, \
    default, deref_ref, conv, MAPS, arc_new

RANGES = ('core::ops::range::Range', 'core::range::Range')
CMPO = 'core::cmp::Ordering'


def it(*f):
    return adt('@it', 0, f)


def is_it(v):
    return isinstance(v, Adt) and v.key == '@it'


def is_range(v):
    return isinstance(v, Adt) and v.key.startswith('core::') and v.key.endswith(('Range', 'RangeInclusive', 'RangeFrom')) and 'range' in v.key


# ------------------------------------------------------------------ iterator structure
def known(content):
    return isinstance(content, Seq) and all(p[0] == 'v' for p in content.p)


def it_concrete(v):
    if isinstance(v, Adt) and not is_it(v) and is_range(v):
        return len(v.f) > 1 and isinstance(v.f[0], int) and isinstance(v.f[1], int) and v.f[1] - v.f[0] <= 70
    if not is_it(v):
        return False
    k = v.f[0]
    if k == 'seq':
        return known(v.f[1]) and isinstance(v.f[2], int)
    if k in ('map', 'filter', 'filter_map', 'enum', 'take', 'skip', 'cloned', 'peek', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat', 'fuse', 'chunks'):
        return it_concrete(v.f[1])
    if k in ('zip', 'chain'):
        return it_concrete(v.f[1]) or it_concrete(v.f[2])
    return k in ('once', 'empty')


def it_status(v):
    if not is_it(v):
        return 'mid'
    k = v.f[0]
    if k == 'abs':
        return v.f[3]
    if k == 'seq':
        return 'done' if known(v.f[1]) and v.f[2] == len(v.f[1].p) else 'mid'
    if k in ('map', 'filter', 'filter_map', 'enum', 'skip', 'cloned', 'peek', 'inspect', 'flat', 'fuse', 'chunks'):
        return it_status(v.f[1])
    if k == 'zip':
        return 'done' if 'done' in (it_status(v.f[1]), it_status(v.f[2])) else 'mid'
    if k in ('take', 'take_while', 'map_while', 'skip_while'):
        return it_status(v.f[1]) if k == 'skip_while' else 'mid'
    if k == 'chain':
        return it_status(v.f[2])
    if k in ('once', 'empty'):
        return 'done' if k == 'empty' else 'fresh'
    return 'mid'


def it_havoc(I, g, v, name):
    k = v.f[0]
    if k == 'abs':
        return it('abs', tail(v.f[1], v.f[2]) if isinstance(v.f[2], int) and v.f[2] else v.f[1], (name, 0), 'mid', v.f[4])
    if k == 'seq':
        return it('abs', v.f[1] if v.f[2] == 0 else I.sub(g, v.f[1], v.f[2], slen(v.f[1])), (name, 0), 'mid', v.f[3])
    if k == 'enum':
        t = mk('enumidx', name)
        typed(t, ('prim', 'usize'))
        return it('enum', it_havoc(I, g, v.f[1], name), t)
    if k in ('take', 'skip'):
        t = mk('lv', name, 'count')
        typed(t, ('prim', 'usize'))
        return it(k, it_havoc(I, g, v.f[1], name), t if k == 'take' else 0)
    if k in ('zip', 'chain'):
        return it(k, it_havoc(I, g, v.f[1], name), it_havoc(I, g, v.f[2], name), *v.f[3:])
    if k == 'peek':
        return it('peek', it_havoc(I, g, v.f[1], name), mk('lv', name, 'peeked') if v.f[2] is not UNIT else UNIT)
    if len(v.f) > 1 and is_it(v.f[1]):
        return it(k, it_havoc(I, g, v.f[1], name), *v.f[2:])
    return it('abs', mk('lvcoll', name), (name, 0), 'mid', 'val')


def tail(coll, n):
    """the elements of a collection after its first n"""
    if isinstance(coll, T) and coll.op == 'args' and isinstance(coll.a[0], int):
        t = mk('args', coll.a[0] + n, coll.a[1])
    elif isinstance(coll, T) and coll.op == 'tail':
        t = mk('tail', coll.a[0], coll.a[1] + n)
    else:
        t = mk('tail', coll, n)
    if coll in TY:
        typed(t, TY[coll])
    return t


def it_colls(v):
    if not is_it(v):
        return []
    k = v.f[0]
    if k == 'abs':
        return [v.f[1]]
    o = []
    for x in v.f[1:]:
        if is_it(x):
            o += it_colls(x)
    return o


def it_index(v):
    """how far an iterator over one collection has come"""
    while is_it(v) and v.f[0] != 'abs':
        v = v.f[1] if len(v.f) > 1 and is_it(v.f[1]) else None
    return v.f[2] if is_it(v) else None


def it_count(I, st, v):
    """number of elements an untouched iterator yields (affine form), or None"""
    if is_range(v):
        return ladd(v.f[1], v.f[0], -1) if len(v.f) > 1 and lparts(v.f[0]) and lparts(v.f[1]) and I.rng(st, ladd(v.f[1], v.f[0], -1))[0] >= 0 else None
    if not is_it(v):
        return None
    k = v.f[0]
    if k == 'seq':
        return ladd(slen(v.f[1]), v.f[2], -1)
    if k == 'abs':
        return count(v.f[1]) if v.f[3] == 'fresh' else 0 if v.f[3] == 'done' else None
    if k in ('map', 'enum', 'cloned', 'peek', 'inspect', 'fuse') and not (k == 'peek' and v.f[2] is not UNIT):
        return it_count(I, st, v.f[1])
    if k == 'chain':
        a, b = it_count(I, st, v.f[1]), it_count(I, st, v.f[2])
        return None if a is None or b is None else ladd(a, b)
    if k == 'zip':
        a, b = it_count(I, st, v.f[1]), it_count(I, st, v.f[2])
        if a is None or b is None:
            return None
        return a if I.same(st, a, b) else mk('min', a, b)
    if k == 'once':
        return 1
    if k == 'empty':
        return 0
    return None


def kv(x):
    """key and value of a map entry seen by iteration"""
    if isinstance(x, Adt) and x.key == '()' and len(x.f) == 2:
        return x.f
    return mk('key', x), mk('val', x)


def item(I, x, mode):
    if mode == 'ref':
        return rval(x)
    if mode == 'dmap':
        return adt('@multi', 0, (x,))
    if mode == 'dset':
        return adt('@smulti', 0, (x,))
    if mode == 'hmap':
        a, b = kv(x)
        return adt('()', 0, (rval(a), rval(b)))
    if mode == 'pair':
        return adt('()', 0, kv(x))
    return x


def map_mode(n, byref):
    if n == 'DashMap':
        return 'dmap' if byref else 'pair'
    if n == 'DashSet':
        return 'dset' if byref else 'val'
    if n in ('HashMap', 'BTreeMap'):
        return 'hmap' if byref else 'pair'
    return 'ref' if byref else 'val'


def drop_elem_facts(st, t):
    st.facts = {k: v for k, v in st.facts.items() if not mentions(k[1], t)} if any(mentions(k[1], t) for k in st.facts) else st.facts


# ------------------------------------------------------------------ next
def nxt(I, st, v, k):
    """k(state, new iterator, item or None)"""
    if isinstance(v, Ref):
        # an iterator behind a reference: advance it in place
        cell, proj = tgt_it(I, st, v)
        cur = I.read(st, cell, proj)
        if isinstance(cur, T) or (isinstance(cur, Adt) and not is_it(cur) and not is_range(cur)):
            return struct_next(I, st, ref(cell, proj), cur, lambda s, x: k(s, v, x))

        def kk(s, nv, x):
            I.write(s, cell, proj, nv)
            return k(s, v, x)
        return nxt(I, st, cur, kk)
    if is_range(v):
        return range_next(I, st, v, k)
    if isinstance(v, Adt) and not is_it(v):
        cell = ('H', st.fresh('H'))
        st.mem[cell] = v

        def kk(s, x):
            nv = s.mem.get(cell, v)
            s.mem.pop(cell, None)
            return k(s, nv, x)
        return struct_next(I, st, ref(cell), v, kk)
    if not is_it(v):
        # an opaque iterator value
        return nxt(I, st, it('abs', v if isinstance(v, T) else mk('top'), 0, 'fresh', 'val'), k)
    kind = v.f[0]
    f = v.f
    if kind == 'seq':
        c, i, mode = f[1], f[2], f[3]
        if known(c):
            if i >= len(c.p):
                return k(st, v, None)
            x = c.p[i][1]
            if len(f) > 4:        # iter_mut over a place
                return k(st, it('seq', c, i + 1, mode, f[4]), ref(f[4].cell, f[4].proj + (('i', i),)))
            return k(st, it('seq', c, i + 1, mode), item(I, x, mode))
        return nxt(I, st, it('abs', c if i == 0 else I.sub(st, c, i, slen(c)), 0, 'fresh', mode), k)
    if kind == 'abs':
        return abs_next(I, st, v, k)
    if kind == 'map':
        return nxt(I, st, f[1], lambda s, n, x: k(s, it('map', n, f[2]), None) if x is None else
                   I.call_value(s, f[2], [x], lambda s2, y: k(s2, it('map', n, f[2]), y)))
    if kind == 'cloned':
        return nxt(I, st, f[1], lambda s, n, x: k(s, it('cloned', n), None if x is None else I.content_once(s, x)))
    if kind == 'inspect':
        return nxt(I, st, f[1], lambda s, n, x: k(s, it('inspect', n, f[2]), None) if x is None else
                   I.call_value(s, f[2], [rval(x)], lambda s2, y: k(s2, it('inspect', n, f[2]), x)))
    if kind == 'enum':
        return nxt(I, st, f[1], lambda s, n, x: k(s, it('enum', n, f[2] if x is None else ladd(f[2], 1)),
                                                  None if x is None else adt('()', 0, (f[2], x))))
    if kind in ('filter', 'filter_map', 'skip_while'):
        return filter_next(I, st, v, k)
    if kind in ('take_while', 'map_while'):
        def kk(s, n, x):
            nv = it(kind, n, f[2])
            if x is None:
                return k(s, nv, None)

            def res(s2, y):
                o = []
                if kind == 'map_while':
                    for s3, vi, p in ofork(I, s2, y):
                        o += k(s3, nv, p if vi == 1 else None)
                    return o
                for s3, b in I.fork(s2, y):
                    o += k(s3, nv if b else it('empty'), x if b else None)
                return o
            return I.call_value(s, f[2], [rval(x) if kind == 'take_while' else x], res)
        return nxt(I, st, f[1], kk)
    if kind == 'zip':
        def ka(s, n, x):
            if x is None:
                return k(s, it('zip', n, f[2]), None)
            return nxt(I, s, f[2], lambda s2, n2, y: k(s2, it('zip', n, n2), None if y is None else adt('()', 0, (x, y))))
        return nxt(I, st, f[1], ka)
    if kind == 'chain':
        def kc(s, n, x):
            if x is not None:
                return k(s, it('chain', n, f[2]), x)
            return nxt(I, s, f[2], lambda s2, n2, y: k(s2, it('chain', n, n2), y))
        return nxt(I, st, f[1], kc)
    if kind == 'take':
        out = []
        for s, b in I.fork(st, I.cmp(st, 'Eq', f[2], 0)):
            if b:
                out += k(s, v, None)
            else:
                out += nxt(I, s, f[1], lambda s2, n, x: k(s2, it('take', n, ladd(f[2], -1)), x))
        return out
    if kind == 'chunks':
        def some_more(s, n, got):
            if len(got) == f[2]:
                return k(s, it('chunks', n, f[2], f[3]), rval(seq(got)))

            def more(s2, n2, x):
                if x is None:
                    return k(s2, it('chunks', n2, f[2], f[3]), rval(seq(got)) if got and not f[3] else None)
                return some_more(s2, n2, got + (('v', x),))
            return nxt(I, s, n, more)
        return some_more(st, f[1], ())
    if kind == 'skip':
        if isinstance(f[2], int):
            if f[2] == 0:
                return nxt(I, st, f[1], lambda s, n, x: k(s, it('skip', n, 0), x))
            return nxt(I, st, f[1], lambda s, n, x: nxt(I, s, it('skip', n, f[2] - 1), k) if x is not None else k(s, it('skip', n, 0), None))
        return nxt(I, st, it('abs', mk('skipped', it_colls(v)[0] if it_colls(v) else mk('top'), f[2]), 0, 'fresh', 'val'), k)
    if kind == 'step':
        return nxt(I, st, it('abs', mk('stepped', f[1], f[2]), 0, 'fresh', 'val'), k)
    if kind == 'peek':
        if f[2] is UNIT:
            return nxt(I, st, f[1], lambda s, n, x: k(s, it('peek', n, UNIT), x))
        out = []
        for s, vi, p in ofork(I, st, f[2]):
            out += k(s, it('peek', f[1], UNIT), p if vi == 1 else None)
        return out
    if kind == 'fuse':
        return nxt(I, st, f[1], lambda s, n, x: k(s, it('fuse', n), x))
    if kind == 'once':
        return k(st, it('empty'), f[1])
    if kind == 'empty':
        return k(st, v, None)
    if kind == 'from_fn':
        def kf(s, y):
            o = []
            for s2, vi, p in ofork(I, s, y):
                o += k(s2, v, p if vi == 1 else None)
            return o
        return I.call_value(st, f[1], [], kf)
    if kind == 'rev':
        return nxt(I, st, it('abs', mk('rev', f[1]), 0, 'fresh', 'val'), k)
    if kind == 'flat':
        # pending inner iterator, then the outer one
        def kin(s, n, x):
            if x is not None:
                s.mem.pop(('flatempty',), None)
                return k(s, it('flat', f[1], f[2], n), x)
            return outer(s, f[1])

        def outer(s, o):
            def ko(s2, n, x):
                if x is None:
                    s2.mem.pop(('flatempty',), None)
                    return k(s2, it('flat', n, f[2], UNIT), None)

                def inner(s3, y):
                    # one inner iterator after another may be empty
                    e = s3.mem.get(('flatempty',), 0)
                    e = e if isinstance(e, int) else 0
                    if e > 2 and not it_concrete(n):
                        return I.end('limit', 'inner iterators that are empty', s3)
                    s3.mem[('flatempty',)] = e + 1
                    return into_iter(I, s3, y, None, lambda s4, z: nxt(I, s4, it('flat', n, f[2], z), k))
                if f[2] is UNIT:
                    return inner(s2, x)
                return I.call_value(s2, f[2], [x], inner)
            return nxt(I, s, o, ko)
        if f[3] is UNIT:
            return outer(st, f[1])
        return nxt(I, st, f[3], kin)
    return nxt(I, st, it('abs', mk('top'), 0, 'fresh', 'val'), k)


def tgt_it(I, st, r):
    cell, proj = r.cell, r.proj
    n = 0
    while n < 20:
        v = I.read(st, cell, proj)
        if not isinstance(v, Ref):
            break
        cell, proj = v.cell, v.proj
        n += 1
    return cell, proj


def abs_next(I, st, v, k):
    _, coll, n, status, mode = v.f
    if status == 'done':
        return k(st, v, None)
    out = []
    s = st.copy()
    end = it('abs', coll, n, 'done', mode)
    okend = True
    sure = status == 'fresh' or isinstance(n, int)
    base = n if isinstance(n, int) else 0
    if sure:
        okend = I.assume(s, I.cmp(s, 'Eq', count(coll), base), 1)
    if okend:
        out += k(s, end, None)
    if sure:
        if not I.assume(st, I.cmp(st, 'Ge', count(coll), base + 1), 1):
            return out
    if isinstance(n, int) and isinstance(coll, T) and coll.op == 'args' and isinstance(coll.a[0], int):
        e = rval(typed(mk('arg', coll.a[0] + n), ('slice', ('prim', 'u8'))))
        out += k(st, it('abs', coll, n + 1, 'mid', mode), item(I, e, mode))
        return out
    e = mk('elem', coll, n)
    if I.unroll is None or not isinstance(n, int):
        drop_elem_facts(st, e)
    if isinstance(coll, T):
        if coll.op == 'rangec':
            typed(e, coll.a[2])
            I.assume(st, I.cmp(st, 'Ge', e, coll.a[0]), 1)
            I.assume(st, I.cmp(st, 'Lt', e, coll.a[1]), 1)
        elif coll in TY:
            et = I.elem_type(TY[coll])
            if et is not None:
                typed(e, et)
    n2 = n + 1 if isinstance(n, int) else (n[0], n[1] + 1)
    out += k(st, it('abs', coll, n2, 'mid', mode), item(I, e, mode))
    return out


def range_next(I, st, v, k):
    key, vi = v.key, v.vi
    incl = key.endswith('RangeInclusive')
    a = v.f[0]
    if key.endswith('RangeFrom'):
        return k(st, adt(key, vi, (ladd(a, 1),)), a)
    b = ladd(v.f[1], 1) if incl else v.f[1]
    if isinstance(a, int) and isinstance(b, int) or isinstance(ladd(b, a, -1), int):
        n = ladd(b, a, -1)
        if n <= 0:
            return k(st, v, None)
        return k(st, adt(key, vi, (ladd(a, 1),) + v.f[1:]), a)
    ty = TY.get(v.f[1]) or TY.get(a) or ('prim', 'usize')
    return nxt(I, st, it('abs', rangec(I, st, a, b, ty), 0, 'fresh', 'val'), k)


def rangec(I, st, a, b, ty):
    t = mk('rangec', a, b, ty)
    d = ladd(b, a, -1)
    if I.rng(st, d)[0] >= 0:
        I.assume(st, I.cmp(st, 'Eq', mk('len', t), d), 1)
    return t


def struct_next(I, st, r, v, k):
    """Iterator::next of a workspace type"""
    ty = v.key if isinstance(v, Adt) else (TY[v][1] if v in TY and TY[v][0] == 'adt' else None)

    def kk(s, y):
        o = []
        for s2, vi, p in ofork(I, s, y):
            o += k(s2, p if vi == 1 else None)
        return o
    if ty is not None:
        for im in I.F.impls:
            if im.get('trait') == 'core::iter::traits::iterator::Iterator':
                s = im['crate'].ty(im['self'])
                if s[0] == 'adt' and s[1] == ty:
                    for x in im['items']:
                        if x['n'] == 'next':
                            fn = I.F.fns.get(x['k'])
                            if fn is not None:
                                p = I.prims.get(fn['k'])
                                if p is not None:
                                    return p(I, st, [r], None, kk)
                                return I.push(st, fn, {}, [r], kk)
    coll = v if isinstance(v, T) else mk('iterof', v)
    return abs_next(I, st, it('abs', coll, st.fresh('it'), 'mid', 'val'), lambda s, n, x: k(s, x))


def filter_next(I, st, v, k):
    kind, f = v.f[0], v.f
    conc = it_concrete(f[1])

    def again(s, nv, x):
        if conc:
            return nxt(I, s, nv, k)
        # skip any number of elements: one generic step
        n = slen(I.content(s, x))
        tag = 'flt0' if n == 0 or lparts(n) is not None and I.rng(s, n)[1] == 0 else 'flt'
        inner = it_havoc(I, s, nv.f[1], (tag, s.fresh('flt'))) if is_it(nv.f[1]) else nv.f[1]
        return step(s, it(kind, inner, *nv.f[2:]), False)

    def step(s0, v0, retry):
        def kk(s, n, x):
            nv = it(kind, n, f[2])
            if x is None:
                return k(s, nv, None)

            def res(s2, y):
                o = []
                if kind == 'filter_map':
                    for s3, vi, p in ofork(I, s2, y):
                        if vi == 1:
                            o += k(s3, nv, p)
                        elif retry or conc:
                            o += again(s3, nv, x)
                    return o
                for s3, b in I.fork(s2, y):
                    if kind == 'skip_while':
                        if not b:
                            o += k(s3, it('fuse', n), x)
                            continue
                    elif b:
                        o += k(s3, nv, x)
                        continue
                    if retry or conc:
                        o += again(s3, nv, x)
                return o
            return I.call_value(s, f[2], [x if kind == 'filter_map' else rval(x)], res)
        return nxt(I, s0, v0.f[1], kk)
    return step(st, v, True)


# ------------------------------------------------------------------ consuming loops
def unflatten(v):
    """an iterator that runs through the items of the items of another, at its start: (the flattening, what is done to the inner ones)"""
    layers = []
    while is_it(v) and v.f[0] in ('map', 'cloned', 'inspect', 'filter', 'filter_map') and is_it(v.f[1]):
        layers.append(v)
        v = v.f[1]
    if not is_it(v) or v.f[0] != 'flat' or v.f[3] is not UNIT or it_concrete(v.f[1]):
        return None

    def wrap(z):
        for l in reversed(layers):
            z = it(l.f[0], z, *l.f[2:])
        return z
    return v, wrap


def consume(I, st, v, init, body, k, ty=None):
    """fold: body(state, acc, item, kb) where kb(state, acc, brk=None); k(state, acc, brk or None)"""
    nest = unflatten(v)
    if nest is not None:
        flat, wrap = nest

        def each(s, acc, x, kb):
            def inner(s2, y):
                return into_iter(I, s2, y, None, lambda s3, z: consume(I, s3, wrap(z), acc, body, lambda s4, acc2, brk: kb(s4, acc2, brk) if brk is not None else kb(s4, acc2), ty))
            return inner(s, x) if flat.f[2] is UNIT else I.call_value(s, flat.f[2], [x], inner)
        return consume(I, st, flat.f[1], init, each, k, ty)
    hid = (st.fresh('fold'), I.where(st))
    I.acctype[('HA', hid)] = ty
    ic, ac, bc = ('H', ('fold', hid)), ('HA', hid), ('HB', hid)
    st.mem[ic] = v
    st.mem[ac] = init
    saved = st.loops
    if I.unroll is not None:
        # loops are walked pass by pass here
        def go(s, v2, acc, n):
            def kk(s2, nv, x):
                if x is None:
                    return k(s2, acc, None)
                if n >= I.unroll:
                    return []
                s2.mem[('cpasses', hid)] = n + 1

                def kb(s3, acc2, brk=None):
                    return k(s3, acc2, brk) if brk is not None else go(s3, nv, acc2, n + 1)
                return body(s2, acc, x, kb)
            return nxt(I, s, v2, kk)
        return go(st, v, init, 0)

    def run(g):
        g.loops = saved + ((None, -1, ()),)

        def kk(s, nv, x):
            s.mem[ic] = nv
            if x is None:
                s.stop = ('done',)
                return [s]

            def kb(s2, acc2, brk=None):
                s2.mem[ac] = acc2
                if brk is not None:
                    s2.mem[bc] = brk
                    s2.stop = ('brk',)
                else:
                    s2.stop = ('back',)
                return [s2]
            return body(s, s.mem[ac], x, kb)
        stopped = I.explore(nxt(I, g, g.mem[ic], kk))
        backs, exits = [], []
        for s in stopped:
            if s.stop[0] == 'back':
                s.stop = None
                backs.append(s)
            else:
                exits.append(s)
        return backs, exits
    exits, _ = I.fix_loop(st, ('fold', hid), run)
    out = []
    for s in exits:
        s.loops = saved
        if s.stop is not None and s.stop[0] in ('done', 'brk'):
            kind = s.stop[0]
            s.stop = None
            acc = s.mem.pop(ac)
            s.mem.pop(ic, None)
            b = s.mem.pop(bc, None)
            out += k(s, acc, b if kind == 'brk' else None)
        else:
            out.append(s)
    return out


def into_iter(I, st, v, ty, k, mode=None):
    """IntoIterator::into_iter"""
    if is_it(v) or is_range(v):
        return k(st, v)
    base = v
    x = v
    if isinstance(v, Ref):
        x = I.read(st, v.cell, v.proj)
        n = 0
        while isinstance(x, Ref) and n < 9:
            base = x
            x = I.read(st, x.cell, x.proj)
            n += 1
        if is_it(x) or is_range(x):
            return k(st, v)
        mode = mode or 'ref'
        if isinstance(x, Adt) and x.key in ('@guard', '@arc', COW):
            return into_iter(I, st, deref_ref(I, st, base), None, k, mode)
    elif isinstance(v, T) and TY.get(v) is not None and TY[v][0] == 'ref':
        x = I.content(st, v)
        mode = mode or 'ref'
    elif isinstance(v, Adt) and v.key == COW:
        x = I.content(st, v)
    mode = mode or 'val'
    if isinstance(x, Adt) and x.key == OPT:
        return k(st, it('seq', seq([('v', x.f[0])]) if x.vi == 1 else EMPTY, 0, mode))
    if isinstance(x, T) and TY.get(x) is not None and selfname(TY[x]) in ('Option', 'Result'):
        good = 1 if selfname(TY[x]) == 'Option' else 0
        out = []
        for s, vi, p in ofork(I, st, x):
            out += k(s, it('seq', seq([('v', p)]) if vi == good else EMPTY, 0, mode))
        return out
    if isinstance(x, Adt) and x.key == '@dm':
        n = selfname(ty)
        if n not in MAPS:
            n = 'DashMap' if isinstance(x.f[0], Seq) and x.f[0].p and x.f[0].p[0][0] == 'v' and isinstance(x.f[0].p[0][1], Adt) \
                and x.f[0].p[0][1].key == '()' else 'DashSet'
        return k(st, it('seq', x.f[0], 0, map_mode(n, mode != 'val')))
    if isinstance(x, T) and selfname(TY.get(x)) in MAPS:
        return k(st, it('abs', x, 0, 'fresh', map_mode(selfname(TY[x]), mode != 'val')))
    if isinstance(x, Seq) or isinstance(x, T):
        if mode == 'mut' and isinstance(base, Ref):
            return k(st, it('seq', x, 0, 'ref', base))
        return k(st, it('seq', x, 0, mode))
    return k(st, v)


@m('IntoIterator::into_iter')
def _(I, st, a, c, k):
    ty = c.argtys[0] if c.argtys else None
    mode = None
    if ty is not None and ty[0] == 'ref':
        mode = 'mut' if ty[1] else 'ref'
    return into_iter(I, st, a[0], ty, k, mode)


@m('slice::iter', 'ArrayVec::iter', 'Vec::iter', 'Option::iter', 'array::iter', 'VecDeque::iter', 'BTreeMap::iter')
def _(I, st, a, c, k):
    return into_iter(I, st, a[0] if isinstance(a[0], Ref) else rval(a[0]), None, k, 'ref')


@m('slice::iter_mut', 'ArrayVec::iter_mut', 'Vec::iter_mut')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    return k(st, it('seq', I.read(st, cell, proj), 0, 'ref', ref(cell, proj)))


def rev_parts(v):
    return seq(tuple(v.p[::-1]))


@m('Iterator::next', 'DoubleEndedIterator::next_back')
def _(I, st, a, c, k):
    if c.m == 'next_back':
        cell, proj = tgt_it(I, st, a[0])
        v = I.read(st, cell, proj)
        if is_it(v) and v.f[0] == 'seq' and known(v.f[1]):
            c2, i, mode = v.f[1], v.f[2], v.f[3]
            if i >= len(c2.p):
                return k(st, NONE)
            I.write(st, cell, proj, it('seq', seq(c2.p[:-1]), i, mode))
            return k(st, some(item(I, c2.p[-1][1], mode)))
        I.write(st, cell, proj, it('abs', mk('havoc', st.fresh('havoc')), 0, 'mid', 'val'))
        return abs_next(I, st, it('abs', mk('havoc', st.fresh('havoc')), 0, 'mid', 'val'), lambda s, n, x: k(s, NONE if x is None else some(x)))
    return nxt(I, st, a[0] if isinstance(a[0], Ref) else ref(('D', a[0])), lambda s, n, x: k(s, NONE if x is None else some(x)))


def adaptor(kind, *names_):
    def f(I, st, a, c, k):
        return into_iter(I, st, a[0], None, lambda s, v: k(s, it(kind, v, *a[1:])))
    for n in names_:
        M['Iterator::' + n] = f


adaptor('map', 'map')
adaptor('filter', 'filter')
adaptor('filter_map', 'filter_map')
adaptor('cloned', 'cloned', 'copied')
adaptor('inspect', 'inspect')
adaptor('skip', 'skip')


@m('Iterator::take')
def _(I, st, a, c, k):
    def go(s, v):
        n = a[1]
        if not (isinstance(n, int) and n <= 4 and is_it(v)):
            return k(s, it('take', v, n))
        ad = []
        w = v
        while w.f[0] in ('map', 'cloned', 'inspect', 'enum') and is_it(w.f[1]):
            ad.append(w)
            w = w.f[1]
        if not (w.f[0] == 'abs' and w.f[2] == 0 and w.f[3] == 'fresh' or w.f[0] == 'seq' and not known(w.f[1]) and w.f[2] == 0 and len(w.f) == 4):
            return k(s, it('take', v, n))
        # few elements: all of a short collection, or the first n of a longer one
        coll = w.f[1]
        mode = w.f[-1]
        o = []
        for s2, b in I.fork(s, I.cmp(s, 'Le', count(coll), n)):
            if b:
                o += k(s2, v)
                continue

            def grab(s3, x, items, left):
                if left == 0:
                    r = it('seq', seq([('v', y) for y in items]), 0, 'val')
                    for q in reversed(ad):
                        r = it(q.f[0], r, *q.f[2:])
                    return k(s3, r)
                return nxt(I, s3, x, lambda s4, x2, y: grab(s4, x2, items + [y], left - 1) if y is not None else [])
            o += grab(s2, w, [], n)
        return o
    return into_iter(I, st, a[0], None, go)


adaptor('step', 'step_by')
adaptor('take_while', 'take_while')
adaptor('skip_while', 'skip_while')
adaptor('map_while', 'map_while')
adaptor('fuse', 'fuse')


@m('Iterator::enumerate')
def _(I, st, a, c, k):
    return k(st, it('enum', a[0], 0))


@m('Iterator::peekable')
def _(I, st, a, c, k):
    return k(st, it('peek', a[0], UNIT))


@m('Peekable::peek', 'Peekable::peek_mut')
def _(I, st, a, c, k):
    cell, proj = tgt_it(I, st, a[0])
    v = I.read(st, cell, proj)
    if not (is_it(v) and v.f[0] == 'peek'):
        return I.opaque(st, c, a, k)
    if v.f[2] is not UNIT:
        o = []
        for s, vi, p in ofork(I, st, v.f[2]):
            o += k(s, some(rval(p)) if vi == 1 else NONE)
        return o

    stable = is_it(v.f[1]) and v.f[1].f[0] == 'abs' and isinstance(v.f[1].f[2], int) and c.m == 'peek'

    def kk(s, n, x):
        if stable and x is not None:
            return k(s, some(rval(x)))      # it is found again when it is taken
        I.write(s, cell, proj, it('peek', n, NONE if x is None else some(x)))
        return k(s, NONE if x is None else some(rval(x)))
    return nxt(I, st, v.f[1], kk)


@m('Peekable::next_if', 'Peekable::next_if_eq')
def _(I, st, a, c, k):
    return I.opaque(st, c, a, k)


@m('Iterator::zip', 'Iterator::chain', 'iter::zip')
def _(I, st, a, c, k):
    return into_iter(I, st, a[0], None, lambda s0, x: into_iter(I, s0, a[1], None, lambda s, v: k(s, it(c.m, x, v))))


@m('Iterator::flat_map', 'Iterator::flatten')
def _(I, st, a, c, k):
    return k(st, it('flat', a[0], a[1] if c.m == 'flat_map' else UNIT, UNIT))


@m('Iterator::rev')
def _(I, st, a, c, k):
    v = a[0]
    if is_it(v) and v.f[0] == 'seq' and isinstance(v.f[1], Seq) and v.f[2] == 0 and known(v.f[1]):
        return k(st, it('seq', rev_parts(v.f[1]), 0, *v.f[3:]))
    if is_range(v) and isinstance(v.f[0], int) and len(v.f) > 1 and isinstance(v.f[1], int) and v.f[1] - v.f[0] < 70:
        hi = v.f[1] + (1 if v.key.endswith('Inclusive') else 0)
        return k(st, it('seq', seq([('v', x) for x in range(hi - 1, v.f[0] - 1, -1)]), 0, 'val'))
    return k(st, it('rev', v))


@m('Iterator::by_ref')
def _(I, st, a, c, k):
    return k(st, a[0])


@m('iter::once')
def _(I, st, a, c, k):
    return k(st, it('once', a[0]))


@m('iter::empty')
def _(I, st, a, c, k):
    return k(st, it('empty'))


@m('iter::repeat', 'iter::repeat_n', 'iter::repeat_with')
def _(I, st, a, c, k):
    return k(st, it('abs', mk('repeat', a[0] if not isinstance(a[0], Ref) else I.content(st, a[0])), 0, 'mid', 'val'))


@m('iter::from_fn')
def _(I, st, a, c, k):
    return k(st, it('from_fn', a[0]))


# ------------------------------------------------------------------ collecting
def collect_seq(I, st, v, k, stringy=False):
    n = None

    def body(s, acc, x, kb):
        if stringy:
            y = I.content(s, x)
            ty = TY.get(y) if isinstance(y, T) else None
            if isinstance(y, Seq) or selfname(ty) in ('str', 'String', 'Cow', 'slice', 'Vec', 'array'):
                return kb(s, seq(parts(acc) + parts(y)))
            return kb(s, seq(parts(acc) + (('v', y),)))
        return kb(s, seq(parts(acc) + (('v', x),)))
    if is_it(v) and v.f[0] == 'seq' and v.f[2] == 0 and v.f[3] == 'val' and not stringy:
        return k(st, v.f[1])
    if is_it(v) and v.f[0] == 'cloned' and is_it(v.f[1]) and v.f[1].f[0] == 'seq' and v.f[1].f[2] == 0 and v.f[1].f[3] == 'ref':
        return k(st, v.f[1].f[1])
    return consume(I, st, v, EMPTY, body, lambda s, acc, b: k(s, acc))


def collect_into(I, st, v, ty, k):
    n = selfname(ty)
    if ty is not None and ty[0] == 'adt':
        if ty[1] in (OPT, RES):
            opt = ty[1] == OPT

            def body(s, acc, x, kb):
                o = []
                for s2, vi, p in ofork(I, s, x):
                    if vi == (1 if opt else 0):
                        o += add(s2, acc, p, kb)
                    else:
                        o += kb(s2, acc, NONE if opt else err(p))
                return o
            inner = targ(ty)

            def add(s, acc, p, kb):
                if selfname(inner) in MAPS:
                    return kb(s, adt('@dm', 0, (seq(acc.f[0].p + (('v', p),)),)) if isinstance(acc.f[0], Seq) else mk('top'))
                if selfname(inner) in ('unit', 'tuple'):
                    return kb(s, acc)
                if selfname(inner) == 'String':
                    return kb(s, seq(parts(acc) + parts(I.content(s, p))))
                return kb(s, seq(parts(acc) + (('v', p),)))
            init = adt('@dm', 0, (EMPTY,)) if selfname(inner) in MAPS else UNIT if selfname(inner) == 'tuple' else EMPTY
            return consume(I, st, v, init, body, lambda s, acc, b: k(s, b if b is not None else (some(acc) if opt else ok(acc))))
        if n in MAPS:
            def body2(s, acc, x, kb):
                return kb(s, seq(parts(acc) + (('v', x),)))
            return consume(I, st, v, EMPTY, body2, lambda s, acc, b: k(s, adt('@dm', 0, (acc,))))
        if n == 'String':
            return collect_seq(I, st, v, k, True)
        if n == 'Cow':
            return collect_seq(I, st, v, lambda s, x: k(s, adt(COW, 1, (x,))), True)
        if n in ('Arc', 'Rc'):
            return collect_seq(I, st, v, lambda s, x: k(s, arc_new(s, x)))
    return collect_seq(I, st, v, k)


@m('Iterator::collect')
def _(I, st, a, c, k):
    return into_iter(I, st, a[0], None, lambda s, v: collect_into(I, s, v, c.dest, k))


@m('FromIterator::from_iter')
def _(I, st, a, c, k):
    return into_iter(I, st, a[0], None, lambda s, v: collect_into(I, s, v, c.args[0] if c.args else c.dest, k))


@m('Iterator::fold')
def _(I, st, a, c, k):
    def body(s, acc, x, kb):
        return I.call_value(s, a[2], [acc, x], lambda s2, r: kb(s2, r))
    return consume(I, st, a[0], a[1], body, lambda s, acc, b: k(s, acc), c.dest)


@m('Iterator::for_each')
def _(I, st, a, c, k):
    def body(s, acc, x, kb):
        return I.call_value(s, a[1], [x], lambda s2, r: kb(s2, acc))
    return consume(I, st, a[0], UNIT, body, lambda s, acc, b: k(s, UNIT))


@m('Iterator::try_for_each', 'Iterator::try_fold')
def _(I, st, a, c, k):
    fold = c.m == 'try_fold'
    f = a[2] if fold else a[1]
    n = selfname(c.dest)

    def body(s, acc, x, kb):
        def res(s2, r):
            o = []
            for s3, vi, p in ofork(I, s2, r):
                good = vi == 1 if n == 'Option' else vi == 0
                if good:
                    o += kb(s3, p if fold else acc)
                else:
                    o += kb(s3, acc, r if isinstance(r, Adt) else adt(c.dest[1], vi, () if n == 'Option' else (p,)))
            return o
        return I.call_value(s, f, [acc, x] if fold else [x], res)
    v = a[0]
    if isinstance(v, Ref):
        pass

    def fin(s, acc, b):
        if b is not None:
            return k(s, b)
        return k(s, some(acc) if n == 'Option' else adt(c.dest[1] if c.dest else RES, 0, (acc,)))
    return consume(I, st, v, a[1] if fold else UNIT, body, fin)


@m('Iterator::count', 'ExactSizeIterator::len', 'Iterator::size_hint')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    n = it_count(I, st, v)
    if c.m == 'size_hint':
        return k(st, adt('()', 0, (n, some(n))) if n is not None else adt('()', 0, (typed(mk('ext', 'size_hint', st.fresh('e')), ('prim', 'usize')), NONE)))
    if n is not None:
        return k(st, n)
    if isinstance(v, Adt) and not is_it(v) and not is_range(v):
        for im in I.F.impls:
            if im.get('trait') == c.trait:
                s = im['crate'].ty(im['self'])
                if s[0] == 'adt' and s[1] == v.key:
                    for x in im['items']:
                        if x['n'] == c.m:
                            fn = I.F.fns.get(x['k'])
                            if fn is not None:
                                return I.push(st, fn, {}, [a[0]], k)
        if c.m == 'len':
            return I.opaque(st, c, a, k, pure=True)
    return consume(I, st, v, 0, lambda s, acc, x, kb: kb(s, ladd(acc, 1)), lambda s, acc, b: k(s, acc))


@m('Iterator::sum')
def _(I, st, a, c, k):
    isf = c.dest is not None and c.dest[0] == 'prim' and c.dest[1][0] == 'f'

    def body(s, acc, x, kb):
        y = I.content(s, x)
        if isf:
            return kb(s, typed(mk('fadd', acc, y), c.dest))
        return I.added(s, c.dest, acc, y, kb)
    return consume(I, st, a[0], 0, body, lambda s, acc, b: k(s, acc), c.dest)


@m('Iterator::all', 'Iterator::any', 'Iterator::find', 'Iterator::position', 'Iterator::find_map')
def _(I, st, a, c, k):
    meth = c.m

    def body(s, acc, x, kb):
        def res(s2, r):
            o = []
            if meth == 'find_map':
                for s3, vi, p in ofork(I, s2, r):
                    o += kb(s3, acc, some(p)) if vi == 1 else kb(s3, acc)
                return o
            for s3, b in I.fork(s2, r):
                if meth == 'all':
                    o += kb(s3, acc) if b else kb(s3, acc, 0)
                elif meth == 'any':
                    o += kb(s3, acc, 1) if b else kb(s3, acc)
                elif meth == 'find':
                    o += kb(s3, acc, some(x)) if b else kb(s3, acc)
                else:
                    o += kb(s3, acc, some(acc)) if b else kb(s3, ladd(acc, 1))
            return o
        return I.call_value(s, a[1], [rval(x) if meth == 'find' else x], res)
    v = a[0]
    v = I.content(st, v) if isinstance(v, Ref) and not isinstance(I.content(st, v), T) else v
    return consume(I, st, v, 0, body,
                   lambda s, acc, b: k(s, b if b is not None else {'all': 1, 'any': 0}.get(meth, NONE)))


@m('Iterator::last', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::reduce')
def _(I, st, a, c, k):
    v = a[0]
    if c.m == 'last':
        return consume(I, st, v, NONE, lambda s, acc, x, kb: kb(s, some(x)), lambda s, acc, b: k(s, acc))
    colls = it_colls(v)
    return k(st, typed(mk('ext', 'iter.' + c.m, colls[0] if colls else st.fresh('e')), c.dest))


@m('Iterator::nth')
def _(I, st, a, c, k):
    n = a[1]
    if isinstance(n, int) and n < 20:
        def go(s, i):
            return nxt(I, s, a[0], lambda s2, _, x: k(s2, NONE) if x is None else (k(s2, some(x)) if i == 0 else go(s2, i - 1)))
        return go(st, n)
    return I.opaque(st, c, a, k)


@m('Iterator::partition', 'Iterator::unzip')
def _(I, st, a, c, k):
    if c.m == 'unzip':
        def body(s, acc, x, kb):
            p, q = (x.f if isinstance(x, Adt) else (I.payload(s, x, 0, 0), I.payload(s, x, 0, 1)))
            return kb(s, adt('()', 0, (seq(parts(acc.f[0]) + (('v', p),)), seq(parts(acc.f[1]) + (('v', q),)))))
        return consume(I, st, a[0], adt('()', 0, (EMPTY, EMPTY)), body, lambda s, acc, b: k(s, acc))
    return I.opaque(st, c, a, k)


@m('Extend::extend')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    cur = I.read(st, cell, proj)

    def fin(s, acc, b):
        return k(s, UNIT)
    if isinstance(cur, Adt) and cur.key == '@dm':
        def body(s, acc, x, kb):
            d = I.read(s, cell, proj)
            I.write(s, cell, proj, adt('@dm', 0, (seq(parts(d.f[0]) + (('v', x),)),)))
            return kb(s, acc)
        return into_iter(I, st, a[1], None, lambda s, v: consume(I, s, v, UNIT, body, fin))
    stringy = selfname(sty(c)) == 'String'
    item = c.args[1] if c.args and len(c.args) > 1 else None
    chars = item is not None and (item[0] == 'char' or item[0] == 'ref' and item[2][0] == 'char')

    def body2(s, acc, x, kb):
        y = x
        if isinstance(x, Ref):
            y = I.content_once(s, x)
        if stringy:
            y = I.content(s, x)
            if isinstance(y, Seq) or selfname(TY.get(y)) in ('str', 'String', 'Cow') or item is not None and not chars:
                I.write(s, cell, proj, seq(parts(I.read(s, cell, proj)) + parts(y)))
                return kb(s, acc)
        I.write(s, cell, proj, seq(parts(I.read(s, cell, proj)) + (('v', y),)))
        return kb(s, acc)

    def go(s, v):
        if is_it(v) and v.f[0] == 'seq' and v.f[2] == 0 and len(v.f) == 4 and not stringy:
            I.write(s, cell, proj, seq(parts(I.read(s, cell, proj)) + parts(v.f[1])))
            return k(s, UNIT)
        return consume(I, s, v, UNIT, body2, fin)
    return into_iter(I, st, a[1], None, go)


from . import models_seq2  # noqa: E402,F401
