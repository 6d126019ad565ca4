"""Slices, vectors, strings, integers, comparison, formatting."""
from .vals import *
from .models import m, mp, M, some, ok, err, NONE, COW, OPT, RES, selfname, target, target1, ofork, sty, targ, default, MAPS
from .models_seq import it, into_iter, consume, collect_seq, is_range, known, tail, CMPO

USIZE = ('prim', 'usize')


def allof(I, st, conds):
    """[(state, bool)]: fork until a condition fails"""
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(conds):
            out.append((s, True))
            continue
        for s2, b in I.fork(s, conds[i](s) if callable(conds[i]) else conds[i]):
            if b:
                work.append((s2, i + 1))
            else:
                out.append((s2, False))
    return out


def rbounds(I, st, r, n):
    """(start, end) of a range value over n elements"""
    r = I.content(st, r)
    if isinstance(r, Adt):
        k = r.key.split('::')[-1]
        if k == 'Range':
            return r.f[0], r.f[1]
        if k == 'RangeInclusive':
            return r.f[0], ladd(r.f[1], 1)
        if k == 'RangeFrom':
            return r.f[0], n
        if k == 'RangeTo':
            return 0, r.f[0]
        if k == 'RangeToInclusive':
            return 0, ladd(r.f[0], 1)
        if k == 'RangeFull':
            return 0, n
    return None


def container(I, st, r):
    """(value, function giving a reference to a projection of it)"""
    if isinstance(r, Ref) or (isinstance(r, T) and r in TY and TY[r][0] == 'ref'):
        cell, proj = target(I, st, r)
        v = I.read(st, cell, proj)
        if isinstance(v, Adt) and v.key in ('@arc', '@guard', COW):
            from .models import deref_ref
            return container(I, st, deref_ref(I, st, ref(cell, proj)))
        return v, (lambda p: ref(cell, proj + (p,)))
    return r, (lambda p: ref(('val', r), (p,)))


def isstr(c):
    t = sty(c)
    return t is not None and (t[0] == 'str' or selfname(t) == 'String')


def bound(I, st, v, i, n):
    """is i a char boundary of the string v?"""
    if I.same(st, i, 0) or I.same(st, i, n):
        return 1
    if isinstance(v, Seq) and known(v) and isinstance(i, int) and all(isinstance(p[1], int) and p[1] < 128 for p in v.p):
        return 1
    return mk('charbound', v, i)


def getter(panics):
    def f(I, st, a, c, k):
        if c.m in ('index', 'index_mut') and c.args and selfname(c.args[0]) in MAPS:
            return I.opaque(st, c, a, k)
        v, pr = container(I, st, a[0])
        n = slen(v)
        i = a[1]
        if isinstance(I.content(st, i), Adt):
            b = rbounds(I, st, i, n)
            if b is None:
                return I.opaque(st, c, a, k)
            x, y = b
            conds = [lambda s: I.cmp(s, 'Le', x, y), lambda s: I.cmp(s, 'Le', y, n)]
            if isstr(c):
                conds += [lambda s: bound(I, s, v, x, n), lambda s: bound(I, s, v, y, n)]
            out = []
            for s, g in allof(I, st, conds):
                if g:
                    r = pr(('sub', x, y))
                    out += k(s, r if panics else some(r))
                elif panics:
                    I.panic(s, 'bounds', ('range', x, y, n))
                else:
                    out += k(s, NONE)
            return out
        i = I.content(st, i)
        out = []
        for s, g in I.fork(st, I.cmp(st, 'Lt', i, n)):
            if g:
                out += k(s, pr(('i', i)) if panics else some(pr(('i', i))))
            elif panics:
                I.panic(s, 'bounds', ('index', i, n))
            else:
                out += k(s, NONE)
        return out
    return f


for _t in ('slice', 'Vec', 'array', 'str', 'String', 'ArrayVec', 'VecDeque'):
    M[_t + '::get'] = getter(False)
    M[_t + '::get_mut'] = getter(False)
    M[_t + '::get_unchecked'] = getter(True)
    M[_t + '::get_unchecked_mut'] = getter(True)
M['Index::index'] = getter(True)
M['IndexMut::index_mut'] = getter(True)


@m('RangeInclusive::new')
def _(I, st, a, c, k):
    return k(st, adt(c.dest[1], 0, (a[0], a[1], 0)))


@m('RangeInclusive::start', 'RangeInclusive::end', 'RangeInclusive::into_inner', 'RangeInclusive::contains', 'Range::contains')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    if c.m == 'start':
        return k(st, rval(v.f[0]))
    if c.m == 'end':
        return k(st, rval(v.f[1]))
    if c.m == 'contains':
        x = I.content(st, a[1])
        if lparts(x) is None or lparts(v.f[0]) is None or lparts(v.f[1]) is None:
            return k(st, mk('pred', 'contains', v, x))
        out = []
        for s, b in allof(I, st, [lambda s: I.cmp(s, 'Ge', x, v.f[0]), lambda s: I.cmp(s, 'Le' if 'Incl' in v.key else 'Lt', x, v.f[1])]):
            out += k(s, int(b))
        return out
    return k(st, adt('()', 0, v.f[:2]))


@m('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut', 'Vec::first', 'Vec::last', 'VecDeque::front', 'VecDeque::back')
def _(I, st, a, c, k):
    v, pr = container(I, st, a[0])
    n = slen(v)
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Ge', n, 1)):
        out += k(s, some(pr(('i', 0 if c.m in ('first', 'front', 'first_mut') else ladd(n, -1)))) if g else NONE)
    return out


@m('slice::split_first', 'slice::split_last', 'slice::split_first_chunk', 'slice::first_chunk', 'slice::last_chunk', 'slice::split_last_chunk')
def _(I, st, a, c, k):
    v, pr = container(I, st, a[0])
    n = slen(v)
    w = 1
    if 'chunk' in c.m:
        w = next((x[1] for x in c.args if x[0] == 'const' and isinstance(x[1], int)), None)
        if w is None:
            return I.opaque(st, c, a, k, pure=True)
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Ge', n, w)):
        if not g:
            out += k(s, NONE)
            continue
        if c.m in ('first_chunk', 'split_first_chunk', 'split_first'):
            h, t = (pr(('sub', 0, w)) if 'chunk' in c.m else pr(('i', 0))), pr(('sub', w, n))
        else:
            h, t = (pr(('sub', ladd(n, -w), n)) if 'chunk' in c.m else pr(('i', ladd(n, -1)))), pr(('sub', 0, ladd(n, -w)))
        if c.m == 'split_last_chunk':
            h, t = t, h
        out += k(s, some(h) if c.m in ('first_chunk', 'last_chunk') else some(adt('()', 0, (h, t))))
    return out


@m('slice::split_at', 'slice::split_at_mut', 'slice::split_at_checked', 'str::split_at', 'str::split_at_checked')
def _(I, st, a, c, k):
    v, pr = container(I, st, a[0])
    n = slen(v)
    i = a[1]
    conds = [lambda s: I.cmp(s, 'Le', i, n)]
    if isstr(c):
        conds.append(lambda s: bound(I, s, v, i, n))
    out = []
    for s, g in allof(I, st, conds):
        if g:
            t = adt('()', 0, (pr(('sub', 0, i)), pr(('sub', i, n))))
            out += k(s, some(t) if 'checked' in c.m else t)
        elif 'checked' in c.m:
            out += k(s, NONE)
        else:
            I.panic(s, 'bounds', ('split', i, n))
    return out


def value_of(I, st, r):
    v = I.content(st, r)
    if isinstance(v, Adt) and v.key == '@arc':
        v = I.content(st, ref(v.f[0]))
    return v


@m('slice::len', 'Vec::len', 'str::len', 'String::len', 'ArrayVec::len', 'array::len', 'VecDeque::len')
def _(I, st, a, c, k):
    return k(st, slen(value_of(I, st, a[0])))


@m('slice::is_empty', 'Vec::is_empty', 'str::is_empty', 'String::is_empty', 'ArrayVec::is_empty', 'array::is_empty', 'VecDeque::is_empty')
def _(I, st, a, c, k):
    return k(st, I.cmp(st, 'Eq', slen(value_of(I, st, a[0])), 0))


@m('ArrayVec::is_full')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    cap = capacity(sty(c))
    return k(st, I.cmp(st, 'Ge', slen(v), cap) if cap is not None else mk('top'))


@m('ArrayVec::remaining_capacity')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    cap = capacity(sty(c))
    return k(st, ladd(cap, slen(v), -1))


def capacity(ty):
    """capacity of an ArrayVec type"""
    if ty is not None and ty[0] == 'adt':
        for x in ty[2]:
            if x[0] == 'array' and isinstance(x[2], int):
                return x[2]
            if x[0] == 'const' and isinstance(x[1], int):
                return x[1]
    return None


@m('Vec::new', 'String::new', 'Vec::with_capacity', 'String::with_capacity', 'ArrayVec::new', 'Vec::new_in', 'VecDeque::new', 'VecDeque::with_capacity')
def _(I, st, a, c, k):
    return k(st, EMPTY)


@m('Vec::reserve', 'Vec::reserve_exact', 'String::reserve', 'Vec::shrink_to_fit', 'String::shrink_to_fit', 'String::reserve_exact')
def _(I, st, a, c, k):
    return k(st, UNIT)


@m('Vec::capacity', 'String::capacity', 'ArrayVec::capacity')
def _(I, st, a, c, k):
    if selfname(sty(c)) == 'ArrayVec' and capacity(sty(c)) is not None:
        return k(st, capacity(sty(c)))
    return k(st, typed(mk('capacity', value_of(I, st, a[0])), USIZE))


@m('Vec::push', 'String::push', 'VecDeque::push_back', 'ArrayVec::push', 'ArrayVec::try_push', 'Vec::push_within_capacity')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    isc = c.self is not None and selfname(c.self) == 'String'
    x = a[1]
    p = (('v', x),)
    if isc and not (isinstance(x, int) and x < 128):
        p = (('t', mk('utf8char', x)),)
    if selfname(sty(c)) == 'ArrayVec' and capacity(sty(c)) is not None:
        out = []
        for s, b in I.fork(st, I.cmp(st, 'Lt', slen(v), capacity(sty(c)))):
            if b:
                I.write(s, cell, proj, seq(parts(v) + p))
                out += k(s, ok(UNIT) if c.m == 'try_push' else UNIT)
            elif c.m == 'try_push':
                out += k(s, err(mk('capacityerror')))
            else:
                I.panic(s, 'capacity', None)
        return out
    I.write(st, cell, proj, seq(parts(v) + p))
    return k(st, UNIT)


@m('Vec::extend_from_slice', 'String::push_str', 'ArrayVec::try_extend_from_slice', 'Vec::append', 'Vec::extend_from_within')
def _(I, st, a, c, k):
    if c.m == 'extend_from_within':
        return I.opaque(st, c, a, k)
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    x = value_of(I, st, a[1])
    if c.m == 'append':
        c2, p2 = target(I, st, a[1])
        I.write(st, c2, p2, EMPTY)
    if c.m.startswith('try_'):
        cap = capacity(sty(c))
        out = []
        for s, b in I.fork(st, I.cmp(st, 'Le', ladd(slen(v), slen(x)), cap) if cap is not None else mk('arraycap', v, x)):
            if b:
                I.write(s, cell, proj, seq(parts(v) + parts(x)))
                out += k(s, ok(UNIT))
            else:
                out += k(s, err(mk('capacityerror')))
        return out
    I.write(st, cell, proj, seq(parts(v) + parts(x)))
    return k(st, UNIT)


@m('Vec::pop', 'ArrayVec::pop', 'String::pop', 'VecDeque::pop_back', 'VecDeque::pop_front')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    n = slen(v)
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Ge', n, 1)):
        if not g:
            out += k(s, NONE)
            continue
        if selfname(sty(c)) == 'String' and not known(v):
            nv = mk('popped', v)
            I.write(s, cell, proj, nv)
            out += k(s, some(typed(mk('lastchar', v), ('char',))))
            continue
        i = 0 if c.m == 'pop_front' else ladd(n, -1)
        x = I.index(s, v, i)
        I.write(s, cell, proj, I.sub(s, v, 1, n) if c.m == 'pop_front' else I.sub(s, v, 0, i))
        out += k(s, some(x))
    return out


@m('Vec::clear', 'String::clear', 'ArrayVec::clear', 'VecDeque::clear')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    I.write(st, cell, proj, EMPTY)
    return k(st, UNIT)


@m('Vec::truncate', 'String::truncate', 'ArrayVec::truncate')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    n = a[1]
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Lt', n, slen(v))):
        if g:
            I.write(s, cell, proj, I.sub(s, v, 0, n))
        out += k(s, UNIT)
    return out


@m('Vec::remove', 'Vec::swap_remove', 'ArrayVec::remove', 'String::remove', 'ArrayVec::swap_remove')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    i, n = a[1], slen(v)
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Lt', i, n)):
        if not g:
            I.panic(s, 'bounds', ('index', i, n))
            continue
        x = I.index(s, v, i)
        if c.m == 'swap_remove' and not I.same(s, i, ladd(n, -1)):
            I.write(s, cell, proj, mk('swapremoved', v, i))
        else:
            I.write(s, cell, proj, seq(parts(I.sub(s, v, 0, i)) + parts(I.sub(s, v, ladd(i, 1), n))))
        out += k(s, x)
    return out


@m('Vec::insert', 'ArrayVec::insert', 'String::insert', 'VecDeque::push_front')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    i, x = (a[1], a[2]) if len(a) > 2 else (0, a[1])
    n = slen(v)
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Le', i, n)):
        if not g:
            I.panic(s, 'bounds', ('index', i, n))
            continue
        I.write(s, cell, proj, seq(parts(I.sub(s, v, 0, i)) + (('v', x),) + parts(I.sub(s, v, i, n))))
        out += k(s, UNIT)
    return out


@m('Vec::resize', 'String::repeat', 'slice::repeat', 'str::repeat', 'vec::from_elem', 'slice::fill', 'Vec::split_off', 'Vec::drain', 'ArrayVec::drain',
   'String::drain', 'String::split_off')
def _(I, st, a, c, k):
    if c.m == 'from_elem':
        n = a[1]
        if isinstance(n, int) and n <= 64:
            return k(st, seq([('v', a[0])] * n))
        return k(st, seq([('rep', a[0], n)]))
    if c.m == 'repeat':
        return k(st, mk('repeated', value_of(I, st, a[0]), a[1]))
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    n = slen(v)
    if c.m == 'resize':
        out = []
        for s, g in I.fork(st, I.cmp(st, 'Ge', a[1], n)):
            if g:
                d = ladd(a[1], n, -1)
                I.write(s, cell, proj, v if d == 0 else seq(parts(v) + (('rep', a[2], d),)))
            else:
                I.write(s, cell, proj, I.sub(s, v, 0, a[1]))
            out += k(s, UNIT)
        return out
    if c.m == 'fill':
        I.write(st, cell, proj, seq([('rep', a[1], n)]))
        return k(st, UNIT)
    if c.m == 'split_off':
        x, y = a[1], n
    else:
        b = rbounds(I, st, a[1], n)
        if b is None:
            return I.opaque(st, c, a, k)
        x, y = b
    out = []
    for s, g in allof(I, st, [lambda s: I.cmp(s, 'Le', x, y), lambda s: I.cmp(s, 'Le', y, n)]):
        if not g:
            I.panic(s, 'bounds', ('range', x, y, n))
            continue
        cut = I.sub(s, v, x, y)
        I.write(s, cell, proj, seq(parts(I.sub(s, v, 0, x)) + parts(I.sub(s, v, y, n))))
        out += k(s, cut if c.m == 'split_off' else it('seq', cut, 0, 'val'))
    return out


@m('slice::copy_from_slice', 'slice::clone_from_slice')
def _(I, st, a, c, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    x = value_of(I, st, a[1])
    out = []
    for s, g in I.fork(st, I.cmp(st, 'Eq', slen(v), slen(x))):
        if g:
            I.write(s, cell, proj, x)
            out += k(s, UNIT)
        else:
            I.panic(s, 'copy_from_slice', None)
    return out


@m('slice::contains', 'str::contains', 'slice::starts_with', 'slice::ends_with', 'str::starts_with', 'str::ends_with', 'Vec::contains', 'str::is_char_boundary',
   'str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case', 'str::is_ascii', 'slice::is_ascii', 'str::matches')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    x = value_of(I, st, a[1]) if len(a) > 1 else None
    if isinstance(x, Adt) and x.key in ('@clo', '@pyfn'):
        x = mk('clo', x)
    if c.m in ('starts_with', 'ends_with') and isinstance(v, Seq) and isinstance(x, Seq) and known(v) and known(x):
        p, q = v.p, x.p
        r = p[:len(q)] == q if c.m == 'starts_with' else p[len(p) - len(q):] == q
        return k(st, int(r))
    if c.m == 'eq_ignore_ascii_case' and isinstance(v, Seq) and isinstance(x, Seq) and all(p[0] == 'v' and isinstance(p[1], int) for p in v.p + x.p):
        low = [[p[1] + 32 if 65 <= p[1] <= 90 else p[1] for p in s.p] for s in (v, x)]
        return k(st, int(low[0] == low[1]))
    if c.m == 'contains' and isinstance(v, Seq) and known(v) and selfname(sty(c)) != 'str':
        return anyeq(I, st, v.p, 0, x, k)
    return k(st, typed(mk('pred', c.m, v, x), ('bool',)))


def anyeq(I, st, ps, i, x, k):
    if i == len(ps):
        return k(st, 0)
    return eqv(I, st, ps[i][1], x, lambda s, b: sum((k(s2, 1) if t else anyeq(I, s2, ps, i + 1, x, k) for s2, t in I.fork(s, b)), []))


def one_char(I, st, x):
    """the character a pattern stands for, if it is a single known one"""
    v = I.content(st, x)
    if isinstance(v, Seq) and known(v) and len(v.p) == 1:
        v = v.p[0][1]
    return v if isinstance(v, int) and v < 128 else None


def pieces(I, st, v, sep):
    """the parts of a text between the given separators: at least one"""
    if isinstance(v, T) and v.op == 'after':
        return tail(pieces(I, st, v.a[0], sep), v.a[2]) if v.a[1] == sep else typed(mk('split', v, sep), ('slice', ('str',)))
    t = typed(mk('split', v, sep), ('slice', ('str',)))
    I.add_range(st, count(t), 1, 1 << 60)
    return t


def piece(I, st, v, sep, i):
    return typed(mk('elem', pieces(I, st, v, sep), i), ('str',))


@m('str::split')
def _(I, st, a, c, k):
    v, sep = value_of(I, st, a[0]), one_char(I, st, a[1])
    if sep is None or known(v):
        t = typed(mk('split', v, I.content(st, a[1])), ('slice', ('str',)))
        return k(st, it('abs', t, 0, 'fresh', 'ref'))
    t = pieces(I, st, v, sep)
    if I.onebyone:
        lo, hi = I.rng(st, count(t))
        if lo == hi <= I.onebyone:
            return k(st, it('seq', seq([('v', piece(I, st, v, sep, j)) for j in range(lo)]), 0, 'ref'))
    return k(st, it('abs', t, 0, 'fresh', 'ref'))


@m('str::splitn', 'str::split_once')
def _(I, st, a, c, k):
    v, sep = value_of(I, st, a[0]), one_char(I, st, a[-1])
    if sep is None or known(v) or c.m == 'splitn' and a[1] != 2:
        return I.opaque(st, c, a, k)
    t = pieces(I, st, v, sep)
    out = []
    s2 = st.copy()
    if I.assume(st, I.cmp(st, 'Eq', count(t), 1), 1):
        out += k(st, NONE if c.m == 'split_once' else it('seq', seq((('v', v),)), 0, 'ref'))
    if I.assume(s2, I.cmp(s2, 'Ge', count(t), 2), 1):
        x, y = typed(mk('elem', t, 0), ('str',)), typed(mk('after', v, sep, 1), ('str',))
        out += k(s2, some(adt('()', 0, (rval(x), rval(y)))) if c.m == 'split_once' else it('seq', seq((('v', x), ('v', y))), 0, 'ref'))
    return out


@m('str::rsplitn', 'str::rsplit_once', 'str::rfind')
def _(I, st, a, c, k):
    """the last separator: what is before it and what is after it"""
    v, sep = value_of(I, st, a[0]), one_char(I, st, a[-1])
    if sep is None or known(v) or c.m == 'rsplitn' and a[1] != 2:
        return I.opaque(st, c, a, k)
    has = typed(mk('has', v, sep), ('bool',))
    out = []
    for s, b in I.fork(st, has):
        x, y = typed(mk('before last', v, sep), ('str',)), typed(mk('after last', v, sep), ('str',))
        if c.m == 'rsplitn':
            out += k(s, it('seq', seq((('v', y), ('v', x)) if b else (('v', v),)), 0, 'ref'))
        elif c.m == 'rsplit_once':
            out += k(s, some(adt('()', 0, (rval(x), rval(y)))) if b else NONE)
        else:
            n = typed(mk('at last', v, sep), ('prim', 'usize'))
            I.add_range(s, n, 0, 1 << 60)
            I.assume(s, I.cmp(s, 'Lt', n, slen(v)), 1)
            out += k(s, some(n) if b else NONE)
    return out


@m('str::chars', 'str::bytes', 'str::lines', 'str::split_whitespace', 'str::char_indices', 'slice::chunks', 'slice::chunks_exact',
   'slice::windows', 'slice::split', 'str::rsplit', 'str::split_ascii_whitespace', 'slice::rchunks')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    if c.m == 'bytes':
        return k(st, it('seq', v, 0, 'val'))
    if c.m == 'chars' and isinstance(v, Seq) and known(v) and all(isinstance(p[1], int) and p[1] < 128 for p in v.p):
        return k(st, it('seq', v, 0, 'val'))
    if c.m in ('chunks', 'chunks_exact') and isinstance(a[1], int) and 1 <= a[1] <= 4:
        return k(st, it('chunks', it('seq', v, 0, 'val'), a[1], int(c.m == 'chunks_exact')))
    extra = tuple(I.content(st, x) for x in a[1:])
    t = mk(c.m, v, *[x if not (isinstance(x, Adt) and x.key == '@clo') else mk('clo', x) for x in extra])
    et = {'chars': ('char',), 'bytes': ('prim', 'u8')}.get(c.m, ('ref', False, ('str',) if isstr(c) else ('slice', ('prim', 'u8'))))
    typed(t, ('slice', et))
    return k(st, it('abs', t, 0, 'fresh', 'val'))


@m('str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase',
   'slice::to_ascii_lowercase', 'str::replace', 'str::trim_matches', 'str::trim_end_matches', 'str::trim_start_matches', 'slice::concat', 'slice::join',
   'str::strip_prefix', 'str::strip_suffix', 'str::find', 'slice::to_ascii_uppercase', 'slice::escape_ascii', 'str::escape_debug',
   'slice::iter_sum', 'Join::join', 'Concat::concat', 'str::char_count', 'slice::strip_prefix')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    name = {'to_ascii_lowercase': 'lowercase', 'to_lowercase': 'lowercase', 'to_uppercase': 'uppercase', 'to_ascii_uppercase': 'uppercase'}.get(c.m, c.m)
    if name in ('lowercase', 'uppercase') and isinstance(v, Seq) and known(v):
        try:
            s = bytes(p[1] for p in v.p).decode()
            return k(st, bytes_seq((s.lower() if name == 'lowercase' else s.upper()).encode()))
        except Exception:
            pass
    if name in ('lowercase', 'uppercase') and isinstance(v, T) and v.op == name:
        return k(st, v)
    if c.m in ('concat',) and isinstance(v, Seq) and known(v):
        o = ()
        for p in v.p:
            o += parts(value_of(I, st, p[1]))
        return k(st, seq(o))
    if c.m == 'concat':
        s = concat_of(I, st, v)
        if s is not None:
            return k(st, s)
    extra = tuple(I.content(st, x) for x in a[1:])
    t = mk(name, v, *[x if not (isinstance(x, Adt) and x.key == '@clo') else mk('clo', x) for x in extra])
    if c.dest is not None and c.dest[0] == 'ref':
        typed(t, c.dest[2])
        return k(st, rval(t))
    return k(st, typed(t, c.dest))


def concat_of(I, st, v):
    """the items of a collection of texts or slices one after the other"""
    if isinstance(v, T):
        return seq([('each', v, (('t', I.content(st, mk('deref', mk('elem', v, 0)))),))]) if v.op == 'args' else None
    o = []
    for p in parts(v):
        if p[0] == 'v':
            o.extend(parts(value_of(I, st, p[1])))
        elif p[0] == 'each' and all(q[0] == 'v' for q in p[2]):
            ps = ()
            for q in p[2]:
                x = value_of(I, st, q[1])
                ps += parts(x)
            o.append(('each', p[1], ps))
        elif p[0] == 't' and isinstance(p[1], T) and p[1].op == 'args':
            o.append(('each', p[1], (('t', I.content(st, mk('deref', mk('elem', p[1], 0)))),)))
        else:
            return None
    return seq(o)


@m('str::from_utf8', 'String::from_utf8', 'converts::from_utf8', 'str::from_utf8_mut')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    owned = c.dest is not None and selfname(targ(c.dest)) == 'String'
    good = (lambda x: ok(x)) if owned else (lambda x: ok(a[0] if isinstance(a[0], Ref) else rval(x)))
    if isinstance(v, Seq) and known(v) and all(isinstance(p[1], int) for p in v.p):
        try:
            bytes(p[1] for p in v.p).decode()
            return k(st, good(v))
        except UnicodeDecodeError:
            return k(st, err(mk('utf8err', v)))
    if I.content(st, v) is EMPTY or utf8(I, st, v):
        return k(st, good(v))
    out = []
    for s, b in I.fork(st, typed(mk('utf8', v), ('bool',))):
        out += k(s, good(v) if b else err(typed(mk('utf8err', v), targ(c.dest, 1))))
    return out


def utf8(I, st, v):
    """is v text by its type?"""
    if isinstance(v, T):
        ty = TY.get(v)
        return ty is not None and (ty[0] == 'str' or selfname(ty) == 'String') or v.op in ('disp', 'fmt', 'lossy')
    return False


@m('String::from_utf8_unchecked', 'str::from_utf8_unchecked', 'converts::from_utf8_unchecked')
def _(I, st, a, c, k):
    return k(st, a[0] if isinstance(a[0], Ref) else a[0])


@m('FromUtf8Error::into_bytes', 'FromUtf8Error::as_bytes')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    if isinstance(v, T) and v.op == 'utf8err':
        return k(st, v.a[0] if c.m == 'into_bytes' else rval(v.a[0]))
    return I.opaque(st, c, a, k, pure=True)


@m('String::from_utf8_lossy', 'String::from_utf8_lossy_owned')
def _(I, st, a, c, k):
    v = value_of(I, st, a[0])
    if utf8(I, st, v) or st.facts.get(('b', mk('utf8', v))) == 1 or I.truth(st, mk('utf8', v)):
        return k(st, adt(COW, 0, (rval(v),)))
    if isinstance(v, Seq) and known(v) and all(isinstance(p[1], int) for p in v.p):
        return k(st, adt(COW, 0, (rval(v),)))
    return k(st, adt(COW, 1, (typed(mk('lossy', v), ('str',)),)))


# ------------------------------------------------------------------ mem
@m('mem::replace', 'mem::take', 'mem::swap')
def _(I, st, a, c, k):
    cell, proj = target1(I, st, a[0])
    v = I.read(st, cell, proj)
    if c.m == 'replace':
        I.write(st, cell, proj, a[1])
        return k(st, v)
    if c.m == 'swap':
        c2, p2 = target1(I, st, a[1])
        w = I.read(st, c2, p2)
        I.write(st, cell, proj, w)
        I.write(st, c2, p2, v)
        return k(st, UNIT)

    def kk(s, d):
        I.write(s, cell, proj, d)
        return k(s, v)
    return default(I, st, c.dest, kk)


@m('mem::drop')
def _(I, st, a, c, k):
    return I.drop_value(st, a[0], c.argtys[0] if c.argtys else None, lambda s: k(s, UNIT))


@m('mem::forget')
def _(I, st, a, c, k):
    return k(st, UNIT)


@m('mem::size_of', 'mem::size_of_val')
def _(I, st, a, c, k):
    t = c.args[0] if c.args else None
    if t is not None and t[0] == 'prim' and t[1] in WIDTH:
        return k(st, WIDTH[t[1]])
    if t is not None and t[0] in ('bool',):
        return k(st, 1)
    return k(st, typed(mk('sizeof', str(t)), USIZE))


@m('intrinsics::discriminant_value', 'mem::discriminant')
def _(I, st, a, c, k):
    return k(st, I.discr(st, I.content(st, a[0])))


from . import models_num  # noqa: E402,F401
from .models_num import eqv  # noqa: E402


BOUND = 'core::ops::range::Bound'


def range_bound(hi):
    """RangeBounds::start_bound / end_bound of a range value"""
    def f(I, st, a, c, k):
        r = I.content(st, a[0])
        if not isinstance(r, Adt):
            return I.opaque(st, c, a, k)
        n = r.key.split('::')[-1]
        x = {'Range': (0, 1), 'RangeInclusive': (0, 1), 'RangeFrom': (0, None), 'RangeTo': (None, 0), 'RangeToInclusive': (None, 0),
             'RangeFull': (None, None)}.get(n)
        if x is None:
            return I.opaque(st, c, a, k)
        i = x[hi]
        if i is None:
            return k(st, adt(BOUND, 2, ()))
        return k(st, adt(BOUND, 1 if hi and not n.endswith('Inclusive') else 0, (rval(r.f[i]),)))
    return f


M['RangeBounds::start_bound'] = range_bound(0)
M['RangeBounds::end_bound'] = range_bound(1)


@m('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by', 'slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by',
   'slice::sort_unstable_by_key', 'slice::reverse', 'slice::rotate_left', 'slice::rotate_right', 'slice::swap', 'slice::sort_by_cached_key')
def _(I, st, a, c, k):
    """items left out, or in another order"""
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    p = parts(v)
    if all(x[0] == 'v' for x in p) and (len(p) < 2 or c.m == 'reverse'):
        new = seq(p[::-1])
    elif all(x[0] == 'v' for x in p) and c.m == 'swap' and all(isinstance(x, int) and x < len(p) for x in a[1:3]):
        q = list(p)
        q[a[1]], q[a[2]] = q[a[2]], q[a[1]]
        new = seq(q)
    else:
        new = typed(mk('dedup' if c.m.startswith('dedup') else 'perm', v, c.m), TY.get(v) if isinstance(v, T) else None) if isinstance(v, T) and TY.get(v) else \
            mk('dedup' if c.m.startswith('dedup') else 'perm', v, c.m)
    I.write(st, cell, proj, new)
    return k(st, UNIT)
