"""Concurrent and plain maps and sets, reference counting, atomics, mutexes."""
from .vals import *
from . import models as B
from .models import m, M, some, ok, err, NONE, OPT, RES, COW, selfname, target, target1, ofork, sty, targ, default, deref_ref, MAPS, arc_new, conv
from .models_seq import it, into_iter, consume, kv, map_mode, known
from .models_num import eqv

ENTRY = ('dashmap::mapref::entry::Entry',)


def place_of(I, st, r):
    """the map a receiver designates: ('local', cell, proj, value) or ('shared', term)"""
    cell, proj = target(I, st, r)
    v = I.read(st, cell, proj)
    n = 0
    while isinstance(v, Adt) and v.key in ('@arc', '@guard') and n < 5:
        cell, proj = target(I, st, deref_ref(I, st, ref(cell, proj)))
        v = I.read(st, cell, proj)
        n += 1
    if isinstance(v, Adt) and v.key == '@dm':
        if cell[0] in ('arc', 'ent'):
            return ('sharedlocal', cell, proj, v)
        return ('local', cell, proj, v)
    if cell[0] in ('L', 'H', 'HA') and isinstance(v, T) and not (v in TY and TY[v][0] == 'ref'):
        return ('local', cell, proj, v)
    return ('shared', v)


def mapterm(pl):
    if pl[0] == 'shared':
        return pl[1]
    v = pl[3]
    return v.f[0] if isinstance(v, Adt) else v


def is_set(c):
    n = selfname(c.self) or ''
    return n.endswith('Set')


def bump(st, key):
    return st.fresh(('dm', key))


def etype(mt, i=1):
    ty = TY.get(mt)
    if ty is not None and ty[0] == 'ref':
        ty = ty[2]
    return targ(ty, i)


def access(I, st, op, mt, key, *extra):
    ver = st.fresh(('ver', mt))
    return ver


def vtype(c, mt):
    t = etype(mt, 1)
    if t is None and c is not None and c.self is not None and c.args and len(c.args) > 1:
        t = c.args[1]
    return t


def entcell(st, c, mt, key, ver):
    cell = ('ent', mt, key, ver)
    if cell not in st.mem:
        st.mem[cell] = typed(mk('entv', mt, key, ver), vtype(c, mt))
    return cell


def key_of(I, st, a):
    return I.content(st, a)


def local_has(mt, key):
    """is the key in a collection put together here? 1 / 0 / None"""
    if mt is EMPTY:
        return 0
    if isinstance(mt, Seq):
        for x in reversed(mt.p):
            if x[0] == 'v':
                e = x[1].f[0] if isinstance(x[1], Adt) and x[1].key == '()' and x[1].f else x[1]
                if e is key or e == key:
                    return 1
    return None


def no_members(I, st, v):
    """is it settled that the collection taken out is empty?"""
    s = st.copy()
    s.frames = []
    n = typed(mk('len', v), ('prim', 'usize'))
    return () if I.assume(s, I.cmp(s, 'Eq', n, 0), 0) else ('empty',)


# ------------------------------------------------------------------ lookups
def lookup(I, st, c, a, k, mode):
    pl = place_of(I, st, a[0])
    key = key_of(I, st, a[1])
    if pl[0] == 'local':
        mt = mapterm(pl)
        if mt is EMPTY:
            return k(st, NONE)
        s2 = st.copy()
        out = []
        b = mk('has', mt, key)
        if I.assume(st, b, 1):
            v = typed(mk('dmget', mt, key), vtype(c, mt))
            if mode == 'w':
                v = typed(mk('dmget', mt, key), vtype(c, mt))
            r = rval(v)
            if selfname(c.self) in ('DashMap', 'DashSet'):
                cell = ('ent', mt, key, 'local')
                st.mem.setdefault(cell, v)
                out += k(st, some(adt('@guard', 0, (cell, mode))))
            else:
                out += k(st, some(r))
        if I.assume(s2, b, 0):
            out += k(s2, NONE)
        return out
    mt = mapterm(pl)
    if pl[0] == 'sharedlocal' and mt is EMPTY:
        return k(st, NONE)
    s2 = st.copy()
    op = 'get' if mode == 'r' else 'get_mut'
    ver = access(I, st, op, mt, key)
    st.event('dm', op, mt, key, ver, 1)
    cell = entcell(st, c, mt, key, ver)
    out = k(st, some(adt('@guard', 0, (cell, mode))))
    ver = access(I, s2, op, mt, key)
    s2.event('dm', op, mt, key, ver, 0)
    out += k(s2, NONE)
    return out


@m('DashMap::get', 'HashMap::get', 'BTreeMap::get', 'DashSet::get', 'HashSet::get', 'DashMap::_get', 'DashMap::try_get')
def _(I, st, a, c, k):
    return lookup(I, st, c, a, k, 'r')


@m('DashMap::get_mut', 'HashMap::get_mut', 'BTreeMap::get_mut')
def _(I, st, a, c, k):
    return lookup(I, st, c, a, k, 'w')


@m('DashMap::contains_key', 'HashMap::contains_key', 'DashSet::contains', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    key = key_of(I, st, a[1])
    mt = mapterm(pl)
    if pl[0] == 'local':
        if mt is EMPTY:
            return k(st, 0)
        return k(st, typed(mk('has', mt, key), ('bool',)))
    s2 = st.copy()
    out = []
    if pl[0] == 'sharedlocal' and local_has(mt, key) is not None:
        return k(st, local_has(mt, key))
    for s, b in ((st, 1), (s2, 0)):
        ver = access(I, s, 'contains', mt, key)
        s.event('dm', 'contains', mt, key, ver, b)
        out += k(s, b)
    return out


@m('DashMap::insert', 'HashMap::insert', 'DashSet::insert', 'HashSet::insert', 'BTreeMap::insert', 'BTreeSet::insert')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    key = I.content(st, a[1]) if isinstance(a[1], Ref) and a[1].cell[0] != 'val' else a[1]
    sett = is_set(c)
    val = UNIT if sett else a[2]
    mt = mapterm(pl)
    if pl[0] in ('local', 'sharedlocal'):
        e = a[1] if sett else adt('()', 0, (a[1], val))
        r = typed(mk('inserted', mt, key), c.dest) if mt is not EMPTY else (1 if sett else NONE)
        I.write(st, pl[1], pl[2], adt('@dm', 0, (seq(parts(mt) + (('v', e),)),)))
        return k(st, r)
    s2 = st.copy()
    out = []
    for s, was in ((st, 0), (s2, 1)):
        ver = access(I, s, 'insert', mt, key)
        s.event('dm', 'insert', mt, key, ver, was, val)
        if sett:
            out += k(s, 1 - was)
        else:
            out += k(s, some(typed(mk('entv', mt, key, ver), vtype(c, mt))) if was else NONE)
    return out


@m('DashMap::remove', 'HashMap::remove', 'DashSet::remove', 'HashSet::remove', 'BTreeMap::remove', 'BTreeSet::remove', 'DashMap::remove_if',
   'HashMap::remove_entry', 'DashMap::remove_if_mut', 'DashSet::remove_if', 'HashSet::take')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    key = key_of(I, st, a[1])
    mt = mapterm(pl)
    n = selfname(c.self)
    if pl[0] in ('local', 'sharedlocal'):
        I.write(st, pl[1], pl[2], typed(mk('removed', mt, key), TY.get(mt)) if not isinstance(mt, Seq) else adt('@dm', 0, (mk('removed', mt, key),)))
        if mt is EMPTY:
            return k(st, NONE if c.dest[0] == 'adt' else 0)
        return k(st, typed(mk('rm', mt, key), c.dest))
    out = []
    s2 = st.copy()

    def present(s):
        ver = access(I, s, 'remove', mt, key)
        v = typed(mk('entv', mt, key, ver), vtype(c, mt))

        def fin(s3):
            if c.m in ('remove_if', 'remove_if_mut'):
                s3.event('dm', 'remove', mt, key, ver, 1, *no_members(I, s3, v), 'locked')
            else:
                s3.event('dm', 'remove', mt, key, ver, 1)
            if c.dest is not None and c.dest[0] == 'bool':
                return k(s3, 1)
            if n == 'DashMap' or c.m == 'remove_entry':
                return k(s3, some(adt('()', 0, (key, v))))
            if n == 'DashSet':
                return k(s3, some(key))
            return k(s3, some(v))
        if c.m in ('remove_if', 'remove_if_mut'):
            cell = entcell(s, c, mt, key, ver)

            def res(s3, b):
                o = []
                for s4, t in I.fork(s3, b):
                    if t:
                        o += fin(s4)
                    else:
                        s4.event('dm', 'remove', mt, key, ver, 0)
                        o += k(s4, NONE)
                return o
            s.event('dm', 'get_mut', mt, key, ver, 1)
            args = [rval(key), ref(cell)] if n == 'DashMap' else [rval(key)]

            def res2(s3, b):
                s3.event('rel', cell, 'w')
                return res(s3, b)
            return I.call_value(s, a[2], args, res2)
        return fin(s)
    out += present(st)
    ver = access(I, s2, 'remove', mt, key)
    s2.event('dm', 'remove', mt, key, ver, 0)
    out += k(s2, 0 if c.dest is not None and c.dest[0] == 'bool' else NONE)
    return out


@m('DashMap::len', 'DashSet::len', 'HashMap::len', 'HashSet::len', 'BTreeMap::len', 'BTreeSet::len', 'DashMap::is_empty', 'DashSet::is_empty', 'HashMap::is_empty',
   'HashSet::is_empty', 'BTreeMap::is_empty')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    mt = mapterm(pl)
    if pl[0] != 'local':
        st.event('dm', 'len', mt, None, None, None)
    n = slen(mt)
    if isinstance(mt, Seq) and mt.p and not (len(mt.p) == 1 and mt.p[0][0] == 'v') and not I.nodup:
        d = mk('distinct', mt)      # duplicates collapse
        I.add_range(st, d, 1, I.rng(st, n)[1])
        n = d
    return k(st, n if c.m == 'len' else I.cmp(st, 'Eq', n, 0))


@m('DashMap::new', 'DashSet::new', 'HashMap::new', 'HashSet::new', 'DashMap::with_capacity', 'DashSet::with_capacity', 'HashMap::with_capacity', 'HashSet::with_capacity',
   'BTreeMap::new', 'BTreeSet::new', 'DashMap::with_hasher', 'DashMap::with_capacity_and_hasher', 'HashMap::with_hasher', 'DashMap::with_shard_amount')
def _(I, st, a, c, k):
    return k(st, adt('@dm', 0, (EMPTY,)))


@m('DashMap::clear', 'DashSet::clear', 'HashMap::clear', 'HashSet::clear', 'DashMap::retain', 'DashSet::retain', 'HashMap::retain', 'HashSet::retain', 'DashMap::alter',
   'DashMap::alter_all', 'DashMap::shrink_to_fit')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    mt = mapterm(pl)
    if pl[0] in ('local', 'sharedlocal'):
        if c.m == 'clear':
            I.write(st, pl[1], pl[2], adt('@dm', 0, (EMPTY,)))
        else:
            I.write(st, pl[1], pl[2], adt('@dm', 0, (mk(c.m, mt, st.fresh('r')),)))
        return k(st, UNIT)
    st.event('dm', c.m, mt, None, None, None)
    if c.m == 'retain':
        # the closure runs on entries
        def after(s, b):
            return k(s, UNIT)
        e = mk('elem', mt, ('retain', 0))
        cell = ('ent', mt, mk('key', e), 'retain')
        s2 = st.copy()
        st.mem[cell] = typed(mk('val', e), vtype(c, mt))
        return k(s2, UNIT) + I.call_value(st, a[1], [rval(mk('key', e)), ref(cell)] if not is_set(c) else [rval(mk('key', e))], after)
    return k(st, UNIT)


@m('DashMap::iter', 'DashSet::iter', 'HashMap::iter', 'HashSet::iter', 'BTreeMap::iter', 'BTreeSet::iter', 'DashMap::iter_mut', 'HashMap::iter_mut',
   'HashMap::keys', 'HashMap::values', 'HashMap::into_keys', 'HashMap::into_values', 'HashMap::values_mut', 'BTreeMap::keys', 'BTreeMap::values')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    mt = mapterm(pl)
    if pl[0] != 'local':
        st.event('dm', c.m, mt, None, None, None)
    n = selfname(c.self)
    if 'keys' in c.m or 'values' in c.m:
        own = c.m.startswith('into')
        i = 0 if 'keys' in c.m else 1
        f = I.pyfn(lambda I2, s, args, k2: k2(s, kv(args[0] if not isinstance(args[0], Ref) else I2.content(s, args[0]))[i] if own else
                                               rval(kv(args[0])[i])))
        return k(st, it('map', it('seq', mt, 0, 'val') if isinstance(mt, Seq) else it('abs', mt, 0, 'fresh', 'val'), f))
    return k(st, it('seq', mt, 0, map_mode(n, True)) if isinstance(mt, Seq) else it('abs', mt, 0, 'fresh', map_mode(n, True)))


@m('RefMulti::key', 'RefMulti::value', 'RefMulti::pair', 'RefMutMulti::key', 'RefMutMulti::value', 'RefMutMulti::pair', 'RefMutMulti::value_mut')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    while isinstance(v, Ref):
        v = I.content_once(st, v)
    if isinstance(v, Adt) and v.key == '@smulti':
        return k(st, rval(v.f[0]))
    if isinstance(v, Adt) and v.key == '@multi':
        x, y = kv(v.f[0])
        if c.m == 'pair':
            return k(st, adt('()', 0, (rval(x), rval(y))))
        return k(st, rval(x if c.m == 'key' else y))
    return I.opaque(st, c, a, k, pure=True)


@m('Ref::key', 'RefMut::key', 'Ref::pair', 'RefMut::pair', 'RefMut::pair_mut', 'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key', 'Entry::key')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0]) if c.m != 'into_key' else a[0]
    while isinstance(v, Ref):
        v = I.content_once(st, v)
    if isinstance(v, Adt) and 'entry' in v.key.lower() and v.f:
        v = v.f[0]
    if isinstance(v, Adt) and v.key == '@guard' and v.f[0][0] == 'ent':
        key = v.f[0][2]
        if c.m == 'into_key':
            st.event('rel', v.f[0], v.f[1])
            return k(st, key)
        if 'pair' in c.m:
            return k(st, adt('()', 0, (rval(key), ref(v.f[0]))))
        return k(st, rval(key))
    return I.opaque(st, c, a, k, pure=True)


# ------------------------------------------------------------------ entry API
@m('DashMap::entry', 'HashMap::entry', 'BTreeMap::entry', 'DashMap::try_entry')
def _(I, st, a, c, k):
    pl = place_of(I, st, a[0])
    key = a[1]
    key = I.content(st, key)
    mt = mapterm(pl)
    if c.m == 'try_entry':
        return I.opaque(st, c, a, k)
    ekey = c.dest[1]
    if pl[0] in ('local', 'sharedlocal'):
        s2 = st.copy()
        out = []
        b = mk('has', mt, key)
        loc = ('lent', pl[1], pl[2], mt, key)
        if mt is not EMPTY and I.assume(st, b, 1):
            st.mem[loc] = typed(mk('dmget', mt, key), vtype(c, mt))
            out += k(st, adt(ekey, 0, (adt('@guard', 0, (loc, 'e')),)))
        if mt is EMPTY or I.assume(s2, b, 0):
            out += k(s2, adt(ekey, 1, (adt('@guard', 0, (loc, 'v')),)))
        return out
    s2 = st.copy()
    ver = access(I, st, 'entry', mt, key)
    st.event('dm', 'entry', mt, key, ver, 1)
    cell = entcell(st, c, mt, key, ver)
    out = k(st, adt(ekey, 0, (adt('@guard', 0, (cell, 'e')),)))
    ver = access(I, s2, 'entry', mt, key)
    s2.event('dm', 'entry', mt, key, ver, 0)
    out += k(s2, adt(ekey, 1, (adt('@guard', 0, (('ent', mt, key, ver), 'v')),)))
    return out


def vac_insert(st, g, val):
    """insert through a vacant entry; the resulting guard"""
    cell = g.f[0]
    if cell[0] == 'lent':
        _, c0, p0, mt, key = cell
        nv = adt('@dm', 0, (seq(parts(mt) + (('v', adt('()', 0, (key, val))),)),))
        st.mem[cell] = val
        I_write_local(st, c0, p0, nv)
        return adt('@guard', 0, (cell, 'w'))
    st.event('dm', 'insert', cell[1], cell[2], cell[3], 0, val, 'locked')
    st.mem[cell] = val
    return adt('@guard', 0, (cell, 'w'))


def I_write_local(st, cell, proj, v):
    from .interp import Interp
    if not proj:
        st.mem[cell] = v
    else:
        st.mem[cell] = _upd[0].update(st, st.mem.get(cell), proj, v)


_upd = [None]


@m('VacantEntry::insert', 'VacantEntry::insert_entry')
def _(I, st, a, c, k):
    _upd[0] = I
    g = a[0]
    if not (isinstance(g, Adt) and g.key == '@guard'):
        return I.opaque(st, c, a, k)
    r = vac_insert(st, g, a[1])
    if selfname(c.dest) not in ('RefMut', 'OccupiedEntry'):
        return k(st, ref(r.f[0]))
    return k(st, r)


@m('OccupiedEntry::insert', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry', 'OccupiedEntry::replace_entry', 'OccupiedEntry::into_mut')
def _(I, st, a, c, k):
    g = a[0]
    if isinstance(g, Ref):
        g = I.content_once(st, g)
    if not (isinstance(g, Adt) and g.key == '@guard'):
        return I.opaque(st, c, a, k)
    cell = g.f[0]
    old = st.mem.get(cell)
    if c.m == 'into_mut':
        return k(st, ref(cell))
    if c.m == 'insert':
        if cell[0] == 'ent':
            st.event('ew', cell, (), a[1])
        st.mem[cell] = a[1]
        return k(st, old)
    if c.m == 'replace_entry':
        return I.opaque(st, c, a, k)
    if cell[0] == 'ent':
        st.event('dm', 'remove', cell[1], cell[2], cell[3], 1, *no_members(I, st, mk('entv', cell[1], cell[2], cell[3])), 'locked')
        st.event('rel', cell, g.f[1])
        key = cell[2]
    else:
        _upd[0] = I
        I_write_local(st, cell[1], cell[2], adt('@dm', 0, (mk('removed', cell[3], cell[4]),)))
        key = cell[4]
    return k(st, adt('()', 0, (key, old)) if c.m == 'remove_entry' else old)


@m('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_try_insert_with', 'Entry::and_modify', 'Entry::or_insert_with_key', 'Entry::insert',
   'Entry::insert_entry')
def _(I, st, a, c, k):
    _upd[0] = I
    e = a[0]
    if not (isinstance(e, Adt) and e.f and isinstance(e.f[0], Adt) and e.f[0].key == '@guard'):
        return I.opaque(st, c, a, k)
    g = e.f[0]
    hm = selfname(c.dest) not in ('RefMut', 'OccupiedEntry', 'Entry', 'Result')
    wrap = (lambda x: ref(x.f[0])) if hm else (lambda x: x)
    res = (lambda x: ok(wrap(x))) if c.m == 'or_try_insert_with' else wrap
    if c.m == 'and_modify':
        if e.vi == 0:
            return I.call_value(st, a[1], [ref(g.f[0])], lambda s, _: k(s, e))
        return k(st, e)
    if e.vi == 0:
        if c.m in ('insert', 'insert_entry'):
            if g.f[0][0] == 'ent':
                st.event('ew', g.f[0], (), a[1])
            st.mem[g.f[0]] = a[1]
        return k(st, res(adt('@guard', 0, (g.f[0], 'w'))))
    if c.m in ('or_insert', 'insert', 'insert_entry'):
        return k(st, res(vac_insert(st, g, a[1])))
    if c.m == 'or_default':
        t = vtype(c, g.f[0][1]) if g.f[0][0] == 'ent' else None
        if t is None and c.args and len(c.args) > 1:
            t = [x for x in c.args if x[0] in ('adt', 'prim', 'tuple')][-1] if any(x[0] in ('adt', 'prim', 'tuple') for x in c.args) else None
        if t is None:
            t = targ(c.dest, 1)
        tt = targ(c.dest, 1) or t
        return default(I, st, tt, lambda s, v: k(s, res(vac_insert(s, g, v))))
    if c.m == 'or_insert_with_key':
        return I.call_value(st, a[1], [rval(g.f[0][2])], lambda s, v: k(s, res(vac_insert(s, g, v))))

    def fin(s, v):
        if c.m == 'or_try_insert_with':
            o = []
            for s2, vi, p in ofork(I, s, v):
                if vi == 0:
                    o += k(s2, ok(vac_insert(s2, g, p)))
                else:
                    s2.event('rel', g.f[0], 'v')
                    o += k(s2, err(p))
            return o
        return k(s, res(vac_insert(s, g, v)))
    return I.call_value(st, a[1], [], fin)


# ------------------------------------------------------------------ Arc, Weak, atomics, locks
@m('Arc::new', 'Rc::new')
def _(I, st, a, c, k):
    return k(st, arc_new(st, a[0]))


@m('Arc::downgrade', 'Rc::downgrade')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    return k(st, adt('@weak', 0, (v,)) if not isinstance(v, Ref) else adt('@weak', 0, (I.content_once(st, v),)))


@m('Weak::upgrade')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    while isinstance(v, Ref):
        v = I.content_once(st, v)
    inner = v.f[0] if isinstance(v, Adt) and v.key == '@weak' else typed(mk('upgraded', v), targ(c.dest))
    s2 = st.copy()
    st.event('upgrade', v, 1)
    s2.event('upgrade', v, 0)
    return k(st, some(inner)) + k(s2, NONE)


@m('Arc::strong_count', 'Weak::strong_count', 'Arc::weak_count', 'Weak::weak_count')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    return k(st, typed(mk('refcount' if 'strong' in str(c.rk or c.key) else 'weakcount', v, st.fresh('rc')), ('prim', 'usize')))


@m('Weak::new')
def _(I, st, a, c, k):
    return k(st, adt('@weak', 0, (mk('dangling'),)))


@m('Arc::try_unwrap', 'Arc::into_inner', 'Arc::get_mut', 'Arc::make_mut')
def _(I, st, a, c, k):
    return I.opaque(st, c, a, k)


def alone(st):
    n = 0
    for e in st.events():
        n += (e[0] == 'lock') - (e[0] == 'unlock')
    return n > 0


def atom_place(I, st, r):
    cell, proj = target1(I, st, r)
    while True:
        v = I.read(st, cell, proj)
        if not isinstance(v, Ref):
            break
        cell, proj = v.cell, v.proj
    if isinstance(v, Adt) and v.key == '@arc':
        cell, proj = v.f[0], ()
    return cell, proj


ATOM = ('Atomic', 'AtomicU64', 'AtomicUsize', 'AtomicU32', 'AtomicBool', 'AtomicI64', 'AtomicIsize', 'AtomicU16', 'AtomicU8')


def atomic(I, st, a, c, k):
    if c.m == 'new':
        return k(st, a[0])
    cell, proj = atom_place(I, st, a[0])
    cur = I.read(st, cell, proj)
    ver = st.fresh('atomic')
    ty = c.dest if c.m != 'store' else None
    if getattr(I, 'alone', False) and alone(st):
        # whoever else uses it waits for a lock that is held here
        old = cur
        if c.m in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
            def on(s1, b):
                out = []
                for s2, same in I.fork(s1, b):
                    if same:
                        I.write(s2, cell, proj, a[2])
                    out += k(s2, old if c.m == 'compare_and_swap' else adt(RES, 0 if same else 1, (old,)))
                return out
            return eqv(I, st, old, a[1], on)
        if c.m in ('load', 'store', 'swap'):
            if c.m != 'load':
                I.write(st, cell, proj, a[1])
            return k(st, UNIT if c.m == 'store' else old)
        if c.m in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and') and isinstance(old, int) and isinstance(a[1], int):
            I.write(st, cell, proj, {'fetch_add': old + a[1], 'fetch_sub': old - a[1], 'fetch_or': old | a[1], 'fetch_and': old & a[1]}[c.m])
            return k(st, old)
    if c.m in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap', 'fetch_update'):
        st.event('atomic', c.m, (cell, proj), tuple(a[1:3]), ver)
        return k(st, typed(mk('ext', 'atomic.' + c.m, ver), c.dest))
    st.event('atomic', c.m, (cell, proj), a[1] if len(a) > 1 and c.m != 'load' else None, ver)
    if c.m == 'store':
        return k(st, UNIT)
    if cell[0] in ('L', 'H') and c.m == 'load':
        return k(st, cur)
    return k(st, typed(mk('atomicv', (cell, proj), ver), ty))


for _t in ATOM:
    for _mm in ('new', 'load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and', 'compare_exchange',
                'compare_exchange_weak', 'compare_and_swap', 'fetch_update', 'fetch_xor'):
        M['%s::%s' % (_t, _mm)] = atomic


@m('Mutex::new', 'RwLock::new', 'Cell::new', 'RefCell::new', 'OnceCell::new', 'UnsafeCell::new', 'Rc::from', 'Wrapping::new')
def _(I, st, a, c, k):
    return k(st, a[0] if a else UNIT)


@m('Cell::get', 'Mutex::get_mut', 'Mutex::into_inner', 'RefCell::borrow', 'RefCell::borrow_mut', 'Cell::set', 'RefCell::into_inner')
def _(I, st, a, c, k):
    if c.m == 'set':
        cell, proj = target1(I, st, a[0])
        I.write(st, cell, proj, a[1])
        return k(st, UNIT)
    if c.m == 'get':
        return k(st, I.content_once(st, a[0]))
    if c.m in ('borrow', 'borrow_mut', 'get_mut'):
        return k(st, a[0])
    return k(st, a[0])


# ------------------------------------------------------------------ channels
@m('shared::unbuffered_channel', 'shared::channel', 'shared::generic_channel', 'shared::oneshot_channel', 'shared::oneshot_broadcast_channel',
   'shared::state_broadcast_channel', 'shared::generic_oneshot_channel')
def _(I, st, a, c, k):
    n = st.fresh('channel')
    st.event('channel', n, c.m)
    ts = c.dest[1] if isinstance(c.dest, tuple) and c.dest and c.dest[0] == 'tuple' else (None, None)
    tx, rx = mk('tx', n), mk('rx', n)
    for v, t in zip((tx, rx), ts):
        if t is not None:
            typed(v, t)
    return k(st, adt('()', 0, (tx, rx)))


@m('Sender::close', 'Receiver::close', 'GenericSender::close', 'GenericReceiver::close')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    st.event('closed', v)
    return k(st, typed(mk('closestatus', v, st.fresh('close')), c.dest))
