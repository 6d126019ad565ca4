"""Semantics of the library functions the code calls (or could reasonably call)."""
from .vals import *
from .facts import subst_ty, unify

OPT, RES = 'core::option::Option', 'core::result::Result'
NONE = adt(OPT, 0)
CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'
COW = 'alloc::borrow::Cow'
M = {}


def some(v):
    return adt(OPT, 1, (v,))


def ok(v):
    return adt(RES, 0, (v,))


def err(v):
    return adt(RES, 1, (v,))


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def pure(f):
    """f(I, st, args, c) -> value"""
    def g(I, st, a, c, k):
        return k(st, f(I, st, a, c))
    return g


def mp(*names):
    def d(f):
        g = pure(f)
        for n in names:
            M[n] = g
        return f
    return d


def lastseg(s):
    return s.split('::')[-1]


def selfname(ty):
    if ty is None:
        return None
    k = ty[0]
    if k == 'adt':
        return lastseg(ty[1])
    if k == 'prim':
        return 'float' if ty[1][0] == 'f' else 'int'
    if k in ('slice', 'array', 'str', 'bool', 'char', 'ptr', 'dyn'):
        return k
    if k == 'ref':
        return selfname(ty[2])
    return k


def names(c):
    if c.trait:
        yield lastseg(c.trait) + '::' + c.m
    elif c.self is not None:
        yield '%s::%s' % (selfname(c.self), c.m)
    seg = c.key.split('::')
    yield '::'.join(seg[-2:])
    # free functions re-exported under other paths
    seg = c.name.split('::')
    yield '::'.join(seg[-2:])


PANICS = {'panicking::panic': 'panic', 'panicking::panic_fmt': 'panic', 'panicking::panic_display': 'panic',
          'panicking::assert_failed': 'assert', 'panicking::unreachable_display': 'unreachable',
          'panicking::panic_nounwind': 'panic', 'panicking::panic_explicit': 'panic', 'rt::begin_panic': 'panic',
          'rt::panic_fmt': 'panic', 'option::unwrap_failed': 'unwrap', 'option::expect_failed': 'expect',
          'result::unwrap_failed': 'unwrap', 'panicking::unreachable_default_msg': 'unreachable',
          'panicking::panic_str_2015': 'panic', 'panicking::begin_panic': 'panic', 'hint::unreachable_unchecked': 'unreachable'}


def library(I, st, c, a, k):
    for n in names(c):
        if n in PANICS:
            msg = None
            if a:
                msg = I.content(st, a[0])
            kind = PANICS[n]
            if isinstance(msg, Seq):
                try:
                    s = bytes(p[1] for p in msg.p).decode()
                    if 'unreachable' in s or 'not implemented' in s:
                        kind = 'unreachable'
                except Exception:
                    pass
            return I.panic(st, kind, msg)
        f = M.get(n)
        if f is not None:
            return f(I, st, a, c, k)
    # trait method of a value of a workspace type
    if c.trait and a:
        lf = by_value(I, st, c, a)
        if lf is not None:
            return I.push(st, lf[0], lf[1], a, k)
    if c.trait and c.trait.split('::')[-1] in ('FnOnce', 'FnMut', 'Fn'):
        tup = a[1]
        args = list(tup.f) if isinstance(tup, Adt) and tup.key == '()' else [tup]
        return I.call_value(st, a[0], args, k, c.dest)
    key = (c.rk or c.key)
    pureish = key.startswith(('core::fmt', 'alloc::fmt', 'log::', 'core::hash', 'core::cmp', 'core::num', 'core::f64', 'core::char',
                              'core::str', 'core::slice', 'core::ascii', 'core::time', 'core::any'))
    return I.opaque(st, c, a, k, pure=pureish and not any(t[0] == 'ref' and t[1] for t in (c.argtys or ())))


def by_value(I, st, c, a):
    v = I.content(st, a[0])
    ty = None
    if isinstance(v, Adt) and v.key[0] != '@' and v.key != '()':
        ty = v.key
    elif isinstance(v, T) and TY.get(v) is not None and TY[v][0] == 'adt':
        ty = TY[v][1]
    if ty is None:
        return None
    for im in I.F.impls:
        if im.get('trait') == c.trait:
            s = im['crate'].ty(im['self'])
            if s[0] == 'adt' and s[1] == ty:
                for it in im['items']:
                    if it['n'] == c.m:
                        fn = I.F.fns.get(it['k'])
                        if fn is not None:
                            sub = {}
                            if isinstance(v, T):
                                unify(s, TY[v], sub)
                            return fn, sub
                # a default method of a workspace trait
                tr = I.F.traits.get(c.trait)
                if tr is not None and c.key in I.F.fns:
                    return I.F.fns[c.key], {'Self': s}
    return None


# ------------------------------------------------------------------ helpers
def target(I, st, r):
    """the place a (possibly nested) mutable reference designates: (cell, proj)"""
    cell, proj = None, ()
    n = 0
    while isinstance(r, Ref) and n < 20:
        cell, proj = r.cell, r.proj
        r = I.read(st, cell, proj)
        n += 1
    if isinstance(r, Adt) and r.key == '@guard':
        return target(I, st, I.guard_ref(r))
    if isinstance(r, Adt) and r.key == COW:
        if r.vi == 1:
            return cell, proj + (('v', 1), ('f', 0))
        return target(I, st, r.f[0])
    if isinstance(r, T):
        ty = TY.get(r)
        if ty is not None and ty[0] == 'ref':
            return target(I, st, ref(('D', r)))
    if cell is None:
        cell = ('val', r)
    return cell, proj


def get(I, st, r):
    return I.content(st, r)


def put(I, st, r, v):
    cell, proj = target(I, st, r)
    I.write(st, cell, proj, v)


def ofork(I, st, v):
    """fork an Option/Result-like value: [(state, variant, payload)]"""
    o = []
    for s, vi in I.fork_variant(st, v, 2):
        o.append((s, vi, I.payload(s, v, vi) if not (isinstance(v, Adt) and not v.f) else UNIT))
    return o


def targ(ty, i=0):
    if ty is not None and ty[0] == 'adt' and i < len(ty[2]):
        return ty[2][i]
    return None


def sty(c, i=0):
    """type of argument i, references removed"""
    if c.argtys and i < len(c.argtys):
        t = c.argtys[i]
        while t is not None and t[0] == 'ref':
            t = t[2]
        return t
    return None


def oref(I, st, r):
    """a reference to an Option -> (the option value, function giving a reference to its payload)"""
    if isinstance(r, Ref):
        v = I.read(st, r.cell, r.proj)
        if isinstance(v, Ref):
            return oref(I, st, v)
        return v, (lambda vi, i=0: ref(r.cell, r.proj + (('v', vi), ('f', i))))
    if isinstance(r, T):
        v = I.load(st, ('D', r))
        return v, (lambda vi, i=0: ref(('D', r), (('v', vi), ('f', i))))
    return r, (lambda vi, i=0: rval(I.payload(st, r, vi, i)))


# ------------------------------------------------------------------ Option / Result
def is_v(vi):
    def f(I, st, a, c):
        v = I.content_once(st, a[0])
        n = 0
        while isinstance(v, Ref) and n < 9:
            v = I.content_once(st, v)
            n += 1
        cur = I.variant(st, v)
        if cur is not None:
            return int(cur == vi)
        if isinstance(v, T):
            # both variants of a two-variant type: one canonical atom
            return mk('isvar', v, 1) if vi == 1 else mk('not', mk('isvar', v, 1))
        return mk('top')
    return f


M['Option::is_some'] = pure(is_v(1))
M['Option::is_none'] = pure(is_v(0))
M['Result::is_ok'] = pure(is_v(0))
M['Result::is_err'] = pure(is_v(1))
M['Poll::is_ready'] = pure(is_v(0))
M['Poll::is_pending'] = pure(is_v(1))


def unwrapper(good, kind):
    def f(I, st, a, c, k):
        out = []
        for s, vi, p in ofork(I, st, a[0]):
            if vi == good:
                out += k(s, p)
            else:
                I.panic(s, kind, I.content(s, a[1]) if len(a) > 1 else None)
        return out
    return f


M['Option::unwrap'] = unwrapper(1, 'unwrap')
M['Option::expect'] = unwrapper(1, 'expect')
M['Option::unwrap_unchecked'] = unwrapper(1, 'unwrap')
M['Result::unwrap'] = unwrapper(0, 'unwrap')
M['Result::expect'] = unwrapper(0, 'expect')
M['Result::unwrap_err'] = unwrapper(1, 'unwrap')
M['Result::expect_err'] = unwrapper(1, 'expect')


@m('Option::unwrap_or', 'Result::unwrap_or')
def _(I, st, a, c, k):
    good = 1 if c.self[1] == OPT else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        out += k(s, p if vi == good else a[1])
    return out


@m('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == (1 if opt else 0):
            out += k(s, p)
        else:
            out += I.call_value(s, a[1], [] if opt else [p], k)
    return out


@m('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(I, st, a, c, k):
    good = 1 if c.self[1] == OPT else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == good:
            out += k(s, p)
        else:
            out += default(I, s, c.dest, k)
    return out


@m('Option::map', 'Result::map', 'Poll::map')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    key = OPT if opt else c.self[1]
    good = 1 if opt else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == good:
            out += I.call_value(s, a[1], [p], lambda s2, r: k(s2, adt(key, good, (r,))))
        else:
            out += k(s, NONE if opt else err(p) if key == RES else adt(key, 1))
    return out


@m('Result::map_err')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == 1:
            out += I.call_value(s, a[1], [p], lambda s2, r: k(s2, err(r)))
        else:
            out += k(s, ok(p))
    return out


@m('Option::and_then', 'Result::and_then')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == (1 if opt else 0):
            out += I.call_value(s, a[1], [p], k)
        else:
            out += k(s, NONE if opt else err(p))
    return out


@m('Option::or_else', 'Result::or_else')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == (1 if opt else 0):
            out += k(s, some(p) if opt else ok(p))
        else:
            out += I.call_value(s, a[1], [] if opt else [p], k)
    return out


@m('Option::or', 'Result::or', 'Option::and', 'Result::and', 'Option::xor')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    good = 1 if opt else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if c.m == 'or':
            out += k(s, (some(p) if opt else ok(p)) if vi == good else a[1])
        elif c.m == 'and':
            out += k(s, a[1] if vi == good else (NONE if opt else err(p)))
        else:
            for s2, vj, q in ofork(I, s, a[1]):
                out += k(s2, NONE if vi == vj else some(p) if vi == 1 else some(q))
    return out


@m('Option::ok_or')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        out += k(s, ok(p) if vi == 1 else err(a[1]))
    return out


@m('Option::ok_or_else')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        out += k(s, ok(p)) if vi == 1 else I.call_value(s, a[1], [], lambda s2, r: k(s2, err(r)))
    return out


@m('Result::ok', 'Result::err')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        out += k(s, some(p) if vi == (0 if c.m == 'ok' else 1) else NONE)
    return out


@m('Option::filter')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == 0:
            out += k(s, NONE)
            continue

        def kk(s2, r, p=p):
            o = []
            for s3, b in I.fork(s2, r):
                o += k(s3, some(p) if b else NONE)
            return o
        out += I.call_value(s, a[1], [rval(p)], kk)
    return out


@m('Option::map_or', 'Result::map_or', 'Option::map_or_else', 'Result::map_or_else', 'Option::is_some_and', 'Option::is_none_or',
   'Result::is_ok_and', 'Result::is_err_and', 'Option::map_or_default')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    good = 1 if opt else 0
    if c.m == 'is_err_and':
        good = 1
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if c.m in ('is_some_and', 'is_ok_and', 'is_err_and'):
            out += I.call_value(s, a[1], [p], k) if vi == good else k(s, 0)
        elif c.m == 'is_none_or':
            out += I.call_value(s, a[1], [p], k) if vi == good else k(s, 1)
        elif vi == good:
            out += I.call_value(s, a[2], [p], k)
        elif c.m == 'map_or':
            out += k(s, a[1])
        else:
            out += I.call_value(s, a[1], [] if opt else [p], k)
    return out


@m('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Result::as_deref',
   'Option::as_pin_mut', 'Option::as_pin_ref')
def _(I, st, a, c, k):
    v, pr = oref(I, st, a[0])
    opt = c.self[1] == OPT
    out = []
    for s, vi in I.fork_variant(st, v, 2):
        if opt and vi == 0:
            out += k(s, NONE)
            continue
        r = pr(vi)
        if 'deref' in c.m and not (not opt and vi == 1):
            r = deref_ref(I, s, r)
        out += k(s, adt(OPT if opt else RES, vi, (r,)))
    return out


@m('Option::take', 'Option::replace', 'Option::insert', 'Option::get_or_insert', 'Option::get_or_insert_with', 'Option::take_if')
def _(I, st, a, c, k):
    cell, proj = target1(I, st, a[0])
    v = I.read(st, cell, proj)
    if c.m == 'take':
        I.write(st, cell, proj, NONE)
        return k(st, v)
    if c.m == 'replace':
        I.write(st, cell, proj, some(a[1]))
        return k(st, v)
    pr = ref(cell, proj + (('v', 1), ('f', 0)))
    if c.m == 'insert':
        I.write(st, cell, proj, some(a[1]))
        return k(st, pr)
    out = []
    for s, vi in I.fork_variant(st, v, 2):
        if vi == 1:
            out += k(s, pr)
        elif c.m == 'get_or_insert':
            I.write(s, cell, proj, some(a[1]))
            out += k(s, pr)
        else:
            def kk(s2, r):
                I.write(s2, cell, proj, some(r))
                return k(s2, pr)
            out += I.call_value(s, a[1], [], kk)
    return out


def target1(I, st, r):
    """one level of reference (the referent may itself hold references)"""
    if isinstance(r, Ref):
        return r.cell, r.proj
    if isinstance(r, T):
        return ('D', r), ()
    return ('val', r), ()


@m('Option::copied', 'Option::cloned', 'Result::copied', 'Result::cloned')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    good = 1 if opt else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == good:
            v = I.content_once(s, p)
            out += k(s, adt(OPT if opt else RES, good, (v,)))
        else:
            out += k(s, NONE if opt else err(p))
    return out


@m('Option::flatten', 'Result::flatten')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        out += k(s, p if vi == (1 if opt else 0) else (NONE if opt else err(p)))
    return out


@m('Option::zip')
def _(I, st, a, c, k):
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == 0:
            out += k(s, NONE)
            continue
        for s2, vj, q in ofork(I, s, a[1]):
            out += k(s2, some(adt('()', 0, (p, q))) if vj == 1 else NONE)
    return out


@m('Option::transpose', 'Result::transpose')
def _(I, st, a, c, k):
    opt = c.self[1] == OPT
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if opt:
            if vi == 0:
                out += k(s, ok(NONE))
            else:
                for s2, vj, q in ofork(I, s, p):
                    out += k(s2, ok(some(q)) if vj == 0 else err(q))
        else:
            if vi == 1:
                out += k(s, some(err(p)))
            else:
                for s2, vj, q in ofork(I, s, p):
                    out += k(s2, some(ok(q)) if vj == 1 else NONE)
    return out


@m('Option::inspect', 'Result::inspect', 'Result::inspect_err')
def _(I, st, a, c, k):
    good = 1 if c.self[1] == OPT or c.m == 'inspect_err' else 0
    out = []
    for s, vi, p in ofork(I, st, a[0]):
        if vi == good:
            out += I.call_value(s, a[1], [rval(p)], lambda s2, r: k(s2, a[0]))
        else:
            out += k(s, a[0])
    return out


# ------------------------------------------------------------------ ?
@m('Try::branch')
def _(I, st, a, c, k):
    ty = c.args[0] if c.args else None
    v = a[0]
    key = v.key if isinstance(v, Adt) else (ty[1] if ty and ty[0] == 'adt' else RES)
    out = []
    for s, vi, p in ofork(I, st, v):
        if key == OPT:
            out += k(s, adt(CF, 0, (p,)) if vi == 1 else adt(CF, 1, (NONE,)))
        elif key == CF:
            out += k(s, adt(CF, 0, (p,)) if vi == 0 else adt(CF, 1, (adt(CF, 1, (p,)),)))
        elif key == POLL:
            if vi == 0:
                for s2, vj, q in ofork(I, s, p):
                    out += k(s2, adt(CF, 0, (adt(POLL, 0, (q,)),)) if vj == 0 else adt(CF, 1, (err(q),)))
            else:
                out += k(s, adt(CF, 0, (adt(POLL, 1),)))
        else:
            out += k(s, adt(CF, 0, (p,)) if vi == 0 else adt(CF, 1, (err(p),)))
    return out


@m('Try::from_output')
def _(I, st, a, c, k):
    ty = c.args[0]
    return k(st, some(a[0]) if ty[1] == OPT else adt(ty[1], 0, (a[0],)))


@m('FromResidual::from_residual')
def _(I, st, a, c, k):
    v = a[0]
    to = c.args[0]
    if (isinstance(v, Adt) and v.key == OPT) or to[1] == OPT:
        return k(st, NONE)
    frm = c.args[1] if len(c.args) > 1 else None
    e = I.payload(st, v, 1)
    te = targ(to, 1)
    fe = targ(frm, 1) if frm else None
    return conv(I, st, e, fe, te, lambda s, r: k(s, adt(to[1] if to[1] != POLL else RES, 1, (r,))))


# ------------------------------------------------------------------ conversions
def conv(I, st, v, frm, to, k, tryf=False):
    """From/Into"""
    if frm == to or to is None or frm is None or to[0] in ('param', 'alias'):
        return k(st, v)
    trait = 'core::convert::From'
    r = I.find_impl(trait, [to, frm])
    if r is not None:
        im, sub = r
        fn = I.F.fns.get(im['items'][0]['k'])
        if fn is not None:
            p = I.prims.get(fn['k'])
            if p is not None:
                return p(I, st, [v], None, k)
            return I.push(st, fn, sub, [v], k)
    # Into implemented directly
    r = I.find_impl('core::convert::Into', [frm, to])
    if r is not None:
        im, sub = r
        fn = I.F.fns.get(im['items'][0]['k'])
        if fn is not None:
            return I.push(st, fn, sub, [v], k)
    tn, fnm = selfname(to), selfname(frm)
    if to[0] == 'adt':
        if tn == 'Option' and fnm != 'Option':
            return k(st, some(v))
        if tn == 'Cow':
            if frm[0] == 'ref':
                return k(st, adt(COW, 0, (v,)))
            if fnm in ('Vec', 'String'):
                return k(st, adt(COW, 1, (v,)))
        if tn in ('Vec', 'String', 'PathBuf', 'OsString') and fnm in ('slice', 'str', 'array', 'Vec', 'String', 'Cow', 'Box', 'ArrayVec', 'char'):
            if fnm == 'char':
                return k(st, seq([('v', v)]))
            return k(st, I.content(st, v))
        if tn in ('Box', 'Rc', 'Arc'):
            if tn == 'Box':
                if targ(to) is not None and targ(to)[0] == 'dyn' and fnm in ('str', 'String'):
                    return k(st, mk('boxerr', I.content(st, v)))
                if fnm in ('str', 'slice', 'Vec', 'String'):
                    return k(st, I.content(st, v))
                return k(st, v)
            return k(st, arc_new(st, I.content(st, v) if fnm in ('str', 'slice') else v))
        if tn in ('DashMap', 'DashSet', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') and fnm == 'array':
            return k(st, adt('@dm', 0, (v,)))
        if tn in ('Atomic', 'AtomicU64', 'AtomicUsize', 'AtomicBool', 'Mutex', 'RwLock', 'Cell', 'RefCell'):
            return k(st, v)
    if to[0] == 'prim' and (frm[0] in ('prim', 'bool', 'char')):
        if to[1] in ('f32', 'f64'):
            if frm[0] == 'prim' and frm[1] in ('f32', 'f64'):
                return k(st, v)
            return k(st, typed(mk('tofloat', v), to))
        return k(st, v)
    if to[0] == 'char':
        return k(st, v)
    if to[0] == 'array' and frm[0] == 'array':
        return k(st, v)
    return k(st, typed(mk('conv', str(tn), I.freeze_arg(st, v)), to))


@m('Into::into')
def _(I, st, a, c, k):
    return conv(I, st, a[0], c.args[0] if c.args else None, c.args[1] if len(c.args) > 1 else c.dest, k)


@m('From::from')
def _(I, st, a, c, k):
    frm = c.args[1] if len(c.args) > 1 else (c.argtys[0] if c.argtys else None)
    return conv(I, st, a[0], frm, c.args[0] if c.args else c.dest, k)


def try_conv(I, st, v, frm, to, k):
    r = I.find_impl('core::convert::TryFrom', [to, frm]) if to and frm else None
    if r is not None:
        im, sub = r
        for it in im['items']:
            if it['n'] == 'try_from':
                fn = I.F.fns.get(it['k'])
                return I.push(st, fn, sub, [v], k)
    if to is not None and to[0] == 'ref' and to[2][0] == 'array':
        to = to[2]
        wrapr = True
    else:
        wrapr = False
    if to is not None and to[0] == 'array':
        x = I.content(st, v)
        out = []
        for s, b in I.fork(st, I.cmp(st, 'Eq', slen(x), to[2])):
            out += k(s, ok(rval(x) if wrapr else x) if b else err(mk('tryfromslice')))
        return out
    if to is not None and to[0] == 'prim' and irange(to[1]) and lparts(v) is not None:
        lo, hi = irange(to[1])
        out = []
        s2 = st.copy()
        if I.add_range(st, v, lo, hi):
            out += k(st, ok(v))
        c1 = mk('booland', I.cmp(s2, 'Ge', v, lo) if True else 0, I.cmp(s2, 'Le', v, hi))
        a, b = I.rng(s2, v)
        if a < lo or b > hi:
            if a >= lo:
                I.add_range(s2, v, hi + 1, 1 << 127)
            elif b <= hi:
                I.add_range(s2, v, -(1 << 127), lo - 1)
            out += k(s2, err(mk('tryfromint')))
        return out
    return k(st, typed(mk('tryconv', str(selfname(to)), I.freeze_arg(st, v)), ('adt', RES, (to, ('other', 'E'))) if to else None))


@m('TryInto::try_into')
def _(I, st, a, c, k):
    return try_conv(I, st, a[0], c.args[0] if c.args else None, c.args[1] if len(c.args) > 1 else None, k)


@m('TryFrom::try_from')
def _(I, st, a, c, k):
    return try_conv(I, st, a[0], c.args[1] if len(c.args) > 1 else None, c.args[0] if c.args else None, k)


@m('Clone::clone', 'Clone::clone_from')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    if isinstance(v, Adt) and v.key == '@arc':
        return k(st, v)
    if isinstance(v, T) and v.op == 'deref' and False:
        return k(st, v)
    return k(st, v)


@m('ToOwned::to_owned', 'slice::to_vec', 'String::into_bytes', 'str::to_owned', 'Cow::into_owned', 'str::into_string', 'str::into_boxed_str',
   'slice::into_vec', 'Vec::into_boxed_slice', 'str::as_bytes', 'String::as_bytes', 'str::to_string', 'String::into_boxed_str', 'slice::to_owned',
   'Box::into_string', 'Vec::into_inner', 'Cow::to_owned', 'str::into_boxed_bytes', 'FromIterator::id', 'slice::into_boxed_slice')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    if c.m == 'as_bytes':
        return k(st, a[0] if isinstance(a[0], Ref) else rval(v))
    if c.m == 'to_owned' and isinstance(v, T) and TY.get(v) == ('str',):
        pass
    return k(st, v)


@m('Error::source', 'Error::cause')
def _(I, st, a, c, k):
    t = c.args[0] if c.args else None
    if t is not None and t[0] == 'adt' and I.find_impl('core::error::Error', [t]) is not None:
        return k(st, NONE)          # an implementation that has its own is called as such
    return I.opaque(st, c, a, k)


@m('ToString::to_string')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    ty = c.args[0] if c.args else None
    n = selfname(ty)
    if n in ('str', 'String', 'Cow', 'char') and not isinstance(v, int):
        return k(st, v)
    return disp(I, st, v, ty, k)


def disp(I, st, v, ty, k):
    r = typed(mk('disp', v, str(selfname(ty))), ('adt', 'alloc::string::String', ()))
    return k(st, r)


def arc_new(st, v):
    n = ('arc', st.fresh('arc'))
    st.mem[n] = v
    return adt('@arc', 0, (n,))


def deref_ref(I, st, r):
    """Deref::deref on a reference to a smart pointer / container"""
    v = I.content_once(st, r)
    n = 0
    while isinstance(v, Ref) and n < 9:
        r = v
        v = I.content_once(st, r)
        n += 1
    if isinstance(v, Adt):
        if v.key == '@guard':
            return I.guard_ref(v)
        if v.key == '@arc':
            return ref(v.f[0])
        if v.key == '@mguard':
            return ref(v.f[0])
        if v.key in ('@multi',):
            return rval(mk('val', v.f[0]))
        if v.key == '@smulti':
            return rval(v.f[0])
        if v.key == COW:
            if v.vi == 0:
                return v.f[0]
            if isinstance(r, Ref):
                return ref(r.cell, r.proj + (('v', 1), ('f', 0)))
            return rval(v.f[0])
        return r
    if isinstance(v, T):
        ty = TY.get(v)
        n = selfname(ty)
        if n in ('Vec', 'String', 'ArrayVec', 'Box', 'Pin', 'array', 'slice', 'str', 'PathBuf'):
            return r
        if n in ('Arc', 'Rc', 'MutexGuard', 'Ref', 'RefMut', 'OwnedMutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'Lazy', 'OnceCell'):
            return ref(('D', v))
        if n == 'Cow':
            return rval(mk('cowcontent', v)) if False else rval(v)
        if ty is not None and ty[0] == 'ref':
            return deref_ref(I, st, ref(('D', v)))
        return r if isinstance(r, Ref) else rval(v)
    return r if isinstance(r, Ref) else rval(v)


@m('Deref::deref', 'DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_mut_str', 'Vec::deref', 'Ref::value', 'RefMut::value',
   'RefMut::value_mut', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Cow::as_ref', 'slice::as_mut', 'array::as_slice',
   'OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_ref', 'ArrayVec::as_slice', 'ArrayVec::as_mut_slice', 'array::as_mut_slice', 'Box::leak', 'Vec::leak',
   'Arc::as_ref', 'RefMut::downgrade', 'array::each_ref', 'Box::as_ref', 'Box::as_mut')
def _(I, st, a, c, k):
    if c.m in ('into_ref', 'downgrade'):
        return k(st, a[0])
    return k(st, deref_ref(I, st, a[0]))


@m('AsRef::as_ref')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    r = a[0]
    n = 0
    while isinstance(v, Ref) and n < 9:
        r = v
        v = I.content_once(st, r)
        n += 1
    if isinstance(v, Adt) and v.key[0] != '@' and v.key not in (COW, '()'):
        lf = by_value(I, st, c, [r])
        if lf is not None:
            return I.push(st, lf[0], lf[1], [r], k)
    return k(st, deref_ref(I, st, r))


@m('Cow::to_mut')
def _(I, st, a, c, k):
    cell, proj = target1(I, st, a[0])
    v = I.read(st, cell, proj)
    out = []
    for s, vi in I.fork_variant(st, v, 2):
        p = I.payload(s, v, vi)
        if vi == 0:
            I.write(s, cell, proj, adt(COW, 1, (I.content(s, p),)))
        out += k(s, ref(cell, proj + (('v', 1), ('f', 0))))
    return out


@m('Cow::is_borrowed', 'Cow::is_owned')
def _(I, st, a, c, k):
    v = I.content_once(st, a[0])
    return k(st, mk('isvar', v, 0 if c.m == 'is_borrowed' else 1) if not isinstance(v, Adt) else int(v.vi == (0 if c.m == 'is_borrowed' else 1)))


# ------------------------------------------------------------------ Default
def default(I, st, ty, k):
    if ty is None:
        return k(st, mk('default'))
    n = selfname(ty)
    if ty[0] == 'prim':
        return k(st, typed(mk('float', '0.0'), ty) if ty[1][0] == 'f' else 0)
    if ty[0] == 'bool':
        return k(st, 0)
    if ty[0] == 'tuple':
        def go(s, i, acc):
            if i == len(ty[1]):
                return k(s, adt('()', 0, acc))
            return default(I, s, ty[1][i], lambda s2, v: go(s2, i + 1, acc + [v]))
        return go(st, 0, [])
    if n in ('Vec', 'String', 'ArrayVec', 'VecDeque', 'str', 'slice'):
        return k(st, EMPTY if ty[0] == 'adt' else rval(EMPTY))
    if n == 'Option':
        return k(st, NONE)
    if n in MAPS:
        return k(st, adt('@dm', 0, (EMPTY,)))
    if n in ('Arc', 'Rc', 'Box', 'Mutex', 'RwLock', 'Cell', 'RefCell', 'Pin') and ty[2]:
        if n in ('Arc', 'Rc'):
            return default(I, st, ty[2][0], lambda s, v: k(s, arc_new(s, v)))
        return default(I, st, ty[2][0], k)
    if ty[0] == 'adt':
        r = I.find_impl('core::default::Default', [ty])
        if r is not None:
            im, sub = r
            fn = I.F.fns.get(im['items'][0]['k'])
            if fn is not None:
                return I.push(st, fn, sub, [], k)
    if n in ('AtomicU64', 'AtomicUsize', 'AtomicI64', 'AtomicU32', 'AtomicBool', 'Atomic'):
        return k(st, 0)
    return k(st, typed(mk('default', str(n)), ty))


@m('Default::default')
def _(I, st, a, c, k):
    return default(I, st, c.dest if c.dest is not None else (c.args[0] if c.args else None), k)


MAPS = ('DashMap', 'DashSet', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')
from . import models_seq, models_map, models_io  # noqa: E402,F401
from .models_seq import it_concrete, it_status, it_havoc, it_colls, it_index  # noqa: E402,F401
