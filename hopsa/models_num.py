"""Numbers, comparison, formatting."""
from .vals import *
from .models import m, M, some, ok, err, NONE, OPT, RES, COW, selfname, ofork, sty, targ, disp, target1
from .models_seq import CMPO, known

USIZE = ('prim', 'usize')


def prim(c):
    t = c.self
    if t is None and c.args:
        t = c.args[0]
    while t is not None and t[0] == 'ref':
        t = t[2]
    if t is None or t[0] != 'prim':
        t = sty(c)
    return t[1] if t is not None and t[0] == 'prim' else None


# ------------------------------------------------------------------ integers
OPS = {'add': 1, 'sub': -1}


def exact(I, st, op, x, y):
    if op == 'add':
        return ladd(x, y)
    if op == 'sub':
        return ladd(x, y, -1)
    if op == 'mul':
        cx, cy = I.const(st, x), I.const(st, y)
        if cy is not None:
            return lmul(x, cy)
        if cx is not None:
            return lmul(y, cx)
    if op == 'neg':
        return lmul(x, -1)
    return None


def arith(I, st, a, c, k):
    n = prim(c)
    mode, op = c.m.split('_', 1)
    x = I.content(st, a[0])
    y = I.content(st, a[1]) if len(a) > 1 else None
    if n in ('f32', 'f64'):
        return k(st, typed(mk('fop', c.m, x, y), c.dest))
    r = exact(I, st, op, x, y) if lparts(x) is not None and (y is None or lparts(y) is not None) else None
    if op in ('div', 'rem', 'div_euclid', 'rem_euclid') and mode == 'checked':
        out = []
        for s, z in I.fork(st, I.cmp(st, 'Eq', y, 0)):
            if z:
                out += k(s, NONE)
            else:
                v = I.binop(s, 'Div' if op.startswith('div') else 'Rem', x, y, ('prim', n))
                if n and n[0] == 'i':
                    s2 = s.copy()
                    s2.facts[('b', mk('divovf', x, y))] = 1
                    out += k(s2, NONE)
                out += k(s, some(v))
        return out
    if r is None:
        v = typed(mk('iop', op, x, y), ('prim', n) if n else None)
        if mode == 'checked':
            s2 = st.copy()
            o = mk('ovf', n, v)
            s2.facts[('b', o)] = 1
            st.facts[('b', o)] = 0
            return k(s2, NONE) + k(st, some(v))
        if mode == 'overflowing':
            return k(st, adt('()', 0, (v, mk('ovf', n, v))))
        return k(st, typed(mk(mode, op, x, y), ('prim', n)))
    if I.fits(st, r, n):
        return k(st, some(r) if mode == 'checked' else adt('()', 0, (r, 0)) if mode == 'overflowing' else r)
    if isinstance(r, int):
        lo, hi = irange(n)
        w = I.cast_int(st, r, n, n)
        return k(st, NONE if mode == 'checked' else adt('()', 0, (w, 1)) if mode == 'overflowing' else
                 (lo if r < lo else hi) if mode == 'saturating' else w)
    if mode == 'wrapping':
        return k(st, typed(mk('wrap', n, r), ('prim', n)))
    out = []
    lo, hi = irange(n)
    for s, o in I.fork_ovf(st, mk('ovf', n, r)):
        if mode == 'overflowing':
            out += k(s, adt('()', 0, (typed(mk('wrap', n, r), ('prim', n)) if o else r, int(o))))
        elif not o:
            out += k(s, some(r) if mode == 'checked' else r)
        elif mode == 'checked':
            out += k(s, NONE)
        elif mode == 'strict':
            I.panic(s, 'overflow', mk('ovf', n, r))
        else:
            a_, b_ = I.rng(s, r)
            if a_ >= lo:
                out += k(s, hi)
            elif b_ <= hi:
                out += k(s, lo)
            else:
                s2 = s.copy()
                if I.add_range(s, r, hi + 1, 1 << 127):
                    out += k(s, hi)
                if I.add_range(s2, r, -(1 << 127), lo - 1):
                    out += k(s2, lo)
    return out


@m('int::max_value', 'int::min_value')
def _(I, st, a, c, k):
    r = irange(c.dest[1]) if c.dest is not None and c.dest[0] == 'prim' else None
    if r is None:
        return I.opaque(st, c, a, k)
    return k(st, r[1 if c.m == 'max_value' else 0])


for _m in ('checked', 'saturating', 'wrapping', 'overflowing', 'strict'):
    for _o in ('add', 'sub', 'mul', 'neg', 'div', 'rem', 'pow', 'shl', 'shr', 'abs', 'add_signed', 'add_unsigned', 'sub_unsigned', 'div_euclid', 'rem_euclid'):
        M['int::%s_%s' % (_m, _o)] = arith


@m('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem', 'Neg::neg', 'Not::not', 'BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor', 'Shl::shl', 'Shr::shr')
def _(I, st, a, c, k):
    x = I.content(st, a[0])
    if c.m == 'not':
        return k(st, I.lnot(x) if c.dest == ('bool',) else typed(mk('bnot', x), c.dest))
    if c.m == 'neg':
        return k(st, lmul(x, -1) if lparts(x) is not None and not I.isfloat(x) else typed(mk('neg', x), c.dest))
    y = I.content(st, a[1])
    t = c.args[0] if c.args else None
    while t is not None and t[0] == 'ref':
        t = t[2]
    if selfname(t) == 'String' and c.m == 'add':
        return k(st, seq(parts(x) + parts(y)))
    if selfname(t) == 'Duration' and c.m == 'sub':
        from .models_io import dur_sub
        return dur_sub(I, st, x, y, 'sub', c.dest, k)
    if t is None or t[0] not in ('prim', 'bool'):
        return I.opaque(st, c, a, k, pure=True)
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor',
          'shl': 'Shl', 'shr': 'Shr'}[c.m]
    r = I.binop(st, op + ('WithOverflow' if op in ('Add', 'Sub', 'Mul') and t[0] == 'prim' and t[1][0] != 'f' else ''), x, y, t)
    if isinstance(r, Adt) and r.key == '()':
        if r.f[1] == 0:
            return k(st, r.f[0])
        if isinstance(r.f[1], T) and r.f[1].op == 'ovf':
            out = []
            for s, b in I.fork_ovf(st, r.f[1]):
                if b:
                    I.panic(s, 'overflow', r.f[1])
                else:
                    out += k(s, r.f[0])
            return out
    return k(st, r)


@m('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign', 'BitOrAssign::bitor_assign',
   'BitAndAssign::bitand_assign', 'BitXorAssign::bitxor_assign')
def _(I, st, a, c, k):
    cell, proj = target1(I, st, a[0])
    x = I.read(st, cell, proj)
    y = I.content(st, a[1])
    t = c.args[0] if c.args else None
    if selfname(t) == 'String':
        I.write(st, cell, proj, seq(parts(x) + parts(y)))
        return k(st, UNIT)
    if t is None or t[0] not in ('prim', 'bool'):
        return I.opaque(st, c, a, k)
    op = {'a': 'Add', 's': 'Sub', 'm': 'Mul', 'd': 'Div'}.get(c.m[0], 'Add') if c.m[:3] in ('add', 'sub', 'mul', 'div') else \
        {'bitor_assign': 'BitOr', 'bitand_assign': 'BitAnd', 'bitxor_assign': 'BitXor'}[c.m]
    r = I.binop(st, op + ('WithOverflow' if op in ('Add', 'Sub', 'Mul') and t[0] == 'prim' and t[1][0] != 'f' else ''), x, y, t)
    if isinstance(r, Adt) and r.key == '()':
        if isinstance(r.f[1], T) and r.f[1].op == 'ovf':
            out = []
            for s, b in I.fork_ovf(st, r.f[1]):
                if b:
                    I.panic(s, 'overflow', r.f[1])
                else:
                    I.write(s, cell, proj, r.f[0])
                    out += k(s, UNIT)
            return out
        r = r.f[0]
    I.write(st, cell, proj, r)
    return k(st, UNIT)


@m('float::to_bits')
def _(I, st, a, c, k):
    x = a[0]
    if isinstance(x, T) and x.op == 'frombe':
        return k(st, frombe(I, st, 'u64', x.a[1]))
    return k(st, typed(mk('bits', x), ('prim', 'u64')))


@m('float::from_bits')
def _(I, st, a, c, k):
    x = a[0]
    if isinstance(x, T) and x.op == 'bits':
        return k(st, x.a[0])
    if isinstance(x, T) and x.op == 'frombe' and x.a[0] == 'u64':
        return k(st, frombe(I, st, 'f64', x.a[1]))
    return k(st, typed(mk('nop', 'from_bits', x), ('prim', 'f64')))


@m('int::to_be_bytes', 'float::to_be_bytes', 'int::to_le_bytes', 'float::to_le_bytes', 'int::to_ne_bytes', 'float::to_ne_bytes')
def _(I, st, a, c, k):
    n = prim(c)
    x = a[0]
    if c.m == 'to_be_bytes':
        if isinstance(x, T) and x.op == 'bits':
            n, x = 'f64', x.a[0]
        return k(st, seq(be(n, x)))
    if WIDTH.get(n) == 1:
        return k(st, seq([('v', x)]))
    if isinstance(x, int):
        b = (x & ((1 << (8 * WIDTH[n])) - 1)).to_bytes(WIDTH[n], 'little')
        return k(st, bytes_seq(b))
    return k(st, typed(mk('lebytes', n, x), ('array', ('prim', 'u8'), WIDTH.get(n))))


def coalesce(v):
    """[x[i], x[i+1], ..] as a slice of x"""
    if isinstance(v, Seq) and v.p and all(p[0] == 'v' and isinstance(p[1], T) and p[1].op == 'idx' for p in v.p):
        b = v.p[0][1].a[0]
        i = v.p[0][1].a[1]
        if all(p[1].a[0] == b and ladd(p[1].a[1], i, -1) == j for j, p in enumerate(v.p)):
            return mk('sub', b, i, ladd(i, len(v.p)))
    return v


def frombe(I, st, n, v):
    if isinstance(v, Seq) and len(v.p) == 1 and v.p[0][0] == 'be' and v.p[0][1] == n:
        return v.p[0][2]
    if isinstance(v, Seq) and known(v) and all(isinstance(p[1], int) for p in v.p) and n[0] != 'f':
        return int.from_bytes(bytes(p[1] for p in v.p), 'big', signed=n[0] == 'i')
    if n == 'u8':
        return I.index(st, v, 0)
    return typed(mk('frombe', n, coalesce(v)), ('prim', n))


@m('int::from_be_bytes', 'float::from_be_bytes', 'int::from_le_bytes', 'float::from_le_bytes', 'int::from_ne_bytes', 'float::from_ne_bytes')
def _(I, st, a, c, k):
    n = c.dest[1] if c.dest and c.dest[0] == 'prim' else prim(c)
    v = I.content(st, a[0])
    if c.m == 'from_be_bytes':
        return k(st, frombe(I, st, n, v))
    if isinstance(v, T) and v.op == 'lebytes' and v.a[0] == n and c.m == 'from_le_bytes':
        return k(st, v.a[1])
    return k(st, typed(mk('frombytes', c.m, n, v), ('prim', n)))


@m('int::abs', 'int::signum', 'int::is_positive', 'int::is_negative', 'int::pow', 'int::leading_zeros', 'int::trailing_zeros', 'int::count_ones', 'int::swap_bytes',
   'int::rotate_left', 'int::abs_diff', 'int::unsigned_abs', 'float::is_nan', 'float::is_finite', 'float::is_infinite',
   'float::abs', 'float::floor', 'float::round', 'float::trunc', 'float::ceil', 'float::powi', 'float::sqrt', 'float::max', 'float::min', 'int::is_power_of_two',
   'int::div_ceil', 'int::next_power_of_two', 'float::mul_add', 'float::total_cmp', 'float::clamp', 'float::fract', 'float::signum', 'int::to_be', 'int::from_be',
   'int::is_ascii', 'int::is_ascii_digit', 'int::to_ascii_lowercase', 'int::to_ascii_uppercase', 'int::reverse_bits',
   'char::is_ascii_digit', 'char::is_whitespace', 'char::is_numeric', 'char::is_alphanumeric', 'char::is_ascii', 'char::to_ascii_lowercase', 'char::len_utf8')
def _(I, st, a, c, k):
    xs = tuple(I.content(st, x) for x in a)
    if c.m in ('is_positive', 'is_negative') and lparts(xs[0]) is not None:
        return k(st, I.cmp(st, 'Gt' if c.m == 'is_positive' else 'Lt', xs[0], 0))
    return k(st, typed(mk('nop', c.m, *xs), c.dest))


@m('str::parse', 'FromStr::from_str', 'int::from_str_radix')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    ty = targ(c.dest)
    if c.m == 'from_str' or c.m == 'parse':
        lf = I.find_impl('core::str::traits::FromStr', [ty]) if ty else None
        if lf is not None:
            im, sub = lf
            for x in im['items']:
                if x['n'] == 'from_str':
                    fn = I.F.fns.get(x['k'])
                    if fn is not None:
                        return I.push(st, fn, sub, [a[0]], k)
    n = selfname(ty) if ty and ty[0] != 'prim' else (ty[1] if ty else '?')
    if n == 'String':
        return k(st, ok(v))
    t = mk('parsed', n, v)
    typed(t, ty)
    s2 = st.copy()
    out = []
    b = mk('parses', n, v)
    if I.assume(st, b, 1):
        out += k(st, ok(t))
    if I.assume(s2, b, 0):
        out += k(s2, err(typed(mk('parseerr', n, v), targ(c.dest, 1))))
    return out


# ------------------------------------------------------------------ comparison
def scalar(v):
    return isinstance(v, (int, Lin)) or isinstance(v, T)


def eqv(I, st, x, y, k):
    """equality of two values: k(state, boolean value)"""
    x, y = I.content(st, x), I.content(st, y)
    if isinstance(x, Adt) and x.key == '@arc':
        x = I.content(st, __import__('hopsa.vals', fromlist=['ref']).ref(x.f[0]))
    if isinstance(y, Adt) and y.key == '@arc':
        y = I.content(st, ref(y.f[0]))
    if isinstance(x, Adt) and isinstance(y, Adt):
        if x.key == y.key or '()' in (x.key, y.key):
            if x.vi != y.vi:
                return k(st, 0)
            return eqall(I, st, x.f, y.f, 0, k)
        return k(st, mk('eqv', x, y))
    if isinstance(x, T) and isinstance(y, Adt):
        x, y = y, x
    if isinstance(x, Adt) and isinstance(y, T):
        if TY.get(y) is None and x.key[0] != '@' and x.key != '()':
            typed(y, ('adt', x.key, ()))
        a = I.adt_of(TY.get(y))
        n = len(a.variants) if a is not None else 2
        out = []
        if not x.f:
            # a unit variant: compare discriminants
            if I.variant(st, y) is not None:
                return k(st, int(I.variant(st, y) == x.vi))
            s2 = st.copy()
            if I.set_variant(st, y, x.vi):
                out += k(st, 1)
            if I.not_variant(s2, y, x.vi):
                out += k(s2, 0)
            return out
        for s, vi in I.fork_variant(st, y, n):
            if vi != x.vi:
                out += k(s, 0)
            else:
                out += eqall(I, s, x.f, tuple(I.payload(s, y, vi, i) for i in range(len(x.f))), 0, k)
        return out
    if isinstance(x, Seq) and isinstance(y, Seq) and known(x) and known(y) and \
       all(isinstance(p[1], (int, T)) for p in x.p + y.p):
        if len(x.p) != len(y.p):
            return k(st, 0)
        return eqall(I, st, tuple(p[1] for p in x.p), tuple(p[1] for p in y.p), 0, k)
    if isinstance(x, Seq) or isinstance(y, Seq):
        d = ladd(slen(x), slen(y), -1)
        if isinstance(d, int) and d != 0:
            return k(st, 0)
        if y is EMPTY:
            return k(st, I.cmp(st, 'Eq', slen(x), 0))
        if x is EMPTY:
            return k(st, I.cmp(st, 'Eq', slen(y), 0))
        if x == y:
            return k(st, 1)
        return k(st, mk('eqv', *sorted((x, y), key=lambda z: z.uid)))
    if x == y and not I.isfloat(x):
        return k(st, 1)
    if isinstance(x, int) or isinstance(y, int) or isinstance(x, Lin) or isinstance(y, Lin) or \
       (isinstance(x, T) and TY.get(x, ('?',))[0] == 'prim'):
        if I.isfloat(x) or I.isfloat(y):
            return k(st, mk('fcmp', 'Eq', x, y))
        if isinstance(x, T) and TY.get(x) == ('bool',) and isinstance(y, int):
            return k(st, x if y else I.lnot(x))
        if isinstance(y, T) and TY.get(y) == ('bool',) and isinstance(x, int):
            return k(st, y if x else I.lnot(y))
        return k(st, I.cmp(st, 'Eq', x, y))
    if isinstance(x, T) and isinstance(y, T):
        a = I.adt_of(TY.get(x))
        if a is not None and all(not v['f'] for v in a.variants):
            vx, vy = I.variant(st, x), I.variant(st, y)
            if vx is not None and vy is not None:
                return k(st, int(vx == vy))
        p = sorted((x, y), key=lambda z: z.uid)
        return k(st, mk('eqv', *p))
    return k(st, mk('eqv', x, y))


def eqall(I, st, xs, ys, i, k):
    if i == len(xs):
        return k(st, 1)

    def kk(s, b):
        out = []
        for s2, t in I.fork(s, b):
            out += eqall(I, s2, xs, ys, i + 1, k) if t else k(s2, 0)
        return out
    return eqv(I, st, xs[i], ys[i], kk)


def user_eq(I, c, x):
    """a hand-written PartialEq of the workspace for this type"""
    return None


@m('PartialEq::eq', 'PartialEq::ne', 'SliceContains::eq', 'ptr::eq', 'Arc::ptr_eq', 'str::eq', 'slice::eq', 'Option::eq')
def _(I, st, a, c, k):
    if c.m == 'ptr_eq':
        return k(st, mk('eqv', I.content_once(st, a[0]), I.content_once(st, a[1])))
    neg = c.m == 'ne'
    return eqv(I, st, a[0], a[1], lambda s, b: k(s, I.lnot(b) if neg else b))


@m('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(I, st, a, c, k):
    x, y = I.content(st, a[0]), I.content(st, a[1])
    t = c.args[0] if c.args else None
    if t is not None and 'log' in str(t[1] if len(t) > 1 else '') and 'Level' in str(t):
        return k(st, 0)
    if I.isfloat(x) or I.isfloat(y):
        return k(st, mk('fcmp', c.m.capitalize(), x, y))
    if isinstance(x, Adt) and isinstance(y, Adt) and not x.f and not y.f:
        return k(st, {'lt': x.vi < y.vi, 'le': x.vi <= y.vi, 'gt': x.vi > y.vi, 'ge': x.vi >= y.vi}[c.m] + 0)
    if lparts(x) is not None and lparts(y) is not None and not isinstance(x, Seq):
        if isinstance(x, T) and TY.get(x, ('prim',))[0] != 'prim':
            return k(st, mk('bcmp', c.m, x, y))
        return k(st, I.cmp(st, c.m.capitalize(), x, y))
    return k(st, mk('bcmp', c.m, x, y))


@m('Ord::cmp', 'PartialOrd::partial_cmp')
def _(I, st, a, c, k):
    x, y = I.content(st, a[0]), I.content(st, a[1])
    part = c.m == 'partial_cmp'
    w = (lambda v: some(v)) if part else (lambda v: v)
    if isinstance(x, (int, Lin, T)) and isinstance(y, (int, Lin, T)) and not I.isfloat(x) and TY.get(x, ('prim',))[0] == 'prim':
        out = []
        for s, b in I.fork(st, I.cmp(st, 'Lt', x, y)):
            if b:
                out += k(s, w(adt(CMPO, 0)))
                continue
            for s2, e in I.fork(s, I.cmp(s, 'Eq', x, y)):
                out += k(s2, w(adt(CMPO, 1 if e else 2)))
        return out
    return k(st, typed(mk('ord', x, y), c.dest))


@m('cmp::min', 'cmp::max', 'Ord::min', 'Ord::max', 'Ord::clamp')
def _(I, st, a, c, k):
    x, y = a[0], a[1]
    if c.m == 'clamp':
        return k(st, typed(mk('clamp', *a), c.dest))
    if lparts(x) is None or lparts(y) is None:
        return k(st, typed(mk(c.m, x, y), c.dest))
    out = []
    for s, b in I.fork(st, I.cmp(st, 'Le', x, y)):
        out += k(s, (x if b else y) if c.m == 'min' else (y if b else x))
    return out


@m('bool::then', 'bool::then_some', 'bool::ok_or')
def _(I, st, a, c, k):
    out = []
    for s, b in I.fork(st, I.content(st, a[0])):
        if not b:
            out += k(s, NONE)
        elif c.m == 'then':
            out += I.call_value(s, a[1], [], lambda s2, r: k(s2, some(r)))
        else:
            out += k(s, some(a[1]))
    return out


# ------------------------------------------------------------------ formatting, logging
def fargs(I, st, v, depth=0):
    v = I.content(st, v) if isinstance(v, Ref) else v
    if isinstance(v, Adt) and depth < 6:
        return adt(v.key, v.vi, [fargs(I, st, x, depth + 1) for x in v.f])
    if isinstance(v, Seq) and depth < 6:
        return seq([('v', fargs(I, st, p[1], depth + 1)) if p[0] == 'v' else p for p in v.p])
    return v


@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp', 'Argument::new_pointer',
   'Argument::from_usize', 'Argument::none')
def _(I, st, a, c, k):
    v = I.content(st, a[0]) if a else UNIT
    name = c.m[4:]
    if name == 'display':
        # a workspace Display implementation decides the text
        ty = TY.get(v) if isinstance(v, T) else (('adt', v.key, ()) if isinstance(v, Adt) and v.key[0] != '@' and v.key != '()' else None)
        if ty is not None and ty[0] == 'adt':
            r = I.find_impl('core::fmt::Display', [ty])
            if r is not None:
                im, sub = r
                fn = I.F.fns.get(im['items'][0]['k'])
                if fn is not None and I.inline_display:
                    cell = ('H', ('fmt', st.fresh('fmt')))
                    st.mem[cell] = EMPTY

                    def kk(s, _r):
                        out = s.mem.pop(cell)
                        return k(s, adt('@fmtarg', 0, (out,)))
                    return I.push(st, fn, sub, [a[0], ref(cell)], kk)
        return k(st, adt('@fmtarg', 0, (text(v),)))
    return k(st, adt('@fmtarg', 0, (mk('fmt_' + name, v),)))


def text(v):
    """the Display rendering of a value as a sequence"""
    if isinstance(v, Seq):
        return v
    if isinstance(v, T):
        ty = TY.get(v)
        if ty is not None and (ty[0] == 'str' or selfname(ty) == 'String') or v.op in ('disp', 'lossy', 'lowercase', 'uppercase'):
            return v
        n = ty[1] if ty is not None and ty[0] == 'prim' else str(selfname(ty)) if ty is not None else '?'
        return mk('disp', v, n)
    if isinstance(v, int):
        return mk('disp', v, '?')
    return mk('disp', v, '?')


def template(I, st, v):
    """the literal pieces of a format_args! template value"""
    v = I.content(st, v)
    if isinstance(v, Seq) and known(v):
        return v
    return None


def fmt_parse(bs, args):
    """decode the compact template: literal runs and placeholders (see core::fmt::rt); None if not understood"""
    out = []
    i, n, nxt_ = 0, len(bs), 0
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out += [('v', x) for x in bs[i:i + b]]
            i += b
        elif b == 0x80:
            if i + 2 > n:
                return None
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out += [('v', x) for x in bs[i:i + ln]]
            i += ln
        elif b >= 0xC0:
            spec = []
            if b & 1:
                spec.append(tuple(bs[i:i + 4]))
                i += 4
            if b & 2:
                spec.append(tuple(bs[i:i + 2]))
                i += 2
            if b & 4:
                spec.append(tuple(bs[i:i + 2]))
                i += 2
            if b & 8:
                nxt_ = bs[i] | bs[i + 1] << 8
                i += 2
            if nxt_ >= len(args):
                return None
            x = args[nxt_]
            nxt_ += 1
            t = x.f[0] if isinstance(x, Adt) and x.key == '@fmtarg' else mk('fmtarg', x)
            if spec and any(spec):
                t = mk('fmtspec', t, tuple(spec))
            out += list(parts(t))
        else:
            return None
    return seq(out)


@m('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Arguments::new_v1_formatted', 'Arguments::from_str_nonconst')
def _(I, st, a, c, k):
    x = I.content(st, a[0])
    if c.m.startswith('from_str'):
        return k(st, adt('@fmtargs', 0, (x,)))
    args = I.content(st, a[1]) if len(a) > 1 else EMPTY
    if isinstance(x, Seq) and known(x) and all(isinstance(p[1], int) for p in x.p):
        al = [I.content(st, p[1]) for p in parts(args) if p[0] == 'v']
        r = fmt_parse([p[1] for p in x.p], al)
        if r is not None:
            return k(st, adt('@fmtargs', 0, (r,)))
    if isinstance(x, Seq) and known(x):
        # new_const: an array of pieces
        o = ()
        al = [I.content(st, p[1]) for p in parts(args) if p[0] == 'v']
        for i, p in enumerate(x.p):
            o += parts(I.content(st, p[1]))
            if i < len(al):
                o += parts(al[i].f[0] if isinstance(al[i], Adt) and al[i].key == '@fmtarg' else mk('fmtarg', al[i]))
        return k(st, adt('@fmtargs', 0, (seq(o),)))
    return k(st, adt('@fmtargs', 0, (mk('fmt', x, fargs(I, st, args)),)))


def fmt_text(I, st, v):
    v = I.content(st, v)
    if isinstance(v, Adt) and v.key == '@fmtargs':
        return v.f[0]
    return mk('fmt', v)


@m('fmt::format', 'alloc::format', 'fmt::format_inner')
def _(I, st, a, c, k):
    t = fmt_text(I, st, a[0])
    if isinstance(t, T) and t not in TY:
        typed(t, ('adt', 'alloc::string::String', ()))
    return k(st, t)


@m('Arguments::as_str', 'Arguments::as_statically_known_str')
def _(I, st, a, c, k):
    t = fmt_text(I, st, a[0])
    return k(st, some(rval(t)) if isinstance(t, Seq) and known(t) else NONE)


@m('Formatter::write_str', 'Write::write_str', 'Formatter::write_fmt', 'Write::write_fmt', 'Write::write_char', 'Formatter::pad', 'Formatter::write_char')
def _(I, st, a, c, k):
    if c.m == 'write_fmt':
        t = fmt_text(I, st, a[1])
    elif c.m == 'write_char':
        x = a[1]
        t = seq([('v', x)]) if isinstance(x, int) and x < 128 else mk('utf8char', x)
    else:
        t = I.content(st, a[1])
    cell, proj = I.models.target(I, st, a[0])
    v = I.read(st, cell, proj)
    ty = sty(c)
    if ty is not None and selfname(ty) not in ('Formatter', 'String', 'Vec') or not (isinstance(v, Seq) or selfname(ty) in ('String', 'Vec')
                                                                                    or isinstance(v, T) and v.op in ('lv',)):
        if selfname(ty) == 'Formatter':
            return k(st, ok(UNIT))
        return I.models.io_write(I, st, c, a[0], t, k)
    I.write(st, cell, proj, seq(parts(v) + parts(t)))
    return k(st, ok(UNIT))


@m('Display::fmt', 'Debug::fmt', 'LowerHex::fmt', 'UpperHex::fmt')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    cell, proj = I.models.target(I, st, a[1])
    w = I.read(st, cell, proj)
    if isinstance(w, Seq):
        I.write(st, cell, proj, seq(parts(w) + parts(text(v) if c.trait.endswith('Display') else mk('fmt_debug', v))))
    return k(st, ok(UNIT))


@m('io::_print', 'io::_eprint', 'stdio::_print', 'stdio::_eprint')
def _(I, st, a, c, k):
    st.event('print', 'out' if c.m == '_print' or c.key.endswith('_print') and not c.key.endswith('_eprint') else 'err', fmt_text(I, st, a[0]))
    return k(st, UNIT)


@m('log::log', '__private_api::log', '__private_api::loc', '__private_api::enabled', 'log::logger', 'log::max_level', 'Level::cmp', 'log::set_logger',
   'log::set_max_level', '__private_api::log_0', 'Log::log', 'Log::enabled')
def _(I, st, a, c, k):
    if c.m == 'max_level':
        return k(st, adt('log::LevelFilter', 0))
    if c.m == 'enabled':
        return k(st, 0)
    return k(st, UNIT)


@m('Hash::hash', 'Hasher::finish', 'Hash::hash_slice', 'BuildHasher::build_hasher', 'Hasher::write', 'BuildHasher::hash_one')
def _(I, st, a, c, k):
    if c.m == 'hash_one':
        return k(st, typed(mk('hash', I.content(st, a[1])), c.dest))
    return k(st, UNIT if c.m in ('hash', 'write', 'hash_slice') else typed(mk('hash', st.fresh('h')), c.dest))


@m('Any::type_id', 'any::type_name', 'type_id::of')
def _(I, st, a, c, k):
    return k(st, typed(mk('typename', str(c.args[0]) if c.args else '?'), c.dest))
