"""What errors and identifiers say of themselves (E01)."""
from itertools import product
from .vals import *
from .canon import *
from .interp import Interp, State
from .models import NONE
from .rules_engine import floor, vague


def impls_of(F, trait):
    for im in F.impls:
        if im.get('trait') != trait:
            continue
        t = im['crate'].ty(im['self'])
        if t[0] == 'adt' and t[1] in F.adts and t[1].startswith('hop'):
            yield im, t


def plain(F, t):
    """the enum without fields a type is, or None"""
    a = F.adts.get(t[1]) if t[0] == 'adt' else None
    return a if a is not None and a.kind == 'enum' and a.names and not any(a.ftys(i) for i in range(len(a.names))) else None


def others(F, I, mine):
    """the rendering of every other type stands for the value rendered"""
    for trait, nm in (('core::fmt::Display', 'disp'), ('core::fmt::Debug', 'fmt_debug')):
        for im, t in impls_of(F, trait):
            for it in im['items']:
                if it.get('k') in F.fns and it['n'] == 'fmt' and not (t[1] == mine and trait.endswith('Display')):
                    I.prims[it['k']] = rendered(nm)


def rendered(nm):
    def go(I, st, a, c, k):
        v = I.content(st, a[0])
        cell, proj = I.models.target(I, st, a[1])
        w = I.read(st, cell, proj)
        I.write(st, cell, proj, seq(parts(w) + (('t', mk(nm, v, '?') if nm == 'disp' else mk(nm, v)),)))
        return k(st, I.models.ok(UNIT))
    return go


def cases(F, a, subst):
    """every value of the type: (variant, fields, the symbols among the fields by name)"""
    for vi, name in enumerate(a.names):
        opts, syms = [], []
        for fi, q in enumerate(a.variants[vi]['f']):
            t = a.fty(vi, fi)
            e = plain(F, t)
            if e is not None:
                opts.append([adt(e.key, i) for i in range(len(e.names))])
            else:
                x = typed(mk('field', a.key, name, q[0]), t)
                syms.append((q[0], x))
                opts.append([x])
        for fs in product(*opts):
            yield vi, fs, syms


def pattern(v):
    """the text with what stands for a given value left open"""
    return repr(rebuild(v, lambda x: mk('hole') if isinstance(x, T) and x.op == 'field' else None))


def E01(F, rep):
    """every error, by kind and with any content: is rendered without failing, as text that is not empty, differs from that of every other kind, and gives everything the error holds, unless
    that is what it names as its source; its source is a part of it; what an error is made from is kept"""
    n = 0
    srcs = {}
    for im, t in impls_of(F, 'core::error::Error'):
        k = next((x['k'] for x in im['items'] if x['n'] == 'source'), None)
        srcs[t[1]] = F.fns.get(k)
    for im, t in impls_of(F, 'core::fmt::Display'):
        a = F.adts[t[1]]
        if not (t[1] in srcs or t[1].endswith('Error')):
            continue
        fk = im['items'][0].get('k')
        if fk not in F.fns:
            continue
        nm = '::'.join(t[1].split('::')[-2:])
        said = {}
        for vi, fs, syms in cases(F, a, {}):
            me = adt(t[1], vi, fs)
            what = a.names[vi]
            given = sources(F, rep, srcs.get(t[1]), me, nm, what)
            if t[1] in srcs:
                for fi, x in enumerate(fs):
                    ft = a.fty(vi, fi)
                    if is_error(ft, srcs):
                        rep.check(False if any(g is None for g in given) else None if any(vague(g) for g in given) else all(mentions(g, x) for g in given), '%s:%s:names' % (nm, what),
                                  '%s holds an error, which it does not name as its source' % what)
            I = Interp(F, 20000)
            I.inline_display = False
            others(F, I, t[1])
            st = State()
            st.mem[('in', 'e')] = me
            st.mem[('in', 'f')] = EMPTY
            out = I.start(fk, [ref(('in', 'e')), ref(('in', 'f'))], st)
            rep.saw(I)
            rep.count('paths', len(out))
            for o in out:
                if o.kind != 'ret':
                    rep.check(False if o.kind == 'panic' else None, '%s:%s:%s' % (nm, what, o.kind), 'rendering %s panics: %s' % (what, short(o.val)))
                    continue
                r = o.val
                rep.check(None if not isinstance(r, Adt) else r.vi == 0, '%s:%s:fails' % (nm, what), 'rendering %s fails' % what)
                text = canon(o.st.mem[('in', 'f')])
                if vague(text):
                    rep.undecided('%s:%s' % (nm, what), 'what is said of %s could not be read: %s' % (what, short(text)))
                    continue
                rep.check(bool(parts(text)), '%s:%s:empty' % (nm, what), 'nothing is said of %s' % what)
                for fname, x in syms:
                    if any(g is not None and mentions(g, x) for g in given):
                        continue
                    if mentions(text, x):
                        how = lossy(text, x)
                        rep.check(True if how is True else False if how else None, '%s:%s:%s' % (nm, what, fname), 'what is said of %s gives only %s of its %s' % (what, short(how) if how else '?', fname))
                        continue
                    known_ = any(mentions(k_[1], x) for k_ in o.st.facts if len(k_) > 1)
                    rep.check(None if known_ else False, '%s:%s:%s' % (nm, what, fname), 'what is said of %s does not give its %s, which is not its source either: %s' % (what, fname, say(text)))
                p = pattern(text)
                for vi2, fs2, given2 in said.get(p, []):
                    if vi2 != vi:
                        rep.bad('%s:%s:%s' % (nm, a.names[vi2], what), 'the same is said of %s and of %s: %s' % (a.names[vi2], what, say(text)))
                    elif fs2 != fs and given2 == given:
                        rep.bad('%s:%s:%s' % (nm, what, 'value'), 'the same is said of %s with %s and with %s: %s' % (what, short(fs2), short(fs), say(text)))
                said.setdefault(p, []).append((vi, fs, given))
                n += 1
        rep.sample('%s: %d ways to say what went wrong' % (nm, len(said)))
    for im, t in impls_of(F, 'core::convert::From'):
        if not (t[1] in srcs or t[1].endswith('Error')):
            continue
        kept(F, rep, im, t)
        n += 1
    floor(rep, n, 40, 'kinds of errors')


WHOLE = ('disp', 'fmt_debug', 'fmt_lower_hex', 'fmt_upper_hex', 'fmtspec', 'fmtarg', 'fmt', 'deref', 'tostring')
PART = ('len', 'count_ones', 'count_zeros', 'leading_zeros', 'trailing_zeros', 'popcount', 'lowercase', 'uppercase', 'trim', 'trim_start', 'trim_end', 'sub', 'idx', 'discr', 'shr', 'rem', 'first', 'last', 'div')

PARTS = ('count_ones', 'leading_zeros', 'trailing_zeros', 'abs', 'signum', 'unsigned_abs', 'is_nan', 'floor', 'round', 'trunc', 'ceil', 'fract', 'is_power_of_two', 'is_ascii')


def lossy(v, x):
    """True when the text gives all of x somewhere; else what it gives of it, or None when that is not understood"""
    if v == x:
        return True
    kids = []
    if isinstance(v, T):
        if not mentions(v, x):
            return None
        if v.op in PART or v.op == 'nop' and v.a[0] in PARTS or v.op in ('and', 'bitand', 'rem', 'shr', 'div'):
            return v
        if v.op not in WHOLE:
            return None
        kids = v.a
    elif isinstance(v, Seq):
        kids = [q for p in v.p for q in p[1:]]
    elif isinstance(v, Adt):
        kids = v.f
    elif isinstance(v, (Lin, tuple)):
        return True if isinstance(v, Lin) and mentions(v, x) else None
    got = [lossy(k, x) for k in kids if isinstance(k, (T, Seq, Adt, Lin)) and mentions(k, x)]
    return True if True in got else None if None in got or not got else got[0]


def say(text):
    b = bytes(p[1] for p in parts(text) if p[0] == 'v' and isinstance(p[1], int))
    return repr(b.decode('utf-8', 'replace'))


def is_error(t, srcs):
    """is a value of the type itself an error: of this workspace, of the standard library, or of a backend"""
    if t[0] == 'adt':
        return t[1] in srcs or t[1].split('::')[0] in ('core', 'alloc', 'std') and t[1].endswith('Error')
    return t[0] == 'alias' and 'Backend::Error' in t[1]


def sources(F, rep, fn, me, nm, what):
    """what an error names as its source, by path"""
    if fn is None:
        return (None,)
    I = Interp(F, 20000)
    st = State()
    st.mem[('in', 'e')] = me
    out = []
    for o in I.start(fn['k'], [ref(('in', 'e'))], st):
        if o.kind != 'ret' or not isinstance(o.val, Adt):
            rep.check(False if o.kind == 'panic' else None, '%s:%s:source' % (nm, what), 'asking %s for its source panics' % what)
            out.append(mk('opaque', what))
            continue
        v = o.val
        s = None if v.vi == NONE.vi else I.content(o.st, v.f[0])
        if s is not None:
            rep.check(True if any(s == x for x in me.f) else None if vague(s) or any(mentions(s, x) for x in me.f) else False, '%s:%s:source' % (nm, what),
                      'the source of %s is %s, which it does not hold' % (what, short(s)))
        out.append(s)
    rep.saw(I)
    return tuple(out)


def kept(F, rep, im, t):
    """an error made from another holds it, in a field for it"""
    a = F.adts[t[1]]
    given = [im['crate'].arg(x) for x in im.get('targs') or []][1:]
    fk = next((x.get('k') for x in im['items'] if x['n'] == 'from'), None)
    if fk not in F.fns or len(given) != 1:
        return
    room = {a.names[i] for i in range(len(a.names)) if any(f == given[0] for f in a.ftys(i))}
    if not room:
        return
    x = typed(mk('given'), given[0])
    I = Interp(F, 20000)
    nm = '::'.join(t[1].split('::')[-2:])
    of = given[0][1].split('::')[-1] if given[0][0] == 'adt' else short(given[0])
    for o in I.start(fk, [x], State()):
        if o.kind != 'ret':
            rep.check(False if o.kind == 'panic' else None, '%s:from:%s' % (nm, of), 'making %s from %s does not return' % (nm, of))
            continue
        v = canon(I.content(o.st, o.val))
        rep.check(None if vague(v) or not isinstance(v, Adt) else a.names[v.vi] in room and mentions(v, x), '%s:from:%s' % (nm, of), '%s is made from %s as %s' % (nm, of, short(v)))
    rep.saw(I)


# ---------------------------------------------------------------- copies and comparisons
def variants(F, t, tag):
    """one value of each variant of a type, its fields symbols named after the tag"""
    a = F.adts[t[1]]
    subst = dict(zip(a.generics, t[2])) if a.generics else {}
    out = []
    for vi in range(len(a.variants)):
        fs = []
        for fi, q in enumerate(a.variants[vi]['f']):
            ft = a.fty(vi, fi)
            fs.append(typed(mk('held', t[1], tag, vi, q[0]), subst_ty(ft, subst)))
        out.append(adt(t[1], vi, fs))
    return a, out


def subst_ty(t, m):
    if isinstance(t, tuple):
        if t[:1] == ('param',) and t[1] in m:
            return m[t[1]]
        return tuple(subst_ty(x, m) for x in t)
    return t


def size_only(st, x):
    """does what a path is known by speak of the length of something alone, and not say that nothing is in it"""
    n = slen(x) if isinstance(x, (Seq, T)) else None
    if not isinstance(n, T) or not n.op == 'len' and not mentions(n, x):
        return False
    seen = []

    def speaks(v):
        if isinstance(v, T) and v.op in ('len', 'chars', 'empty', 'notempty') and len(v.a) == 1 and v.a[0] == x:
            seen.append(1)
        elif isinstance(v, tuple):
            return any(speaks(w) for w in v)
        elif isinstance(v, T):
            return v == x or any(speaks(w) for w in v.a)
        elif isinstance(v, Lin):
            return any(speaks(t) for t, _ in v.t)
        elif isinstance(v, (Seq, Adt)):
            return mentions(v, x)
        return False
    return not any(speaks(k) for k in st.facts) and bool(seen)


def same(I, st, x, y):
    """is what one field holds what the other holds, as far as the path says"""
    from .models_num import eqv
    if x == y:
        return True
    a = I.adt_of(TY.get(x)) if isinstance(x, T) else None
    if a is not None and a.kind == 'enum' and not any(v['f'] for v in a.variants):
        d = I.truth(st, I.cmp(st, 'Eq', mk('discr', x), mk('discr', y)))
        if d is not None:
            return bool(d)
    if size_only(st, x) and I.truth(st, I.cmp(st, 'Eq', slen(x), slen(y))) == 0:
        return False
    res = set()
    eqv(I, st.copy(), x, y, lambda s, b: res.update(t for _s, t in I.fork(s, b)) or [])
    return None if len(res) != 1 else bool(res.pop())


def touched(st, x):
    """does anything the path is known by speak of a field"""
    def speaks(v):
        return any(speaks(w) for w in v) if isinstance(v, tuple) else mentions(v, x) if isinstance(v, (T, Lin, Seq, Adt)) else False
    return any(speaks(k) for k in st.facts)


def V02(F, rep):
    """every type of the workspace that can be cloned or compared, by variant and with any content: a clone holds what the original holds; two values are equal exactly when they are of one
    variant and all they hold is; an order agrees with equality and is the same seen from either side"""
    n = 0
    for trait, item in (('core::clone::Clone', 'clone'), ('core::clone::Clone', 'clone_from'), ('core::cmp::PartialEq', 'eq'), ('core::cmp::PartialEq', 'ne'),
                        ('core::cmp::Ord', 'cmp'), ('core::cmp::PartialOrd', 'partial_cmp')):
        for im, t in impls_of(F, trait):
            fk = next((x.get('k') for x in im['items'] if x['n'] == item), None)
            if fk not in F.fns or len(im.get('targs') or [0]) == 2 and im['crate'].arg(im['targs'][1]) != t:
                continue
            nm = '::'.join(t[1].split('::')[-2:])
            a, left = variants(F, t, 'a')
            _a, right = variants(F, t, 'b')
            n += 1
            if item.startswith('clone'):
                for i, x in enumerate(left):
                    cloned(F, rep, fk, item, nm, a, x, right[i], right)
            elif item in ('eq', 'ne'):
                for x in left:
                    for y in right:
                        equal(F, rep, fk, item == 'ne', nm, a, x, y)
            else:
                ordered(F, rep, fk, nm, a, left, right, item != 'cmp')
    floor(rep, n, 30, 'ways to copy or compare')


def run(F, rep, fk, args, mems):
    I = Interp(F, 30000)
    st = State()
    for c, v in mems:
        st.mem[c] = v
    out = I.start(fk, args, st)
    rep.saw(I)
    rep.count('paths', len(out))
    return I, out


def cloned(F, rep, fk, item, nm, a, x, old, all_):
    what = '%s%s' % (nm, '' if a.kind != 'enum' else '::' + a.names[x.vi])
    A, B = ('in', 'a'), ('in', 'b')
    for o_ in ([None] if item == 'clone' else all_):
        I, out = run(F, rep, fk, [ref(A)] if o_ is None else [ref(B), ref(A)], [(A, x)] + ([(B, o_)] if o_ is not None else []))
        for o in out:
            if o.kind != 'ret':
                rep.check(False if o.kind == 'panic' else None, '%s:%s:%s' % (what, item, o.kind), 'cloning %s panics: %s' % (what, short(o.val)))
                continue
            v = canon(I.content(o.st, o.val) if o_ is None else o.st.mem[B])
            if not isinstance(v, Adt):
                rep.check(True if v == x else None, '%s:%s' % (what, item), 'a clone of %s is %s' % (what, short(v)))
                continue
            if v.vi != x.vi or v.key != x.key:
                rep.check(False if v.key == x.key else None, '%s:%s' % (what, item), 'a clone of %s is %s' % (what, short(v)))
                continue
            for q, f, g in zip(a.variants[x.vi]['f'], x.f, v.f):
                f, g = canon(f), canon(I.content(o.st, g) if isinstance(g, Ref) else g)
                rep.check(True if f == g else None if vague(g) or mentions(g, f) else False, '%s:%s:%s' % (what, item, q[0]), 'the %s of a clone of %s is %s' % (q[0], what, short(g)))


INTS = (0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)


def numbers(v):
    """the edges of its range, when all a value holds is one number"""
    t = TY.get(v.f[0]) if len(v.f) == 1 and isinstance(v.f[0], T) else None
    if t is None or t[0] != 'prim' or t[1] not in ('u8', 'u16', 'u32', 'u64', 'usize'):
        return []
    return [i for i in INTS if i < 1 << (64 if t[1] == 'usize' else int(t[1][1:]))]


def edges(F, rep, fk, nm, x, judge):
    """what is answered for every two numbers at the edges of the range"""
    A, B = ('in', 'a'), ('in', 'b')
    for i in numbers(x):
        for j in numbers(x):
            I, out = run(F, rep, fk, [ref(A), ref(B)], [(A, adt(x.key, x.vi, (i,))), (B, adt(x.key, x.vi, (j,)))])
            for o in out:
                if o.kind == 'ret':
                    judge(I, o, i, j)


def equal(F, rep, fk, neg, nm, a, x, y):
    what = '%s%s' % (nm, '' if a.kind != 'enum' else '::' + a.names[x.vi])
    other = '%s%s' % (nm, '' if a.kind != 'enum' else '::' + a.names[y.vi])
    A, B = ('in', 'a'), ('in', 'b')
    if x.vi == y.vi:
        edges(F, rep, fk, nm, x, lambda I, o, i, j: rep.check(bool(o.val) == ((i == j) != neg) if isinstance(o.val, int) else None, '%s:eq:numbers' % nm,
                                                              'two values %s of %d and %d are taken to be %s' % (nm, i, j, 'equal' if i != j else 'different')))
    I, out = run(F, rep, fk, [ref(A), ref(B)], [(A, x), (B, y)])
    for o in out:
        if o.kind != 'ret':
            rep.check(False if o.kind == 'panic' else None, '%s:eq:%s' % (what, o.kind), 'comparing %s with %s panics' % (what, other))
            continue
        for s, b in I.fork(o.st, o.val):
            if neg:
                b = 1 - b
            if x.vi != y.vi:
                rep.check(not b, '%s:eq:%s' % (what, other), '%s and %s are taken to be equal' % (what, other))
                continue
            ds = [same(I, s, f, g) for f, g in zip(x.f, y.f)]
            names = [q[0] for q in a.variants[x.vi]['f']]
            if b:
                for q, d, f in zip(names, ds, x.f):
                    seen = touched(s, f) and not (size_only(s, f) and I.rng(s, slen(f))[1] != 0)
                    rep.check(True if d else False if d is False or not seen else None, '%s:eq:%s' % (what, q), 'two values %s are taken to be equal whatever their %s' % (what, q))
            else:
                rep.check(True if False in ds else None if None in ds and any(touched(s, f) for f in x.f) else False,
                          '%s:eq:unequal' % what, 'two values %s that hold the same are taken to be different' % what)


def ordered(F, rep, fk, nm, a, left, right, partial):
    A, B = ('in', 'a'), ('in', 'b')

    def answer(o):
        v = o.val
        if partial:
            if not isinstance(v, Adt):
                return None
            if v.vi == 0:
                return 'none'
            v = v.f[0]
        return ('less', 'equal', 'greater')[v.vi] if isinstance(v, Adt) and v.vi < 3 else None

    back = {'less': 'greater', 'greater': 'less', 'equal': 'equal'}
    table = {}
    for x in left:
        nums = {}

        def judge(I, o, i, j):
            r = answer(o)
            nums[i, j] = r
            rep.check(None if r is None else (r == 'equal') == (i == j), '%s:cmp:numbers' % nm, 'of two values %s of %d and %d the order says %s' % (nm, i, j, r))
        edges(F, rep, fk, nm, x, judge)
        for (i, j), r in nums.items():
            if r is not None and nums.get((j, i)) is not None:
                rep.check(nums[j, i] == back.get(r), '%s:cmp:sides' % nm, '%d is %s than %d, which is %s' % (i, r, j, nums[j, i]))
        for y in right:
            I, out = run(F, rep, fk, [ref(A), ref(B)], [(A, x), (B, y)])
            for o in out:
                if o.kind != 'ret':
                    rep.check(False if o.kind == 'panic' else None, '%s:cmp:%s' % (nm, o.kind), 'ordering two values %s panics' % nm)
                    continue
                r = answer(o)
                if r is None:
                    rep.undecided('%s:cmp' % nm, 'the order of %s could not be read: %s' % (nm, short(o.val)))
                    continue
                ds = [same(I, o.st, f, g) for f, g in zip(x.f, y.f)]
                alike = x.vi == y.vi and (True if all(ds) else False if False in ds else None)
                rep.check(None if alike is None else (r == 'equal') == alike, '%s:cmp:equal' % nm, 'of two values %s that are %s the order says %s' % (nm, 'equal' if alike else 'different', r))
                if not x.f and not y.f:
                    table[x.vi, y.vi] = r
    for (i, j), r in table.items():
        rep.check(table.get((j, i)) == back.get(r), '%s:cmp:sides' % nm, '%s is %s than %s, which is %s' % (a.names[i], r, a.names[j], table.get((j, i))))
        for k in range(len(a.names)):
            if r == 'less' and table.get((j, k)) == 'less':
                rep.check(table.get((i, k)) == 'less', '%s:cmp:chain' % nm, '%s is less than %s and that than %s, but the first is %s than the last' % (a.names[i], a.names[j], a.names[k], table.get((i, k))))


# ---------------------------------------------------------------- the channel of a subscription
def ends(v):
    out = {'tx': set(), 'rx': set()}
    find(v, lambda y: out[y.op].add(y.a[0]) or False if isinstance(y, T) and y.op in out else False)
    return out['tx'], out['rx']


def P01(F, rep):
    """a subscription, however made: holds both ends of one channel, which no other has; hands out just these; closing it closes that channel and no other; and no question closes it"""
    from .engine import find_method, find_trait_method, Missing
    me = ref(('in', 'sub'))
    n = 0
    for name, fk in (('new', find_method(F, 'Subscription', 'hop_engine', 'new')), ('default', find_trait_method(F, 'Default', 'Subscription', 'default', 'hop_engine'))):
        I, out = run(F, rep, fk, [], [])
        for o in out:
            if o.kind != 'ret':
                rep.check(False if o.kind == 'panic' else None, name, 'a subscription cannot be made: %s' % short(o.val))
                continue
            sub = I.content(o.st, o.val)
            tx, rx = ends(deep(o.st, sub))
            made = {e[1] for e in o.st.events() if e[0] == 'channel'}
            rep.check(None if not tx or not rx else len(tx | rx) == 1, name + ':one', 'a subscription sends to one channel and receives from another')
            rep.check(None if not tx or not rx else tx | rx <= made, name + ':own', 'the channel of a subscription is not its own')
            if len(tx) != 1 or len(rx) != 1:
                continue
            n += 1
            for item, mine in (('receiver', rx), ('sender', tx), ('close', tx | rx)):
                try:
                    mk_ = find_method(F, 'Subscription', 'hop_engine', item)
                except Missing:
                    rep.undecided(item, '%s of a subscription was not found' % item)
                    continue
                s = o.st.copy()
                s.mem[('in', 'sub')] = sub
                before = len(s.events())
                J = Interp(F, 20000)
                for p in J.start(mk_, [me], s):
                    if p.kind != 'ret':
                        rep.check(False if p.kind == 'panic' else None, item, '%s of a subscription panics' % item)
                        continue
                    shut = [ends(e[1]) for e in p.st.events()[before:] if e[0] == 'closed']
                    if item == 'close':
                        rep.check(bool(shut) and all((a | b) and (a | b) <= mine for a, b in shut), 'close', 'closing a subscription closes %s' % ('nothing' if not shut else 'another channel than its own'))
                        continue
                    a, b = ends(deep(p.st, J.content(p.st, p.val)))
                    got = b if item == 'receiver' else a
                    rep.check(None if not got else got == mine, item, 'the %s of a subscription is of another channel' % item)
                    rep.check(not shut, item + ':closes', 'asking a subscription for its %s closes it' % item)
                rep.saw(J)
    floor(rep, n, 2, 'subscriptions')


def deep(st, v, depth=0):
    """a value with what it refers to in its place"""
    if not isinstance(v, Adt) or depth > 6:
        return v
    if v.key == '@arc' and isinstance(v.f[0], tuple):
        return deep(st, st.mem.get(v.f[0], EMPTY), depth + 1)
    return adt(v.key, v.vi, [deep(st, x, depth + 1) for x in v.f])
