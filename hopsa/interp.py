"""Path-sensitive interprocedural dataflow over the compiler's MIR.

Abstract interpretation with structured abstract values (vals.py): inputs are opaque terms, branch
conditions become facts (variants, intervals, affine relations), loops are summarised by a fixpoint over the
slots they change, and calls are inlined (local functions) or modelled (library functions, models.py).
No hop code is executed and no path is handed to a solver."""
import sys
import time
from .vals import *
from .facts import subst_ty, unify

sys.setrecursionlimit(40000)


SECONDS = 90        # of one exploration: what takes longer stays undecided


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'frames', 'facts', 'ev', 'cnt', 'stop', 'loops')

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = {}
        self.ev = None
        self.cnt = {}
        self.stop = None
        self.loops = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.cnt = dict(self.cnt)
        s.stop = self.stop
        s.loops = self.loops
        return s

    def fresh(self, what):
        n = self.cnt.get(what, 0)
        self.cnt[what] = n + 1
        return n

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        o = []
        e = self.ev
        while e is not None and e is not since:
            o.append(e[1])
            e = e[0]
        o.reverse()
        return o


class Frame:
    __slots__ = ('fn', 'body', 'subst', 'fid', 'bb', 'k', 'line')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.body, f.subst, f.fid, f.bb, f.k, f.line = self.fn, self.body, self.subst, self.fid, self.bb, self.k, self.line
        return f


class Out:
    """A finished path."""
    __slots__ = ('kind', 'val', 'st', 'where')

    def __init__(self, kind, val, st, where):
        self.kind, self.val, self.st, self.where = kind, val, st, where

    def __repr__(self):
        return '<%s %r @%s>' % (self.kind, self.val, self.where)


class Callee:
    """A resolved function constant: what is called and with which type arguments."""
    __slots__ = ('key', 'name', 'm', 'trait', 'args', 'self', 'rk', 'rn', 'ra', 'ctor', 'dest', 'argtys', 'f', 'macro', 'line', 'model')

    def __init__(self):
        self.dest = self.argtys = self.macro = self.line = None


OPT, RES = 'core::option::Option', 'core::result::Result'
NONE = adt(OPT, 0)


def some(v):
    return adt(OPT, 1, (v,))


def ok(v):
    return adt(RES, 0, (v,))


def err(v):
    return adt(RES, 1, (v,))


ITER_TRAITS = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator')


SEEN = set()      # every function any exploration of this run went through


class Interp:
    def __init__(self, facts, max_steps=400000):
        self.F = facts
        self.prims = {}        # function key -> model overriding the inlining of a local function
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = float('inf')
        self.terms = []
        self.fnitems = {}
        self.clos = []
        self.clo_idx = {}
        self.loopinfo = {}
        self.promo = {}
        self.visited = set()
        self.later = lambda x, y: None       # which of two times comes first
        self.calls = 0
        self.extcalls = {}
        self.reduce_logs = True
        self.max_depth = 60
        self.inline_display = False
        self.spawned = set()
        self.nodup = False     # take what is put into a local set or map to differ
        self.cut = None        # (fn key, bb) hook: stop at loop heads instead of summarising
        self.onebyone = 0      # the pieces of a split text are known one by one, when there are exactly so many or fewer
        self.unroll = None     # walk the passes of closures over opaque collections one by one, at most this many
        from . import models
        self.models = models

    # ---------------------------------------------------------------- types
    def fty(self, fr, i):
        return subst_ty(fr.fn['crate'].ty(i), fr.subst)

    def adt_of(self, ty):
        if ty is not None and ty[0] == 'adt':
            return self.F.adts.get(ty[1])
        return None

    def ftype(self, ty, vi, i):
        """type of field i of variant vi of ty"""
        if ty is None:
            return None
        if ty[0] == 'tuple':
            return ty[1][i] if i < len(ty[1]) else None
        a = self.adt_of(ty)
        if a is None:
            return None
        try:
            t = a.fty(vi, i)
        except IndexError:
            return None
        return subst_ty(t, dict(zip(a.generics, ty[2])))

    def expand(self, st, t, vi=None):
        """T of a known struct/tuple/variant type -> Adt of its fields"""
        ty = TY.get(t)
        if ty is None:
            return None
        if ty[0] == 'tuple':
            return adt('()', 0, [self.field(t, 0, i) for i in range(len(ty[1]))])
        a = self.adt_of(ty)
        if a is None:
            return None
        if vi is None:
            if len(a.variants) != 1:
                return None
            vi = 0
        return adt(a.key, vi, [self.field(t, vi, i) for i in range(len(a.variants[vi]['f']))])

    def field(self, t, vi, i):
        if isinstance(t, T) and t.op == 'lv' and TY.get(t) is None:
            return mk('fld', t, vi, i)
        ty = TY.get(t)
        r = mk('fld', t, vi, i)
        if r not in TY:
            x = self.ftype(ty, vi, i)
            if x is not None:
                TY[r] = x
                if x[0] == 'ref':
                    pass
        return r

    # ---------------------------------------------------------------- memory
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        if cell[0] == 'val':
            return cell[1]
        if cell[0] == 'D':
            t = mk('deref', cell[1])
            ty = TY.get(cell[1])
            if ty is not None and t not in TY:
                if ty[0] in ('ref', 'ptr'):
                    TY[t] = ty[2]
                elif ty[0] == 'adt' and ty[2] and ty[1].split('::')[-1] in ('Arc', 'Rc', 'Box', 'Ref', 'RefMut', 'MutexGuard'):
                    TY[t] = ty[2][0] if ty[1].split('::')[-1] in ('Arc', 'Rc', 'Box', 'MutexGuard') else (ty[2][1] if len(ty[2]) > 1 else ty[2][0])
            return t
        return UNINIT

    def project(self, st, v, p, vi=0):
        if p[0] == 'f':
            i = p[1]
            if isinstance(v, Adt):
                if i < len(v.f):
                    return v.f[i]
                return mk('top')
            if isinstance(v, T):
                return self.field(v, vi, i)
            if isinstance(v, (Ref, Seq, Lin, int)):
                return v      # transparent wrappers (Pin, Box internals)
            return mk('top')
        if p[0] == 'i':
            return self.index(st, v, p[1])
        if p[0] == 'sub':
            return self.sub(st, v, p[1], p[2])
        return mk('top')

    def read(self, st, cell, proj=()):
        v = self.load(st, cell)
        vi = 0
        for p in proj:
            if p[0] == 'v':
                vi = p[1]
                if isinstance(v, Adt) and v.vi != vi and v.key[0] != '@':
                    return mk('top')
                continue
            v = self.project(st, v, p, vi)
            vi = 0
        return v

    def deref(self, st, v):
        """the value a reference points at"""
        n = 0
        while isinstance(v, Ref) and n < 20:
            v = self.read(st, v.cell, v.proj)
            n += 1
            return v
        if isinstance(v, T):
            return self.load(st, ('D', v))
        return v

    def content(self, st, v):
        """follow all references: the underlying value"""
        n = 0
        while isinstance(v, Ref) and n < 20:
            v = self.read(st, v.cell, v.proj)
            n += 1
        if isinstance(v, T):
            ty = TY.get(v)
            if ty is not None and ty[0] == 'ref':
                v = self.load(st, ('D', v))
                return self.content(st, v)
        if isinstance(v, Adt) and v.key == '@guard':
            return self.content(st, self.guard_ref(v))
        if isinstance(v, Adt) and v.key.endswith('borrow::Cow'):
            return self.content(st, v.f[0])
        return v

    def write(self, st, cell, proj, val):
        if cell[0] == 'ent':
            st.event('ew', cell, proj, val)
        elif cell[0] == 'val' and not isinstance(cell[1], Seq):
            st.event('lostwrite', cell)
        elif cell[0] in ('D', 'in'):
            st.event('w', cell, proj)
        if not proj:
            st.mem[cell] = val
            return
        st.mem[cell] = self.update(st, self.load(st, cell), proj, val)

    def update(self, st, v, proj, val, vi=None):
        if not proj:
            return val
        p = proj[0]
        if p[0] == 'v':
            return self.update(st, v, proj[1:], val, p[1])
        if p[0] == 'f':
            if isinstance(v, T):
                e = self.expand(st, v, vi)
                if e is None:
                    if v is UNINIT:
                        n = p[1] + 1
                        e = adt('()', vi or 0, [UNINIT] * n)
                    else:
                        return mk('upd', v, proj, val)
                v = e
            if isinstance(v, Adt):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(UNINIT)
                f[p[1]] = self.update(st, f[p[1]], proj[1:], val)
                return adt(v.key, v.vi if vi is None else vi, f)
            return self.update(st, v, proj[1:], val)
        if p[0] == 'i':
            old = self.index(st, v, p[1])
            new = self.update(st, old, proj[1:], val)
            a = self.split(st, v, p[1])
            if a is not None:
                b = self.split(st, a[1], 1)
                if b is not None:
                    return seq(parts(a[0]) + (('v', new),) + parts(b[1]))
            return mk('upd', v, ('i', p[1]), new)
        if p[0] == 'sub':
            old = self.sub(st, v, p[1], p[2])
            new = self.update(st, old, proj[1:], val)
            a = self.split(st, v, p[2])
            if a is not None:
                b = self.split(st, a[0], p[1])
                if b is not None:
                    return seq(parts(b[0]) + parts(new) + parts(a[1]))
            return mk('upd', v, ('sub', p[1], p[2]), new)
        return mk('top')

    # ---------------------------------------------------------------- sequences
    def split(self, st, v, off):
        """split v after off elements, if there is a part boundary there"""
        if off == 0:
            return EMPTY, v
        ps = parts(v)
        pos = 0
        for i, p in enumerate(ps):
            if self.same(st, pos, off):
                return seq(ps[:i]), seq(ps[i:])
            if p[0] == 'rep' and isinstance(pos, int) and isinstance(off, int) and isinstance(p[2], int) and pos < off < pos + p[2]:
                return seq(ps[:i] + (('rep', p[1], off - pos),)), seq((('rep', p[1], pos + p[2] - off),) + ps[i + 1:])
            pos = ladd(pos, plen(p))
        if self.same(st, pos, off):
            return v, EMPTY
        # a prefix of an opaque sequence
        pos = 0
        for i, p in enumerate(ps):
            if p[0] == 't':
                d = ladd(off, pos, -1)
                lo, hi = self.rng(st, d)
                l2, h2 = self.rng(st, ladd(plen(p), d, -1))
                if lo >= 0 and l2 >= 0:
                    return (seq(ps[:i] + parts(self.mksub(p[1], 0, d))),
                            seq(parts(self.mksub(p[1], d, plen(p))) + ps[i + 1:]))
            if p[0] == 'rep':
                d = ladd(off, pos, -1)
                if self.rng(st, d)[0] >= 0 and self.rng(st, ladd(plen(p), d, -1))[0] >= 0:
                    return seq(ps[:i] + (('rep', p[1], d),)), seq((('rep', p[1], ladd(plen(p), d, -1)),) + ps[i + 1:])
            pos = ladd(pos, plen(p))
        return None

    def same(self, st, a, b):
        d = ladd(a, b, -1)
        if d == 0:
            return True
        if isinstance(d, int):
            return False
        lo, hi = self.rng(st, d)
        return lo == hi == 0

    def mksub(self, v, a, b):
        if a == 0 and b == slen(v):
            return v
        if a == b:
            return EMPTY
        if isinstance(v, T) and v.op == 'sub':
            return mk('sub', v.a[0], ladd(v.a[1], a), ladd(v.a[1], b))
        return mk('sub', v, a, b)

    def sub(self, st, v, a, b):
        v = self.content(st, v)
        if isinstance(v, Seq):
            x = self.split(st, v, b)
            if x is not None:
                y = self.split(st, x[0], a)
                if y is not None:
                    return y[1]
        if self.same(st, a, 0) and self.same(st, b, slen(v)):
            return v
        return self.mksub(v, a, b)

    def index(self, st, v, i):
        if isinstance(v, T) and v.op == 'sub':
            return self.index(st, v.a[0], ladd(v.a[1], i))
        if isinstance(v, Seq):
            pos = 0
            for p in v.p:
                if self.same(st, pos, i):
                    if p[0] == 'v':
                        return p[1]
                    if p[0] == 'rep':
                        return p[1]
                    if p[0] == 't':
                        return self.elem_at(p[1], 0)
                    break
                n = plen(p)
                if p[0] == 't':
                    d = ladd(i, pos, -1)
                    lo, _ = self.rng(st, d)
                    lo2, _ = self.rng(st, ladd(n, d, -1))
                    if lo >= 0 and lo2 >= 1:
                        return self.elem_at(p[1], d)
                if p[0] == 'rep':
                    d = ladd(i, pos, -1)
                    if self.rng(st, d)[0] >= 0 and self.rng(st, ladd(n, d, -1))[0] >= 1:
                        return p[1]
                pos = ladd(pos, n)
        return self.elem_at(v, i)

    def elem_at(self, v, i):
        if isinstance(v, T) and v.op == 'sub':
            v, i = v.a[0], ladd(v.a[1], i)
        r = mk('idx', v, i)
        ty = TY.get(v)
        if r not in TY and ty is not None:
            e = self.elem_type(ty)
            if e is not None:
                TY[r] = e
        return r

    def elem_type(self, ty):
        if ty[0] in ('slice', 'array'):
            return ty[1]
        if ty[0] == 'ref':
            return self.elem_type(ty[2])
        if ty[0] == 'str':
            return ('prim', 'u8')
        if ty[0] == 'adt':
            n = ty[1].split('::')[-1]
            if n in ('Vec', 'VecDeque') and ty[2]:
                return ty[2][0]
            if n == 'String':
                return ('prim', 'u8')
            if n == 'ArrayVec' and ty[2]:
                return self.elem_type(ty[2][0])
            if n == 'Cow' and ty[2]:
                return self.elem_type(ty[2][-1])
        return None

    # ---------------------------------------------------------------- facts
    def trange(self, t):
        """range of an atom from its own shape"""
        op = t.op
        if op in ('len', 'plen', 'count', 'chars', 'dmlen'):
            return (0, (1 << 32) - 1)
        if op == 'sum':
            r = self.trange(t.a[1]) if isinstance(t.a[1], T) else (None, None)
            if r[0] is not None and r[0] >= 0:
                return (0, 1 << 60)
            return (-(1 << 127), 1 << 127)
        if op == 'discr':
            a = self.adt_of(TY.get(t.a[0]))
            if a is not None and a.discr:
                return (min(a.discr), max(a.discr))
            return (-(1 << 127), 1 << 127)
        if op == 'frombe' or op == 'cast':
            r = irange(t.a[0])
            if r:
                return r
        if op == 'and' and isinstance(t.a[1], int) and t.a[1] >= 0:
            return (0, t.a[1])
        if op == 'bit7':
            return (0, 1)
        if op == 'low7':
            return (0, 127)
        if op == 'argc':
            return (0, 255)
        if op == 'rem' and isinstance(t.a[1], int) and t.a[1] > 0:
            return (0, t.a[1] - 1)
        if op in ('isvar', 'eqv', 'ge0', 'eq0', 'not', 'ovf', 'booland', 'boolor'):
            return (0, 1)
        ty = TY.get(t)
        if ty is not None:
            if ty[0] == 'prim':
                r = irange(ty[1])
                if r:
                    return r
            if ty[0] in ('bool',):
                return (0, 1)
            if ty[0] == 'char':
                return (0, 0x10ffff)
        return (-(1 << 127), 1 << 127)

    def atom(self, st, t):
        lo, hi = self.trange(t)
        r = st.facts.get(('rng', t))
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if t.op == 'discr':
            x = t.a[0]
            vi = self.variant(st, x)
            if vi is not None:
                a = self.adt_of(TY.get(x))
                d = a.discr[vi] if a is not None else vi
                return (d, d)
        ne = st.facts.get(('ne', t))
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        return (lo, hi)

    def norm(self, items):
        """canonical direction of a linear form"""
        k = items[0][1]
        s = 1 if k > 0 else -1
        return tuple((t, s * q) for t, q in items), s

    def rng1(self, st, c, items):
        lo = hi = c
        for t, k in items:
            a, b = self.atom(st, t)
            if k < 0:
                a, b = b, a
            lo += k * a
            hi += k * b
        if len(items) > 1:
            f, s = self.norm(items)
            r = st.facts.get(('lin', f))
            if r is not None:
                a, b = (r[0], r[1]) if s > 0 else (-r[1], -r[0])
                lo, hi = max(lo, c + a), min(hi, c + b)
        return lo, hi

    def rng(self, st, v):
        if isinstance(v, int):
            return (v, v)
        if isinstance(v, T):
            return self.rng1(st, 0, ((v, 1),))
        if isinstance(v, Lin):
            lo, hi = self.rng1(st, v.c, v.t)
            if len(v.t) > 1 and not (lo == hi):
                d0 = dict(v.t)
                for key, r in st.facts.items():
                    if key[0] != 'lin':
                        continue
                    f = key[1]
                    if not any(t in d0 for t, _ in f):
                        continue
                    for s in (1, -1):
                        # v = s*f + rest
                        d = dict(d0)
                        for t, k in f:
                            d[t] = d.get(t, 0) - s * k
                        rest = tuple((t, k) for t, k in sorted(d.items(), key=lambda x: x[0].uid) if k)
                        if len(rest) > len(v.t):
                            continue
                        a, b = self.rng1(st, v.c, rest) if rest else (v.c, v.c)
                        fa, fb = (r[0], r[1]) if s > 0 else (-r[1], -r[0])
                        lo, hi = max(lo, a + fa), min(hi, b + fb)
            return lo, hi
        return (-(1 << 127), 1 << 127)

    def related(self, st, v, lo, hi):
        """the range of a single quantity as the sums it is part of bound it"""
        c, items = (v.c, v.t) if isinstance(v, Lin) else (0, ((v, 1),)) if isinstance(v, T) else (0, ())
        if len(items) != 1:
            return lo, hi
        t, k = items[0]
        for key, r in st.facts.items():
            if key[0] == 'lin':
                n = next((m for x, m in key[1] if x is t), 0)
                if n and k % n == 0:
                    s = k // n
                    rest = tuple((x, -s * m) for x, m in key[1] if x is not t)
                    a, b = self.rng1(st, c, rest)
                    fa, fb = (s * r[0], s * r[1]) if s > 0 else (s * r[1], s * r[0])
                    lo, hi = max(lo, a + fa), min(hi, b + fb)
        return lo, hi

    def const(self, st, v):
        if isinstance(v, int):
            return v
        if isinstance(v, (T, Lin)):
            a, b = self.rng(st, v)
            if a == b:
                return a
        return None

    def variant(self, st, v):
        if isinstance(v, Adt):
            return v.vi
        if isinstance(v, T):
            r = st.facts.get(('var', v))
            if r is not None:
                return r
            a = self.adt_of(TY.get(v))
            if a is not None:
                if len(a.variants) == 1:
                    return 0
                ex = st.facts.get(('nvar', v))
                if ex:
                    left = [i for i in range(len(a.variants)) if i not in ex]
                    if len(left) == 1:
                        return left[0]
        return None

    def set_variant(self, st, v, vi):
        cur = self.variant(st, v)
        if cur is not None:
            return cur == vi
        if vi in (st.facts.get(('nvar', v)) or ()):
            return False
        st.facts[('var', v)] = vi
        return True

    def not_variant(self, st, v, vi):
        cur = self.variant(st, v)
        if cur is not None:
            return cur != vi
        ex = (st.facts.get(('nvar', v)) or frozenset()) | {vi}
        st.facts[('nvar', v)] = ex
        a = self.adt_of(TY.get(v))
        if a is not None and len(ex) >= len(a.variants):
            return False
        return True

    def add_range(self, st, v, lo, hi):
        """assume lo <= v <= hi; False if infeasible"""
        a, b = self.rng(st, v)
        if a > hi or b < lo:
            return False
        if isinstance(v, int):
            return True
        c, items = v.c if isinstance(v, Lin) else 0, v.t if isinstance(v, Lin) else ((v, 1),)
        lo, hi = lo - c, hi - c
        if len(items) == 1:
            t, k = items[0]
            if k > 0:
                lo2, hi2 = -(-lo // k), hi // k
            else:
                lo2, hi2 = -((-hi) // k) if False else -(hi // -k), (-lo) // -k
            x, y = self.atom(st, t)
            lo2, hi2 = max(x, lo2), min(y, hi2)
            if lo2 > hi2:
                return False
            if t.op == 'discr':
                ad = self.adt_of(TY.get(t.a[0]))
                if ad is not None:
                    for i, d in enumerate(ad.discr):
                        if not (lo2 <= d <= hi2):
                            if not self.not_variant(st, t.a[0], i):
                                return False
                    return True
            st.facts[('rng', t)] = (lo2, hi2)
            if t.op == 'bit7' and lo2 == hi2:
                return self.add_range(st, t.a[0], *((128, 255) if lo2 else (0, 127)))
            if t.op == 'cast' and lo2 == hi2 and isinstance(t.a[1], T):
                pass
            return True
        f, s = self.norm(items)
        if s < 0:
            lo, hi = -hi, -lo
        r = st.facts.get(('lin', f))
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi:
            return False
        st.facts[('lin', f)] = (lo, hi)
        # project the relation on atoms that are otherwise fixed
        for t, k in f:
            rest = tuple((u, q) for u, q in f if u is not t)
            a, b = self.rng1(st, 0, rest)
            if b - a < (1 << 40) and k in (1, -1):
                # k*t in [lo-b, hi-a]
                l2, h2 = lo - b, hi - a
                if k < 0:
                    l2, h2 = -h2, -l2
                x, y = self.atom(st, t)
                if l2 > x or h2 < y:
                    if max(l2, x) > min(h2, y):
                        return False
                    if t.op != 'discr':
                        st.facts[('rng', t)] = (max(l2, x), min(h2, y))
        return True

    def truth(self, st, b):
        """1/0 when decided, else None"""
        if isinstance(b, int):
            return b
        if isinstance(b, Lin):
            a, c = self.rng(st, b)
            return a if a == c else None
        if not isinstance(b, T):
            return None
        if b.op == 'ge0':
            lo, hi = self.rng(st, b.a[0])
            if lo < 0 <= hi:
                lo, hi = self.related(st, b.a[0], lo, hi)
            return 1 if lo >= 0 else 0 if hi < 0 else None
        if b.op == 'eq0':
            lo, hi = self.rng(st, b.a[0])
            if lo <= 0 <= hi and lo != hi:
                lo, hi = self.related(st, b.a[0], lo, hi)
            if lo == hi == 0:
                return 1
            if lo > 0 or hi < 0:
                return 0
            x = b.a[0]
            if isinstance(x, (T, Lin)):
                c, items = (x.c, x.t) if isinstance(x, Lin) else (0, ((x, 1),))
                if len(items) == 1:
                    t, k = items[0]
                    if (-c) % k == 0:
                        if (-c) // k in (st.facts.get(('ne', t)) or ()):
                            return 0
                        if t.op == 'discr':
                            ad = self.adt_of(TY.get(t.a[0]))
                            vi = ad.by_discr.get((-c) // k) if ad else None
                            if ad is not None and (vi is None or vi in (st.facts.get(('nvar', t.a[0])) or ())):
                                return 0
                    else:
                        return 0
                else:
                    f, s = self.norm(items)
                    if ('nelin', f, s * c) in st.facts:
                        return 0
            return None
        if b.op == 'not':
            r = self.truth(st, b.a[0])
            return None if r is None else 1 - r
        if b.op == 'booland':
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x == 0 or y == 0:
                return 0
            return 1 if x == 1 and y == 1 else None
        if b.op == 'boolor':
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x == 1 or y == 1:
                return 1
            return 0 if x == 0 and y == 0 else None
        if b.op == 'isvar':
            v = self.variant(st, b.a[0])
            if v is not None:
                return int(v == b.a[1])
            if b.a[1] in (st.facts.get(('nvar', b.a[0])) or ()):
                return 0
            return None
        r = st.facts.get(('b', b))
        if r is not None:
            return r
        lo, hi = self.atom(st, b)
        return lo if lo == hi else None

    def assume(self, st, b, val):
        """constrain st so that the boolean b is val; False if infeasible"""
        cur = self.truth(st, b)
        if cur is not None:
            return cur == val
        if isinstance(b, Lin):
            return self.add_range(st, b, val, val)
        if not isinstance(b, T):
            return True
        if b.op == 'ge0':
            if val:
                return self.add_range(st, b.a[0], 0, 1 << 127)
            return self.add_range(st, b.a[0], -(1 << 127), -1)
        if b.op == 'eq0':
            if val:
                return self.add_range(st, b.a[0], 0, 0)
            x = b.a[0]
            c, items = (x.c, x.t) if isinstance(x, Lin) else (0, ((x, 1),))
            if len(items) == 1:
                t, k = items[0]
                if (-c) % k == 0:
                    w = (-c) // k
                    if t.op == 'discr':
                        ad = self.adt_of(TY.get(t.a[0]))
                        if ad is not None:
                            vi = ad.by_discr.get(w)
                            return True if vi is None else self.not_variant(st, t.a[0], vi)
                    st.facts[('ne', t)] = (st.facts.get(('ne', t)) or frozenset()) | {w}
                    lo, hi = self.atom(st, t)
                    return lo <= hi
                return True
            f, s = self.norm(items)
            st.facts[('nelin', f, s * c)] = True
            # sharpen one-sided relations: f != -c
            lo, hi = self.rng(st, x)
            if lo == 0:
                return self.add_range(st, x, 1, 1 << 127)
            if hi == 0:
                return self.add_range(st, x, -(1 << 127), -1)
            return True
        if b.op == 'not':
            return self.assume(st, b.a[0], 1 - val)
        if b.op == 'booland' and val:
            return self.assume(st, b.a[0], 1) and self.assume(st, b.a[1], 1)
        if b.op == 'boolor' and not val:
            return self.assume(st, b.a[0], 0) and self.assume(st, b.a[1], 0)
        if b.op == 'isvar':
            return self.set_variant(st, b.a[0], b.a[1]) if val else self.not_variant(st, b.a[0], b.a[1])
        st.facts[('b', b)] = val
        if b.op in ('booland', 'boolor'):
            return True
        return True

    def fork(self, st, b):
        """[(state, 0/1)] for the feasible truth values of b"""
        r = self.truth(st, b)
        if r is not None:
            return [(st, 1 if r else 0)]
        o = []
        s2 = st.copy()
        if self.assume(st, b, 1):
            o.append((st, 1))
        if self.assume(s2, b, 0):
            o.append((s2, 0))
        return o

    def fork_variant(self, st, v, n=None):
        """[(state, variant)]"""
        r = self.variant(st, v)
        if r is not None:
            return [(st, r)]
        if n is None:
            a = self.adt_of(TY.get(v))
            n = len(a.variants) if a is not None else 2
        ex = st.facts.get(('nvar', v)) or ()
        o = []
        for i in range(n):
            if i in ex:
                continue
            s = st.copy()
            if self.set_variant(s, v, i):
                o.append((s, i))
        return o

    def payload(self, st, v, vi, i=0):
        """field i of v, known to be of variant vi"""
        if isinstance(v, Adt):
            return v.f[i] if i < len(v.f) else UNIT
        if isinstance(v, T):
            return self.field(v, vi, i)
        return mk('top')

    def lnot(self, b):
        if isinstance(b, int):
            return 1 - b
        if isinstance(b, T) and b.op == 'not':
            return b.a[0]
        return mk('not', b)

    def cmp(self, st, op, a, b):
        if lparts(a) is not None and lparts(b) is not None and not self.isfloat(a) and not self.isfloat(b):
            # the top bit of a byte
            d = ladd(a, b, -1)
            if op == 'Eq':
                if isinstance(d, int):
                    return int(d == 0)
                c = mk('eq0', self.normsign(d))
            elif op == 'Ne':
                if isinstance(d, int):
                    return int(d != 0)
                c = self.lnot(mk('eq0', self.normsign(d)))
            elif op == 'Ge':
                c = self.ge0(d)
            elif op == 'Gt':
                c = self.ge0(ladd(d, -1))
            elif op == 'Le':
                c = self.ge0(lmul(d, -1))
            elif op == 'Lt':
                c = self.ge0(ladd(lmul(d, -1), -1))
            else:
                return mk('cmp', op, a, b)
            r = self.truth(st, c)
            return c if r is None else r
        if a == b and op in ('Eq',) and not self.isfloat(a):
            return 1
        return mk('bcmp', op, a, b)

    def isfloat(self, v):
        if isinstance(v, T):
            ty = TY.get(v)
            return v.op == 'float' or (ty is not None and ty[0] == 'prim' and ty[1] in ('f32', 'f64'))
        return False

    def normsign(self, d):
        if isinstance(d, Lin) and d.t[0][1] < 0:
            return lmul(d, -1)
        return d

    def ge0(self, d):
        if isinstance(d, int):
            return int(d >= 0)
        # x >= 128 for a byte is its top bit
        if isinstance(d, Lin) and len(d.t) == 1:
            t, k = d.t[0]
            ty = TY.get(t)
            if ty == ('prim', 'u8'):
                if k == 1 and d.c == -128:
                    return mk('eq0', ladd(mk('bit7', t), -1))
                if k == -1 and d.c == 127:
                    return mk('eq0', mk('bit7', t))
        return mk('ge0', d)

    # ---------------------------------------------------------------- arithmetic
    def fits(self, st, v, n):
        r = irange(n)
        if r is None:
            return True
        lo, hi = self.rng(st, v)
        if not (r[0] <= lo and hi <= r[1]):
            lo, hi = self.related(st, v, lo, hi)
        return r[0] <= lo and hi <= r[1]

    def cast_int(self, st, v, frm, to):
        r = irange(to)
        if r is None or lparts(v) is None:
            if to in ('f32', 'f64'):
                return typed(mk('tofloat', v), ('prim', to))
            return mk('cast', to, v)
        if isinstance(v, int):
            w = r[1] - r[0] + 1
            return (v - r[0]) % w + r[0]
        if self.fits(st, v, to):
            return v
        return typed(mk('cast', to, v), ('prim', to))

    def binop(self, st, op, a, b, ty):
        n = ty[1] if ty and ty[0] == 'prim' else ('bool' if ty and ty[0] == 'bool' else None)
        isf = n in ('f32', 'f64') or self.isfloat(a) or self.isfloat(b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isf:
                return mk('fcmp', base, a, b)
            if isinstance(a, Adt) and isinstance(b, Adt) and base in ('Eq', 'Ne') and not a.f and not b.f:
                return int((a == b) == (base == 'Eq'))
            # integer compare of boolean terms
            if base in ('Eq', 'Ne') and n == 'bool':
                if isinstance(b, int):
                    x = a if b else self.lnot(a)
                elif isinstance(a, int):
                    x = b if a else self.lnot(b)
                else:
                    x = mk('eqv', a, b)
                return x if base == 'Eq' else self.lnot(x)
            return self.cmp(st, base, a, b)
        if isf:
            nm = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}.get(base, 'f' + base)
            if nm in ('fadd', 'fmul') and getattr(a, 'uid', 0) > getattr(b, 'uid', 0):
                a, b = b, a
            return typed(mk(nm, a, b), ('prim', n or 'f64'))
        if base in ('BitAnd', 'BitOr', 'BitXor') and n == 'bool':
            if base == 'BitAnd':
                if a == 0 or b == 0:
                    return 0
                if a == 1:
                    return b
                if b == 1:
                    return a
                return mk('booland', a, b)
            if base == 'BitOr':
                if a == 1 or b == 1:
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
                return mk('boolor', a, b)
            if isinstance(a, int):
                return self.lnot(b) if a else b
            if isinstance(b, int):
                return self.lnot(a) if b else a
            return self.lnot(mk('eqv', a, b))
        if isinstance(a, Ref) or isinstance(b, Ref) or lparts(a) is None or lparts(b) is None:
            return typed(mk('bin', base, a, b), ty)
        if base == 'Add':
            r = ladd(a, b)
        elif base == 'Sub':
            r = ladd(a, b, -1)
        elif base == 'Mul':
            ca, cb = self.const(st, a), self.const(st, b)
            if cb is not None:
                r = lmul(a, cb)
            elif ca is not None:
                r = lmul(b, ca)
            else:
                r = typed(mk('mul', a, b), ty)
        elif base == 'BitAnd' and isinstance(a, int) and isinstance(b, int):
            r = a & b
        elif base == 'BitOr' and isinstance(a, int) and isinstance(b, int):
            r = a | b
        elif base == 'BitXor' and isinstance(a, int) and isinstance(b, int):
            r = a ^ b
        elif base == 'BitAnd':
            if isinstance(a, int):
                a, b = b, a
            if b == 128 and n == 'u8' and isinstance(a, T):
                return lmul(mk('bit7', a), 128)
            if b == 127 and n == 'u8' and isinstance(a, T):
                lo, hi = self.rng(st, a)
                return a if hi <= 127 else mk('low7', a)
            if isinstance(b, int) and b >= 0:
                lo, hi = self.rng(st, a)
                if lo >= 0 and (b + 1) & b == 0 and hi <= b:
                    return a
            return typed(mk('and', a, b), ty)
        elif base == 'BitOr':
            if isinstance(a, int):
                a, b = b, a
            if b == 0:
                return a
            if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0:
                lo, hi = self.rng(st, a)
                if lo >= 0 and hi < b:
                    return ladd(a, b)
            return typed(mk('or', a, b), ty)
        elif base in ('Shr', 'Shl'):
            if isinstance(a, int) and isinstance(b, int):
                r = a >> b if base == 'Shr' else a << b
            elif base == 'Shr' and b == 7 and n == 'u8' and isinstance(a, T):
                return mk('bit7', a)
            elif base == 'Shl' and isinstance(b, int):
                r = lmul(a, 1 << b)
                if n and not self.fits(st, r, n):
                    return typed(mk('shl', a, b), ty)
                return r
            else:
                return typed(mk(base.lower(), a, b), ty)
        elif base in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if base == 'Div' else a - q * b
            else:
                r = typed(mk(base.lower(), a, b), ty)
        elif base in ('Cmp',):
            return mk('ord', a, b)
        elif base == 'Offset':
            return mk('top')
        else:
            return typed(mk('bin', base, a, b), ty)
        if op.endswith('WithOverflow'):
            if n and self.fits(st, r, n):
                return adt('()', 0, (r, 0))
            if n and isinstance(r, int):
                return adt('()', 0, (self.cast_int(st, r, n, n), 1))
            return adt('()', 0, (r, mk('ovf', n, r)))
        if n and not op.endswith('Unchecked'):
            if isinstance(r, int):
                return self.cast_int(st, r, n, n)
            if not self.fits(st, r, n):
                return typed(mk('wrap', n, r), ty)
        return r

    def added(self, st, ty, a, b, k):
        """a checked addition made by the library on the caller's behalf"""
        if lparts(a) is None or lparts(b) is None or not (ty and ty[0] == 'prim' and irange(ty[1])):
            return k(st, typed(mk('iop', 'add', a, b), ty))
        r = self.binop(st, 'AddWithOverflow', a, b, ty)
        v, o = r.f
        if not isinstance(o, T):
            if o:
                self.panic(st, 'overflow', None)
                return []
            return k(st, v)
        out = []
        for s, x in self.fork_ovf(st, o):
            if x:
                self.panic(s, 'overflow', o)
            else:
                out += k(s, v)
        return out

    # ---------------------------------------------------------------- operands, places
    def place(self, st, fr, pl):
        cell = ('L', fr.fid, pl[0])
        proj = ()
        ty = self.fty(fr, fr.body['locals'][pl[0]])
        vi = 0
        for e in pl[1:]:
            if e == '*':
                v = self.read(st, cell, proj)
                if isinstance(v, Ref):
                    cell, proj = v.cell, v.proj
                    ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else (ty[2][0] if ty and ty[0] == 'adt' and ty[2] else None)
                elif ty is not None and ty[0] == 'adt':
                    ty = ty[2][0] if ty[2] else None      # Box is transparent
                else:
                    if isinstance(v, Adt) and v.key in ('@guard',):
                        g = self.guard_ref(v)
                        cell, proj = g.cell, g.proj
                    elif isinstance(v, T):
                        if ty is not None:
                            typed(v, ty)
                        cell, proj = ('D', v), ()
                    else:
                        cell, proj = ('val', v), ()
                    ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
                vi = 0
                continue
            k = e[0]
            if k == 'v':
                proj += (('v', e[1]),)
                vi = e[1]
            elif k == 'f':
                # Box / Pin / NonNull / Unique internals are transparent
                if ty is not None and ty[0] == 'adt' and ty[1].split('::')[-1] in ('Box', 'Pin', 'Unique', 'NonNull', 'MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
                    v = self.read(st, cell, proj)
                    if not (isinstance(v, Adt) and v.key == ty[1]):
                        ty = self.fty(fr, e[2])
                        continue
                proj += (('f', e[1]),)
                ty = self.fty(fr, e[2])
                vi = 0
            elif k == 'i':
                iv = self.read(st, ('L', fr.fid, e[1]))
                proj += (('i', iv),)
                ty = self.elem_type(ty) if ty else None
            elif k == 'c':
                if e[2]:
                    n = slen(self.read(st, cell, proj))
                    proj += (('i', ladd(n, -e[1])),)
                else:
                    proj += (('i', e[1]),)
                ty = self.elem_type(ty) if ty else None
            elif k == 's':
                n = slen(self.read(st, cell, proj))
                b = ladd(n, -e[2]) if e[3] else e[2]
                proj += (('sub', e[1], b),)
        # a reference to opaque data keeps its type
        return cell, proj, ty

    def rdplace(self, st, fr, pl):
        cell, proj, ty = self.place(st, fr, pl)
        v = self.read(st, cell, proj)
        if isinstance(v, T) and ty is not None and v not in TY and v not in (MOVED, UNINIT):
            TY[v] = ty
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c':
            return self.rdplace(st, fr, o[1])
        if k == 'm':
            cell, proj, ty = self.place(st, fr, o[1])
            v = self.read(st, cell, proj)
            if isinstance(v, T) and ty is not None and v not in TY and v not in (MOVED, UNINIT):
                TY[v] = ty
            if self.owns(v):
                # only owning values need their move tracked, for their drop
                if not proj:
                    st.mem[cell] = MOVED
                else:
                    st.mem[cell] = self.update(st, self.load(st, cell), proj, MOVED)
            return v
        if k == 'k':
            return self.constant(st, fr, o[1])
        return mk('rt')

    def owns(self, v):
        return isinstance(v, (Adt,)) and find(v, lambda x: isinstance(x, Adt) and x.key in ('@guard', '@owned', '@mguard')) is not None

    def constant(self, st, fr, c):
        k = c['k']
        if k == 'int':
            return c['v']
        if k == 'float':
            fb = c['bits']
            n = self.fty(fr, c['t'])[1]
            import struct
            v = struct.unpack('>d' if n == 'f64' else '>f', (fb & ((1 << (8 * WIDTH[n])) - 1)).to_bytes(WIDTH[n], 'big'))[0]
            return typed(mk('float', repr(v)), self.fty(fr, c['t']))
        if k == 'str':
            return rval(typed(bytes_seq(c['s'].encode()), ('str',)))
        if k in ('bytes', 'refarr'):
            return rval(bytes_seq(bytes(c['b'])))
        ty = self.fty(fr, c['t']) if 't' in c else None
        if k == 'zst':
            f = c.get('f')
            if f:
                return self.fnitem(fr, f)
            return self.zst(ty)
        if k == 'agg':
            f = [self.constant(st, fr, x) for x in c['f']]
            if ty[0] == 'tuple':
                return adt('()', 0, f)
            if ty[0] == 'array':
                return seq([('v', x) for x in f])
            if ty[0] == 'ref':
                t2 = ty[2]
                return rval(seq([('v', x) for x in f]) if t2[0] in ('array', 'slice') else adt(t2[1] if t2[0] == 'adt' else '()', c['variant'], f))
            return adt(ty[1], c.get('variant', 0), f)
        if k == 'uneval':
            if c.get('v') is not None:
                return self.constant(st, fr, dict(c['v'], t=c['v'].get('t', c['t'])))
            v = self.eval_const(st, fr, c)
            if v is not None:
                return v
            return typed(mk('const', c['n']), ty)
        if k == 'fnptr':
            f = c.get('f')
            if f:
                return self.fnitem(fr, f)
        t = str(c.get('s', c.get('n', k)))
        if ty is not None and ty[0] == 'ref' and ty[2] == ('str',) and len(t) > 1 and t[0] == t[-1] == '"':
            # a string in a pattern
            return rval(typed(bytes_seq(unescape(t[1:-1]).encode()), ('str',)))
        return typed(mk('const', t), ty)

    def zst(self, ty):
        if ty is None or ty == ('tuple', ()):
            return UNIT
        if ty[0] == 'adt':
            a = self.F.adts.get(ty[1])
            if a is not None and len(a.variants) == 1:
                return adt(ty[1], 0, [UNIT] * len(a.variants[0]['f']))
            return adt(ty[1], 0)
        if ty[0] == 'closure':
            return self.closure(ty[1], {}, ())
        if ty[0] == 'array':
            return EMPTY
        return UNIT

    def fnitem(self, fr, f):
        c = self.callee(fr, f)
        t = mk('fnitem', c.rk or c.key, repr(c.ra if c.rk else c.args))
        self.fnitems[t] = c
        return t

    def closure(self, key, subst, caps, kind='@clo'):
        kk = (kind, key, tuple(sorted(subst.items())))
        i = self.clo_idx.get(kk)
        if i is None:
            i = len(self.clos)
            self.clos.append((key, dict(subst)))
            self.clo_idx[kk] = i
        return adt(kind, i, caps)

    def eval_const(self, st, fr, c):
        if 'p' in c and c['p'] is not None:
            fn = self.F.fns.get(c['d'])
            if fn is None or c['p'] >= len(fn['promoted']):
                return None
            body = fn['promoted'][c['p']]
            sub = fr.subst
        else:
            fn = self.F.fns.get(c['d'])
            if fn is None:
                return None
            body = fn['body']
            args = [subst_ty(fr.fn['crate'].arg(x), fr.subst) for x in (c.get('a') or [])]
            sub = dict(zip(fn['g'], args))
        ck = (c['d'], c.get('p'), tuple(sorted(sub.items())))
        if ck in self.promo:
            return self.promo[ck]
        s = State()
        res = []

        def k(st2, v):
            res.append((st2, v))
            return []
        f = Frame()
        f.fn, f.body, f.subst, f.fid, f.bb, f.k, f.line = fn, body, sub, s.fresh('fid'), 0, k, 0
        s.frames = [f]
        old, self.terms = self.terms, []
        self.explore([s])
        self.terms = old
        v = None
        if len(res) == 1:
            s2, v = res[0]
            v = self.freeze(s2, v)
        self.promo[ck] = v
        return v

    def freeze(self, st, v):
        """references to locals of a constant's body become references to pure values"""
        if isinstance(v, Ref):
            if v.cell[0] == 'val':
                return v
            return rval(self.freeze(st, self.read(st, v.cell, v.proj)))
        if isinstance(v, Adt):
            return adt(v.key, v.vi, [self.freeze(st, x) for x in v.f])
        if isinstance(v, Seq):
            return seq([('v', self.freeze(st, p[1])) if p[0] == 'v' else p for p in v.p])
        return v

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'raw':
            cell, proj, ty = self.place(st, fr, rv[2])
            v = self.read(st, cell, proj)
            if isinstance(v, T) and ty is not None and v not in TY and v not in (MOVED, UNINIT):
                TY[v] = ty
            return ref(cell, proj)
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ty = self.opty(fr, rv[2])
            if ty is None or ty[0] not in ('prim', 'bool', 'char'):
                ty = self.opty(fr, rv[3]) or ty
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if dty == ('bool',):
                    return self.lnot(a)
                if isinstance(a, int) and dty[0] == 'prim':
                    return self.cast_int(st, ~a, None, dty[1])
                return typed(mk('bnot', a), dty)
            if rv[1] == 'Neg':
                if self.isfloat(a):
                    if isinstance(a, T) and a.op == 'fneg':
                        return a.a[0]
                    return typed(mk('fneg', a), dty)
                return lmul(a, -1)
            if rv[1] == 'PtrMetadata':
                return slen(self.content(st, a))
            return typed(mk('un', rv[1], a), dty)
        if k == 'cast':
            a = self.operand(st, fr, rv[2])
            kind = rv[1]
            to = self.fty(fr, rv[3])
            if kind == 'IntToInt':
                frm = self.opty(fr, rv[2])
                if to[0] == 'prim':
                    if isinstance(a, T) and a.op in ('ge0', 'eq0', 'not', 'isvar', 'eqv', 'booland', 'boolor') or \
                       (frm == ('bool',) and isinstance(a, T)):
                        TY.setdefault(a, ('bool',))
                        return a
                    return self.cast_int(st, a, frm, to[1])
                return a
            if kind in ('IntToFloat',):
                return typed(mk('tofloat', a), to)
            if kind == 'FloatToInt':
                return typed(mk('toint', to[1], a), to)
            if kind == 'FloatToFloat':
                return a if self.opty(fr, rv[2]) == to else typed(mk('cast', to[1] if to[0] == 'prim' else str(to), a), to)
            return a
        if k == 'discr':
            v = self.rdplace(st, fr, rv[1])
            return self.discr(st, v)
        if k == 'agg':
            d = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if d[0] == 'tuple':
                return adt('()', 0, ops)
            if d[0] == 'array':
                return seq([('v', o) for o in ops])
            if d[0] == 'adt':
                return adt(d[1], d[2], ops)
            if d[0] in ('closure', 'coroutine', 'coroclosure', 'coroutineclosure'):
                return self.closure(d[1], fr.subst, ops, '@clo' if d[0] == 'closure' else '@coro')
            return mk('top')
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, dict):
                n = n.get('c')
            if isinstance(n, int) and n <= 64:
                return seq([('v', v)] * n)
            return seq([('rep', v, n if isinstance(n, int) else mk('constn', str(n)))])
        if k == 'tls':
            return mk('tls', str(rv[1]))
        return mk('top')

    def opty(self, fr, o):
        if o[0] in 'cm' and o[0] != 'k':
            pl = o[1]
            last = None
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == 'f':
                    last = self.fty(fr, e[2])
                elif e == '*' and last is not None:
                    last = last[2] if last[0] in ('ref', 'ptr') else None
                elif isinstance(e, list) and e[0] in 'ic' and last is not None:
                    last = self.elem_type(last)
            if len(pl) == 1:
                return self.fty(fr, fr.body['locals'][pl[0]])
            if last is not None:
                return last
            ty = self.fty(fr, fr.body['locals'][pl[0]])
            for e in pl[1:]:
                if ty is None:
                    return None
                if e == '*':
                    ty = ty[2] if ty[0] in ('ref', 'ptr') else (ty[2][0] if ty[0] == 'adt' and ty[2] else None)
                elif e[0] in 'ic':
                    ty = self.elem_type(ty)
            return ty
        if o[0] == 'k' and 't' in o[1]:
            return self.fty(fr, o[1]['t'])
        return None

    def discr(self, st, v):
        if isinstance(v, Adt):
            a = self.F.adts.get(v.key)
            if a is not None and v.vi < len(a.discr):
                return a.discr[v.vi]
            return v.vi
        if isinstance(v, T):
            vi = self.variant(st, v)
            if vi is not None:
                a = self.adt_of(TY.get(v))
                return a.discr[vi] if a is not None else vi
            return mk('discr', v)
        return mk('discr', mk('top'))

    # ---------------------------------------------------------------- control
    def loops_of(self, fr):
        key = id(fr.body)
        r = self.loopinfo.get(key)
        if r is not None:
            return r
        blocks = fr.body['blocks']
        succ = [self.succ(b) for b in blocks]
        # iterative dominators on reachable blocks
        order, seen, stack = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        pos = {n: i for i, n in enumerate(order)}
        pred = {n: [] for n in order}
        for n in order:
            for s in succ[n]:
                pred[s].append(n)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for p in pred[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while pos[a] > pos[b]:
                                    a = idom[a]
                                while pos[b] > pos[a]:
                                    b = idom[b]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        heads = {}
        for n in order:
            for s in succ[n]:
                if dom(s, n):
                    body = heads.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        self.loopinfo[key] = heads
        return heads

    def succ(self, b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [t[2]]
        return []

    def where(self, st):
        if not st.frames:
            return '?'
        f = st.frames[-1]
        return '%s:%s' % (f.fn['k'], f.line)

    def end(self, kind, val, st):
        self.terms.append(Out(kind, val, st, self.where(st)))
        return []

    def panic(self, st, kind, info=None):
        return self.end('panic', (kind, info), st)

    def explore(self, work):
        """run until every path has ended or stopped; returns the stopped states"""
        stopped = []
        work = list(work)
        while work:
            st = work.pop()
            if st.stop is not None:
                stopped.append(st)
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit('step limit')
            if not self.steps & 31 and time.process_time() > self.deadline:
                raise Limit('time limit')
            if not st.frames:
                continue
            work.extend(self.step(st))
        return stopped

    def jump(self, st, bb):
        st.frames[-1].bb = bb
        return self.arrive(st)

    def arrive(self, st):
        fr = st.frames[-1]
        bb = fr.bb
        if st.loops and st.loops[-1][0] == fr.fid:
            _, head, body = st.loops[-1]
            if bb == head:
                st.stop = ('back',)
                return [st]
            if bb not in body:
                st.stop = ('exit',)
                return [st]
        heads = self.loops_of(fr)
        if bb in heads:
            if self.cut is not None:
                r = self.cut(st, fr, bb)
                if r == 'go':
                    return [st]     # walk into the loop pass by pass
                if r == 'end':
                    return self.end('cut', None, st)
                if r:
                    return []
            return self.mir_loop(st, fr.fid, bb, heads[bb])
        return [st]

    def mir_loop(self, st, fid, head, body):
        name = (st.frames[-1].fn['k'].split('::')[-1], head, st.fresh(('loop', fid, head)))
        saved = st.loops

        def run(g):
            g.loops = saved + ((fid, head, body),)
            g.frames[-1].bb = head
            stopped = []
            work = [g]
            first = True
            work = self.step(g)
            stopped = self.explore(work)
            backs, exits = [], []
            for s in stopped:
                if s.stop[0] == 'back':
                    s.stop = None
                    backs.append(s)
                else:
                    exits.append(s)
            return backs, exits
        exits, _ = self.fix_loop(st, name, run)
        out = []
        for s in exits:
            if s.stop is not None and s.stop[0] == 'exit':
                s.stop = None
                s.loops = saved
                out.extend(self.arrive(s))
            else:
                s.loops = saved
                out.append(s)
        return out

    # ---- loop summaries -------------------------------------------------
    def diff(self, a, b, path=()):
        """paths at which two values differ"""
        if a is b or a == b:
            return []
        if isinstance(a, Adt) and isinstance(b, Adt) and a.key == b.key and a.vi == b.vi and len(a.f) == len(b.f) and a.key != '@it':
            o = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                o += self.diff(x, y, path + (('f', i),))
            return o
        return [path]

    def it_concrete(self, v):
        """an iterator over known elements"""
        from .models import it_concrete
        return it_concrete(v)

    def fix_loop(self, st, name, run, depth=0):
        """Summarise a loop. run(state at head) -> (states back at the head, exit states).
        Returns (exit states with the loop's effect resolved, head state)."""
        mask = []
        tries = 0
        for cell, v in list(st.mem.items()):
            # a stored value of known variant: let the loop work on its fields
            if cell[0] == 'ent' and isinstance(v, T):
                vi = st.facts.get(('var', v))
                if vi is not None:
                    x = self.expand(st, v, vi)
                    if x is not None:
                        st.mem[cell] = x
        while True:
            tries += 1
            if tries > 12:
                raise Limit('loop %r does not stabilise' % (name,))
            g = st.copy()
            slots = self.havoc(g, st, mask, name)
            ev0 = g.ev
            saved_terms, self.terms = self.terms, []
            gh = g.copy()
            backs, exits = run(g)
            new_terms, self.terms = self.terms, saved_terms
            newmask = list(mask)
            grew = False
            conc = bool(backs) and not mask
            for b in backs:
                has = False
                for cell, v in gh.mem.items():
                    w = b.mem.get(cell)
                    if w is None or w is v:
                        continue
                    if w is MOVED and not self.owns(v):
                        continue
                    for p in self.diff(v, w):
                        s = (cell, p)
                        if not mask and any(self.it_concrete(self.read(gh, cell, p[:i])) for i in range(len(p), max(len(p) - 2, -1), -1)):
                            has = True
                        if not any(c == cell and p[:len(q)] == q for c, q in newmask):
                            newmask = [x for x in newmask if not (x[0] == cell and x[1][:len(p)] == p)]
                            newmask.append(s)
                            grew = True
                conc = conc and has
            if conc and depth < 80:
                # known elements: unroll
                self.terms.extend(new_terms)
                out = list(exits)
                head = gh
                for b in backs:
                    e, h = self.fix_loop(b, name, run, depth + 1)
                    out.extend(e)
                    head = h
                return out, head
            if grew:
                # remember how the slots were seen to change, to choose the shape of the havoc
                for b in backs:
                    for cell, p in newmask:
                        self.shape.setdefault((name, cell, p), set()).add(self.shape_of(st, gh, b, cell, p))
                mask = newmask
                continue
            break
        sub, colls, deltas = self.resolve(st, gh, backs, mask, slots, name)
        self.terms.extend(o for o in new_terms if not self.bounded(o, deltas, colls))
        alts = frozenset(tuple(b.events(ev0)) for b in backs)
        out = []
        for e in exits + [gh]:
            whole = None
            for c, (cell, p) in colls:
                it = self.read(e, cell, p) if e is not gh else None
                if it is None:
                    whole = True
                else:
                    from .models import it_status
                    whole = it_status(it) == 'done'
                break
            s2 = sub(True if whole is None else whole)

            def f(x):
                if isinstance(x, T) and x in s2:
                    return s2[x]
                if isinstance(x, tuple) and x and x[0] == 'star' and x in s2:
                    return s2[x]
                return None
            memo = {}
            if s2:
                for c in list(e.mem):
                    e.mem[c] = rebuild(e.mem[c], f, memo)
                e.facts = {(k if not s2 else tuple(rebuild(x, f, memo) if isinstance(x, (T,)) else x for x in k)): v
                           for k, v in e.facts.items()}
                e.facts = {k: v for k, v in e.facts.items() if not (k[0] in ('rng', 'ne', 'b', 'var', 'nvar') and not isinstance(k[1], T))}
            own = e.events(ev0)
            e.ev = st.ev
            if any(alts):
                e.event('loop', name, tuple(c for c, _ in colls), rebuild(alts, f, memo) if s2 else alts, whole is not False)
            for x in own:
                e.ev = (e.ev, rebuild(x, f, memo) if s2 else x)
            out.append(e)
        gh = out.pop()
        return out, gh

    shape = {}
    acctype = {}

    def shape_of(self, st, gh, b, cell, p):
        v, w = self.read(gh, cell, p), self.read(b, cell, p)
        if isinstance(v, Adt) and v.key == '@it':
            return 'it'
        if isinstance(w, Adt) and w.key == '@it':
            return 'it'
        if isinstance(v, Seq) or isinstance(w, Seq):
            a, c = parts(v), parts(w)
            if c[:len(a)] == a:
                return 'seq'
            return 'lv'
        if lparts(v) is not None and lparts(w) is not None and not isinstance(v, Ref) and not self.isfloat(v) and not self.isfloat(w):
            if isinstance(v, int) or isinstance(w, int) or isinstance(v, Lin) or isinstance(w, Lin):
                if isinstance(v, T) and v.op in ('UNINIT', 'MOVED') or isinstance(w, T) and w.op in ('UNINIT', 'MOVED'):
                    return 'lv'
                # only counters: the change must be an affine function of the old value
                d = ladd(w, v, -1)
                return 'num'
        return 'lv'

    def slot_type(self, st, cell, p):
        ty = None
        if cell[0] == 'L':
            for f in st.frames:
                if f.fid == cell[1]:
                    ty = self.fty(f, f.body['locals'][cell[2]])
        elif cell[0] == 'HA':
            ty = self.acctype.get(cell)
        elif cell[0] == 'H':
            return None
        else:
            v = self.load(st, cell)
            ty = TY.get(v) if isinstance(v, T) else (('adt', v.key, ()) if isinstance(v, Adt) and v.key[0] != '@' else None)
            if ty is None:
                v0 = mk('deref', cell[1]) if cell[0] == 'D' else None
                ty = TY.get(v0)
        vi = 0
        for e in p:
            if e[0] == 'f':
                ty = self.ftype(ty, vi, e[1]) if ty else None
                vi = 0
            elif e[0] == 'v':
                vi = e[1]
            else:
                ty = None
        return ty

    def havoc(self, g, st, mask, name):
        slots = {}
        for cell, p in mask:
            v = self.read(st, cell, p)
            shapes = self.shape.get((name, cell, p), {'lv'})
            sid = (name, cell, p)
            ty = self.slot_type(st, cell, p)
            if shapes == {'it'} and isinstance(v, Adt) and v.key == '@it':
                from .models import it_havoc
                nv = it_havoc(self, g, v, name)
                slots[(cell, p)] = ('it', v, None)
            elif shapes == {'num'}:
                t = mk('lsum', name, (cell, p))
                if ty is not None and ty[0] == 'prim' and v == 0:
                    typed(t, ty)
                nv = ladd(v, t)
                if ty is not None and ty[0] == 'prim' and irange(ty[1]):
                    if v != 0:
                        lo, hi = irange(ty[1])
                        self.add_range(g, nv, lo, hi)
                slots[(cell, p)] = ('num', v, t)
            elif shapes == {'seq'}:
                star = ('star', name, (cell, p))
                nv = seq(parts(v) + (star,))
                slots[(cell, p)] = ('seq', v, star)
            else:
                nv = mk('lv', name, (cell, p))
                if ty is not None:
                    typed(nv, ty)
                elif isinstance(v, Adt) and v.key[0] != '@' and v.key != '()':
                    typed(nv, ('adt', v.key, ()))
                elif isinstance(v, T) and v in TY:
                    typed(nv, TY[v])
                slots[(cell, p)] = ('lv', v, nv)
            g.mem[cell] = self.update(g, g.mem.get(cell, self.load(st, cell)), p, nv)
        if mask:
            # facts about elements of an earlier pass do not carry over
            g.facts = {k: v for k, v in g.facts.items()
                       if not (isinstance(k[1], T) and k[1].op != 'args' and find(k[1], lambda x: isinstance(x, T) and x.op == 'elem' and not isinstance(x.a[1], int)))}
        return slots

    def resolve(self, st, gh, backs, mask, slots, name):
        from .models import it_colls, it_index
        colls = []
        for cell, p in mask:
            v = self.read(gh, cell, p)
            if slots[(cell, p)][0] == 'it':
                for c in it_colls(v):
                    colls.append((c, (cell, p)))
        deltas = {}
        over = {c for b in backs for _, cp in colls for c in it_colls(self.read(b, *cp))}

        def skips(d):
            """does a filter in front of the loop leave out elements that add something?"""
            tags = ('flt',) if all(q[0] == 't' for q in d) else ('flt', 'flt0')
            return find(d, lambda x: isinstance(x, T) and x.op == 'elem' and x.a[0] in over and isinstance(x.a[1], tuple) and isinstance(x.a[1][0], tuple)
                        and x.a[1][0][:1] and x.a[1][0][0] in tags) is not None
        def filtered():
            """does a filter in front of the loop take elements away without a pass of it?"""
            for b in backs:
                for _, cp in colls:
                    i = it_index(self.read(b, *cp))
                    if isinstance(i, tuple) and i and isinstance(i[0], tuple) and i[0][:1] and i[0][0] in ('flt', 'flt0'):
                        return True
            return False
        for (cell, p), (kind, v0, t) in slots.items():
            gv = self.read(gh, cell, p)
            if kind == 'num':
                ds = set()
                for b in backs:
                    w = self.read(b, cell, p)
                    ds.add(ladd(w, gv, -1) if lparts(w) is not None else mk('top'))
                if filtered():
                    ds.add(0)
                deltas[t] = ('num', ds, v0)
            elif kind == 'seq':
                ds = set()
                n = len(parts(gv))
                for b in backs:
                    w = parts(self.read(b, cell, p))
                    if w[:n] == parts(gv):
                        ds.add(w[n:])
                    else:
                        ds.add((('t', mk('top')),))
                if any(skips(d) for d in ds):
                    ds.add(())
                elif () in ds and len(ds) == 2:
                    # passes that add nothing because there is nothing to add
                    d = next(x for x in ds if x)
                    if all(q[0] == 't' for q in d) and \
                            all(self.rng(b, slen(seq(d)))[1] == 0 for b in backs if len(parts(self.read(b, cell, p))) == n):
                        ds.discard(())
                deltas[t] = ('seq', ds, v0)

        def strided(c, cp):
            """a pass that takes several elements, or not always the same number of them"""
            ns = set()
            for b in backs:
                i = it_index(self.read(b, *cp))
                ns.add(i[1] if isinstance(i, tuple) and i[0] == name else None)
            ns.discard(None)
            return c if ns <= {1} else mk('by', c, next(iter(ns)) if len(ns) == 1 else 'some')
        step = {c: strided(c, cp) for c, cp in colls}

        def pick(d, whole):
            """collection an increment ranges over"""
            cs = [c for c, _ in colls]
            if not cs:
                return None
            for c in cs:
                if find(d, lambda x: isinstance(x, T) and x.op == 'elem' and x.a[0] == c):
                    return step[c] if whole else mk('prefix', step[c])
            return step[cs[0]] if whole else mk('prefix', step[cs[0]])

        def local(d):
            return find(d, lambda x: isinstance(x, T) and x.op in ('lsum', 'lv', 'top') and (x.op == 'top' or x.a[0] == name)
                        or isinstance(x, tuple) and x and x[0] == 'star' and x[1] == name)

        def sub(whole):
            out = {}
            for t, (kind, ds, v0) in deltas.items():
                if len(ds) == 1:
                    d = next(iter(ds))
                    c = pick(d, whole)
                    if c is not None and not local(d):
                        if not whole:
                            base = c.a[0]
                        if kind == 'num':
                            out[t] = sumover(c, d)
                            continue
                        out[t] = each(c, d)
                        continue
                    if kind == 'seq' and not d:
                        out[t] = ()
                        continue
                if kind == 'seq':
                    c = pick(tuple(ds), whole)
                    out[t] = (('some', c, name, frozenset(ds)),)
                else:
                    pass
            return out
        return sub, colls, deltas

    def bounded(self, o, deltas, colls):
        """an overflow of a counter that the number of elements passed over keeps from happening"""
        if o.kind != 'panic' or not isinstance(o.val, tuple) or not isinstance(o.val[1], T) or o.val[1].op != 'ovf' or not colls:
            return False
        ty, v = o.val[1].a
        if not isinstance(v, Lin):
            return False
        hi = v.c
        for t, k in v.t:
            d = deltas.get(t)
            if d is None or d[0] != 'num' or k <= 0 or not all(isinstance(x, int) and x >= 0 for x in d[1]):
                return False
            n = min(self.rng(o.st, ladd(c.a[1], c.a[0], -1) if isinstance(c, T) and c.op == 'args' else slen(c))[1] for c, _ in colls)
            hi += k * max(d[1], default=0) * n
        return hi <= irange(ty)[1]

    # ---------------------------------------------------------------- step
    def step(self, st):
        fr = st.frames[-1]
        blk = fr.body['blocks'][fr.bb]
        self.visited.add((fr.fn['k'], fr.bb))
        SEEN.add(fr.fn['k'])
        for s in blk['s']:
            k = s[0]
            if k == '=':
                fr.line = s[3]
                pl = s[1]
                if len(pl) == 1:
                    dty = self.fty(fr, fr.body['locals'][pl[0]])
                    v = self.rvalue(st, fr, s[2], dty)
                    if isinstance(v, T) and v not in TY and dty[0] != 'alias' and v not in (UNINIT, MOVED):
                        TY[v] = dty
                    st.mem[('L', fr.fid, pl[0])] = v
                else:
                    v = self.rvalue(st, fr, s[2], None)
                    cell, proj, ty = self.place(st, fr, pl)
                    if isinstance(v, T) and v not in TY and ty is not None and ty[0] != 'alias' and v not in (UNINIT, MOVED):
                        TY[v] = ty
                    self.write(st, cell, proj, v)
            elif k == 'dead':
                st.mem.pop(('L', fr.fid, s[1]), None)
            elif k == 'live':
                pass
            elif k == 'sd':
                cell, proj, ty = self.place(st, fr, s[1])
                v = self.read(st, cell, proj)
                a = self.adt_of(ty)
                n = len(a.variants[s[2]]['f']) if a is not None else 0
                self.write(st, cell, proj, adt(ty[1], s[2], v.f if isinstance(v, Adt) and v.vi == s[2] else [UNINIT] * n))
        fr.line = blk['l']
        return self.term(st, fr, blk['t'], blk)

    def term(self, st, fr, t, blk):
        k = t[0]
        if k == 'goto':
            return self.jump(st, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t[2], t[3])
        if k == 'ret':
            v = st.mem.get(('L', fr.fid, 0), UNIT)
            return self.ret(st, v)
        if k == 'call':
            return self.term_call(st, fr, t)
        if k == 'drop':
            cell, proj, ty = self.place(st, fr, t[1])
            if self.load(st, cell) is UNINIT and cell[0] == 'L':
                return self.jump(st, t[2])
            v = self.read(st, cell, proj)
            bb = t[2]
            dty = self.fty(fr, t[3])
            # a dropped local is dead, so that later (unelaborated) drops of it do nothing
            if not proj and cell[0] == 'L':
                st.mem[cell] = MOVED
            return self.drop_value(st, v, dty, lambda s: self.jump(s, bb))
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            exp = int(bool(t[2]))
            out = []
            for s, val in self.fork(st, c) if not (isinstance(c, T) and c.op == 'ovf') else self.fork_ovf(st, c):
                if val == exp:
                    out.extend(self.jump(s, t[4]))
                else:
                    m = t[3]
                    info = m[1:] if isinstance(m, list) else None
                    kind = m[0] if isinstance(m, list) else str(m)
                    if c is not None and isinstance(c, T) and c.op == 'ovf':
                        self.panic(s, 'overflow', c)
                    else:
                        self.panic(s, kind if kind in ('overflow', 'bounds', 'divzero') else str(kind), None)
            return out
        if k == 'corodrop' and ('dropped',) in st.mem:
            return self.ret(st, mk('dropped'))
        if k in ('unreachable', 'resume', 'abort', 'corodrop'):
            return []
        if k == 'yield' and ('dropped',) in st.mem:
            # the future is dropped while it waits here
            return self.jump(st, t[4]) if t[4] is not None else self.ret(st, mk('dropped'))
        if k == 'yield':
            # suspension point of a coroutine body
            st.event('yield', self.where(st))
            return self.jump(st, t[2])
        return self.end('limit', k, st)

    def fork_ovf(self, st, c):
        n, r = c.a
        o = []
        lo, hi = irange(n)
        s2 = st.copy()
        s2.facts[('b', c)] = 1
        a, b = self.rng(st, r) if lparts(r) is not None else (lo - 1, hi + 1)
        # out of range at one end only
        if (b > hi or a < lo) and (self.add_range(s2, r, hi + 1, max(b, hi + 1)) if a >= lo else self.add_range(s2, r, min(a, lo - 1), lo - 1) if b <= hi else True):
            o.append((s2, 1))
        if self.add_range(st, r, lo, hi):
            st.facts[('b', c)] = 0
            o.append((st, 0))
        return o

    def switch(self, st, v, targets, other):
        if isinstance(v, int):
            for val, bb in targets:
                if val == v or (v < 0 and val == v & ((1 << 128) - 1)):
                    return self.jump(st, bb)
            return self.jump(st, other)
        if isinstance(v, T) and v.op in ('ge0', 'eq0', 'not', 'isvar', 'eqv', 'booland', 'boolor', 'bcmp', 'fcmp') or \
           (isinstance(v, T) and len(targets) == 1 and targets[0][0] == 0 and TY.get(v) == ('bool',)):
            out = []
            for s, b in self.fork(st, v):
                bb = other
                for val, x in targets:
                    if val == b:
                        bb = x
                out.extend(self.jump(s, bb))
            return out
        if isinstance(v, T) and v.op == 'discr':
            x = v.a[0]
            a = self.adt_of(TY.get(x))
            out = []
            done = set()
            for val, bb in targets:
                vi = a.by_discr.get(val) if a is not None else val
                if vi is None:
                    continue
                done.add(vi)
                s = st.copy()
                if self.set_variant(s, x, vi):
                    out.extend(self.jump(s, bb))
            s = st
            if a is not None and all(i in done for i in range(len(a.variants))):
                return out
            if all(self.not_variant(s, x, vi) for vi in sorted(done)):
                if fr_unreachable(s.frames[-1].body['blocks'][other]):
                    return out
                # split the rest by variant: the arms of an or-pattern are one block
                out.extend(self.jump(s, other))
            return out
        if lparts(v) is None:
            out = []
            for val, bb in targets:
                s = st.copy()
                out.extend(self.jump(s, bb))
            out.extend(self.jump(st, other))
            return out
        out = []
        for val, bb in targets:
            s = st.copy()
            if self.assume(s, self.cmp(s, 'Eq', v, val), 1):
                out.extend(self.jump(s, bb))
        if fr_unreachable(st.frames[-1].body['blocks'][other]):
            return out
        good = True
        for val, bb in targets:
            if not self.assume(st, self.cmp(st, 'Eq', v, val), 0):
                good = False
                break
        if good:
            out.extend(self.jump(st, other))
        return out

    def ret(self, st, v):
        fr = st.frames.pop()
        fid = fr.fid
        v = self.keep(st, v, fid)
        for c in [c for c in st.mem if c[0] == 'L' and c[1] == fid]:
            del st.mem[c]
        if fr.k is None:
            self.terms.append(Out('ret', v, st, fr.fn['k']))
            return []
        return fr.k(st, v)

    def keep(self, st, v, fid):
        """values returned by a function may not point into its frame (constants excepted)"""
        def f(x):
            if isinstance(x, Ref) and x.cell[0] == 'L' and x.cell[1] == fid:
                return rval(self.keep(st, self.read(st, x.cell, x.proj), fid))
            return None
        if isinstance(v, (Ref, Adt)):
            return rebuild(v, f)
        return v

    # ---------------------------------------------------------------- drops
    def guard_ref(self, g):
        return ref(g.f[0])

    def drop_value(self, st, v, ty, k):
        gs = []

        def walk(x, top):
            if isinstance(x, Adt):
                if x.key in ('@guard', '@mguard', '@owned'):
                    gs.append(x)
                    return
                for y in x.f:
                    walk(y, False)
        walk(v, True)
        for g in gs:
            if g.key == '@guard':
                st.event('rel', g.f[0], g.f[1])
            elif g.key == '@mguard':
                st.event('unlock', g.f[0])
        # user Drop impls
        a = self.adt_of(ty)
        if a is not None:
            for im in self.F.impls:
                if im.get('trait') == 'core::ops::drop::Drop' and im['crate'].ty(im['self'])[:2] == ty[:2] and v not in (MOVED, UNINIT):
                    fn = self.F.fns.get(im['items'][0]['k'])
                    if fn is not None:
                        cell = ('H', st.fresh('H'))
                        st.mem[cell] = v
                        return self.push(st, fn, {}, [ref(cell)], lambda s, _: k(s))
        return k(st)

    # ---------------------------------------------------------------- calls
    def callee(self, fr, f):
        c = Callee()
        crate = fr.fn['crate']
        c.f = f
        c.key = f['k']
        c.name = f['n']
        c.m = f.get('m') or f['k'].split('::')[-1]
        c.trait = f.get('trait')
        c.args = tuple(subst_ty(crate.arg(x), fr.subst) for x in (f.get('a') or []))
        c.self = crate.ty(f['self']) if f.get('self') is not None else None
        c.rk = f.get('rk')
        c.rn = f.get('rn')
        c.ra = tuple(subst_ty(crate.arg(x), fr.subst) for x in (f.get('ra') or []))
        c.ctor = f.get('ctor')
        return c

    def term_call(self, st, fr, t):
        _, f, args, dest, target, destty, argtys, line, macro = t[:9]
        fr.line = line
        av = [self.operand(st, fr, a) for a in args]
        dty = self.fty(fr, destty)
        cell, proj, _ = self.place(st, fr, dest)
        c = None
        if f[0] == 'k' and f[1].get('f'):
            c = self.callee(fr, f[1]['f'])
            c.dest = dty
            c.argtys = [self.fty(fr, x) for x in argtys]
            c.macro = macro
            c.line = line
        for a, ty in zip(av, [self.fty(fr, x) for x in argtys]):
            if isinstance(a, T) and a not in TY and ty[0] != 'alias' and a not in (UNINIT, MOVED):
                TY[a] = ty

        def k(s, v):
            if target is None:
                return self.end('diverge', c.name if c else '?', s)
            if isinstance(v, T) and v not in TY and dty[0] != 'alias' and v not in (UNINIT, MOVED):
                TY[v] = dty
            self.write(s, cell, proj, v) if proj or cell[0] != 'L' else s.mem.__setitem__(cell, v)
            return self.jump(s, target)
        if c is None:
            fv = self.operand(st, fr, f)
            return self.call_value(st, fv, av, k, dty)
        return self.call(st, c, av, k)

    def call_value(self, st, fv, args, k, dty=None):
        """call a function value"""
        v = fv
        r = None
        n = 0
        while isinstance(v, Ref) and n < 10:
            r = v
            v = self.read(st, v.cell, v.proj)
            n += 1
        if isinstance(v, T) and v in self.fnitems:
            c = self.fnitems[v]
            return self.call(st, c, list(args), k)
        if isinstance(v, Adt) and v.key == '@clo':
            key, sub = self.clos[v.vi]
            fn = self.F.fns.get(key)
            if fn is not None:
                t1 = fn['crate'].ty(fn['body']['locals'][1])
                if t1[0] == 'ref':
                    if r is None:
                        cell = ('H', st.fresh('H'))
                        st.mem[cell] = v
                        r = ref(cell)
                    a0 = r
                else:
                    a0 = v
                return self.push(st, fn, sub, [a0] + list(args), k)
        if isinstance(v, Adt) and v.key == '@pyfn':
            return self.pyfns[v.vi](self, st, args, k)
        st.event('callopaque', v)
        for a in args:
            self.havoc_arg(st, a)
        return k(st, typed(mk('app', v if isinstance(v, T) else mk('top'), *args), dty) if isinstance(v, T) and v.op in ('in', 'fnparam') else
                 typed(mk('ext', 'fnvalue', st.fresh('ext')), dty))

    pyfns = []

    def pyfn(self, f):
        self.pyfns.append(f)
        return adt('@pyfn', len(self.pyfns) - 1)

    def push(self, st, fn, sub, args, k, line=0):
        if len(st.frames) > self.max_depth or sum(1 for f in st.frames if f.fn is fn) > 3:
            st.event('recursion', fn['k'])
            return k(st, mk('ext', 'recursion:' + fn['k'], st.fresh('ext')))
        self.calls += 1
        f = Frame()
        f.fn, f.body, f.subst, f.fid, f.bb, f.k, f.line = fn, fn['body'], sub, st.fresh('fid'), 0, k, 0
        for i, a in enumerate(args):
            st.mem[('L', f.fid, i + 1)] = a
            if isinstance(a, T) and a not in TY and i + 1 < len(f.body['locals']):
                ty = subst_ty(fn['crate'].ty(f.body['locals'][i + 1]), sub)
                if ty[0] not in ('alias', 'param') and a not in (UNINIT, MOVED):
                    TY[a] = ty
        st.frames.append(f)
        return self.arrive(st)

    def find_impl(self, trait, targs):
        """impl of a trait of this workspace for concrete type arguments"""
        for im in self.F.impls:
            if im.get('trait') != trait:
                continue
            m = {}
            it = [im['crate'].arg(x) for x in (im.get('targs') or [])] or [im['crate'].ty(im['self'])]
            ok_ = True
            for p, t in zip(it, targs):
                if t[0] == 'const' or p[0] == 'const':
                    continue
                if t[0] in ('param', 'alias', 'other') or not unify(p, t, m):
                    ok_ = False
                    break
            if ok_:
                return im, m
        return None

    def local_fn(self, c):
        """(fn facts, subst) when the callee has a body in this workspace"""
        if c.rk and c.rk in self.F.fns:
            fn = self.F.fns[c.rk]
            return fn, dict(zip(fn['g'], c.ra))
        if c.trait:
            r = self.find_impl(c.trait, c.args)
            if r is not None:
                im, m = r
                for it in im['items']:
                    if it['n'] == c.m:
                        k = it['k']
                        fn = self.F.fns.get(k)
                        if fn is not None:
                            sub = dict(m)
                            # method generics follow the trait's own in the callee's argument list
                            im_g = set(im['g'])
                            own = [g for g in fn['g'] if g not in im_g]
                            tr = self.F.traits.get(c.trait)
                            ntr = len(im.get('targs') or [1])
                            for g, a in zip(own, c.args[ntr:]):
                                sub[g] = a
                            return fn, sub
            tr = self.F.traits.get(c.trait)
            if tr is not None and not c.rk and c.args and c.args[0][0] not in ('param', 'alias', 'dyn'):
                for it in tr['items']:
                    if it['n'] == c.m and it.get('default') and c.key in self.F.fns:
                        fn = self.F.fns[c.key]
                        return fn, dict(zip(fn['g'], c.args))
            return None
        if c.key in self.F.fns and not c.ctor:
            fn = self.F.fns[c.key]
            return fn, dict(zip(fn['g'], c.args))
        return None

    def call(self, st, c, args, k):
        self.calls += 1
        if c.ctor:
            key, vi = c.ctor[0], c.ctor[1]
            return k(st, adt(key, vi, args))
        lf = self.local_fn(c)
        if lf is not None:
            fn, sub = lf
            p = self.prims.get(fn['k'])
            if p is not None:
                return p(self, st, args, c, k)
            if fn.get('derived') and c.trait and c.trait.split('::')[-1] == 'Clone':
                return k(st, self.content_once(st, args[0]))
            if fn.get('derived') and c.trait and c.trait.split('::')[-1] in ('Debug', 'Hash'):
                return k(st, typed(mk('fmt'), c.dest))
            if c.trait and args and c.trait.split('::')[-1] in ITER_TRAITS:
                v = self.content_once(st, args[0]) if isinstance(args[0], (Ref, Adt)) else None
                if isinstance(v, Ref):
                    v = self.content_once(st, v)
                if isinstance(v, Adt) and v.key == '@it':
                    return self.models.library(self, st, c, args, k)
            return self.push(st, fn, sub, args, k)
        p = self.prims.get(c.rk or c.key)
        if p is not None:
            return p(self, st, args, c, k)
        return self.models.library(self, st, c, args, k)

    def content_once(self, st, v):
        if isinstance(v, Ref):
            return self.read(st, v.cell, v.proj)
        if isinstance(v, T):
            return self.load(st, ('D', v))
        return v

    def havoc_arg(self, st, a, ty=None, seen=None):
        if isinstance(a, Ref):
            if ty is not None and ty[0] == 'ref' and not ty[1]:
                return
            if a.cell[0] in ('val',):
                return
            v = self.read(st, a.cell, a.proj)
            if isinstance(v, Ref):
                return self.havoc_arg(st, v, ty[2] if ty and ty[0] == 'ref' else None)
            n = mk('havoc', st.fresh('havoc'))
            if isinstance(v, T) and v in TY:
                typed(n, TY[v])
            elif isinstance(v, Adt) and v.key[0] != '@' and v.key != '()':
                typed(n, ('adt', v.key, ()))
            self.write(st, a.cell, a.proj, n)
        elif isinstance(a, Adt):
            for x in a.f:
                self.havoc_arg(st, x)

    def opaque(self, st, c, args, k, pure=False):
        name = c.rn or c.name
        self.extcalls[name] = self.extcalls.get(name, 0) + 1
        if pure:
            r = mk('ext', short(name), tuple(self.freeze_arg(st, a) for a in args))
        else:
            st.event('ext', short(name), tuple(args))
            for i, a in enumerate(args):
                ty = c.argtys[i] if c.argtys and i < len(c.argtys) else None
                if ty is None or not (ty[0] == 'ref' and not ty[1]):
                    self.havoc_arg(st, a, ty)
            r = mk('ext', short(name), st.fresh('ext'))
        return k(st, typed(r, c.dest))

    def freeze_arg(self, st, a):
        return self.content(st, a) if isinstance(a, Ref) else a

    # ---------------------------------------------------------------- entry
    def start(self, fnkey, args, st=None, sub=None, k=None):
        """explore a function from abstract arguments; returns the finished paths"""
        fn = self.F.fns[fnkey]
        st = st or State()
        self.terms = []
        self.steps = 0
        self.deadline = time.process_time() + SECONDS
        self.push_entry(st, fn, args, sub or {}, k)
        return self.terms

    def push_entry(self, st, fn, args, sub, k):
        f = Frame()
        f.fn, f.body, f.subst, f.fid, f.bb, f.k, f.line = fn, fn['body'], sub, st.fresh('fid'), 0, k, 0
        for i, a in enumerate(args):
            st.mem[('L', f.fid, i + 1)] = a
            if isinstance(a, T) and a not in TY:
                TY[a] = subst_ty(fn['crate'].ty(f.body['locals'][i + 1]), sub)
        st.frames.append(f)
        try:
            self.explore(self.arrive(st))
        except Limit as e:
            self.terms.append(Out('limit', str(e), st, fn['k']))


def unescape(t):
    """a Rust string literal as its text"""
    import re
    simple = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}

    def f(m):
        x = m.group(1)
        return chr(int(x[2:-1], 16)) if x[0] == 'u' else chr(int(x[1:], 16)) if x[0] == 'x' else simple.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, t)


def fr_unreachable(b):
    return b['t'][0] == 'unreachable' and not b['s']


def short(n):
    return n.replace('crate::alloc::', 'std::').replace('core::', 'std::').replace('alloc::', 'std::')


def each(c, d):
    """parts d for every element of c"""
    if len(d) == 1 and d[0][0] == 'v' and isinstance(d[0][1], T) and d[0][1].op == 'elem' and d[0][1].a[0] == c:
        return (('t', c),)
    if len(d) == 1 and d[0][0] == 'v' and isinstance(d[0][1], Ref) and d[0][1].cell[0] == 'val' and not d[0][1].proj:
        x = d[0][1].cell[1]
        if isinstance(x, T) and x.op == 'elem' and x.a[0] == c:
            return (('t', c),)
    return (('each', c, tuple(d)),)
