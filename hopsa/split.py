"""Taking a path apart by the value of a byte it did not settle."""
from .vals import *
from .canon import *


class Unsure(Exception):
    """what a value of the byte makes of a term is not known here"""


def fold(v, sub):
    """a term with bytes put in for the terms of sub, evaluated as far as numbers go"""
    def f(x):
        if not isinstance(x, T):
            return None
        if x in sub:
            return sub[x]
        a = [rebuild(y, f) for y in x.a]
        n = [y for y in a if isinstance(y, int)]
        r = None
        op = x.op
        if op in ('eq0', 'ge0', 'not', 'low7', 'bit7') and len(n) == 1:
            y = n[0]
            r = {'eq0': int(y == 0), 'ge0': int(y >= 0), 'not': 1 - y, 'low7': y & 127, 'bit7': y >> 7 & 1}[op]
        elif op in ('and', 'or', 'shr', 'div', 'rem') and len(n) == 2 and (op not in ('div', 'rem') or n[0] >= 0 and n[1] > 0):
            y, z = n
            r = y & z if op == 'and' else y | z if op == 'or' else y >> z if op == 'shr' else y // z if op == 'div' else y % z
        elif op == 'bin' and x.a[0] == 'BitXor' and isinstance(a[1], int) and isinstance(a[2], int):
            r = a[1] ^ a[2]
        elif op == 'shl' and len(n) == 2 and x in TY and TY[x] == ('prim', 'u8'):
            r = n[0] << n[1] & 255
        elif op in ('cast', 'wrap') and isinstance(a[1], int) and a[0] in ('u8', 'u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64') and 0 <= a[1] < 256:
            r = a[1]
        elif op in ('booland', 'boolor') and n:
            r = 0 if op == 'booland' and 0 in n else 1 if op == 'boolor' and 1 in n else None
            if r is None:
                r = n[0] if len(n) == 2 else [y for y in a if not isinstance(y, int)][0]
        elif op == 'eqv' and isinstance(a[0], int) and isinstance(a[1], int):
            r = int(a[0] == a[1])
        elif op == 'nop' and len(a) == 2 and isinstance(a[1], int) and 0 <= a[1] < 256 and TY.get(x.a[1]) == ('prim', 'u8'):
            y = a[1]
            r = {'leading_zeros': 8 - y.bit_length(), 'count_ones': bin(y).count('1'), 'is_power_of_two': int(bin(y).count('1') == 1), 'is_ascii': int(y < 128),
                 'is_ascii_digit': int(48 <= y < 58), 'trailing_zeros': (y & -y).bit_length() - 1 if y else 8, 'reverse_bits': int('{:08b}'.format(y)[::-1], 2)}.get(a[0])
        if r is not None:
            return r
        if tuple(a) != x.a and op not in ('discr', 'isvar', 'const', 'ext', 'call', 'sub', 'idx', 'frombe') and n and all(isinstance(y, (int, str)) for y in a):
            raise Unsure
        return None if tuple(a) == x.a else reterm(op, tuple(a), x)
    return rebuild(v, f)


def settle(I, st, x, val):
    """the state with the byte x known to be val; None when it cannot be"""
    sub = {x: val, mk('low7', x): val & 127, mk('bit7', x): val >> 7}
    st = st.copy()
    st.frames = []
    old = st.facts
    st.facts = {k: v for k, v in old.items() if not mentions(tuple(k), x)}
    for k, v in old.items():
        if k in st.facts:
            continue
        if k[0] in ('rng', 'b', 'ne', 'var', 'nvar'):
            t = fold(k[1], sub)
        else:
            t = 0
            for y, c in k[1]:
                z = fold(y, sub)
                t = ladd(t, z if lparts(z) is not None else y, c)
            if k[0] == 'nelin':
                t = ladd(t, k[2])
        if isinstance(t, int):
            if not (v[0] <= t <= v[1] if k[0] in ('rng', 'lin') else t not in v if k[0] == 'ne' else t == v if k[0] == 'b' else t != 0 if k[0] == 'nelin' else True):
                return None
        elif k[0] in ('rng', 'lin'):
            if not I.add_range(st, t, v[0], v[1]):
                return None
        elif k[0] == 'b':
            if not I.assume(st, t, v):
                return None
        elif k[0] == 'nelin':
            if not I.assume(st, I.cmp(st, 'Eq', t, 0), 0):
                return None
        else:
            st.facts[(k[0], t)] = v
    for t, n in sub.items():
        if not I.add_range(st, typed(t, ('prim', 'u8')), n, n):
            return None
    return st


def nonzero(I, st, t, b):
    """is b true on this path exactly when the byte t is not zero? True / False / None"""
    some = open_ = False
    for v in range(256):
        try:
            s = settle(I, st, t, v)
            if s is None:
                continue
            x = b if isinstance(b, int) else fold(b, {t: v})
        except Unsure:
            open_ = True
            continue
        if isinstance(x, T):
            x = I.truth(s, x)
        if not isinstance(x, int):
            open_ = True
        elif x != (v > 0):
            return False
        some = True
    return None if open_ or not some else True
