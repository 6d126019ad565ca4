"""Responses (properties W04, W05): written as the format prescribes, and read back as what their bytes say."""
from .vals import *
from .canon import *
from .split import nonzero
from .interp import Interp, State
from .engine import find_method, Missing, RESP
from .rules_engine import floor, vague, partial
from .epaths import Tables
from .rules_wire import BUF, LEN, HE, byte, be, decide, single, excluded, new_ctx, feed, longer, same_value, slice_is
from .rules_build import value_adt, start, PRE

M = typed(mk('m'), ('prim', 'usize'))


def adts(F):
    def a(tail):
        ks = [k for k in F.adts if k.startswith(HE) and k.endswith(tail)]
        if len(ks) != 1:
            raise Missing('type %s' % tail)
        return F.adts[ks[0]]
    return dict(rt=a('::ResponseType'), resp=a('response::Response'), val=value_adt(F), err=a('command::error::Error'), rpe=a('request::context::ParseError'),
                pe=a('response::context::ParseError'), ins=a('context::Instruction'))


# ------------------------------------------------------------------ W04
def W04(F, rep):
    """every response is written as the one frame that says what it is, after what the output held"""
    A = adts(F)
    table = {}
    for d, n in zip(A['rt'].discr, A['rt'].names):
        table[d] = 'error' if n in ('DispatchError', 'ParseError') else n.lower()
    key = find_method(F, 'Response', HE, 'copy_to', 'response')
    bkey = find_method(F, 'Response', HE, 'as_bytes', 'response')
    todo = []
    for vi, n in enumerate(A['val'].names):
        x = typed(mk('val' + n), A['val'].ftys(vi)[0])
        todo.append((n.lower(), adt(A['resp'].key, A['resp'].names.index('Value'), (adt(A['val'].key, vi, (x,)),)), x))
    for vn, ea in (('DispatchError', A['err']), ('ParseError', A['rpe'])):
        for i, n in enumerate(ea.names):
            todo.append((vn, adt(A['resp'].key, A['resp'].names.index(vn), (adt(ea.key, i),)), ea.discr[i]))
    n = 0
    for what, v, x in todo:
        for fn, name in ((key, 'copy_to'), (bkey, 'as_bytes')):
            st = State()
            st.mem[('in', 'r')] = v
            st.mem[('in', 'resp')] = RESP
            args = [ref(('in', 'r'))] + ([ref(('in', 'resp'))] if name == 'copy_to' else [])
            I = Interp(F, 100000)
            for o in I.start(fn, args, st):
                n += 1
                k = '%s:%s' % (name, what)
                if o.kind == 'panic':
                    if isinstance(o.val, tuple) and o.val[0] == 'overflow':
                        continue        # sizes that do not fit: C18
                    rep.bad(k + ':panic', 'writing a %s response panics: %s' % (what, short(o.val)))
                    continue
                if o.kind != 'ret':
                    rep.undecided(k + ':' + o.kind, 'a path of the writer does not end')
                    continue
                if name == 'copy_to':
                    ps = parts(o.st.mem[('in', 'resp')])
                    if not ps or ps[0] != ('t', RESP):
                        rep.check(False if ps == () or not vague(seq(ps)) else None, k + ':keeps', 'writing a %s response drops what the output held' % what)
                        continue
                    ps = ps[1:]
                else:
                    c = I.content(o.st, o.val)
                    ps = parts(c) if isinstance(c, (Seq, T)) else None
                if ps is None:
                    rep.undecided(k, 'the written bytes could not be read')
                    continue
                if what in ('list', 'set', 'map') and partial(seq(ps), x):
                    rep.bad(k + ':left-out', 'a %s response leaves some of the items out: %s' % (what, short(canon(seq(ps)))))
                    continue
                try:
                    f = read_frame(ps, table)
                except Bad as e:
                    rep.undecided(k, str(e)) if vague(canon(seq(ps))) else rep.bad(k + ':frame', 'a %s response is written as %s: %s' % (what, short(canon(seq(ps))), e))
                    continue
                if what in ('DispatchError', 'ParseError'):
                    full = parts(canon(seq(ps)))
                    tb = A['rt'].discr[A['rt'].names.index(what)]
                    rep.check(f.ty == 'error' and full[4] == ('v', tb) and f.val == x, k, 'a %s of code %d is written as %s' % (what, x, short(canon(seq(ps)))))
                    continue
                want = content(what, x)
                got = f.val
                if what == 'boolean':
                    got = truth_of(got)
                    y = I.truth(o.st, x)
                    x2 = x if y is None else y
                    r = got is x2 or got == x2
                elif what in ('integer', 'float'):
                    r = got is x or got == x
                elif what in ('bytes', 'string'):
                    r = canon(got) == canon(seq((('t', x),))) or got is x
                else:
                    r = got == want
                rep.check(r and f.ty == what if r or not vague(got if not isinstance(got, tuple) else seq(())) else None, k,
                          'a %s response holding %s is written as a %s response holding %s' % (what, short(x), f.ty, short(got)))
                rep.sample('%s -> %s' % (what, short(canon(seq(ps)), 60)))
            rep.saw(I)
    floor(rep, n, 30, 'paths')


def truth_of(v):
    if isinstance(v, Seq) and len(v.p) == 1:
        return v.p[0][1]
    return v


# ------------------------------------------------------------------ W05
class Walk:
    """What the bytes known on a path say the response is."""

    def __init__(self, A, I, st, length):
        self.I, self.st, self.L = I, st, length
        self.need = [4, ladd(4, be('u32', 0, 4)), 5]
        self.stop = self.ty = None
        self.items = []
        if not self.met(2):
            self.stop = 'open'
            return
        t = single(I, st, byte(4))
        if t is None or t not in A['rt'].discr:
            self.stop = 'type'
            self.refused = excluded(I, st, byte(4), A['rt'].discr)
            return
        self.ty = A['rt'].names[A['rt'].discr.index(t)]
        if self.ty in ('Boolean', 'DispatchError', 'ParseError'):
            self.need.append(6)
            self.fin(6)
        elif self.ty in ('Integer', 'Float'):
            self.need.append(13)
            self.fin(13)
        elif self.ty in ('Bytes', 'String'):
            self.need.append(9)
            e = ladd(9, be('u32', 5, 9))
            self.need.append(e)
            self.lo, self.hi = 9, e
            self.fin(e)
        else:
            self.need.append(7)
            self.cnt = be('u16', 5, 7)
            at = 7
            for j in range(40):
                if not self.met():
                    self.stop = 'open'
                    return
                more = I.truth(st, I.cmp(st, 'Lt', j, self.cnt))
                if more == 0:
                    self.fin(at)
                    return
                if more is None:
                    self.stop = 'open'
                    return
                it = []
                for w in {'List': (4,), 'Set': (2,), 'Map': (1, 4)}[self.ty]:
                    if it and not self.met():
                        self.stop = 'open'
                        return
                    n = byte(at) if w == 1 else be('u%d' % (8 * w), at, ladd(at, w))
                    lo = ladd(at, w)
                    self.need.append(lo)
                    at = ladd(lo, n)
                    self.need.append(at)
                    it.append((lo, at))
                self.items.append(it)

    def met(self, i=None):
        return decide(self.I, self.st, 'Le', self.need[-1 if i is None else i], self.L) is True

    def fin(self, e):
        self.stop, self.end = 'end', e

    def settled(self):
        """did it get past where the type is told?"""
        return self.ty is not None

    def missing(self):
        """the first length the bytes do not reach: (it, sure); None when all are reached"""
        for m in self.need:
            d = decide(self.I, self.st, 'Le', m, self.L)
            if d is not True:
                return m, d is False
        return None


def judge(A, rep, key, I, o, length):
    w = Walk(A, I, o.st, length)
    d = '(%s%s)' % (w.ty or 'type unknown', ', %d items' % len(w.items) if w.items else '')
    if o.kind == 'panic':
        rep.bad(key + ':panic', 'reading a response panics: %s in %s %s' % (short(o.val), o.where, d))
        return None
    v = o.val
    if o.kind != 'ret' or not isinstance(v, Adt) or not isinstance(v.f[0], Adt):
        rep.undecided(key + ':' + o.kind, 'a path of the decoder could not be read')
        return None
    if v.vi == 1:
        e = v.f[0]
        code = A['pe'].names[e.vi] if e.key == A['pe'].key else '?'
        if code == 'ResponseTypeInvalid':
            rep.check(True if w.stop == 'type' and w.refused else None if w.stop == 'type' else False, key + ':' + code, 'a response of a valid type is refused %s' % d)
        elif code in ('DispatchErrorInvalid', 'ParseErrorInvalid'):
            a = A['err'] if code[0] == 'D' else A['rpe']
            rep.check(True if w.ty == code[:-7] and excluded(I, o.st, byte(5), a.discr) else False if w.ty and w.ty != code[:-7] or single(I, o.st, byte(5)) in a.discr else None,
                      key + ':' + code, 'a valid error response is refused as %s %s' % (code, d))
        elif code == 'StringInvalid':
            bad = any(k[0] == 'b' and val == 0 and isinstance(k[1], T) and 'utf8' in k[1].op and mentions(k[1], BUF) for k, val in o.st.facts.items())
            rep.check(True if w.ty == 'String' and bad else None if w.ty == 'String' else False, key + ':' + code, 'a response is refused as invalid text although its text may be valid %s' % d)
        elif code == '?':
            rep.undecided(key + ':error', 'an error of the decoder could not be read')
        else:
            m = w.missing()
            rep.check(None if m or w.stop == 'type' else False, key + ':' + code, 'a response is refused as %s %s' % (code, d))
        return 'err'
    ins = v.f[0]
    if A['ins'].names[ins.vi] == 'ReadBytes':
        n = ins.f[0]
        m = w.missing()
        if m is None:
            rep.check(None if w.stop in ('open', 'type') else False, key + ':waits', 'the decoder asks for %s more bytes when the response is all there %s' % (short(n), d))
            return 'none'
        m, sure = m
        if not sure:
            rep.check(None, key + ':waits', 'the decoder asks for more although the response may be all there %s' % d)
            return 'none'
        least = decide(I, o.st, 'Ge', n, 1)
        rep.check(least if least is not None else False, key + ':asks-nothing', 'the decoder asks for %s bytes, which may be none, and would ask forever %s' % (short(n), d))
        most = decide(I, o.st, 'Le', ladd(length, n), m)
        rep.check(most if most is not None else False, key + ':asks-more', 'the decoder asks for %s bytes; the response is only %s long and the rest would never come %s' % (short(n), short(m), d))
        return 'none'
    # concluded
    r = ins.f[0]
    if w.stop == 'type':
        rep.check(False if w.refused else None, key + ':accepts', 'a response of an unknown type is accepted')
        return 'some'
    if w.stop != 'end' or w.missing() is not None:
        rep.check(None if w.stop == 'open' and not w.settled() else False, key + ':early', 'a response is taken as complete before all of it is there %s' % d)
        return 'some'
    if not isinstance(r, Adt) or not isinstance(r.f[0], Adt):
        rep.undecided(key + ':value', 'the response read could not be followed %s' % d)
        return 'some'
    vn = A['resp'].names[r.vi]
    if w.ty in ('DispatchError', 'ParseError'):
        a = A['err'] if w.ty[0] == 'D' else A['rpe']
        x = single(I, o.st, byte(5))
        rep.check(vn == w.ty and r.f[0].key == a.key and a.discr[r.f[0].vi] == x if x is not None else None, key + ':value', 'a %s with code %s is read as %s' % (w.ty, x, short(r)))
        return 'some'
    val = r.f[0]
    if vn != 'Value' or A['val'].names[val.vi] != w.ty:
        rep.bad(key + ':type', 'a %s response is read as %s' % (w.ty, short(r)))
        return 'some'
    x = val.f[0]
    if w.ty == 'Boolean':
        ok = nonzero(I, o.st, byte(5), x)
    elif w.ty in ('Integer', 'Float'):
        ok = x is be('i64' if w.ty == 'Integer' else 'f64', 5, 13) or (None if vague(x) else False)
    elif w.ty in ('Bytes', 'String'):
        ok = slice_is(I, o.st, x, w.lo, w.hi)
        y = canon(I.content(o.st, x))
        if ok is None and isinstance(y, T) and y.op == 'lossy' and not any(k[0] == 'b' and v == 1 and isinstance(k[1], T) and 'utf8' in k[1].op for k, v in o.st.facts.items()):
            ok = False          # what is not text is replaced, not refused
    else:
        ok = items_are(I, o.st, x, w)
    rep.check(ok, key + ':value', 'a %s response is read as %s; its bytes say %s %s' % (
        w.ty, short(x), ', '.join('%s..%s' % (short(a), short(b)) for it in w.items for a, b in it) or '%s..%s' % (short(getattr(w, 'lo', 5)), short(w.end)), d))
    return 'some'


def items_are(I, st, x, w):
    x = x.f[0] if isinstance(x, Adt) and x.key == '@dm' else x
    if not isinstance(x, Seq):
        return None
    if not x.p:
        return not w.items
    if any(p[0] not in 'vt' for p in x.p):
        return None
    if len(x.p) != len(w.items):
        return False
    res = []
    for p, it in zip(x.p, w.items):
        vs = [p[1]] if len(it) == 1 else list(p[1].f) if isinstance(p[1], Adt) and len(p[1].f) == 2 else None
        if vs is None:
            return None
        res += [slice_is(I, st, v, lo, hi) for v, (lo, hi) in zip(vs, it)]
    return False if False in res else None if None in res else True


def W05(F, rep):
    """on every path the decoder answers what the bytes it has say, asks for no more than is missing, and is ready for the next response"""
    A = adts(F)
    fresh, _ = new_ctx(F, 'response')
    base = State()
    J = Interp(F)
    J.add_range(base, LEN, 0, (1 << 31) - 1)
    J.assume(base, J.cmp(base, 'Le', M, LEN), 1)
    # whatever items repeat: no panic
    I, ts, heads = feed(F, 'response', fresh, base.copy(), ref(('val', BUF), (('sub', 0, M),)), 7)
    for o in ts:
        rep.check(o.kind != 'panic', 'read:panic', 'reading a response panics: %s in %s' % (short(o.val), o.where))
    # a set or map does not repeat an item
    I, ts, heads = feed(F, 'response', fresh, base.copy(), ref(('val', BUF), (('sub', 0, M),)), 7, nodup=True)
    rep.saw(I)
    tally = {}
    left = {}
    for o in ts:
        r = judge(A, rep, 'read', I, o, M)
        tally[r] = tally.get(r, 0) + 1
        c = canon(I.content(o.st, o.st.mem[('in', 'ctx')]))
        if r == 'none' and c != fresh:
            left.setdefault(repr(c), []).append(o)
        if r in ('some', 'err') and c != fresh:
            left.setdefault('done ' + repr(c), []).append(o)
    for k, os_ in sorted(left.items()):
        for o in os_[:3]:
            done = k.startswith('done ')
            st = base.copy() if done else longer(I, o.st, M)
            I2, t2, h2 = feed(F, 'response', o.st.mem[('in', 'ctx')], st, rval(BUF), 3, nodup=True)
            for x in t2:
                q = judge(A, rep, 'next' if done else 'resume', I2, x, LEN)
                tally['again ' + str(q)] = tally.get('again ' + str(q), 0) + 1
    n = induct(F, A, rep, fresh)
    rep.count('inductive steps', n)
    if not n:
        rep.notes.append('responses of more items than were walked through are not covered: the state between two items was not recognised')
    for k, v in sorted(tally.items(), key=repr):
        rep.count('paths: %s' % k, v)
    for k in ('err', 'none', 'some', 'again none', 'again some'):
        floor(rep, tally.get(k, 0), 3, 'paths ending in %s' % k)
    rep.sample('paths by outcome: %s' % ', '.join('%s %d' % (k, v) for k, v in sorted(tally.items(), key=repr)))


class NoShape(Exception):
    pass


NITEM = slen(seq((('t', PRE),)))
IDX = typed(mk('at'), ('prim', 'usize'))


def general(x, y, at):
    """the state y before the item at offset `at`, one item after x, as an instance of a state after any number of items"""
    if x is y or x == y:
        return lambda i: y
    if isinstance(x, Adt) and isinstance(y, Adt) and x.key == y.key and x.vi == y.vi and len(x.f) == len(y.f):
        fs = [general(p, q, at) for p, q in zip(x.f, y.f)]
        return lambda i: adt(y.key, y.vi, [f(i) for f in fs])
    if isinstance(x, Seq) and isinstance(y, Seq) and len(y.p) == len(x.p) + 1 and y.p[:len(x.p)] == x.p:
        return lambda i: seq((('t', PRE),))
    if lparts(x) is not None and lparts(y) is not None:
        c = ladd(y, at, -1)
        if isinstance(c, int):
            return lambda i: ladd(i, c)
    raise NoShape


def induct(F, A, rep, fresh):
    """one pass from the state after any number of items of a list, set or map"""
    base = State()
    J = Interp(F)
    J.add_range(base, LEN, 0, (1 << 31) - 1)

    def heads(passes):
        I, ts, hs = feed(F, 'response', fresh, base.copy(), rval(BUF), passes, nodup=True)
        out = {}
        for h in hs:
            w = Walk(A, I, h, LEN)
            if w.ty in ('List', 'Set', 'Map') and w.items:
                got = [it for it in w.items if decide(I, h, 'Le', it[-1][1], LEN) is True]
                out[w.ty] = (I, h, got, canon(I.content(h, h.mem[('in', 'ctx')])))
        return out
    steps = 0
    for passes in range(3, 9):
        a, b = heads(passes), heads(passes + 1)
        if set(a) == set(b) == {'List', 'Set', 'Map'} and all(len(v[2]) >= 1 for v in a.values()):
            break
    else:
        return 0
    for ty in sorted(b):
        I, h, got, y = b[ty]
        try:
            build = general(a[ty][3], y, got[-1][-1][1])
        except NoShape:
            rep.undecided('read:general:' + ty, 'the state between two items of a %s was not recognised' % ty)
            continue
        st = State()
        I.add_range(st, LEN, 0, (1 << 31) - 1)
        t = A['rt'].discr[A['rt'].names.index(ty)]
        I.add_range(st, byte(4), t, t)
        cnt = be('u16', 5, 7)
        I.add_range(st, cnt, 2, 65535)
        I.add_range(st, NITEM, 1, 65534)
        I.add_range(st, IDX, 8, (1 << 31) - 1)
        I.assume(st, I.cmp(st, 'Lt', NITEM, cnt), 1)
        I.assume(st, I.cmp(st, 'Le', IDX, LEN), 1)
        ctx = build(IDX)
        I2, ts, hs = feed(F, 'response', ctx, st, rval(BUF), 1, nodup=True)
        at, need, it = IDX, [], []
        for w in {'List': (4,), 'Set': (2,), 'Map': (1, 4)}[ty]:
            n = byte(at) if w == 1 else be('u%d' % (8 * w), at, ladd(at, w))
            lo = ladd(at, w)
            at = ladd(lo, n)
            need += [lo, at]
            it.append((lo, at))
        d = '(%s, after any number of items)' % ty
        for o in ts:
            if o.kind != 'ret' or not isinstance(o.val, Adt) or o.val.vi != 0 or not isinstance(o.val.f[0], Adt):
                rep.check(False if o.kind == 'panic' or o.kind == 'ret' and isinstance(o.val, Adt) and o.val.vi == 1 else None, 'read:item', 'an item is refused: %s %s' % (short(o.val), d))
                continue
            ins = o.val.f[0]
            ds = [(m, decide(I2, o.st, 'Le', m, LEN)) for m in need]
            miss = [(m, x) for m, x in ds if x is not True]
            if A['ins'].names[ins.vi] == 'ReadBytes':
                if not miss or miss[0][1] is None:
                    rep.check(False if not miss else None, 'read:waits', 'the decoder asks for more when an item is all there %s' % d)
                    continue
                n = ins.f[0]
                lst, mst = decide(I2, o.st, 'Ge', n, 1), decide(I2, o.st, 'Le', ladd(LEN, n), miss[0][0])
                rep.check(bool(lst), 'read:asks-nothing', 'the decoder asks for %s bytes, which may be none, and would ask forever %s' % (short(n), d))
                rep.check(bool(mst), 'read:asks-more', 'the decoder asks for %s bytes; only %s are missing %s' % (short(n), short(ladd(miss[0][0], LEN, -1)), d))
                c = canon(I2.content(o.st, o.st.mem[('in', 'ctx')]))
                rep.check(True if same_value(I2, o.st, c, canon(ctx)) else None, 'read:keeps', 'the decoder moves on without an item %s' % d)
                continue
            rep.check(not miss, 'read:early', 'an item is taken before all of it is there %s' % d)
            last = decide(I2, o.st, 'Eq', ladd(NITEM, 1), cnt)
            rep.check(last if last is not None else False, 'read:count', 'a %s is taken as complete although it may have more items' % ty)
            x = o.val.f[0].f[0]
            x = x.f[0].f[0] if isinstance(x, Adt) and isinstance(x.f[0], Adt) else x
            x = x.f[0] if isinstance(x, Adt) and x.key == '@dm' else x
            rep.check(last_is(I2, o.st, x, it), 'read:value', 'the last item of a %s is read as %s %s' % (ty, short(x), d))
        for s in hs:
            last = decide(I2, s, 'Eq', ladd(NITEM, 1), cnt)
            rep.check(last is False if last is not None else None, 'read:count', 'the decoder goes on after the last item %s' % d)
            rep.check(all(decide(I2, s, 'Le', m, LEN) for m in need), 'read:early', 'an item is taken before all of it is there %s' % d)
            c = I2.content(s, s.mem[('in', 'ctx')])
            seqs = []
            collect(c, seqs)
            rep.check(last_is(I2, s, seqs[0], it) if len(seqs) == 1 else None, 'read:value', 'an item of a %s is read as %s %s' % (ty, short(c), d))
            want = build(at)
            rep.check(True if same_value(I2, s, canon(strip(c)), canon(want)) else None, 'read:step', 'the state after one more item is not the expected one: %s instead of %s' % (short(canon(strip(c))), short(canon(want))))
            steps += 1
    return steps


def collect(v, out):
    if isinstance(v, Seq):
        if v.p and v.p[0] == ('t', PRE):
            out.append(v)
    elif isinstance(v, Adt):
        for x in v.f:
            collect(x, out)


def strip(v):
    """the state with its last item counted among those before"""
    if isinstance(v, Seq) and v.p and v.p[0] == ('t', PRE):
        return seq(v.p[:1])
    if isinstance(v, Adt):
        return adt(v.key, v.vi, [strip(x) for x in v.f])
    return v


def last_is(I, st, x, it):
    """is x the items before and then this one?"""
    if not isinstance(x, Seq) or not x.p or x.p[0] != ('t', PRE) or any(p[0] != 'v' for p in x.p[1:]):
        return None
    if len(x.p) != 2:
        return False
    vs = [x.p[1][1]] if len(it) == 1 else list(x.p[1][1].f) if isinstance(x.p[1][1], Adt) and len(x.p[1][1].f) == 2 else None
    if vs is None:
        return None
    r = [slice_is(I, st, v, lo, hi) for v, (lo, hi) in zip(vs, it)]
    return False if False in r else None if None in r else True
