"""The wire format (properties W01-W07): identifiers, requests, responses."""
from .vals import *
from .canon import *
from .interp import Interp, State, Out
from . import engine
from .engine import find_method, find_trait_method, Missing
from .rules_engine import floor, vague
from .epaths import Tables
from .report import Report
from .split import settle as settle_, Unsure

HE = 'hop_engine'
BUF = typed(mk('buf'), ('slice', ('prim', 'u8')))
LEN = mk('len', BUF)


def byte(i):
    return typed(mk('idx', BUF, i), ('prim', 'u8'))


def be(ty, lo, hi):
    return mk('frombe', ty, mk('sub', BUF, lo, hi))


def decide(I, st, op, a, b):
    """True / False / None"""
    t = I.truth(st, I.cmp(st, op, a, b))
    return None if t is None else bool(t)


def single(I, st, v):
    if isinstance(v, int):
        return v
    lo, hi = I.rng(st, v)
    return lo if lo == hi else None


def excluded(I, st, t, vals):
    """can t have none of these values?"""
    return all(I.truth(st, I.cmp(st, 'Eq', t, v)) == 0 for v in vals)


# ------------------------------------------------------------------ W01
def u8_tables(F):
    """local enums decoded from a byte: (adt key, fn key)"""
    for im in F.impls:
        tr = im.get('trait')
        if tr is None or tr.split('::')[-1] != 'TryFrom':
            continue
        t = im['crate'].ty(im['self'])
        if t[0] != 'adt' or not t[1].startswith('hop') or [im['crate'].ty(x) for x in im.get('targs', [])][1:] != [('prim', 'u8')]:
            continue
        for x in im['items']:
            if x['n'] == 'try_from' and x.get('k') in F.fns:
                yield t[1], x['k']


def is_text(ts):
    return len(ts) == 1 and ts[0][0] == 'ref' and ts[0][-1] == ('str',)


def text_of(v):
    """the bytes of a string constant, or None"""
    v = canon(v)
    if isinstance(v, Seq) and all(p[0] == 'v' and isinstance(p[1], int) for p in v.p):
        return bytes(p[1] for p in v.p)
    return None


def W01(F, rep):
    """every identifier decodes to exactly the item it encodes, every other byte is refused, and names convert back and forth"""
    n = 0
    for key, fk in sorted(u8_tables(F)):
        a = F.adts[key]
        nm = key.split('::')[-1] if key.split('::')[-1] not in ('Error', 'ParseError') else '::'.join(key.split('::')[-3:])
        I = Interp(F, 50000)
        b = typed(mk('byte'), ('prim', 'u8'))
        back = {}
        for o in I.start(fk, [b], State()):
            if o.kind != 'ret':
                rep.bad('%s:%s' % (nm, o.kind), 'decoding %s does not return' % nm) if o.kind == 'panic' else rep.undecided('%s:%s' % (nm, o.kind), 'decoding does not end')
                continue
            v = o.val
            if not isinstance(v, Adt):
                rep.undecided('%s:value' % nm, 'the decoded value could not be read')
            elif v.vi == 0:
                x = single(I, o.st, b)
                item = v.f[0]
                if x is None or not isinstance(item, Adt):
                    rep.undecided('%s:value' % nm, 'the byte of %s could not be told' % short(item))
                    continue
                rep.check(a.discr[item.vi] == x, '%s:decode:%d' % (nm, x), 'byte %d decodes to %s, which encodes to %d' % (x, a.names[item.vi], a.discr[item.vi]))
                back[x] = item.vi
            else:
                rep.check(excluded(I, o.st, b, a.discr) or None if not any(single(I, o.st, b) == d for d in a.discr) else False, '%s:refused' % nm,
                          'a byte that encodes an item of %s is refused (%s)' % (nm, single(I, o.st, b)))
        rep.saw(I)
        for i, d in enumerate(a.discr):
            rep.check(d in back or None, '%s:lost:%s' % (nm, a.names[i]), '%s, encoded as %d, has no byte that decodes to it' % (a.names[i], d))
        rep.check(len(set(a.discr)) == len(a.discr) and all(0 <= d < 256 for d in a.discr), '%s:unique' % nm, 'two items of %s share an identifier' % nm)
        rep.sample('%s: %d identifiers' % (nm, len(back)))
        n += 1
    cid = [k for k in F.adts if k.endswith('::CommandId') and k.startswith(HE)]
    if len(cid) != 1:
        raise Missing('CommandId')
    a = F.adts[cid[0]]
    c7 = [d for d in a.discr if d > 127]
    rep.check(not c7, 'CommandId:seven-bits', 'command identifier %s needs the bit that says whether a key type follows' % c7)
    # names
    nk = find_method(F, 'CommandId', HE, 'name')
    fk = find_trait_method(F, 'FromStr', 'CommandId', 'from_str', HE)
    names = {}
    ways = [('from_str', fk)]
    for im in F.impls:
        if im.get('trait') == 'core::convert::TryFrom' and im['crate'].ty(im['self'])[:2] == ('adt', a.key) and is_text([im['crate'].arg(x) for x in im.get('targs', [])][1:]):
            ways += [('try_from', x['k']) for x in im['items'] if x['n'] == 'try_from' and x.get('k') in F.fns]
    try:
        shown = find_trait_method(F, 'Display', 'CommandId', 'fmt', HE)
    except Missing:
        shown = None
    for i, v in enumerate(a.names):
        I = Interp(F, 20000)
        st = State()
        st.mem[('in', 'c')] = adt(a.key, i)
        out = I.start(nk, [ref(('in', 'c'))], st)
        if len(out) != 1 or out[0].kind != 'ret':
            rep.undecided('CommandId:name:%s' % v, 'the name could not be read')
            continue
        t = I.content(out[0].st, out[0].val)
        names[v] = t
        for how, wk in ways:
            J = Interp(F, 50000)
            st = State()
            st.mem[('in', 's')] = t
            res = J.start(wk, [ref(('in', 's'))], st)
            vs = {(o.val.vi, o.val.f[0].vi if o.val.vi == 0 else None) if o.kind == 'ret' and isinstance(o.val, Adt) else None for o in res}
            rep.check((vs == {(0, i)}) if None not in vs and len(vs) == 1 else None, 'CommandId:%s:%s' % (how, v),
                      'the name of %s, %s, converts back to %s' % (v, short(canon(t)), ', '.join('an error' if x and x[0] else a.names[x[1]] if x else '?' for x in vs)))
            rep.saw(J)
        n += 1
        if shown:
            J = Interp(F, 20000)
            st = State()
            st.mem[('in', 'c')] = adt(a.key, i)
            st.mem[('in', 'f')] = EMPTY
            for o in J.start(shown, [ref(('in', 'c')), ref(('in', 'f'))], st):
                w = canon(o.st.mem.get(('in', 'f'), EMPTY))
                rep.check((False if o.kind == 'panic' else None) if o.kind != 'ret' else None if vague(w) else w == canon(t) and not (isinstance(o.val, Adt) and o.val.vi), 'CommandId:shown:%s' % v,
                          '%s, whose name is %s, is shown as %s' % (v, short(canon(t)), short(w)))
            rep.saw(J)
    for how, wk in ways:
        I = Interp(F, 50000)
        st = State()
        s = typed(mk('text'), ('str',))
        outs = I.start(wk, [rval(s)], st)
        for o in outs:
            if o.kind == 'panic':
                rep.bad('CommandId:%s:panic' % how, 'converting text to a command panics: %s' % short(o.val))
        oks = [o for o in outs if o.kind == 'ret' and isinstance(o.val, Adt) and o.val.vi == 0]
        for o in oks:
            said = [k[1] for k, v in o.st.facts.items() if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'eqv' and v == 1]
            exact = [e for e in said if canon(s) in e.a]
            folded = [x for e in said for x in e.a if isinstance(x, T) and x.op in ('lowercase', 'uppercase', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replace') and mentions(x, canon(s))]
            folded += [k[1] for k, v in o.st.facts.items() if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'pred' and v == 1 and mentions(k[1], canon(s))]
            rep.check(True if exact else False if folded else None, 'CommandId:%s:exact' % how,
                      'text converts to %s when not it but %s is the name' % (a.names[o.val.f[0].vi] if isinstance(o.val.f[0], Adt) else 'a command', short(folded[0]) if folded else '?'))
        rep.check(True if len(oks) == len(a.names) else None, 'CommandId:%s:others' % how, 'text converts to a command in %d ways; there are %d names' % (len(oks), len(a.names)))
        rep.saw(I)
    rep.sample('CommandId: %d names convert back' % len(names))
    floor(rep, n, 20, 'tables and names')


# ------------------------------------------------------------------ request parser
class Walk:
    """What the bytes known on a path say the request is, read as the format prescribes."""

    def __init__(self, F, I, st, length, simple):
        self.I, self.st, self.L = I, st, length
        cid = F.adts[[k for k in F.adts if k.endswith('::CommandId') and k.startswith(HE)][0]]
        kt = F.adts[[k for k in F.adts if k.endswith('::state::KeyType')][0]]
        self.need = []          # lengths at which more of the request is there, in order
        self.stop = None        # why the walk ended: 'command' | 'keytype' (undetermined or invalid), 'end', 'open'
        self.cmd = self.kt = None
        low, top = typed(mk('low7', byte(0)), ('prim', 'u8')), typed(mk('bit7', byte(0)), ('prim', 'u8'))
        self.need.append(1)
        c = single(I, st, low)
        if c is None or c not in cid.discr:
            self.bad_cmd = excluded(I, st, low, cid.discr)
            self.stop = 'command'
            return
        self.cmd = cid.discr.index(c)
        t = I.truth(st, I.cmp(st, 'Eq', top, 1))
        if t is None:
            self.stop = 'open'
            return
        h = 1
        if t:
            h = 2
            self.need.append(2)
            k = single(I, st, byte(1))
            if k is None or k not in kt.discr:
                self.bad_kt = excluded(I, st, byte(1), kt.discr)
                self.stop = 'keytype'
                return
            self.kt = kt.discr.index(k)
        self.ends = []
        if self.cmd in simple:
            self.stop, self.end = 'end', h
            return
        self.need.append(h + 1)
        cnt = byte(h)
        at = h + 1
        self.args = []
        for j in range(300):
            more = I.truth(st, I.cmp(st, 'Lt', j, cnt))
            if more == 0:
                self.stop, self.end = 'end', at
                return
            if more is None:
                self.stop = 'open'
                return
            self.need.append(ladd(at, 4))
            n = be('u32', at, ladd(at, 4))
            e = ladd(ladd(at, 4), n)
            self.need.append(e)
            self.args.append((ladd(at, 4), e))
            at = e
            if decide(I, st, 'Le', self.need[-2], self.L) is not True:
                self.stop = 'open'
                return

    def short_of(self):
        """is a stage of the request known to be incomplete? True / False / None"""
        ds = [decide(self.I, self.st, 'Le', t, self.L) for t in self.need]
        for i, d in enumerate(ds):
            if d is None and True in ds[i:]:
                d = True        # each stage is longer than the one before
            if d is False:
                return True
            if d is None:
                return None
        return False if self.stop == 'end' else None


def simple_cmds(F):
    cid = [k for k in F.adts if k.endswith('::CommandId') and k.startswith(HE)][0]
    out = set()
    for i in range(len(F.adts[cid].names)):
        I = Interp(F, 20000)
        vs = {o.val if o.kind == 'ret' else None for o in I.start(find_method(F, 'CommandId', HE, 'is_simple'), [adt(cid, i)], State())}
        if vs == {1}:
            out.add(i)
        elif vs != {0}:
            raise Missing('is_simple')
    return out


def feed(F, which, ctx, st, buf, passes, prune=None, nodup=False):
    """paths of Context::feed, its loops walked pass by pass: (I, ends, states at the head of a further pass)"""
    key = find_method(F, 'Context', HE, 'feed', which)
    mod = 'hop_engine::command::%s::' % which
    I = Interp(F, 600000)
    I.nodup = nodup
    heads = []

    def cut(s, fr, bb):
        if not fr.fn['k'].startswith(mod):
            return False
        n = s.mem.get(('passes',), 0)
        if n >= passes or prune is not None and prune(I, s, n):
            if n >= passes:
                heads.append(s)
            return True
        s.mem[('passes',)] = n + 1
        return 'go'
    I.cut = cut
    st.mem[('in', 'ctx')] = ctx
    st.mem[('passes',)] = 0
    return I, I.start(key, [ref(('in', 'ctx')), buf], st), heads


def longer(I, st, m):
    """the state with the buffer grown from m bytes to all of it: what m was known to reach, the length reaches"""
    st = st.copy()
    st.frames = []
    f = dict(st.facts)
    more = []
    for k, v in list(f.items()):
        if k[0] == 'rng' and k[1] is m:
            a = f.get(('rng', LEN), (0, (1 << 31) - 1))
            f[('rng', LEN)] = (max(a[0], v[0]), a[1])
        elif k[0] == 'lin' and any(t is m and c > 0 for t, c in k[1]) and not any(t is LEN for t, c in k[1]):
            more.append((lin(0, {(LEN if t is m else t): c for t, c in k[1]}), v[0]))
    st.facts = f
    for x, lo in more:
        I.add_range(st, x, lo, 1 << 126)
    return st


def swap(m):
    """names for what an earlier buffer held"""
    o, n = typed(mk('buf0'), TY[BUF]), typed(mk('m0'), TY[m])
    return lambda v: o if v is BUF else n if v is m else None


def earlier(st, m):
    """what is known about the buffer before, under other names"""
    st = st.copy()
    st.frames = []
    f = swap(m)
    g = {}
    for k, v in st.facts.items():
        if k[0] in ('lin', 'nelin'):
            k = (k[0], tuple((rebuild(t, f), c) for t, c in k[1])) + tuple(k[2:])
        else:
            k = (k[0], rebuild(k[1], f)) + tuple(k[2:])
        g[k] = v
    st.facts = g
    return st


def new_ctx(F, which):
    I = Interp(F, 20000)
    st = State()
    out = I.start(find_method(F, 'Context', HE, 'new', which), [], st)
    if len(out) != 1 or out[0].kind != 'ret':
        raise Missing('Context::new')
    return out[0].val, out[0].st


def call(I, F, st, ty, name, mod, args):
    J = Interp(F, 100000)
    return J, J.start(find_method(F, ty, HE, name, mod), args, st)


def slice_is(I, st, v, lo, hi):
    """is v the bytes lo..hi of the buffer? True / False / None"""
    c = canon(I.content(st, v))
    if isinstance(c, T) and c.op == 'sub' and c.a[0] is BUF:
        a, b = c.a[1], c.a[2]
    elif c is BUF:
        a, b = 0, LEN
    elif isinstance(c, Seq) and not c.p:
        return I.same(st, lo, hi)
    else:
        if isinstance(c, Seq) and len(c.p) == 1 and c.p[0][0] == 't':
            return slice_is(I, st, c.p[0][1], lo, hi)
        return None
    x, y = I.same(st, a, lo), I.same(st, b, hi)
    if x is True and y is True:
        return True
    if x is False or y is False:
        return False
    # both are affine in the same lengths: different forms are different numbers for some of them
    return False if not vague(a) and not vague(b) else None


def names(F):
    cid = F.adts[[k for k in F.adts if k.endswith('::CommandId') and k.startswith(HE)][0]]
    kt = F.adts[[k for k in F.adts if k.endswith('::state::KeyType')][0]]
    pe = F.adts[[k for k in F.adts if k.endswith('request::context::ParseError')][0]]
    return cid, kt, pe


def req_answers(F, rep, key, o, w, d):
    """do the accessors of the request a path returns give what the bytes say?"""
    cid, kt, pe = names(F)
    st = o.st.copy()
    st.frames = []
    st.mem[('in', 'req')] = o.val.f[0].f[0]
    rq = ref(('in', 'req'))
    I = Interp(F, 100000)

    def ask(name, *a):
        out = [x for x in I.start(find_method(F, 'Request', HE, name, 'request'), [rq] + list(a), st.copy())]
        if len(out) != 1:
            return None, None
        if out[0].kind != 'ret':
            return out[0].kind, None
        return out[0], out[0].val

    def opt(v):
        return v.vi if isinstance(v, Adt) and v.key.endswith('Option') else None
    x, v = ask('command_id')
    rep.check(v.vi == w.cmd if isinstance(v, Adt) else None, key + ':command', 'the request %s answers another command: %s' % (d, short(v)))
    x, v = ask('key_type')
    if opt(v) is None:
        rep.undecided(key + ':keytype', 'the key type of a parsed request could not be read')
    else:
        got = v.f[0].vi if v.vi == 1 and isinstance(v.f[0], Adt) else None if v.vi == 0 else '?'
        rep.check(got == w.kt if got != '?' else None, key + ':keytype', 'the request %s answers key type %s' % (d, short(v)))
    n = len(w.args) if hasattr(w, 'args') else 0
    x, v = ask('arg_count')
    rep.check(True if v == n else I.same(st, v, n) if v is not None and lparts(v) is not None else None, key + ':count', 'the request %s has %d arguments and answers %s' % (d, n, short(v)))
    for j in range(n + 1):
        x, v = ask('arg', j)
        if x == 'panic':
            rep.bad(key + ':arg-panic', 'reading argument %d of the request %s panics' % (j, d))
            continue
        if opt(v) is None:
            rep.undecided(key + ':arg', 'argument %d of a parsed request could not be read' % j)
            continue
        if j == n:
            rep.check(v.vi == 0, key + ':arg-extra', 'the request %s answers an argument %d it does not have' % (d, j))
            continue
        if v.vi == 0:
            rep.bad(key + ':arg-missing', 'the request %s does not answer its argument %d' % (d, j))
            continue
        lo, hi = w.args[j]
        rep.check(slice_is(I, x.st, v.f[0], lo, hi), key + ':arg', 'argument %d of the request %s is answered as %s; its bytes are %s..%s' % (
            j, d, short(canon(I.content(x.st, v.f[0]))), short(lo), short(hi)))
    x, v = ask('as_bytes')
    if x == 'panic' or v is None:
        rep.undecided(key + ':bytes', 'the bytes of a parsed request could not be read')
    else:
        rep.check(slice_is(I, x.st, v, 0, w.end), key + ':bytes', 'the request %s gives its bytes as %s; it ends at %s' % (d, short(canon(I.content(x.st, v))), short(w.end)))


def settle(I, st, x, v):
    try:
        return settle_(I, st, x, v)
    except Unsure:
        return 'unsure'


def judge_req(F, rep, key, I, o, length, simple, deep=True):
    """one finished path of feed against what the bytes say; where they are not known far enough, byte by byte"""
    r = Report(rep.prop, F)
    q = judge_path(F, r, key, I, o, length, simple, deep)
    if r.und and not r.viol and single(I, o.st, byte(0)) is None and rep.counts.get('paths taken byte by byte', 0) < 40:
        rep.count('paths taken byte by byte')
        rs = []
        for v in range(256):
            st = settle(I, o.st, byte(0), v)
            if st is None:
                continue
            if st == 'unsure':
                rs = []
                break
            r2 = Report(rep.prop, F)
            judge_path(F, r2, key, I, Out(o.kind, o.val, st, o.where), length, simple, deep)
            if r2.und and not r2.viol and v > 127 and single(I, st, byte(1)) is None:
                for v2 in list(range(10)) + [255]:
                    s2 = settle(I, st, byte(1), v2)
                    if s2 is not None and s2 != 'unsure':
                        judge_path(F, r2, key, I, Out(o.kind, o.val, s2, o.where), length, simple, deep)
            rs.append(r2)
            if r2.viol:
                rs = [r2]
                break
        if rs and (rs[0].viol or not any(x.und for x in rs)):
            r = rs[0]
            for x in rs[1:]:
                r.obl += x.obl
                r.done += x.done
    if r.und and not r.viol and rep.counts.get('paths taken count by count', 0) < 40:
        # the path never looked at the number of arguments: is it right for each that it may be?
        w = Walk(F, I, o.st, length, simple)
        h = None if w.cmd is None else 1 if w.kt is None else 2
        if w.stop == 'open' and h and hasattr(w, 'args') and single(I, o.st, byte(h)) is None:
            rep.count('paths taken count by count')
            for v in range(len(w.args) + 2):
                st = settle(I, o.st, byte(h), v)
                if st is None or st == 'unsure':
                    continue
                r2 = Report(rep.prop, F)
                judge_path(F, r2, key, I, Out(o.kind, o.val, st, o.where), length, simple, deep)
                if r2.viol:
                    r = r2
                    break
    merge(rep, r)
    return q


def merge(rep, r):
    rep.obl += r.obl
    rep.done += r.done
    for a, b in ((rep.viol, r.viol), (rep.und, r.und)):
        for k, v in b.items():
            a.setdefault(k, v)
    for k, v in r.counts.items():
        rep.count(k, v)
    for x in r.samples:
        rep.sample(x)
    rep.fns |= r.fns


def judge_path(F, rep, key, I, o, length, simple, deep=True):
    cid, kt, pe = names(F)
    w = Walk(F, I, o.st, length, simple)
    d = '(%s%s%s)' % (cid.names[w.cmd] if w.cmd is not None else 'command unknown', ', ' + kt.names[w.kt] if w.kt is not None else '',
                      ', %d arguments' % len(w.args) if hasattr(w, 'args') else '')
    if o.kind == 'panic':
        rep.bad(key + ':panic', 'parsing a request panics: %s in %s %s' % (short(o.val), o.where, d))
        return None
    if o.kind != 'ret':
        rep.undecided(key + ':' + o.kind, 'a path of the parser does not end')
        return None
    v = o.val
    if not isinstance(v, Adt) or v.vi == 0 and not isinstance(v.f[0], Adt):
        rep.undecided(key + ':answer', 'the answer of the parser could not be read')
        return None
    if v.vi == 1:
        e = v.f[0]
        code = pe.names[e.vi] if isinstance(e, Adt) and e.key == pe.key else None
        if code == 'CommandIdInvalid':
            rep.check(True if w.stop == 'command' and w.bad_cmd else None if w.stop == 'command' and not getattr(w, 'bad_kt', False) else False, key + ':' + code, 'a request with a valid command is refused with %s %s' % (code, d))
        elif code == 'KeyTypeInvalid':
            rep.check(True if w.stop == 'keytype' and w.bad_kt else None if w.stop in ('keytype', 'command') and not getattr(w, 'bad_cmd', False) else False, key + ':' + code,
                      'a request with %s is refused with %s %s' % ('an invalid command' if getattr(w, 'bad_cmd', False) else 'a valid key type', code, d))
        else:
            rep.undecided(key + ':error', 'an error of the parser could not be read')
        return 'err'
    if v.f[0].vi == 0:
        s = w.short_of()
        rep.check(s if s is not None else False if w.stop == 'end' and s is False else False if exact_end(w) else None, key + ':incomplete',
                  'the parser waits for more although what it has may be a whole request %s' % d)
        return 'none'
    if w.stop in ('command', 'keytype'):
        rep.check(None if not getattr(w, 'bad_cmd', False) and not getattr(w, 'bad_kt', False) else False, key + ':accepts', 'a request with an invalid %s is accepted' % w.stop)
        return 'some'
    if w.stop != 'end':
        rep.check(None if w.stop == 'open' and not settled_count(w) else False, key + ':early', 'a request is taken as complete before all of its arguments are there %s' % d)
        return 'some'
    s = w.short_of()
    rep.check(s is False if s is not None else None, key + ':early', 'a request is taken as complete before all of it is there %s' % d)
    if deep:
        req_answers(F, rep, key, o, w, d)
    return 'some'


def exact_end(w):
    """the path leaves open whether all is there, so it waits also when it is"""
    return w.stop == 'end' and w.short_of() is None


def settled_count(w):
    # the path ended with a number of arguments it has not compared with the count
    return hasattr(w, 'args')


def few(I, st):
    """past the header the key type is only carried along: follow the first and the last"""
    k = single(I, st, byte(1))
    t = I.truth(st, I.cmp(st, 'Eq', mk('bit7', byte(0)), 1))
    return t == 1 and k is not None and 0 < k < 7


def W03(F, rep):
    """on every path the parser answers what the bytes it has say, whichever way they arrive, and is ready for the next request afterwards"""
    simple = simple_cmds(F)
    fresh, _ = new_ctx(F, 'request')
    M = typed(mk('m'), ('prim', 'usize'))
    base = State()
    J = Interp(F)
    J.add_range(base, LEN, 0, (1 << 31) - 1)
    J.assume(base, J.cmp(base, 'Le', M, LEN), 1)
    I, ts, heads = feed(F, 'request', fresh, base.copy(), ref(('val', BUF), (('sub', 0, M),)), 5, lambda I, s, n: n >= 2 and few(I, s))
    rep.saw(I)
    tally = {}
    resumed = {}
    for o in ts:
        r = judge_req(F, rep, 'parse', I, o, M, simple)
        tally[r] = tally.get(r, 0) + 1
        c = canon(I.content(o.st, o.st.mem[('in', 'ctx')]))
        if r in ('none', 'some', 'err') and c != fresh and c is not fresh:
            resumed.setdefault((r, repr(c)), []).append(o)
    # go on where the first call stopped: the same bytes and more (none), or the bytes of the next request (some, err)
    n2 = 0
    for (r, _), os_ in sorted(resumed.items(), key=lambda x: x[0]):
        o = os_[0] if len(os_) == 1 else None
        for o in os_[:2]:
            st = longer(I, o.st, M)
            if r != 'none':
                # another buffer: nothing known about it
                st = earlier(o.st, M)
                for k, v in base.facts.items():
                    st.facts[k] = v
            ctx = o.st.mem[('in', 'ctx')]
            if r != 'none':
                ctx = rebuild(I.content(o.st, ctx), swap(M))
            I2, t2, h2 = feed(F, 'request', ctx, st.copy(), rval(BUF), 2 if r == 'none' else 3)
            if r == 'none' and h2 and not any(x.kind == 'ret' and x.val.vi == 0 and x.val.f[0].vi == 1 for x in t2 if isinstance(x.val, Adt) and isinstance(x.val.f[0], Adt)):
                # it reads what it had read again, so it takes more steps to the end
                I2, t2, h2 = feed(F, 'request', ctx, st, rval(BUF), 5, lambda I, s, n: n >= 2 and few(I, s))
            for x in t2:
                q = judge_req(F, rep, 'resume' if r == 'none' else 'next', I2, x, LEN, simple)
                n2 += 1
                tally['again ' + str(q)] = tally.get('again ' + str(q), 0) + 1
    for k, v in sorted(tally.items(), key=repr):
        rep.count('paths: %s' % k, v)
    # any number of arguments: one pass from any state between two arguments
    step = induct(F, rep, simple)
    rep.count('inductive steps', step)
    if not step:
        rep.notes.append('requests with more arguments than were walked through are not covered: the state between two arguments was not recognised')
    for k in ('err', 'none', 'some', 'again none', 'again some'):
        floor(rep, tally.get(k, 0), 10, 'paths ending in %s' % k)
    rep.sample('paths by outcome: %s' % ', '.join('%s %d' % (k, v) for k, v in sorted(tally.items(), key=repr)))


def same_value(I, st, a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Adt) and isinstance(b, Adt) and a.key == b.key and a.vi == b.vi and len(a.f) == len(b.f):
        return all(same_value(I, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.p) == len(b.p):
        return all(x[0] == y[0] and (x == y or x[0] == 'v' and same_value(I, st, x[1], y[1])) for x, y in zip(a.p, b.p))
    if lparts(a) is not None and lparts(b) is not None:
        return I.same(st, a, b) is True
    return False


IDX = typed(mk('at'), ('prim', 'usize'))
NARG = typed(mk('parsed'), ('prim', 'usize'))
PRE = typed(mk('before'), ('slice', ('prim', 'usize')))


class NoShape(Exception):
    pass


def general(I, v1, v2, at2, n2):
    """the state after n2 arguments ending at at2 as an instance of a state after any number; v1 is the state an argument earlier.
    Returns build(idx, before, n)"""
    def go(x, y):
        if x is y or x == y:
            return lambda i, b, n: y
        if isinstance(x, Adt) and isinstance(y, Adt) and x.key == y.key and x.vi == y.vi and len(x.f) == len(y.f):
            fs = [go(p, q) for p, q in zip(x.f, y.f)]
            return lambda i, b, n: adt(y.key, y.vi, [f(i, b, n) for f in fs])
        if isinstance(x, Seq) and isinstance(y, Seq):
            if len(y.p) == len(x.p) + 1 == n2 and y.p[:len(x.p)] == x.p and y.p[-1][0] == 'v':
                c = ladd(y.p[-1][1], at2, -1)
                if not isinstance(c, int):
                    raise NoShape
                return lambda i, b, n: seq(b + (('v', ladd(i, c)),))
            raise NoShape
        if lparts(x) is not None and lparts(y) is not None:
            c = ladd(y, at2, -1)
            if isinstance(c, int):
                return lambda i, b, n: ladd(i, c)
            if isinstance(x, int) and isinstance(y, int) and y == x + 1:
                return lambda i, b, n: ladd(n, y - n2)
        raise NoShape
    f = go(v1, v2)
    return f


def induct(F, rep, simple):
    """one pass from the state after any number n >= 1 of arguments"""
    cid, kt, pe = names(F)
    fresh, _ = new_ctx(F, 'request')
    base = State()
    J = Interp(F)
    J.add_range(base, LEN, 0, (1 << 31) - 1)

    def heads(passes):
        I, ts, hs = feed(F, 'request', fresh, base.copy(), rval(BUF), passes, lambda I, s, n: n >= 2 and few(I, s))
        out = {}
        for h in hs:
            w = Walk(F, I, h, LEN, simple)
            if w.stop == 'open' and hasattr(w, 'args'):
                out[(w.cmd, w.kt)] = (I, h, w, canon(I.content(h, h.mem[('in', 'ctx')])))
        return out
    found = None
    for passes in range(3, 9):
        a, b = heads(passes), heads(passes + 1)
        if a and b and all(len([x for x in v[2].args if decide(v[0], v[1], 'Le', x[1], LEN)]) >= 1 for v in a.values()) and set(a) == set(b):
            found = a, b
            break
    if not found:
        return 0
    a, b = found
    steps = 0
    for k in sorted(b, key=repr):
        I, h, w, v2 = b[k]
        got = [x for x in w.args if decide(I, h, 'Le', x[1], LEN) is True]
        n2, at2 = len(got), got[-1][1]
        try:
            build = general(I, a[k][3], v2, at2, n2)
        except NoShape:
            return 0
        c0 = None
        hdr = 1 if w.kt is None else 2
        st = State()
        st.facts = {f: x for f, x in base.facts.items()}
        low = typed(mk('low7', byte(0)), ('prim', 'u8'))
        I.add_range(st, LEN, 0, (1 << 31) - 1)
        I.add_range(st, low, cid.discr[w.cmd], cid.discr[w.cmd])
        I.add_range(st, mk('bit7', byte(0)), hdr - 1, hdr - 1)
        if w.kt is not None:
            I.add_range(st, byte(1), kt.discr[w.kt], kt.discr[w.kt])
        cnt = byte(hdr)
        I.add_range(st, NARG, 1, 254)
        I.add_range(st, IDX, hdr + 5, (1 << 31) - 1)
        I.assume(st, I.cmp(st, 'Lt', NARG, cnt), 1)
        I.assume(st, I.cmp(st, 'Le', IDX, LEN), 1)
        I.assume(st, I.cmp(st, 'Eq', slen(seq((('t', PRE),))), ladd(NARG, 1, -1)), 1)
        ctx = build(IDX, (('t', PRE),), NARG)
        I2, ts, hs = feed(F, 'request', ctx, st, rval(BUF), 1)
        e = ladd(ladd(IDX, 4), be('u32', IDX, ladd(IDX, 4)))
        d = '(%s, after any number of arguments)' % cid.names[w.cmd]
        for o in ts:
            if o.kind == 'panic':
                rep.bad('parse:panic', 'parsing a request panics: %s in %s %s' % (short(o.val), o.where, d))
                continue
            if o.kind != 'ret' or not isinstance(o.val, Adt) or o.val.vi != 0 or not isinstance(o.val.f[0], Adt):
                rep.check(False if o.kind == 'ret' and isinstance(o.val, Adt) and o.val.vi == 1 else None, 'parse:error', 'an argument is refused %s' % d)
                continue
            h1, h2 = decide(I2, o.st, 'Le', ladd(IDX, 4), LEN), decide(I2, o.st, 'Le', e, LEN)
            last = decide(I2, o.st, 'Eq', ladd(NARG, 1), cnt)
            if o.val.f[0].vi == 0:
                rep.check(h1 is False or h2 is False, 'parse:incomplete', 'the parser waits for more although what it has may be a whole argument %s' % d)
                c = canon(I2.content(o.st, o.st.mem[('in', 'ctx')]))
                rep.check(True if same_value(I2, o.st, c, canon(ctx)) else None, 'parse:keeps', 'the parser moves on without an argument %s' % d)
                continue
            rep.check(h2 is True, 'parse:early', 'an argument is taken before all of it is there %s' % d)
            rep.check(last if last is not None else False, 'parse:count', 'a request is taken as complete although it may have more arguments %s' % d)
            any_answers(F, rep, o, e, cnt, d)
        for h in hs:
            last = decide(I2, h, 'Eq', ladd(NARG, 1), cnt)
            h2 = decide(I2, h, 'Le', e, LEN)
            rep.check(h2 is True, 'parse:early', 'an argument is taken before all of it is there %s' % d)
            rep.check(last is False if last is not None else None, 'parse:count', 'the parser goes on after the last argument %s' % d)
            prev = ctx
            want = build(e, parts(seq((('t', PRE),))) + tuple(last_of(ctx)), ladd(NARG, 1))
            c = canon(I2.content(h, h.mem[('in', 'ctx')]))
            rep.check(True if same_value(I2, h, c, canon(want)) else None, 'parse:step', 'the state after one more argument is not the expected one: %s instead of %s' % (short(c), short(want)))
            steps += 1
    return steps


def last_of(v):
    """the element of the one sequence in a general state after its opaque start"""
    out = []

    def go(x):
        if isinstance(x, Seq) and x.p and x.p[0] == ('t', PRE):
            out.extend(x.p[1:])
        elif isinstance(x, Adt):
            for y in x.f:
                go(y)
    go(v)
    return out


def any_answers(F, rep, o, e, cnt, d):
    """the accessors of a request with any number of arguments: its count, its last argument, its end"""
    st = o.st.copy()
    st.frames = []
    st.mem[('in', 'req')] = o.val.f[0].f[0]
    rq = ref(('in', 'req'))
    I = Interp(F, 100000)

    def ask(name, *a):
        out = I.start(find_method(F, 'Request', HE, name, 'request'), [rq] + list(a), st.copy())
        return (out[0], out[0].val) if len(out) == 1 and out[0].kind == 'ret' else (None, None)
    x, v = ask('arg_count')
    rep.check(I.same(x.st, v, cnt) if x is not None and lparts(v) is not None else None, 'parse:count', 'a request answers another number of arguments than its count: %s %s' % (short(v), d))
    x, v = ask('arg', NARG)
    if x is None or not isinstance(v, Adt):
        rep.undecided('parse:arg', 'the last argument could not be read %s' % d)
    else:
        rep.check(slice_is(I, x.st, v.f[0], ladd(IDX, 4), e) if v.vi == 1 else False, 'parse:arg', 'the last argument is answered as %s; its bytes are %s..%s %s' % (
            short(canon(I.content(x.st, v.f[0]))) if v.vi == 1 else 'missing', short(ladd(IDX, 4)), short(e), d))
    x, v = ask('as_bytes')
    rep.check(slice_is(I, x.st, v, 0, e) if x is not None else None, 'parse:bytes', 'a request gives its bytes as %s; it ends at %s %s' % (short(canon(I.content(x.st, v))) if x else '?', short(e), d))
