"""The CLI (properties L01, L02, L03): what a line of input is read as, what is done for it and how the result is printed."""
from .vals import *
from .canon import *
from .split import nonzero
from .interp import Interp, State, some
from .engine import find_method, find_trait_method, Missing, ARGC, arg_term
from .models import NONE, ok, err, RES, POLL, OPT
from . import models as B
from .rules_engine import floor, vague
from .rules_wire import names, same_value, HE
from .rules_build import value_adt
from .rules_client import VEC8, STRING, kind_of, events, SPEC
from . import rules_client as RC

INPUT = typed(mk('input'), ('str',))
SPACE, COLON = 32, 58
# the commands by the name they are entered under, and how many of their arguments are keys
COMMANDS = {
    'append': ('Append', 1), 'decrement:by': ('DecrementBy', 1), 'decrement': ('Decrement', 1), 'delete': ('Delete', 1), 'echo': ('Echo', 0), 'exists': ('Exists', None),
    'get': ('Get', 1), 'increment:by': ('IncrementBy', 1), 'increment': ('Increment', 1), 'is': ('Is', None), 'keys': ('Keys', 1), 'length': ('Length', 1),
    'rename': ('Rename', 2), 'set': ('Set', 1), 'stats': ('Stats', 0), 'type': ('Type', 1),
}
TYPES = {'boolean': 'Boolean', 'bool': 'Boolean', 'bytes': 'Bytes', 'float': 'Float', 'integer': 'Integer', 'int': 'Integer', 'list': 'List', 'map': 'Map', 'set': 'Set',
         'string': 'String', 'str': 'String'}
ODD = ['', 'other', 'other:int', 'get:', 'get:other', ':', ':int', 'GET', 'Get', 'get:INT', 'get:Int', 'increment:by:other', 'by:int', 'by', 'increment:bye', 'increment:', 'set:bool:int', 'int', 'get:by',
       ':get', 'int:get', 'stat', 'xget', 'getx', 'get:int:', 'increment::int', 'décrément', 'rename:by', 'is:', '::']


def find_fn(F, crate, last, n):
    ks = [k for k in F.fns if k.startswith(crate) and k.endswith('::' + last) and '{' not in k and F.fns[k]['body'] and F.fns[k]['body'].get('argc') == n]
    if not ks:
        raise Missing('%s in %s' % (last, crate))
    return min(ks, key=lambda k: (k.count('::'), len(k)))


def split_of(v, c=SPACE):
    return typed(mk('split', v, c), ('slice', ('str',)))


S = split_of(INPUT)
WORD = typed(mk('elem', S, 0), ('str',))


def text(v):
    """a text known in full"""
    if isinstance(v, Seq) and all(p[0] == 'v' and isinstance(p[1], int) for p in v.p):
        return bytes(p[1] for p in v.p)
    return None


class Unknown(Exception):
    pass


def evalw(v, w):
    """a term over the first word, when the word is w"""
    if isinstance(v, int):
        return v
    if v == WORD:
        return w
    t = text(v)
    if t is not None:
        return t
    if isinstance(v, Lin):
        c, ts = lparts(v)
        return c + sum(k * evalw(t, w) for t, k in ts.items())
    if isinstance(v, Seq):
        o = b''
        for p in v.p:
            x = evalw(p[1], w) if p[0] in ('v', 't') else None
            if x is None:
                raise Unknown
            o += bytes([x]) if isinstance(x, int) else x
        return o
    if isinstance(v, T):
        a = v.a
        if v.op == 'len':
            return len(evalw(a[0], w))
        if v.op == 'has':
            return int(bytes([a[1]]) in evalw(a[0], w))
        if v.op in ('before last', 'after last', 'at last'):
            x, c = evalw(a[0], w), bytes([a[1]])
            i = x.rfind(c)
            if i < 0:
                raise Unknown
            return x[:i] if v.op[0] == 'b' else x[i + 1:] if v.op[:2] == 'af' else i
        if v.op == 'eqv':
            return int(evalw(a[0], w) == evalw(a[1], w))
        if v.op == 'not':
            return int(not evalw(a[0], w))
        if v.op == 'sub':
            return evalw(a[0], w)[evalw(a[1], w):evalw(a[2], w)]
        if v.op == 'idx' or v.op == 'elem' and isinstance(a[1], int):
            x = evalw(a[0], w)
            i = evalw(a[1], w)
            if isinstance(x, bytes) and i < len(x):
                return x[i]
            raise Unknown
        if v.op in ('lowercase', 'uppercase', 'trim'):
            x = evalw(a[0], w)
            return x.lower() if v.op[0] == 'l' else x.upper() if v.op[0] == 'u' else x.strip()
        if v.op == 'split' and isinstance(a[1], int):
            return evalw(a[0], w).split(bytes([a[1]]))
        if v.op == 'elem' and isinstance(a[0], T) and a[0].op == 'split':
            x = evalw(a[0], w)
            if isinstance(a[1], int) and a[1] < len(x):
                return x[a[1]]
        if v.op in ('ge0', 'eq0'):
            x = evalw(a[0], w)
            return int(x >= 0 if v.op == 'ge0' else x == 0)
    raise Unknown


def about_word(t):
    return find(t, lambda x: x == WORD) is not None


def possible(st, w):
    """can the first word be w on this path? None when it cannot be told"""
    unk = False
    for k, v in st.facts.items():
        if not isinstance(k[1], T) or not about_word(k[1]):
            continue
        try:
            x = evalw(k[1], w)
        except Unknown:
            unk = True
            continue
        if k[0] == 'b' and bool(x) != bool(v) or k[0] == 'ne' and x in v or k[0] == 'rng' and not v[0] <= x <= v[1]:
            return False
    return None if unk else True


def constants(outs):
    """texts that a part of the first word is compared with"""
    o = set()
    for out in outs:
        for k in out.st.facts:
            if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'eqv' and about_word(k[1]):
                for x in k[1].a:
                    if text(x) is not None:
                        o.add(text(x))
    return o


def candidates(outs):
    """every word that is a command, with and without key type, and words that are not"""
    cs = constants(outs)
    ns = {n.encode() for n in COMMANDS}
    ts = {n.encode() for n in TYPES}
    new = cs - ns - ts
    out = {w.encode() for w in ODD} | cs
    for n in ns | new:
        out.add(n)
        for t in ts | new:
            out.add(n + b':' + t)
    return sorted(out)


def meaning(w):
    """(command, key type or None) of a word, or None"""
    try:
        s = w.decode()
    except UnicodeDecodeError:
        return None
    if s in COMMANDS:
        return COMMANDS[s] + (None,)
    n, c, t = s.rpartition(':')
    if c and n in COMMANDS and t in TYPES:
        return COMMANDS[n] + (TYPES[t],)
    return None


def words_after(n):
    """the words of the input after the first n"""
    return typed(mk('tail', S, n), TY[S])


def word(n):
    return typed(mk('elem', S, n), ('str',))


def tidy(I, st, v):
    """the parts of a list of arguments, words next to each other joined, those known to be none left out"""
    out = []
    for p in parts(canon(v)) if isinstance(v, Seq) else (('t', canon(v)),):
        if p[0] == 'v' and isinstance(p[1], T) and p[1].op == 'elem' and isinstance(p[1].a[0], T) and p[1].a[0].op == 'tail':
            p = ('v', mk('elem', p[1].a[0].a[0], p[1].a[0].a[1] + p[1].a[1]))
        if p[0] == 'each' and p[2] == (('v', mk('elem', p[1], 0)),):
            p = ('t', p[1])
        c = p[1] if p[0] in ('t', 'each') else None
        if c is not None:
            base = c.a[0] if isinstance(c, T) and c.op == 'by' else c
            n = count(base.a[0]) if isinstance(base, T) and base.op == 'tail' else count(base)
            if isinstance(base, T) and I.rng(st, n)[1] <= (base.a[1] if base.op == 'tail' else 0):
                continue
        out.append(p)
    i = len(out) - 2
    while i >= 0:
        p, q = out[i], out[i + 1]
        if p[0] == 'v' and q[0] == 't' and isinstance(p[1], T) and p[1].op == 'elem' and isinstance(q[1], T) and q[1].op == 'tail' and q[1].a[0] == p[1].a[0] and q[1].a[1] == p[1].a[1] + 1:
            out[i:i + 2] = [('t', mk('tail', p[1].a[0], p[1].a[1]))]
        i -= 1
    # the words one by one, where it is known how many there are
    flat = []
    for p in out:
        if p[0] == 'each' and isinstance(p[1], T):
            c, n = (p[1].a[0], p[1].a[1]) if p[1].op == 'by' else (p[1], 1)
            if isinstance(c, T) and c.op == 'tail' and isinstance(n, int):
                lo, hi = I.rng(st, count(c.a[0]))
                if lo == hi and hi - c.a[1] <= 8:
                    for j in range(c.a[1], hi - n + 1, n):
                        flat += [(q[0], rebuild(q[1], lambda t: mk('elem', c.a[0], j + t.a[1]) if isinstance(t, T) and t.op == 'elem' and t.a[0] == c else None)) if q[0] in ('v', 't') else q for q in p[2]]
                    continue
        if p[0] == 't' and isinstance(p[1], T) and p[1].op == 'tail':
            lo, hi = I.rng(st, count(p[1].a[0]))
            if lo == hi and hi - p[1].a[1] <= 8:
                flat += [('v', mk('elem', p[1].a[0], j)) for j in range(p[1].a[1], hi)]
                continue
        flat.append(p)
    return tuple(flat)


def converted(kind, c):
    """the words of a collection as arguments of a kind"""
    e = typed(mk('elem', c, 0), ('str',))
    if kind == 'Boolean':
        return ('each', c, (('v', seq((('v', mk('parsed', 'bool', e)),))),))
    if kind in ('Float', 'Integer'):
        ty = 'f64' if kind == 'Float' else 'i64'
        return ('each', c, (('v', seq(be(ty, mk('parsed', ty, e)))),))
    if kind == 'Map':
        c2 = mk('by', c, 2)
        return ('each', c2, (('v', e), ('v', typed(mk('elem', c, 1), ('str',)))))
    return ('t', c)


def parse_runs(F, exact=None):
    I = RC.interp(F, False, 1)
    I.cut = None
    fk = find_fn(F, 'hop_cli::', 'parse', 1)
    st = State()
    if exact is not None:
        I.onebyone = 8
        I.add_range(st, count(S), exact, exact)
    return I, I.start(fk, [rval(INPUT)], st, {}, None) or I.terms


def perr(F, e):
    """(name, fields) of a parse error"""
    if isinstance(e, Adt) and e.key in F.adts and e.key.endswith('ParseError'):
        return F.adts[e.key].names[e.vi], dict(zip([q[0] for q in F.adts[e.key].variants[e.vi]['f']], e.f))
    return None, {}


def arg_words(v, n):
    """is v one of the words after the first n"""
    v = canon(v)
    while isinstance(v, T) and v.op == 'deref':
        v = v.a[0]
    if isinstance(v, T) and v.op == 'elem' and isinstance(v.a[1], int):
        c, i = v.a
        if c == S:
            return i >= n
        if isinstance(c, T) and c.op == 'tail' and c.a[0] == S:
            return c.a[1] + i >= n
    return None if vague(v) else False


def parses_fact(o, ty, v):
    """the fact a path has on whether a word can be read as a type"""
    for k, x in o.st.facts.items():
        if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'parses' and canon(k[1].a[1]) == canon(v) and (ty is None or k[1].a[0] == ty):
            return bool(x)
    return None


def L02(F, rep):
    """every line of input: the text before the first space decides the command and key type (every command name, every name of a key type, and every other constant the code
    compares with); keys are passed on as they are, other arguments as the key type says; every other line is refused, with the reason and the word concerned"""
    cid, kts, _ = names(F)
    I, ts = parse_runs(F)
    rep.saw(I)
    rep.count('paths', len(ts))
    cands = candidates(ts)
    rep.count('first words', len(cands))
    seen = set()
    for o in ts:
        if o.kind not in ('ret', 'panic'):
            rep.undecided('parse', 'a path could not be followed: %s' % short(o.val))
            continue
        st = o.st
        st.frames = []
        poss = {w: possible(st, w) for w in cands}
        ws = [w for w in cands if poss[w] is not False]
        for w in ws:
            one_word(F, rep, I, o, w, poss[w], cid, kts, seen)
    # the words one by one: a map takes them in pairs, the others each as it comes
    few = [w.encode() for n in COMMANDS for w in (n, n + ':map', n + ':int')]
    for exact in (4, 5):
        I2, ts2 = parse_runs(F, exact)
        rep.count('paths with exactly so many words', len(ts2))
        for o in ts2:
            if o.kind not in ('ret', 'panic'):
                rep.undecided('parse', 'a path could not be followed: %s' % short(o.val))
                continue
            o.st.frames = []
            for w in few:
                poss = possible(o.st, w)
                if poss is not False:
                    one_word(F, rep, I2, o, w, poss, cid, kts, seen)
    missing = [n + (':' + t if t else '') for n in COMMANDS for t in [None] + list(TYPES) if (n + (':' + t if t else '')).encode() not in seen]
    rep.check(True if not missing else None if rep.und else False, 'accepted', '%s is never accepted' % (', '.join(missing[:3]) or 'no command'))
    floor(rep, len(seen), 180, 'command words accepted')
    rep.sample('the word before the first space: %d, each with any number of words after it' % len(cands))


def one_word(F, rep, I, o, w, sure, cid, kts, seen):
    st = o.st
    m = meaning(w)
    d = 'a line that starts with %r' % w.decode('latin1')
    key = 'parse:%s' % (m[0] if m else 'other')
    yes = lambda c: c if sure or c else None
    if o.kind == 'panic':
        return rep.check(yes(False), key + ':panic', '%s makes the parser panic: %s' % (d, short(o.val)))
    v = o.val
    isok = isinstance(v, Adt) and v.key == RES and v.vi == 0
    iserr = isinstance(v, Adt) and v.key == RES and v.vi == 1
    if not isok and not iserr:
        return rep.undecided(key, '%s is answered with %s' % (d, short(v)))
    name, f = perr(F, I.content(st, v.f[0])) if iserr else (None, {})
    if m is None:
        want = 'NoCommandProvided' if w == b'' else 'InvalidCommandType'
        rep.check(yes(name == want), key + ':refused', '%s is answered with %s' % (d, name or short(v)))
        if name == want and f:
            g = canon(I.content(st, list(f.values())[0]))
            try:
                rep.check(yes(evalw(g, w) == w), key + ':name', '%s is refused naming %s' % (d, short(g)))
            except Unknown:
                rep.undecided(key + ':name', '%s is refused naming %s' % (d, short(g)))
        return
    cmd, nkeys, kt = m
    lo, hi = I.rng(st, count(S))
    refused = [e for e in st.events() if e[0] == 'refused'] or any(e[0] == 'loop' and 'refused' in repr(e) for e in st.events())
    if iserr:
        x = list(f.values())[0] if f else None
        x = canon(I.content(st, x)) if x is not None else None
        if name == 'BuildingRequest':
            rep.check(yes(isinstance(x, T) and x.op == 'builderr'), key + ':builder', '%s is refused by the builder for %s' % (d, short(x)))
        elif name == 'KeyUnspecified':
            rep.check(yes(nkeys is not None and hi - 1 < nkeys), key + ':key', '%s, with %s words, is refused for a missing key' % (d, lo if lo == hi else '%d or more' % lo))
        elif name == 'ArgumentInvalid':
            k = kt or 'Bytes'
            ty = {'Boolean': 'bool', 'Float': 'f64', 'Integer': 'i64'}.get(k)
            rep.check(yes(ty is not None and nkeys is not None), key + ':invalid', '%s is refused for an argument that is not a %s' % (d, k))
            if ty is None or nkeys is None:
                return
            a = canon(I.content(st, f.get('argument')))
            rep.check(arg_words(a, nkeys + 1), key + ':argument', '%s is refused for the argument %s' % (d, short(a)))
            fact = parses_fact(o, ty, a)
            rep.check(yes(fact is False) if fact is not None or sure else None, key + ':unparsable', '%s is refused for an argument that %s' % (d, 'is a ' + k if fact else 'was not read as a ' + k))
            g = f.get('key_type')
            rep.check(yes(g == kind_of(F, k)) if isinstance(g, Adt) else None, key + ':kind', '%s is refused for an argument that is not a %s, but a %s was asked for' % (d, short(g), k))
        elif name == 'MapIncomplete':
            rep.check(yes(kt == 'Map' and nkeys is not None), key + ':map', '%s is refused for an incomplete map' % d)
            if kt == 'Map' and nkeys is not None:
                if lo == hi:
                    rep.check(yes((lo - 1 - nkeys) % 2 == 1), key + ':pairs', '%s, with %d words, is refused for an incomplete map' % (d, lo))
                rep.check(arg_words(x, nkeys + 1), key + ':mapkey', '%s is refused for an incomplete map whose last key is %s' % (d, short(x)))
        else:
            rep.check(yes(False) if name else None, key + ':refused', '%s is refused: %s' % (d, name or short(v)))
        return
    r = I.content(st, v.f[0])
    if not (isinstance(r, Adt) and r.key == '@req'):
        return rep.undecided(key, '%s is answered with %s' % (d, short(r)))
    if refused:
        return rep.check(yes(False), key + ':builder', '%s is accepted although the builder refused an argument' % d)
    seen.add(w)
    c, k = r.f[0], canon(I.content(st, r.f[1]))
    rep.check(yes(cid.names[c.vi] == cmd) if isinstance(c, Adt) else None, key + ':command', '%s is read as the command %s' % (d, cid.names[c.vi] if isinstance(c, Adt) else short(c)))
    wk = NONE if kt is None else some(kind_of(F, kt))
    rep.check(yes(k == wk) if isinstance(k, Adt) and (not k.f or isinstance(k.f[0], Adt)) else None, key + ':keytype', '%s is read as having the key type %s' % (d, short(k)))
    rep.check(yes(not nkeys or lo == hi == 1 or lo > nkeys), key + ':keys', '%s is accepted with fewer keys than it needs' % d)
    if nkeys is None:
        want = [('t', words_after(1))]
    else:
        want = [('v', word(i)) for i in range(1, nkeys + 1) if lo > i] + [converted(kt or 'Bytes', words_after(nkeys + 1))]
    got, want = tidy(I, st, I.content(st, r.f[2])), tidy(I, st, seq(want))
    eq = got == want
    if kt == 'Map' and nkeys is not None and lo == hi > nkeys and I.onebyone:
        rep.check(yes((lo - 1 - nkeys) % 2 == 0), key + ':pairs', '%s, with %d words, is accepted although its last key has no value' % (d, lo))
    rep.check(yes(True) if eq else None if vague(seq(got)) and not lost(got) else yes(False), key + ':arguments', '%s, with %s words, is read with the arguments %s; they are %s' % (
        d, lo if lo == hi else '%d or more' % lo, short(seq(got)), short(seq(want))))


def lost(got):
    """are some of the words left out, or something else than the words taken?"""
    for p in got:
        if p[0] == 'each' and isinstance(p[1], T) and (p[1].op == 'prefix' or p[1].op == 'by' and isinstance(p[1].a[0], T) and p[1].a[0].op == 'prefix'):
            return True
        if p[0] == 'some' and isinstance(p[1], T):
            if p[1].op != 'prefix' and any(len(x) == 0 for x in p[3]):
                return True
            if any(q[0] == 'v' and text(q[1]) is not None for x in p[3] for q in x):
                return True
    return False


# ---------------------------------------------------------------- what is done for a request
def proc_runs(F, cmd, which):
    """the paths of processing a line that was read as a request of a command, with any key type and any arguments"""
    from .engine import req_prims
    from . import rules_req as RQ
    cid, _, _ = names(F)
    I = Interp(F, 900000)
    for op in SPEC:
        I.prims[RQ.BACKEND + op] = I.prims[find_trait_method(F, 'Backend', which, op, 'hop')] = RQ.p_backend(op)
    n = cid.names.index(cmd)
    req_prims(I, adt(cid.key, n))
    pk = find_fn(F, 'hop_cli::', 'parse', 1)
    fk = find_fn(F, 'hop_cli::', 'process', 2)
    fn = F.fns[fk]

    def p_parse(I, st, a, c, k):
        st.event('parse', canon(I.content(st, a[0])))
        s2 = st.copy()
        e = typed(mk('parseerror', 0), B.targ(c.dest, 1))
        s2.event('unread', e)
        rt = B.targ(c.dest)
        r = typed(mk('request'), rt)
        a = F.adts[rt[1]]
        for i, t in enumerate(a.ftys(0)):
            if t[0] == 'adt' and t[1] == cid.key:
                cell = ('in', 'request')
                st.mem[cell] = r
                st.facts[('var', I.read(st, cell, (('f', i),)))] = n
        return k(st, ok(r)) + k(s2, err(e))
    I.prims[pk] = p_parse
    ck = [k for k in F.adts if k.startswith('hop::') and k.endswith('::Client')][0]
    st = State()
    st.mem[('in', 'client')] = adt(ck, 0, (typed(mk('arc backend'), F.adts[ck].ftys(0)[0]),))
    sub = {fn['g'][-1]: ('adt', [k for k in F.adts if k.endswith('::' + which)][0], ())}
    mod = find_trait_method(F, 'Backend', which, 'append', 'hop').rsplit('::', 2)[0]
    I.aliases = {'Backend::Error': [('adt', k, ()) for k in sorted(F.adts) if k.startswith(mod + '::') and k.endswith('Error')][0]}
    ts = I.start(fk, [ref(('in', 'client')), rval(INPUT)], st, sub, RC.awaited(I))
    return I, ts if ts is not None else I.terms


ALLARGS = mk('args', 0, ARGC)
A1 = typed(mk('arg', 1), ('slice', ('prim', 'u8')))
KINDS = ('Boolean', 'Bytes', 'Float', 'Integer', 'List', 'Map', 'Set', 'String')
# the kinds of key type a command takes; None when it does not look at it
TAKES = {'Append': ('Bytes', 'List', 'String'), 'Decrement': ('Float', 'Integer'), 'DecrementBy': ('Float', 'Integer'), 'Increment': ('Float', 'Integer'),
         'IncrementBy': ('Float', 'Integer'), 'Length': ('Bytes', 'List', 'Map', 'Set', 'String'), 'Get': KINDS, 'Set': KINDS, 'Is': KINDS}
NEEDS_TYPE = ('DecrementBy', 'IncrementBy', 'Is')
SAYS = {'BadRequest': 'invalid', 'BuildingRequest': 'building', 'Dispatching': 'engine', 'KeyTypeInvalid': 'supported', 'KeyTypeUnsupported': 'supported', 'ArgumentRetrieval': 'few',
        'KeyNonexistent': 'not exist', 'KeyTypeDifferent': 'different', 'KeyTypeRequired': 'required', 'KeyTypeUnexpected': "can't be given", 'KeyUnspecified': 'specifying a key',
        'PreconditionFailed': 'precondition'}


def kt_on(I, st, kts):
    """(known?, kind or None) of the key type of the request on a path"""
    from .engine import KT as OKT
    vi = st.facts.get(('var', OKT))
    if vi is None:
        return False, None
    if vi == 0:
        return True, None
    j = st.facts.get(('var', I.payload(st, OKT, 1)))
    return (True, kts.names[j]) if j is not None else (True, 'any')


def kinds_left(I, st, kts):
    """the kinds of key type the request can have on a path, None for none given"""
    from .engine import KT as OKT
    known, kind = kt_on(I, st, kts)
    if known and kind != 'any':
        return {kind}
    no = st.facts.get(('nvar', I.payload(st, OKT, 1))) or ()
    some_ = {n for i, n in enumerate(kts.names) if i not in no}
    return some_ if known or 0 in (st.facts.get(('nvar', OKT)) or ()) else some_ | {None}


def given(I, st, kind, got):
    """is got the value of a kind that the arguments after the key stand for?"""
    va = value_adt(I.F)
    if not (isinstance(got, Adt) and got.key == va.key):
        return None
    if va.names[got.vi] != kind:
        return False
    from .engine import ARGC, args_coll
    x = canon(got.f[0])
    coll = mk('args', 1, ARGC)
    el = lambda i: mk('deref', mk('elem', coll, i))
    if kind == 'Boolean':
        return nonzero(I, st, typed(mk('idx', A1, 0), ('prim', 'u8')), x)
    elif kind in ('Bytes', 'String'):
        if x == A1:
            return True
    elif kind in ('Float', 'Integer'):
        ty = 'f64' if kind == 'Float' else 'i64'
        if x == mk('frombe', ty, mk('sub', A1, 0, 8)) or x == mk('frombe', ty, A1):
            return True
    else:
        v = x.f[0] if isinstance(x, Adt) and x.key == '@dm' else x
        p = tuple(q for q in parts(v)) if isinstance(v, Seq) else (('t', v),)
        if not p:
            return I.rng(st, ARGC)[1] <= 1 or I.rng(st, mk('count', coll))[1] == 0
        if kind == 'Map':
            want = (('each', mk('by', coll, 2), (('v', (el(0), el(1))),)),)
            w2 = (('each', mk('by', coll, 2), (('v', adt('()', 0, (el(0), el(1)))),)),)
            if p in (want, w2):
                return True
        elif p in ((('each', coll, (('v', el(0)),)),), (('t', coll),)):
            return True
    return None if vague(x) else False


def wanted(I, st, cmd, kts):
    """(operation, its arguments) that a request stands for; None when it stands for none; 'unknown'"""
    from .engine import ARGC, arg_term
    known, kind = kt_on(I, st, kts)
    allargs = mk('args', 0, ARGC)
    key = arg_term(0)
    takes = TAKES.get(cmd)
    left = kinds_left(I, st, kts)
    if cmd in TAKES and not left & set(takes + (() if cmd in NEEDS_TYPE else (None,))):
        return None
    if cmd in TAKES and not known or kind == 'any' and (takes != KINDS or cmd == 'Set'):
        return 'unknown'
    kto = NONE if kind is None else some(I.payload(st, _kt(), 1)) if kind == 'any' else some(kind_of(I.F, kind)) if kind else NONE
    if cmd in NEEDS_TYPE and kind is None:
        return None
    if cmd in TAKES and kind is not None and kind != 'any' and kind not in takes:
        return None
    va = value_adt(I.F)
    if cmd in ('Append', 'Set'):
        return cmd.lower(), [key, ('given', kind or 'Bytes')]
    if cmd in ('IncrementBy', 'DecrementBy'):
        return cmd[:-2].lower() + '_by', [key, ('given', kind)]
    if cmd in ('Increment', 'Decrement'):
        if kind is None:
            return cmd.lower(), [key, NONE]
        return cmd.lower() + '_by', [key, adt(va.key, va.names.index(kind), (mk('float', '1.0') if kind == 'Float' else 1,))]
    if cmd in ('Delete', 'Keys'):
        return cmd.lower(), [key]
    if cmd in ('Get', 'Length'):
        return cmd.lower(), [key, kto]
    if cmd == 'Type':
        return 'key_type', [key]
    if cmd == 'Echo':
        return 'echo', [mk('join', allargs, seq((('v', 32),)))]
    if cmd == 'Exists':
        return 'exists', [allargs]
    if cmd == 'Is':
        return 'is', [kto.f[0], allargs]
    if cmd == 'Rename':
        return 'rename', [key, arg_term(1)]
    return 'stats', []


def _kt():
    from .engine import KT as OKT
    return OKT


def dropped(g, w):
    """is g what w says, except that some of the arguments are passed over depending on what they hold?"""
    g, w = (x.p if isinstance(x, Seq) else (('t', x),) if isinstance(x, T) else () for x in (g, w))
    if len(g) != len(w):
        return False
    hit = False
    for a, b in zip(g, w):
        if a == b:
            continue
        if a[0] == b[0] == 't' and isinstance(a[1], T) and isinstance(b[1], T) and a[1].op == b[1].op == 'join' and a[1].a[1:] == b[1].a[1:] and dropped(a[1].a[0], b[1].a[0]):
            hit = True
            continue
        args = b[1] if b[0] in ('t', 'each') else None
        if a[0] == 'some' and a[1] is args and isinstance(args, T) and args.op == 'args' and () in a[3] and len(a[3]) == 2:
            x = next(x for x in a[3] if x)
            e = mk('elem', args, 0)
            if len(x) == 1 and x[0][0] == 'v' and x[0][1] in (e, mk('deref', e)) and (b[0] == 't' or b[2] == x or len(b[2]) == 1 and b[2][0][1] in (e, mk('deref', e))):
                hit = True
                continue
        return False
    return hit


def same_arg(I, st, got, want):
    if isinstance(want, tuple) and want[0] == 'given':
        return given(I, st, want[1], got)
    g, w = canon(I.content(st, got)), canon(want)
    if g == w or same_value(I, st, g, w):
        return True
    if isinstance(w, T) and w.op == 'args':
        p = parts(g) if isinstance(g, Seq) else ()
        if len(p) == 1 and (p[0] == ('t', w) or p[0][0] == 'each' and p[0][1] == w and p[0][2] == (('v', mk('deref', mk('elem', w, 0))),)):
            return True
    if dropped(g, w):
        return False
    if isinstance(g, Adt) and isinstance(w, T) and TY.get(w, ('?',))[0] == 'adt' and g.key == TY[w][1]:
        return st.facts.get(('var', w)) == g.vi
    if isinstance(w, Adt) and isinstance(g, T):
        vi = st.facts.get(('var', g))
        return None if vi is None else vi == w.vi
    return None if vague(g) else False


def why_nothing(I, st, cmd, kts):
    """the reasons a path has for doing nothing: words of which the answer has to have one"""
    from .engine import ARGC
    known, kind = kt_on(I, st, kts)
    lo, hi = I.rng(st, ARGC)
    out = []
    keyed = cmd not in ('Echo', 'Stats', 'Exists', 'Is')
    if keyed and (hi < 1 or I.rng(st, slen(mk('arg', 0)))[1] == 0):
        out += ['key']
    if cmd in ('Exists', 'Is') and (hi < 1 or I.rng(st, count(mk('args', 0, ARGC)))[1] == 0 or I.rng(st, slen(mk('args', 0, ARGC)))[1] == 0):
        out += ['key', 'few']
    if cmd in ('Exists', 'Is') and lo > 255:
        out += ['255']
    if cmd == 'Rename' and hi < 2:
        out += ['key']
    left = kinds_left(I, st, kts)
    if cmd in TAKES and None not in left and not left & set(TAKES[cmd]):
        out += ['supported', 'few']
    if known and kind is None and cmd in NEEDS_TYPE:
        out += ['required']
    if cmd in ('Append', 'Set', 'IncrementBy', 'DecrementBy'):
        k = kind or 'Bytes'
        about = any(mentions(x, A1) or mentions(x, mk('args', 1, ARGC)) for q in st.facts for x in q if isinstance(x, T))
        if hi < 2 and k != 'List' or k not in ('Bytes', 'List') and about:
            out += ['few']
    return out


# what is said of a key that is there: not the way to say that there is none
NOT_MISSING = ('different', 'not exist', 'type', 'precondition', 'engine', 'building')


def words_of(I, st, v):
    x = canon(I.content(st, v))
    n = 0
    while isinstance(x, Adt) and len(x.f) == 1 and n < 4:
        x = canon(I.content(st, x.f[0]))
        n += 1
    t = text(x)
    return t.decode('utf8', 'replace').lower() if t is not None else None


def error_name(I, st, e):
    """the names of the variants of an error, as far as the path knows them"""
    out = []
    t = e
    for _ in range(3):
        ty = TY.get(t) if isinstance(t, T) else None
        vi = t.vi if isinstance(t, Adt) else st.facts.get(('var', t))
        a = I.F.adts.get(t.key if isinstance(t, Adt) else ty[1] if ty and ty[0] == 'adt' else None)
        if vi is None or a is None:
            break
        out.append(a.names[vi])
        nxt = [I.payload(st, t, vi)] if len(a.variants[vi]['f']) == 1 else []
        if not nxt:
            break
        t = nxt[0]
    return out


def outcome(o):
    v = o.val
    if isinstance(v, Adt) and v.key == RES:
        return v.vi == 0, v.f[0]
    return None, v


def each_run(F, rep):
    _, kts, _ = names(F)
    for which in RC.BACKENDS:
        for cmd in sorted({c for c, _ in COMMANDS.values()}):
            I, ts = proc_runs(F, cmd, which)
            rep.saw(I)
            rep.count('paths', len(ts))
            d = 'a line read as %s, for a %s' % (cmd, which)
            if not ts:
                rep.undecided(cmd, '%s has no path to its end' % d)
            for o in ts:
                n = [I.rng(o.st, f(ALLARGS)) for f in (count, slen)]
                if max(r[0] for r in n) > min(r[1] for r in n):
                    continue        # the same number of arguments twice, never two numbers
                if o.kind not in ('ret', 'panic'):
                    rep.undecided(cmd, '%s could not be followed: %s' % (d, short(o.val)))
                    continue
                o.st.frames = []
                yield which, cmd, d, I, o, kts


def L01(F, rep):
    """a line, for every command, key type and number of arguments, and for both backends: performs the one operation of the backend it stands for, on the key, key type and
    value it gives, or none when it cannot be one, and then says why; says what went wrong when the operation fails"""
    n = 0
    for which, cmd, d, I, o, kts in each_run(F, rep):
        st = o.st
        ops = events(o, 'op')
        isok, x = outcome(o)
        ps = events(o, 'parse')
        rep.check(len(ps) == 1 and ps[0][1] == INPUT if ps else None, cmd + ':parse', '%s: the parser is given %s' % (d, short(ps[0][1]) if ps else 'nothing'))
        unread = events(o, 'unread')
        if unread:
            rep.check(not ops, cmd + ':unread', 'a line that could not be read makes the CLI perform %s' % (ops[0][1] if ops else ''))
            rep.check(False if isok or o.kind == 'panic' else mentions(x, unread[0][1]), cmd + ':unread:error', 'a line that could not be read is answered with %s' % short(o.val))
            continue
        if len(ops) > 1:
            rep.bad(cmd + ':once', '%s performs %s' % (d, ' and '.join(e[1] for e in ops)))
            continue
        want = wanted(I, st, cmd, kts)
        if not ops:
            if o.kind == 'panic':
                rep.bad(cmd + ':panic', '%s makes the CLI panic: %s' % (d, short(o.val)))
                continue
            from .engine import ARGC
            if cmd == 'Echo' and I.rng(st, ARGC)[1] == 0:
                rep.check(True if isok and words_of(I, st, x) == '' else False if words_of(I, st, x) is not None or isok is False else None, cmd + ':nothing', '%s, of nothing, is answered with %s' % (d, short(o.val)))
                continue
            why = why_nothing(I, st, cmd, kts)
            vaguely = any(k[0] == 'b' and vague(k[1]) for k in st.facts)
            rep.check(True if why else None if vaguely else False, cmd + ':nothing', '%s performs nothing, although it has all it needs; it is answered with %s' % (d, short(o.val)))
            t = words_of(I, st, x)
            if cmd == 'Rename' and isok and t is not None:
                # which of the two keys is missing
                have = I.rng(st, ARGC)[0]
                for i, (mine, other) in enumerate((('source', 'destination'), ('destination', 'source'))):
                    if have > i and (i or I.rng(st, slen(mk('arg', 0)))[0] > 0):
                        rep.check(mine not in t or other in t, cmd + ':which', '%s, with key %d given, is answered that the %s key is missing' % (d, i + 1, mine))
            if why and not (want is None and False):
                rep.check(None if isok is None or t is None and isok else isok and any(w in t for w in why if w != 'key' or not any(x in t for x in NOT_MISSING)), cmd + ':why', '%s performs nothing, for want of something with "%s", and is answered with %s' % (d, why[0], t or short(o.val)))
            continue
        op, args = ops[0][1], ops[0][2]
        if want == 'unknown':
            rep.undecided(cmd + ':operation', '%s performs %s without looking at the key type' % (d, op))
            continue
        if want is None:
            rep.bad(cmd + ':operation', '%s performs %s, with a key type it does not take' % (d, op))
            continue
        rep.check(op == want[0], cmd + ':operation', '%s performs the operation %s' % (d, op))
        if op != want[0] or len(args) != len(want[1]):
            continue
        for g, w in zip(args, want[1]):
            rep.check(same_arg(I, st, g, w), cmd + ':argument', '%s: the operation %s is given %s' % (d, op, short(g)))
        n += 1
        f = events(o, 'fails')
        if not f:
            continue
        if o.kind == 'panic':
            rep.bad(cmd + ':fails', '%s makes the CLI panic when the operation fails: %s' % (d, short(o.val)))
            continue
        if which == 'ServerBackend':
            rep.check(None if isok is None else not isok and mentions(x, f[0][1]), cmd + ':fails', '%s is answered with %s when the operation fails' % (d, short(o.val)))
            continue
        en = error_name(I, st, f[0][1])
        t = words_of(I, st, x)
        kw = SAYS.get(en[-1]) if en else None
        if isok is False:
            rep.check(mentions(x, f[0][1]), cmd + ':fails', '%s is answered with %s when the operation fails' % (d, short(o.val)))
        elif kw is None:
            rep.check(None if t is None or en else False, cmd + ':fails', '%s is answered with %s whatever makes the operation fail' % (d, t))
        else:
            rep.check(None if t is None else kw in t, cmd + ':fails', '%s is answered with "%s" when the operation fails with %s' % (d, t, en[-1]))
    floor(rep, n, 400, 'operations performed')


# ---------------------------------------------------------------- how results are printed
TYPE_NAMES = {'Boolean': 'bool', 'Bytes': 'bytes', 'Float': 'float', 'Integer': 'int', 'List': 'list', 'Map': 'map', 'Set': 'set', 'String': 'str'}
LINES = (('Commands successful: ', 'commands_successful'), ('\nCommands errored: ', 'commands_errored'), ('\nSessions started: ', 'sessions_started'), ('\nSessions ended: ', 'sessions_ended'))


def lit(s):
    return tuple(('v', b) for b in s.encode())


def joined(c, body, sep):
    return (('lines', c, tuple(body), sep),)


def printed(I, st, v):
    """the parts of a text, lists joined by a separator in one form"""
    x = I.content(st, v)
    n = 0
    while isinstance(x, Adt) and len(x.f) == 1 and n < 4:
        x = I.content(st, x.f[0])
        n += 1
    if isinstance(x, Seq) and I.rng(st, slen(x))[1] == 0:
        for p in x.p:
            if p[0] == 'each' and any(q[0] == 'v' for q in p[2]):
                st.facts[('rng', count(canon(p[1])))] = (0, 0)
        return ()
    return flatten(I, st, canon(x))


def flatten(I, st, x):
    out = []
    for p in parts(x) if isinstance(x, Seq) else (('t', x),):
        if p[0] == 't' and isinstance(p[1], T):
            t = p[1]
            if t.op == 'popped':
                q = parts(t.a[0])
                if len(q) == 1 and q[0][0] == 'each' and len(q[0][2]) > 1 and q[0][2][-1][0] == 'v' and isinstance(q[0][2][-1][1], int):
                    out += joined(q[0][1], text_parts(q[0][2][:-1]), q[0][2][-1][1])
                    continue
            if t.op == 'join':
                sep = text(t.a[1]) if len(t.a) > 1 else None
                q = parts(t.a[0]) if isinstance(t.a[0], Seq) else (('t', t.a[0]),)
                if sep is not None and len(sep) == 1 and len(q) == 1 and q[0][0] in ('each', 't'):
                    if q[0][0] == 't':
                        out += joined(q[0][1], (('t', mk('elem', q[0][1], 0)),), sep[0])
                        continue
                    if len(q[0][2]) == 1 and q[0][2][0][0] == 'v':
                        y = q[0][2][0][1]
                        out += joined(q[0][1], text_parts(parts(y) if isinstance(y, Seq) else (('t', y),)), sep[0])
                        continue
            if t.op == 'disp':
                out.append(('t', mk('disp', t.a[0])))
                continue
        if p[0] in ('each', 'lines') and I.rng(st, count(p[1]))[1] == 0:
            continue
        out.append(p)
    return tuple(p for p in out if not (p[0] == 'lines' and I.rng(st, count(p[1]))[1] == 0))


def text_parts(ps):
    return tuple(('t', mk('disp', p[1].a[0])) if p[0] == 't' and isinstance(p[1], T) and p[1].op == 'disp' else p for p in ps)


def shown(kind, x):
    """how a value of a kind is printed"""
    if kind in ('Boolean', 'Float', 'Integer'):
        return (('t', mk('disp', x)),)
    if kind == 'Bytes':
        return (('t', mk('lossy', x)),)
    if kind == 'String':
        return (('t', x),)
    e = mk('elem', x, 0)
    if kind == 'Map':
        return joined(x, (('t', mk('lossy', mk('key', e))), ('v', 61), ('t', mk('lossy', mk('val', e)))), 10)
    return joined(x, (('t', mk('lossy', e)),), 10)


def stat(st, coll, name):
    """a line of the statistics: the number stored under the name, or 0"""
    for k, v in st.facts.items():
        if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'has' and k[1].a[0] == coll and text(k[1].a[1]) == name.encode():
            return v
    return None


def L03(F, rep):
    """what is printed for the result of a line, for every command and every kind of value: texts as they are, bytes as text with the unreadable ones replaced, the items of lists
    and sets and the entries of maps on a line each without one at the end, numbers and booleans in decimal and as true or false, statistics by name"""
    n = 0
    va = value_adt(F)
    for which, cmd, d, I, o, kts in each_run(F, rep):
        if which != 'MemoryBackend' or not events(o, 'result'):
            continue
        st = o.st
        res = events(o, 'result')[0][1]
        op = events(o, 'op')[0][1]
        isok, x = outcome(o)
        if isinstance(res, Adt) and res.key == va.key:
            known, kind = kt_on(I, st, kts)
            got = va.names[res.vi]
            typed_ = kind if known and kind not in (None, 'any') else 'Bytes' if cmd == 'Append' else None
            if cmd in ('Append', 'Increment', 'Decrement', 'IncrementBy', 'DecrementBy', 'Get') and typed_ is not None and typed_ != got:
                continue        # no backend answers another kind than it was asked for
            want = [shown(got, res.f[0])]
            what = 'a %s' % got
        elif op in ('delete', 'rename'):
            want, what = [shown('Bytes', res), shown('Bytes', arg_term(0 if op == 'delete' else 1))], 'the key'
        elif op in ('exists', 'is', 'length'):
            want, what = [shown('Integer', res)], 'the answer'
        elif op == 'keys':
            want, what = [shown('List', res)], 'the keys'
        elif op == 'echo':
            want, what = [joined(res, (('t', mk('lossy', mk('elem', res, 0))),), 32)], 'the words'
        elif op == 'key_type':
            vi = st.facts.get(('var', res))
            what = 'the key type %s' % (kts.names[vi] if vi is not None else 'unknown')
            want = [lit(TYPE_NAMES[kts.names[vi]])] if vi is not None else []
        elif op == 'stats':
            want, what = None, 'the statistics'
        else:
            continue
        n += 1
        key = '%s:%s' % (cmd, what)
        if isok is not True:
            rep.check(None if isok is None and o.kind != 'panic' else False, key, '%s, answered with %s, is not printed: %s' % (d, what, short(o.val)))
            continue
        got = printed(I, st, x)
        if want is None:
            stats_ok(I, st, rep, key, d, got, res)
            continue
        empty = not got and any(all(I.rng(st, count(p[1]))[1] == 0 for p in w if p[0] == 'lines') and all(p[0] == 'lines' for p in w) for w in want)
        rep.check(True if got in want or empty else None if not want or vague(seq([p for p in got if p[0] != 'lines'])) or any(p[0] == 'lines' and vague(seq(p[2])) for p in got) else False,
                  key, '%s, answered with %s, prints %s' % (d, what, short(got)))
    floor(rep, n, 90, 'results printed')


def stats_ok(I, st, rep, key, d, got, res):
    i = 0
    for label, name in LINES:
        l = lit(label)
        if got[i:i + len(l)] != l:
            return rep.check(None if vague(seq([p for p in got if p[0] != 'lines'])) else False, key, '%s prints %s where "%s" belongs' % (d, short(seq(got[i:i + len(l)])), label.strip()))
        i += len(l)
        t = got[i][1] if i < len(got) and got[i][0] == 't' else None
        i += 1
        v = t.a[0] if isinstance(t, T) and t.op == 'disp' else None
        maps = []
        find(res, lambda y: maps.append(y) or False)
        if isinstance(v, int):
            pres = [(k, f) for k, f in st.facts.items() if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'has' and mentions(k[1], res) and text(k[1].a[1]) == name.encode()]
            good = [k for k, f in pres if not f] or [k for k, f in pres if f and I.rng(st, slen(mk('dmget', k[1].a[0], k[1].a[1])))[1] < 8
                                                      or k[0] == 'b' and f and not I.rng(st, slen(mk('dmget', k[1].a[0], k[1].a[1]))) == (8, 8)]
            rep.check(v == 0 and bool(good), key + ':' + name, '%s prints %s for %s' % (d, v, name))
        elif isinstance(v, T) and v.op == 'frombe' and v.a[0] == 'i64':
            x = v.a[1]
            while isinstance(x, T) and x.op == 'sub':
                x = x.a[0]
            rep.check(isinstance(x, T) and x.op == 'dmget' and mentions(x, res) and text(x.a[1]) == name.encode(), key + ':' + name, '%s prints %s for %s' % (d, short(x), name))
        else:
            rep.check(None if v is None or vague(v) else False, key + ':' + name, '%s prints %s for %s' % (d, short(v), name))
    rep.check(i == len(got), key + ':end', '%s prints more than the four lines' % d)
