"""Abstract runs of the engine's dispatcher, one per command."""
from .vals import *
from .interp import Interp, State, some, Out
from .models import NONE, ofork
from .models_seq import it

REQ = 'hop_engine::command::request::Request'
RESP = mk('resp0')
typed(RESP, ('adt', 'alloc::vec::Vec', (('prim', 'u8'),)))
ARGC = mk('argc')
KT = mk('keytype')
BYTES = ('slice', ('prim', 'u8'))
VALUE = 'hop_engine::state::value::Value'


def arg_term(i):
    return typed(mk('arg', i), BYTES)


def p_arg(I, st, a, c, k):
    i = a[1]
    out = []
    for s, b in I.fork(st, I.cmp(st, 'Lt', i, ARGC)):
        out += k(s, some(rval(arg_term(i))) if b else NONE)
    return out


def p_argc(I, st, a, c, k):
    return k(st, ARGC)


def args_coll(I, st, lo, hi):
    t = mk('args', lo, hi)
    typed(t, ('slice', ('ref', False, BYTES)))
    if hi is ARGC and isinstance(lo, int):
        d = ladd(ARGC, lo, -1)
        if I.rng(st, d)[0] >= 0:
            I.assume(st, I.cmp(st, 'Eq', mk('count', t), d), 1)
    return t


def p_args(I, st, a, c, k):
    from .models_seq2 import rbounds
    out = []
    for s, b in I.fork(st, I.cmp(st, 'Eq', ARGC, 0)):
        if b:
            out += k(s, NONE)
            continue
        r = rbounds(I, s, a[1], ARGC if getattr(I, 'exact', None) is None else I.exact)
        if r is None:
            out += k(s, some(it('abs', mk('args', mk('top'), ARGC), 0, 'fresh', 'val')))
            continue
        lo, hi = r
        if isinstance(lo, int) and isinstance(hi, int):
            # a fixed window: the elements are known
            out += k(s, some(it('seq', seq([('v', rval(arg_term(i))) for i in range(lo, hi)]), 0, 'val')))
            continue
        # element type: slices of bytes
        for s2, e in I.fork(s, I.cmp(s, 'Le', ARGC, lo)) if isinstance(lo, int) and hi is ARGC else [(s, 0)]:
            if e:
                out += k(s2, some(it('seq', EMPTY, 0, 'val')))
            else:
                out += k(s2, some(it('abs', args_coll(I, s2, lo, hi), 0, 'fresh', 'val')))
    return out


def p_keytype(I, st, a, c, k):
    typed(KT, ('adt', 'core::option::Option', (('adt', 'hop_engine::state::KeyType', ()),)))
    return k(st, KT)


def p_metric(I, st, a, c, k):
    v = I.content(st, a[1])
    st.event('metric', c.m if c is not None else 'increment', v)
    return k(st, UNIT)


def req_prims(I, cmd=None):
    I.prims[REQ_FN(I, 'arg')] = p_arg
    I.prims[REQ_FN(I, 'arg_count')] = p_argc
    I.prims[REQ_FN(I, 'args')] = p_args
    I.prims[REQ_FN(I, 'key_type')] = p_keytype
    if cmd is not None:
        I.prims[REQ_FN(I, 'command_id')] = lambda I, st, a, c, k: k(st, cmd)


def REQ_FN(I, name):
    """key of an inherent method of Request"""
    return find_method(I.F, 'Request', 'hop_engine', name, 'request')


class Missing(Exception):
    pass


def find_method(F, tyname, crate, name, mod=None):
    for im in F.impls:
        if im.get('trait'):
            continue
        t = im['crate'].ty(im['self'])
        if t[0] == 'adt' and t[1].split('::')[-1] == tyname and t[1].startswith(crate) and (mod is None or mod in t[1]):
            for x in im['items']:
                if x['n'] == name and x.get('fn'):
                    k = x['k']
                    if k in F.fns:
                        return k
    raise Missing('%s::%s not found in %s' % (tyname, name, crate))


def find_trait_method(F, trait, tyname, name, crate='hop'):
    for im in F.impls:
        tr = im.get('trait')
        if tr is None or tr.split('::')[-1] != trait:
            continue
        t = im['crate'].ty(im['self'])
        if t[0] == 'adt' and t[1].split('::')[-1] == tyname and t[1].startswith(crate):
            for x in im['items']:
                if x['n'] == name:
                    k = x['k']
                    if k in F.fns:
                        return k
    raise Missing('%s for %s::%s not found' % (trait, tyname, name))


def dispatch(F, cmd_index, max_steps=1500000, argc=None):
    """paths of Hop::dispatch for one command, for any number of arguments or exactly argc"""
    I = Interp(F, max_steps)
    cid = F.adts['hop_engine::command::command_id::CommandId']
    req_prims(I, adt(cid.key, cmd_index))
    try:
        I.prims[find_method(F, 'Writer', 'hop_internal_metrics', 'increment')] = p_metric
        I.prims[find_method(F, 'Writer', 'hop_internal_metrics', 'decrement')] = p_metric
    except Missing:
        pass
    st = State()
    st.mem[('in', 'resp')] = RESP
    I.add_range(st, ARGC, 0, 255)
    I.exact = argc
    if argc is not None:
        I.add_range(st, ARGC, argc, argc)
        I.prims[REQ_FN(I, 'arg_count')] = lambda I, st, a, c, k: k(st, argc)
    hop = typed(mk('hop'), ('ref', False, ('adt', 'hop_engine::hop::Hop', ())))
    req = typed(mk('req'), ('ref', False, ('adt', REQ, ())))
    for i, ty in enumerate(F.adts[REQ].ftys(0)) if REQ in F.adts else ():
        # the fields behind the accessors hold the same command and key type
        if ty[0] == 'adt' and ty[1] == cid.key:
            I.write(st, ('D', req), (('f', i),), adt(cid.key, cmd_index))
        elif ty[0] == 'adt' and ty[1].endswith('option::Option') and 'KeyType' in str(ty):
            I.write(st, ('D', req), (('f', i),), typed(KT, ty))
    key = find_method(F, 'Hop', 'hop_engine', 'dispatch')
    terms = I.start(key, [hop, req, ref(('in', 'resp'))], st)
    return I, terms
