"""The server (properties B05, B06): what is made of the bytes of a connection, and of the connections."""
import ipaddress
from .vals import *
from .canon import *
from .interp import Interp, State, some
from .engine import find_method, find_trait_method, Missing
from .models import NONE, ok, err, RES, POLL, OPT
from . import models as B
from .models_io import FUT
from .rules_engine import floor, vague
from .rules_wire import same_value, text_of, HE
from .rules_client import response

REST = ('srv', 'rest')
READS, FEEDS = 3, 4


def passes(I, n):
    """a loop that waits for something is walked pass by pass, any other is summarised"""
    def cut(s, fr, bb):
        body = I.loops_of(fr)[bb]
        if not any(fr.body['blocks'][b]['t'][0] == 'yield' for b in body) and not calls(I, fr, body):
            return None
        c = s.mem.get(('passes', fr.fid, bb), 0)
        if c > n:
            return 'end'
        s.mem[('passes', fr.fid, bb)] = c + 1
        return 'go'
    return cut


def calls(I, fr, body):
    """whether the parser is fed in a loop"""
    for b in body:
        t = fr.body['blocks'][b]['t']
        if t[0] == 'call' and 'feed' in str(t[1])[:400]:
            return True
    return False


def since(st):
    """what has been read since the parser was fed last"""
    out = []
    for e in reversed(st.events()):
        if e[0] == 'feed':
            break
        if e[0] == 'io' and e[1] == 'read' and e[4] == 1:
            out[:0] = list(parts(e[3]))
    return out


def p_feed(I, st, a, c, k):
    """the parser: a request at the start of what it is given, nothing yet, or an error"""
    ctx = B.target(I, st, a[0])
    buf = canon(I.content(st, a[1]))
    rest, new = st.mem.get(REST, EMPTY), since(st)
    want = canon(seq(list(parts(rest)) + new)) if rest is not None else mk('after error', canon(seq(new)))
    n = st.mem.get(('srv', 'feeds'), 0)
    if n >= FEEDS:
        return I.end('cut', None, st)
    st.mem[('srv', 'feeds')] = n + 1
    L = slen(buf)
    ety = B.targ(c.dest, 1)
    out = []
    s1, s2, s3 = st, st.copy(), st.copy()
    m = typed(mk('reqlen', n), ('prim', 'usize'))
    I.add_range(s1, m, 1, 1 << 33)
    if I.assume(s1, I.cmp(s1, 'Le', m, L), 1):
        req = adt('@sreq', 0, (n, m, I.sub(s1, buf, 0, m)))
        s1.mem[REST] = I.sub(s1, buf, m, L)
        s1.event('feed', ctx, buf, want, 'request', n, slen(s1.mem[REST]))
        out += k(s1, ok(some(req)))
    s2.event('feed', ctx, buf, want, 'more', n)
    s2.mem[REST] = buf
    out += k(s2, ok(NONE))
    if I.assume(s3, I.cmp(s3, 'Ge', L, 1), 1):
        s3.event('feed', ctx, buf, want, 'error', n)
        s3.mem[REST] = None
        out += k(s3, err(typed(mk('parseerr', n), ety)))
    return out


def p_bytes(I, st, a, c, k):
    v = I.content(st, a[0])
    if not (isinstance(v, Adt) and v.key == '@sreq'):
        return I.opaque(st, c, a, k)
    return k(st, v.f[2] if c.m == 'into_bytes' else rval(v.f[2]))


def p_dispatch(I, st, a, c, k):
    hop, v = I.content(st, a[0]), I.content(st, a[1])
    n = v.f[0] if isinstance(v, Adt) and v.key == '@sreq' else None
    s2 = st.copy()
    st.event('dispatch', hop, n, 1)
    s2.event('dispatch', hop, n, 0)
    cell, proj = B.target(I, st, a[2])
    x = typed(mk('response', n), ('slice', ('prim', 'u8')))
    I.add_range(st, slen(x), 1, 1 << 40)
    I.write(st, cell, proj, seq(tuple(parts(I.read(st, cell, proj))) + (('t', x),)))
    return k(st, ok(UNIT)) + k(s2, err(typed(mk('dispatcherr', n), B.targ(c.dest, 1))))


def frame(F, name, e):
    """the bytes a response with an error is written as (what those have to be is W04)"""
    rk, vi = response(F, name)
    st = State()
    st.mem[('in', 'r')] = adt(rk, vi, (e,))
    st.mem[('in', 'resp')] = EMPTY
    I = Interp(F, 20000)
    ts = [o for o in I.start(find_method(F, 'Response', HE, 'copy_to', 'response'), [ref(('in', 'r')), ref(('in', 'resp'))], st) if o.kind == 'ret']
    return canon(ts[0].st.mem[('in', 'resp')]) if len(ts) == 1 else None


def run_main(F, n=2):
    ks = [k for k in F.fns if k == 'hop_server::main']
    if not ks:
        raise Missing('main of the server')
    I = Interp(F, 400000)
    I.cut = passes(I, n)
    return I, I.start(ks[0], [], State())


def connections(F):
    """what the server runs for a connection: (interpreter, state, coroutine)"""
    I, ts = run_main(F)
    seen = {}
    for o in ts:
        for e in o.st.events():
            if e[0] == 'spawn' and isinstance(e[1], Adt) and e[1].key == '@coro':
                key = I.clos[e[1].vi][0]
                seen.setdefault(key, (I, o.st, e[1]))
    return I, ts, list(seen.values())


def hop_of(I, st, v):
    return find_adt(v, '::Hop')


def find_adt(v, tail):
    r = []
    find(v, lambda y: r.append(y) or True if isinstance(y, Adt) and isinstance(y.key, str) and y.key.endswith(tail) else False)
    return r[0] if r else None


def B06(F, rep):
    """every path of the server through any number of accepted and failed connections: each accepted connection is handed, with the one engine, to a task of its own before the
    next is waited for; a failed one is passed over; the server never ends while there can be more; it listens on the address and port of its environment, or the default"""
    I, ts, conns = connections(F)
    rep.saw(I)
    rep.count('paths', len(ts))
    n = 0
    hops = set()
    for o in ts:
        if o.kind not in ('ret', 'panic', 'cut'):
            rep.undecided('main:' + o.kind, 'a path of the server could not be followed: %s' % short(o.val))
            continue
        ev = o.st.events()
        acc = [i for i, e in enumerate(ev) if e[0] == 'io' and e[1] == 'accept']
        conn = [e for e in ev if e[0] == 'io' and e[1] == 'connect']
        for e in conn:
            address(F, rep, I, o, ev, e)
        if conn and not conn[-1][4]:
            x = o.val.f[0] if isinstance(o.val, Adt) and o.val.key == RES and o.val.vi == 1 else None
            rep.check(x is not None and not acc, 'main:bind', 'the server goes on although it cannot listen: %s' % short(o.val))
            continue
        if not acc:
            continue
        n += 1
        last = ev[acc[-1]]
        what = 'an accepted connection' if last[3] is not None and accepted(I, o.st, last) else 'a connection that failed'
        if o.kind != 'cut':
            rep.check(last[3] is None, 'main:ends', 'the server ends (%s) after %s' % ('it panics: %s' % short(o.val) if o.kind == 'panic' else short(o.val), what))
        rep.check(not any(e[0] == 'io' and e[1] in ('read', 'write') for e in ev), 'main:inline', 'the server serves a connection before it accepts the next')
        for j, i in enumerate(acc):
            e = ev[i]
            if e[3] is None or i == acc[-1]:
                continue        # what follows the last is seen on longer paths
            good = accepted(I, o.st, e)
            end = acc[j + 1]
            sp = [x for x in ev[i:end] if x[0] == 'spawn' and mentions(x[1], e[3])]
            if good:
                rep.check(len(sp) == 1, 'main:served', 'an accepted connection is %s' % ('dropped' if not sp else 'served %d times' % len(sp)))
                for x in sp:
                    h = find_adt(x[1], '::Hop')
                    rep.check(None if h is None else True, 'main:engine', 'which engine serves a connection cannot be told')
                    if h is not None:
                        hops.add(canon(I.content(o.st, h)))
            elif good is None:
                rep.check(bool(sp) or None, 'main:served', 'whether a connection is served cannot be told')
    rep.check(len(hops) <= 1, 'main:one', 'connections are served by %d different engines' % len(hops))
    rep.check(bool(conns), 'main:spawn', 'no connection is ever handed to a task')
    floor(rep, n, 5, 'paths over connections')
    rep.sample('each of %d paths over accepted and failed connections goes on to accept the next' % n)


def accepted(I, st, e):
    """whether an accept event brought a connection"""
    if e[4] == 3:
        return True
    if e[4] == 2:
        return False
    v = I.variant(st, e[3])
    return None if v is None else v == 0


def address(F, rep, I, o, ev, e):
    """the address listened on: from HOST and PORT when set to something that can be used"""
    host = port = None
    for x in ev:
        if x[0] == 'ext' and x[1].endswith('SocketAddr::new'):
            host, port = x[2]
    if host is None:
        return
    for v, name in ((host, b'HOST'), (port, b'PORT')):
        env = [y for y in (mk('env', seq([('t', mk('x'))])),) if 0]
        got = find(v, lambda y: isinstance(y, T) and y.op == 'env')
        usable = env_state(o.st, name)
        d = name.decode()
        if usable is None:
            untried(rep, I, o.st, v, name, d)
            continue
        if usable:
            names = []
            find(v, lambda y: names.append(y) or False if isinstance(y, T) and y.op == 'env' else False)
            right = any(name in bytes_in(y) for y in names)
            rep.check(True if right else False if not vague(v) else None, 'main:address', 'the server does not listen on the %s in its environment but on %s' % (d, short(v)))
            if right:
                whole(rep, I, o.st, v, d)
        else:
            narrow(rep, o.st, name, d)
            rep.check(not got, 'main:default', 'the server listens on %s although there is no usable %s' % (short(v), d))
            x = canon(I.content(o.st, v))
            if d == 'HOST':
                b = set()
                find(x, lambda y: b.add(text_of(y)) or False if isinstance(y, Seq) else False)
                rep.check(None if len(b) != 1 or None in b else not b.pop().strip(b'\0'), 'main:every', 'without a usable HOST the server listens on %s, not on every address' % short(v))
            else:
                rep.check(x == 46733 if isinstance(x, int) else None, 'main:known', 'without a usable PORT the server listens on %s, not on port 46733' % short(v))


def bytes_in(v):
    return str(v).encode()


def untried(rep, I, st, v, name, d):
    """a setting that is there and was not tried is answered with the default, or with what it says"""
    if not any(k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'envset' and x == 1 and name in bytes_in(k[1]) for k, x in st.facts.items()) or vague(v) or find(v, lambda y: isinstance(y, T)):
        return
    x = canon(I.content(st, v))
    if d == 'HOST':
        b = set()
        find(x, lambda y: b.add(text_of(y)) or False if isinstance(y, Seq) else False)
        x = b.pop() if len(b) == 1 and None not in b else None
        default = x is not None and not x.strip(b'\0')
    else:
        default = x == 46733
    said = {text_of(z) for k, t in st.facts.items() if k[0] == 'b' and isinstance(k[1], T) and k[1].op in ('eqv', 'eq') and t == 1 and name in bytes_in(k[1]) for z in k[1].a if isinstance(z, Seq)} - {None}
    fits = False
    for t in said:
        try:
            w = ipaddress.ip_address(t.decode()).packed if d == 'HOST' else int(t)
        except ValueError:
            continue
        fits = fits or w == x
    rep.check(None if x is None else default or fits, 'main:untried', 'the server listens on %s for a %s that it did not read as one' % (short(v), d))


NARROW = {'PORT': ('u8', 'i8', 'i16', 'NonZero', 'NonZeroU8', 'NonZeroU16', 'bool', 'char'), 'HOST': ('Ipv4Addr', 'Ipv6Addr')}


def narrow(rep, st, name, d):
    """what is given up as unusable was asked of a type that takes all that are usable"""
    tried = {k[1].a[0] for k, v in st.facts.items() if k[0] == 'b' and isinstance(k[1], T) and k[1].op == 'parses' and name in bytes_in(k[1]) and not v}
    rep.check(not (len(tried) == 1 and tried & set(NARROW[d])), 'main:usable', 'a %s that is usable is given up, as it is no %s' % (d, ', '.join(sorted(tried))))


def whole(rep, I, st, v, d):
    """the number listened on is the one in the environment, not a part of it"""
    v = canon(v)
    if isinstance(v, T) and v.op == 'cast' and isinstance(v.a[1], T) and v.a[1].op == 'parsed':
        lo, hi = I.rng(st, v.a[1])
        top = {'u8': 255, 'u16': 65535}.get(v.a[0])
        if top is None or v.a[1].a[0] in ('u8', 'u16', 'i8', 'i16') and v.a[0] == 'u16':
            return
        rep.check(lo >= 0 and hi <= top, 'main:port', 'a %s of more than %d is cut to what fits: %s' % (d, top, short(v)))


def env_state(st, name):
    """True: set and usable, False: unset or not usable, None: not asked"""
    set_ = good = None
    for k, v in st.facts.items():
        if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], T) and name in bytes_in(k[1]):
            if k[1].op == 'envset':
                set_ = v
            elif k[0] in ('b', 'var') and 'pars' in k[1].op:
                good = v
    if set_ == 0:
        return False
    if set_ == 1 and good is not None:
        return bool(good)
    return None


# ---------------------------------------------------------------- B05
def serve(F):
    """the paths of serving one connection: (interpreter, index of the first event of its own, path)"""
    I0, ts, conns = connections(F)
    if not conns:
        raise Missing('a task that serves connections')
    for I1, st0, coro in conns:
        I = Interp(F, 1500000)
        I.clos = I1.clos
        I.cut = passes(I, READS + 1)
        find_feed = find_method(F, 'Context', HE, 'feed', 'request')
        I.prims[find_feed] = p_feed
        for n in ('as_bytes', 'into_bytes'):
            I.prims[find_method(F, 'Request', HE, n, 'request')] = p_bytes
        I.prims[find_method(F, 'Hop', 'hop_engine', 'dispatch')] = p_dispatch
        st = st0.copy()
        st.frames = []
        st.mem[REST] = EMPTY
        key, sub = I.clos[coro.vi]
        skip = len(st.events())

        def done(s, v):
            s.frames = []
            return I.end('ret', v, s)
        yield I, coro, skip, I.start(key, [coro, UNIT], st, sub, done)


def B05(F, rep):
    """every path of serving a connection, over several reads and requests: the parser is always given exactly the bytes read and not yet consumed; whenever there are any it is
    asked again before more is read; each request it returns is dispatched once, on the one engine, and its response, or the error, is written whole and in order before anything
    else is waited for; the connection is given up only at its end or when it fails, and nothing panics"""
    n = 0
    frames = {}
    for I, coro, skip, ts in serve(F):
        rep.saw(I)
        rep.count('paths', len(ts))
        for o in ts:
            if o.kind == 'limit':
                rep.undecided('serve:limit', 'a path could not be followed: %s' % short(o.val))
                continue
            n += session(F, rep, I, o, coro, o.st.events()[skip:], frames)
    floor(rep, n, 100, 'paths of connections')


def session(F, rep, I, o, coro, ev, frames):
    st = o.st
    hop = find_adt(coro, '::Hop')
    want_hop = canon(I.content(st, hop)) if hop is not None else None
    due, req, told, failed, read, eof, buffered = [], None, None, False, 0, False, 0
    pend = sick = None

    def owed(when):
        if due and not failed:
            w = canon(seq(due))
            rep.bad('response', 'the response %s is not written %s' % (short(w), when))
            del due[:]
        if req is not None:
            rep.bad('dispatch', 'a request is not dispatched %s' % when)
    for e in ev:
        if e[0] == 'buffered':
            buffered += 1
            rep.check(not read and buffered == 1, 'buffer', 'a buffer is put on the connection after something was read: what it holds is lost')
        elif e[0] == 'io' and e[1] == 'read':
            owed('before more is read')
            req = None
            if told is not None and told[0] in ('request', 'error', 'unfed'):
                rest = told[1]
                if rest is not None:
                    z = rest
                    t = I.cmp(st, 'Eq', z, 0)
                    t = t if isinstance(t, int) else I.truth(st, t)
                    rep.check(bool(t) if t is not None else possible(I, st, z), 'waits', 'more is read although %s bytes read before may hold a whole request' % short(z))
            if eof:
                rep.bad('eof', 'the connection is read on after its end')
            if e[4]:
                read += 1
                lo, hi = I.rng(st, slen(e[3]))
                eof = hi == 0
                told = ('unfed', slen(e[3])) if not eof else told
                rep.check(mentions(e[2], sock(coro)) or None, 'stream', 'the bytes are read from %s' % short(e[2]))
            else:
                eof = True
        elif e[0] == 'feed':
            if req is not None:
                rep.bad('dispatch', 'a request is not dispatched before the next is parsed')
            req = None
            if told is not None and told[0] == 'error':
                rep.check(e[2] != sick, 'stuck', 'the parser is given again what it could not parse, so the answer to it never ends')
            rep.check(told is None or told[0] != 'more', 'again', 'the parser is asked again, although it asked for more and nothing was read since')
            w = e[3]
            if isinstance(w, T) and w.op == 'after error':
                # what is dropped after an error is left open, what was read since is not
                g, w = list(parts(e[2])), list(parts(w.a[0]))
                same = not w or g[-len(w):] == w
            else:
                same = e[2] == w or same_value(I, st, e[2], w)
                if not same and isinstance(e[2], T) and e[2].op == 'sub' and e[2].a[0] == w:
                    t = I.cmp(st, 'Eq', slen(e[2]), slen(w))
                    rep.check(True if t == 1 or I.truth(st, t) else False, 'fed', 'the parser is given %s; unconsumed is %s' % (short(e[2]), short(w)))
                    same = True
            rep.check(True if same else None if vague(e[2]) or find(e[2], lambda y: isinstance(y, T) and y.op == 'upd') else False, 'fed',
                      'the parser is given %s; unconsumed is %s' % (short(e[2]), short(e[3])))
            if e[4] == 'request':
                req = e[5]
                told = ('request', e[6])
            elif e[4] == 'more':
                told = ('more', None)
            else:
                told = ('error', None)
                sick = e[2]
                pe = find_error(st, I, e[5])
                due += list(parts(frame_of(F, frames, 'ParseError', pe, e[5])))
        elif e[0] == 'dispatch':
            rep.check(None if e[2] is None else e[2] == req, 'request', 'a request is dispatched %s' % ('twice' if e[2] is not None and req is None else 'out of order'))
            rep.check(None if want_hop is None else canon(e[1]) == want_hop, 'engine', 'a request is dispatched on another engine')
            req = None
            if e[3]:
                due.append(('t', typed(mk('response', e[2]), ('slice', ('prim', 'u8')))))
            else:
                due += list(parts(frame_of(F, frames, 'DispatchError', mk('dispatcherr', e[2]), e[2])))
        elif e[0] == 'io' and e[1] == 'write':
            w = canon(seq(due))
            g = canon(e[3])
            same = g == w or same_value(I, st, g, w)
            rep.check(True if same else None if vague(g) and not find(g, lambda y: isinstance(y, T) and y.op == 'sub') else False, 'written',
                      'what is written is %s; due is %s' % (short(g), short(w)))
            rep.check(mentions(e[2], sock(coro)) or None, 'stream', 'the response is written to %s' % short(e[2]))
            due = []
            failed = failed or not e[4]
            pend = 'BufWriter' in str(TY.get(e[2]))
        elif e[0] == 'io' and e[1] == 'flush':
            failed = failed or not e[4]
    if o.kind == 'panic':
        rep.check(not read, 'panic', 'serving a connection panics: %s in %s' % (short(o.val), o.where))
        return 1
    if o.kind == 'cut':
        return 1
    if not failed:
        owed('before the connection is given up')
    if read or eof:
        rep.check(failed or eof or empty_end(I, st, ev), 'gives-up', 'a connection is given up although neither it ended nor failed%s' % (
            ', after %s' % {'error': 'a request that could not be parsed', 'request': 'a request', 'more': 'an incomplete request', 'unfed': 'reading'}[told[0]] if told else ''))
    return 1


def sock(coro):
    r = []
    find(coro, lambda y: r.append(y) or True if isinstance(y, T) and y.op == 'accepted' else False)
    return r[0] if r else None


def possible(I, st, z):
    """that the rest is not empty is possible: a violation"""
    lo, hi = I.rng(st, z)
    return False if hi > 0 else None


def empty_end(I, st, ev):
    r = [e for e in ev if e[0] == 'io' and e[1] == 'read']
    return bool(r) and r[-1][3] is not None and I.rng(st, slen(r[-1][3]))[1] == 0


def find_error(st, I, n):
    return mk('parseerr', n)


def frame_of(F, frames, name, e, n):
    if (name, n) not in frames:
        frames[(name, n)] = frame(F, name, e)
    f = frames[(name, n)]
    if f is None:
        raise Missing('how a %s is written' % name)
    return f


# ---------------------------------------------------------------- the program of the CLI
LINES = 3


def p_process(I, st, a, c, k):
    return k(st, adt('@fut', 0, ('process',) + tuple(a)))


def r_process(I, st, a, ty, k):
    n = st.fresh('line')
    st.event('process', canon(I.content(st, a[0])), canon(I.content(st, a[1])), n)
    s2 = st.copy()
    t, e = B.targ(ty), B.targ(ty, 1)
    why = typed(mk('processerr', n), e)
    st.event('answer', n, 1)
    s2.event('answer', n, 0)
    x = typed(mk('answer', n), ('str',))
    out = k(s2, err(why))
    if t is not None and t[0] == 'adt' and t[1].endswith('::Cow'):
        out += k(st.copy(), ok(adt(t[1], 0, (rval(x),))))
        return out + k(st, ok(adt(t[1], 1, (x,))))
    return out + k(st, ok(typed(x, t)))


FUT['process'] = r_process


def L04(F, rep):
    """every path of the program through several lines: each line read is processed once, alone, in order and on the one client; the answer, or the reason for which there is none, is
    written whole and followed by a line break; all that was written is flushed before more is read; the program ends only with its input, or when reading or writing fails"""
    main = [k for k in F.fns if k == 'hop_cli::main']
    if not main:
        raise Missing('main of the CLI')
    I = Interp(F, 400000)
    I.cut = passes(I, LINES)
    proc = [k for k in F.fns if k.startswith('hop_cli') and k.split('::')[-1] == 'process' and not k.endswith('{closure#0}') and F.fns[k]['body'] is not None]
    if not proc:
        raise Missing('process of the CLI library')
    for k in proc:
        I.prims[k] = p_process
    ts = I.start(main[0], [], State())
    rep.saw(I)
    rep.count('paths', len(ts))
    n = 0
    for o in ts:
        if o.kind == 'limit':
            rep.undecided('main:limit', 'a path of the CLI could not be followed: %s' % short(o.val))
            continue
        n += lines_of(rep, I, o)
    floor(rep, n, 10, 'paths with lines')


def lines_of(rep, I, o):
    st = o.st
    line, eof, failed, clients, out, flushed, due, reads = None, False, False, set(), [], True, None, 0
    prev = None

    def settle(when):
        nonlocal due, out
        if line is not None:
            t = I.cmp(st, 'Eq', slen(line), 0)
            rep.check(False if t != 1 and I.rng(st, slen(line))[1] > 0 else True, 'processed', 'a line is not processed %s' % when)
        if due is not None:
            g = canon(seq(out))
            kind, k = due
            ps = list(parts(g))
            whole = sum(p[0] == 't' and p[1] is mk('answer', k) for p in ps) == 1
            about = find(g, lambda y: y is mk('processerr', k)) is not None
            if kind:
                rep.check(True if whole else None if find(g, lambda y: y is mk('answer', k)) is not None and vague(g) else False, 'answer', 'the answer to a line is not written whole %s: %s' % (when, short(g)))
            else:
                said = about or bool(err_text(g))
                rep.check(said, 'reason', 'why a line could not be processed is not written %s: %s' % (when, short(g)))
            other = find(g, lambda y: isinstance(y, T) and y.op in ('answer', 'line') and y is not mk('answer', k) and y.op == 'answer')
            rep.check(other is None, 'own', 'an answer is written with that to another line: %s' % short(g))
            rep.check(True if any(p == ('v', 10) for p in ps) else None if vague(g) and not whole else False, 'break', 'no line break is written after an answer: %s' % short(g))
            due = None
    for e in st.events():
        if e[0] == 'io' and e[1] == 'read':
            settle('before the next is read')
            rep.check(flushed, 'flush', 'what was written is not flushed before the next line is read')
            if prev is not None:
                rep.check(I.rng(st, slen(prev))[0] > 0 or I.cmp(st, 'Eq', slen(prev), 0) == 0, 'eof', 'the input is read on after its end')
            prev = e[3] if e[4] else None
            if e[4]:
                line, reads, out = e[3], reads + 1, []
                lo, hi = I.rng(st, slen(line))
                eof = eof or hi == 0
            else:
                line, failed = None, True
        elif e[0] == 'process':
            if line is None:
                rep.bad('once', 'a line is processed that was not read, or twice')
                continue
            g = e[2]
            part = find(g, lambda y: isinstance(y, T) and y is line) is not None
            olds = find(g, lambda y: isinstance(y, T) and y.op == 'line' and y is not line) is not None
            rep.check(False if olds or not part else g != canon(line) or None, 'line', 'what is processed is %s; the line is %s' % (short(g), short(line)))
            if g == canon(line):
                rep.bad('line', 'a line is processed with its line break')
            clients.add(repr(e[1]))
            line = None
        elif e[0] == 'answer':
            due = (e[2], e[1])
        elif e[0] == 'io' and e[1] == 'write':
            failed = failed or not e[4]
            flushed = False
            out += list(parts(canon(e[3])))
        elif e[0] == 'io' and e[1] == 'flush':
            failed = failed or not e[4]
            flushed = True
    rep.check(len(clients) <= 1, 'client', 'lines are processed on several clients')
    if o.kind == 'panic':
        rep.bad('panic', 'the CLI panics: %s in %s' % (short(o.val), o.where))
        return 1
    if o.kind == 'cut':
        return 1
    if reads or o.kind != 'ret':
        rep.check(failed or eof, 'ends', 'the CLI ends although neither its input ended nor reading or writing failed')
    return int(bool(reads))


def err_text(g):
    """the literal text in what is written"""
    t = b''
    for p in parts(g):
        if p[0] == 'v' and isinstance(p[1], int):
            t += bytes([p[1]])
    return t.strip(b'> \n')


# ---------------------------------------------------------------- connecting
def B07(F, rep):
    """every path of connecting: what is read from and what is written to are the two halves of one connection to the address given; a connection that could not be made is answered with
    the error; a client in memory has an engine of its own, and clones of a client share its backend"""
    from .rules_client import awaited
    from .rules_lib import reach, arcs_in
    addr = mk('addr')
    good = 0
    for ty in ('Client', 'ServerBackend'):
        I = Interp(F, 50000)
        ts = I.start(find_method(F, ty, 'hop', 'connect'), [addr], State(), {}, awaited(I))
        rep.saw(I)
        rep.count('paths', len(ts))
        for o in ts:
            if o.kind != 'ret':
                rep.check(False if o.kind == 'panic' else None, ty + ':' + o.kind, 'connecting a %s panics: %s' % (ty, short(o.val)))
                continue
            v = canon(I.content(o.st, o.val))
            conn = [e for e in o.st.events() if e[0] == 'io' and e[1] == 'connect']
            if not conn or not isinstance(v, Adt):
                rep.undecided(ty, 'connecting a %s could not be followed: %s' % (ty, short(v)))
                continue
            for e in conn:
                rep.check(True if canon(e[2]) == addr else None if vague(e[2]) else False, ty + ':address', 'a connection is made to %s' % short(e[2]))
            if v.vi == 1:
                why = find(v, lambda x: isinstance(x, T) and x.op == 'ioerr')
                rep.check(False if conn[-1][4] and not vague(v) else True, ty + ':fails', 'connecting a %s fails although the connection was made' % ty)
                ek = F.adts.get(v.f[0].key) if isinstance(v.f[0], Adt) else None
                rep.check(None if ek is None else ek.names[v.f[0].vi] == 'Connecting' and why is not None, ty + ':error', 'a connection that could not be made is answered with %s' % short(v))
                continue
            good += 1
            rep.check(bool(conn[-1][4]), ty + ':made', 'a %s is made without a connection' % ty)
            held, _w = reach(o.st, v)
            all_ = [v] + [o.st.mem.get(c) for c in held]
            ends = {'rhalf': set(), 'whalf': set()}
            for x in all_:
                if x is not None:
                    find(x, lambda y: ends[y.op].add(y.a[0]) or False if isinstance(y, T) and y.op in ends else False)
            r, w = ends['rhalf'], ends['whalf']
            rep.check(None if not r or not w else len(r | w) == 1, ty + ':halves', 'a %s reads from %s and writes to %s' % (ty, ', '.join(map(short, r)), ', '.join(map(short, w))))
    floor(rep, good, 2, 'connections made')
    I = Interp(F, 50000)
    for o in I.start(find_method(F, 'Client', 'hop', 'memory'), [], State()):
        if o.kind != 'ret':
            rep.check(False if o.kind == 'panic' else None, 'memory', 'a client in memory cannot be made: %s' % short(o.val))
            continue
        held, weak = reach(o.st, o.val)
        hops = [c for c in held if find(o.st.mem.get(c, EMPTY), lambda y: isinstance(y, Adt) and str(y.key).endswith('::HopRef')) is not None]
        rep.check(len(hops) == 1 if held else None, 'memory:engine', 'a client in memory has %d engines' % len(hops))
        rep.check(all(c in o.st.mem for c in held), 'memory:own', 'a client in memory shares its engine with others')
    rep.saw(I)
    ck = [k for k in F.adts if k.startswith('hop::') and k.endswith('::Client')][0]
    me = typed(mk('client'), ('ref', False, ('adt', ck, (('param', 'B'),))))
    I = Interp(F, 5000)
    for o in I.start(find_trait_method(F, 'Clone', 'Client', 'clone', 'hop::'), [me], State()):
        v = canon(I.content(o.st, o.val)) if o.kind == 'ret' else None
        fresh = v is not None and any(a.f[0] in o.st.mem and a.f[0][0] == 'arc' for a in arcs_in(v) if isinstance(a.f[0], tuple))
        rep.check(None if v is None or vague(v) else find(v, lambda y: y is mk('client')) is not None and not fresh, 'clone', 'a clone of a client is %s' % short(v))
    rep.saw(I)
