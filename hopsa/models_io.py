"""Boxes, pins, futures and I/O."""
from .vals import *
from . import models as B
from .models import m, M, some, ok, err, NONE, OPT, RES, POLL, COW, selfname, target, target1, ofork, sty, targ, default, deref_ref
from .models_seq import it, nxt


# ------------------------------------------------------------------ boxes, pins
@m('Box::new', 'Box::pin', 'Box::from', 'Pin::new', 'Pin::new_unchecked', 'Pin::into_inner', 'Box::into_pin', 'Pin::as_mut', 'Pin::as_ref', 'Pin::get_mut',
   'Pin::get_unchecked_mut', 'Box::into_inner', 'IntoFuture::into_future', 'future::get_context', 'future::from_generator', 'Pin::get_ref',
   'Box::into_raw', 'Box::from_raw', 'hint::black_box', 'ManuallyDrop::new', 'ManuallyDrop::into_inner', 'Pin::into_ref', 'convert::identity', 'Wrapping::from',
   'hint::must_use', 'Reverse::new', 'Box::unbox', 'thread::current', 'Pin::into_inner_unchecked', 'ops::identity', 'mem::transmute', 'intrinsics::transmute')
def _(I, st, a, c, k):
    return k(st, a[0] if a else mk('ext', c.m))


@m('Box::new_uninit', 'Box::new_zeroed')
def _(I, st, a, c, k):
    cell = ('H', ('box', st.fresh('box')))
    st.mem[cell] = UNINIT
    return k(st, ref(cell))


@m('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init', 'slice::into_vec', 'Box::write', 'boxed::box_new')
def _(I, st, a, c, k):
    if c.m == 'write':
        cell, proj = target(I, st, a[0])
        I.write(st, cell, proj, a[1])
        return k(st, a[0])
    if c.m == 'box_new':
        return k(st, a[0])
    return k(st, I.content(st, a[0]))


@m('Box::as_mut_ptr', 'Box::as_ptr', 'MaybeUninit::as_mut_ptr', 'MaybeUninit::as_ptr', 'NonNull::as_ptr', 'slice::as_ptr', 'Vec::as_ptr', 'str::as_ptr', 'ptr::cast',
   'ptr::cast_mut', 'ptr::as_ref', 'slice::as_mut_ptr')
def _(I, st, a, c, k):
    return k(st, a[0])


@m('MaybeUninit::uninit', 'MaybeUninit::zeroed', 'mem::zeroed', 'mem::uninitialized')
def _(I, st, a, c, k):
    return k(st, typed(mk('zeroed', str(c.dest)), c.dest))


@m('MaybeUninit::assume_init', 'MaybeUninit::new')
def _(I, st, a, c, k):
    return k(st, a[0])


@m('convert::<impl (dyn std::error::Error + \'static)>::downcast', 'dyn::downcast', 'dyn::downcast_ref', 'dyn::is', 'Error::downcast')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    want = targ(targ(c.dest)) if c.dest is not None else None
    if isinstance(v, Adt) and v.key[0] != '@':
        # a concrete error: compare types by name
        w = c.args[0] if c.args else None
        if w is not None and w[0] == 'adt':
            return k(st, ok(v) if w[1] == v.key else err(v))
    w = c.args[0] if c.args else None
    if w is not None and w[0] == 'alias':
        w = next((t for n, t in getattr(I, 'aliases', {}).items() if n in w[1]), w)
    if isinstance(v, T) and w is not None and w[0] == 'adt' and TY.get(v, ('?',))[0] == 'adt':
        res = selfname(c.dest) == 'Result'
        if TY[v][1] == w[1]:
            return k(st, ok(v) if res else some(v))
        return k(st, err(a[0]) if res else NONE)
    s2 = st.copy()
    b = mk('downcasts', v, str(c.args[0]) if c.args else '?')
    out = []
    if I.assume(st, b, 1):
        out += k(st, adt(RES, 0, (typed(mk('downcast', v), c.args[0] if c.args else None),)) if selfname(c.dest) == 'Result' else some(mk('downcast', v)))
    if I.assume(s2, b, 0):
        out += k(s2, err(a[0]) if selfname(c.dest) == 'Result' else NONE)
    return out


# ------------------------------------------------------------------ futures
@m('Future::poll')
def _(I, st, a, c, k):
    r = a[0]
    v = I.content_once(st, r) if isinstance(r, Ref) else r
    n = 0
    while isinstance(v, Ref) and n < 10:
        r = v
        v = I.content_once(st, v)
        n += 1
    if isinstance(v, Adt) and v.key == '@coro':
        key, sub = I.clos[v.vi]
        fn = I.F.fns.get(key)
        if fn is not None:
            return I.push(st, fn, sub, [v, UNIT], lambda s, x: k(s, adt(POLL, 1, ()) if isinstance(x, T) and x.op == 'dropped' else adt(POLL, 0, (x,))))
    if isinstance(v, Adt) and v.key == '@fut':
        return resolve(I, st, v, c, k)
    if isinstance(v, Adt) and v.key[0] != '@':
        lf = B.by_value(I, st, c, [r])
        if lf is not None:
            return I.push(st, lf[0], lf[1], [r, a[1]], k)
    st.event('await', v)
    ty = targ(c.dest)
    return k(st, adt(POLL, 0, (typed(mk('ext', 'await', st.fresh('ext')), ty),)))


FUT = {}


def fut(*names):
    """an external async operation; f(I, st, args, dest type, k) resolves its output"""
    def d(f):
        for n in names:
            FUT[n] = f

            def model(I, st, a, c, k, n=n):
                return k(st, adt('@fut', 0, (n,) + tuple(a)))
            M[n] = model
        return f
    return d


def resolve(I, st, v, c, k):
    f = FUT[v.f[0]]
    out = []
    if getattr(I, 'dropping', False):
        # the operation is dropped while it waits for this
        s = st.copy()
        s.mem[('dropped',)] = v.f[0]
        s.event('dropped', v.f[0])
        out = k(s, adt(POLL, 1, ()))
    return out + f(I, st, v.f[1:], targ(c.dest), lambda s, x: k(s, adt(POLL, 0, (x,))))


def ioerr(st, ty=None):
    e = mk('ioerr', st.fresh('ioerr'))
    typed(e, targ(ty, 1) if ty is not None and ty[0] == 'adt' and len(ty[2]) > 1 else ('adt', 'std::io::error::Error', ()))
    return e


def both(st):
    return st, st.copy()


def stream_id(I, st, r):
    cell, proj = target(I, st, r)
    v = I.read(st, cell, proj)
    return v if isinstance(v, T) else mk('stream', cell, proj)


@fut('AsyncWriteExt::write_all', 'AsyncWriteExt::write', 'AsyncWriteExt::write_buf')
def _(I, st, a, ty, k):
    s2 = st.copy()
    data = I.content(st, a[1])
    sid = stream_id(I, st, a[0])
    if targ(ty) in (None, ('tuple', ())):
        st.event('io', 'write', sid, data, 1)
        s2.event('io', 'write', sid, data, 0)
        return k(st, ok(UNIT)) + k(s2, err(ioerr(s2, ty)))
    # only some of it, perhaps
    n = typed(mk('wrote', st.fresh('w')), ('prim', 'usize'))
    I.assume(st, I.cmp(st, 'Le', n, slen(data)), 1)
    st.event('io', 'write', sid, I.mksub(data, 0, n), 1)
    s2.event('io', 'write', sid, data, 0)
    return k(st, ok(n)) + k(s2, err(ioerr(s2, ty)))


@fut('AsyncWriteExt::flush', 'AsyncWriteExt::shutdown')
def _(I, st, a, ty, k):
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    st.event('io', 'flush', sid, None, 1)
    s2.event('io', 'flush', sid, None, 0)
    return k(st, ok(UNIT)) + k(s2, err(ioerr(s2, ty)))


@fut('AsyncReadExt::read_exact')
def _(I, st, a, ty, k):
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    cell, proj = target(I, st, a[1])
    old = I.read(st, cell, proj)
    n = slen(old)
    data = typed(mk('filled', sid, st.fresh(('in', sid)), n), ('slice', ('prim', 'u8')))
    if isinstance(old, Seq) and isinstance(n, int) and n <= 16:
        new = seq([('v', I.elem_at(data, i)) for i in range(n)])
    else:
        new = data
    I.write(st, cell, proj, new)
    st.event('io', 'read', sid, data, 1)
    s2.event('io', 'read', sid, None, 0)
    I.write(s2, cell, proj, typed(mk('partial', s2.fresh('p')), TY.get(old)))
    return k(st, ok(n)) + k(s2, err(ioerr(s2, ty)))


@fut('AsyncReadExt::read_buf', 'AsyncReadExt::read_to_end')
def _(I, st, a, ty, k):
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    cell, proj = target(I, st, a[1])
    data = typed(mk('input', sid, st.fresh(('in', sid))), ('slice', ('prim', 'u8')))
    old = I.read(st, cell, proj)
    I.write(st, cell, proj, seq(parts(old) + parts(data)))
    st.event('io', 'read', sid, data, 1)
    s2.event('io', 'read', sid, None, 0)
    n = typed(slen(data), ('prim', 'usize'))
    return k(st, ok(n)) + k(s2, err(ioerr(s2, ty)))


@fut('AsyncReadExt::read')
def _(I, st, a, ty, k):
    """overwrites the start of a slice of fixed length"""
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    cell, proj = target(I, st, a[1])
    data = typed(mk('input', sid, st.fresh(('in', sid))), ('slice', ('prim', 'u8')))
    old = I.read(st, cell, proj)
    N = slen(old)
    n = typed(slen(data), ('prim', 'usize'))
    st.event('io', 'read', sid, data, 1)
    s2.event('io', 'read', sid, None, 0)
    out = []
    if I.assume(st, I.cmp(st, 'Le', n, N), 1):
        I.write(st, cell, proj, seq(tuple(parts(data)) + tuple(parts(I.sub(st, old, n, N)))))
        out += k(st, ok(n))
    return out + k(s2, err(ioerr(s2, ty)))


@fut('AsyncReadExt::read_u8')
def _(I, st, a, ty, k):
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    data = typed(mk('input', sid, st.fresh(('in', sid))), ('slice', ('prim', 'u8')))
    I.assume(st, I.cmp(st, 'Eq', slen(data), 1), 1)
    st.event('io', 'read', sid, data, 1)
    s2.event('io', 'read', sid, None, 0)
    return k(st, ok(I.elem_at(data, 0))) + k(s2, err(ioerr(s2, ty)))


@fut('AsyncBufReadExt::read_line', 'AsyncBufReadExt::read_until', 'AsyncReadExt::read_to_string')
def _(I, st, a, ty, k):
    s2 = st.copy()
    sid = stream_id(I, st, a[0])
    cell, proj = target(I, st, a[-1])
    data = typed(mk('line', sid, st.fresh(('in', sid))), ('str',))
    old = I.read(st, cell, proj)
    I.write(st, cell, proj, seq(parts(old) + parts(data)))
    st.event('io', 'read', sid, data, 1)
    s2.event('io', 'read', sid, None, 0)
    return k(st, ok(typed(slen(data), ('prim', 'usize')))) + k(s2, err(ioerr(s2, ty)))


@fut('StreamExt::next')
def _(I, st, a, ty, k):
    sid = stream_id(I, st, a[0])
    s2 = st.copy()
    e = typed(mk('accepted', sid, st.fresh('acc')), targ(ty))
    st.event('io', 'accept', sid, e, 1)
    s2.event('io', 'accept', sid, None, 0)
    return k(st, some(e)) + k(s2, NONE)


@fut('TcpListener::accept')
def _(I, st, a, ty, k):
    sid = stream_id(I, st, a[0])
    s2 = st.copy()
    t = targ(ty)
    e = typed(mk('accepted', sid, st.fresh('acc')), t[1][0] if t is not None and t[0] == 'tuple' else None)
    st.event('io', 'accept', sid, e, 3)
    f = ioerr(s2, ty)
    s2.event('io', 'accept', sid, f, 2)
    return k(st, ok(adt('()', 0, (e, typed(mk('peer', e), t[1][1] if t is not None and t[0] == 'tuple' else None))))) + k(s2, err(f))


@fut('Mutex::lock')
def _(I, st, a, ty, k):
    cell, proj = target(I, st, a[0])
    v = I.read(st, cell, proj)
    if isinstance(v, Adt) and v.key == '@arc':
        cell, proj = v.f[0], ()
    elif isinstance(v, T) and TY.get(v) is not None and selfname(TY[v]) == 'Mutex':
        r = ('D', v)
        if r not in st.mem:
            st.mem[r] = typed(mk('locked', v), targ(TY[v]))
        st.event('lock', v)
        return k(st, adt('@mguard', 0, (r,)))
    st.event('lock', mk('place', cell, proj))
    c2 = ('mx', cell, proj)
    if proj:
        st.mem.setdefault(c2, I.read(st, cell, proj))
        return k(st, adt('@mguard', 0, (c2,)))
    return k(st, adt('@mguard', 0, (cell,)))


@fut('TcpStream::connect', 'TcpListener::bind', 'net::lookup_host', 'UnixStream::connect')
def _(I, st, a, ty, k):
    s2 = st.copy()
    arg = I.content(st, a[0]) if a else UNIT
    st.event('io', 'connect', arg, None, 1)
    s2.event('io', 'connect', arg, None, 0)
    return k(st, ok(typed(mk('socket', arg, st.fresh('sock')), targ(ty)))) + k(s2, err(ioerr(s2, ty)))


@m('task::spawn', 'tokio::spawn', 'spawn::spawn', 'thread::spawn', 'task::spawn_local', 'thread::spawn_unchecked', 'blocking::spawn_blocking')
def _(I, st, a, c, k):
    st.event('spawn', a[0])
    if isinstance(a[0], Adt) and a[0].key == '@coro':
        I.spawned.add(I.clos[a[0].vi][0])
    return k(st, typed(mk('ext', 'spawn', st.fresh('ext')), c.dest))


@m('Runtime::block_on', 'futures::block_on', 'executor::block_on')
def _(I, st, a, c, k):
    v = a[1] if len(a) > 1 else a[0]
    cell = ('H', ('fut', st.fresh('fut')))
    st.mem[cell] = v

    def kk(s, p):
        return k(s, I.payload(s, p, 0, 0))
    cc = type(c)()
    cc.__dict__.update({x: getattr(c, x) for x in c.__slots__ if hasattr(c, x)}) if hasattr(c, '__dict__') else None
    for x in getattr(c, '__slots__', ()):
        if hasattr(c, x):
            setattr(cc, x, getattr(c, x))
    cc.dest = ('adt', POLL, (c.dest,))
    return M['Future::poll'](I, st, [ref(cell), UNIT], cc, kk)


@m('process::exit', 'process::abort', 'exit::exit')
def _(I, st, a, c, k):
    st.event('exit', a[0] if a else 134)
    return I.end('diverge', 'exit', st)


@m('env::var', 'env::args', 'env::var_os', 'env::args_os')
def _(I, st, a, c, k):
    v = I.content(st, a[0]) if a else UNIT
    if c.m == 'args':
        t = typed(mk('argv'), ('slice', ('adt', 'alloc::string::String', ())))
        return k(st, it('abs', t, 0, 'fresh', 'val'))
    s2 = st.copy()
    out = []
    b = mk('envset', v)
    if I.assume(st, b, 1):
        out += k(st, ok(typed(mk('env', v), ('adt', 'alloc::string::String', ()))))
    if I.assume(s2, b, 0):
        out += k(s2, err(typed(mk('enverr', v), targ(c.dest, 1))))
    return out


@m('Stdout::lock', 'Stderr::lock', 'stdio::stdout', 'stdio::stderr', 'io::stdout', 'io::stdin', 'io::stderr', 'BufReader::new', 'BufWriter::new', 'stdout::stdout', 'stdin::stdin')
def _(I, st, a, c, k):
    if 'Buf' in str(c.dest) and c.m == 'new':
        st.event('buffered', str(c.dest))
    if a:
        return k(st, a[0] if not (isinstance(a[0], Ref)) else I.content_once(st, a[0]))
    return k(st, typed(mk('std', c.m), c.dest))


@m('Write::write_all', 'Write::write', 'Write::flush', 'Write::by_ref')
def _(I, st, a, c, k):
    if c.m == 'by_ref':
        return k(st, a[0])
    if c.m == 'flush':
        sid = stream_id(I, st, a[0])
        s2 = st.copy()
        st.event('io', 'flush', sid, None, 1)
        s2.event('io', 'flush', sid, None, 0)
        return k(st, ok(UNIT)) + k(s2, err(ioerr(s2, c.dest)))
    return io_write(I, st, c, a[0], I.content(st, a[1]), k, c.m == 'write')


def io_write(I, st, c, r, data, k, count=False):
    cell, proj = target(I, st, r)
    v = I.read(st, cell, proj)
    if isinstance(v, Seq) or isinstance(v, T) and selfname(TY.get(v)) in ('Vec', 'String'):
        I.write(st, cell, proj, seq(parts(v) + parts(data)))
        return k(st, ok(slen(data) if count else UNIT))
    sid = v if isinstance(v, T) else mk('stream', cell, proj)
    s2 = st.copy()
    st.event('io', 'write', sid, data, 1)
    s2.event('io', 'write', sid, data, 0)
    e = ioerr(s2, c.dest)
    return k(st, ok(typed(mk('wrote', st.fresh('w')), ('prim', 'usize')) if count else UNIT)) + k(s2, err(e))


B.io_write = io_write


@m('TcpStream::into_split', 'io::split', 'TcpStream::split')
def _(I, st, a, c, k):
    v = a[0] if not isinstance(a[0], Ref) else I.content(st, a[0])
    return k(st, adt('()', 0, (typed(mk('rhalf', v), c.dest[1][0] if c.dest[0] == 'tuple' else None),
                               typed(mk('whalf', v), c.dest[1][1] if c.dest[0] == 'tuple' else None))))


@m('TcpStream::peer_addr', 'TcpListener::local_addr', 'TcpStream::local_addr')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    s2 = st.copy()
    return k(st, ok(typed(mk('peeraddr', v), targ(c.dest)))) + k(s2, err(ioerr(s2, c.dest)))


@m('TcpListener::incoming')
def _(I, st, a, c, k):
    return k(st, typed(mk('incoming', I.content(st, a[0])), c.dest))


@m('Duration::new')
def _(I, st, a, c, k):
    x, y = I.content(st, a[0]), I.content(st, a[1])
    if I.rng(st, y)[1] >= 10 ** 9 and I.rng(st, x)[1] + I.rng(st, y)[1] // 10 ** 9 >= 1 << 64:
        I.panic(st.copy(), 'overflow', ('Duration::new', x, y))
    return k(st, typed(mk('dur_new', x, y), c.dest))


def dur_sub(I, st, x, y, m, dest, k):
    """the time from y to x; I.later tells which of two times comes first"""
    r = lambda s, ty: typed(mk('dur_sub', x, y), ty)
    late = I.later(x, y)
    if m == 'checked_sub':
        return (k(st.copy(), some(r(st, targ(dest)))) if late is not False else []) + (k(st, NONE) if late is not True else [])
    out = []
    if late is not True:
        s2 = st.copy() if late is None else st
        if m == 'sub':
            I.panic(s2, 'overflow', ('Duration', x, y))
        else:
            out += k(s2, typed(mk('dur_new', 0, 0), dest))
        if late is False:
            return out
    return out + k(st, r(st, dest))


@m('Duration::checked_sub', 'Duration::saturating_sub')
def _(I, st, a, c, k):
    return dur_sub(I, st, I.content(st, a[0]), I.content(st, a[1]), c.m, c.dest, k)


@m('Duration::as_secs', 'Duration::subsec_nanos', 'Duration::from_secs', 'Duration::from_nanos', 'Duration::from_millis', 'Duration::as_nanos',
   'Duration::as_millis', 'Duration::as_micros', 'Duration::as_secs_f64', 'Duration::from_micros', 'Duration::from_secs_f64')
def _(I, st, a, c, k):
    return k(st, typed(mk('dur_' + c.m, *[I.content(st, x) for x in a]), c.dest))


@m('Instant::now', 'SystemTime::now')
def _(I, st, a, c, k):
    st.event('clock')
    return k(st, typed(mk('now', st.fresh('now')), c.dest))


@m('Error::kind', 'io::error::Error::kind')
def _(I, st, a, c, k):
    v = I.content(st, a[0])
    return k(st, typed(mk('errkind', v), c.dest))


@m('env_logger::init', 'Builder::init', 'Builder::try_init')
def _(I, st, a, c, k):
    return k(st, UNIT)
