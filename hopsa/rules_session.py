"""Sessions and subscriptions (properties C14, C15): method by method, all paths, as a step on an abstract state."""
from .vals import *
from .canon import *
from .interp import Interp, State
from . import engine
from .engine import find_method, Missing
from .rules_engine import guard_clashes, floor, MUT
from .epaths import Tables

HE = 'hop_engine'


def explore(F, rep, ty, name, mod, args):
    I = Interp(F, 200000)
    for m in ('increment', 'decrement'):
        try:
            I.prims[find_method(F, 'Writer', 'hop_internal_metrics', m)] = engine.p_metric
        except Missing:
            pass
    out = I.start(find_method(F, ty, HE, name, mod), args, State())
    rep.saw(I)
    rep.count('paths', len(out))
    return I, out


def adt_named(F, tail):
    ks = [k for k in F.adts if k.startswith(HE + '::') and k.endswith('::' + tail)]
    if len(ks) != 1:
        raise Missing('type %s' % tail)
    return ks[0]


def flat(I, o):
    """the events of a path with the collections of the loops they sit in: [(event, colls)]; loops are entered once per alternative"""
    out = []

    def go(evs, lp):
        for e in evs:
            if e[0] == 'loop':
                for alt in sorted(e[3], key=repr):
                    go(alt, lp + tuple(e[2]))
            else:
                out.append((e, lp or None))
    go(o.st.events(), ())
    return out


def common(rep, what, I, o):
    """locks: nothing taken twice, nothing kept (but a guard handed out)"""
    cl, k, left = guard_clashes(flat(I, o))
    for cell, e in cl:
        rep.bad('%s:%s-under-guard' % (what, e[1]), '%s does "%s" on a table while it holds an entry of that table' % (what, e[1]))
    if not cl:
        rep.ok()


def C14(F, rep):
    """each session has an identifier of its own from one atomic step, is found under it, and is counted when it starts and when it ends"""
    tab = Tables(F)
    smgr = adt_named(F, 'SessionManager')
    sess = adt_named(F, 'Session')
    me = typed(mk('self'), ('ref', True, ('adt', smgr, ())))
    tok = mk('token')
    idt = typed(mk('id'), ('prim', 'u32'))
    I, ts = explore(F, rep, 'SessionManager', 'add', 'session', [me, tok])
    n = 0
    drawn = set()
    for o in ts:
        drawn |= {e[2] for e, lp in flat(I, o) if e[0] == 'atomic' and e[1] in ('fetch_add', 'fetch_sub')}
    for o in ts:
        common(rep, 'add', I, o)
        ev = flat(I, o)
        if o.kind == 'panic':
            # only when the identifier drawn is taken
            occ = any(e[0] == 'dm' and e[5] == 1 for e, lp in ev)
            rep.check(occ, 'add:panic', 'adding a session panics although its identifier is free (%s)' % short(o.val))
            continue
        if o.kind != 'ret':
            rep.undecided('add:' + o.kind, 'a path does not end')
            continue
        n += 1
        put = [(e, lp) for e, lp in ev if e[0] == 'dm' and e[1] in MUT and e[5] is not None and not (e[1] == 'entry')]
        ins = [e for e, lp in put if e[1] == 'insert']
        if len(put) != 1 or len(ins) != 1:
            rep.bad('add:stores', 'adding a session changes the table %d times' % len(put))
            continue
        e = ins[0]
        key, val = e[3], canon(e[6])
        own = key
        at = [x for x, lp in ev if x[0] == 'atomic']
        while isinstance(key, T) and (key.op == 'wrap' and key.a[0] in ('u32', 'u64', 'usize') or key.op == 'bin' and key.a[0] == 'BitXor' and isinstance(key.a[2], int)) or \
                isinstance(key, Lin) and [abs(k) for t, k in key.t] == [1]:
            # one to one
            key = key.t[0][0] if isinstance(key, Lin) else key.a[1]
        if isinstance(key, T) and key.op == 'lv':
            rep.undecided('add:identifier', 'the identifier is settled in a loop')
            continue
        fresh = isinstance(key, T) and key.op == 'atomicv' and len(at) == 1 and at[0][1] in ('fetch_add', 'fetch_sub') and isinstance(at[0][3], int) and at[0][3] % 2 == 1
        if not fresh:
            drew = isinstance(key, T) and find(key, lambda x: isinstance(x, T) and x.op == 'atomicv') is not None
            one = len(at) == 1 and at[0][1] in ('fetch_add', 'fetch_sub') and isinstance(at[0][3], int) and at[0][3] % 2 == 1
            fresh = True if drew and one and isinstance(key, Lin) and [k for t, k in key.t] in ([1], [-1]) else False
        rep.check(fresh, 'add:identifier', 'a new session gets the identifier %s, which another session added at the same time can get too (atomic steps: %s)'
                  % (short(key), ', '.join('%s by %s' % (x[1], short(x[3])) for x in at) or 'none'))
        locked = 'locked' in e[7:] or 'locked' in e[6:] and e[6] != 'locked'
        rep.check(locked or e[5] == 0 or fresh, 'add:replaces', 'a new session is stored without looking whether its identifier is taken')
        if isinstance(val, Adt) and val.key == sess:
            fs = list(val.f)
            rep.check(sum(1 for x in fs if x is own or x == canon(own)) == 1, 'add:own-id', 'the session stored under %s carries %s' % (short(own), short(val)))
            rep.check(any(x is tok for x in fs), 'add:token', 'the session stored does not carry the token of its client: %s' % short(val))
        else:
            rep.undecided('add:value', 'the stored session could not be read')
        metric(rep, tab, 'add', ev, ['SessionsStarted'])
        g = o.val
        if isinstance(g, Adt) and g.key == '@guard':
            rep.check(g.f[0][0] == 'ent' and g.f[0][1] is e[2] and g.f[0][2] is own, 'add:answer', 'adding a session answers with another entry than its own')
        rep.sample('add: %s drawn by %s' % (short(key), at[0][1] if at else '?'))
    I, ts = explore(F, rep, 'SessionManager', 'remove', 'session', [me, idt])
    for o in ts:
        common(rep, 'remove', I, o)
        ev = flat(I, o)
        if o.kind != 'ret':
            rep.bad('remove:' + o.kind, 'removing a session does not return') if o.kind == 'panic' else rep.undecided('remove:' + o.kind, 'a path does not end')
            continue
        n += 1
        mut = [e for e, lp in ev if e[0] == 'dm' and e[1] in MUT] + [e for e, lp in ev if e[0] in ('ew', 'w') and e[1][0] == 'ent']
        rem = [e for e in mut if e[0] == 'dm' and e[1] == 'remove' and canon(e[3]) is idt]
        again = [e for e, lp in ev if e[0] == 'atomic' and e[1] != 'load' and e[2] in drawn]
        rep.check(not again, 'remove:identifier', 'removing a session changes what identifiers are drawn from, and one in use can be given out again')
        seen = [e for e, lp in ev if e[0] == 'dm' and e[1] in ('get', 'contains') and canon(e[3]) is idt]
        if len(mut) != len(rem) or len(rem) > 1:
            rep.bad('remove:other', 'removing a session changes more than that session')
            continue
        if not rem:
            rep.check(bool(seen) and seen[-1][5] == 0 and o.val == 0, 'remove:nothing', 'removing a session does not remove it')
            metric(rep, tab, 'remove', ev, [])
            continue
        hit = rem[0][5]
        rep.check(o.val == hit if o.val in (0, 1) else None, 'remove:answer', 'removing a session answers %s when the session was %s' % (short(o.val), 'there' if hit else 'not there'))
        metric(rep, tab, 'remove', ev, ['SessionsEnded'] if hit else [])
        rep.sample('remove: %s' % ('removed and counted' if hit else 'nothing to remove, nothing counted'))
    floor(rep, n, 3, 'returning paths')


def metric(rep, tab, what, ev, want):
    ms = []
    for e, lp in ev:
        if e[0] == 'metric':
            v = e[2]
            if not (isinstance(v, Adt) and v.key == tab.adts['metric'].key):
                rep.undecided(what + ':metric', 'a counted metric could not be read')
                return
            ms.append(tab.metric[v.vi] if e[1] == 'increment' and lp is None else '%s %s' % (e[1], tab.metric[v.vi]))
    rep.check(ms == want, what + ':metric', '%s counts %s; it has to count %s' % (what, ', '.join(ms) or 'nothing', ', '.join(want) or 'nothing'))


# ------------------------------------------------------------------ subscriptions
def touched(ev, S, sid, key):
    """what a path does to a subscription that is there and is to stay as it is"""
    def sub(mt, x):
        return isinstance(mt, T) and mt.op == 'entv' and mt.a[0] is S and canon(mt.a[1]) == sid and canon(x) == key
    for e, lp in ev:
        if e[0] == 'dm' and e[1] in ('insert', 'remove') and e[5] and sub(e[2], e[3]):
            return 'puts another in its place'
        if e[0] == 'ew' and sub(e[1][1], e[1][2]):
            # writing back what is there changes nothing
            if find(e[3], lambda x: isinstance(x, Adt) and x.key == '@arc' or isinstance(x, T) and x.op == 'ext') is not None:
                return 'puts another in its place'
            if find(e[3], lambda x: isinstance(x, T) and x.op == 'entv' and sub(x.a[0], x.a[1])) is None:
                return '?'
        if e[0] == 'closed' and find(e[1], lambda x: isinstance(x, T) and x.op in ('tx', 'rx')) is None:
            return 'closes it'
        if e[0] == 'ext' and e[1].endswith('::close') or e[0] == 'call' and e[1].endswith('close'):
            if "('arc', " not in repr(e[2:]) and "'ch'" not in repr(e[2:]):
                return 'closes it'
    return ''


class Side:
    """What a path knows and does about one membership: is `inner` in the collection kept under `outer` in `table`?"""

    def __init__(self, table, outer, inner):
        self.table, self.outer, self.inner = table, outer, inner
        self.m0 = None      # before
        self.m = None       # now
        self.other = []     # changes to anything else
        self.lost = False
        self.gone = False   # the whole collection was taken out last
        self.swept = []     # whole collections taken out or put in the place of one: (event, known content?)

    def saw0(self, v):
        if self.m is None:
            self.m0 = self.m = v
        elif self.m != v:
            self.lost = True      # cannot happen in one task

    def member(self, content):
        content = canon(content)
        if isinstance(content, Adt) and content.key == '@dm' and isinstance(content.f[0], Seq):
            s = content.f[0]
        elif isinstance(content, Seq):
            s = content
        else:
            return None
        for x in s.p:
            if x[0] != 'v':
                return None
            v = x[1]
            if v is self.inner or v == self.inner or isinstance(v, Adt) and v.f and (v.f[0] is self.inner or v.f[0] == self.inner) or \
                    isinstance(v, tuple) and v and (v[0] is self.inner or v[0] == self.inner):
                continue
            return None
        return 1 if s.p else 0

    def step(self, e):
        """take one event in; True if it was about this table"""
        if e[0] == 'dm':
            op, mt, key, oc = e[1], e[2], canon(e[3]) if e[3] is not None else None, e[5]
            if mt is self.table:
                if key is not self.outer and key != self.outer:
                    if op in MUT and op != 'entry':
                        self.other.append(e)
                    return True
                if op == 'remove':
                    if oc == 0:
                        self.saw0(0)
                    else:
                        self.swept.append(e)
                    self.m = 0
                    self.gone = True
                elif op in ('get', 'get_mut', 'contains', 'entry'):
                    self.gone = self.gone and op != 'entry'
                    if oc == 0:
                        self.saw0(0)
                elif op == 'insert':
                    if oc == 0:
                        self.saw0(0)
                    else:
                        self.swept.append(e)
                    self.m = self.member(e[6])
                elif op in MUT:
                    self.other.append(e)
                return True
            if isinstance(mt, T) and mt.op == 'entv' and mt.a[0] is self.table:
                o = canon(mt.a[1])
                if o is not self.outer and o != self.outer or key is not self.inner and key != self.inner:
                    if op in MUT and op != 'entry':
                        self.other.append(e)
                    return True
                if op in ('get', 'get_mut', 'contains', 'entry'):
                    self.saw0(oc)
                elif op == 'insert':
                    if oc in (0, 1):
                        self.saw0(oc) if self.m is None else None
                    self.m = 1
                elif op == 'remove':
                    self.saw0(oc)
                    self.m = 0
                elif op in MUT:
                    self.other.append(e)
                return True
        elif e[0] == 'ew' and e[1][1] is self.table and not e[2]:
            if canon(e[1][2]) is self.outer or canon(e[1][2]) == self.outer:
                self.m = self.member(e[3])
            else:
                self.other.append(e)
            return True
        return False

    def drops(self, I, st):
        """does the path throw away a collection that can have other members? an event, or None"""
        for e in self.swept:
            if 'locked' not in e[6:] or 'empty' not in e[6:]:
                return e
        return None

    def settle(self, I, o):
        """the content the path leaves in the entry, where it is known outright"""
        for c, v in o.st.mem.items():
            if c[0] == 'ent' and c[1] is self.table and (canon(c[2]) is self.outer or canon(c[2]) == self.outer):
                m = self.member(I.content(o.st, v)) if isinstance(v, (Adt, Seq)) else None
                if m is not None and not self.gone:
                    self.m = m


def tables_of(F, I, o0, st, me, mgr):
    raise NotImplementedError


def index_terms(F, events):
    """the two tables, told apart by what they map: the one keyed by sessions, the one keyed by keys"""
    by_s = by_k = None
    for e in events:
        if e[0] == 'dm' and isinstance(e[2], T) and e[2].op != 'entv':
            k = canon(e[3])
            if k is SID or k == SID:
                by_s = e[2]
            elif k is OKEY:
                by_k = e[2]
    return by_s, by_k


SID = mk('sid')
OKEY = mk('key')


def verdict(o):
    v = o.val
    if isinstance(v, Adt) and v.key.endswith('option::Option'):
        return v.vi
    return v if v in (0, 1) else None


def C15(F, rep):
    """the index by session and the index by key agree: subscribe enters both, unsubscribe and removing the session leave both, and each answers what it did"""
    pm = adt_named(F, 'PubSubManager')
    sidk = adt_named(F, 'SessionId')
    global SID, OKEY
    SID = typed(mk('sid'), ('adt', sidk, ()))
    key = typed(mk('key'), ('slice', ('prim', 'u8')))
    OKEY = key
    own = typed(mk('key'), ('adt', 'alloc::vec::Vec', (('prim', 'u8'),)))
    me = typed(mk('self'), ('ref', False, ('adt', pm, ())))
    order = {}
    held = {}
    n = 0
    runs = {}
    tabs = [None, None]
    for name, args in (('subscribe', [me, own, SID]), ('unsubscribe', [me, rval(key), SID]), ('get', [me, rval(key), SID]), ('remove_session', [me, SID])):
        TY.pop(key, None)
        typed(key, ('adt', 'alloc::vec::Vec', (('prim', 'u8'),)) if name == 'subscribe' else ('slice', ('prim', 'u8')))
        I, ts = explore(F, rep, 'PubSubManager', name, 'pubsub', args)
        runs[name] = (I, ts)
        for o in ts:
            s, k = index_terms(F, [e for e, lp in flat(I, o)])
            tabs = [tabs[0] or s, tabs[1] or k]
    S, K = tabs
    if S is None or K is None or S is K:
        rep.undecided('tables', 'the two indexes were not recognised')
        return
    for name in ('subscribe', 'unsubscribe', 'get'):
        I, ts = runs[name]
        for o in ts:
            common(rep, name, I, o)
            if o.kind != 'ret':
                rep.bad('%s:%s' % (name, o.kind), '%s panics: %s' % (name, short(o.val))) if o.kind == 'panic' else rep.undecided('%s:%s' % (name, o.kind), 'a path does not end')
                continue
            ev = flat(I, o)
            locks(order, name, ev, S, K)
            a, b = Side(S, SID, OKEY), Side(K, OKEY, SID)
            for e, lp in ev:
                a.step(e) or b.step(e)
            common_hold(rep, held, name, ev, S, K)
            a.settle(I, o)
            b.settle(I, o)
            if a.lost or b.lost:
                continue
            was = a.m0 if a.m0 is not None else b.m0
            if a.m0 is not None and b.m0 is not None and a.m0 != b.m0:
                continue        # the indexes did not agree before: no reachable state
            sa = a.m if a.m is not None else was
            sb = b.m if b.m is not None else was
            n += 1
            got = verdict(o)
            d = '%s of a key the session is %ssubscribed to' % (name, '' if was else 'not ' if was == 0 else 'perhaps ')
            if a.other or b.other:
                rep.bad('%s:other' % name, '%s changes another subscription than that of the session to the key' % name)
                continue
            gone = a.drops(I, o.st) or b.drops(I, o.st)
            if gone:
                rep.bad('%s:sweeps' % name, '%s can throw away other subscriptions with the one it is about: "%s" on all %s' %
                        (name, gone[1], 'the subscriptions of the session' if gone[2] is S else 'the subscribers of the key'))
                continue
            if name == 'get':
                rep.check(got == was if was is not None and got is not None else None, 'get:answer', '%s answers %s' % (d, short(o.val)))
                rep.check(sa == was and sb == was, 'get:changes', '%s changes it' % d)
                rep.check(None if touched(ev, S, SID, OKEY) == '?' else not touched(ev, S, SID, OKEY), 'get:kept', '%s %s' % (d, touched(ev, S, SID, OKEY)))
                if got == 1:
                    w = o.val.f[0]
                    rep.check(True if find(w, lambda x: isinstance(x, T) and x.op == 'entv' and x.a[1] is OKEY and isinstance(x.a[0], T) and x.a[0].op == 'entv'
                                           and x.a[0].a[1] is SID) is not None else False, 'get:which', 'get answers with another subscription: %s' % short(w))
                continue
            if name == 'subscribe' and was:
                rep.check(None if touched(ev, S, SID, OKEY) == '?' else not touched(ev, S, SID, OKEY), 'subscribe:kept', '%s %s' % (d, touched(ev, S, SID, OKEY)))
            want = 1 if name == 'subscribe' else 0
            rep.check(sa == want if sa is not None else None, '%s:by-session' % name, '%s leaves the key %s the subscriptions of the session' % (d, 'out of' if want else 'among'))
            rep.check(sb == want if sb is not None else None, '%s:by-key' % name, '%s leaves the session %s the subscribers of the key' % (d, 'out of' if want else 'among'))
            if got is None or was is None:
                rep.undecided('%s:answer' % name, 'the answer of %s is not settled by the path' % name)
            else:
                rep.check(got == (1 - was if want else was), '%s:answer' % name, '%s answers %s' % (d, short(o.val)))
            if name == 'subscribe' and got == 1:
                w = o.val.f[0]
                # what it hands out has to be what it stored
                put = [e for e, lp in ev if e[0] == 'dm' and e[1] == 'insert']
                arcs = {repr(x) for x in [find(w, lambda x: isinstance(x, Adt) and x.key == '@arc')] if x is not None}
                kept = any(find(e[6], lambda x: isinstance(x, Adt) and x.key == '@arc' and repr(x) in arcs) is not None for e in put) or \
                    any(c[0] == 'ent' and find(canon(I.content(o.st, v)), lambda x: isinstance(x, Adt) and x.key == '@arc' and repr(x) in arcs) is not None
                        for c, v in o.st.mem.items() if isinstance(v, (Adt, Seq)))
                rep.check(kept or None if arcs else None, 'subscribe:which', 'subscribe hands out another subscription than it keeps')
            rep.sample('%s: index by session %s -> %s, by key %s -> %s, answers %s' % (name, a.m0, sa, b.m0, sb, got))
    I, ts = runs['remove_session']
    for o in ts:
        common(rep, 'remove_session', I, o)
        if o.kind != 'ret':
            rep.bad('remove_session:%s' % o.kind, 'remove_session panics: %s' % short(o.val)) if o.kind == 'panic' else rep.undecided('remove_session:' + o.kind, 'a path does not end')
            continue
        n += 1
        ev = flat(I, o)
        locks(order, 'remove_session', ev, S, K)
        common_hold(rep, held, 'remove_session', ev, S, K)
        got = verdict(o)
        rem = [e for e, lp in ev if e[0] == 'dm' and e[2] is S and e[1] == 'remove' and e[3] is SID and lp is None]
        look = [e for e, lp in ev if e[0] == 'dm' and e[2] is S and e[1] in ('get', 'contains', 'entry', 'get_mut') and e[3] is SID]
        oth = [e for e, lp in ev if e[0] == 'dm' and e[2] is S and e[1] in MUT and e not in rem and e[1] != 'entry']
        rep.check(not oth, 'remove_session:other', 'remove_session changes the subscriptions of another session')
        there = rem[-1][5] if rem else look[-1][5] if look else None
        if there == 1 and not rem:
            rep.bad('remove_session:by-session', 'remove_session leaves the session in the index')
            continue
        if there != 1:
            rep.check(got == there if got is not None and there is not None else None, 'remove_session:answer', 'remove_session answers %s for a session that was not subscribed' % short(o.val))
            continue
        sub = mk('entv', S, SID, rem[-1][4])
        for e, lp in ev:
            if e[0] == 'dm' and e[2] is K and e[1] == 'remove' and e[5] == 1:
                b = Side(K, e[3], SID)
                b.swept = [e]
                if b.drops(I, o.st) is not None and lp is None:
                    rep.bad('remove_session:sweeps', 'remove_session can throw away the other subscribers of a key')
        # an entry says nothing yet: the subscriptions in it may have ended one by one
        for some_left in (0, 1):
            st = o.st.copy()
            st.frames = []
            size = typed(mk('len', sub), ('prim', 'usize'))
            if not I.assume(st, I.cmp(st, 'Eq', size, 0), 1 - some_left):
                continue
            x = o.val if not isinstance(o.val, T) else I.truth(st, o.val)
            rep.check(x == some_left if isinstance(x, int) else None, 'remove_session:answer',
                      'remove_session answers %s for a session with %s' % (short(o.val), 'subscriptions' if some_left else 'no subscription left'))
        did = {}
        for e in o.st.events():
            if e[0] != 'loop':
                continue
            cs = [c for c in e[2] if find(c, lambda x: x is sub) is not None]
            if not cs:
                continue
            whole = any(c is sub or isinstance(c, T) and c.op in ('iter', 'keys') and c.a[0] is sub for c in cs)
            shuts = leaves = e[4]       # a loop left early does not reach all
            for alt in e[3]:
                gone = None
                there = set()
                shuts &= any(x[0] == 'closed' or x[0] == 'ext' and x[1].endswith('::close') or x[0] == 'call' and x[1].endswith('close') for x in flat_alt(alt))
                for x in flat_alt(alt):
                    if x[0] == 'dm' and x[2] is K and x[1] == 'get_mut' and x[5] == 1:
                        there.add(x[4])
                    if x[0] == 'dm' and x[2] is K and (x[1] in ('get', 'get_mut', 'entry', 'contains') or x[1] == 'remove' and x[4] not in there) and x[5] == 0:
                        gone = True
                    if x[0] == 'dm' and isinstance(x[2], T) and x[2].op == 'entv' and x[2].a[0] is K and x[1] == 'remove' and x[3] is SID:
                        k = x[2].a[1]
                        if find(k, lambda y: isinstance(y, T) and y.op in ('key', 'elem')) is not None:
                            gone = True
                    if x[0] == 'dm' and x[2] is K and x[1] in MUT and x[1] != 'entry' and not (x[1] == 'remove' and (x[5] == 0 or 'empty' in x[6:])):
                        rep.bad('remove_session:drops-key', 'remove_session removes the other subscribers of a key too')
                leaves &= bool(gone)
            for y, yes in (('close', shuts), ('by-key', leaves)):
                if yes:
                    did[y] = True if whole or did.get(y) else None
            if leaves and whole:
                rep.sample('remove_session: over all of %s the session is taken out of the index by key' % short(sub))
        for y, d in (('close', 'leaves a subscription of the session open'), ('by-key', 'leaves the session among the subscribers of a key it was subscribed to')):
            rep.check(did.get(y, False), 'remove_session:' + y, 'remove_session %s%s' % (d, '' if did.get(y, False) is False else ', or visits only some'))
    agree(rep, held)
    for (x, y), who in sorted(order.items(), key=repr):
        if (y, x) in order and x != y:
            rep.bad('lock-order', '%s locks the %s index while it holds the %s index, %s the other way round' % (who, y, x, order[(y, x)]))
    rep.ok()
    floor(rep, n, 12, 'returning paths')


def flat_alt(alt):
    for e in alt:
        if e[0] == 'loop':
            for a in e[3]:
                yield from flat_alt(a)
        else:
            yield e


def common_hold(rep, held, name, ev, S, K):
    """the locks held from the first to the last change a path makes, when it changes both indexes"""
    holds = []      # [class, mode, from, to]
    live = {}
    steps = {0: [], 1: []}
    for i, (e, lp) in enumerate(ev):
        if e[0] == 'dm':
            t = e[2]
            inner = isinstance(t, T) and t.op == 'entv'
            base = t.a[0] if inner else t
            if base is not S and base is not K:
                continue
            if e[1] in MUT and e[1] != 'entry' and not (e[1] == 'insert' and not inner and member_free(e[6])):
                steps[int(base is K)].append(i)
            if 'locked' not in e[6:] and (e[1] in ('get', 'get_mut') and e[5] == 1 or e[1] == 'entry'):
                h = [('session' if base is S else 'key', inner), 'r' if e[1] == 'get' else 'w', i, len(ev)]
                live[('ent', e[2], e[3], e[4])] = h
                holds.append(h)
        elif e[0] == 'ew' and (e[1][1] is S or e[1][1] is K):
            steps[int(e[1][1] is K)].append(i)
        elif e[0] == 'rel':
            h = live.pop(tuple(e[1]), None)
            if h:
                h[3] = i
    if not steps[0] or not steps[1]:
        # what is held at the one change: the other index is left as it is
        return
    lo, hi = min(steps[0] + steps[1]), max(steps[0] + steps[1])
    over = {}
    for c, m, a, b in holds:
        if a <= lo and hi <= b:
            over[c] = 'w' if over.get(c) == 'w' else m
    old = held.get(name)
    held[name] = over if old is None else {c: 'w' if m == old[c] == 'w' else 'r' for c, m in over.items() if c in old}


def member_free(v):
    """an empty collection put in place: no membership changes"""
    v = canon(v)
    if isinstance(v, Adt) and v.key == '@dm':
        v = v.f[0]
    return isinstance(v, Seq) and not v.p


def agree(rep, held):
    """two calls that change both indexes must exclude each other from the first change to the last"""
    for a in sorted(held):
        for b in sorted(held):
            if a > b or 'subscribe' not in (a, b) or a == b:
                continue
            safe = [c for c in held[a] if c in held[b] and 'w' in (held[a][c], held[b][c])]
            rep.check(bool(safe), 'together:%s:%s' % (a, b), '%s and %s can run in between the two changes of each other and leave the indexes different: no lock spans both (held throughout: %s; %s)'
                      % (a, b, sorted(held[a].items()) or 'nothing', sorted(held[b].items()) or 'nothing'))
    rep.sample('locks held from the first change to the last: %s' % '; '.join('%s %s' % (k, sorted(v.items())) for k, v in sorted(held.items())))


def locks(order, name, ev, S, K):
    """which index is locked while the other is held"""
    held = {}

    def side(t):
        while isinstance(t, T) and t.op == 'entv':
            t = t.a[0]
        return 'session' if t is S else 'key' if t is K else None
    for e, lp in ev:
        if e[0] == 'dm':
            s = side(e[2])
            for h in held.values():
                if h and s and h != s:
                    order.setdefault((h, s), name)
            if 'locked' not in e[6:] and (e[1] in ('get', 'get_mut') and e[5] == 1 or e[1] == 'entry'):
                held[('ent', e[2], e[3], e[4])] = s
        elif e[0] == 'rel':
            held.pop(tuple(e[1]), None)
