"""The end of a connection: C05 how a client leaves the registry, W01 its will."""
import re

from _base import *
from tree import val3
import terms

MSG = {v: 'protocols::mqtt::%s::message::' % v for v in ('v3', 'v5')}
OQ = (r'::add_client$|::write_packet$|after_connect_hook$|after_disconnect_hook$|OnlineLoop.*::poll$|::handle_will$|::broadcast_packets$|decode\w*$'
      r'|::after_handle_packet$|RouteTable::(un)?subscribe$|::check_password$|::reset_last_sent$|::set_max_inflight$|::iter::.*Sum|::remove_client$'
      r'|::offline_client$|::build_error_connack$|::build_error_disconnect$|scram_client_first$|::send_will$|::handle_normal$|::handle_control$|::build_state$')


def local_of(ctx, path, ty, borrowed=False):
    """the first named local of the type in the body of the coroutine (that is borrowed mutably as a whole)"""
    b = ctx.P.body(path + '::{closure#0}') or ctx.P.body(path)
    lent = set()
    for bb in b.blocks:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'ref' and s[2][1] == 'mut' and not s[2][2][1]:
                lent.add(s[2][2][0])
    for i, l in enumerate(b.locals):
        if re.search(ty, l[0]) and l[1] and (not borrowed or i in lent):
            return i
    return None


def now(E, st, i, f=None):
    v = st.mem.get(('L', 0, i))
    if v is None:
        return None
    v = E.deep(st, v)
    return fld(v, f) if f else v


def origin(h):
    """the call the path has last returned from"""
    return ([x[1] for x in h if x[0] == 'at'] or ['entry'])[-1]


def c05(ctx):
    for v in ('v3', 'v5'):
        online(ctx, v)
        offline(ctx, v)
        handover(ctx, v)
        control(ctx, v)


def online(ctx, v):
    path = MSG[v] + 'handle_online'
    if ctx.anchor(path) is None:
        return
    S = local_of(ctx, path, r'::Session$')
    T = local_of(ctx, path, r'^bool$', True)
    ctx.require(S is not None and T is not None, 'locals:' + v, 'the session or the takeover flag of handle_online is not found', lambda: [])
    if S is None or T is None:
        return

    def clean(E, st):
        if v == 'v3':
            x = now(E, st, S, 'clean_session')
            return None if x is None else val3(E, st, x)
        x = now(E, st, S, 'session_expiry_interval')
        return None if x is None else E.decide(st, eq0(x))

    def taken(E, st):
        x = now(E, st, T)
        return None if x is None else val3(E, st, x)

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [' '.join('='.join(map(str, x))[:80] for x in h)] + r.facts(st)
        if kind == 'call':
            if what == 'add_client':
                return ('add',) if ('add',) not in h else None
            if what == 'decode_async' and ('add',) in h and ('loop',) not in h:
                return ('again',) if ('again',) not in h else None   # a further round of an exchange that has succeeded: not possible, A04
            if what == 'add_client' and ('add',) in h:
                return None
            if what == 'poll':
                r.count('loop')
                return ('loop',) if ('loop',) not in h else None
            if what in ('remove_client', 'offline_client'):
                r.count(what)
                t = ('taken', True) in h
                ctx.require(('loop',) in h, 'early:%s:%s' % (v, what), '%s is called before the connection was served' % what, F)
                ctx.require(t is not True, 'taken:%s:%s' % (v, what), 'a session that was taken over is still ended (%s)' % what, F)
                cid = now(E, st, S, 'client_id')
                if understood(vals[1]) and cid is not None:
                    ctx.require(vals[1] is cid, 'id:%s:%s' % (v, what), '%s is called for another client' % what, F)
                c = clean(E, st)
                ctx.require(c is (what == 'remove_client'), 'kept:%s:%s' % (v, what),
                            'a session is %s although it %s' % ('removed', 'outlives the connection') if what == 'remove_client' else 'a session is kept although it ends with the connection', F)
                return (what,)
            return None
        if kind == 'return':
            if ('add',) not in h or ('again',) in h:
                return None
            ends = [x[0] for x in h if x[0] in ('remove_client', 'offline_client')]
            ok = ok_of(E, st, vals[0])
            t = ('taken', True) in h
            if ('loop',) not in h:
                # not served: the client must not stay registered
                if ('added', False) in h:
                    return None
                r.count('unserved')
                ctx.require(ends == ['remove_client'], 'leak:%s:unserved:%s' % (v, origin(h)), 'a client that is not served stays registered', lambda: [str(vals[0])[:300]] + F())
                return None
            r.count('served')
            if t is True:
                r.count('taken over')
                ctx.require(ok is not True or none_of(E, st, vals[0]), 'taken:%s:offline' % v, 'a session that was taken over is kept as an offline one', F)
                return None
            if not ends:
                if ok is not True and origin(h) == 'handle_will':
                    return None        # the will fits a packet, as the CONNECT that brought it did
                ctx.require(False, 'leak:%s:served:%s' % (v, origin(h)), 'a client stays registered as online after its connection has ended', F)
            else:
                ctx.require(len(ends) == 1, 'twice:' + v, 'a client is taken out of the registry twice', F)
                some = ok is True and not none_of(E, st, vals[0])
                ctx.require(some == (ends[0] == 'offline_client'), 'kept:%s:returned' % v, 'an offline session is not handed on, or a removed one is', F)
        return None

    class Served(Flow):
        def on_assume(self, E, st, t, val):
            if ('loop',) in st.ps[1] and not any(x[0] == 'taken' for x in st.ps[1]):
                x = taken(E, st)
                if x is not None:
                    self.add(st, ('taken', x))
            if t.op == 'discr' and t.a[0].op == 'await' and ('at', 'add_client') in st.ps[1] and not any(x[0] == 'added' for x in st.ps[1]):
                self.add(st, ('added', val is Int(0) or val is FALSE))
            return Flow.on_assume(self, E, st, t, val)

        def on_call(self, E, st, c):
            Flow.on_call(self, E, st, c)
            for n in (c.res, c.name):
                if n and self.calls.search(n):
                    st.ps = (st.ps[0], tuple(x for x in st.ps[1] if x[0] != 'at') + (('at', short(n)),))
                    break
            return None
    r = Served(OQ, event, {}, (), OQ)
    run(ctx, path, r, join_limit=8)
    for k in ('loop', 'remove_client', 'offline_client', 'taken over', 'served'):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)


def none_of(E, st, v):
    o = project(v, ('f', 'Ok', '0'))
    return E.value(st, discr(o, 2)) is Int(0) or o is NONE


class Marks(Flow):
    """history with the outcome of every awaited call that matters: (name, True/False)"""
    outcomes = ('send_async',)

    def on_assume(self, E, st, t, val):
        last = st.ps[1][-1][0] if st.ps[1] else None
        if t.op == 'discr' and t.a[0].op == 'await' and last in self.outcomes:
            self.add(st, (last + '?', val is Int(0) or val is FALSE))
        return Flow.on_assume(self, E, st, t, val)


def offline(ctx, v):
    """handle_offline: the session is given away once, or removed"""
    path = MSG[v] + 'handle_offline'
    if ctx.anchor(path) is None:
        return
    S = local_of(ctx, path, r'::Session$')

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [' '.join('='.join(str(y)[:60] for y in x) for x in h)] + r.facts(st)
        if kind == 'call':
            if what == 'remove_client':
                r.count('removed')
                ctx.require(('send_async?', True) not in h, 'offline:%s:taken' % v, 'an offline session that was taken over is removed', F)
                x = now(E, st, S, 'client_id') if S is not None else None
                if x is not None and understood(vals[1]) and understood(x):
                    ctx.require(vals[1] is x, 'offline:%s:id' % v, 'an offline client removes another one', F)
                return ('removed',) if ('removed',) not in h else None
            if what == 'send_async' and of_kind(vals, 'SessionState', 'build_state'):
                return ('send_async', '')
            return None
        if kind == 'return':
            r.count('ends')
            gone = ('send_async?', True) in h
            r.count('given' if gone else 'not given')
            ctx.require(gone or ('removed',) in h, 'offline:%s:leak' % v, 'an offline client ends without being removed or taken over', F)
        return None
    r = Marks(OQ + r'|send_async$', event, {}, (), OQ)
    run(ctx, path, r, join_limit=8)
    for k in ('removed', 'given', 'not given'):
        ctx.floor('offline %s %s' % (v, k), r.n.get(k, 0), 1)


def of_kind(vals, *names):
    return any(any(n in str(x.a[0]) for n in names) for v in vals[1:] for x in walk(v) if x.op in ('call', 'agg') or x.op == 'pure')


def handover(ctx, v):
    """handle_connection: a session that stays is kept by an offline task, with a timer for its expiry (v5)"""
    path = MSG[v] + 'handle_connection'
    if ctx.anchor(path) is None:
        return
    timers = []

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [' '.join(str(x[0]) for x in h)] + r.facts(st)
        if kind == 'call':
            if what == 'handle_offline':
                got = vals[0]
                ctx.require(depends_on_call(got, 'handle_online') and depends_on_call(vals[1], 'handle_online'), 'handover:%s:session' % v,
                            'the offline task gets another session or receiver than the connection ended with', F)
                r.count('offline')
                return ('offline', vals[0])
            if what == 'spawn':
                for x in vals:
                    for y in walk(x):
                        if y.op == 'agg' and str(y.a[0]).startswith('coroutine:') and not str(y.a[0]).startswith('coroutine:' + MSG[v] + 'handle_offline'):
                            timers.append((y, h))
                return ('spawn',) + tuple(x for x in vals)
            return None
        if kind == 'return':
            if ('kept', True) in h:
                r.count('stays')
                spawned_ = any(x[0] == 'spawn' and any('handle_offline' in str(y.a[0]) for z in x[1:] for y in walk(z) if y.op in ('call', 'agg')) for x in h)
                ctx.require(spawned_, 'handover:%s:spawn' % v, 'a session that outlives its connection is not kept by a task', F)
                if v == 'v5':
                    ctx.require(sum(x[0] == 'spawn' for x in h) >= 2, 'handover:%s:timer' % v, 'a session that outlives its connection has no expiry timer', F)
            elif ('kept', False) in h:
                ctx.require(not any(x[0] == 'spawn' for x in h), 'handover:%s:none' % v, 'a task is started for a session that has ended', F)
        return None
    class Kept(Flow):
        def on_assume(self, E, st, t, val):
            if t.op == 'discr' and t.a[0].op == 'fld' and depends_on_call(t, 'handle_online') and not any(x[0] == 'kept' for x in st.ps[1]):
                self.add(st, ('kept', val is Int(1) or val is TRUE or val is True))
            return Flow.on_assume(self, E, st, t, val)
    r = Kept(r'::handle_offline$|::handle_online$|task::spawn::spawn$|::spawn$', event, {}, (), r'::handle_offline$|::handle_online$')
    run(ctx, path, r, join_limit=8)
    ctx.floor('handover ' + v, r.n.get('stays', 0), 1)
    if v == 'v5':
        ctx.floor('expiry timers', len(timers), 1)
        for co in {id(t[0]): t[0] for t in timers}.values():
            timer(ctx, co)


def is_call(t, name):
    return t.op == 'call' and str(t.a[0]).endswith('::' + name)


def depends_on_call(t, name):
    return any(is_call(x, name) for x in walk(t))


def timer(ctx, co):
    """the task that ends a session: waits for the expiry interval of the session, then tells this client, with the connection it belongs to"""
    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(vals)[:300]] + r.facts(st)
        if kind == 'call' and what.startswith('sleep'):
            r.count('sleeps')
            good = any(x.op == 'fld' and x.a[1][2] == 'session_expiry_interval' for x in walk(vals[0]))
            ctx.require(good and plain_seconds(vals[0]) is not False, 'timer:wait', 'the expiry timer waits for another time than the expiry interval of the session', F)
            return 'slept'
        if kind == 'call' and what == 'get_client_control_sender':
            ctx.require(any(x.op == 'fld' and x.a[1][2] == 'client_id' for x in walk(vals[1])), 'timer:client', 'the expiry timer addresses another client', F)
        if kind == 'call' and what == 'send_async':
            m = [x for y in vals for x in walk(y) if x.op == 'agg' and str(x.a[0]).endswith('ControlMessage')]
            if m:
                r.count('tells')
                ctx.require('slept' in h, 'timer:early', 'a session is told to expire before the interval has passed', F)
                ctx.require(m[0].a[2] == 'SessionExpired' and any(x.op == 'fld' and x.a[1][2] == 'connected_time' for x in walk(m[0])), 'timer:what',
                            'the expiry timer sends something else than the expiry of this connection', F)
        return None
    r = Flow(r'::sleep$|::sleep_until$|::get_client_control_sender$|::send_async$', event, {}, (), r'::get_client_control_sender$')
    E = r.E = Engine(ctx.P, r, join_limit=8)
    E.run(co.a[0].split(':', 1)[1], [co, sym('cx')])
    ctx.engine(E)
    ctx.floor('expiry timer sleeps', r.n.get('sleeps', 0), 1)
    ctx.floor('expiry timer tells', r.n.get('tells', 0), 1)


def plain_seconds(t, field='session_expiry_interval'):
    """is the duration (or the deadline) the seconds of the field: True, False (known to be another function of it) or None"""
    has = lambda x: any(y.op == 'fld' and y.a[1][2] == field for y in walk(x))
    for x in walk(t):
        if x.op in ('div', 'rem', 'mul', 'shr', 'shl', 'lin', 'sum', 'and', 'or') and has(x):
            return False
        if x.op in ('pure', 'call') and re.search(r'arith::(Div|Mul|Rem|Sub)\b|::(div|mul)_f|Duration::(saturating|checked)_', str(x.a[0])) and has(x):
            return False
        if x.op in ('pure', 'call') and re.search(r'::from_(millis|micros|nanos)$', str(x.a[0])) and any(y.op == 'fld' and has(y) for y in list(walk(x))[1:2]):
            return False
    if any(str(x.a[0]).endswith('from_secs') or x.op == 'from_secs' for x in walk(t) if x.a):
        return True
    return None


def control(ctx, v):
    """handle_control: a session ends by expiry only when it is offline since the connection the timer belongs to; a new connection gets the session"""
    path = MSG[v] + 'handle_control'
    if ctx.anchor(path) is None or v == 'v3':
        return
    names = argnames(ctx.P, path)
    s, m = sym(names[0]), sym(names[1])
    same = lambda E, st: same_time(E, st, fld(s, 'connected_time'), m)
    track = {'connected': lambda E, st: val3(E, st, fld(s, 'connected'))}

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: r.facts(st)
        if kind == 'call' and what == 'remove_client':
            r.count('removed')
            ctx.require(r.k(st, 'connected') is False, 'control:online', 'an expiry timer removes a session whose client is connected', F)
            ctx.require(same(E, st) is True, 'control:stale', 'the expiry timer of an earlier connection removes a session', F)
            return 'removed'
        if kind == 'return':
            which = E.value(st, discr(m))
            stop = project(vals[0], ('f', '', '0'))
            sender = project(vals[0], ('f', '', '1'))
            r.count('returns')
            if which is not None and which.op == 'int':
                name = variants(ctx)[which.a[0]]
                r.count(name)
                if name == 'OnlineV5':
                    ctx.require(sender.op == 'agg' and sender.a[2] == 'Some' and project(sender, ('f', 'Some', '0')) is fld(m, 'OnlineV5.sender'), 'control:takeover',
                                'a new connection of the client does not get the session', F)
                else:
                    ctx.require(sender is NONE, 'control:sender', 'a session is handed over without a new connection', F)
                if name == 'SessionExpired':
                    due = r.k(st, 'connected') is False and same(E, st) is True
                    no = r.k(st, 'connected') is True or same(E, st) is False
                    st_ = val3(E, st, stop)
                    if due:
                        r.count('due')
                        ctx.require(st_ is True, 'control:expire', 'a session whose interval has passed stays', F)
                    elif no:
                        ctx.require(st_ is False, 'control:live', 'a session in use is stopped by an expiry timer', F)
                if name == 'Kick':
                    for off in (True, False) if len(names) > 3 else ():
                        s = st.copy()
                        if not E.assume_val(s, sym(names[3]), Int(int(off))):
                            continue
                        r.count('kick')
                        st_ = val3(E, s, stop)
                        if st_ is None:
                            from forward import bool_eval
                            st_ = bool_eval(stop, {sym(names[3]): off})
                        ctx.require(st_ is (not off), 'control:kick', 'a client that is to be kicked stays, or an offline session is dropped by a kick', F)
        return None
    r = Flow(r'::remove_client$|::send_will$', event, track, (), r'::remove_client$|::send_will$')
    run(ctx, path, r, join_limit=20)
    for k in ('removed', 'OnlineV5', 'due', 'kick'):
        ctx.floor('control ' + k, r.n.get(k, 0), 1)


def variants(ctx):
    a = next(a for k, a in ctx.P.adts.items() if k.endswith('::ControlMessage'))
    return [v['name'] for v in a['variants']]


def same_time(E, st, own, m):
    """is the connection of the message the last one of the session"""
    for t, b in st.facts.items():
        if t.op in ('eq', 'eq0') and depends(t, own) and any(x.op == 'fld' and x.a[1][2] == 'connected_time' and x is not own and depends(x, m) for x in walk(t)):
            return b is TRUE or b is Int(1)
    return None


WILL = {'v3': [('topic_name', 'topic_name'), ('retain', 'retain'), ('qos', 'qos'), ('payload', 'message')],
        'v5': [('topic_name', 'topic_name'), ('retain', 'retain'), ('qos', 'qos'), ('payload', 'payload')]}
WILL_PROPS = [('payload_is_utf8', 'payload_is_utf8'), ('message_expiry_interval', 'message_expiry_interval'), ('response_topic', 'response_topic'),
              ('correlation_data', 'correlation_data'), ('user_properties', 'user_properties'), ('content_type', 'content_type')]


def w01(ctx):
    for v in ('v3', 'v5'):
        will_called(ctx, v)
        publish_will(ctx, v)
        will_cleared(ctx, v)
        keepers(ctx, v)
    delay(ctx)
    will_control(ctx)
    will_offline(ctx)


def flushers(ctx):
    """names of the functions that send what is queued for other clients: they take from `broadcast_packets` and wait for a channel"""
    takes, sends = set(mutators(ctx, 'broadcast_packets')), {q for q, c, _ in all_calls(ctx) if c.endswith('::send_async')}
    root = lambda q: q.split('::{')[0]
    return {root(q) for q in takes} & {root(q) for q in sends} - {MSG[v] + 'handle_online' for v in MSG}


def will_called(ctx, v):
    """handle_online: the will is dealt with once when a served connection has ended and nobody took the session over, and what it queued is flushed"""
    path = MSG[v] + 'handle_online'
    if ctx.anchor(path) is None:
        return
    S = local_of(ctx, path, r'::Session$')
    T = local_of(ctx, path, r'^bool$', True)
    flush = {q.split('::')[-1] for q in flushers(ctx)}

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [' '.join('='.join(map(str, x))[:80] for x in h)] + r.facts(st)
        if kind == 'call':
            if what == 'poll':
                return ('loop',) if ('loop',) not in h else None
            if what == 'handle_will':
                r.count('will')
                ctx.require(('loop',) in h, 'early:' + v, 'a will is published although the client was never served', F)
                ctx.require(('will',) not in h, 'twice:' + v, 'a will is dealt with twice', F)
                return ('will',)
            if (what in flush or what in ('drain', 'take', 'replace', 'into_iter', 'iter_mut') and 'broadcast_packets' in str(vals[:1])) and ('will',) in h:
                return ('flush',) if ('flush',) not in h else None
            return None
        if kind == 'return' and ('loop',) in h and ok_of(E, st, vals[0]) is not None:
            if ('taken', False) not in h:
                return None
            if ('will',) not in h and ok_of(E, st, vals[0]) is False:
                return None                                 # failing hook: finding of C05
            r.count('ends')
            if h[-1] == ('will',) and ok_of(E, st, vals[0]) is not True:
                return None                                 # the will does not fit a packet
            if v == 'v3' and ('will',) not in h:
                if ('disc', True) in h:
                    r.count('done')                         # by DISCONNECT, which has dropped the will (`cleared`)
                    return None
            ctx.require(('will',) in h, 'no will:' + v, 'a connection that was not taken over ends without its will being dealt with', F)
            ctx.require(('flush',) in h or ('will',) not in h, 'no flush:' + v, 'messages queued by the will are left behind', F)
        return None
    class Taken(Flow):
        def on_assume(self, E, st, t, val):
            if ('loop',) in st.ps[1] and not any(x[0] == 'taken' for x in st.ps[1]):
                x = now(E, st, T) if T is not None else None
                x = None if x is None else val3(E, st, x)
                if x is not None:
                    self.add(st, ('taken', x))
            if v == 'v3' and t.op == 'fld' and t.a[1][2] == 'disconnected' and ('loop',) in st.ps[1] and t is now(E, st, S, 'disconnected') \
                    and not any(x[0] == 'disc' for x in st.ps[1]):
                self.add(st, ('disc', val in (True, TRUE)))
            return Flow.on_assume(self, E, st, t, val)
    more = ''.join('|::%s$' % re.escape(x) for x in sorted(flush))
    r = Taken(OQ + r'|::drain$|::take$|::replace$|::into_iter$|::iter_mut$' + more, event, {}, (), OQ + more)
    run(ctx, path, r, join_limit=8)
    ctx.floor('wills ' + v, min(r.n.get('will', 0), r.n.get('ends', 0)), 1)


def publish_will(ctx, v):
    """the will is published as it was registered, once"""
    path = MSG[v] + ('handle_will' if v == 'v3' else 'send_will')
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    s = sym(names[0])
    w = fld(s, 'last_will', 'Some.0')
    track = {'some': lambda E, st: is_int(E.value(st, discr(fld(s, 'last_will'), 2)), 1)}

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(vals)[:600]] + r.facts(st)
        if kind == 'call' and what == 'send_publish':
            r.count('published')
            ctx.require('sent' not in h, 'send:%s:twice' % v, 'a will is published twice', F)
            m = vals[1]
            for f, g in WILL[v]:
                x = fld(m, f)
                r.count('field')
                if understood(x) and x is not fld(w, g):
                    ctx.require(False, 'send:%s:%s' % (v, f), 'the %s of a will is not published as it was registered' % f, F)
                else:
                    ctx.require(True, 'send:%s:%s' % (v, f), '', F)
            if v == 'v5':
                p = fld(m, 'properties')
                for f, g in WILL_PROPS:
                    x = fld(p, f)
                    if understood(x) and x is not fld(w, 'properties', g):
                        ctx.require(False, 'send:%s:%s' % (v, f), 'the %s of a will is not published as it was registered' % f, F)
                    else:
                        ctx.require(True, 'send:%s:%s' % (v, f), '', F)
            return 'sent'
        if kind == 'return':
            k = r.k(st, 'some')
            if k is True:
                r.count('with')
                if ok_of(E, st, vals[0]) is not False:
                    ctx.require('sent' in h, 'send:%s:not' % v, 'a will is not published', F)
                left = final(st, s, 'last_will')
                if understood(left) and left is not fld(s, 'last_will'):
                    r.count('taken')
                ctx.require(left is not fld(s, 'last_will'), 'send:%s:kept' % v, 'a published will is kept, to be published again', F)
            elif k is False:
                ctx.require('sent' not in h, 'send:%s:none' % v, 'a message is published for a client without a will', F)
        return None
    r = Flow(r'::send_publish$', event, track, (), r'::send_publish$')
    run(ctx, path, r, join_limit=8)
    ctx.floor('wills published ' + v, min(r.n.get('published', 0), r.n.get('taken', 0)), 1)


def final(st, root, name):
    """value of a field of what an argument points to, at the end of the path"""
    v = st.mem.get(('S', root))
    return fld(root if v is None else v, name)


def will_cleared(ctx, v):
    """DISCONNECT drops the will of a v3 client, and that of a v5 client exactly if it is a normal one"""
    path = 'protocols::mqtt::%s::packet::connect::handle_disconnect' % v
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    s = sym(names[0])
    pk = sym(names[1]) if len(names) > 1 else None

    def normal(E, st):
        d = discr(fld(pk, 'reason_code'))
        x = E.value(st, d)
        return x.a[0] == 0 if x is not None and x.op == 'int' else E.decide(st, eq0(d))
    track = {'normal': normal} if v == 'v5' else {}

    def event(E, st, kind, what, vals):
        F = lambda: r.facts(st)
        if kind != 'return' or (v == 'v5' and ok_of(E, st, vals[0]) is not True):
            return None
        left = final(st, s, 'last_will')
        k = r.k(st, 'normal') if v == 'v5' else True
        if k is True:
            r.count('normal')
            if understood(left):
                ctx.require(left is NONE, 'cleared:' + v, 'the will of a client that disconnects normally is kept', F)
        elif k is False:
            r.count('other')
            if understood(left):
                ctx.require(left is fld(s, 'last_will'), 'lost:' + v, 'the will of a client that asks for it, or reports a failure, when it disconnects is dropped', F)
        return None
    if v == 'v3':
        m = mutators(ctx, 'disconnected', 'protocols::mqtt::v3::')
        bad = only_in(ctx, sorted(m), r'::handle_disconnect$|::connect::handle_connect(::|$)|session::Session::new$')
        ctx.require(not bad, 'disconnected:v3', 'a v3 session counts as disconnected, which drops its will, elsewhere: %s' % ', '.join(sorted(bad)), lambda: sorted(bad))
    r = Flow(r'(?!)', event, track, (), r'::build_error_disconnect$')
    run(ctx, path, r, join_limit=8)
    ctx.floor('disconnect ' + v, r.n.get('normal', 0), 1)


def keepers(ctx, v):
    m = mutators(ctx, 'last_will', 'protocols::mqtt::%s::' % v)
    ctx.floor('writers of the will ' + v, len(m), 2)
    bad = only_in(ctx, sorted(m), r'::packet::connect::(handle_connect|handle_disconnect|session_connect)(::|$)|::handle_will(::|$)|::send_will$|session::Session::new$')
    ctx.require(not bad, 'writers:' + v, 'the will of a session is changed elsewhere: %s' % ', '.join(sorted(bad)), lambda: sorted(bad))


def delay(ctx):
    """v5 handle_will: at once, after the delay, or with the end of the session, whichever comes first"""
    path = MSG['v5'] + 'handle_will'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    s = sym(names[0])
    w = fld(s, 'last_will', 'Some.0')
    d, e = fld(w, 'properties.delay_interval'), fld(s, 'session_expiry_interval')
    d0 = fld(d, 'Some.0')
    timers = []

    def zero(E, st):
        """is there no delay"""
        x = E.value(st, discr(d, 2))
        if x is Int(0):
            return True
        return E.decide(st, eq0(d0)) if x is Int(1) else None
    track = {'some': lambda E, st: is_int(E.value(st, discr(fld(s, 'last_will'), 2)), 1),
             'zero': zero, 'ends': lambda E, st: E.decide(st, eq0(e)),
             'before': lambda E, st: E.decide(st, lt(d0, e)) if is_int(E.value(st, discr(d, 2)), 1) else None}

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(h)] + r.facts(st)
        if kind == 'call' and what == 'send_will':
            r.count('now')
            ctx.require(r.k(st, 'zero') is True or r.k(st, 'ends') is True, 'when:early', 'a will that has to wait is published at once', F)
            return 'now'
        if kind == 'call' and what == 'spawn':
            for x in vals:
                for y in walk(x):
                    if y.op == 'agg' and str(y.a[0]).startswith('coroutine:'):
                        timers.append(y)
            r.count('later')
            return 'later'
        if kind == 'return':
            z, n, b = r.k(st, 'zero'), r.k(st, 'ends'), r.k(st, 'before')
            some = r.k(st, 'some')
            if some is False:
                ctx.require(not h, 'when:none', 'something is published or timed for a client without a will', F)
            if some is not True:
                return None
            if z is True or n is True:
                ctx.require(h == ('now',), 'when:now', 'a will without delay, or of a session that ends now, is not published at once', F)
            elif z is False and n is False and b is True:
                r.count('delayed')
                ctx.require(h == ('later',), 'when:later', 'a delayed will is published at once, or never', F)
            elif z is False and n is False and b is False:
                r.count('expiry')
                ctx.require('now' not in h, 'when:expiry', 'a delayed will is published at once', F)
        return None
    r = Flow(r'::send_will$|task::spawn::spawn$|::spawn$', event, track, (), r'::send_will$')
    run(ctx, path, r, join_limit=8)
    for k in ('now', 'delayed', 'expiry'):
        ctx.floor('will ' + k, r.n.get(k, 0), 1)
    ctx.floor('will timers', len(timers), 1)
    for co in {id(t): t for t in timers}.values():
        will_timer(ctx, co, d)


def will_timer(ctx, co, d):
    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(vals)[:300]] + r.facts(st)
        if kind == 'call' and what.startswith('sleep'):
            r.count('sleeps')
            good = any(x is d for x in walk(vals[0]))
            ctx.require((good or not understood(vals[0])) and plain_seconds(vals[0], 'delay_interval') is not False, 'timer:wait', 'a delayed will waits for another time than its delay', F)
            return 'slept'
        if kind == 'call' and what == 'get_client_control_sender':
            ctx.require(any(x.op == 'fld' and x.a[1][2] == 'client_id' for x in walk(vals[1])), 'timer:client', 'the timer of a will addresses another client', F)
        if kind == 'call' and what == 'send_async':
            m = [x for y in vals for x in walk(y) if x.op == 'agg' and str(x.a[0]).endswith('ControlMessage')]
            if m:
                r.count('tells')
                ctx.require('slept' in h, 'timer:early', 'a delayed will is published before its time', F)
                ctx.require(m[0].a[2] == 'WillDelayReached' and any(x.op == 'fld' and x.a[1][2] == 'connected_time' for x in walk(m[0])), 'timer:what',
                            'the timer of a will sends something else than the will delay of this connection', F)
        return None
    r = Flow(r'::sleep$|::sleep_until$|::get_client_control_sender$|::send_async$', event, {}, (), r'::get_client_control_sender$')
    E = r.E = Engine(ctx.P, r, join_limit=8)
    E.run(co.a[0].split(':', 1)[1], [co, sym('cx')])
    ctx.engine(E)
    ctx.floor('will timer sleeps', r.n.get('sleeps', 0), 1)
    ctx.floor('will timer tells', r.n.get('tells', 0), 1)


def will_control(ctx):
    """v5 handle_control: the will is published when its delay or the session ends, unless the client has come back"""
    path = MSG['v5'] + 'handle_control'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    s, m = sym(names[0]), sym(names[1])
    same = lambda E, st: same_time(E, st, fld(s, 'connected_time'), m)
    track = {'connected': lambda E, st: val3(E, st, fld(s, 'connected'))}
    VAR = variants(ctx)

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(h)] + r.facts(st)
        which = E.value(st, discr(m))
        name = VAR[which.a[0]] if which is not None and which.op == 'int' else None
        if kind == 'call' and what == 'send_will':
            r.count('sent')
            ctx.require('sent' not in h and 'removed' not in h, 'control:twice', 'a will is published twice, or after the session has ended', F)
            ctx.require(name is None or name in ('SessionExpired', 'WillDelayReached'), 'control:why', 'a will is published on another occasion than its delay or the end of the session', F)
            ctx.require(r.k(st, 'connected') is False, 'control:online', 'the will of a connected client is published', F)
            ctx.require(same(E, st) is True, 'control:stale', 'the will is published on behalf of an earlier connection', F)
            return 'sent'
        if kind == 'call' and what == 'remove_client':
            return 'removed'
        if kind == 'return' and name in ('SessionExpired', 'WillDelayReached'):
            if r.k(st, 'connected') is False and same(E, st) is True:
                r.count(name)
                ctx.require('sent' in h, 'control:' + name, 'a delayed will is not published', F)
        return None
    r = Flow(r'::remove_client$|::send_will$', event, track, (), r'::remove_client$|::send_will$')
    run(ctx, path, r, join_limit=20)
    for k in ('sent', 'SessionExpired', 'WillDelayReached'):
        ctx.floor('will control ' + k, r.n.get(k, 0), 1)


def will_offline(ctx):
    """v5 handle_offline: what a will queued is flushed before the session ends"""
    path = MSG['v5'] + 'handle_offline'
    if ctx.anchor(path) is None:
        return
    flush = {q.split('::')[-1] for q in flushers(ctx)}
    more = ''.join('|::%s$' % re.escape(x) for x in sorted(flush))

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        if kind == 'call':
            if what == 'handle_control':
                r.count('control')
                if 'queued' not in h:
                    return 'queued'
                return None
            if what in flush or what in ('drain', 'take', 'replace', 'into_iter', 'iter_mut') and 'broadcast_packets' in str(vals[:1]):
                st.ps = (st.ps[0], tuple(x for x in h if x != 'queued'))
                return None
            if what == 'send_async':
                st.ps = (st.ps[0], tuple(x for x in h if x != 'queued'))   # taken over: what is queued goes with the session
                return None
            if what == 'remove_client':
                r.count('removed')
                ctx.require('queued' not in h, 'offline:flush', 'an offline session ends with the messages of its will still queued', lambda: r.facts(st))
        return None
    r = Flow(OQ + r'|send_async$|::drain$|::take$|::replace$|::into_iter$|::iter_mut$' + more, event, {}, (), OQ + more)
    run(ctx, path, r, join_limit=8)
    ctx.floor('offline control', min(r.n.get('control', 0), r.n.get('removed', 0)), 1)


def is_int(v, n):
    return None if v is None or v.op != 'int' else v.a[0] == n


RULES = {'C05': c05, 'W01': w01}
