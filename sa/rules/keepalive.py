"""K01 keep alive: a silent client is disconnected after one and a half times its keep alive, and nobody else"""
import re

from _base import *
from tree import val3
from session_end import final, is_int

TIMER = 'protocols::mqtt::common::start_keep_alive_timer'
CONNECT = {'v3': 'protocols::mqtt::v3::packet::connect::handle_connect', 'v5': 'protocols::mqtt::v5::packet::connect::session_connect'}
HANDLE = {v: 'protocols::mqtt::%s::packet::common::after_handle_packet' % v for v in ('v3', 'v5')}
LIMIT, PERIOD = 1500, 500
IO = r'::add_client$|::write_packet$|::build_error\w+$|RouteTable::(un)?subscribe$|::reset_last_sent$|::set_max_inflight$|::check_password$|::session_connect$|::scram_client_first$|::iter::.*Sum'


def kids(t):
    for x in t.a:
        if hasattr(x, 'op'):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, 'op'):
                    yield y


def affine(t, k):
    """(c, n): the number is c + n * keep alive; None if it is not known to be of that form"""
    if t.op == 'int':
        return (t.a[0], 0)
    if t is k:
        return (0, 1)
    if t.op == 'lin':
        c, ts = t.a
        if all(x is k for x, _ in ts):
            return (c, sum(n for _, n in ts))
    return None


def millis(t, k):
    """the same for the milliseconds of a duration"""
    if t.op not in ('call', 'pure'):
        return None
    n, xs = str(t.a[0]), list(kids(t))
    for f, m in (('from_millis', 1), ('from_secs', 1000), ('from_mins', 60000)):
        if n.endswith('::' + f) and len(xs) == 1:
            a = affine(xs[0], k)
            return a and (a[0] * m, a[1] * m)
    if re.search(r'::(mul|saturating_mul)$', n) and len(xs) == 2:
        for x, y in (xs, xs[::-1]):
            d, a = millis(x, k), affine(y, k)
            if d and a and not (d[1] and a[1]):
                return (d[0] * a[0], d[0] * a[1] + d[1] * a[0])
    if n.endswith('::div') and len(xs) == 2:
        d, a = millis(xs[0], k), affine(xs[1], k)
        if d and a and a[0] and not a[1]:
            return (d[0] / a[0], d[1] / a[0])
    if re.search(r'::(add|saturating_add)$', n) and len(xs) == 2:
        d, e = millis(xs[0], k), millis(xs[1], k)
        if d and e:
            return (d[0] + e[0], d[1] + e[1])
    return None


class Task(Flow):
    """the history of a path is that since the last sleep, with what it has learnt of the session and the client"""
    def add(self, st, label):
        if label == 'slept':
            st.ps = (st.ps[0], ('slept',))
        elif label not in st.ps[1]:
            super().add(st, label)

    def on_assume(self, E, st, t, v):
        if t.op == 'discr' and t.a[0].op in ('call', 'pure'):
            f = short(str(t.a[0].a[0]))
            if f in ('upgrade', 'get_client_control_sender'):
                self.add(st, ('live:' if is_int(v, 1) else 'gone:') + f)
        elif t.op in ('cmp', 'lt', 'le') and any(is_age(x) for x in kids(t)):
            self.add(st, 'compared')
        return super().on_assume(E, st, t, v)


def is_age(t):
    return t.op in ('call', 'pure') and re.search(r'Instant::(elapsed|duration_since|saturating_duration_since|checked_duration_since)$|Instant as .*::sub$', str(t.a[0])) is not None


def k01(ctx):
    cos = start(ctx)
    for co, k, last in cos:
        task(ctx, co, k, last)
    ctx.floor('timer tasks', len(cos), 1)
    for v in ('v3', 'v5'):
        connected(ctx, v)
        noted(ctx, v)
    writers(ctx)


def start(ctx):
    """a timer is started exactly if the keep alive is not zero"""
    if ctx.anchor(TIMER) is None:
        return []
    names = argnames(ctx.P, TIMER)
    k = sym(names[0])
    cos = {}

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: r.facts(st)
        if kind == 'call':
            for x in vals:
                for y in walk(x):
                    if y.op == 'agg' and str(y.a[0]).startswith('coroutine:'):
                        cos[y] = 1
            return 'timer'
        if kind == 'return' and vals[0].op == 'agg' and vals[0].a[2] == 'Ok':
            z = E.decide(st, eq0(k))
            if z is None:
                z = True if E.decide(st, lt(k, Int(1))) else None
            r.count('zero' if z else 'timed')
            ctx.require(z is True or len(h) == 1, 'start:none', 'a client with a keep alive has no timer, or several', F)
            ctx.require(z is not True or not h, 'start:zero', 'a client without keep alive gets a timer', F)
        return None
    r = Flow(r'task::spawn::spawn$|::spawn$', event, {}, ())
    run(ctx, TIMER, r, join_limit=8)
    ctx.floor('clients with a timer', r.n.get('timed', 0), 1)
    ctx.floor('clients without', r.n.get('zero', 0), 1)
    return [(c, k, sym(names[2])) for c in cos]


def task(ctx, co, k, last):
    """the task of a timer: goes on as long as the session lives and its client is heard of in time, otherwise kicks that client"""
    names = argnames(ctx.P, TIMER)

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(h)] + r.facts(st)
        if kind == 'call' and what.startswith('sleep'):
            r.count('sleeps')
            ctx.require('gone:upgrade' not in h, 'task:leak', 'a keep alive timer goes on after its session', F)
            d = millis(vals[0], k)
            r.count('periods' if d else 'other periods')
            ctx.require(d is None or d[0] == 0 and 0 < d[1] <= PERIOD, 'task:period', 'the time of the last packet is looked at too rarely or all the time', F)
            return 'slept'
        if kind == 'call' and what in ('upgrade', 'ptr_eq', 'strong_count'):
            return 'alive'
        if kind == 'call' and what == 'get_client_control_sender':
            ctx.require(any(x is sym(names[1]) for x in walk(vals[1])), 'task:client', 'the keep alive timer addresses another client', F)
            return 'asked'
        if kind == 'call' and is_age_call(what):
            ctx.require(any(depends(x, last) for x in vals), 'task:time', 'something else than the time of the last packet is looked at', F)
            return 'age'
        if kind == 'call' and what in ('send_async', 'send', 'try_send'):
            m = [x for y in vals for x in walk(y) if x.op == 'agg' and str(x.a[0]).endswith('ControlMessage')]
            if not m:
                return None
            r.count('kicks')
            ctx.require(m[0].a[2] == 'Kick', 'task:what', 'the keep alive timer sends something else than a kick', F)
            ctx.require('age' in h, 'task:untimed', 'a client is kicked without a look at the time of its last packet', F)
            ctx.require('alive' in h or any(x.op == 'fld' and x.a[1][2] == 'connected_time' for f in st.facts for x in walk(f)), 'task:stale',
                        'the timer of an earlier connection kicks a client that has connected again', F)
            lim = [z for z in limits(st) if z is not None]
            r.count('limits' if lim else 'other limits')
            for op, d in lim:
                ctx.require(d == (0, LIMIT), 'task:limit', 'a client is kicked after another time than one and a half times its keep alive: %s ms + %s ms * keep alive' % d, F)
                ctx.require(op in ('gt', 'ge'), 'task:early', 'a client is kicked while it is within its keep alive', F)
            return 'kicked'
        if kind == 'return':
            r.count('ends')
            ctx.require('kicked' in h or 'gone:upgrade' in h or 'gone:get_client_control_sender' in h or 'age' in h and 'compared' not in h, 'task:stops',
                        'the keep alive timer stops although its session goes on, its client will never be kicked', F)
        return None

    def limits(st):
        for f, b in st.facts.items():
            if f.op != 'cmp' and f.op not in ('lt', 'le'):
                continue
            xs = list(kids(f))
            if len(xs) != 2 or not (is_age(xs[0]) or is_age(xs[1])):
                continue
            op = f.a[0] if f.op == 'cmp' else f.op
            d = millis(xs[1] if is_age(xs[0]) else xs[0], k)
            if not is_age(xs[0]):
                op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(op)
            if b is FALSE or is_int(b, 0):
                op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(op)
            yield (op, d) if d and op else None

    def is_age_call(what):
        return what in ('elapsed', 'duration_since', 'saturating_duration_since', 'checked_duration_since', 'sub')
    r = Task(r'::sleep$|::sleep_until$|::get_client_control_sender$|::send_async$|::try_send$|Weak.*::(upgrade|strong_count)$|::ptr_eq$|'
             r'Instant::(elapsed|(saturating_|checked_)?duration_since)$|Instant as .*::sub$', event, {}, (), r'::get_client_control_sender$')
    E = r.E = Engine(ctx.P, r, join_limit=16)
    E.run(co.a[0].split(':', 1)[1], [co, sym('cx')])
    ctx.engine(E)
    for x in ('sleeps', 'kicks'):
        ctx.floor('timer ' + x, r.n.get(x, 0), 1)


def connected(ctx, v):
    """a client that is told it is connected has a timer for its keep alive, its identifier and the time of its last packet"""
    path = CONNECT[v]
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    s = sym(names[0])
    track = {}
    if v == 'v3':
        k = fld(sym(names[2]), 'keep_alive')

    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: [str(h)] + r.facts(st)
        cur = lambda f: E.deep(st, final(st, s, f))
        if kind == 'call' and what == 'start_keep_alive_timer':
            r.count('timers')
            ctx.require('timer' not in h, 'connect:twice:' + v, 'a connection has two keep alive timers', F)
            ctx.require(vals[0] is cur('keep_alive'), 'connect:keep_alive:' + v, 'the timer runs for another keep alive than that of the session', F)
            ctx.require(vals[1] is cur('client_id'), 'connect:client:' + v, 'the timer runs for another client', F)
            ctx.require(vals[2] is cur('last_packet_time'), 'connect:time:' + v, 'the timer looks at the time of another session', F)
            if v == 'v3':
                ctx.require(vals[0] is k or not understood(vals[0]), 'connect:asked', 'the keep alive the client asked for is not the one of its session', F)
            return 'timer'
        if kind == 'write' and what == 'connected' and vals[0] is TRUE:
            r.count('connected')
            ctx.require('timer' in h, 'connect:none:' + v, 'a client is connected without keep alive timer', F)
            return 'connected'
        if kind == 'write' and what in ('keep_alive', 'client_id', 'last_packet_time'):
            ctx.require('timer' not in h, 'connect:later:' + v, 'the %s of a session changes after its timer was started' % what.replace('_', ' '), F)
        return None
    r = Flow(r'::start_keep_alive_timer$', event, track, ('connected', 'keep_alive', 'client_id', 'last_packet_time'), r'::start_keep_alive_timer$|' + IO)
    run(ctx, path, r, join_limit=8)
    for x in ('timers', 'connected'):
        ctx.floor('%s %s' % (v, x), r.n.get(x, 0), 1)


def noted(ctx, v):
    """the time of the last packet is now, after each packet"""
    path = HANDLE[v]
    if ctx.anchor(path) is None:
        return
    s = sym(argnames(ctx.P, path)[0])
    last = fld(s, 'last_packet_time')

    def event(E, st, kind, what, vals):
        if kind == 'return':
            r.count('returns')
            now = [E.deep(st, x) for (k, *q), x in st.mem.items() if k == 'S' and q[0].op == 'inner' and q[0].a[0] is last]
            ctx.require(len(now) == 1 and now[0].op in ('call', 'pure') and short(str(now[0].a[0])) == 'now', 'noted:' + v,
                        'a packet of a client does not count as a sign of life', lambda: r.facts(st))
        return None
    r = Flow(r'^$', event, {}, (), r'::handle_pendings$')
    run(ctx, path, r, join_limit=8)
    ctx.floor('%s packets noted' % v, r.n.get('returns', 0), 1)
    # what the loop calls after each packet (the loop itself is O01) leads here unless the client has disconnected
    imp = [f for f in ctx.P.bodies if re.search(r'%s::message::<impl .*OnlineSession for .*>::after_handle_packet$' % v, f)]
    ctx.require(len(imp) == 1, 'noted:loop:' + v, 'the online session of %s is not found' % v, lambda: imp)
    for f in imp:
        def event2(E, st, kind, what, vals):
            if kind == 'call':
                q.count('calls')
                return what
            if kind == 'return':
                gone = any(fields_of(k2) & {'disconnected', 'client_disconnected', 'server_disconnected'} and not (b is FALSE or is_int(b, 0)) for k2, b in st.facts.items())
                ctx.require('after_handle_packet' in q.hist(st) or gone, 'noted:loop:' + v, 'a packet of a connected client does not count as a sign of life', lambda: q.facts(st))
            return None
        q = Flow(r'common::after_handle_packet$', event2, {}, ())
        run(ctx, f, q, join_limit=8)
        ctx.floor('%s loop notes' % v, q.n.get('calls', 0), 1)


def fields_of(t):
    return {x.a[1][2] for x in walk(t) if x.op == 'fld' and isinstance(x.a[1], tuple) and len(x.a[1]) > 2}


def writers(ctx):
    """nothing else takes the time of the last packet for writing"""
    n, bad = 0, []
    for f in list(ctx.P.bodies):
        if 'mqtt' not in f or 'last_packet_time' not in str(ctx.P.bodies[f]):
            continue
        n += 1
        if f.split('::{closure')[0] in HANDLE.values() or not re.search(r'RwLock[^"]*::write\b', str(ctx.P.bodies[f])):
            continue
        hits = []

        def event(E, st, kind, what, vals):
            if kind == 'call' and vals and 'last_packet_time' in fields_of(vals[0]):
                hits.append(1)
        r = Flow(r'::write$', event, {}, (), IO)
        run(ctx, f, r, join_limit=8)
        if hits:
            bad.append(f)
    ctx.require(not bad, 'writers', 'the time of the last packet is set by something else than a packet: %s' % ', '.join(sorted(bad)), lambda: bad)
    ctx.floor('functions that use the time of the last packet', n, 4)


RULES = {'K01': k01}
