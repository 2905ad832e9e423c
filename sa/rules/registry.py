"""The registry of clients: C04 ids, names, senders and the count of online clients; C05 how a connection leaves it."""
import re

from _base import *
from tree import val3
import terms

ST = 'state::GlobalState::'
G = sym('self')
MAPS = ('client_id_map', 'client_identifier_map', 'clients')
NEXT = mk('inner', fld(G, 'next_client_id'))
CHANGE = {'insert', 'remove', 'remove_if', 'get_mut', 'entry', 'clear', 'retain', 'alter', 'alter_all', 'iter_mut', 'fetch_add', 'fetch_sub', 'store', 'swap', 'fetch_update',
          'compare_exchange', 'compare_exchange_weak', 'try_get_mut', 'shrink_to_fit', 'get_mut_', 'fetch_max', 'fetch_min', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand'}


class Reg(Flow):
    """history of the changes of the registry; `held` while the guard of the mutex lives"""

    def on_drop(self, E, st, v, ty, span):
        v = E.deep(st, v) if v.op != 'agg' else v
        if v.op == 'agg' and v.a[0] == 'guard' and project(v, ('f', '', 'kind')) is terms.Lit('lock'):
            self.add(st, ('unlocked',))

    def on_call(self, E, st, c):
        if short(c.res or c.name) == 'insert' and NEXT in c.args:
            # a copy of the counter taken before it advanced keeps its value, whatever the counter holds now
            for n in (c.res, c.name):
                if n and self.calls.search(n):
                    self.learn(E, st)
                    vals = [a if a is NEXT else E.deep(st, x) for a, x in zip(c.args, E.vals(st, c))]
                    self.add(st, self.event(E, st, 'call', 'insert', vals))
                    break
            return None
        return Flow.on_call(self, E, st, c)

    def on_write(self, E, st, root, path, val, span):
        if root[0] == 'S' and root[1] is NEXT and not fields(path):
            self.add(st, ('next', fld(E.deep(st, val), '0')))
        else:
            Flow.on_write(self, E, st, root, path, val, span)

    def on_return(self, E, st, v):
        self.event(E, st, 'return', '', [v])


def field_of(t):
    """the field of GlobalState the value is"""
    for f in MAPS + ('online_clients', 'route_table', 'next_client_id'):
        if t is fld(G, f):
            return f
    return None


def events(E, st, kind, what, vals):
    if kind == 'call':
        if what == 'lock':
            return ('locked',) if field_of(vals[0]) == 'next_client_id' else None
        f = field_of(vals[0]) if vals else None
        if what == 'unsubscribe' and f == 'route_table':
            return ('unsub', vals[1], vals[2]) if not any(h[0] == 'unsub' for h in st.ps[1]) else None
        if f in MAPS and what in ('get', 'contains_key'):
            return ('get', f)
        if f in MAPS + ('online_clients',) and what in CHANGE and what != 'get_mut':
            return (what, f) + tuple(vals[1:])
        if what in ('send_async', 'try_send', 'send', 'recv_async', 'recv'):
            return (what,) + tuple(vals)
    elif kind == 'write':
        root, val = vals[1], vals[0]
        if what == '1':
            return ('flag', root[1], val)
        if what == '0' and root[1] is NEXT:
            return ('next', val)
    return None


REG = r'DashMap|Atomic|Mutex|RouteTable::unsubscribe$|send_async$|recv_async$|::try_send$|::try_recv$|flume::Sender::<.*>::send$|flume::Receiver::<.*>::recv$'


def changes(h):
    return [x for x in h if x[0] in CHANGE or x[0] in ('flag', 'next', 'unsub')]


def under_lock(h):
    held = False
    for x in h:
        if x[0] == 'locked':
            held = True
        elif x[0] == 'unlocked':
            held = False
        elif (x[0] in CHANGE or x[0] in ('flag', 'next', 'get')) and not held:
            return False
    return True


def show(h):
    return [' '.join(str(y)[:60] for y in x) for x in h]


def delta(h):
    """change of the count on the path; None: not understood"""
    n = 0
    for x in h:
        if len(x) > 1 and x[1] == 'online_clients':
            if x[0] not in ('fetch_add', 'fetch_sub') or x[2].op != 'int':
                return None
            n += x[2].a[0] * (1 if x[0] == 'fetch_add' else -1)
    return n


def c04(ctx):
    for fn, judge in (('add_client', add), ('remove_client', remove), ('offline_client', offline)):
        path = ST + fn
        if ctx.anchor(path) is None:
            continue

        def event(E, st, kind, what, vals):
            if kind == 'return':
                h = r.hist(st)
                F = lambda: show(h) + facts_text(st)
                r.count('returns')
                ctx.require(under_lock(h), 'lock:' + fn, '%s changes the registry without holding its lock' % fn, F)
                judge(ctx, E, st, h, vals[0], r, F)
                return None
            return events(E, st, kind, what, vals)
        r = Reg(REG, event, {}, ('1', '0'), r'RouteTable::unsubscribe$')
        run(ctx, path, r, join_limit=60)
        ctx.floor('returns ' + fn, r.n.get('returns', 0), 1)
        for k, n in sorted(r.n.items()):
            ctx.sample('%s: %s %d' % (fn, k, n))
        for k in {'add_client': ('new', 'present', 'state'), 'remove_client': ('known', 'unknown', 'unsubscribed'), 'offline_client': ('known',)}[fn]:
            ctx.floor('%s %s' % (fn, k), r.n.get(k, 0), 1)
    only_these(ctx)


def add(ctx, E, st, h, v, r, F):
    name = sym(argnames(ctx.P, ST + 'add_client')[1])
    old = mk('pure', 'mapget', fld(G, 'client_identifier_map'), name)
    known = E.value(st, discr(old, 2))
    ctx.require(known is not None, 'lookup', 'a client is added without looking up its identifier', F)
    if known is None:
        return
    ins = [x for x in h if x[0] == 'insert']
    flags = [x for x in h if x[0] == 'flag']
    d = delta(h)
    if known is Int(0):
        r.count('new')
        by = {x[1]: x for x in ins}
        ok = len(ins) == 3 and set(by) == set(MAPS)
        ctx.require(ok, 'new:maps', 'a new client is not entered in each of the three maps once', F)
        if ok:
            a, b, c = by['client_id_map'], by['client_identifier_map'], by['clients']
            ctx.require(a[2] is NEXT and b[3] is NEXT and c[2] is NEXT, 'new:id', 'the maps hold different ids, or one that may be in use', F)
            e = a[3]
            ctx.require(b[2] is name and e.op == 'agg' and len(e.a[3]) == 2 and e.a[3][0][1] is name, 'new:name', 'the maps do not map the identifier and the id to each other', F)
            ctx.require(e.op == 'agg' and e.a[3][-1][1] is TRUE, 'new:online', 'a new client is not marked online', F)
            s = c[3]
            rc = fld(v, 'Ok.0.New.receiver')
            for q in ('normal', 'control'):
                tx, rx = fld(s, q), fld(rc, q)
                same = tx.op == 'fld' and rx.op == 'fld' and tx.a[0] is rx.a[0] and tx is not rx
                if understood(tx) or tx.op == 'fld':
                    ctx.require(same, 'new:channel:' + q, 'the %s sender of a new client does not reach its receiver' % q, F)
        ctx.require(d == 1, 'new:count', 'a new client changes the count of online clients by %s' % d, F)
        nx = [x[1] for x in h if x[0] == 'next']
        ctx.require(len(nx) == 1 and E.decide(st, lt(fld(NEXT, '0'), nx[0])) is True, 'new:next', 'the id of a new client may be given out again', F)
        got = fld(v, 'Ok.0.New.client_id')
        ctx.require(got is NEXT or got is fld(NEXT, '0') or got.op == 'upd' or got.op == 'join', 'new:returned', 'the caller gets another id than the one in the maps', F)
        return
    r.count('present')
    oid = fld(old, 'Some.0')
    pair = fld(mk('pure', 'mapget', fld(G, 'client_id_map'), oid), 'Some.0')
    ctx.require(not ins and not [x for x in h if x[0] in ('remove', 'clear', 'retain', 'next')], 'present:maps', 'taking over a session changes the maps', F)
    had = E.value(st, discr(mk('pure', 'mapget', fld(G, 'client_id_map'), oid), 2))
    if had is Int(0):
        return      # not reachable while the maps mirror each other
    was = val3(E, st, fld(pair, '1'))
    now = flags[-1][2] if flags else None
    if was is None:
        ctx.require(False, 'present:count', 'the count is changed without looking whether the session is online', F)
    else:
        ctx.require(all(x[1] is pair for x in flags) and (now is TRUE if now is not None else was), 'present:online', 'a session that is taken over is not marked online', F)
        ctx.require(d == (0 if was else 1), 'present:count', 'taking over an %s session changes the count by %s' % ('online' if was else 'offline', d), F)
    sends = [x for x in h if x[0] == 'send_async']
    want = fld(fld(mk('pure', 'mapget', fld(G, 'clients'), oid), 'Some.0'), 'control')
    ctx.require(all(x[1] is want for x in sends), 'present:peer', 'the session is requested from another client', F)
    held = False
    for x in h:
        held = True if x[0] == 'locked' else False if x[0] == 'unlocked' else held
        if x[0] in ('send_async', 'recv_async', 'send', 'recv'):
            ctx.require(not held, 'present:wait', 'add_client waits for a client while it holds the lock of the registry', F)
    if ok_of(E, st, v) is True:
        r.count('state')
        ctx.require(len(sends) == 1, 'present:sends', 'a session is returned without asking for it', F)


def remove(ctx, E, st, h, v, r, F):
    cid = sym(argnames(ctx.P, ST + 'remove_client')[1])
    had = mk('pure', 'mapget', fld(G, 'client_id_map'), cid)
    rem = [x for x in h if x[0] == 'remove']
    ctx.require(any(x[1] == 'client_id_map' and x[2] is cid for x in rem) and all(x[2] is cid for x in rem if x[1] != 'client_identifier_map'),
                'remove:id', 'the id of a removed client stays in the registry, or another one is removed', F)
    ctx.require(any(x[1] == 'clients' and x[2] is cid for x in rem), 'remove:sender', 'the sender of a removed client stays in the registry', F)
    k = E.value(st, discr(had, 2))
    names = [x for x in rem if x[1] == 'client_identifier_map']
    d = delta(h)
    if k is Int(1):
        r.count('known')
        own = fld(had, 'Some.0.0')
        ctx.require(len(names) == 1 and names[0][2] is own, 'remove:name', 'the identifier of a removed client stays in the registry, or another one is removed', F)
        on = val3(E, st, fld(had, 'Some.0.1'))
        ctx.require(on is not None and d == (-1 if on else 0), 'remove:count', 'removing an %s client changes the count by %s' % ('online' if on else 'offline', d), F)
    elif k is Int(0):
        r.count('unknown')
        ctx.require(not names and d == 0, 'remove:none', 'removing a client that is not registered changes the registry', F)
    else:
        ctx.require(not names and d == 0, 'remove:count', 'the registry is changed without looking at the entry of the client', F)
    for x in h:
        if x[0] == 'unsub':
            r.count('unsubscribed')
            ctx.require(x[2] is cid, 'remove:unsub', 'the filters are unsubscribed for another client', F)
            i = x[1].a[1] if x[1].op == 'fld' and isinstance(x[1].a[1], tuple) and x[1].a[1][0] == 'i' else None
            if i is not None and (isinstance(i[1], int) or i[1].op == 'int'):
                r.count('first')
                ctx.require(i[1] == 0 or i[1] is Int(0), 'remove:first', 'the first filter of a removed client stays in the route table', F)


def offline(ctx, E, st, h, v, r, F):
    cid = sym(argnames(ctx.P, ST + 'offline_client')[1])
    had = mk('pure', 'mapget', fld(G, 'client_id_map'), cid)
    k = E.value(st, discr(had, 2))
    d = delta(h)
    flags = [x for x in h if x[0] == 'flag']
    ctx.require(not [x for x in h if x[0] in ('insert', 'remove', 'clear', 'retain')], 'offline:maps', 'a client that goes offline is removed or added', F)
    if k is Int(1):
        r.count('known')
        pair = fld(had, 'Some.0')
        was = val3(E, st, fld(pair, '1'))
        now = flags[-1][2] if flags else None
        ctx.require(all(x[1] is pair for x in flags) and (now is FALSE if now is not None else was is False), 'offline:flag', 'a client that goes offline stays marked online', F)
        ctx.require(was is not None and d == (-1 if was else 0), 'offline:count', 'going offline changes the count of an %s client by %s' % ('online' if was else 'offline', d), F)
    else:
        ctx.require(d == 0 and not flags, 'offline:none', 'the count changes for a client that is not registered', F)


def users(ctx, fs):
    """functions that name one of the fields of GlobalState -> fields"""
    out = {}

    def places(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 3 and x[0] == 'field':
                yield x[2]
            for y in x:
                yield from places(y)
    for q, b in ctx.P.bodies.items():
        got = {f for bb in b['blocks'] if not bb['cleanup'] for f in places([bb['s'], bb['t']]) if f in fs}
        if got:
            out[q] = got
    return out


def only_these(ctx):
    """no other function changes the maps, the count or the flags"""
    us = users(ctx, set(MAPS + ('online_clients', 'next_client_id')))
    bad = []
    n = 0
    for q in us:
        for bb in ctx.P.bodies[q]['blocks']:
            t = bb['t']
            if t[0] == 'call' and t[1][0] == 'fn' and not bb['cleanup']:
                c = t[1][2] or t[1][1]
                if ('DashMap' in c or 'dashmap' in c or 'Atomic' in c) and short(c) in CHANGE:
                    n += 1
                    bad.append(q)
    bad = only_in(ctx, sorted(set(bad)), r'GlobalState::(add_client|remove_client|offline_client)(::|$)')
    for q in bad:
        ctx.require(False, 'only:' + q, '%s changes the registry of clients' % q, lambda: [])
    ctx.floor('changes of the registry', n, 6)


RULES = {'C04': c04}
