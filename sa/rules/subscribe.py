"""B01 SUBSCRIBE, B02 UNSUBSCRIBE, B03 retained messages for a new subscription"""
from _base import *
from _base import OPAQUE

from forward import V3, V5, val3, levels, level, check_min
from session_end import is_int
import coll
import terms

PKT = {v: 'protocols::mqtt::%s::packet::subscribe::' % v for v in ('v3', 'v5')}
CFG = fld(sym('global'), 'config')
OQ = r'RouteTable::(un)?subscribe$|::get_matches$|::recv_publish$|::handle_pendings$|::build_error_disconnect$|is_shared$|max_allowed_qos$'
SUBS = r'HashMap.*::(insert|remove|entry|or_insert\w*)$'


def called(t, name):
    return t.op in ('call', 'pure') and short(str(t.a[0])) == name


def has_field(t, name):
    return any(x.op == 'fld' and isinstance(x.a[1], tuple) and x.a[1][-1] == name for x in walk(t))


PACKET = sym('packet of a retained message')
QOS = 'mqtt_proto::QoS'


def one(ctx, r, E, st, key, t):
    """all calls for one item concern the same filter"""
    f = r.got(st, 'f')
    ctx.require(f is None or f == str(id(t)) or not understood(t, [x.a[1][1] for x in walk(t) if x.op == 'fld' and x.a[1][0] == 'i']), 'mixed:' + key, 'two filters are mixed up', lambda: [str(t)] + r.facts(st))
    r.add(st, 'f:%d' % id(t))
    if any(x.op in OPAQUE for x in walk(t)):
        r.count('later items')


def rest(ctx, r, E, st, key):
    """the return of the handler: there is nothing left of an item, unless the items were not taken in a loop"""
    if any(x == 'sub' or x == 'unsub' or x.startswith('code:') for x in st.ps[1]):
        if r.loops:
            ctx.require(False, 'early:' + key, 'the filters after some filter are ignored', lambda: [' '.join(st.ps[1])] + r.facts(st))
        else:
            r.count('later items')
            r.done(E, st)


class PerItem(Flow):
    """the history is that of one item of the packet (labels are a set): it starts again with each round of the first loop a path enters"""
    def __init__(self, *a, done=None, inner=None, learn=None, empty=None, split=False, **kw):
        super().__init__(*a, **kw)
        self.done, self.inner, self.see, self.empty, self.split = done, inner, learn, empty, split
        self.loops = {}

    def add(self, st, label):
        if label is not None and label not in st.ps[1]:
            k = label.split(':')[0] + ':' if ':' in label else None
            st.ps = (st.ps[0], tuple(sorted([x for x in st.ps[1] if k is None or not x.startswith(k)] + [label])))

    def cut(self, st, *ks):
        st.ps = (st.ps[0], tuple(x for x in st.ps[1] if x.split(':')[0] not in ks))

    def got(self, st, k):
        return next((x.split(':', 1)[1] for x in st.ps[1] if x.startswith(k + ':')), None)

    def on_loop(self, E, st, depth, bb):
        k = (st.frames[-1] if False else self.site(st), bb)
        self.loops.setdefault(k, 'item' if not [x for x in st.ps[1] if x != 'final'] else 'inner')

    @staticmethod
    def site(st):
        return len(st.frames)

    def on_back(self, E, st, depth, bb):
        kind = self.loops.get((self.site(st), bb))
        if kind == 'item':
            if st.ps[1] and self.done:
                self.done(E, st)
            st.ps = (st.ps[0], ())
        elif kind == 'inner' and self.inner:
            self.inner(E, st)

    def partition(self, st):
        return frozenset((k, v) for k, v in st.mem.items() if k[0] == "L" and k[1] == 0 and (v is TRUE or v is FALSE))

    def on_assume(self, E, st, t, v):
        if self.see:
            self.add(st, self.see(E, st, t, v is True or v is TRUE or hasattr(v, "op") and is_int(v, 1) or v == 1 and not hasattr(v, "op"), v))
        return super().on_assume(E, st, t, v)

    def on_call(self, E, st, c):
        super().on_call(E, st, c)
        for n in (c.res, c.name):
            if n and self.empty is not None and self.empty.search(n):
                return [(st, coll.EMPTY)]
            if n and self.split and n.endswith('::insert') and 'subscribes' in str(E.vals(st, c)[0]):
                # one state for a filter that is new, one for a filter that was subscribed
                st2 = st.copy()
                self.add(st, 'old:0')
                self.add(st2, 'old:1')
                return [(st, NONE), (st2, terms.Some(sym('replaced')))]
            if n and self.split and n.endswith('::recv_publish'):
                # what recv_publish returns (Q06, Q07): nothing, the packet of a QoS 0 message, or the QoS of a queued one
                out = []
                for i in (None, 0, 1, 2):
                    s2 = st.copy()
                    self.add(s2, 'got:%d' % (i is not None))
                    if i is not None:
                        self.add(s2, 'queued:%d' % i)
                    out.append((s2, NONE if i is None else terms.Some(terms.tup(agg(QOS, i, 'Level%d' % i), terms.Some(PACKET) if i == 0 else NONE))))
                return out
        return None


def item(t, names):
    """the item of packet.topics a term belongs to; None if it is not known"""
    tp = fld(sym(names[1]), 'topics')
    for x in walk(t):
        if x.op not in ('sym', 'fld') and x is not tp and any(y is tp for y in walk(x)) and x.op in ('elem', 'idx', 'at', 'nth', 'get'):
            return x
    return None


def is_filter(t, names):
    """a filter of the packet: True, False (another known value) or None"""
    tp = fld(sym(names[1]), 'topics')
    if any(y is tp for y in walk(t)):
        return True
    return None if not understood(t) else False


def asked(names, v, t):
    """the QoS asked for with the same item as the filter t"""
    if t.op == 'fld' and t.a[1][-1] == '0':
        return fld(t.a[0], '1') if v == 'v3' else fld(t.a[0], '1.max_qos')
    return None


GRANTED = ('GrantedQoS0', 'GrantedQoS1', 'GrantedQoS2')


def b01(ctx):
    for v in ('v3', 'v5'):
        subscribe(ctx, v)


def limit(E, st):
    for f in list(st.facts):
        for x in walk(f):
            if called(x, 'max_allowed_qos'):
                return x
    return None


def subscribe(ctx, v):
    path = PKT[v] + 'handle_subscribe'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    S, PKTT, G = sym(names[0]), sym(names[1]), sym(names[2])
    cfg = fld(G, 'config')
    sid = fld(PKTT, 'properties.subscription_id')
    track = {}
    if v == 'v5':
        track = {'shared_ok': lambda E, st: val3(E, st, fld(cfg, 'shared_subscription_available')),
                 'wild_ok': lambda E, st: val3(E, st, fld(cfg, 'wildcard_subscription_available')),
                 'id_ok': lambda E, st: val3(E, st, fld(cfg, 'subscription_id_available')),
                 'id': lambda E, st: is_int(E.value(st, discr(sid, 2)), 1)}

    def see(E, st, t, b, val):
        if called(t, 'is_shared'):
            return 'shared:%d' % b
        if called(t, 'contains') and any('topics' in str(x) for x in walk(t)):
            return 'wild:%d' % b
        if t.op == 'and' and all(x.op == 'not' and x.a[0].op == 'pure' and x.a[0].a[0] == 'strhas' for x in t.a):
            return 'wild:%d' % (not b)
        if t.op == 'or' and all(x.op == 'pure' and x.a[0] == 'strhas' for x in t.a):
            return 'wild:%d' % b
        if t.op == 'pure' and t.a[0] == 'strhas':
            mine = 'no ' + str(t.a[2])
            if b:
                return 'wild:1'
            return 'wild:0' if any(x.startswith('no ') and x != mine for x in st.ps[1]) else mine
        if t.op in ('eqc', 'eq', 'eq0') and any(called(x, 'value') and has_field(x, 'subscription_id') for x in walk(t)) or called(t, 'value') and has_field(t, 'subscription_id'):
            z = b if t.op != 'eqc' or is_int(t.a[1], 0) else None
            if called(t, 'value'):
                z = (val == 0) if isinstance(val, int) else is_int(val, 0)
            return None if z is None else 'zero:%d' % z
        return None

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        if kind == 'call' and what == 'subscribe':
            r.count('subscribed')
            f = vals[1]
            one(ctx, r, E, st, v, f)
            ctx.require('sub' not in st.ps[1], 'twice:' + v, 'a filter is subscribed twice', F)
            ctx.require(is_filter(f, names) is not False, 'filter:' + v, 'another filter than that of the packet is subscribed', F)
            ctx.require(same_or_unknown(vals[2], fld(now_of(st, S), 'client_id'), fld(S, 'client_id')), 'client:' + v, 'a filter is subscribed for another client', F)
            q, m = asked(names, v, f), limit(E, st)
            if q is not None and m is not None:
                r.count('qos', ) if check_min(ctx, E, st, vals[3], q, m, 'qos:' + v, 'a filter is subscribed', F) else None
            if v == 'v5':
                ctx.require(not (r.k(st, 'id_ok') is False and r.k(st, 'id') is True), 'refused:id', 'a subscription with an identifier is made although they are not available', F)
                ctx.require(not (r.k(st, 'shared_ok') is False and g('shared') != '0'), 'refused:shared', 'a shared subscription is made although they are not available', F)
                ctx.require(not (r.k(st, 'wild_ok') is False and g('wild') != '0'), 'refused:wildcard', 'a wildcard subscription is made although they are not available', F)
            else:
                ctx.require(g('shared') == '0', 'refused:shared:v3', 'a v3 client makes a shared subscription', F)
            return 'sub'
        if kind == 'call' and what == 'insert' and 'subscribes' in str(vals[0]):
            r.count('kept')
            one(ctx, r, E, st, v, vals[1])
            ctx.require('ins' not in st.ps[1], 'kept:twice:' + v, 'a subscription is kept twice', F)
            ctx.require(is_filter(vals[1], names) is not False, 'kept:filter:' + v, 'a session keeps another filter than that of the packet', F)
            q, m = asked(names, v, vals[1]), limit(E, st)
            d = vals[2]
            if v == 'v5':
                o = fld(d, 'options')
                ctx.require(fld(d, 'id') is sid or not understood(fld(d, 'id')), 'kept:id', 'a subscription is kept with another identifier', F)
                it = vals[1].a[0] if q is not None else None
                if it is not None and d.op == 'agg':
                    for f in ('no_local', 'retain_as_published', 'retain_handling'):
                        x = fld(o, f)
                        ctx.require(x is fld(it, '1.' + f) or not understood(x), 'kept:' + f, 'a subscription is kept with another %s option' % f, F)
                d = fld(o, 'max_qos')
            if q is not None and m is not None:
                check_min(ctx, E, st, d, q, m, 'kept:qos:' + v, 'a subscription is kept', F)
            return 'ins'
        if kind == 'call' and what == 'push' or kind == 'code':
            c = code_of(vals[1])
            if c is not None:
                r.count('codes')
                ctx.require(g('code') is None, 'code:twice:' + v, 'a filter is answered twice', F)
                if c in GRANTED and v == 'v5':
                    r.count('granted')
                    m = limit(E, st)
                return 'code:' + c
            if v == 'v3' and not any(called(x, 'new') or called(x, 'recv_publish') for x in walk(vals[1])) and vals[1].op != 'agg':
                r.count('codes')
                ctx.require(g('code') is None, 'code:twice:' + v, 'a filter is answered twice', F)
                return 'code:granted'
            if v == 'v3' and vals[1].op == 'agg' and str(vals[1].a[0]).endswith('QoS'):
                r.count('codes')
                return 'code:granted'
        if kind == 'return':
            x = vals[0]
            if x.op == 'agg' and x.a[2] == 'Err':
                r.count('errors')
                if v == 'v5':
                    ctx.require(g('zero') == '1', 'error:v5', 'a SUBSCRIBE that is allowed ends the connection', F)
                    e = [y for y in walk(x) if called(y, 'build_error_disconnect')]
                    ctx.require(not e or any(y.op == 'agg' and y.a[2] == 'ProtocolError' for y in walk(e[0])), 'error:code', 'a protocol error is reported as something else', F)
                else:
                    ctx.require(g('shared') == '1', 'error:v3', 'a SUBSCRIBE that is allowed ends the connection', F)
            elif x.op == 'agg' and x.a[2] == 'Ok':
                rest(ctx, r, E, st, v)
                if v == 'v5':
                    ctx.require(g('zero') != '1', 'zero', 'a subscription identifier of 0 is accepted', F)
                acks = [y for y in walk(x) if (y.op == 'agg' and str(y.a[0]).endswith('Suback')) or (called(y, 'new') and 'Suback' in str(y.a[0]))]
                r.count('acks', ) if acks else None
                ctx.require(bool(acks) or not understood(x), 'suback:' + v, 'a SUBSCRIBE is not answered', F)
                for a in acks[:1]:
                    pid = fld(a, 'pid') if a.op == 'agg' else [y for y in walk(a) if y is fld(PKTT, 'pid')][:1]
                    ctx.require(pid is fld(PKTT, 'pid') or (isinstance(pid, list) and pid), 'suback:pid:' + v, 'SUBACK has another packet identifier', F)
                    if v == 'v5':
                        cs = fld(a, 'topics')
                        no = [y for y in walk(cs) if y.op == 'agg' and y.a[2] == 'SubscriptionIdentifiersNotSupported']
                        bad = r.k(st, 'id_ok') is False and r.k(st, 'id') is True
                        if bad:
                            r.count('id refused')
                            ctx.require(bool(no) and any(is_len(y, fld(PKTT, 'topics')) for y in walk(cs)), 'suback:id', 'a SUBSCRIBE with an identifier that is not available is not refused for each of its filters', F)
                        else:
                            ctx.require(not no, 'suback:id', 'a SUBSCRIBE is refused for an identifier', F)
        return None

    def is_len(t, of):
        return t.op == 'len' and t.a[0] is of or t.op == 'fld' and t.a[0] is of or 'len' in str(t.op) and any(y is of for y in walk(t))

    def done(E, st):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        c, sub, ins = g('code'), 'sub' in st.ps[1], 'ins' in st.ps[1]
        r.count('items')
        ctx.require(sub == ins, 'half:' + v, 'a subscription is in the route table but not in the session, or the other way round', F)
        ctx.require(c is not None, 'code:none:' + v, 'a filter is not answered', F)
        if c is None:
            return
        good = c in GRANTED or c == 'granted'
        if c != '?':
            ctx.require(sub == good, 'code:lie:' + v, 'a filter is answered with %s but %s' % (c, 'subscribed' if sub else 'not subscribed'), F)
        if v == 'v5':
            if c == 'SharedSubscriptionNotSupported':
                ctx.require(r.k(st, 'shared_ok') is False and g('shared') == '1', 'code:shared', 'a filter is refused as a shared one', F)
            elif c == 'WildcardSubscriptionsNotSupported':
                ctx.require(r.k(st, 'wild_ok') is False and g('wild') == '1', 'code:wildcard', 'a filter is refused as one with wildcards', F)
            elif not good and c != '?':
                ctx.require(False, 'code:other', 'a filter is refused with %s' % c, F)

    def code_of(t):
        if t.op == 'agg' and str(t.a[0]).endswith('SubscribeReasonCode'):
            return t.a[2]
        if t.op in ('join', 'phi') and v == 'v5':
            return '?'
        return None
    r = PerItem(OQ + r'|::push$|' + SUBS, event, track, (), OQ, done=done, learn=see, empty=re.compile(r'::get_matches$'), labels=40)
    run(ctx, path, r, join_limit=48)
    for k in ('subscribed', 'kept', 'codes', 'items', 'acks', 'errors', 'later items') + (('id refused',) if v == 'v5' else ()):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)
    if v == 'v5':
        granted(ctx, path, names)


def granted(ctx, path, names):
    """v5: the code granted is that of the lower of the two QoS, one run for each code pushed"""
    def event(E, st, kind, what, vals):
        if kind == 'call' and what == 'push' and vals[1].op == 'agg' and vals[1].a[2] in GRANTED:
            q = None
            for f in st.facts:
                for x in walk(f):
                    if x.op == 'fld' and x.a[1][-1] == 'max_qos' and 'topics' in str(x):
                        q = x
            m = limit(E, st)
            if q is None or m is None:
                return None
            n = GRANTED.index(vals[1].a[2])
            for a in levels(E, st, [q, m]):
                r.count('codes')
                ctx.require(n == min(a[q], a[m]), 'code:qos', 'a filter asked for with QoS %d where %d is allowed is granted QoS %d' % (a[q], a[m], n), lambda: r.facts(st))
    r = PerItem(OQ + r'|::push$', event, {}, (), OQ, empty=re.compile(r'::get_matches$'))
    run(ctx, path, r, join_limit=200)
    ctx.floor('granted codes', r.n.get('codes', 0), 3)


def now_of(st, S):
    return st.mem.get(('S', S)) or S


def same_or_unknown(t, *xs):
    return any(t is x for x in xs) or not understood(t)


MSG_LABELS = ('recv', 'same', 'packet', 'sent', 'queued', 'got', 'props')


def b03(ctx):
    for v in ('v3', 'v5'):
        retained(ctx, v)


def retained(ctx, v):
    """a new subscription finds the retained messages exactly if it asks for them, and each of them is sent or queued"""
    path = PKT[v] + 'handle_subscribe'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    S, G = sym(names[0]), sym(names[2])
    avail = fld(G, 'config.retain_available')
    track = {'avail': lambda E, st: val3(E, st, avail)} if v == 'v5' else {}

    def see(E, st, t, b, val):
        if called(t, 'is_shared'):
            return 'shared:%d' % b
        if t.op == 'fld' and t.a[1][-1] == 'no_local':
            return 'nolocal:%d' % b
        if t.op == 'discr':
            x = t.a[0]
            n = val.a[0] if hasattr(val, 'op') and val.op == 'int' else val
            if x.op == 'fld' and x.a[1][-1] == 'retain_handling':
                return 'rh:%s' % n
            if x.op == 'pure' and x.a[0] == 'mapget' and 'subscribes' in str(x) or called(x, 'insert') and 'subscribes' in str(x):
                return 'old:%s' % n
            if x.op == 'fld' and x.a[1][-1] == 'properties' and any(called(y, 'get_matches') for y in walk(x)):
                return 'props:%s' % n
        if t.op == 'eq' and 'client_identifier' in str(t.a[0]) and 'client_identifier' in str(t.a[1]):
            return 'same:%d' % b
        if t.op in ('eq0', 'lt0', 'phi', 'join') and 'owe' in st.ps[1] and any(x.op in ('phi', 'join') and 'pos' not in str(x.a[-1]) for x in walk(t)):
            return 'counted'                                # decided by something counted over the messages
        return None

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        if kind == 'call' and what == 'subscribe':
            r.add(st, 'f:%d' % id(vals[1]))
            r.add(st, 'q:%d' % id(vals[3]))
            return 'sub'
        if kind == 'call' and what == 'get_matches':
            r.count('looks')
            ctx.require(is_filter(vals[1], names) is not False, 'filter:' + v, 'retained messages of another filter are looked up', F)
            ctx.require('sub' in st.ps[1], 'refused:' + v, 'retained messages are sent for a filter that is refused', F)
            ctx.require('ret' not in st.ps[1], 'twice:' + v, 'retained messages are sent twice for one filter', F)
            if v == 'v5':
                ctx.require(r.k(st, 'avail') is True, 'unavailable', 'retained messages are sent although the server does not offer them', F)
                ctx.require(g('shared') == '0', 'shared', 'retained messages are sent for a shared subscription', F)
                ctx.require(g('rh') == '0' or g('rh') == '1' and g('old') != '1', 'handling', 'retained messages are sent although the subscription asks for none (now)', F)
            return 'ret'
        if kind == 'call' and what == 'recv_publish':
            r.count('messages')
            m = vals[1]
            ctx.require('recv' not in st.ps[1], 'message:twice:' + v, 'a retained message is sent twice', F)
            if v == 'v5':
                ctx.require(g('nolocal') == '0' or g('same') == '0', 'local', "a client gets its own retained message although it asked for none of its own", F)
            if m.op == 'agg':
                src = lambda f, n: ctx.require(fld(m, f).op == 'fld' and fld(m, f).a[1][-1] == n and any(called(y, 'get_matches') for y in walk(fld(m, f))) or not clear(fld(m, f)),
                                               'message:%s:%s' % (f, v), 'a retained message is sent with another %s' % f.replace('_', ' '), F)
                src('topic_name', 'topic_name')
                src('qos', 'qos')
                src('payload', 'payload')
                x = fld(m, 'retain')
                if v == 'v3':
                    ctx.require(x is TRUE or not clear(x), 'message:retain:v3', 'a retained message is not marked as one', F)
                else:
                    ctx.require(x.op == 'fld' and x.a[1][-1] == 'retain_as_published' or not clear(x), 'message:retain:v5', 'the retain flag of a retained message is not the one the subscription asks for', F)
                    p = fld(m, 'properties')
                    pr = g('props')
                    ctx.require(any(y.op == 'fld' and y.a[1][-1] == 'properties' for y in walk(p)) or p is NONE and pr == '0' or not clear(p), 'message:properties', 'a retained message loses its properties', F)
                    n = fld(m, 'encode_len')
                    c, ks = terms.lin_of(n)
                    if pr is not None and len(ks) == 1 and all(k.op == 'fld' and k.a[1][-1] == 'encode_len' for k in ks):
                        r.count('lengths')
                        ctx.require(set(ks.values()) == {1} and c == (1 if pr == '0' else 0), 'message:length', 'the length of a retained message is computed wrongly', F)
                    ids = fld(m, 'subscription_ids')
                    ctx.require(not (ids.op == 'agg' and (ids.a[2] != 'Lookup' or not same_filter(st, ids))), 'message:ids', 'a retained message gets the identifier of another subscription', F)
                sq = fld(m, 'subscribe_qos')
                ctx.require(g('q') == str(id(sq)) or not clear(sq), 'message:granted:' + v, 'a retained message is sent with another QoS than the one granted', F)
            return 'recv'
        if kind == 'call' and what in ('push', 'push_back', 'extend', 'append') and any(called(y, 'handle_pendings') for y in walk(vals[1])):
            r.count('queued sent')
            return 'pend'
        if kind == 'call' and what in ('push', 'push_back', 'extend', 'append') and any(y is PACKET for y in walk(vals[1])):
            r.count('sent')
            return 'sent'
        return None

    def clear(t):
        """the term is known, but for the messages looked up"""
        return understood(t, [y for y in walk(t) if called(y, 'get_matches')])

    def same_filter(st, ids):
        x = fld(ids, 'Lookup.0') if not ids.a[3] else ids.a[3][0][1]
        return not clear(x) or r.got(st, 'f') in (None, str(id(x)))

    def inner(E, st):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        if 'ret' not in st.ps[1]:
            return
        r.count('rounds')
        ctx.require('recv' in st.ps[1] or v == 'v5' and g('nolocal') == '1' and g('same') == '1', 'skipped:' + v, 'a retained message the subscription matches is left out', F)
        ctx.require(g('queued') != '0' or 'sent' in st.ps[1], 'lost:' + v, 'a retained message for the client is dropped', F)
        owe = g('queued') in ('1', '2')
        r.cut(st, *MSG_LABELS)
        if owe:
            r.cut(st, 'pend')
            r.add(st, 'owe')

    def done(E, st):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        r.count('items')
        ctx.require('owe' not in st.ps[1] or 'pend' in st.ps[1] or 'counted' in st.ps[1], 'unsent:' + v, 'retained messages are queued for the client but not sent', F)
        if v == 'v3':
            ctx.require('sub' not in st.ps[1] or 'ret' in st.ps[1], 'none:v3', 'a new subscription gets no retained messages', F)
        elif 'sub' in st.ps[1]:
            due = r.k(st, 'avail') is True and g('shared') == '0' and (g('rh') == '0' or g('rh') == '1' and g('old') == '0')
            ctx.require('ret' in st.ps[1] or not due, 'none:v5', 'a new subscription that asks for retained messages gets none', F)
    r = PerItem(OQ + r'|::push$|::push_back$|::extend$|::append$', event, track, (), OQ, done=done, inner=inner, learn=see, labels=40, split=True)
    run(ctx, path, r, join_limit=40)
    for k in ('looks', 'messages', 'rounds', 'items', 'sent', 'queued sent'):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)


def b02(ctx):
    for v in ('v3', 'v5'):
        unsubscribe(ctx, v)


def unsubscribe(ctx, v):
    path = PKT[v] + 'handle_unsubscribe'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    S, PKTT = sym(names[0]), sym(names[1])

    def see(E, st, t, b, val):
        if t.op == 'discr' and any(x.op == 'pure' and x.a[0] == 'mapget' for x in walk(t)) and 'subscribes' in str(t):
            return 'was:%d' % b
        return None

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        if kind == 'call' and what == 'unsubscribe':
            r.count('unsubscribed')
            one(ctx, r, E, st, v, vals[1])
            ctx.require('unsub' not in st.ps[1], 'twice:' + v, 'a filter is unsubscribed twice', F)
            ctx.require(is_filter(vals[1], names) is not False, 'filter:' + v, 'another filter than that of the packet is unsubscribed', F)
            ctx.require(same_or_unknown(vals[2], fld(now_of(st, S), 'client_id'), fld(S, 'client_id')), 'client:' + v, 'a filter is unsubscribed for another client', F)
            return 'unsub'
        if kind == 'call' and what == 'remove' and 'subscribes' in str(vals[0]):
            r.count('removed')
            one(ctx, r, E, st, v, vals[1])
            ctx.require(is_filter(vals[1], names) is not False, 'session:filter:' + v, 'a session loses another filter than that of the packet', F)
            return 'rem'
        if kind == 'call' and what == 'push' and vals[1].op == 'agg' and str(vals[1].a[0]).endswith('UnsubscribeReasonCode'):
            r.count('codes')
            ctx.require(r.got(st, 'code') is None, 'code:twice', 'a filter is answered twice', F)
            return 'code:' + vals[1].a[2]
        if kind == 'call' and what == 'push' and v == 'v5' and vals[1].op in ('join', 'phi'):
            return 'code:?'
        if kind == 'return':
            rest(ctx, r, E, st, v)
            ok = [x for x in walk(vals[0]) if x.op == 'agg' and x.a[2] == 'Unsuback' or x.op == 'agg' and str(x.a[0]).endswith('Unsuback')]
            ctx.require(bool(ok) and any(y is fld(PKTT, 'pid') for x in ok for y in walk(x)) or not understood(vals[0]), 'unsuback:' + v, 'an UNSUBSCRIBE is not answered with its packet identifier', F)
            r.count('acks')
        return None

    def done(E, st):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        r.count('items')
        ctx.require('unsub' in st.ps[1] and 'rem' in st.ps[1], 'half:' + v, 'a filter is not unsubscribed, in the route table or in the session', F)
        if v == 'v5':
            c, was = r.got(st, 'code'), r.got(st, 'was')
            ctx.require(c is not None or not r.loops, 'code:none', 'a filter is not answered', F)
            if c == 'Success':
                ctx.require(was == '1', 'code:lie', 'a filter that was not subscribed is answered with success', F)
            elif c == 'NoSubscriptionExisted':
                ctx.require(was == '0', 'code:lie', 'a filter that was subscribed is answered as not subscribed', F)
            elif c not in (None, '?'):
                ctx.require(False, 'code:other', 'a filter is answered with %s' % c, F)
    r = PerItem(OQ + r'|::push$|' + SUBS, event, {}, (), OQ, done=done, learn=see)
    run(ctx, path, r, join_limit=48)
    for k in ('unsubscribed', 'removed', 'items', 'acks', 'later items') + (('codes',) if v == 'v5' and r.loops else ()):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)


RULES = {'B01': b01, 'B02': b02, 'B03': b03}
