"""Q06: what subscribers receive is what was published; Q07: who receives it"""
from _base import *
from qos import variant, packet, recorded
from pending import V3, V5

SUB = None
PB = re.compile(r'PendingPackets::<P>::')


def val3(E, st, t):
    """True/False/None for a boolean term on this path"""
    if t is TRUE or t is FALSE:
        return t is TRUE
    x = E.value(st, t)
    return None if x is None else x is TRUE


def known(E, st, m, k):
    """is the key in the map, as far as this path knows"""
    d = E.value(st, discr(mk('pure', 'mapget', m, k), 2))
    return None if d is None else d is Int(1)


def levels(E, st, ts, more=()):
    """all assignments of variant indexes 0..2 to the (distinct) terms consistent with the facts of the path"""
    import itertools
    ts = list(dict.fromkeys(ts))
    dom = []
    for t in ts:
        d = discr(t, 3)
        v = E.value(st, d)
        if v is not None:
            dom.append([v.a[0]])
        else:
            ex = {x.a[0] for x in st.excl.get(d, ()) if x.op == 'int'}
            dom.append([i for i in range(3) if i not in ex])
    out = []
    for c in itertools.product(*dom):
        a = dict(zip(ts, c))
        ok = True
        for f, b in list(st.facts.items()) + list(more):
            if f.op == 'cmp' and f.a[1] in a and f.a[2] in a:
                x, y = a[f.a[1]], a[f.a[2]]
                r = {'le': x <= y, 'lt': x < y, 'ge': x >= y, 'gt': x > y}.get(f.a[0])
                if r is not None and r != (b is TRUE):
                    ok = False
            elif f.op == 'eq' and f.a[0] in a and f.a[1] in a:
                if (a[f.a[0]] == a[f.a[1]]) != (b is TRUE):
                    ok = False
            elif f.op in ('eq0', 'lt0'):
                n, ks = terms.lin_of(f.a[0])
                if ks and all(k.op == 'discr' and k.a[0] in a for k in ks):
                    n += sum(c * a[k.a[0]] for k, c in ks.items())
                    if (n == 0 if f.op == 'eq0' else n < 0) != (b is TRUE):
                        ok = False
        if ok:
            out.append(a)
    return out


def bool_eval(t, a):
    if t in a:
        return a[t]
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == 'not':
        x = bool_eval(t.a[0], a)
        return None if x is None else not x
    if t.op in ('and', 'or'):
        xs = [bool_eval(x, a) for x in t.a]
        w = t.op == 'or'
        return w if w in xs else None if None in xs else not w
    return None


def worlds(E, st, atoms):
    """all truth assignments of the atoms consistent with the facts of the path"""
    import itertools
    atoms = list(dict.fromkeys(atoms))
    dom = []
    for t in atoms:
        x = val3(E, st, t)
        dom.append([x] if x is not None else [False, True])
    fs = [(f, b is TRUE) for f, b in st.facts.items() if f.op in ('and', 'or', 'not')]
    out = []
    for c in itertools.product(*dom):
        a = dict(zip(atoms, c))
        if all(bool_eval(f, a) in (None, b) for f, b in fs):
            out.append(a)
    return out


def level(q, a):
    if q in a:
        return a[q]
    if q.op == 'agg':
        return q.a[1]
    if q.op == 'pure' and q.a[0] == 'qosof':
        return a.get(q.a[1])
    return None


def check_min(ctx, E, st, q, x, y, key, what, F):
    """q is the lower of two QoS terms on this path"""
    n = 0
    for a in levels(E, st, [x, y]):
        v = level(q, a)
        if v is None:
            if understood(q) and q.op != 'pure':
                ctx.require(False, key, '%s with QoS %s' % (what, q), F)
            return 0
        n += 1
        ctx.require(v == min(a[x], a[y]), key, '%s with QoS %d although it was published with QoS %d and subscribed with QoS %d' % (what, v, a[x], a[y]), F)
    return n


def opt(v):
    """('None'|'Some', payload) of an option term"""
    if v.op == 'agg' and v.a[2] in ('None', 'Some'):
        return v.a[2], (v.a[3][0][1] if v.a[3] else None)
    return None, None


def same(ctx, t, want, key, what, F):
    ctx.require(t is want or not understood(t), key, '%s: %s instead of %s' % (what, str(t)[:100], want), F)


def q06(ctx):
    """recv_publish, handle_normal, handle_publish and send_publish of both protocols: provenance of every field of the message at every
    hand-over, on every path; the QoS by enumeration of the levels the path allows; every reason to drop a message."""
    for v in (V3, V5):
        receiver(ctx, v)
        normal(ctx, v.replace('packet::', 'message::handle_normal'), v)
        publisher(ctx, v)
        will(ctx, v)


def receiver(ctx, v):
    path = v + 'publish::recv_publish'
    if ctx.anchor(path) is None:
        return
    r = Spy(calls=re.compile(r'PendingPackets::<P>::push_back$'), opaque=re.compile(PB.pattern + r'|::get_or_assign|::empty_topic_name$'))
    pushes = {}
    E = run(ctx, path, PushState(r), join_limit=1500)
    rule = E.rule
    msg, ses = sym('msg'), sym('session')
    F = None
    cases = {}
    q, sq = fld(msg, 'qos'), fld(msg, 'subscribe_qos')
    for rv, st in rule.rets:
        F = facts_text(st)
        k, x = opt(rv)
        ps = st.ps or ()
        cases[k] = cases.get(k, 0) + 1
        subs = fld(ses, 'subscribes')
        if v == V3:
            ins = known(E, st, subs, fld(msg, 'subscribe_filter'))
        else:
            sid = fld(msg, 'subscription_ids')
            d = E.value(st, discr(sid, 2))
            ins = True if d is Int(1) else known(E, st, subs, fld(sid, 'Lookup.0')) if d is Int(0) else None
        ctx.require(len(ps) <= 1, 'queued-twice:' + v, 'a message is queued %d times' % len(ps), F)
        if k == 'None':
            ctx.require(not ps, 'queued-dropped:' + v, 'a message is queued and reported as dropped', F)
            off = any(val3(E, st, fld(ses, n)) is True for n in ('disconnected', 'client_disconnected', 'server_disconnected'))
            big = v == V5 and any(f.op == 'lt0' and depends(f, fld(ses, 'max_packet_size')) for f in st.facts)
            q0 = all(min(a.values()) == 0 for a in levels(E, st, [q, sq]))
            ctx.require(ins is False or big or off and q0, 'dropped:' + v, 'a message for a subscribed client is dropped', F)
            cases['unsubscribed'] = cases.get('unsubscribed', 0) + (ins is False)
            continue
        if k != 'Some':
            continue
        ctx.require(ins is True, 'unsubscribed:' + v, 'a message is delivered although the subscription is not known to exist', F)
        lq, pk = project(x, ('f', '', '0')), project(x, ('f', '', '1'))
        cases['min'] = cases.get('min', 0) + check_min(ctx, E, st, lq, q, sq, 'qos:' + v, 'a message is delivered', F)
        kk, pk = opt(pk)
        zero = [min(a.values()) == 0 for a in levels(E, st, [q, sq])]
        if kk == 'None':
            ctx.require(len(ps) == 1, 'lost:' + v, 'a message is neither sent nor queued', F)
            cases['queued'] = cases.get('queued', 0) + 1
            for pid, m in ps:
                if m.op != 'agg':
                    continue
                cases['min'] += check_min(ctx, E, st, fld(m, 'qos'), q, sq, 'qos:' + v, 'a message is queued', F)
                contents(ctx, E, st, m, msg, ses, v, 'queued', F)
        elif kk == 'Some':
            ctx.require(not ps, 'sent-and-queued:' + v, 'a message is sent and queued', F)
            cases['sent'] = cases.get('sent', 0) + 1
            while pk.op == 'agg' and pk.a[0].endswith('::Packet') and len(pk.a[3]) == 1:
                pk = pk.a[3][0][1]
            if pk.op == 'agg' and any(n == 'qos_pid' for n, _ in pk.a[3]):
                dup = fld(pk, 'dup')
                ctx.require(dup is FALSE or not understood(dup), 'dup:' + v, 'a QoS 0 message is sent with DUP', F)
                ctx.require(all(zero), 'qos0:' + v, 'a message is sent as QoS 0 although QoS %s was granted and published' % q, F)
                contents(ctx, E, st, pk, msg, ses, v, 'sent', F)
    for k in ('None', 'Some', 'queued', 'sent', 'unsubscribed', 'min'):
        ctx.floor('delivery outcomes %s %s' % (v, k), cases.get(k, 0), 1)


class PushState(Rule):
    """wraps a rule: st.ps counts what was queued on the path"""
    init = ()

    def __init__(self, r):
        self.rets = []
        self.opaque = r.opaque

    def pin(self, f):
        return True

    def on_return(self, E, st, v):
        self.rets.append((E.deep(st, v), st.copy()))

    def on_call(self, E, st, c):
        n = c.res or c.name
        if re.search(r'PendingPackets::<P>::push_back$', n):
            a = E.vals(st, c)
            st.ps = (st.ps or ()) + ((a[1], E.deep(st, a[2])),)
        return None


def contents(ctx, E, st, m, msg, ses, v, how, F):
    for n in ('retain', 'payload'):
        same(ctx, fld(m, n), fld(msg, n), '%s:%s' % (n, v), 'a message is %s with another %s' % (how, n), F)
    t = fld(m, 'topic_name')
    alias = None
    if v == V5:
        p = fld(m, 'properties')
        src = fld(msg, 'properties')
        d = E.value(st, discr(src, 2))
        b = base(p) if p.op == 'upd' else p
        w = upds(p) if p.op == 'upd' else {}
        if d is Int(1) and b is not fld(src, 'Some.0'):
            for n in PROPS5:
                x = fld(p, n)
                ctx.require(x is fld(src, 'Some.0.' + n) or not understood(x), 'properties:' + v,
                            'a message is %s with another %s: %s' % (how, n, str(x)[:100]), F)
            w = {}
        for kx in w:
            n = kx[-1][2] if isinstance(kx[-1], tuple) else kx[-1]
            ctx.require(n in ('subscription_ids', 'topic_alias'), 'property-changed:' + v, 'property %s of a message changes on delivery' % n, F)
        sid = fld(msg, 'subscription_ids')
        want = None
        got = fld(p, 'subscription_ids')
        d = E.value(st, discr(sid, 2))
        if d is Int(1):
            same(ctx, collected(got), fld(sid, 'Precomputed.0'), 'subscription-ids:' + v, 'a message is %s with other subscription identifiers' % how, F)
        elif d is Int(0):
            own = fld(mk('pure', 'mapget', fld(ses, 'subscribes'), fld(sid, 'Lookup.0')), 'Some.0.id')
            dd = E.value(st, discr(own, 2))
            ctx.require(depends(got, own) or dd is not None or not understood(got), 'subscription-id:' + v, 'a message is %s without the identifier of its subscription' % how, F)
        alias = fld(p, 'topic_alias')
    if t is not fld(msg, 'topic_name') and understood_topic(t):
        k, _ = opt(alias) if alias is not None else (None, None)
        ctx.require(k == 'Some', 'topic:' + v, 'a message is %s under another topic: %s' % (how, str(t)[:100]), F)
        ctx.require(how == 'sent', 'topic-queued:' + v, 'a message is queued without its topic', F)


PROPS5 = ('payload_is_utf8', 'message_expiry_interval', 'response_topic', 'correlation_data', 'user_properties', 'content_type')


def collected(t):
    """a sequence collected from all elements of another one is that one; parts of it are understood as different"""
    if t.op != 'pure' or t.a[0] != 'iter_collect':
        return t
    x = t.a[1]
    if x.op == 'agg' and x.a[0] == 'iter' and fld(x, 'pos') is Int(0):
        return fld(x, 'src')
    if x.op == 'agg' and x.a[0].startswith('iter') and x.a[2] in ('take', 'seq', 'rev') and understood(x):
        return mk('pure', 'split', x)
    return t


def understood_topic(t):
    return understood(t) or 'empty_topic_name' in str(t)


def normal(ctx, path, v):
    if ctx.anchor(path) is None:
        return
    r = Spy(calls=re.compile(r'::recv_publish$'), opaque=re.compile(r'::recv_publish$'))
    r.peel = lambda body, bb: 2 if 'handle_normal' in body.path else 0
    E = run(ctx, path, r, join_limit=1500)
    msg, ses = sym('msg'), sym('session')
    n = {}
    subs = fld(ses, 'subscribes')
    for nm, vals, st, span, c in r.seen:
        F = facts_text(st)
        m = E.deep(st, vals[1])
        d = E.value(st, discr(msg, 2))
        if d is None or m.op != 'agg':
            continue
        var = ('PublishV3', 'PublishV5')[d.a[0]]
        n[var] = n.get(var, 0) + 1
        for f in ('topic_name', 'qos', 'payload', 'subscribe_qos'):
            same(ctx, fld(m, f), fld(msg, var + '.' + f), 'field:%s:%s' % (f, v), 'a message is handed on with another %s (%s)' % (f, span), F)
        rt = fld(m, 'retain')
        if v == V3:
            same(ctx, rt, fld(msg, var + '.retain'), 'retain:' + v, 'a message is handed on with another retain flag (%s)' % span, F)
            f = fld(m, 'subscribe_filter')
            if var == 'PublishV3':
                same(ctx, f, fld(msg, 'PublishV3.subscribe_filter'), 'filter:' + v, 'a message is looked up under another filter', F)
            else:
                ctx.require(depends(f, fld(msg, 'PublishV5.subscribe_filters')), 'filter:' + v, 'a message is looked up under a filter it did not match: %s' % str(f)[:100], F)
                ctx.require(known(E, st, subs, f) is True, 'filter-unsubscribed:' + v,
                            'a message with several matched filters is dropped although one of them is still subscribed (%s)' % span, F)
            continue
        fs = fld(msg, var + '.properties') if var == 'PublishV5' else None
        pr = fld(m, 'properties')
        if fs is not None:
            k, x = opt(pr)
            ctx.require(k is None or k == 'Some' and (x is fs or not understood(x)), 'properties:' + v, 'a message is handed on with other properties: %s' % str(pr)[:100], F)
        el = fld(m, 'encode_len')
        src = fld(msg, var + '.encode_len')
        if var == 'PublishV3':
            flt = [fld(msg, 'PublishV3.subscribe_filter')]
        else:
            lst = fld(msg, 'PublishV5.subscribe_filters')
            flt = [project(lst, ('i', Int(i))) for i in range(3) if E.decide(st, lt(Int(i), length(lst))) is not False]
            if len(flt) > 2:
                flt = None
        check_retain(ctx, E, st, rt, msg, var, subs, flt, v, F)
        sid = fld(m, 'subscription_ids')
        if sid.op == 'agg' and sid.a[2] == 'Lookup':
            same(ctx, sid.a[3][0][1], fld(msg, 'PublishV3.subscribe_filter'), 'ids-lookup:' + v, 'subscription identifiers are looked up under another filter', F)
        elif sid.op == 'agg' and flt:
            got = sid.a[3][0][1]
            found = [f for f in flt if known(E, st, subs, f) is True]
            if var == 'PublishV5':
                ctx.require(found, 'nobody:' + v, 'a message is delivered although no matched filter is subscribed (%s)' % span, F)
            if any(x.op == 'phi' for x in walk(got)):
                continue
            for f in flt:
                own = fld(mk('pure', 'mapget', subs, f), 'Some.0.id')
                has = known(E, st, subs, f) is True and E.value(st, discr(own, 2)) is Int(1)
                idt = fld(own, 'Some.0')
                if has:
                    n['ids'] = n.get('ids', 0) + 1
                    dupl = any(g.op == 'pure' and g.a[0] == 'seqhas' and depends(g, idt) and b is TRUE for g, b in st.facts.items()) or \
                        any(g.op in ('eq', 'eq0') and depends(g, idt) and b is TRUE for g, b in st.facts.items())
                    ctx.require(depends(got, idt) or depends(got, own) or dupl or not understood_seq(got), 'id-lost:' + v,
                                'the identifier of a matched subscription is not delivered (%s)' % span, F)
                elif known(E, st, subs, f) is False or E.value(st, discr(own, 2)) is Int(0):
                    ctx.require(not depends(got, idt), 'id-invented:' + v, 'an identifier of no matched subscription is delivered (%s)' % span, F)
    for rv, st in r.rets:
        k, _ = opt(rv)
        if k != 'None' or E.value(st, discr(msg, 2)) is None:
            continue
        F = facts_text(st)
        if E.value(st, discr(msg, 2)) is Int(0):
            f = fld(msg, 'PublishV3.subscribe_filter')
            ctx.require(v == V3 or known(E, st, subs, f) is False, 'dropped-v3:' + v, 'a message is dropped although its filter is subscribed', F)
        else:
            lst = fld(msg, 'PublishV5.subscribe_filters')
            for i in (0, 1):
                f = project(lst, ('i', Int(i)))
                if E.decide(st, lt(Int(i), length(lst))) is not False and v == V5:
                    ctx.require(known(E, st, subs, f) is not True, 'dropped-v5:' + v, 'a message is dropped although a matched filter is subscribed', F)
    for k in ('PublishV3', 'PublishV5'):
        ctx.floor('messages handed on %s %s' % (v, k), n.get(k, 0), 1)


def understood_seq(t):
    return not any(x.op in OPAQUE for x in walk(t))


def check_retain(ctx, E, st, rt, msg, var, subs, flt, v, F):
    src = fld(msg, var + '.retain')
    if flt is None or not flt:
        return
    raps = [fld(mk('pure', 'mapget', subs, f), 'Some.0.options.retain_as_published') for f in flt if known(E, st, subs, f) is not False]
    av = fld(fld(sym('global'), 'config'), 'retain_available')
    for a in worlds(E, st, raps + [av, src]):
        got = bool_eval(rt, a)
        if got is None:
            continue
        want = a[src] and a[av] and any(a[x] for x in raps)
        ctx.counts['retain flags'] = ctx.counts.get('retain flags', 0) + 1
        if got and not want:
            ctx.require(False, 'retain-kept:' + v, 'a message keeps its retain flag although it was not set or no matched subscription asks for it (retain as published)', F)
        elif want and not got:
            ctx.require(False, 'retain-cleared:' + v, 'a message loses its retain flag although a matched subscription asks for it (retain as published)', F)


def publisher(ctx, v):
    """handle_publish hands on the packet it received"""
    path = v + 'publish::handle_publish'
    if ctx.anchor(path) is None:
        return

    class R(Collect):
        opaque = re.compile(r'::send_publish$|::build_error_disconnect$')
        hits = []

        def on_call(self, E, st, c):
            if (c.res or c.name).endswith('::send_publish'):
                self.hits.append((E.deep(st, E.vals(st, c)[1]), st.copy(), c.span))
    r = R()
    r.hits = []
    E = run(ctx, path, r)
    pk, ses = sym('packet'), sym('session')
    n = {'own': 0, 'alias': 0}
    for m, st, span in r.hits:
        F = facts_text(st)
        if m.op != 'agg':
            continue
        for f in ('retain', 'payload'):
            same(ctx, fld(m, f), fld(pk, f), 'publish-%s:%s' % (f, v), 'a PUBLISH is handed on with another %s (%s)' % (f, span), F)
        lv = fld(m, 'qos')
        for a in levels(E, st, [fld(pk, 'qos_pid')]):
            x = level(lv, a)
            if x is None:
                continue
            ctx.require(x == a[fld(pk, 'qos_pid')], 'publish-qos:' + v, 'a PUBLISH of QoS %d is handed on with QoS %s (%s)' % (a[fld(pk, 'qos_pid')], x, span), F)
            n['qos'] = n.get('qos', 0) + 1
        t = fld(m, 'topic_name')
        own = fld(pk, 'topic_name')
        if t is own:
            n['own'] += 1
            if v == V5:
                e = [b for f, b in st.facts.items() if f.op in ('eq0', 'lt0', 'is_empty') and depends(f, length(own)) or f.op == 'eq0' and depends(f, own)]
                ctx.require(E.decide(st, eq0(length(own))) is False or not understood(own), 'publish-empty-topic', 'a PUBLISH may be handed on with an empty topic (%s)' % span, F)
        elif v == V5:
            al = fld(fld(pk, 'properties'), 'topic_alias')
            want = fld(mk('pure', 'mapget', fld(ses, 'topic_aliases'), fld(al, 'Some.0')), 'Some.0')
            ok = t is want
            n['alias'] += ok
            ctx.require(ok or not understood_seq(t), 'publish-alias', 'a PUBLISH is handed on under the topic %s (%s)' % (str(t)[:100], span), F)
        else:
            ctx.require(not understood(t), 'publish-topic:' + v, 'a PUBLISH is handed on under the topic %s (%s)' % (str(t)[:100], span), F)
        if v == V5:
            p = fld(m, 'properties')
            b, w = (base(p), upds(p)) if p.op == 'upd' else (p, {})
            ctx.require(b is fld(pk, 'properties') or not understood(p), 'publish-properties', 'a PUBLISH is handed on with other properties: %s (%s)' % (str(p)[:100], span), F)
            for kx in w:
                nn = kx[-1][2] if isinstance(kx[-1], tuple) else kx[-1]
                ctx.require(nn == 'topic_alias', 'publish-property', 'property %s of a PUBLISH changes (%s)' % (nn, span), F)
            ta = fld(p, 'topic_alias')
            k = opt(ta)[0]
            ctx.require(k == 'None' or E.value(st, discr(ta, 2)) is Int(0) or not understood_seq(ta), 'publish-alias-leak', 'a topic alias of the publisher is handed on to subscribers (%s)' % span, F)
    ctx.floor('published messages ' + v, n['own'], 1)
    ctx.floor('known QoS ' + v, n.get('qos', 0), 1)
    if v == V5:
        ctx.floor('published by alias', n['alias'], 1)


def will(ctx, v):
    pass




# ---------------------------------------------------------------- Q07: routing

ITEMS = ('clients', 'groups')


def item_of(t):
    """(kind, content, item) if the term asks whether there is a next client or group of a matched filter"""
    if t.op != 'discr' or t.a[0].op != 'item':
        return None
    x = t.a[0]
    src = x.a[0]
    if src.op == 'pure' and src.a[0] == 'iter':
        src = src.a[1]
    if src.op == 'fld' and src.a[1][0] == 'f' and src.a[1][2] in ITEMS:
        return src.a[1][2], src.a[0], x
    return None


def index_of(content):
    for x in walk(content):
        if x.op == 'fld' and x.a[1][0] == 'i':
            return x.a[1][1]
    return None


class Route(Rule):
    """st.ps = (which item is being handled, what is known about it, how often registered, merge, collections of the current match looked at, phase)"""
    init = (None, frozenset(), 0, None, None, 1)
    opaque = re.compile(r'::get_matches$|RetainTable|::get_by_|::get_client_normal_sender$|::into_sink$')

    def __init__(self, ctx, v):
        self.ctx, self.v = ctx, v
        self.n = {}
        self.modes = set()

    def cnt(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def pin(self, f):
        return f.op == 'lt0' and any(matches_len(x) for x in terms.lin_of(f.a[0])[1])

    def drop(self, f):
        return re.search('broadcast_packets|shared_subscription|retain_table', str(f)) is not None

    def close(self, E, st):
        """the current item is finished"""
        cur, know, regs, merge, vis, ph = st.ps
        if cur is None:
            return
        ctx, v = self.ctx, self.v
        self.merged(E, st)
        F = facts_text(st)
        kind = cur[0]
        self.cnt(kind)
        if regs > 1:
            ctx.require(False, 'twice:' + v, 'a subscriber is registered several times for one matched filter', F)
        if kind == 'clients':
            if not regs:
                self.cnt('skipped')
                ctx.require('own' in know and ('unsubscribed' in know or 'no_local' in know), 'skipped:' + v,
                            'a subscribed client is skipped although it is neither the publisher with no-local nor unsubscribed', F)
            elif v == V5:
                ctx.require(not {'own', 'no_local'} <= know, 'echo:' + v, 'a publisher with a no-local subscription receives its own message', F)
                ctx.require('other' in know or 'local' in know or 'unsubscribed' in know, 'no-local-unchecked:' + v,
                            'a client is registered without looking whether it is the publisher with a no-local subscription', F)
        elif not regs:
            ctx.require(False, 'group-skipped:' + v, 'a shared subscription group receives nothing', F)

    def on_back(self, E, st, *a):
        self.merged(E, st)
        self.receiver_done(E, st)

    def receiver_done(self, E, st):
        if st.ps[5] != 1:
            self.cnt('receivers')
            self.ctx.require(st.ps[5] not in ('found', 'known', 'absent') and (st.ps[5] != 2 or st.ps[4] != 'receiving'), 'not-sent:' + self.v, 'a registered subscriber that is online is not sent the message', facts_text(st))
            st.ps = (None, frozenset(), 0, None, 'receiving', 2)

    def merged(self, E, st):
        """the registration of a subscriber found again has been updated"""
        cur, know, regs, merge, vis, ph = st.ps
        ctx, v, F = self.ctx, self.v, facts_text(st)
        st.ps = (cur, know, regs, None, vis, ph)
        if merge is not None:
            root, p, was, cq = merge
            now = E.load(st, root, p + (('f', '', '2'),))
            for a in levels(E, st, [was, cq], [x for x in know if isinstance(x, tuple)]):
                lv = level(now, a)
                if lv is None:
                    break
                self.cnt('merged')
                ctx.require(lv == max(a[was], a[cq]), 'merged-qos:' + v, 'a subscriber with several matched filters is registered with QoS %d instead of %d' % (lv, max(a[was], a[cq])), F)

    def close_match(self, E, st):
        cur, know, regs, merge, vis, ph = st.ps
        if vis is None or 'none' in vis:
            return
        for k in ITEMS if self.v == V5 else ITEMS[:1]:
            self.cnt('visited')
            self.ctx.require(k in vis, 'unvisited:%s:%s' % (k, self.v), 'the %s of a matched filter are not looked at' % k, facts_text(st))

    def on_assume(self, E, st, t, val):
        cur, know, regs, merge, vis, ph = st.ps
        yes = val is True or val is TRUE or val is Int(1)
        if ph != 1:
            if t.op == 'discr' and t.a[0].op == 'call' and str(t.a[0].a[0]).endswith('get_client_normal_sender'):
                st.ps = st.ps[:5] + ('found' if yes else 'gone',)
            elif t.op == 'discr' and t.a[0].op == 'pure' and t.a[0].a[0] == 'mapget' and 'broadcast_packets' in str(t):
                if ph == 2:
                    st.ps = st.ps[:5] + ('known' if yes else 'absent',)
                elif not yes and ph in ('known', 'found'):
                    # contradicts what was learned before: an artefact of joined states
                    st.ps = st.ps[:5] + ('gone',)
            return
        i = item_of(t)
        if i is None:
            if t.op == 'discr' and t.a[0].op == 'fld' and t.a[0].a[1][2] == 'topic_filter':
                self.close(E, st)
                self.close_match(E, st)
                st.ps = (None, frozenset(), 0, None, frozenset({nth(t)} if yes else {'none', nth(t)}), ph)
            elif cur is not None:
                k = self.learn(cur, t, val)
                if merge is not None and t.op in ('cmp', 'eq', 'eq0', 'lt0'):
                    k = (t, TRUE if yes else FALSE)
                if k:
                    st.ps = (cur, know | {k}, regs, merge, vis, ph)
            return
        self.close(E, st)
        st.ps = (i if yes else None, frozenset(), 0, None, (vis or frozenset()) | {i[0]}, ph)

    def learn(self, cur, t, val):
        yes = val is True or val is TRUE or val is Int(1)
        el = fld(cur[2], 'Some.0')
        if t.op in ('eq0', 'eq') and depends(t, fld(sym('session'), 'client_id')) and depends(t, el):
            return 'own' if yes else 'other'
        if t.op == 'fld' and t.a[1][2] == 'no_local':
            return 'no_local' if yes else 'local'
        if t.op == 'discr' and t.a[0].op == 'pure' and t.a[0].a[0] == 'mapget' and t.a[0].a[1] is fld(sym('session'), 'subscribes'):
            return 'subscribed' if yes else 'unsubscribed'
        return None

    def on_call(self, E, st, c):
        n = c.res or c.name
        cur, know, regs, merge, vis, ph = st.ps
        if n.endswith('::get_by_number') or n.endswith('::get_by_hash'):
            a = [E.deep(st, x) for x in E.vals(st, c)]
            m = E.value(st, discr(fld(fld(sym('global'), 'config'), 'shared_subscription_mode'), 3))
            self.cnt('picked')
            F = facts_text(st)
            if m is None:
                self.ctx.require(False, 'mode:' + self.v, 'the member of a shared group is chosen without looking at the configured mode (%s)' % c.span, F)
            else:
                self.modes.add(m.a[0])
                arg = a[1]
                if m is Int(0):
                    self.ctx.require(n.endswith('number') and 'random' in str(arg), 'mode-random:' + self.v, 'in random mode the member is chosen by %s (%s)' % (str(arg)[:60], c.span), F)
                else:
                    want = (None, fld(sym('session'), 'client_identifier'), fld(sym('msg'), 'topic_name'))[m.a[0]]
                    self.ctx.require(n.endswith('hash') and (arg is want or not understood(arg)), 'mode-hash:' + self.v,
                                     'in %s mode the member is chosen by %s (%s)' % (('', 'client hash', 'topic hash')[m.a[0]], str(arg)[:60], c.span), F)
            return None
        if re.search(r'::(push|push_back)$', n):
            vals = E.vals(st, c)
            x = E.deep(st, vals[1])
            if x.op == 'agg' and x.a[2] in ('PublishV3', 'PublishV5'):
                self.message(E, st, c, x, vals)
            elif ph == 1 and cur is not None:
                kind, content, it = cur
                el = fld(it, 'Some.0')
                if x.op == 'agg' and x.a[0] == '()':
                    self.registered(E, st, [y for _, y in x.a[3]], el, kind, content, c)
                    st.ps = (cur, know, regs + 1, merge, vis, ph)
                elif c.args[0].op == 'ptr' and (depends(x, fld(content, 'topic_filter')) or 'try_from' in str(x) or any(y.op == 'join' for y in leaves(x))):
                    root, p = E.target(c.args[0])
                    if p and p[-1][0] == 'f' and p[-1][2] == '1':
                        if kind == 'clients':
                            merge = (root, p[:-1], E.load(st, root, p[:-1] + (('f', '', '2'),)), fld(el, '1'))
                        st.ps = (cur, know, regs + 1, merge, vis, ph)
                elif c.args[0].op == 'join' and (depends(x, fld(content, 'topic_filter')) or 'try_from' in str(x)):
                    # added to the filters of one of several registered receivers
                    st.ps = (cur, know, max(regs, 1), merge, vis, ph)
        elif n.endswith('::get_client_normal_sender'):
            self.phase2(E, st)
        elif ph == 1 and re.search(r'::(extend|collect|for_each|fold|try_for_each)$', n):
            for x in E.vals(st, c):
                for y in walk(E.deep(st, x)):
                    if y.op == 'fld' and y.a[1][0] == 'f' and y.a[1][2] in ITEMS and y.a[1][2] not in (vis or ()):
                        # handled as a whole: nothing is claimed about the single items
                        vis = (vis or frozenset()) | {y.a[1][2]}
                        self.cnt(y.a[1][2])
            st.ps = (cur, know, regs, merge, vis, ph)
        return None

    def registered(self, E, st, parts, el, kind, content, c):
        F = facts_text(st)
        cid, cq = fld(el, '0'), fld(el, '1')
        flt = fld(content, 'topic_filter', 'Some.0')
        self.parts = getattr(self, 'parts', set()) | set(parts)

        def unknown(*but):
            return any(not understood(y) or any(z.op in ('join', 'phi') for z in leaves(y) - leaves(el)) for y in parts if not any(f(y) for f in but))
        is_cid, is_cq, is_flt = (lambda y: y is cid), (lambda y: y is cq), (lambda y: depends(y, flt))
        if kind == 'clients':
            self.ctx.require(any(y is cid for y in parts) or unknown(is_cq, is_flt), 'registered:' + self.v, 'another client than the subscriber is registered (%s)' % c.span, F)
            self.ctx.require(any(y is cq for y in parts) or unknown(is_cid, is_flt), 'granted:' + self.v, 'a subscriber is registered with another QoS than subscribed (%s)' % c.span, F)
            self.ctx.require(any(depends(y, flt) for y in parts) or unknown(is_cid, is_cq), 'filter:' + self.v,
                             'a subscriber is registered without the filter it matched (%s)' % c.span, F)
        else:
            picked = lambda y: self.picked(y, el)
            self.ctx.require(any(picked(y) for y in parts) or unknown(is_flt), 'registered-group:' + self.v, 'another client than the chosen member of the group is registered (%s)' % c.span, F)
            name = fld(el, '0')
            self.ctx.require(any(depends(y, name) for y in parts) or not any(depends(y, flt) for y in parts) and unknown(picked), 'filter-group:' + self.v,
                             'the member of a group is registered without the full filter of the shared subscription (%s)' % c.span, F)

    def picked(self, y, el):
        return y.op == 'fld' and any(z.op == 'call' and 'get_by_' in str(z.a[0]) for z in walk(y)) and depends(y, fld(el, '1'))

    def phase2(self, E, st):
        cur, know, regs, merge, vis, ph = st.ps
        if ph != 1:
            return
        self.close(E, st)
        self.close_match(E, st)
        F = facts_text(st)
        self.ctx.require(cur is None, 'early-end:' + self.v, 'the remaining subscribers of a matched filter are not looked at', F)
        ends = [(coef, bool_of(val)) for f, val in st.facts.items() if self.pin(f) for x, coef in terms.lin_of(f.a[0])[1].items() if matches_len(x)]
        if ends:
            self.cnt('exhausted')
            self.ctx.require(any((coef > 0) == yes for coef, yes in ends), 'early-match:' + self.v, 'the remaining matched filters are not looked at', F)
        st.ps = (None, frozenset(), 0, None, 'receiving', 2)

    def message(self, E, st, c, x, vals):
        """a NormalMessage is queued for a receiver"""
        ctx, v = self.ctx, self.v
        self.phase2(E, st)
        F = facts_text(st)
        self.cnt('messages')
        st.ps = st.ps[:5] + ('pushed',)
        msg = sym('msg')
        q = fld(x, x.a[2] + '.subscribe_qos')
        for n in ('retain', 'qos', 'topic_name', 'payload', 'encode_len') + (('properties',) if v == V5 else ()):
            y = fld(x, x.a[2] + '.' + n)
            ctx.require(y is fld(msg, n) or not understood(y) and y is not q, 'message-%s:%s' % (n, v), 'a subscriber is sent another %s: %s (%s)' % (n, str(y)[:100], c.span), F)
        ctx.require(x.a[2] == ('PublishV3' if v == V3 else 'PublishV5'), 'message-kind:' + v, 'a subscriber is sent a %s message' % x.a[2], F)
        q = fld(x, x.a[2] + '.subscribe_qos')
        f = fld(x, x.a[2] + ('.subscribe_filter' if v == V3 else '.subscribe_filters'))
        e = elem(q)
        if e is not None:
            ctx.require(elem(f) is e or not understood_seq(f), 'message-filter:' + v, 'a subscriber is sent the filter of another one (%s)' % c.span, F)
            tgt = E.target(c.args[0]) if c.args[0].op == 'ptr' else None
            own = E.deep(st, vals[0])
            keys = [y.a[2] for y in walk(own) if y.op == 'pure' and y.a[0] == 'mapget']
            if keys:
                ctx.require(any(k is fld(e, '0') for k in keys), 'message-receiver:' + v, 'a message is queued for another receiver (%s)' % c.span, F)
        else:
            ctx.require(not understood(q), 'message-granted:' + v, 'a subscriber is sent the message with QoS %s (%s)' % (str(q)[:80], c.span), F)

    def on_return(self, E, st, val):
        self.phase2(E, st)
        self.ctx.require(st.ps[5] == 2, 'early-receiver:' + self.v, 'the remaining registered subscribers are not sent the message', facts_text(st))
        self.cnt('paths')


def nth(content):
    """matches handled in the iterations followed exactly are kept apart from the others"""
    i = index_of(content)
    return i.a[0] if i is not None and i.op == 'int' else '*'


def matches_len(x):
    return x.op == 'len' and x.a[0].op == 'call' and str(x.a[0].a[0]).endswith('get_matches')


def bool_of(v):
    return v is True or v is TRUE or v is Int(1)


def elem(t):
    """the list element x of x.<n>"""
    if t.op == 'fld' and t.a[1][0] == 'f' and t.a[0].op == 'fld' and t.a[0].a[1][0] == 'i':
        return t.a[0]
    return None


def q07(ctx):
    """send_publish of both protocols as a typestate: every client of every matched filter is registered once with its QoS and filter, merged with the
    higher QoS, or is the publisher with no-local (or unsubscribed); every shared group picks one member by the configured mode; every registered receiver
    gets the message with its own filter and QoS"""
    for v in (V3, V5):
        path = v + 'publish::send_publish'
        if ctx.anchor(path) is None:
            continue
        r = Route(ctx, v)
        run(ctx, path, r, join_limit=40)
        for k in ('clients', 'visited', 'exhausted', 'messages', 'receivers', 'paths') + (('groups', 'merged', 'skipped', 'picked') if v == V5 else ()):
            ctx.floor('routing %s %s' % (k, v), r.n.get(k, 0), 1)
            ctx.counts['%s %s' % (k, v.split('::')[2])] = r.n.get(k, 0)
        if v == V5:
            ctx.floor('shared subscription modes', len(r.modes), 3)


RULES = {"Q06": q06, "Q07": q07}
