"""Q: transmission and retransmission of QoS 1/2 messages, message expiry, inbound QoS 2"""
from _base import *
from pending import PP, ST, NEW, REC, V3, V5, is_now, adt

PUSH = re.compile(r'Vec::<T, A>::push$')


def base_of(t, names):
    """the queue element x of a term x.New.<name> / x.Pubrec.<name> (path of names)"""
    for n in reversed(names):
        if t.op != 'fld' or t.a[1][0] != 'f' or t.a[1][2] != n:
            return None
        v = t.a[1][1]
        t = t.a[0]
    return (t, v)


def slot(t):
    """index of a queue element term"""
    return t.a[1][1] if t.op == 'fld' and t.a[1][0] == 'i' else None


class Resend(Spy):
    """typestate of one iteration of the resend loop: which entry was queued for sending, marked and expired"""
    init = frozenset()

    def __init__(self, ctx, v):
        Spy.__init__(self, calls=PUSH, opaque=re.compile(r'get_or_assign|clean_complete$|get_unix_ts$|PendingPackets::<P>::complete$'))
        self.ctx, self.v = ctx, v
        self.n = {'publish': 0, 'pubrel': 0, 'unknown': 0, 'iterations': 0}

    def on_write(self, E, st, root, path, val, span):
        fs = fields(path)
        if not fs or fs[-1] not in ('dup', 'last_sent'):
            if path == () or (path and path[-1][0] != 'f'):
                return
            return
        i = [k[1] for k in path if k[0] == 'i']
        i = i[-1] if i else None
        var = path[-1][1]
        if fs[-1] == 'dup':
            st.ps = (st.ps or frozenset()) | {('dup', i, val is TRUE)}
        else:
            st.ps = (st.ps or frozenset()) | {('sent', i, is_now(val) or any(x.op == 'call' and 'get_unix_ts' in str(x.a[0]) for x in walk(val)))}

    def on_call(self, E, st, c):
        if not PUSH.search(c.name) and not PUSH.search(c.res):
            return None
        vals = E.vals(st, c)
        x = E.deep(st, vals[1])
        while x.op == 'agg' and x.a[0].endswith('::Packet') and len(x.a[3]) == 1 and x.a[2] == 'Publish':
            x = x.a[3][0][1]
        ps = st.ps or frozenset()
        ctx, v = self.ctx, self.v
        if x.op == 'agg' and any(k == 'qos_pid' for k, _ in x.a[3]):
            st.ps = ps | {('push', self.publish(E, st, x, c.span))}
        elif x.op == 'agg' and x.a[2] == 'Pubrel' or x.op == 'agg' and x.a[0].endswith('::Pubrel'):
            if x.a[2] == 'Pubrel' and len(x.a[3]) == 1 and not any(k == 'pid' for k, _ in x.a[3]):
                y = x.a[3][0][1]
                y = fld(y, 'pid') if y.op == 'agg' else y
            else:
                y = fld(x, 'pid')
            b = base_of(y, ['pid'])
            self.n['pubrel'] += 1
            if b is None:
                ctx.require(not understood(y), 'pubrel-pid:' + v, 'PUBREL is sent with identifier %s at %s' % (y, c.span), facts_text(st))
            else:
                ctx.require(b[1] == 'Pubrec', 'pubrel-state:' + v, 'PUBREL is sent for an entry that was not received (%s)' % c.span, facts_text(st))
            st.ps = ps | {('rel', slot(b[0]) if b else None)}
        elif 'Pid' in str(c.tys[:1]):
            st.ps = ps | {('expired',)}
        else:
            ctx.require(not understood(x), 'sent:' + v, 'the resend loop sends %s at %s' % (str(x)[:200], c.span), facts_text(st))
            st.ps = ps | {('other',)}
        return None

    def publish(self, E, st, x, span):
        ctx, v = self.ctx, self.v
        self.n['publish'] += 1
        els = []
        for f in ('retain', 'payload'):
            t = fld(x, f)
            b = base_of(t.a[0], ['packet']) if t.op == 'fld' and t.a[1][2] == f else None
            if b is None:
                ctx.require(not understood(t), 'publish-%s:%s' % (f, v), 'a queued message is sent with %s = %s at %s' % (f, t, span), facts_text(st))
            else:
                els.append((f, b[0]))
        if not els:
            self.n['unknown'] += 1
            return None
        el = els[0][1]
        for f, e in els:
            ctx.require(e is el, 'publish-mix:%s:%s' % (f, v), 'fields of two queued messages are combined at %s' % span, facts_text(st))
        d, own = fld(x, 'dup'), fld(el, 'New.dup')
        ctx.require(d is own or E.value(st, own) is d or not (understood(d) or d.op == 'int') or el.op == 'join', 'publish-dup:' + v,
                    'a queued message is sent with dup = %s at %s' % (d, span), facts_text(st))
        q = fld(x, 'qos_pid')
        pk = fld(el, 'New.packet')
        if q.op == 'agg':
            k = q.a[1]
            d = E.value(st, discr(fld(pk, 'qos'), 3))
            if d is None and k:
                self.n['qos-unknown-%d' % k] = self.n.get('qos-unknown-%d' % k, 0) + 1
            elif k:
                self.n['qos-%d' % k] = self.n.get('qos-%d' % k, 0) + 1
            ctx.require(d is None or d.op == 'int' and d.a[0] == k, 'publish-qos:' + v, 'a queued message is sent with QoS %d although its own is %s (%s)' % (k, d, span), facts_text(st))
            if k:
                p = q.a[3][0][1]
                ctx.require(p is fld(el, 'New.pid') or not understood(p), 'publish-pid:' + v, 'a queued message is sent with packet identifier %s at %s' % (p, span), facts_text(st))
        t = fld(x, 'topic_name')
        if t is not fld(pk, 'topic_name'):
            # replaced by a topic alias
            al = fld(fld(x, 'properties'), 'topic_alias') if any(k == 'properties' for k, _ in x.a[3]) else None
            ok = al is not None and al.op == 'agg' and al.a[2] == 'Some' and 'EMPTY_TOPIC' in str(t)
            ctx.require(ok or not understood_loose(t, el), 'publish-topic:' + v, 'a queued message is sent with topic %s at %s' % (str(t)[:100], span), facts_text(st))
        if any(k == 'properties' for k, _ in x.a[3]):
            pr = fld(x, 'properties')
            changed = set()
            while pr.op == 'upd':
                changed.add(pr.a[1][2])
                pr = pr.a[0]
            if pr is not fld(pk, 'properties'):
                ctx.require(not understood(pr), 'publish-properties:' + v, 'a queued message is sent with properties %s at %s' % (str(pr)[:100], span), facts_text(st))
            extra = changed - {'message_expiry_interval', 'topic_alias'}
            ctx.require(not extra, 'publish-properties:' + v, 'properties %s of a queued message are changed before sending at %s' % (sorted(extra), span), facts_text(st))
            self.expiry(E, st, x, el, span)
        return slot(el)

    def expiry(self, E, st, x, el, span):
        pass

    def on_back(self, E, st, depth, bb):
        if depth == 0:
            self.flush(E, st)
            st.ps = frozenset()

    def on_return(self, E, st, v):
        Spy.on_return(self, E, st, v)
        self.flush(E, st)

    def flush(self, E, st):
        ps = st.ps or frozenset()
        ctx, v = self.ctx, self.v
        sent = {t[1]: t[2] for t in ps if t[0] == 'sent'}
        dup = {t[1]: t[2] for t in ps if t[0] == 'dup'}
        for t in ps:
            if t[0] in ('push', 'rel') and t[1] is not None:
                self.n['iterations'] += 1
                if None in sent or None in dup:
                    continue
                ctx.require(sent.get(t[1]) is True, 'mark-sent:%s:%s' % (t[0], v), 'a message is sent without noting the time of sending: it is sent again at once', facts_text(st))
                if t[0] == 'push':
                    ctx.require(dup.get(t[1]) is True, 'mark-dup:' + v, 'a message is sent without noting that a repetition must carry DUP', facts_text(st))


def understood_loose(t, *known):
    """like understood, but calls are allowed and the known values are not looked into"""
    return not any(x.op in OPAQUE for x in walk(t, set(known)))


def q03(ctx):
    """Both resend loops: typestate of every iteration (sent, marked as duplicate, time noted) and provenance of every field of
    the packet sent (same queue entry, its QoS, identifier and contents); reset_last_sent makes every entry due."""
    if not adt(ctx):
        return
    for v in (V3, V5):
        path = v + 'common::handle_pendings'
        if ctx.anchor(path) is None:
            continue
        r = Resend(ctx, v)
        run(ctx, path, r, join_limit=1500)
        ctx.floor('publish packets built in ' + v, r.n['publish'], 3)
        for k in (1, 2):
            ctx.floor('publish packets of known QoS %d in %s' % (k, v), r.n.get('qos-%d' % k, 0), 1)
        ctx.floor('pubrel packets built in ' + v, r.n['pubrel'], 1)
        ctx.floor('marked iterations in ' + v, r.n['iterations'], 3)
    path = PP + 'reset_last_sent'
    if ctx.anchor(path):
        seen = {NEW: 0, REC: 0}

        class R(Collect):
            init = frozenset()

            def on_write(self, E, st, root, p, val, span):
                fs = fields(p)
                if fs and fs[-1] == 'last_sent':
                    var = p[-1][1]
                    ctx.require(val is Int(0), 'reset-value', 'reset_last_sent stores %s at %s' % (val, span), facts_text(st))
                    seen[NEW if var == 'New' else REC] += 1
                elif p:
                    ctx.require('packets' not in fs or fs[-1] in ('packets',), 'reset-other', 'reset_last_sent writes %s' % '.'.join(fs))
        run(ctx, path, R())
        for k, nm in ((NEW, 'unacknowledged'), (REC, 'received')):
            ctx.require(seen[k] > 0, 'reset:%s' % nm, 'reset_last_sent does not make %s messages due again' % nm)


def q04(ctx):
    """v5 resend loop and expiry list: linear facts about now, added_at and the interval on every path"""
    path = V5 + 'common::handle_pendings'
    if ctx.anchor(path) is None:
        return

    class R(Resend):
        cnt = {'sent': 0, 'interval': 0, 'given-up': 0}

        def pin(self, f):
            return 'last_sent' in str(f) or 'added_at' in str(f)

        def expiry(self, E, st, x, el, span):
            val = fld(fld(x, 'properties'), 'message_expiry_interval')
            src = fld(fld(fld(el, 'New.packet'), 'properties'), 'message_expiry_interval')
            d = E.value(st, discr(src, 2))
            if d is None:
                return
            if d is Int(0):
                ctx.require(variant_of(E, st, val, 'Option', 2) in (0, None), 'interval-invented', 'a message without expiry is sent with one (%s)' % span, facts_text(st))
                return
            self.cnt['sent'] += 1
            iv = fld(src, 'Some.0')
            added, ls = fld(el, 'New.added_at'), fld(el, 'New.last_sent')
            # an expired message that was never sent is not sent
            passed = [f for f in st.facts if f.op == 'lt0' and depends(f, added)]
            never = E.decide(st, eq0(ls))
            if never is not False:
                ok = any(live(E, st, f, iv, added) for f in passed)
                ctx.require(ok, 'expired-sent', 'a message is sent for the first time although its expiry interval may have passed (%s)' % span, facts_text(st))
            if not understood_loose(val, iv, added, ls):
                return
            if val.op == 'agg' and val.a[2] == 'Some':
                t = val.a[3][0][1]
                self.cnt['interval'] += 1
                if t is Int(0):
                    ctx.require(any(f.op == 'lt0' and depends(f, iv) and depends(f, added) for f in st.facts), 'interval-zero',
                                'the expiry interval sent is 0 although time may remain (%s)' % span, facts_text(st))
                    return
                ctx.require(depends(t, iv) and depends(t, added), 'interval', 'the expiry interval sent is %s instead of the remaining time (%s)' % (t, span), facts_text(st))
                if depends(t, iv) and depends(t, added):
                    ctx.require(coef(t, iv) == 1 and t.op == 'lin' and sign_of(t, added) == 1, 'interval-remaining',
                                'the expiry interval sent is %s instead of interval minus elapsed time (%s)' % (t, span), facts_text(st))
            else:
                ctx.require(val.op not in ('agg',) and val is not src, 'interval-lost', 'the expiry interval of a message is sent as %s (%s)' % (val, span), facts_text(st))

        def on_call(self, E, st, c):
            if (PUSH.search(c.name) or PUSH.search(c.res)) and 'Pid' in str(c.tys[:1]):
                x = E.vals(st, c)[1]
                b = base_of(x, ['pid'])
                if b:
                    self.cnt['given-up'] += 1
                    el = b[0]
                    src = fld(fld(fld(el, 'New.packet'), 'properties'), 'message_expiry_interval')
                    added = fld(el, 'New.added_at')
                    iv = fld(src, 'Some.0')
                    ok = E.value(st, discr(src, 2)) is Int(1) and any(dead(E, st, f, iv, added) for f in st.facts if f.op == 'lt0')
                    ctx.require(ok, 'given-up-early', 'a message is given up although its expiry interval may not have passed (%s)' % c.span, facts_text(st))
                    ctx.require(E.decide(st, eq0(fld(el, 'New.last_sent'))) is True, 'given-up-sent', 'a message is given up after it was sent (%s)' % c.span, facts_text(st))
            return Resend.on_call(self, E, st, c)
    r = R(ctx, V5)
    run(ctx, path, r, join_limit=1500)
    ctx.floor('sent messages with an expiry interval', r.cnt['sent'], 1)
    ctx.floor('forwarded intervals', r.cnt['interval'], 1)
    ctx.floor('messages given up', r.cnt['given-up'], 1)


def coef(t, x):
    return terms.lin_of(t)[1].get(x, 0)


def sign_of(t, added):
    """+1 when t grows with added (t = interval - (now - added), possibly through a cast)"""
    if t.op != 'lin':
        return 0
    s = 0
    for y, c in terms.lin_of(t)[1].items():
        if y is added:
            s += c
        elif y.op == 'cast' or y.op == 'pure':
            for z in walk(y):
                if z.op == 'lin' and coef(z, added):
                    s += c * coef(z, added)
    return 1 if s == 1 else 0


def live(E, st, f, iv, added):
    """f states now - added_at < interval (passed < interval)"""
    v, k = st.facts[f], terms.lin_of(f.a[0])[0]
    c, a = wide(f, iv), wide(f, added)
    if v is TRUE:
        return c == -1 and a == -1 and k >= 0
    return c == 1 and a == 1 and k <= -1


def dead(E, st, f, iv, added):
    v, k = st.facts[f], terms.lin_of(f.a[0])[0]
    c, a = wide(f, iv), wide(f, added)
    if v is FALSE:
        return c == -1 and a == -1 and k <= 0
    return c == 1 and a == 1 and k >= -1


def wide(f, x):
    """coefficient of x (or a cast of it) in the linear term of an lt0 fact"""
    s = 0
    for y, c in terms.lin_of(f.a[0])[1].items():
        if y is x or (y.op == 'cast' and y.a[-1] is x):
            s += c
    return s



class Inbound(Collect):
    """number of times a message was handed on, with the identifier map at that time"""
    init = ()
    opaque = re.compile(r'::send_publish$|::build_error_disconnect$')

    def __init__(self, ctx, v):
        Collect.__init__(self)
        self.ctx, self.v = ctx, v
        self.hashed = []

    def pin(self, f):
        return True

    def on_call(self, E, st, c):
        n = c.res or c.name
        if n.endswith('::send_publish'):
            m = E.load(st, ('S', sym('session')), (('f', '', 'qos2_pids'),))
            a = [E.deep(st, x) for x in E.vals(st, c)]
            st.ps = (st.ps or ()) + ((m, a[1], c.span),)
            self.ctx.counts['forwarding sites'] = self.ctx.counts.get('forwarding sites', 0) + 1
        elif n.endswith('Hash>::hash') and 'Publish' in n:
            self.hashed.append((E.deep(st, E.vals(st, c)[0]), c.span))
        return None


def recorded(m, init, pid):
    """the map is the initial one with the identifier added, False: unchanged, None: unknown"""
    while m.op == 'fld' and m.a[0].op == 'mut' and ('send_publish' in str(m.a[0].a[0]) or 'build_error' in str(m.a[0].a[0])):
        return None
    if m is init:
        return False
    if m.op == 'mapupd' and m.a[1] is pid and m.a[2].op == 'agg' and m.a[2].a[2] == 'Some':
        return True
    return None


def variant(rv):
    """(Ok/Err, packet or None)"""
    if rv.op != 'agg':
        return None, None
    return rv.a[2], (rv.a[3][0][1] if rv.a[3] else None)


def answer(p):
    """(packet kind, pid, reason code) of Some(packet)"""
    if p is None or p.op != 'agg':
        return None, None, None
    if p.a[2] == 'None':
        return 'nothing', None, None
    x = p.a[3][0][1]
    return packet(x)


def packet(x):
    if x.op != 'agg':
        return None, None, None
    kind = x.a[2] if x.a[0].endswith('::Packet') else x.a[0].split('::')[-1]
    if x.a[0].endswith('::Packet') and len(x.a[3]) == 1:
        y = x.a[3][0][1]
        if y.op == 'agg' and any(k == 'pid' for k, _ in y.a[3]):
            x = y
        else:
            return kind, y, None
    if any(k == 'pid' for k, _ in x.a[3]):
        rc = fld(x, 'reason_code') if any(k == 'reason_code' for k, _ in x.a[3]) else None
        return kind, fld(x, 'pid'), rc
    return kind, None, None


def q05(ctx):
    """handle_publish of both protocols: on every path the number of times the message is handed on, the identifier map and the answer;
    handle_pubrel; every function that can change the identifier map (field-effect scan over all MIR)."""
    for v in (V3, V5):
        path = v + 'publish::handle_publish'
        if ctx.anchor(path) is None:
            continue
        r = Inbound(ctx, v)
        E = run(ctx, path, r)
        init = fld(sym('session'), 'qos2_pids')
        qp = fld(sym('packet'), 'qos_pid')
        cases = {}
        for rv, st in r.rets:
            sends = st.ps or ()
            d = E.value(st, discr(qp, 3))
            lvl = d.a[0] if d is not None and d.op == 'int' else None
            kind, pk = variant(rv)
            now = E.load(st, ('S', sym('session')), (('f', '', 'qos2_pids'),))
            F = facts_text(st)
            ctx.require(len(sends) <= 1, 'forwarded-twice:' + v, 'a PUBLISH is forwarded %d times on one path' % len(sends), F)
            if kind == 'Err':
                ctx.require(not sends, 'rejected-forwarded:' + v, 'a rejected PUBLISH is forwarded all the same', F)
                x = recorded(now, init, fld(qp, 'Level2.0'))
                ctx.require(x is not True, 'rejected-recorded:' + v, 'the identifier of a rejected PUBLISH is recorded as received', F)
                cases['rejected'] = cases.get('rejected', 0) + 1
                continue
            if kind != 'Ok':
                ctx.require(not understood(rv), 'outcome:' + v, 'handle_publish returns %s' % str(rv)[:100], F)
                continue
            a, pid, rc = answer(pk)
            if lvl is None:
                ctx.require(False, 'level:' + v, 'a PUBLISH is accepted without looking at its QoS', F)
                continue
            cases[lvl] = cases.get(lvl, 0) + 1
            if lvl == 0:
                ctx.require(len(sends) == 1, 'qos0-lost:' + v, 'an accepted QoS 0 PUBLISH is not forwarded', F)
                ctx.require(a in ('nothing', None), 'qos0-answer:' + v, 'a QoS 0 PUBLISH is answered with %s' % a, F)
            elif lvl == 1:
                ctx.require(len(sends) == 1, 'qos1-lost:' + v, 'an acknowledged QoS 1 PUBLISH is not forwarded', F)
                ctx.require(a in ('Puback', None) and (a is None or pid is fld(qp, 'Level1.0')), 'qos1-answer:' + v, 'a QoS 1 PUBLISH is answered with %s %s' % (a, pid), F)
            else:
                own = fld(qp, 'Level2.0')
                g = [f for f in st.facts if f.op == 'discr' and f.a[0].op == 'pure' and f.a[0].a[0] == 'mapget' and f.a[0].a[1] is init and f.a[0].a[2] is own]
                present = E.value(st, g[0]).a[0] if g else None
                ctx.require(present is not None, 'qos2-unchecked:' + v, 'a QoS 2 PUBLISH is answered without looking up its packet identifier', F)
                ctx.require(a in ('Pubrec', None) and (a is None or pid is own), 'qos2-answer:' + v, 'a QoS 2 PUBLISH is answered with %s %s' % (a, pid), F)
                if present == 0:
                    cases['new'] = cases.get('new', 0) + 1
                    ctx.require(len(sends) == 1, 'qos2-lost:' + v, 'an acknowledged QoS 2 PUBLISH with a new identifier is not forwarded', F)
                    rec = [recorded(sends[0][0], init, own)] if sends else []
                    rec.append(now.op == 'mapupd' and now.a[1] is own)
                    ctx.require(any(rec), 'qos2-unrecorded:' + v, 'the identifier of a forwarded QoS 2 PUBLISH is not recorded: a redelivery would be forwarded again', F)
                    if v == V5:
                        mx = [f for f, b in st.facts.items() if f.op == 'lt0' and depends(f, length(init)) and 'max_inflight_server' in str(f)]
                        lim = fld(fld(sym('global'), 'config'), 'max_inflight_server')
                        ctx.require(any(E.decide(st, lt(length(init), y)) is True for f in mx for y in walk(f) if 'max_inflight_server' in str(y) and y.op != 'lin'),
                                    'qos2-window', 'a QoS 2 PUBLISH is accepted beyond the receive maximum of the server', F)
                elif present == 1:
                    cases['known'] = cases.get('known', 0) + 1
                    ctx.require(not sends, 'qos2-twice:' + v, 'a QoS 2 PUBLISH whose identifier is in use is forwarded (again)', F)
                    x = recorded(now, init, own)
                    ctx.require(x is not None, 'qos2-record-lost:' + v, 'the recorded identifiers change although the identifier is known', F)
                    prev = fld(g[0].a[0], 'Some.0')
                    same = [b for f, b in st.facts.items() if f.op in ('eq', 'eq0') and depends(f, prev)]
                    if rc is None or rc.op == 'agg' and rc.a[2] == 'Success':
                        ctx.require(TRUE in same, 'qos2-swallowed:' + v, 'a QoS 2 PUBLISH that was not seen before is acknowledged without being forwarded because its identifier is in use', F)
                    if rc is not None and rc.op == 'agg':
                        if same and same[0] is TRUE:
                            ctx.require(rc.a[2] == 'Success', 'qos2-redelivery:' + v, 'a redelivered QoS 2 PUBLISH is answered with %s' % rc.a[2], F)
        for k in (0, 1, 2, 'rejected', 'new', 'known'):
            ctx.floor('PUBLISH outcomes %s %s' % (v, k), cases.get(k, 0), 1)
        for x, span in r.hashed:
            d = fld(x, 'dup')
            ctx.require(d.op == 'int', 'qos2-fingerprint:' + v, 'the recorded fingerprint of a QoS 2 message depends on its DUP flag (%s): a redelivery is taken for another message' % span)
        pubrel(ctx, v)
    for f in ('qos2_pids',):
        m = mutators(ctx, f)
        ctx.floor('functions changing the recorded identifiers', len(m), 6)
        bad = only_in(ctx, m, r'publish::handle_publish$|publish::handle_pubrel$|connect::(handle_connect|session_connect)(::|$)|::build_state$|session::Session::new$')
        for q in bad:
            ctx.require(False, 'record-changed:' + q, '%s changes the identifiers of received QoS 2 messages at %s' % (q, m[q]))


def pubrel(ctx, v):
    path = v + 'publish::handle_pubrel'
    if ctx.anchor(path) is None:
        return
    r = Collect()
    E = run(ctx, path, r)
    init = fld(sym('session'), 'qos2_pids')
    src = params(ctx, path, r'mqtt_proto::Pid$') or [fld(x, 'pid') for x in params(ctx, path, r'v5::Pubrel')]
    for rv, st in r.rets:
        kind, x = variant(rv)
        if kind in ('Ok', 'Err'):
            ctx.require(kind == 'Ok', 'pubrel-refused:' + v, 'a PUBREL is refused: a repeated one could never be answered', facts_text(st))
            if kind == 'Err':
                continue
            rv = x
            if rv.op == 'agg' and rv.a[2] == 'Some':
                rv = rv.a[3][0][1]
        k, pid, rc = packet(rv)
        F = facts_text(st)
        ctx.require(k in ('Pubcomp', None) and (k is None or pid in src), 'pubrel-answer:' + v, 'a PUBREL is answered with %s %s' % (k, pid), F)
        now = E.load(st, ('S', sym('session')), (('f', '', 'qos2_pids'),))
        gone = now.op == 'mapupd' and now.a[1] in src and now.a[2].op == 'agg' and now.a[2].a[2] == 'None'
        g = [f for f in st.facts if f.op == 'discr' and f.a[0].op == 'pure' and f.a[0].a[0] == 'mapget' and f.a[0].a[2] in src]
        present = E.value(st, g[0]).a[0] if g else None
        if present != 0:
            ctx.require(gone or not understood_map(now), 'pubrel-kept:' + v, 'a released identifier stays recorded: the next message with it is dropped (%s)' % str(now)[:120], F)
        if rc is not None and rc.op == 'agg' and present is not None:
            ctx.require((rc.a[2] == 'Success') == (present == 1), 'pubrel-reason:' + v, 'a PUBREL is answered with %s although the identifier was %s' % (rc.a[2], ('unknown', 'known')[present]), F)
    ctx.floor('PUBREL outcomes ' + v, len(r.rets), 1)


def understood_map(t):
    return not any(x.op in OPAQUE for x in walk(t))


RULES = {'Q03': q03, 'Q04': q04, 'Q05': q05}
