"""Q: the queue of outgoing QoS 1/2 messages"""
from _base import *

M = 'protocols::mqtt::pending::'
PP = M + 'PendingPackets::<P>::'
ST = M + 'PendingPacketStatus'
NEW, REC, DONE = 0, 1, 2
V3, V5 = 'protocols::mqtt::v3::packet::', 'protocols::mqtt::v5::packet::'


def elem_path(path):
    """(path of the queue element, rest) for a write below the packets field"""
    for i, k in enumerate(path):
        if k[0] == 'f' and k[2] == 'packets' and i + 1 < len(path) and path[i + 1][0] == 'i':
            return path[:i + 2], path[i + 2:]
    return None, None


def queue_writes(ctx, path, **kw):
    r = Spy(**kw)
    r.watch = lambda root, p: 'packets' in fields(p)
    E = run(ctx, path, r)
    return E, r


def adt(ctx):
    a = ctx.P.adts.get(ST)
    names = [v['name'] for v in a['variants']] if a else []
    if names != ['New', 'Pubrec', 'Complete']:
        ctx.violation('anchor:' + ST, 'the delivery states are %s; the rule knows New, Pubrec, Complete' % names)
        return False
    return True


def pid_matches(E, st, el, var, pids):
    p = fld(el, var + '.pid')
    return any(E.decide(st, E.eqv(p, x)) is True for x in pids)


def q01(ctx):
    """Every write to an element of PendingPackets.packets (all functions of the pending module and the two resend
    loops) is classified: a message becomes received only from unreceived under an equal packet identifier, complete
    only from unreceived (PUBACK) or received (PUBCOMP) under an equal identifier, and only complete entries leave."""
    if not adt(ctx):
        return
    n = {'complete-writes': 0, 'received-writes': 0, 'element-writes': 0, 'removals': 0}
    fns = [p for p in module_fns(ctx, M) if ctx.P.body(p).argc and p.startswith(PP)]
    ctx.floor('queue functions', len(fns), 5)
    for path in fns + [V3 + 'common::handle_pendings', V5 + 'common::handle_pendings']:
        if ctx.anchor(path) is None:
            continue
        ext = not path.startswith(PP)
        pids = params(ctx, path, r'mqtt_proto::Pid$')
        qos = params(ctx, path, r'mqtt_proto::QoS$')
        kw = {}
        if ext:
            kw['opaque'] = re.compile(re.escape(PP) + r'(complete|pubrec|push_back)$')
            kw['calls'] = kw['opaque']
        E, r = queue_writes(ctx, path, **kw)
        name = short(path)
        for fn, root, wp, val, st, span in r.writes:
            ep, rest = elem_path(wp)
            if ep is None:
                classify_container(ctx, E, r, path, fn, root, wp, val, st, span, n)
                continue
            n['element-writes'] += 1
            el = E.load(st, root, ep)
            fs = fields(rest)
            where = '%s writes %s at %s' % (name, '.'.join(fs) or 'an entry', span)
            if rest:
                f = fs[-1]
                if f == 'dup':
                    ctx.require(val is TRUE, 'field:%s:dup' % name, '%s: the DUP flag of a queued message is reset' % where, facts_text(st))
                elif f in ('last_sent', 'added_at'):
                    pass
                elif f in ('pid', 'packet') or 'packet' in fs:
                    ctx.require(val is E.load(st, root, wp), 'field:%s:%s' % (name, f), '%s: the identifier or contents of a queued message change' % where, facts_text(st))
                continue
            if val.op != 'agg' or val.a[0] != ST:
                if E.deep(st, val) is el or val is el:
                    continue
                ctx.require(not understood(val), 'entry:%s' % name, '%s with %s' % (where, str(val)[:200]), facts_text(st))
                continue
            old = variant_of(E, st, el, ST, 3)
            new = val.a[1]
            if new == old and new == REC:
                continue
            if new == REC:
                n['received-writes'] += 1
                ctx.require(old == NEW, 'received-from:%s' % name, '%s: marked received although not known to be waiting for PUBREC' % where, facts_text(st))
                ctx.require(old != NEW or pid_matches(E, st, el, 'New', pids), 'received-pid:%s' % name,
                            '%s: marked received without its packet identifier being the acknowledged one' % where, facts_text(st))
                ctx.require(any(fld(val, 'Pubrec.pid') is x for x in pids + [fld(el, 'New.pid')]), 'received-keeps-pid:%s' % name,
                            '%s: the entry continues under another packet identifier' % where, facts_text(st))
            elif new == DONE:
                n['complete-writes'] += 1
                ok = old in (NEW, REC)
                ctx.require(ok, 'complete-from:%s' % name, '%s: completed in an unknown delivery state' % where, facts_text(st))
                if ok:
                    ctx.require(pid_matches(E, st, el, ('New', 'Pubrec')[old], pids), 'complete-pid:%s' % name,
                                '%s: completed without its packet identifier being the acknowledged one' % where, facts_text(st))
                    want = 1 if old == NEW else 2
                    ctx.require(any(is_q(E, st, q, want) for q in qos), 'complete-level:%s' % name,
                                '%s: an entry %s is completed by the wrong acknowledgement' % (where, ('waiting for PUBACK/PUBREC', 'waiting for PUBCOMP')[old]), facts_text(st))
            else:
                ctx.require(False, 'entry:%s' % name, '%s: turned back into an undelivered message' % where, facts_text(st))
        for fn, root, p, val, st, span in r.rejects:
            n['removals'] += 1
            ctx.require(variant_of(E, st, val, ST, 3) == DONE, 'remove:%s' % name, '%s removes an entry that is not complete (%s)' % (name, span), facts_text(st))
        if ext:
            for nm, vals, st, span, c in r.seen:
                # the resend loop may give up on a message by itself only before it was ever sent
                ctx.require(nm.endswith('complete'), 'resend-calls:%s' % path, '%s calls %s' % (path, nm))
    ctx.floor('transitions to complete', n['complete-writes'], 2)
    ctx.floor('transitions to received', n['received-writes'], 1)
    ctx.floor('removals', n['removals'], 1)
    ctx.counts.update(n)
    handlers(ctx)
    expiry(ctx)


def is_q(E, st, q, want):
    d = q if q.op == 'int' else discr(q, 3)
    x = E.value(st, d)
    return x is not None and x.op == 'int' and x.a[0] == want


def classify_container(ctx, E, r, path, fn, root, wp, val, st, span, n):
    name = short(path)
    i = [j for j, k in enumerate(wp) if k[0] == 'f' and k[2] == 'packets'][0]
    if i != len(wp) - 1:
        return
    old = E.load(st, root, wp)
    where = '%s at %s' % (name, span)
    if val.op == 'cat':
        parts = list(val.a)
        if parts[0] is old and len(parts) == 2 and parts[1].op == 'agg' and len(parts[1].a[3]) == 1:
            x = parts[1].a[3][0][1]
            pids = params(ctx, path, r'mqtt_proto::Pid$')
            pk = params(ctx, path, r'^P$')
            ctx.require(x.op == 'agg' and x.a[1] == NEW, 'push-state', '%s: a message is queued as already acknowledged' % where)
            if x.op == 'agg' and x.a[1] == NEW:
                ctx.require(fld(x, 'New.pid') in pids, 'push-pid', '%s: queued under another packet identifier: %s' % (where, fld(x, 'New.pid')))
                ctx.require(fld(x, 'New.packet') in pk, 'push-packet', '%s: another message is queued' % where)
                ctx.require(fld(x, 'New.dup') is FALSE, 'push-dup', '%s: the first transmission would carry DUP' % where)
                n['pushes'] = n.get('pushes', 0) + 1
            return
        ctx.require(not understood(val), 'queue:%s' % name, '%s: the queue is rebuilt as %s' % (where, str(val)[:200]))
        return
    if val.op == 'fld' and val.a[0] is old and val.a[1][0] == 's':
        lo, hi = val.a[1][1], val.a[1][2]
        ln = length(old)
        if lo is Int(1) and (hi is None or hi is ln):
            n['removals'] += 1
            el = project(old, ('i', Int(0)))
            el2 = st.mem.get(('S', el), el)
            ctx.require(variant_of(E, st, el2, ST, 3) == DONE, 'remove:%s' % name, '%s removes the first entry although it is not complete' % where, facts_text(st))
            return
        ctx.require(False, 'remove:%s' % name, '%s removes entries %s' % (where, val.a[1]), facts_text(st))
        return
    if val.op == 'mut' and 'retain' in str(val.a[0]):
        return
    if val is old or E.deep(st, val) is old:
        return
    if val.op == 'mut':
        ctx.require(False, 'queue:%s:%s' % (name, str(val.a[0])[-30:]), '%s: the queue is changed by %s, which the rule does not know' % (where, val.a[0]))
        return
    if val.op in ('lit', 'static'):
        ctx.require(False, 'queue:%s:clear' % name, '%s: the queue is emptied' % where)


def handlers(ctx):
    """who calls the queue with what"""
    spec = [('handle_puback', 'complete', 1), ('handle_pubrec', 'pubrec', None), ('handle_pubcomp', 'complete', 2)]
    for v in (V3, V5):
        for h, m, lvl in spec:
            path = v + 'publish::' + h
            if ctx.anchor(path) is None:
                continue
            r = Spy(opaque=re.compile(re.escape(PP)), calls=re.compile(re.escape(PP) + r'(complete|pubrec|push_back)$'))
            E = run(ctx, path, r)
            src = params(ctx, path, r'mqtt_proto::Pid$') or [project(x, ('f', '', 'pid')) for x in params(ctx, path, r'v5::\w*(Puback|Pubrec|Pubcomp)')]
            ctx.require(bool(src), 'ack-source:' + path, '%s has no acknowledged packet identifier' % path)
            for nm, vals, st, span, c in r.seen:
                ctx.require(nm.endswith('::' + m), 'ack-call:%s:%s' % (v, h), '%s calls %s at %s' % (path, short(nm), span))
                ctx.require(vals[1] in src, 'ack-pid:%s:%s' % (v, h), '%s passes %s instead of the acknowledged identifier at %s' % (path, vals[1], span))
                if lvl and nm.endswith('complete'):
                    q = vals[2]
                    ctx.require(q.op == 'agg' and q.a[1] == lvl, 'ack-level:%s:%s' % (v, h), '%s completes at level %s (%s)' % (path, q, span))
                ctx.require(isfield(vals[0], 'pending_packets'), 'ack-queue:%s:%s' % (v, h), '%s acknowledges in %s' % (path, vals[0]))
            ctx.require(len(r.seen) >= 1, 'ack-ignored:%s:%s' % (v, h), '%s never updates the queue' % path)
            # every return went through the call: the queue of the returned state changed
            for rv, st in r.rets:
                q = fld(E.load(st, ('S', sym(ctx.P.body(path).locals[1][1])), ()), 'pending_packets')
                ctx.require(q.op == 'mut', 'ack-skipped:%s:%s' % (v, h), '%s returns without updating the queue' % path, facts_text(st))


def isfield(t, name):
    return (t.op == 'fld' and t.a[1][0] == 'f' and t.a[1][2] == name) or (t.op in ('phi', 'mut', 'stale'))


def expiry(ctx):
    """v5: an expired message may be given up only while it has not been sent"""
    path = V5 + 'common::handle_pendings'
    n = 0

    class R(Spy):
        def on_call(self, E, st, c):
            if 'Vec' in c.name and c.name.endswith('::push') and c.tys and 'Pid' in c.tys[0]:
                self.seen.append((c.name, E.vals(st, c), st.copy(), c.span, c))
            return Spy.on_call(self, E, st, c)
    r = R(opaque=re.compile(re.escape(PP) + r'complete$|get_or_assign'), calls=re.compile(re.escape(PP) + r'complete$'))
    E = run(ctx, path, r)
    for nm, vals, st, span, c in r.seen:
        if not nm.endswith('push'):
            continue
        n += 1
        x = vals[1]
        ok = x.op == 'fld' and x.a[1][2] == 'pid'
        if ok:
            el = x.a[0]
            ls = fld(el, 'New.last_sent')
            ctx.require(E.decide(st, eq0(ls)) is True, 'expired-sent', '%s gives up on a message that was already sent (%s)' % (path, span), facts_text(st))
    ctx.counts['expired-messages'] = n



def q02(ctx):
    """get_ready_packet, push_back and every function of the module: the entry handed out for sending lies in the window
    min(max_inflight, len) at or after the requested index and is not complete; an entry is appended only below
    max_packets; QoS 1/2 PUBLISH packets are built only by the resend loops; no index or unwrap in the module can fail."""
    if not adt(ctx):
        return
    n = 0
    path = PP + 'get_ready_packet'
    if ctx.anchor(path):
        r = Collect()
        r.obligations = True
        E = run(ctx, path, r)
        start = params(ctx, path, r'^usize$')[0]
        q = fld(sym('self'), 'packets')
        mx = fld(sym('self'), 'max_inflight')
        ctx.require(any(v.op == 'agg' and v.a[2] == 'None' for v, _ in r.rets), 'none-ready', 'get_ready_packet never says that nothing is ready')
        for v, st in r.rets:
            if v.op == 'agg' and v.a[2] == 'None':
                continue
            t = fld(v, 'Some.0')
            i, el = fld(t, '0'), fld(t, '1')
            n += 1
            ctx.require(E.decide(st, lt(i, mx)) is True, 'window', 'get_ready_packet hands out an entry beyond max_inflight: %s' % i, facts_text(st))
            ctx.require(E.decide(st, lt(i, start)) is False, 'start', 'get_ready_packet hands out an entry before the requested index: %s' % i, facts_text(st))
            raw = [x for x in walk(el) if x.op == 'fld' and x.a[1][0] == 'i']
            src = raw[0] if raw else el
            var = variant_of(E, st, src, ST, 3)
            if src.op == 'fld' and src.a[1][0] == 'i':
                ctx.require(src.a[1][1] is i, 'index', 'get_ready_packet hands out entry %s under index %s' % (src.a[1][1], i), facts_text(st))
                if var is None and src.a[0] is q:
                    var = variant_of(E, st, project(q, ('i', i)), ST, 3)
            ctx.require(var in (NEW, REC), 'complete-sent', 'get_ready_packet can hand out a complete entry', facts_text(st))
            if var in (NEW, REC):
                ls = fld(src, ('New', 'Pubrec')[var] + '.last_sent')
                to = fld(sym('self'), 'timeout')
                due = [f for f, b in st.facts.items() if f.op == 'lt0' and depends(f, to) and depends(f, ls)]
                ok = any(E.decide(st, lt(x, add(to, ls))) is False for f in due for x in walk(f) if x not in (to, ls) and depends(x, x) and is_now(x))
                ctx.require(ok, 'timeout', 'get_ready_packet hands out an entry whose acknowledgement timeout has not passed', facts_text(st))
        for k, sp, fn, st in r.panics:
            if 'get_unix_ts' in fn:
                continue
            ctx.require(False, 'panic:%s' % fn, 'get_ready_packet can panic at %s (%s)' % (sp, k), facts_text(st))
    ctx.floor('ready outcomes', n, 2)
    pushes = 0
    for path in [p for p in module_fns(ctx, PP) if ctx.P.body(p).argc]:
        r = Spy(obligations=True)
        r.watch = lambda root, p: 'packets' in fields(p) or 'max_packets' in fields(p)
        E = run(ctx, path, r)
        for (sp, kind, fn), (cnt, bad, ex) in r.obl.items():
            if kind.startswith('overflow'):
                continue        # second counters of the clock
            ctx.require(not bad, 'bounds:%s:%s' % (fn, kind), '%s: %s at %s is not ruled out: %s' % (path, kind, sp, ex and ex[0]), ex and ex[1])
        for k, sp, fn, st in r.panics:
            if 'get_unix_ts' not in fn:
                ctx.require(False, 'panic:%s' % fn, '%s can panic at %s (%s)' % (path, sp, k), facts_text(st))
        for fn, root, wp, val, st, span in r.writes:
            old = E.load(st, root, wp)
            if 'packets' in fields(wp)[-1:] and val.op == 'cat' and old in val.a:
                pushes += 1
                mxp = fld(sym('self'), 'max_packets')
                ctx.require(E.decide(st, lt(length(old), mxp)) is True, 'full', '%s appends to a queue that may already hold max_packets entries (%s)' % (path, span), facts_text(st))
    ctx.floor('appends', pushes, 1)
    builders(ctx)
    inflight(ctx)


def is_now(x):
    return any(y.op in ('call', 'pure') and ('now' in str(y.a[0]) or 'unix_ts' in str(y.a[0]) or 'as_secs' in str(y.a[0])) for y in walk(x)) and x.op != 'lin'


def builders(ctx):
    """what recv_publish hands over for immediate sending is QoS 0; everything else is left to the resend loop"""
    n = 0
    for v in (V3, V5):
        path = v + 'publish::recv_publish'
        if ctx.anchor(path) is None:
            continue
        r = Collect(opaque=re.compile(re.escape(PP) + '|get_or_assign'))
        E = run(ctx, path, r)
        for rv, st in r.rets:
            for x in walk(rv):
                if x.op == 'agg' and x.a[0].endswith('::Publish') and any(k == 'qos_pid' for k, _ in x.a[3]):
                    n += 1
                    q = fld(x, 'qos_pid')
                    ctx.require(not understood(q) or (q.op == 'agg' and q.a[1] == 0), 'qos-publish:' + v, '%s sends a message as %s without queueing it' % (path, q), facts_text(st))
    ctx.floor('messages sent without queueing', n, 2)


def inflight(ctx):
    """v5: the window of the queue is the receive maximum taken at CONNECT"""
    p = V5 + 'connect::session_connect::{closure#0}'
    hits = []
    for q, b in ctx.P.bodies.items():
        for bb in b['blocks']:
            t = bb['t']
            if t[0] == 'call' and t[1][0] == 'fn' and (t[1][2] or t[1][1]).endswith('PendingPackets::<P>::set_max_inflight'):
                hits.append((q, bb['sp']))
    ctx.floor('set_max_inflight calls', len(hits), 1)


RULES = {'Q01': q01, 'Q02': q02}
