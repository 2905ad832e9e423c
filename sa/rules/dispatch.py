"""D01 what is done with each packet, H01 hooks: when they are asked and what their verdict does"""
from _base import *
from subscribe import called, PKT
from session_end import is_int, local_of
import coll
import terms

MSG = 'protocols::mqtt::%s::message::'
HANDLE = MSG + '<impl protocols::mqtt::online_loop::OnlineSession for protocols::mqtt::%s::session::Session>::handle_packet'
HANDLERS = r'packet::\w+::handle_(disconnect|publish|puback|pubrec|pubrel|pubcomp|subscribe|unsubscribe)$'
PUSH = r'::push_back$|::push_front$|::extend$|::append$|::push$'
OQ = HANDLERS + r'|build_error_disconnect$|LockedHookContext.*::(new|get_mut|session_ref)$|Hook::v[35]_|HookSubscribeCode::to|HookPublishCode::to|HookUnsubscribeCode::to|HookConnectCode::to'


def zero(t, v):
    """(x, n): this assumption tells that the variant of x is n (0, or 1 for one that is not the first)"""
    b = v is True or v is TRUE
    n = v.a[0] if hasattr(v, 'op') and v.op == 'int' else v if isinstance(v, int) and not isinstance(v, bool) else None
    if t.op == 'discr' and n is not None:
        return t.a[0], n
    if t.op == 'eqc' and t.a[0].op == 'discr' and is_int(t.a[1], 0):
        return t.a[0].a[0], 0 if b else 'x'
    if t.op == 'eq0' and t.a[0].op == 'discr':
        return t.a[0].a[0], 0 if b else 'x'
    return None, None


class Labels(Flow):
    """the history is a set of labels key:value, one for each key"""
    def __init__(self, *a, learn=None, **kw):
        super().__init__(*a, **kw)
        self.see = learn
        self.loops = 0

    def add(self, st, label):
        if label is not None and label not in st.ps[1]:
            k = label.split(':')[0] + ':'
            st.ps = (st.ps[0], tuple(sorted([x for x in st.ps[1] if not (':' in label and x.startswith(k))] + [label])))

    def got(self, st, k):
        return next((x.split(':', 1)[1] for x in st.ps[1] if x.startswith(k + ':')), None)

    def on_loop(self, E, st, depth, bb):
        self.loops += 1
        self.add(st, 'looped')

    def on_assume(self, E, st, t, v):
        x, n = zero(t, v)
        if x is not None:
            self.add(st, self.see(E, st, x, n))
        return super().on_assume(E, st, t, v)


def origin(x, name):
    """how a value comes from a result of the call: ok, err, or None"""
    if not any(called(y, name) for y in walk(x)):
        return None
    return 'err' if any(y.op == 'fld' and y.a[1][:2] == ('f', 'Err') and called(y.a[0], name) for y in walk(x)) else 'ok'


def result_of(x, n, names):
    """labels for what is known of the result of a handler"""
    for nm in names:
        if called(x, nm):
            return 'r:%s' % n
        if x.op == 'fld' and x.a[1][:2] == ('f', 'Ok') and called(x.a[0], nm):
            return 'o:%s' % n
    return None


def upper(name):
    return name[len('handle_'):].capitalize()


ANSWER = {'disconnect': {'v5': 'result', 'v3': None}, 'publish': 'option', 'puback': None, 'pubcomp': None, 'pubrec': 'one', 'pubrel': 'one',
          'subscribe': 'list', 'unsubscribe': 'one'}
NAMES = ['handle_' + x for x in ANSWER]


def d01(ctx):
    for v in ('v3', 'v5'):
        dispatch(ctx, v)


def answered(ctx, r, st, v, name, F, key):
    """the answer of a handler is sent, once"""
    g = lambda k: r.got(st, k)
    how = ANSWER[name]
    if isinstance(how, dict):
        how = how[v]
    oks, errs = g('ok'), g('err')
    if how is None:
        ctx.require(oks is None and errs is None, '%s:answer:%s:%s' % (key, v, name), 'an answer to %s is made up' % name.upper(), F)
        return
    if how == 'one':
        ctx.require(oks == '1', '%s:answer:%s:%s' % (key, v, name), '%s is not answered once' % name.upper(), F)
        return
    if g('r') == '1':
        ctx.require(oks is None, '%s:answer:%s:%s' % (key, v, name), 'a refused %s is answered as if it was not' % name.upper(), F)
        ctx.require(errs == '1' or v == 'v3', '%s:error:%s:%s' % (key, v, name), 'the DISCONNECT that answers a refused %s is not sent' % name.upper(), F)
        return
    ctx.require(errs is None, '%s:error:%s:%s' % (key, v, name), 'a %s is refused twice' % name.upper(), F)
    if how == 'result':
        return
    if how == 'option':
        ctx.require(oks == '1' or oks is None and g('o') == '0' and g('r') == '0', '%s:answer:%s:%s' % (key, v, name), 'the answer to %s is not sent once' % name.upper(), F)
    else:
        ctx.require(oks is not None or 'looped' in st.ps[1], '%s:answer:%s:%s' % (key, v, name), 'the answers to %s are not sent' % name.upper(), F)
        r.count('list sent') if oks else None


def push(r, st, vals, names):
    """labels for an answer that is queued"""
    for nm in names:
        o = origin(vals[1], nm)
        if o:
            return '%s:%s' % (o, '1' if r.got(st, o) is None else 'more')
    return None


def dispatch(ctx, v):
    path = HANDLE % (v, v)
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    S, LEN, BODY, PKTT, OUT, G = [sym(x) for x in names]
    vs = [x['name'] for x in ctx.P.adts['mqtt_proto::%s::Packet' % v]['variants']]
    big = lambda E, st: E.decide(st, lt(fld(G, 'config.max_packet_size_server'), LEN))
    track = {'big': big}
    hook = {'publish': 'enable_publish', 'subscribe': 'enable_subscribe', 'unsubscribe': 'enable_unsubscribe'}
    for k, f in hook.items():
        track['hook ' + k] = lambda E, st, f=f: (lambda x: None if x is None else x is TRUE)(E.value(st, fld(G, 'config.hook.' + f)))
    seen = set()

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        if kind == 'call' and what in NAMES:
            n = what[7:]
            r.count('handled')
            ctx.require(not any(x.startswith('did:') for x in st.ps[1]), 'twice:' + v, 'a packet is handled twice', F)
            ctx.require(r.k(st, 'big') is False, 'large:' + v, 'a packet larger than the server allows is handled', F)
            ctx.require(vals[0] is S or not understood(vals[0]), 'session:' + v, 'a packet is handled for another session', F)
            p = [x for x in vals[1:] if x is not G]
            if p and understood(p[0]):
                ctx.require(p[0] is fld(PKTT, upper(what) + '.0') or p[0] is project(PKTT, ('f', upper(what), '0')), 'packet:%s:%s' % (v, n), 'another packet than the one received is handled', F)
            return 'did:' + n
        if kind == 'call' and what == 'build_error_disconnect':
            return 'error:' + (vals[1].a[2] if vals[1].op == 'agg' else '?')
        if kind == 'call' and what in ('push_back', 'push_front', 'extend', 'append', 'push'):
            if what == 'push_front':
                ctx.require(False, 'order:' + v, 'an answer is queued before what is queued already', F)
            x = push(r, st, vals, NAMES + ['build_error_disconnect'])
            if x:
                return x
            if any(y.op == 'agg' and y.a[2] == 'Pingresp' for y in walk(vals[1])):
                return 'pong:%s' % ('1' if r.got(st, 'pong') is None else 'more')
            return 'other' if understood(vals[1]) and vals[1] is not NONE and vals[1] is not coll.EMPTY else None
        if kind == 'return':
            d = E.value(st, discr(PKTT, len(vs)))
            name = vs[d.a[0]].lower() if d is not None else None
            did = r.got(st, 'did')
            ret = ok_of(E, st, vals[0])
            req = [x for x in walk(vals[0]) if x.op == 'agg' and str(x.a[0]).endswith('HookRequest')]
            r.count('returns')
            ctx.require('other' not in st.ps[1], 'answer:' + v, 'an answer is made up', F)
            if r.k(st, 'big') is True:
                r.count('large')
                if v == 'v5':
                    ctx.require(r.got(st, 'error') == 'PacketTooLarge' and r.got(st, 'ok') == '1' and ret is not False, 'large:answer', 'a packet that is too large is not answered with DISCONNECT', F)
                else:
                    ctx.require(ret is not True, 'large:end', 'a packet that is too large does not end the connection', F)
                ctx.require(not req, 'large:' + v, 'a packet larger than the server allows is handled', F)
                return None
            ctx.require(r.got(st, 'error') is None, 'refused:' + v, 'a packet that is allowed is answered with DISCONNECT', F)
            ctx.require(name == 'pingreq' or r.got(st, 'pong') is None, 'pong:' + v, 'PINGRESP is sent for another packet', F)
            if name in ANSWER:
                seen.add(name)
                h = r.k(st, 'hook ' + name) if name in hook else False
                if h is True or req:
                    r.count('requests')
                    ctx.require(h is True, 'hook:%s:%s' % (v, name), 'a hook is asked about a %s although it is not enabled' % name.upper(), F)
                    ctx.require(did is None and len(req) == 1 and req[0].a[2] == v.upper() + name.capitalize(), 'hook:%s:%s' % (v, name),
                                'the hook for %s is enabled but not asked, or the packet is handled all the same' % name.upper(), F)
                    if req:
                        for x, y in (('encode_len', LEN), ('packet_body', BODY), (name, project(PKTT, ('f', name.capitalize(), '0')))):
                            z = dict(req[0].a[3]).get(x)
                            ctx.require(z is None or z is y or not understood(z), 'request:%s:%s' % (v, name), 'a hook is asked about something else (%s)' % x, F)
                    return None
                ctx.require(did == name, 'handler:%s:%s' % (v, name), '%s is %s' % (name.upper(), 'not handled' if did is None else 'handled as ' + did.upper()), F)
                if did == name:
                    if v == 'v3' and name in ('publish', 'subscribe'):
                        ctx.require(ret is not True or r.got(st, 'r') != '1', 'error:v3:' + name, 'a refused %s does not end the connection' % name.upper(), F)
                        ctx.require(ret is not False or r.got(st, 'r') == '1', 'end:v3:' + name, 'a %s that is allowed ends the connection' % name.upper(), F)
                    else:
                        ctx.require(ret is not False, 'end:%s:%s' % (v, name), 'a %s ends the connection' % name.upper(), F)
                    answered(ctx, r, st, v, name, F, 'own')
                return None
            if name == 'pingreq':
                seen.add(name)
                ctx.require(did is None and r.got(st, 'pong') == '1' and ret is not False, 'ping:' + v, 'PINGREQ is not answered with one PINGRESP', F)
                return None
            if name is None:
                ex = {x.a[0] for x in st.excl.get(discr(PKTT, len(vs)), ()) if x.op == 'int'}
                rest = [x.lower() for i, x in enumerate(vs) if i not in ex]
                ctx.require(not any(x in ANSWER or x == 'pingreq' for x in rest), 'unhandled:' + v, 'packets a client may send are not told from others', F)
                seen.update(x for x in rest)
            ctx.require(did is None and not req and ret is not True, 'unexpected:' + v, 'a packet that a client must not send now does not end the connection', F)
            r.count('unexpected')
            return None
        return None

    r = Labels(OQ + '|' + PUSH, event, track, (), OQ, learn=lambda E, st, x, n: result_of(x, n, NAMES))
    run(ctx, path, r)
    for k in ('handled', 'returns', 'large', 'requests', 'unexpected', 'list sent'):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)
    for x in list(ANSWER) + ['pingreq']:
        ctx.require(x in seen, 'unhandled:%s:%s' % (v, x), 'no path deals with ' + x.upper(), lambda: [])


# ---- H01

REQ = 'hook::HookRequest'


def h01(ctx):
    requests(ctx)
    codes(ctx)
    gates(ctx)


def requests(ctx):
    path = 'hook::handle_request::{closure#0}'
    if ctx.anchor(path) is None:
        return
    vs = [x['name'] for x in ctx.P.adts[REQ]['variants']]
    HN = ['handle_publish', 'handle_subscribe', 'handle_unsubscribe']

    def verdict(x, n):
        """the answer of a hook: h of the call, c of the code in it"""
        if x.op == 'await' and any(called(y, f) for y in walk(x) for f in BEFORE):
            return 'h:%s' % n
        if x.op == 'fld' and x.a[1][:2] == ('f', 'Ok') and x.a[0].op == 'await' and any(called(y, f) for y in walk(x.a[0]) for f in BEFORE):
            return 'c:%s' % n
        return None

    def learn(E, st, x, n):
        if x.op == 'fld' and x.a[0].op == 'sym' and not r.got(st, 'req') and isinstance(n, int):
            return 'req:%d' % n
        if x.op == 'fld' and x.a[1][-1] == 'qos_pid':
            return 'qos:%s' % n
        return verdict(x, n) or result_of(x, n, HN)

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        q = g('req')
        name = vs[int(q)] if q is not None else None
        v, op = (name[:2].lower(), name[2:].lower()) if name else (None, None)
        if kind == 'call' and what in BEFORE:
            r.count('before')
            ctx.require('asked' not in st.ps[1], 'asked:twice', 'a hook is asked twice about one packet', F)
            ctx.require(what == '%s_before_%s' % (v, op), 'asked:%s' % name, 'another hook (%s) is asked about %s' % (what, name), F)
            body = [x for x in vals[2:] if x.op == 'fld' and x.a[1][1] == name]
            ctx.require(op is None or not all(understood(x) for x in vals[2:]) or any(x.a[1][2] == op for x in body), 'asked:%s' % name, 'a hook is asked about something else', F)
            return 'asked'
        if kind == 'call' and what in HN:
            r.count('handled')
            ctx.require(g('h') == '0' and g('c') == '0', 'veto:%s:%s' % (v, op), 'a %s is handled although the hook has not allowed it' % op.upper(), F)
            ctx.require(what == 'handle_' + (op or ''), 'handled:%s' % name, '%s is handled as something else' % name, F)
            ctx.require('handled' not in st.ps[1], 'handled:twice:%s' % name, 'a packet is handled twice', F)
            p = vals[1]
            ctx.require(not (p.op == 'fld' and understood(p)), 'changed:%s' % name, 'what the hook has changed in a packet is ignored', F)
            return 'handled'
        if kind == 'call' and what in AFTER:
            r.count('after')
            ctx.require(what == '%s_after_%s' % (v, op), 'after:%s' % name, 'another hook (%s) is told about %s' % (what, name), F)
            ctx.require('told' not in st.ps[1], 'after:twice:%s' % name, 'a hook is told twice', F)
            ctx.require('handled' in st.ps[1] or op in ('afterconnect', 'afterdisconnect'), 'after:early:%s' % name, 'a hook is told that a packet was handled before it is', F)
            return 'told'
        if kind == 'call' and what.startswith('to_v'):
            return None
        if kind == 'call' and what in ('push_back', 'push_front', 'extend', 'append', 'push'):
            x = push(r, st, vals, HN)
            if x:
                return x
            p = [y for y in walk(vals[1]) if y.op == 'agg' and str(y.a[0]).split('::')[-1] in ('Puback', 'Pubrec', 'Suback', 'Unsuback')]
            if not p:
                p = [y for y in walk(vals[1]) if called(y, 'new') and len(y.a) > 3]
            if not p:
                return None
            r.count('refused')
            made = p[0].op != 'agg'
            kindp = str(p[0].a[0]).split('::')[-2 if made else -1]
            ctx.require(g('h') == '0' and g('c') not in ('0', None), 'refusal:%s' % name, 'a packet the hook allows is refused', F)
            if kindp:
                want = {'publish': {'1': 'Puback', '2': 'Pubrec'}.get(g('qos')), 'subscribe': 'Suback', 'unsubscribe': 'Unsuback'}.get(op)
                ctx.require(kindp == want or want is None and op == 'publish' and g('qos') is None, 'refusal:kind:%s' % name, 'a refused %s is answered with %s' % (op.upper(), kindp.upper()), F)
                d = {'pid': p[0].a[2], 'topics': p[0].a[3]} if made else dict(p[0].a[3])
                code = d.get('reason_code', d.get('topics'))
                cs = [y for y in walk(code) if y.op in ('call', 'pure') and short(str(y.a[0])).startswith('to_v5')]
                own = [y.a[2] for y in walk(code) if y.op == 'agg' and str(y.a[0]).endswith('ReasonCode')]
                hv = [x['name'] for x in ctx.P.adts['hook::Hook%sCode' % op.capitalize()]['variants']]
                same = own and (g('c') or '').isdigit() and hv[int(g('c'))] == own[0]
                ctx.require(bool(cs) or bool(same) or not own, 'refusal:code:%s' % name, 'a refusal does not tell the reason the hook gave', F)
                if kindp in ('Suback', 'Unsuback') and (cs or own):
                    ctx.require(any(y.op == 'fld' and y.a[1][2] == 'topics' or y.op in ('phi', 'join') for y in walk(code)), 'refusal:count:%s' % name, 'a refusal does not answer each filter', F)
                pid = d.get('pid')
                ctx.require(any(y.op in ('mut',) for y in walk(pid)) or any(y.op == 'fld' and y.a[1][2] in ('pid', 'qos_pid') for y in walk(pid)), 'refusal:pid:%s' % name, 'a refusal has another packet identifier', F)
            return 'no:%s' % ('1' if g('no') is None else 'more')
        if kind == 'return' and name:
            x = vals[0]
            kinds = [y.a[2] for y in walk(x) if y.op == 'agg' and str(y.a[0]).endswith('HookResponse')]
            if op in ('beforeconnect', 'afterconnect', 'afterdisconnect'):
                r.count(op)
                ctx.require(kinds[:1] == [name[2:]], 'response:%s' % name, 'a request is answered with another response', F)
                f = '%s_%s' % (v, {'beforeconnect': 'before_connect', 'afterconnect': 'after_connect', 'afterdisconnect': 'after_disconnect'}[op])
                ctx.require(any(called(y, f) for y in walk(x)) or g('h') == '1' or not understood(x), 'response:%s' % name, 'the verdict of a hook is lost', F)
                return None
            r.count('returns')
            ctx.require(kinds[:1] == ['Normal'], 'response:%s' % name, 'a request is answered with another response', F)
            res = x.a[3][0][1] if x.op == 'agg' and x.a[3] else x
            ok = ok_of(E, st, res)
            if 'asked' not in st.ps[1]:
                ctx.require(False, 'asked:%s' % name, 'a hook is not asked', F)
                return None
            if g('h') == '1':
                ctx.require('handled' not in st.ps[1] and ok is not True, 'error:%s' % name, 'a hook that fails does not end the connection', F)
                ctx.require(g('no') is None, 'error:%s' % name, 'a packet is answered although the hook has failed', F)
            elif g('c') not in ('0', None):
                ctx.require('handled' not in st.ps[1] and 'told' not in st.ps[1], 'veto:%s:%s' % (v, op), 'a refused packet is handled', F)
                if v == 'v3':
                    ctx.require(ok is not True, 'refusal:%s' % name, 'a refused packet of a v3 client does not end the connection', F)
                else:
                    ctx.require(ok is not False, 'refusal:%s' % name, 'a refused packet ends the connection of a v5 client', F)
                    want = '1' if op != 'publish' or g('qos') in ('1', '2') else None
                    ctx.require(g('no') == want or op == 'publish' and g('qos') not in ('0', '1', '2'), 'refusal:answer:%s' % name, 'a refused %s is not answered once' % op.upper(), F)
            elif g('c') == '0':
                ctx.require('handled' in st.ps[1], 'allowed:%s' % name, 'a packet the hook allows is not handled', F)
                if 'handled' in st.ps[1]:
                    answered(ctx, r, st, v, op, F, 'hook')
                    if g('r') != '1':
                        ctx.require('told' in st.ps[1], 'after:%s' % name, 'the hook is not told about a packet that was handled', F)
                        ctx.require(any(called(y, f) for y in walk(res) for f in AFTER) or ok is False, 'actions:%s' % name, 'the actions a hook asks for are lost', F)
                    elif v == 'v3':
                        ctx.require(ok is not True, 'handled:error:%s' % name, 'a refused packet of a v3 client does not end the connection', F)
                    else:
                        ctx.require(ok is not False or 'told' in st.ps[1], 'handled:error:%s' % name, 'a packet refused with DISCONNECT ends the connection before that is sent', F)
            return None
        return None

    BEFORE = ['%s_before_%s' % (v, x) for v in ('v3', 'v5') for x in ('publish', 'subscribe', 'unsubscribe')]
    AFTER = [x.replace('before', 'after') for x in BEFORE]
    r = Labels(OQ + '|' + PUSH, event, {}, (), OQ, learn=learn)
    run(ctx, path, r, join_limit=24)
    for k in ('before', 'handled', 'after', 'refused', 'returns', 'beforeconnect', 'afterconnect', 'afterdisconnect'):
        ctx.floor(k, r.n.get(k, 0), 2)


def codes(ctx):
    """a refusal stays a refusal, with the reason of the same name"""
    n = 0
    for f in sorted(ctx.P.bodies):
        m = re.match(r'hook::(Hook\w+Code)::(to_v[35]\w*)$', f) or re.match(r'hook::<impl hook::(Hook\w+Code)>::(to_v[35]\w*)$', f)
        if not m:
            continue
        vs = [x['name'] for x in ctx.P.adts['hook::' + m.group(1)]['variants']]
        S = sym(argnames(ctx.P, f)[0])

        def event(E, st, kind, what, vals):
            if kind != 'return':
                return None
            d = E.value(st, discr(S, len(vs)))
            ex = {x.a[0] for x in st.excl.get(discr(S, len(vs)), ()) if x.op == 'int'}
            ns = [vs[d.a[0]]] if d is not None else [x for i, x in enumerate(vs) if i not in ex]
            if vals[0].op != 'agg':
                return None
            c = vals[0].a[2]
            for x in ns:
                r.count('codes')
                good = {'Success': ('Success', 'Accepted', 'GrantedQoS2')}.get(x)
                F = lambda: ['%s -> %s' % (x, c)]
                if good:
                    ctx.require(c in good, 'code:%s:%s' % (m.group(1), m.group(2)), '%s is reported as %s' % (x, c), F)
                elif m.group(2).startswith('to_v5'):
                    ctx.require(c == x, 'code:%s:%s' % (m.group(1), m.group(2)), '%s is reported as %s' % (x, c), F)
                else:
                    ctx.require(c != 'Accepted', 'code:%s:%s' % (m.group(1), m.group(2)), '%s is reported as %s' % (x, c), F)
        r = Flow(r'(?!)', event, {}, (), r'(?!)')
        run(ctx, f, r)
        n += r.n.get('codes', 0)
    ctx.floor('codes mapped', n, 20)


GATES = {'before_connect_hook': 'enable_before_connect', 'after_connect_hook': 'enable_after_connect', 'after_disconnect_hook': 'enable_after_disconnect'}


def gates(ctx):
    for v in ('v3', 'v5'):
        gate(ctx, v)


GQ = (r'hook::handle_request$|packet::connect::handle_connect$|::session_connect$|::handle_auth$|OnlineLoop.*::poll$|::handle_will$|::broadcast_packets$|decode\w*$|::write_packet$|::after_handle_packet$'
      r'|::build_error_connack$|HookConnectCode::to_v[35]_\w+$|LockedHookContext.*::new$|::apply_action$|::remove_client$|::offline_client$')


def gate(ctx, v):
    path = MSG % v + 'handle_online'
    if ctx.anchor(path) is None:
        return
    T = local_of(ctx, path, r'^bool$', True)
    flags = {'before': 'enable_before_connect', 'after': 'enable_after_connect', 'gone': 'enable_after_disconnect'}
    kinds = {v.upper() + 'BeforeConnect': 'before', v.upper() + 'AfterConnect': 'after', v.upper() + 'AfterDisconnect': 'gone'}
    texts = {'before': 'before a connection', 'after': 'after a connection', 'gone': 'after a disconnection'}

    class Gate(Labels):
        def on_assume(self, E, st, t, v):
            if t.op == 'fld' and t.a[1][-1] in flags.values():
                n = [k for k, f in flags.items() if f == t.a[1][-1]][0]
                self.add(st, 'on %s:%d' % (n, v is True or v is TRUE))
            return super().on_assume(E, st, t, v)

    def learn(E, st, x, n):
        if called(x, 'to_v3_code') or called(x, 'to_v5_code'):
            return 'verdict:%s' % ('0' if n == 0 else 'x')
        if x.op == 'await' and any(called(y, 'apply_action') for y in walk(x)):
            return None
        return None

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = lambda k: r.got(st, k)
        if kind == 'call' and what == 'handle_request':
            q = [y for y in walk(vals[0]) if y.op == 'agg' and str(y.a[0]).endswith('HookRequest')]
            k = kinds.get(q[0].a[2]) if q else None
            if k is None:
                ctx.require(not q, 'request:' + v, 'a hook of another kind is asked while a client connects', F)
                return None
            r.count(k)
            ctx.require(g('on ' + k) == '1', 'gate:%s:%s' % (v, k), 'the hook that runs %s is called although it is not enabled' % texts[k], F)
            ctx.require(k not in st.ps[1], 'twice:%s:%s' % (v, k), 'the hook that runs %s is called twice' % texts[k], F)
            if k == 'before':
                ctx.require('connect' not in st.ps[1], 'late:' + v, 'the hook that decides on a connection is asked after it', F)
            elif k == 'after':
                ctx.require('connect' in st.ps[1] and 'loop' not in st.ps[1], 'order:%s:%s' % (v, k), 'the hook for new connections is called at another time', F)
            else:
                ctx.require('loop' in st.ps[1], 'order:%s:%s' % (v, k), 'the hook for disconnections is called before the connection has ended', F)
                x = dict(q[0].a[3]).get('taken_over')
                t = None if T is None else st.mem.get(('L', 0, T))
                ctx.require(x is None or t is None or x is E.deep(st, t) or x.op != 'int', 'taken:' + v, 'the hook for disconnections is told a wrong takeover', F)
            return k
        if kind == 'call' and what == 'handle_connect':
            r.count('connect')
            ctx.require(g('on before') is not None, 'gate:%s:before' % v, 'a client connects without a look at whether the hook for it is enabled', F)
            ctx.require(g('on before') != '1' or 'before' in st.ps[1] and g('verdict') == '0', 'veto:%s:connect' % v, 'a client connects although the hook has not allowed it', F)
            return 'connect'
        if kind == 'call' and what == 'build_error_connack' and g('verdict') == 'x' and 'connect' not in st.ps[1]:
            c = [y for y in vals if y.op == 'agg' and str(y.a[0]).endswith('ReasonCode')]
            ctx.require(not c, 'veto:code', 'a client is refused for another reason than the one the hook gave', F)
            return 'told'
        if kind == 'call' and what == 'write_packet' and 'told' in st.ps[1]:
            return 'sent'
        if kind == 'call' and what == 'poll':
            r.count('loop')
            ctx.require(g('on after') is not None, 'gate:%s:after' % v, 'a client is served without a look at whether the hook for new connections is enabled', F)
            ctx.require(g('on after') != '1' or 'after' in st.ps[1], 'missed:%s:after' % v, 'the hook for new connections is enabled but not called', F)
            return 'loop'
        if kind == 'return':
            if 'loop' in st.ps[1]:
                r.count('served')
                ctx.require(g('on gone') is not None, 'gate:%s:gone' % v, 'a connection ends without a look at whether the hook for it is enabled', F)
                ctx.require(g('on gone') != '1' or 'gone' in st.ps[1], 'missed:%s:gone' % v, 'the hook for disconnections is enabled but not called', F)
            elif g('verdict') == 'x' and 'connect' not in st.ps[1]:
                r.count('vetoed')
                ok = ok_of(E, st, vals[0])
                ctx.require(ok is not True or v == 'v5' and 'sent' in st.ps[1], 'veto:%s:end' % v, 'a client the hook refuses is served', F)
                if v == 'v5':
                    ctx.require('sent' in st.ps[1], 'veto:answer', 'a client the hook refuses gets no CONNACK', F)
        return None

    r = Gate(GQ, event, {}, (), GQ, learn=learn)
    run(ctx, path, r, join_limit=8)
    for k in ('before', 'after', 'gone', 'connect', 'loop', 'served', 'vetoed'):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)


RULES = {'D01': d01, 'H01': h01}
