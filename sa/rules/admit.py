"""N01 what a connection goes through before MQTT, N02 listeners"""
from _base import *
from dispatch import Labels, zero
from subscribe import called
from session_end import is_int
from keepalive import millis

ACC = 'server::handle_accept'
STAGES = {'parse_header': 'the PROXY header', 'accept': 'the TLS handshake', 'accept_hdr_async': 'the WebSocket handshake', 'decode_raw_header_async': 'the first packet',
          'decode_async': 'the protocol'}
OQ = (r'::parse_header$|::decode_raw_header_async$|Protocol::decode_async$|TlsAcceptor::accept$|::accept_hdr_async(_with_config)?$|::accept_async$|::handle_connection$|::or$|::race$|::select$'
      r'|::timeout(_at)?$|recv_async$|::recv$|::spawn$|flume::bounded$|::sleep$|::new_with$|tls_termination')


def n01(ctx):
    ctx.rule = ('property simulation of handle_accept: each step before MQTT is taken exactly if the listener asks for it, in order, on what the step before gave, in a race with '
                'the timer; what its result does to the path; what is handed to the MQTT code')
    r = stages(ctx)
    if r is not None:
        timer(ctx, r.co)
        subprotocol(ctx, r.cb)


def stages(ctx):
    if ctx.anchor(ACC) is None:
        return
    names = argnames(ctx.P, ACC)
    by = dict(zip([re.sub(r'.*::', '', ctx.P.body(ACC).locals[i + 1][0]) for i in range(len(names))], names))
    A = next((sym(n) for t, n in by.items() if t.startswith('ConnectionArgs')), None)
    PEER = next((sym(n) for t, n in by.items() if t.startswith('SocketAddr')), None)
    G = sym('global')
    conn = sym(names[0])
    hook = next((sym(n) for t, n in by.items() if t == 'H'), None)
    flag = lambda f: lambda E, st: (lambda x: None if x is None else x is TRUE)(E.value(st, fld(A, f)))
    track = {'proxy': flag('proxy'), 'websocket': flag('websocket'),
             'tls': lambda E, st: (lambda d: None if d is None else d is Int(1))(E.value(st, discr(fld(A, 'tls_acceptor'), 2)))}
    res = {}

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        g = st.ps[1]
        key = lambda k: r.got(st, k)
        if kind == 'call' and what in STAGES:
            r.count(what)
            ctx.require('expired' not in g, 'late:' + what, 'the connection goes on with %s though its time is up' % STAGES[what], F)
            ctx.require(key(what) is None, 'twice:' + what, '%s is read twice' % STAGES[what], F)
            ctx.require('timer' in g, 'timer:' + what, 'no timer runs during %s' % STAGES[what], F)
            raced(st, F)
            if what == 'parse_header':
                ctx.require(r.k(st, 'proxy') is True, 'asked:' + what, 'a PROXY header is read though the listener does not ask for it', F)
                ctx.require(not any(x.split(':')[0] in STAGES for x in g), 'order:' + what, 'the PROXY header is not read first', F)
                ctx.require(vals[0] is conn or not understood(vals[0]), 'on:' + what, 'the PROXY header is read from something else', F)
                t = vals[1] if len(vals) > 1 else None
                ctx.require(t is fld(A, 'proxy_tls_termination') or t is None or not understood(t), 'mode:' + what, 'the PROXY header is read in another mode than the listener names', F)
                return what + ':open'
            if r.k(st, 'proxy') is not False:
                ctx.require(key('parse_header') == 'ok' and key('addr') in ('IPv4', 'IPv6'), 'skips:proxy', '%s comes without the PROXY header the listener asks for' % STAGES[what], F)
            if what == 'accept':
                ctx.require(r.k(st, 'tls') is True, 'asked:' + what, 'TLS is started though the listener has none', F)
                ctx.require(vals[0] is fld(A, 'tls_acceptor.Some.0') or not understood(vals[0]), 'acceptor', 'another TLS configuration is used than the one of the listener', F)
                ctx.require(key('accept_hdr_async') is None and key('decode_raw_header_async') is None, 'order:' + what, 'TLS comes too late', F)
                return what + ':open'
            tls(st, what, F)
            if what == 'accept_hdr_async':
                ctx.require(r.k(st, 'websocket') is True, 'asked:' + what, 'a WebSocket is started though the listener has none', F)
                inside(st, vals[0], what, F)
                r.cb = vals[1]
                return what + ':open'
            ws(st, what, F)
            if what == 'decode_raw_header_async':
                wrapped(E, st, vals[0], F)
                return what + ':open'
            ctx.require(key('decode_raw_header_async') == 'ok' and 'connect:yes' in g, 'connect', 'a first packet that is not CONNECT is not refused', F)
            return what + ':open'
        if kind == 'call' and what in ('accept_async',):
            ctx.require(False, 'plain', 'a WebSocket is accepted without a look at the subprotocol', F)
        if kind == 'call' and what in ('or', 'race', 'select', 'timeout', 'timeout_at'):
            n = next((n for n in map(outer, vals) if n), None)
            if n:
                other = [v for v in vals if outer(v) != n]
                ctx.require(what.startswith('timeout') or any(called(x, 'bounded') for v in other for x in walk(v)) or not any(understood(v) for v in other), 'race:' + n,
                            '%s does not race with the timer' % STAGES[n], F)
                return 'raced-' + n
            return None
        if kind == 'call' and what in ('recv_async', 'recv'):
            return 'expired' if vals and (any(called(x, 'bounded') for x in walk(vals[0])) or not understood(vals[0])) else None
        if kind == 'call' and what == 'spawn':
            if any(called(x, 'bounded') for v in vals for x in walk(v)):
                r.co = vals[-1]
            return 'timer' if any(called(x, 'bounded') for v in vals for x in walk(v)) or not any(understood(v) for v in vals) else None
        if kind == 'call' and what == 'handle_connection':
            r.count('handled')
            mod = 'v5' if r.last and '::v5::' in r.last else 'v3'
            ctx.require('expired' not in g, 'late:mqtt', 'MQTT is started though the time is up', F)
            raced(st, F)
            ctx.require(key('decode_async') == 'ok' and 'connect:yes' in g and key('decode_raw_header_async') == 'ok', 'connect', 'MQTT is started without CONNECT', F)
            ver = key('version')
            ctx.require(ver is not None and (ver == 'V500') == (mod == 'v5'), 'version:' + mod, 'a client is served as %s though it speaks %s' % (mod, ver), F)
            p = peer(st)
            ctx.require(p(vals[1]) or not understood(vals[1], skip=[x for x in walk(vals[1]) if called(x, 'parse_header')]), 'peer', 'another address is taken for that of the client', F)
            h = [x for x in walk(vals[2]) if called(x, 'new_with')]
            for x in h[:1]:
                parts = [project_call(x, i) for i in range(3)]
                for i, y in enumerate(parts):
                    if y is not None:
                        ctx.require(any(z.op == 'fld' and z.a[1][0] == 'f' and z.a[1][-1] == str(i) or z.op == 'fld' and z.a[1] == ('i', Int(i)) for z in walk(y)) or is_int(y, 16) and i == 0
                                    or not any(called(z, 'decode_raw_header_async') for z in walk(y)), 'header:%d' % i, 'the header handed on is not the one received', F)
            ctx.require(any(called(x, 'decode_async') for x in walk(vals[3])) or vals[3].op == 'agg' and vals[3].a[2] == ver or not understood(vals[3]), 'protocol', 'another protocol is handed on than the client named', F)
            ctx.require(G in vals or hook is None, 'global', 'the connection is served for another broker', F)
            ctx.require(any(x is hook for x in vals) or hook is None, 'hook', 'the connection is served with another hook', F)
            return 'mqtt:' + mod
        if kind == 'return':
            r.count('returns')
            ok = ok_of(E, st, vals[0])
            if 'mqtt:v3' in g or 'mqtt:v5' in g:
                r.count('served')
                return None
            if ok is True:
                ctx.require(key('parse_header') == 'none' and 'expired' not in g, 'dropped', 'a connection is dropped as if it had been served', F)
                r.count('health checks')
            elif ok is False:
                bad = 'expired' in g or any(key(n) == 'err' for n in STAGES) or key('addr') == 'Unix' or 'connect:no' in g
                ctx.require(bad, 'refused', 'a connection is refused without reason', F)
                ctx.require(key('parse_header') != 'none' or any(key(n) for n in STAGES if n != 'parse_header'), 'health', 'a health check of the proxy ends with an error', F)
                r.count('refused')
        return None

    def raced(st, F):
        for n in STAGES:
            if r.got(st, n) is not None:
                ctx.require('raced-' + n in st.ps[1], 'race:' + n, '%s does not race with the timer' % STAGES[n], F)

    def tls(st, what, F):
        ctx.require(r.k(st, 'tls') is False or r.got(st, 'accept') == 'ok', 'skips:tls', '%s comes without the TLS handshake the listener asks for' % STAGES[what], F)

    def ws(st, what, F):
        ctx.require(r.k(st, 'websocket') is False or r.got(st, 'accept_hdr_async') == 'ok', 'skips:websocket', '%s comes without the WebSocket handshake the listener asks for' % STAGES[what], F)

    def inside(st, v, what, F):
        """the stream is the one TLS gave, or the connection"""
        has = any(called(x, 'accept') for x in walk(v))
        if r.k(st, 'tls') is not None:
            ctx.require(has == (r.k(st, 'tls') is True), 'through:' + what, '%s does not go through the TLS connection' % STAGES[what], F)

    def wrapped(E, st, v, F):
        inside(st, v, 'decode_raw_header_async', F)
        w = next((x for x in walk(v) if x.op == 'agg' and str(x.a[0]).endswith('WebSocketWrapper')), None)
        if w is None:
            return
        if r.k(st, 'websocket') is not None:
            ctx.require((w.a[2] == 'WebSocket') == (r.k(st, 'websocket') is True), 'through:websocket', 'the packets do not go through the WebSocket', F)
        if w.a[2] == 'WebSocket':
            ctx.require(any(called(x, 'accept_hdr_async') for x in walk(w)), 'stream', 'the packets do not go through the WebSocket', F)
            i, p, c = [project(w, ('f', 'WebSocket', f)) for f in ('read_data_idx', 'pending_pong', 'closed')]
            d = project(w, ('f', 'WebSocket', 'read_data'))
            ctx.require(i is Int(0) and p is NONE and c is FALSE or not understood(i) or not understood(p) or not understood(c), 'fresh', 'the WebSocket does not start in a fresh state', F)
            r.count('websockets')

    def peer(st):
        a = r.got(st, 'addr')
        if a is None:
            return lambda v: v is PEER
        def same(v):
            fs = [x for x in walk(v) if x.op == 'fld' and x.a[1][0] == 'f' and len(x.a[1]) == 3 and x.a[1][1] == a]
            return {x.a[1][2] for x in fs} == {'source_address', 'source_port'}
        return same

    def outer(v):
        """the step a future is made of"""
        if v.op == 'call' and short(str(v.a[0])) in STAGES:
            return short(str(v.a[0]))
        todo = list(v.a)
        while todo:
            x = todo.pop(0)
            if isinstance(x, tuple):
                todo[:0] = x
            elif hasattr(x, 'op'):
                n = outer(x)
                if n:
                    return n

    class R(Labels):
        last = co = cb = None

        def on_call(self, E, st, c):
            self.last = c.res or c.name
            return super().on_call(E, st, c)

    def stage(x):
        """the step whose result this is"""
        return short(str(x.a[0].a[0])) if x.op == 'await' and x.a[0].op == 'call' and short(str(x.a[0].a[0])) in STAGES else None

    def known(E, st, x, n):
        """labels for the results of the steps"""
        if not isinstance(n, int):
            return None
        s = stage(x)
        if s:
            return s + (':err' if n else ':read' if s == 'parse_header' else ':ok')
        if x.op != 'fld':
            return None
        s = stage(x.a[0]) if x.a[1] == ('f', 'Ok', '0') else None
        if s == 'parse_header':
            return 'parse_header:' + ('ok' if n else 'none')
        if s == 'decode_async':
            return 'version:' + {3: 'V310', 4: 'V311', 5: 'V500'}.get(n, '?')
        if x.a[1][-1] == 'addresses':
            return 'addr:' + [v['name'] for v in ctx.P.adts['server::proxy::Addresses']['variants']][n]
        return None

    def project_call(x, i):
        args = [a for a in x.a if hasattr(a, 'op')]
        for a in x.a:
            if isinstance(a, tuple) and len(a) == 3 and all(hasattr(b, 'op') for b in a):
                return a[i]
        return args[i] if len(args) == 3 else None
    r = R(OQ, event, track=track, opaque=OQ, learn=known)
    orig = r.on_assume

    def on_assume(E, st, t, v):
        res = orig(E, st, t, v)
        for x in walk(t):
            if x.op == 'fld' and x.a[1][-1] in ('0', 0) and x.a[0].op == 'fld' and x.a[0].a[1] == ('f', 'Ok', '0') and stage(x.a[0].a[0]) == 'decode_raw_header_async':
                d = E.decide(st, eq0(sub(x, Int(16))))
                if d is not None:
                    r.add(st, 'connect:' + ('yes' if d else 'no'))
        return res
    r.on_assume = on_assume
    run(ctx, ACC, r)
    for k, n in (('accept', 1), ('parse_header', 1), ('accept_hdr_async', 2), ('decode_raw_header_async', 4), ('handled', 4), ('health checks', 1), ('refused', 10), ('websockets', 2)):
        ctx.floor(k, r.n.get(k, 0), n)
    return r


def timer(ctx, co):
    """five seconds, then the task ends: with a message or by dropping its end of the channel, which wakes all who wait"""
    if co is None or not str(co.a[0]).startswith('coroutine:'):
        return
    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + r.facts(st)
        if kind == 'call' and what.startswith('sleep'):
            r.count('sleeps')
            d = millis(vals[0], sym('?')) if what == 'sleep' else None
            ctx.require(d is None or d == (5000, 0), 'seconds', 'the time a client has is not five seconds', F)
            return 'slept'
        if kind == 'call' and what.startswith(('send', 'try_send')):
            ctx.require('slept' in st.ps[1], 'early', 'the time of a client is up at once', F)
        if kind == 'return':
            r.count('timer ends')
            ctx.require('slept' in st.ps[1], 'early', 'the time of a client is up at once', F)
    r = Labels(r'::sleep$|::sleep_until$|::send_async$|::try_send$|::send$', event, learn=lambda *a: None)
    E = r.E = Engine(ctx.P, r)
    E.run(co.a[0].split(':', 1)[1], [co, sym('cx')])
    ctx.engine(E)
    ctx.floor('sleeps', r.n.get('sleeps', 0), 1)
    ctx.floor('timer ends', r.n.get('timer ends', 0), 1)


def subprotocol(ctx, f):
    if f is None or not str(f.a[0]).startswith('closure:'):
        return
    names = lambda x: 'sec-websocket-protocol' in str(x).lower()
    mqtt = lambda x: str(x).strip("b'\"") == 'mqtt'

    def asked(x):
        return called(x, 'get') and any(names(y) for y in x.a if hasattr(y, 'op'))

    class R(Labels):
        def on_assume(self, E, st, t, v):
            x, n = zero(t, v)
            b = v is True or v is TRUE
            if x is not None and asked(x) and isinstance(n, int):
                self.add(st, 'named:%d' % n)
            elif any(asked(y) for y in walk(t)):
                if hasattr(v, 'op') and mqtt(v):
                    self.add(st, 'mqtt:yes')
                elif t.op in ('eq', 'eqc') and any(mqtt(y) for y in t.a) and (b or v is False or v is FALSE):
                    self.add(st, 'mqtt:' + ('yes' if b else 'no'))
                elif any(mqtt(y) for y in walk(t)):
                    self.add(st, 'other')
            return Flow.on_assume(self, E, st, t, v)

    def event(E, st, kind, what, vals):
        g = st.ps[1]
        F = lambda: [' '.join(g)] + r.facts(st)
        if kind == 'call' and what in ('insert', 'append', 'try_insert') and len(vals) > 2 and names(vals[1]):
            ctx.require(any(asked(y) for y in walk(vals[2])) or any(mqtt(y) for y in walk(vals[2])) or not understood(vals[2]), 'echo', 'the answer names another subprotocol', F)
            return 'echoed'
        if kind == 'return':
            r.count('answers')
            ok = ok_of(E, st, vals[0])
            if ok is True and 'named:1' in g:
                ctx.require('mqtt:no' not in g, 'subprotocol', 'a client that asks for another subprotocol than mqtt is accepted', F)
                ctx.require('mqtt:yes' in g or 'other' in g, 'subprotocol', 'the subprotocol a client asks for is not looked at', F)
                ctx.require('echoed' in g, 'unnamed', 'the answer does not name the subprotocol', F)
                r.count('named')
            if ok is True:
                ctx.require('named:0' in g or 'named:1' in g or 'other' in g, 'subprotocol', 'the subprotocol a client asks for is not looked at', F)
            if ok is False:
                ctx.require('mqtt:yes' not in g and 'named:0' not in g, 'mqtt', 'a client that asks for mqtt is refused', F)
                r.count('refused')
    r = R(r'HeaderMap.*::(get|insert|append|try_insert)$', event, opaque=r'HeaderMap.*::(get|insert|append|try_insert)$')
    E = r.E = Engine(ctx.P, r)
    E.run(f.a[0].split(':', 1)[1], [f, sym('request'), sym('response')])
    ctx.engine(E)
    for k in ('named', 'refused'):
        ctx.floor('subprotocol ' + k, r.n.get(k, 0), 1)


TLSCTX = 'server::build_tls_context'
START = 'server::rt::start'
LISTEN = 'server::rt::listen'
TLSOPS = (r'with_client_cert_verifier$|with_no_client_auth$|allow_unauthenticated$|RootCertStore::(add|add_parsable_certificates|empty)$|with_single_cert\w*$|File::open$|pem_reader_iter$|pem_file_iter$'
          r'|from_pem_(reader|file)$|WebPkiClientVerifier::builder\w*$|Builder.*::build$|BufReader.*::new$')


def n02(ctx):
    ctx.rule = ('abstract interpretation of build_tls_context, start and listen: the value terms of every TLS configuration, of the arguments of every listener and of what each '
                'connection is served with, compared with the section of the configuration they belong to')
    tls_context(ctx)
    listeners(ctx)
    sockets(ctx)


def tls_context(ctx):
    if ctx.anchor(TLSCTX) is None:
        return
    L = sym(argnames(ctx.P, TLSCTX)[0])
    flag = lambda f: lambda E, st: (lambda x: None if x is None else x is TRUE)(E.value(st, fld(L, f)))
    track = {'verify': flag('verify_peer'), 'must': flag('fail_if_no_peer_cert'),
             'ca': lambda E, st: (lambda d: None if d is None else d is Int(1))(E.value(st, discr(fld(L, 'ca_file'), 2)))}
    reads = lambda t, f: any(depends(x, fld(L, f)) for x in [t])

    def learn(E, st, x, n):
        y = x
        while y.op == 'fld':
            y = y.a[0]
        if n == 1 and y.op in ('call', 'pure') and (x is y and not called(y, 'next') or called(y, 'next') and x.op == 'fld' and x.a[1] == ('f', 'Some', '0')):
            return 'failed'

    def event(E, st, kind, what, vals):
        g = st.ps[1]
        F = lambda: [' '.join(g)] + r.facts(st)
        if kind == 'call' and what.startswith('add'):
            r.count('roots')
            ctx.require(any(reads(v, 'ca_file') for v in vals[1:]) or not any(called(x, 'open') or x is L for v in vals[1:] for x in walk(v)), 'roots', 'clients may present certificates signed by another CA than the one named', F)
            ctx.require(not any(reads(v, f) for v in vals[1:] for f in ('cert_file', 'key_file')), 'roots', 'clients may present certificates signed by another CA than the one named', F)
            return None
        if kind == 'call' and what == 'with_no_client_auth':
            ctx.require(r.k(st, 'verify') is False, 'unverified', 'clients are not asked for a certificate though the listener verifies them', F)
        if kind == 'call' and what == 'allow_unauthenticated':
            ctx.require(r.k(st, 'must') is False, 'optional', 'a client without certificate is let in though the listener refuses it', F)
        if kind == 'return':
            ok = ok_of(E, st, vals[0])
            r.count('returns')
            if ok is not True:
                return None
            ctx.require('failed' not in g, 'failed', 'a TLS configuration is made though a part of it cannot be read', F)
            w = next((x for x in walk(vals[0]) if x.op in ('call', 'pure') and short(str(x.a[0])).startswith('with_single_cert')), None)
            if w is None:
                return None
            r.count('configured')
            args = [x for x in w.a if hasattr(x, 'op')] or [y for x in w.a if isinstance(x, tuple) for y in x if hasattr(y, 'op')]
            certs = [x for x in args if reads(x, 'cert_file')]
            keys = [x for x in args if reads(x, 'key_file')]
            if all(any(called(x, 'open') for x in walk(a)) or not understood(a) for a in args[1:]):
                ctx.require(bool(certs) and bool(keys) and args.index(certs[0]) < args.index(keys[0]), 'identity', 'the server presents another certificate or key than the ones named', F)
            has = any(called(x, 'with_client_cert_verifier') for x in walk(w))
            ctx.require(has or r.k(st, 'verify') is False, 'unverified', 'clients are not asked for a certificate though the listener verifies them', F)
            ctx.require(not has or r.k(st, 'verify') is True, 'verified', 'clients are asked for a certificate though the listener does not verify them', F)
            if has:
                r.count('verifying')
                ctx.require(r.k(st, 'ca') is True, 'ca', 'clients are verified without a CA', F)
                opt = any(called(x, 'allow_unauthenticated') for x in walk(w))
                ctx.require(r.k(st, 'must') is not None and opt == (r.k(st, 'must') is False), 'optional', 'whether a client needs a certificate does not follow from the listener', F)
        return None
    r = Labels(TLSOPS, event, track=track, opaque=TLSOPS, learn=learn)
    run(ctx, TLSCTX, r)
    for k, n in (('roots', 1), ('configured', 3), ('verifying', 2)):
        ctx.floor('tls ' + k, r.n.get(k, 0), n)


SECTIONS = {'mqtt': (False, False), 'mqtts': (False, True), 'ws': (True, False), 'wss': (True, True)}


def listeners(ctx):
    if ctx.anchor(START) is None:
        return
    SEC = {n: fld(sym('global'), 'config.listeners.' + n) for n in SECTIONS}
    G = sym('global')
    cos = []
    seen = set()

    def outer(E, st, kind, what, vals):
        if kind == 'call' and what == 'block_on':
            cos.extend((v, {n: E.value(st, discr(SEC[n], 2)) for n in SECTIONS}) for v in vals if v.op == 'agg' and str(v.a[0]).startswith('coroutine:'))
        if kind == 'call' and what == 'build_tls_context':
            r0.count('tls contexts')
    r0 = Flow(r'::block_on$|build_tls_context$', outer, opaque=r'::block_on$|build_tls_context$')
    run(ctx, START, r0)
    modes = [v['name'] for v in ctx.P.adts['config::ProxyMode']['variants']]

    def cases(E, st, pm):
        """the state with each value of the proxy mode that is possible in it"""
        s = st.copy()
        if E.assume_val(s, discr(pm, 2), Int(0)):
            yield None, s
        for i, m in enumerate(modes):
            s = st.copy()
            if E.assume_val(s, discr(pm, 2), Int(1)) and E.assume_val(s, discr(fld(pm, 'Some.0'), len(modes)), Int(i)):
                yield m, s

    def truth(E, st, t, pm, mode):
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op in ('eq', 'eqc') and pm in t.a[:2]:
            o = t.a[1] if t.a[0] is pm else t.a[0]
            if o is NONE:
                return mode is None
            x = project(o, ('f', 'Some', '0')) if o.op == 'agg' and o.a[2] == 'Some' else None
            if x is not None and x.op == 'agg':
                return x.a[2] == mode
        v = E.value(st, t)
        return v is TRUE if v in (TRUE, FALSE) else E.decide(st, t)

    def judge(E, st, x, F):
        f = {n: project(x, ('f', n)) if False else dict(x.a[3]).get(n) for n in ('addr', 'reuse_port', 'proxy', 'proxy_tls_termination', 'websocket', 'tls_acceptor')}
        n = next((n for n in SECTIONS if f['addr'] is fld(SEC[n], 'Some.0.addr')), None)
        if n is None:
            ctx.require(not understood(f['addr']), 'addr', 'a listener listens on another address than one that is configured', F)
            return None
        r.count('sections')
        seen.add(n)
        w, t = SECTIONS[n]
        sec = fld(SEC[n], 'Some.0')
        ctx.require(f['websocket'] is (TRUE if w else FALSE) or not understood(f['websocket']), n + ':websocket', 'the listener %s %s' % (n, 'does not speak WebSocket' if w else 'speaks WebSocket'), F)
        a = f['tls_acceptor']
        has = None if a is None else True if a.op == 'agg' and a.a[2] == 'Some' else False if a is NONE else (lambda d: None if d is None else d is Int(1))(E.value(st, discr(a, 2)))
        ctx.require(has is t or has is None, n + ':tls', 'the listener %s %s' % (n, 'is not encrypted' if t else 'is encrypted'), F)
        if has:
            b = [y for y in walk(a) if called(y, 'build_tls_context')]
            ctx.require(not b or depends(b[0], sec), n + ':acceptor', 'the listener %s uses the certificates of another one' % n, F)
        ctx.require(f['reuse_port'] is fld(sec, 'reuse_port') or not understood(f['reuse_port']), n + ':reuse_port', 'reuse_port of the listener %s does not come from its section' % n, F)
        if t:
            p = f['proxy']
            ctx.require(p is fld(sec, 'proxy') or E.value(st, fld(sec, 'proxy')) is p or not understood(p), n + ':proxy', 'whether the listener %s expects PROXY headers does not come from its section' % n, F)
            ctx.require(f['proxy_tls_termination'] is FALSE or not understood(f['proxy_tls_termination']), n + ':termination', 'the listener %s takes TLS as terminated by the proxy' % n, F)
        else:
            pm = fld(sec, 'proxy_mode')
            for mode, s in cases(E, st, pm):
                r.count('modes')
                for k, want in (('proxy', mode is not None), ('proxy_tls_termination', mode == 'TlsTermination')):
                    got = truth(E, s, f[k], pm, mode)
                    ctx.require(got is None or got is want, '%s:%s' % (n, k), '%s of the listener %s does not follow from its proxy mode' % (k, n), F)
        return 'has-' + n

    def event(E, st, kind, what, vals):
        F = lambda: r.facts(st)
        for v in vals:
            for x in walk(v):
                if x.op == 'agg' and str(x.a[0]).endswith('ConnectionArgs'):
                    key = (x, tuple(sorted((str(k), str(w)) for k, w in st.facts.items() if depends(k, fld(G, 'config.listeners')))))
                    r.add(st, judge(E, st, x, F))
        if kind == 'return':
            r.count('returns')
            for n in SECTIONS:
                d = E.value(st, discr(SEC[n], 2))
                if d is Int(1):
                    ctx.require('has-' + n in st.ps[1], n + ':missing', 'the listener %s is configured and not started' % n, F)

    class Known(Labels):
        """what is known of the configuration where the servers are started stays known"""
        def on_assume(self, E, st, t, v):
            x, n = zero(t, v)
            for k in SECTIONS:
                w = self.where[k]
                if x is SEC[k] and w is not None and (w is Int(0)) != (n == 0):
                    return False
            return super().on_assume(E, st, t, v)

    for co, where in cos:
        body = co.a[0].split(':', 1)[1]
        r = Known(r'into_iter$|::iter$|::spawn$|::flatten$|rt::listen$|::serve$|::collect$|::flat_map$|is_empty$|::push$|::extend$', event, opaque=r'rt::listen$|::serve$|::spawn$|::flat_map$', learn=lambda *a: None)
        r.where = where
        E = r.E = Engine(ctx.P, r)
        E.run(body, [co, sym('cx')])
        ctx.engine(E)
    ctx.floor('servers', len(cos), 1)
    ctx.floor('listeners', len(seen), 4)
    ctx.floor('tls contexts', r0.n.get('tls contexts', 0), 2)


def sockets(ctx):
    if ctx.anchor(LISTEN) is None:
        return
    names = argnames(ctx.P, LISTEN)
    tys = [re.sub(r'.*::', '', ctx.P.body(LISTEN).locals[i + 1][0]) for i in range(len(names))]
    A = next((sym(n) for t, n in zip(tys, names) if t.startswith('ConnectionArgs')), None)
    R = next((sym(n) for t, n in zip(tys, names) if t == 'bool'), None)
    H = next((sym(n) for t, n in zip(tys, names) if t == 'H'), None)
    G = sym('global')
    track = {'reuse': lambda E, st: (lambda x: None if x is None else x is TRUE)(E.value(st, R) if R is not None else None)}
    tasks = []

    def event(E, st, kind, what, vals):
        g = st.ps[1]
        F = lambda: [' '.join(g)] + r.facts(st)
        if kind == 'call' and what == 'set_reuseport':
            on = vals[1] is TRUE or vals[1] is R and r.k(st, 'reuse')
            ctx.require(not on or r.k(st, 'reuse') is True, 'shared', 'the port is shared though the listener does not say so', F)
            return 'shared' if on or vals[1] is R else None
        if kind == 'call' and what == 'bind':
            r.count('bound')
            b, a = vals[-1], fld(A, 'addr')
            part = any(called(x, 'port') for x in walk(b)) and not any(called(x, 'ip') for x in walk(b)) and b.op != 'phi'
            ctx.require(b is a or not understood(b) and not part, 'bind', 'another address is listened on than the one of the listener', F)
            ctx.require(r.k(st, 'reuse') is False or 'shared' in g, 'unshared', 'the port is not shared though the listener says so', F)
        if kind == 'call' and what == 'spawn':
            tasks.extend(v for v in vals if v.op == 'agg' and str(v.a[0]).startswith('coroutine:') and v not in tasks)
            return 'served'
        if kind == 'call' and what == 'accept':
            r.count('accepts')
        return None
    class S(Labels):
        def on_back(self, E, st, *a):
            self.add(st, None)
    r = S(r'::set_reuseport$|::bind$|::spawn$|TcpListener::accept$', event, track=track, opaque=r'::set_reuseport$|::bind$|::spawn$|TcpListener::accept$', learn=lambda *a: None)
    run(ctx, LISTEN, r)
    n = [0]

    def serve(E, st, kind, what, vals):
        F = lambda: r2.facts(st)
        if kind == 'call' and what == 'handle_accept':
            n[0] += 1
            ctx.require(depends(vals[1], A) and not (vals[1].op == 'agg') or vals[1] is A or not understood(vals[1]) or all(y is fld(A, k) for k, y in vals[1].a[3]), 'args', 'a connection is served as one of another listener', F)
            acc = lambda v, i: any(called(x, 'accept') for x in walk(v)) and v.op == 'fld' and str(v.a[1][-1]) == i
            ctx.require(acc(vals[0], '0') or not any(called(x, 'accept') for x in walk(vals[0])), 'conn', 'another connection is served', F)
            ctx.require(acc(vals[2], '1') or not understood(vals[2], skip=[x for x in walk(vals[2]) if called(x, 'accept')]), 'peer', 'a connection is served with another address than its own', F)
            ctx.require(vals[3] is H or H is None or not understood(vals[3]), 'hook', 'a connection is served with another hook', F)
            ctx.require(vals[4] is G or not understood(vals[4]), 'global', 'a connection is served for another broker', F)
            return 'served'
        if kind == 'return':
            ctx.require('served' in st.ps[1], 'unserved', 'a connection is accepted and not served', F)
    for co in tasks:
        r2 = Labels(r'::handle_accept$', serve, opaque=r'::handle_accept$', learn=lambda *a: None)
        E = r2.E = Engine(ctx.P, r2)
        E.run(co.a[0].split(':', 1)[1], [co, sym('cx')])
        ctx.engine(E)
    ctx.floor('bound', r.n.get('bound', 0), 2)
    ctx.floor('accepts', r.n.get('accepts', 0), 1)
    ctx.floor('served', n[0], 1)


RULES = {'N01': n01, 'N02': n02}
