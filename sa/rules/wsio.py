"""X01 reading from WebSocket and TLS connections, X02 writing to them"""
from _base import *
from dispatch import Labels, zero
from subscribe import called

WS = '<server::WebSocketWrapper<S> as tokio::io::async_%s>::poll_%s'
TLSW = '<server::TlsWrapper<S> as tokio::io::async_%s>::poll_%s'
TRAIT = {'read': 'read::AsyncRead', 'write': 'write::AsyncWrite', 'flush': 'write::AsyncWrite', 'shutdown': 'write::AsyncWrite'}
OQ = r'::poll_(read|write|flush|shutdown|next|ready|close)$|::start_send$|::put_slice$|::send_async$'
POLL = ['Ready', 'Pending']


class Io(Labels):
    """keeps, as labels of the path, which result the last poll of the stream had"""
    def __init__(self, ctx, S, event, track, **kw):
        super().__init__(OQ, event, track=track, writes=('read_data', 'read_data_idx', 'pending_pong', 'closed'), opaque=OQ)
        self.S = S
        self.polls = {}
        self.names = [x['name'] for x in next(a for k, a in ctx.P.adts.items() if k.endswith('protocol::message::Message'))['variants']]

    def on_result(self, E, st, c, val):
        n = short(c.res or c.name)
        if n in ('poll_next', 'poll_ready', 'poll_close', 'poll_flush', 'start_send'):
            self.polls.setdefault(val, n)
            self.drop_label(st, n + ':')
            self.drop_label(st, 'empty:') if n == 'poll_next' else None
            self.seen(E, st, val, n)

    def drop_label(self, st, k):
        st.ps = (st.ps[0], tuple(x for x in st.ps[1] if not x.startswith(k)))

    def variant(self, E, st, x, n):
        v = project_value(E, st, x)
        if v.op == 'agg':
            return v.a[2]
        d = E.value(st, discr(x, n))
        return d.a[0] if d is not None and d.op == 'int' else None

    def seen(self, E, st, x, n):
        w = self.variant(E, st, x, 2) if n != 'start_send' else None
        if w in (1, 'Pending'):
            return self.add(st, n + ':pending')
        if w not in (0, 'Ready') and n != 'start_send':
            return
        y = x if n == 'start_send' else project(x, ('f', 'Ready', '0'))
        if n == 'poll_next':
            w = self.variant(E, st, y, 2)
            if w in (0, 'None'):
                return self.add(st, n + ':none')
            if w not in (1, 'Some'):
                return
            y = project(y, ('f', 'Some', '0'))
        w = self.variant(E, st, y, 2)
        if w in (1, 'Err'):
            return self.add(st, n + ':err')
        if w not in (0, 'Ok'):
            return
        if n != 'poll_next':
            return self.add(st, n + ':ok')
        y = project(y, ('f', 'Ok', '0'))
        w = self.variant(E, st, y, len(self.names))
        if w is None:
            ex = [i for i in range(len(self.names)) if E.decide(st, mk('eqc', discr(y, len(self.names)), Int(i))) is not False]
            w = ex[0] if len(ex) == 1 else None
        if w is not None:
            w = w if isinstance(w, str) else self.names[w]
            self.add(st, n + ':' + w)
            if w == 'Binary':
                z = E.decide(st, eq0(length(project(y, ('f', 'Binary', '0')))))
                if z is not None:
                    self.add(st, 'empty:%s' % z)

    def on_assume(self, E, st, t, v):
        for x, n in list(self.polls.items()):
            if depends(t, x):
                self.seen(E, st, x, n)
        return Flow.on_assume(self, E, st, t, v)


def project_value(E, st, x):
    v = E.value(st, x)
    return v if v is not None else x


def fld_of(S, v, f):
    return project(S, ('f', v, f))


def final(st, S, f):
    v = self_value(st, S.a[0])
    return project(S if v is None else v, ('f', 'WebSocket', f))


def parts(x):
    """(base, start, end) of a slice"""
    if x.op == 'fld' and x.a[1][0] == 's':
        return x.a[0], x.a[1][1], x.a[1][2] if x.a[1][2] is not None else length(x.a[0])
    return x, Int(0), length(x)


ERR = ('poll_next:err', 'poll_ready:err', 'poll_flush:err', 'poll_close:err', 'start_send:err', 'poll_next:Text', 'poll_next:Pong', 'poll_next:Frame', 'poll_next:Close', 'poll_next:none')
PENDING = ('poll_next:pending', 'poll_ready:pending', 'poll_flush:pending', 'poll_close:pending')


def polled(E, st, v):
    """what the poll function returns: (variant, Ok or Err, value)"""
    if v.op == 'agg' and v.a[2] == 'Pending':
        return 'pending', None
    if v.op == 'agg' and v.a[2] == 'Ready':
        x = project(v, ('f', 'Ready', '0'))
        ok = ok_of(E, st, x)
        return {True: 'ok', False: 'err', None: None}[ok], project(x, ('f', 'Ok', '0')) if ok else None
    d = E.value(st, discr(v, 2))
    if d is Int(1):
        return 'pending', None
    if d is Int(0):
        x = project(v, ('f', 'Ready', '0'))
        ok = ok_of(E, st, x)
        return {True: 'ok', False: 'err', None: None}[ok], project(x, ('f', 'Ok', '0')) if ok else None
    return None, None


class Conn:
    """one method of the wrappers"""
    def __init__(self, ctx, m, path):
        self.ctx, self.m = ctx, m
        names = argnames(ctx.P, path)
        self.args = [sym(x) for x in names]
        self.S = self.args[0]
        self.vs = [x['name'] for x in next(a for k, a in ctx.P.adts.items() if k.endswith('server::TlsWrapper' if 'TlsWrapper' in path else 'server::WebSocketWrapper'))['variants']]
        self.D, self.I, self.P, self.C = [fld_of(self.S, 'WebSocket', f) for f in ('read_data', 'read_data_idx', 'pending_pong', 'closed')]
        track = {'arm ' + x: lambda E, st, i=i: (lambda d: None if d is None else d is Int(i))(E.value(st, discr(self.S, len(self.vs)))) for i, x in enumerate(self.vs)}
        if 'WebSocket' in self.vs:
            track['closed'] = lambda E, st: (lambda x: None if x is None else x is TRUE)(E.value(st, self.C))
            track['owed'] = lambda E, st: (lambda d: None if d is None else d is Int(1))(E.value(st, discr(self.P, 2)))
        if m == 'read':
            track['left'] = lambda E, st: E.decide(st, lt(self.I, length(self.D)))
        self.r = Io(ctx, self.S, self.event, track)
        self.puts = []
        run(ctx, path, self.r)

    def arm(self, st):
        return next((x for x in self.vs if self.r.k(st, 'arm ' + x) is True), None)

    def ok(self, cond, key, what, st, extra=''):
        if not cond:
            self.r.count('violations')
        return self.ctx.require(cond, 'poll_%s:%s' % (self.m, key), what + extra, [' '.join(st.ps[1])] + self.r.facts(st))

    def event(self, E, st, kind, what, vals):
        arm = self.arm(st)
        if kind == 'panic':
            return None
        if arm is None:
            if kind == 'return' or what != 'write':
                self.ok(kind != 'return', 'arm', 'the kind of connection is not looked at', st)
            return None
        if arm != 'WebSocket':
            return self.direct(E, st, arm, kind, what, vals)
        return self.ws(E, st, kind, what, vals)

    def direct(self, E, st, arm, kind, what, vals):
        """handed on to the connection inside"""
        if kind == 'call':
            want = [fld_of(self.S, arm, '0')] + self.args[1:]
            self.ok(what == 'poll_' + self.m, arm + ':other', 'poll_%s calls another function of the connection' % self.m, st)
            for x, y in zip(vals, want):
                self.ok(x is y or not understood(x, skip=[self.S]), arm + ':args', 'the call of the connection is given something else', st)
            self.ok('direct' not in st.ps[1], arm + ':twice', 'the connection is called twice', st)
            return 'direct'
        if kind == 'return':
            self.r.count('handed on')
            self.ok('direct' in st.ps[1] and (any(called(x, 'poll_' + self.m) for x in walk(vals[0])) or not understood(vals[0])), arm + ':result',
                    'the result of the connection is not what is returned', st)

    def put(self, st):
        n = self.r.got(st, 'put')
        return self.puts[int(n)] if n is not None else None

    def pong_kept(self, E, st):
        """the pong that is owed is sent or still noted"""
        g = st.ps[1]
        cur = final(st, self.S, 'pending_pong')
        if 'poll_next:Ping' in g:
            if 'pong:sent' in g:
                return True
            return not understood(cur, skip=list(self.r.polls)) or cur.op == 'agg' and cur.a[2] == 'Some' and any(x.op == 'fld' and x.a[1][1:] == ('Ping', '0') for x in walk(cur))
        if self.r.k(st, 'owed') is True and 'first:sent' not in g and 'pinged' not in g:
            return cur is self.P or depends(cur, project(self.P, ('f', 'Some', '0'))) or not understood(cur)
        return True

    def ws(self, E, st, kind, what, vals):
        g = st.ps[1]
        put = self.put(st)
        if kind == 'write':
            return None
        if kind == 'call' and what == 'poll_next':
            self.r.count('poll_next')
            cur = final(st, self.S, 'read_data')
            if cur is self.D:
                about = [f for f in list(st.facts) + list(st.excl) if depends(f, self.I) or depends(f, self.D)]
                unclear = any(not understood(f, skip=[y for y in walk(f) if called(y, 'remaining')]) for f in about)
                left = self.r.k(st, 'left')
                self.ok(left is False or left is None and unclear, 'skipped', 'the next message is read though the last one is not used up', st)
            if 'poll_next:Binary' in g and 'empty:True' not in g and put is None:
                self.ok(not understood(cur, skip=list(self.r.polls)), 'lost', 'a message is passed over', st)
            self.ok(not any('poll_next:' + x in g for x in ('Text', 'Pong', 'Frame')), 'kind', 'a message that is not allowed is passed over', st)
            self.ok(put is None, 'over', 'the next message is read after bytes have been handed out', st)
            self.pongs(E, st)
            return 'pinged' if 'poll_next:Ping' in g else None
        if kind == 'call' and what == 'put_slice':
            self.r.count('put_slice')
            x = vals[1]
            base, lo, hi = parts(x)
            if not understood(base, skip=list(self.r.polls)):
                return 'put:%d' % self.note(None)
            if put is not None:
                self.ok(put[0] is not base or E.decide(st, eq0(sub(lo, put[2]))) is not False, 'order', 'bytes are handed out that do not follow the ones before', st)
            elif base is self.D:
                self.ok(E.decide(st, eq0(sub(lo, self.I))) is True or not understood(lo), 'start', 'the bytes handed out do not start where the last read ended', st)
            else:
                self.ok(base.op == 'fld' and base.a[1][1:] == ('Binary', '0'), 'bytes', 'bytes are handed out that are not of a binary message', st)
                self.ok(E.decide(st, eq0(lo)) is True, 'start', 'the bytes handed out do not start with the first of the message', st)
            n = sub(hi, lo)
            self.ok(E.decide(st, lt(Int(0), n)) is True or called(n, 'remaining') or not understood(n, skip=[y for y in walk(n) if called(y, 'remaining')] + list(self.r.polls)), 'none', 'no byte is handed out, which reads as the end of the connection', st)
            return 'put:%d' % self.note((base, lo, hi))
        if kind == 'call' and what == 'start_send':
            return self.send(E, st, vals)
        if kind == 'call' and what == 'poll_flush':
            return 'flushed:yes' if any(x.startswith('bin:') for x in g) else None
        if kind == 'call' and what == 'poll_ready' and 'poll_next:Ping' in g:
            return 'tried:yes'
        if kind == 'return':
            self.r.count('returns')
            res, v = polled(E, st, vals[0])
            if res is None and self.m in ('flush', 'shutdown') and not understood(vals[0]):
                return None
            self.result(E, st, res, v, put)
        return None

    def note(self, p):
        if p not in self.puts:
            self.puts.append(p)
        return self.puts.index(p)

    def pongs(self, E, st):
        self.ok(self.pong_kept(E, st), 'pong', 'the answer to a ping is lost', st)
        if 'poll_next:Ping' in st.ps[1]:
            self.ok('tried:yes' in st.ps[1] or self.r.k(st, 'closed') is True, 'unanswered', 'a ping is not answered', st)
            self.r.count('pings')

    def send(self, E, st, vals):
        g = st.ps[1]
        m = next((x for x in walk(vals[1]) if x.op == 'agg' and str(x.a[0]).endswith('Message')), None)
        if m is None:
            return None
        self.ok('poll_ready:ok' in g, 'ready', 'a message is sent though the connection is not ready for it', st)
        x = project(m, ('f', m.a[2], '0'))
        if m.a[2] == 'Pong':
            self.r.count('pongs')
            first = x is project(self.P, ('f', 'Some', '0'))
            self.ok(first or any(y.op == 'fld' and y.a[1][1:] == ('Ping', '0') for y in walk(x)) or not understood(x), 'echo', 'a pong with other data than the ping is sent', st)
            return 'first:sent' if first else 'pong:sent'
        if m.a[2] == 'Binary':
            self.r.count('binary')
            self.ok(self.m == 'write', 'write', 'data is sent by poll_%s' % self.m, st)
            self.ok(not any(y.startswith('bin:') for y in g), 'twice', 'the data is sent twice', st)
            if self.m == 'write':
                b, lo, hi = parts(x)
                self.ok(b is self.args[2] and E.decide(st, eq0(lo)) is True or not understood(x), 'data', 'other data than what is to be written is sent', st)
                return 'bin:%d' % self.note((b, lo, hi))
        if m.a[2] == 'Close':
            self.r.count('close')
            self.ok(self.m == 'shutdown', 'close', 'poll_%s closes the WebSocket' % self.m, st)
            self.ok(self.r.k(st, 'closed') is False, 'closed', 'Close is sent again', st)
            return 'close:sent'
        self.ok(m.a[2] in ('Pong', 'Binary', 'Close'), 'message', 'a message of another kind is sent', st)
        return None

    def result(self, E, st, res, v, put):
        g = st.ps[1]
        self.ok(res is not None, 'result', 'the result of poll_%s does not follow from the one of the WebSocket' % self.m, st)
        if res == 'pending':
            self.ok(any(x in g for x in PENDING), 'pending', 'poll_%s waits though nothing will wake it' % self.m, st)
            self.ok(self.m != 'read' or 'put' not in [x.split(':')[0] for x in g], 'handed', 'bytes are handed out together with Pending, so they are lost', st)
            self.ok(not any(x.startswith('bin:') for x in g), 'again', 'the data is sent and will be written again', st)
        if res == 'err':
            self.ok(any(x in g for x in ERR), 'error', 'an error is made up', st)
        if res in ('pending', 'ok'):
            self.pongs(E, st) if self.m in ('read', 'write') else None
        if res != 'ok':
            return
        bad = [x for x in g if x in ERR and x not in ('poll_next:Close', 'poll_next:none')]
        self.ok(not bad, 'failed', 'poll_%s succeeds though the WebSocket failed or had a message that is not allowed' % self.m, st)
        cur = lambda f: final(st, self.S, f)
        if self.m == 'read':
            if put is None:
                if 'put' not in [x.split(':')[0] for x in g]:
                    self.ok('poll_next:none' in g or 'poll_next:Close' in g, 'end', 'the end of the connection is made up', st)
                return
            base, lo, hi = put
            self.r.count('reads')
            self.ok(cur('read_data') is base or not understood(cur('read_data'), skip=list(self.r.polls)), 'rest', 'the rest of the message is not kept', st)
            i = cur('read_data_idx')
            self.ok(E.decide(st, eq0(sub(i, hi))) is True or not understood(i, skip=[y for y in walk(i) if called(y, 'remaining')] + list(self.r.polls)), 'index',
                    'the position noted is not where the bytes handed out end', st)
        if self.m == 'write':
            n = self.r.got(st, 'bin')
            self.ok(n is not None, 'unsent', 'data is reported as written that was not sent', st)
            if n is not None:
                b, lo, hi = self.puts[int(n)]
                self.ok(E.decide(st, eq0(sub(v, hi))) is True or not understood(v), 'length', 'the number of bytes reported is not the number sent', st)
                self.ok('flushed:yes' in g, 'stuck', 'data is reported as written that is left in the buffer', st)
                self.r.count('writes')
        if self.m == 'flush':
            self.ok('poll_flush:ok' in g, 'flush', 'flushing is reported as done though it is not', st)
        if self.m == 'shutdown':
            self.ok('poll_close:ok' in g, 'end', 'the connection is reported as shut down though it is not', st)
            if 'close:sent' in g:
                c = cur('closed')
                self.ok(c is TRUE or not understood(c), 'noted', 'it is not noted that Close has been sent', st)


def methods(ctx, ms, need):
    n = {}
    for m in ms:
        for f in (WS, TLSW):
            path = f % (TRAIT[m], m)
            if ctx.anchor(path) is None:
                continue
            c = Conn(ctx, m, path)
            for k, v in c.r.n.items():
                n[k] = n.get(k, 0) + v
    for k, least in need.items():
        ctx.floor(k, n.get(k, 0), least)
    return n


def x01(ctx):
    ctx.rule = ('property simulation of poll_read of both wrappers: which part of which message is handed out, what is noted as used up, and what is done with every kind of '
                'message, for every state the connection can be in')
    return methods(ctx, ['read'], {'poll_next': 1, 'put_slice': 1, 'handed on': 3, 'reads': 2, 'pings': 1, 'pongs': 1})


def x02(ctx):
    ctx.rule = ('property simulation of poll_write, poll_flush and poll_shutdown of both wrappers: what is sent, what is reported and which result of the WebSocket it follows from')
    return methods(ctx, ['write', 'flush', 'shutdown'], {'binary': 1, 'writes': 1, 'handed on': 9, 'close': 1, 'returns': 6})


RULES = {'X01': x01, 'X02': x02}
