"""CONNECT: A03 who is let in, A04 enhanced authentication, C01 what is refused, C02 CONNACK of MQTT 5, C03 taking over a session"""
from _base import *
from forward import V3, V5, val3, opt
from auth import AU
import terms

G, S, PK = sym('global'), sym('session'), sym('packet')
ENABLE = fld(G, 'config.auth.enable')
USER, PASS = fld(PK, 'username'), fld(PK, 'password')
STEP = r'::add_client$|::session_connect$|::scram_client_first$'
IO = r'|RouteTable::(un)?subscribe$|::write_packet$|::build_error_connack$|::build_error_disconnect$|::start_keep_alive_timer$'


def has(E, st, o):
    """is the option Some on this path"""
    if o.op == 'agg':
        return o.a[2] == 'Some'
    d = E.value(st, discr(o, 2))
    return None if d is None else d is Int(1)


def password_ok(st):
    """outcome of check_password for exactly this user name and password"""
    for f, v in st.facts.items():
        if f.op == 'call' and str(f.a[0]).endswith('check_password'):
            a = [x for x in f.a[1:] if isinstance(x, terms.T)]
            if a[-3:] == [fld(G, 'auth_passwords'), fld(USER, 'Some.0'), fld(PASS, 'Some.0')]:
                return v is TRUE or v is Int(1)
    return None


GATE = {'enabled': lambda E, st: val3(E, st, ENABLE), 'user': lambda E, st: has(E, st, USER), 'password': lambda E, st: has(E, st, PASS),
        'right': lambda E, st: password_ok(st)}


def gate(r, st):
    """'open': no authentication configured; True/False: user name and password are right/wrong; None: not known yet"""
    k = dict(st.ps[0])
    if k.get('enabled') is False:
        return 'open'
    if k.get('enabled') is None:
        return True if k.get('right') else None
    if False in (k.get('user'), k.get('password'), k.get('right')):
        return False
    return True if k.get('right') else None


def a03(ctx):
    """handle_connect of both protocols: no path reaches the client registry, enhanced authentication or `connected` without the password
    check having succeeded; BadUserNameOrPassword is answered exactly when it failed. handle_online: packets are processed only if connected."""
    for v, code in ((V3, 'ConnectReturnCode'), (V5, 'ConnectReasonCode')):
        path = v + 'connect::handle_connect'
        if ctx.anchor(path) is None:
            continue

        def event(E, st, kind, what, vals):
            F = lambda: r.facts(st)
            g = gate(r, st)
            if kind == 'call' and what in ('add_client', 'session_connect', 'scram_client_first') or kind == 'write' and vals[0] is TRUE:
                r.count('entered')
                ctx.require(g in ('open', True), 'entered:%s%s' % (v, what), 'a client reaches %s although its password was not checked' % what, F)
            elif kind == 'call' and what == 'write_packet':
                cs = [c for x in vals for c in of_ty(x, code)]
                if 'BadUserNameOrPassword' in cs:
                    r.count('refused')
                    ctx.require(g is False, 'refused:' + v, 'a client is refused for its password although that is right or not needed', F)
                    return 'bad'
                if cs and cs[0] not in ('Accepted', 'Success'):
                    return 'other'
            elif kind == 'return' and g is False and ok_of(E, st, vals[0]) is not False:
                r.count('rejected')
                ctx.require(bool(r.hist(st)), 'answered:' + v, 'a client with a wrong password gets no answer', F)
            elif kind == 'panic':
                ctx.require('entered' in r.hist(st), 'panic:' + v, 'a CONNECT can make the server panic (%s)' % what, F)
            return 'entered' if what in ('add_client', 'session_connect') else None
        r = Flow(STEP + r'|::write_packet$', event, GATE, ('connected',), STEP + r'|::check_password$' + IO)
        run(ctx, path, r, join_limit=40)
        for k, m in (('entered', 1), ('refused', 1), ('rejected', 1)):
            ctx.floor('connect %s %s' % (v, k), r.n.get(k, 0), m)
        online(ctx, v)


def online(ctx, v):
    """the packet loop starts only on paths where the session is connected"""
    path = v.replace('packet::', 'message::handle_online')
    if ctx.anchor(path) is None:
        return
    n = [0]
    r = Online(ctx, v, n)
    run(ctx, path, r, join_limit=40)
    ctx.floor('online loops ' + v, n[0], 1)


PREP = re.compile(r'_hook$|::after_handle_packet$|::handle_pendings$')
GATES = re.compile(r'::handle_connect$|::session_connect$|::handle_auth$')


def connected(E, st, s):
    try:
        return val3(E, st, fld(s, 'connected')) is True
    except Exception:
        return False


class Online(Rule):
    obligations = False
    init = ()
    opaque = re.compile(r'::handle_connect$|::session_connect$|::handle_auth$|::write_packet$|_hook$|::handle_will$|::after_handle_packet$|::build_error\w+$|'
                        r'OnlineLoop.*::poll$|::handle_pendings$|decode_\w+$|::broadcast_packets$|::remove_client|::offline_client')

    def __init__(self, ctx, v, n):
        self.ctx, self.v, self.n = ctx, v, n

    def pin(self, f):
        return any(x.op == 'fld' and x.a[1][-1] == 'connected' for x in walk(f)) or 'connected' in str(f)[-60:]

    def on_call(self, E, st, c):
        name = c.res or c.name or ''
        if PREP.search(name) and st.ps != 'ok' and any(connected(E, st, E.deref(st, a)) for a in c.args):
            st.ps = 'ok'
        elif GATES.search(name):
            st.ps = ()
        for nm in (c.res, c.name):
            if nm and re.search(r'OnlineLoop(::<.*>)?::new$', nm):
                s = E.deref(st, c.args[0])
                t = fld(s, 'connected')
                self.n[0] += 1
                self.ctx.require(st.ps == 'ok' or val3(E, st, t) is True, 'loop:' + self.v,
                                 'packets are processed on a connection that is not connected', lambda: facts_text(st) + [str(t)[:200]])
                break
        return None



METHOD, DATA = fld(PK, 'properties.auth_method'), fld(PK, 'properties.auth_data')
MECHS = fld(G, 'config.sasl_mechanisms')
SM = fld(S, 'scram_stage.machine')


def unwrap(t, *names):
    """fields of a single-variant wrapper chain"""
    for n in names:
        t = fld(t, n)
    return t


def final(st, root, name):
    """value of a field of what an argument points to, at the end of the path"""
    v = st.mem.get(('S', root))
    return fld(root if v is None else v, name)


def mech_ok(E, st):
    """is the mechanism named by the client one of those configured"""
    for f, v in st.facts.items():
        t = f.a[0] if f.op == 'discr' else f
        if t.op == 'pure' and t.a[0] == 'mapget' and t.a[1] is MECHS and depends(t.a[2], METHOD):
            return v in (Int(1), TRUE)
    return None


def a04(ctx):
    """MQTT 5 enhanced authentication, four functions. handle_connect: a CONNECT naming a method is never connected by itself and only a
    configured mechanism starts an exchange. scram_client_first: a fresh exchange with the stored record of the user named. handle_auth: Success
    only for the same method, a running exchange and an Authenticated verdict; the identities recorded are those of the exchange. handle_online:
    connects only after such a Success and announces its data."""
    path = V5 + 'connect::handle_connect'
    if ctx.anchor(path) is not None:
        track = {'method': lambda E, st: has(E, st, METHOD), 'data': lambda E, st: has(E, st, DATA), 'mechanism': mech_ok}

        def event(E, st, kind, what, vals):
            F = lambda: r.facts(st)
            if kind == 'call' and what == 'session_connect':
                r.count('plain')
                ctx.require(r.k(st, 'method') is False, 'connect-with-method', 'a client that asked for enhanced authentication is connected without it', F)
                ctx.require(r.k(st, 'method') is not False or r.k(st, 'data') is False, 'data-without-method', 'authentication data without a method is accepted', F)
            elif kind == 'call' and what == 'scram_client_first':
                r.count('scram')
                ctx.require(r.k(st, 'method') is True and r.k(st, 'mechanism') is True, 'mechanism', 'an exchange starts with a mechanism that is not configured', F)
                ctx.require(DATA in vals or not all(map(understood, vals)), 'first-data', 'the exchange does not start with the data of the CONNECT', F)
            elif kind == 'write' and what == 'connected':
                ctx.require(vals[0] is not TRUE or r.k(st, 'method') is False, 'connect-with-method', 'a client that asked for enhanced authentication is connected without it', F)
            elif kind == 'write' and what == 'auth_method':
                return 'method' if vals[0] is METHOD else 'other'
            elif kind == 'return' and ok_of(E, st, vals[0]) is not False and r.k(st, 'method'):
                ctx.require('other' not in r.hist(st), 'method-kept', 'the method of the CONNECT is not the one kept for AUTH packets', F)
            return None
        r = Flow(r'::session_connect$|::scram_client_first$', event, track, ('connected', 'auth_method'), STEP + r'|::check_password$' + IO)
        run(ctx, path, r, join_limit=40)
        for k in ('plain', 'scram'):
            ctx.floor('connect ' + k, r.n.get(k, 0), 1)
    first(ctx)
    auth(ctx)
    path = V5.replace('packet::', 'message::handle_online')
    if ctx.anchor(path) is not None:
        r = AuthLoop(ctx)
        run(ctx, path, r, join_limit=40)
        ctx.floor('connections after AUTH', r.n, 1)


def first(ctx):
    path = V5 + 'connect::scram_client_first'
    if ctx.anchor(path) is None:
        return
    r = Collect(opaque=re.compile(r'::build_error\w+$'), peel=lambda body, bb: 4)
    E = run(ctx, path, r, join_limit=1500)
    data = params(ctx, path, r'^core::option::Option<')[0]
    n = 0
    for val, st in r.rets:
        F = facts_text(st)
        ok = ok_of(E, st, val)
        m, a = final(st, S, 'scram_stage.machine'), final(st, S, 'authorizing')
        if ok is False:
            continue
        n += 1
        ctx.require(a is TRUE, 'not-authorizing', 'an exchange that was started cannot be continued', F)
        if m.op != 'agg':
            ctx.require(not understood(m), 'exchange-state', 'the exchange is not waiting for client-final: %s' % str(m)[:100], F)
            continue
        ctx.require(m.a[2] == 'WaitingForClientFinal', 'exchange-state', 'the exchange is not waiting for client-final: %s' % m.a[2], F)
        if m.a[2] != 'WaitingForClientFinal':
            continue
        who, hp, sf = fld(m, 'WaitingForClientFinal.authcid'), fld(m, 'WaitingForClientFinal.hashed_password'), fld(m, 'WaitingForClientFinal.server_first')
        rec = fld(mk('pure', 'mapget', fld(G, 'config.scram_users'), who), 'Some.0')
        ctx.require(only_from(who, data) or not understood(who), 'user', 'the user is not the one named in the data', F)
        ctx.require(hp is fld(rec, 'hashed_password') or not understood(hp), 'record', 'the password hash is not that of the user named: %s' % str(hp)[:150], F)
        out = fld(val, 'Ok.0')
        ctx.require(out is sf or not understood(out), 'server-first', 'what is sent is not the server-first message of the exchange', F)
        for k in ('salt', 'iterations'):
            ctx.require(depends(sf, fld(rec, k)), 'record-' + k, 'the %s sent is not that of the user named' % k, F)
        ctx.require(has(E, st, mk('pure', 'mapget', fld(G, 'config.scram_users'), who)) is True, 'unknown-user', 'an exchange is started for a user without a record', F)
    ctx.floor('exchanges started', n, 1)


def some_known(E, st, o):
    return has(E, st, o) is True


def auth(ctx):
    path = V5 + 'connect::handle_auth'
    if ctx.anchor(path) is None:
        return
    r = Collect(opaque=re.compile(r'::build_error\w+$|::scram_client_first$|::decode_client_final$'))
    E = run(ctx, path, r, join_limit=1500)
    codes = ctx.P.adts.get('mqtt_proto::v5::types::AuthReasonCode') or next((v for k, v in ctx.P.adts.items() if k.endswith('::AuthReasonCode')), None)
    discrs = {v['name']: int(v['discr']) for v in codes['variants']} if codes else {}
    stats = next((v for k, v in ctx.P.adts.items() if k.endswith('::AuthenticationStatus')), None)
    auth_ok = int(next(v['discr'] for v in stats['variants'] if v['name'] == 'Authenticated'))
    machine = next((v for k, v in ctx.P.adts.items() if k.endswith('server::ScramServer')), None)
    wait = [i for i, v in enumerate(machine['variants']) if v['name'] == 'WaitingForClientFinal']
    n = {'Success': 0, 'ContinueAuthentication': 0}
    for val, st in r.rets:
        F = facts_text(st)
        if ok_of(E, st, val) is False:
            continue
        code, data = fld(val, 'Ok.0.0'), fld(val, 'Ok.0.1')
        if code.op != 'agg':
            ctx.require(not understood(code), 'code', 'the answer has reason code %s' % code, F)
            continue
        kind = code.a[2]
        n[kind] = n.get(kind, 0) + 1
        ms = [fld(S, 'auth_method'), METHOD]
        same = [v is TRUE or v is Int(1) for f, v in st.facts.items() if f.op == 'eq' and (set(f.a) == set(ms) or set(f.a) == {fld(m, 'Some.0') for m in ms})]
        ctx.require(same == [True], 'method', 'an AUTH packet with another method than the CONNECT is accepted', F)
        ctx.require(has(E, st, fld(S, 'auth_method')) is True or has(E, st, fld(PK, 'properties.auth_method')) is True, 'no-method', 'an AUTH packet is accepted although the CONNECT named no method', F)
        rc = E.value(st, discr(fld(PK, 'reason_code'), 3))
        finals = {x for f in list(st.facts) + [data] for x in walk(f) if x.op == 'call' and str(x.a[0]).endswith('::decode_client_final')}
        running = val3(E, st, fld(S, 'authorizing'))
        if kind == 'Success':
            ctx.require(rc is Int(discrs.get('ContinueAuthentication', -1)), 'success-code', 'an AUTH packet that does not continue an exchange completes it', F)
            ctx.require(running is True, 'success-idle', 'an exchange completes although none was started', F)
            good = False
            for x in finals:
                args = [y for y in x.a[1:] if isinstance(y, terms.T)][-2:]
                if args != [SM, fld(DATA, 'Some.0')]:
                    ctx.require(not all(map(understood, args)), 'final-data', 'the message verified is not the data of the AUTH packet', F)
                    continue
                verdict = E.value(st, discr(fld(x, 'Ok.0.0'), 3))
                okd = E.value(st, discr(x, 2))
                eqs = [v is TRUE or v is Int(1) for f, v in st.facts.items() if f.op in ('eq', 'eq0') and depends(f, fld(x, 'Ok.0.0'))]
                good = good or okd is Int(0) and verdict is Int(auth_ok)
                if okd is Int(0) and verdict is Int(auth_ok):
                    ctx.require(data is fld(x, 'Ok.0.1') or not understood(data, {x}), 'server-final', 'what is sent is not the server-final message of the exchange', F)
            ctx.require(good, 'success-verdict', 'an exchange completes without the verdict Authenticated', F)
            ctx.require(final(st, S, 'authorizing') is FALSE, 'still-authorizing', 'an exchange that completed can be completed again', F)
            mv = E.value(st, discr(SM, 4))
            if mv is not None and mv.a[0] in wait or mv is None and not st.excl.get(discr(SM, 4)):
                res = final(st, S, 'scram_auth_result')
                w = fld(SM, 'WaitingForClientFinal')
                got = [fld(res, 'Some.0.0'), fld(res, 'Some.0.1')]
                want = [fld(SM, 'WaitingForClientFinal.authcid'), fld(SM, 'WaitingForClientFinal.authzid')]
                ctx.require(got[0] is want[0] or not understood(got[0]), 'authcid', 'the user recorded is %s' % str(got[0])[:100], F)
                o = got[1]
                if o.op == 'agg':
                    hz = has(E, st, want[1])
                    ctx.require(hz is None or hz == (o.a[2] == 'Some') and (o.a[2] == 'None' or fld(o, 'Some.0') is fld(want[1], 'Some.0') or not understood(o)),
                                'authzid', 'the authorization identity recorded is %s' % str(o)[:100], F)
                else:
                    ctx.require(o is want[1] or not understood(o), 'authzid', 'the authorization identity recorded is %s' % str(o)[:100], F)
        elif kind == 'ContinueAuthentication':
            ctx.require(any(x.op == 'call' and str(x.a[0]).endswith('::scram_client_first') for x in walk(data)) or not understood(data), 'continue', 'the answer does not come from a new exchange', F)
            ctx.require(running is False, 'restart', 'a running exchange is started over', F)
            ctx.require(rc is Int(discrs.get('ReAuthentication', -1)), 'restart-code', 'an AUTH packet that does not ask for it starts an exchange', F)
    for k, m in n.items():
        ctx.floor('AUTH answers ' + k, m, 1)


class AuthLoop(Online):
    """st.ps = (round, connected): what handle_auth said about the packet of this round"""
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def pin(self, f):
        return any(x.op == 'call' and str(x.a[0]).endswith('::handle_auth') for x in walk(f)) and f.op != 'call'

    def on_call(self, E, st, c):
        name = c.res or c.name or ''
        if not name.endswith('::session_connect'):
            return None
        vals = [E.deep(st, x) for x in E.vals(st, c)]
        F = lambda: facts_text(st) + [str(vals[2])[:200]]
        self.n += 1
        good = False
        for f, v in st.facts.items():
            if f.op == 'discr' and f.a[0].op == 'call' and str(f.a[0].a[0]).endswith('::handle_auth') and v is Int(0):
                r = f.a[0]
                code = E.value(st, discr(fld(r, 'Ok.0.0'), 3))
                data = vals[2]
                want = fld(r, 'Ok.0.1')
                if code is Int(0) and any(x is want for x in walk(data)):
                    good = True
        self.ctx.require(good, 'connect-after-auth', 'a client is connected without a successful exchange, or with other data than its result', F)
        return None



# ---------------------------------------------------------------- C01
PROTO, CID = fld(PK, 'protocol'), fld(PK, 'client_id')
WILL = fld(PK, 'last_will')
WTOPIC = fld(WILL, 'Some.0.topic_name')
CFG = fld(G, 'config')


def is_disc(t, c, n=3):
    def f(E, st):
        d = discr(t, n)
        v = E.value(st, d)
        if v is not None:
            return v is Int(c)
        return False if any(x is Int(c) for x in st.excl.get(d, ())) else None
    return f


def zero_of(t):
    return lambda E, st: E.decide(st, eq0(t))


def starts(t, ch):
    """does the text begin with the character: starts_with, or the first char or byte compared"""
    def first(x):
        return depends(x, t) and x.op not in ('len', 'discr') and (
            x.op == 'fld' and x.a[0].op == 'item' and x.a[0].a[0].op == 'pure' and x.a[0].a[0].a[0] == 'chars' and x.a[0].a[0].a[1] is t and x.a[0].a[1] is Int(0)
            or x is project(t, ('i', Int(0))))

    def f(E, st):
        for g, v in st.facts.items():
            if not depends(g, t):
                continue
            if g.op == 'starts_with' or g.op == 'pure' and 'starts' in str(g.a[0]):
                return v is TRUE or v is Int(1)
            if g.op == 'discr' and v is Int(0) and first(fld(g.a[0], 'Some.0')):
                return False
            if g.op == 'eq':
                for x, y in (g.a, g.a[::-1]):
                    if first(fld(x, 'Some.0')) and y.op == 'agg' and y.a[2] == 'Some' and fld(y, 'Some.0') is Int(ord(ch)):
                        return v is TRUE or v is Int(1)
            if first(g) and v.op == 'int':
                return v is Int(ord(ch))
            if g.op == 'eq0':
                for x in walk(g):
                    if first(x):
                        z = E.decide(st, eq0(sub(x, Int(ord(ch)))))
                        if z is not None:
                            return z
        for g, vs in st.excl.items():
            if first(g) and any(x is Int(ord(ch)) for x in vs):
                return False
        return None
    return f


def opt_zero(o):
    """is the option Some(0)"""
    def f(E, st):
        h = has(E, st, o)
        if h is False:
            return False
        for g, v in st.facts.items():
            if g.op == 'eq' and o in g.a:
                x = g.a[0] if g.a[1] is o else g.a[1]
                if x.op == 'agg' and x.a[2] == 'Some' and fld(x, 'Some.0') is Int(0):
                    return v is TRUE or v is Int(1)
        z = E.decide(st, eq0(fld(o, 'Some.0')))
        return z if h or z is False else None
    return f


def both(a, b):
    def f(E, st):
        x, y = a(E, st), b(E, st)
        return False if False in (x, y) else True if x and y else None
    return f


def flag(t):
    return lambda E, st: val3(E, st, t)


def opt_is(o):
    return lambda E, st: has(E, st, o)


def either(o, default):
    """what Option o or a default amounts to"""
    def check(E, st, v):
        h = has(E, st, o)
        if h is None:
            return None
        return v is (fld(o, 'Some.0') if h else default)
    return check


def is_term(t):
    return lambda E, st, v: v is t


def c01(ctx):
    """handle_connect of both protocols: the conditions on a CONNECT known on each path that registers, answers or refuses the client, and the
    value every session field is given from the packet, against the table of MQTT 3.1, 3.1.1 and 5."""
    v3 = {'v310': is_disc(PROTO, 3), 'v311': is_disc(PROTO, 4), 'noid': zero_of(length(CID)), 'long': lambda E, st: E.decide(st, lt(Int(23), length(CID))),
          'checked': flag(fld(CFG, 'check_v310_client_id_length')), 'clean': flag(fld(PK, 'clean_session'))}
    prop = lambda n: fld(PK, 'properties.' + n)
    mps = fld(CFG, 'max_packet_size_client')
    v5 = {'receive0': opt_zero(prop('receive_max')), 'size0': opt_zero(prop('max_packet_size')),
          'cfg0': both(lambda E, st: (lambda h: None if h is None else not h)(has(E, st, prop('max_packet_size'))), zero_of(mps)),
          'data': opt_is(DATA), 'method': opt_is(METHOD)}
    w = {'will': opt_is(WILL), 'willempty': zero_of(length(WTOPIC)), 'willdollar': starts(WTOPIC, '$')}

    def invalid(k, v):
        """True/False/None: must this CONNECT be refused"""
        def land(*x):
            return False if False in x else None if None in x else True

        def lor(*x):
            return True if True in x else None if None in x else False
        g = k.get
        rs = [land(g('will'), lor(g('willempty'), g('willdollar')))]
        if v == V3:
            n = lambda x: None if x is None else not x
            rs += [land(g('v310'), lor(g('noid'), land(g('checked'), g('long')))), land(g('v311'), g('noid'), n(g('clean')))]
        else:
            rs += [g('receive0'), lor(g('size0'), g('cfg0')), land(g('data'), None if g('method') is None else not g('method'))]
        return lor(*rs), rs
    common = {'protocol': is_term(PROTO), 'username': is_term(USER), 'last_will': None}
    f3 = dict(common, clean_session=is_term(fld(PK, 'clean_session')), keep_alive=is_term(fld(PK, 'keep_alive')))
    f5 = dict(common, clean_start=is_term(fld(PK, 'clean_start')), keep_alive=keep_alive, server_keep_alive=kept,
              request_problem_info=either(prop('request_problem_info'), TRUE), max_packet_size=either(prop('max_packet_size'), mps),
              session_expiry_interval=either(prop('session_expiry_interval'), Int(0)), receive_max=either(prop('receive_max'), fld(CFG, 'max_inflight_client')),
              topic_alias_max=either(prop('topic_alias_max'), Int(0)), request_response_info=either(prop('request_response_info'), FALSE),
              user_properties=is_term(prop('user_properties')))
    for v, track, fs in ((V3, v3, f3), (V5, v5, f5)):
        path = v + 'connect::handle_connect'
        if ctx.anchor(path) is None:
            continue
        table(ctx, path, v, dict(track, **w), invalid, fs)


def keep_alive(E, st, v):
    p, lo, hi = fld(PK, 'keep_alive'), fld(CFG, 'min_keep_alive'), fld(CFG, 'max_keep_alive')
    if E.decide(st, lt(hi, lo)) is True and v in (lo, hi):
        return True                 # not a valid configuration
    if v is p:
        return E.decide(st, lt(p, lo)) is False and E.decide(st, lt(hi, p)) is False
    if v is hi:
        return E.decide(st, lt(p, hi)) is False or E.decide(st, lt(hi, p)) is True
    if v is lo:
        return E.decide(st, lt(lo, p)) is False or E.decide(st, lt(p, lo)) is True
    return False


def kept(E, st, v):
    p = fld(PK, 'keep_alive')
    cur = final(st, S, 'keep_alive')
    if cur is S or cur is fld(S, 'keep_alive'):
        return None
    x = E.decide(st, v)
    same = E.decide(st, eq0(sub(cur, p)))
    return None if x is None or same is None else x is not same


def table(ctx, path, v, track, invalid, fs):
    def event(E, st, kind, what, vals):
        F = lambda: r.facts(st)
        bad, why = invalid(dict(st.ps[0]), v)
        done = [x for x in r.hist(st) if x[0] == 'set']
        if kind == 'call' and what in ('add_client', 'session_connect', 'scram_client_first'):
            r.count('accepted')
            odd = r.k(st, 'willdollar') is None and r.k(st, 'will') and any(depends(f, WTOPIC) and not depends(f, length(WTOPIC)) for f in st.facts)
            ctx.require(bad is False or bad is None and bool(odd), 'accepted:' + v, 'a CONNECT that must be refused is accepted', F)
            for f in fs:
                if f == 'last_will':
                    ctx.require(('set', f) in done or r.k(st, 'will') is False, 'will:' + v, 'the will of the client is not kept', F)
                else:
                    ctx.require(('set', f) in done, 'field:%s:%s' % (v, f), 'the %s of the client is not kept' % f, F)
            ctx.require(('set', 'client_identifier') in done, 'identifier:' + v, 'the client identifier is not kept', F)
            if what == 'add_client':
                a = vals[1]
                ctx.require(('set', 'client_identifier') not in done or depends(a, CID) or 'uuid' in str(a) or not understood(a), 'identifier:' + v, 'the client is registered as %s' % str(a)[:80], F)
                ctx.require(vals[2] is PROTO or not understood(vals[2]), 'protocol:' + v, 'the client is registered with protocol %s' % vals[2], F)
            return ('step', what)
        if kind == 'write' and what in fs:
            if what == 'last_will':
                good = vals[0].op == 'agg' and (vals[0].a[2] == 'Some' and fld(vals[0], 'Some.0') is fld(WILL, 'Some.0')) or vals[0] is WILL
            else:
                good = fs[what](E, st, vals[0])
            r.count(what)
            ctx.require(good is not False or not understood(vals[0]), 'value:%s:%s' % (v, what), 'the %s kept is %s' % (what, str(vals[0])[:100]), F)
            return ('set', what) if ('set', what) not in done else None
        if kind == 'write' and what == 'client_identifier':
            z = E.decide(st, eq0(length(CID)))
            if vals[0] is CID:
                r.count('given')
                ctx.require(z is False, 'identifier-empty:' + v, 'an empty client identifier is kept as it is', F)
            elif 'uuid' in str(vals[0])[:400] or not understood(vals[0]):
                r.count('assigned')
                ctx.require(z is True, 'identifier-replaced:' + v, 'the identifier of the client is replaced', F)
                return ('set', what) if ('set', 'assigned') in done else ('needs', 'assigned')
            else:
                ctx.require(False, 'identifier:' + v, 'the client identifier kept is %s' % str(vals[0])[:100], F)
            return ('set', what)
        if kind == 'write' and what == 'assigned_client_id':
            ctx.require(vals[0] is not TRUE or E.decide(st, eq0(length(CID))) is True, 'assigned:' + v, 'a client that chose its identifier is told it was assigned', F)
            return ('set', 'assigned')
        if kind == 'call' and what == 'write_packet':
            cs = [c for x in vals for c in of_ty(x, 'ConnectReturnCode' if v == V3 else 'ConnectReasonCode')]
            if cs and cs[0] in ('IdentifierRejected', 'ProtocolError'):
                r.count('refused')
                ctx.require(bad is True, 'refused:' + v, 'a CONNECT that is valid is answered %s' % cs[0], F)
                return ('refused', cs[0])
            if cs and cs[0] not in ('Accepted', 'Success'):
                return ('refused', 'other')
        if kind == 'return':
            ok = ok_of(E, st, vals[0])
            step = [x for x in r.hist(st) if x[0] in ('step', 'refused')]
            e = fld(vals[0], 'Err.0')
            if ok is False and not step and not any(x.op in ('await', 'call') and 'write_packet' in str(x) for x in walk(e)):
                ctx.require(bad is True, 'refused:' + v, 'a CONNECT that is valid is refused', F)
        if kind == 'panic':
            step = [x for x in r.hist(st) if x[0] == 'step']
            ctx.require(bool(step) or what not in ('unwrap', 'expect'), 'panic:' + v, 'a CONNECT makes the server panic', F)
        return None
    r = Flow(STEP + r'|::write_packet$', event, track, tuple(fs) + ('client_identifier', 'assigned_client_id'), STEP + r'|::check_password$|::reset_last_sent$' + IO, labels=40)
    run(ctx, path, r, join_limit=12)
    for k in ('accepted', 'refused', 'given', 'assigned') + tuple(fs):
        ctx.floor('connect %s %s' % (v, k), r.n.get(k, 0), 1)



# ---------------------------------------------------------------- C03
def receipt_of(st):
    """the awaited result of add_client"""
    for d in (st.facts, st.excl):
        for f in d:
            for x in walk(f):
                if x.op == 'await' and any(y.op == 'call' and str(y.a[0]).endswith('::add_client') for y in walk(x.a[0])):
                    return x
    return None


def c03(ctx):
    """the function that registers the client, in both protocols: which paths resume the old session (exactly the same protocol and no clean
    start), the origin of every field of the resumed session, what becomes of the rest, and the session-present flag answered and returned"""
    for v, path, var, clean in ((V3, V3 + 'connect::handle_connect', 'PresentV3', fld(PK, 'clean_session')), (V5, V5 + 'connect::session_connect', 'PresentV5', fld(S, 'clean_start'))):
        if ctx.anchor(path) is None:
            continue
        variants = next((a for k, a in ctx.P.adts.items() if k.endswith('::AddClientReceipt')), None)
        num = {x['name']: int(x['discr']) for x in variants['variants']}
        proto = PROTO if v == V3 else fld(S, 'protocol')

        def old(st):
            a = receipt_of(st)
            return None if a is None else fld(a, 'Ok.0.%s.0' % var)

        def same_proto(E, st):
            o = old(st)
            if o is None:
                return None
            ps = {proto, fld(o, 'protocol')}
            for f, b in st.facts.items():
                if f.op == 'eq' and set(f.a) == ps:
                    return b is TRUE or b is Int(1)
                if f.op == 'eq0':
                    ln = terms.lin_of(f.a[0])
                    ks = list(ln[1].items())
                    if ln[0] == 0 and len(ks) == 2 and {k.a[0] for k, _ in ks if k.op == 'discr'} == ps and ks[0][1] == -ks[1][1]:
                        return b is TRUE or b is Int(1)
            return None

        def present(E, st):
            a = receipt_of(st)
            if a is None:
                return None
            x = is_disc(fld(a, 'Ok.0'), num[var])(E, st)
            return x
        track = {'present': present, 'same': same_proto, 'clean': flag(clean)}
        moved = ('server_packet_id', 'pending_packets', 'qos2_pids', 'subscribes')

        def resumed(st):
            k = dict(st.ps[0]).get
            if k('present') is False or k('clean') is True or k('same') is False:
                return False
            return True if k('present') and k('same') and k('clean') is False else None

        def event(E, st, kind, what, vals):
            F = lambda: r.facts(st)
            o = old(st)
            h = r.hist(st)
            new = lambda lab: lab if lab not in h else None
            if kind == 'write' and o is not None:
                if what in moved and vals[0] is not None:
                    res = resumed(st)
                    if vals[0].op == 'mut' and 'reset_last_sent' in str(vals[0].a[0]) and ('reset',) in h:
                        return new(('old', what))
                    if vals[0].op in ('mut', 'phi', 'join'):
                        return None
                    if vals[0] is fld(o, what):
                        ctx.require(res is True, 'state-kept:%s:%s' % (v, what), 'the %s of an old session is taken over although the session is not resumed' % what, F)
                        return new(('old', what))
                    ctx.require(not understood(vals[0]) or res is not True, 'state-changed:%s:%s' % (v, what), 'the %s of the resumed session is %s' % (what, str(vals[0])[:80]), F)
                elif what == 'client_id':
                    want = fld(o, 'client_id') if r.k(st, 'present') else fld(receipt_of(st), 'Ok.0.New.client_id')
                    ctx.require(vals[0] is want or not understood(vals[0]) and vals[0].op != 'await', 'client-id:' + v, 'the client is given number %s' % str(vals[0])[:80], F)
                    return new(('set', 'client_id'))
                elif what == 'broadcast_packets' and vals[0] is fld(o, what):
                    return new(('old', what))
                elif what == 'broadcast_packets_cnt' and vals[0].op != 'mut':
                    return new(('set', what))
            if kind == 'call' and what == 'reset_last_sent' and o is not None:
                ctx.require(vals[0] is fld(o, 'pending_packets') or not understood(vals[0]) or resumed(st) is not True, 'reset-other:' + v, 'another queue than the resumed one is reset', F)
                return new(('reset',))
            if kind == 'call' and what == 'set_max_inflight':
                ctx.require(vals[1] is fld(S, 'receive_max') or not understood(vals[1]), 'inflight:' + v, 'the window of the session is %s' % vals[1], F)
                return ('inflight',) if not h or h[-1] != ('inflight',) else None
            if kind == 'call' and what == 'unsubscribe' and o is not None:
                it = vals[1]
                if depends(it, fld(o, 'subscribes')):
                    r.count('unsubscribed')
                    have = dict(st.ps[0])
                    have.pop('visiting', None)
                    st.ps = (tuple(sorted(have.items())), h)
                    ctx.require(not re.search(r'iterlazy::|iter_(take|filter|skip)', str(it)), 'unsubscribe-some:' + v, 'not all subscriptions of the session replaced are removed', F)
                    ctx.require(resumed(st) is False, 'unsubscribe-resumed:' + v, 'the subscriptions of a resumed session are removed', F)
                    good = vals[2] is fld(o, 'client_id')
                    ctx.require(good or not understood(vals[2]), 'unsubscribe-client:' + v, 'subscriptions of another client are removed: %s' % str(vals[2])[:80], F)
            if kind == 'call' and what in ('keys', 'iter', 'into_iter', 'into_keys', 'drain') and o is not None and vals and depends(vals[0], fld(o, 'subscribes')):
                return new(('each',))
            if kind == 'call' and what == 'write_packet':
                for x in vals:
                    pr = present_flag(x, v)
                    if pr is None:
                        continue
                    r.count('connack')
                    res = resumed(st)
                    ok = of_ty(x, 'ConnectReturnCode' if v == V3 else 'ConnectReasonCode')
                    if o is None and r.k(st, 'present') is None:
                        continue
                    if pr in (TRUE, FALSE):
                        ctx.require(res is (pr is TRUE), 'session-present:' + v, 'CONNACK says session present: %s' % pr, F)
            if kind == 'return' and ok_of(E, st, vals[0]) is True and o is not None:
                res = resumed(st)
                a = fld(vals[0], 'Ok.0')
                ctx.require(('set', 'client_id') in h, 'no-client-id:' + v, 'the session is not given the number of the client', F)
                rc = st.mem.get(('S', sym('receiver')))
                want = fld(o, 'receiver') if r.k(st, 'present') else fld(receipt_of(st), 'Ok.0.New.receiver')
                got = None if rc is None else fld(rc, 'Some.0')
                ctx.require(got is want or got is not None and not understood(got) and got.op not in ('await', 'fld'), 'receiver:' + v, 'the session does not receive the messages of the client', F)
                if a in (TRUE, FALSE):
                    r.count('resumed' if a is TRUE else 'fresh')
                    ctx.require(res is (a is TRUE), 'session-present:' + v, 'the session is reported as %s' % ('resumed' if a is TRUE else 'new'), F)
                if res is True:
                    for f in moved:
                        ctx.require(('old', f) in h, 'state-lost:%s:%s' % (v, f), 'the %s of the old session is not resumed' % f, F)
                    ctx.require(('reset',) in h, 'reset:' + v, 'the messages in flight of a resumed session are not sent again', F)
                if v == V5:
                    at = max([i for i, x in enumerate(h) if x == ('inflight',)], default=-1)
                    ctx.require(at >= 0 and ('old', 'pending_packets') not in h[at:], 'inflight-unset:' + v, 'the window of the session is not the one the client announced', F)
                if r.k(st, 'present'):
                    ctx.require(('old', 'broadcast_packets') in h and ('set', 'broadcast_packets_cnt') in h, 'broadcast:' + v, 'messages not yet handed over are lost when the session is taken over', F)
                    if res is False:
                        ctx.require(('each',) in h, 'unsubscribe:' + v, 'the subscriptions of the session replaced are not removed', F)
            return None

        class Each(Flow):
            """every subscription of the old session that is visited must be removed before the next one"""
            def on_assume(self, E, st, t, val):
                o = old(st)
                if o is not None and t.op == 'discr' and depends(t, fld(o, 'subscribes')) and t.a[0].op == 'item':
                    have = dict(st.ps[0])
                    ctx.require(not have.get('visiting'), 'unsubscribe-some:' + v, 'a subscription of the session replaced is not removed', lambda: r.facts(st))
                    have['visiting'] = val is True or val is Int(1)
                    st.ps = (tuple(sorted(have.items())), st.ps[1])
                return self.learn(E, st)
        r = Each(r'::(keys|iter|into_iter|into_keys|drain)$|::reset_last_sent$|::set_max_inflight$|::unsubscribe$|::write_packet$', event, track, moved + ('client_id', 'broadcast_packets', 'broadcast_packets_cnt'),
                 STEP.replace('|::session_connect$', '|::session_connectX$') + r'|::check_password$|::reset_last_sent$|::set_max_inflight$|::iter::.*Sum|max_allowed_qos$' + IO, labels=40, peels=1)
        run(ctx, path, r, join_limit=12)
        for k in ('connack', 'resumed', 'fresh', 'unsubscribed'):
            ctx.floor('take over %s %s' % (v, k), r.n.get(k, 0), 1)


def present_flag(x, v):
    """session-present flag of a CONNACK term"""
    for y in walk(x):
        if y.op == 'agg' and any(n == 'session_present' for n, _ in y.a[3]):
            return fld(y, 'session_present')
        if y.op == 'call' and str(y.a[0]).endswith('Connack::new'):
            a = [z for z in y.a[1:] if isinstance(z, terms.T)]
            return a[0] if a else None
    return None


# ---------------------------------------------------------------- C02
CF = lambda n: fld(G, 'config.' + n)
SE = lambda n: fld(S, n)


def default_field(t):
    """a field never written of a value made by Default"""
    return t.op == 'fld' and t.a[0].op == 'pure' and t.a[0].a[0] == 'default'


def eff(o, default):
    """the value the client has to assume for an optional CONNACK property; None: not understood"""
    if default_field(o) or o is NONE:
        return default
    if o.op == 'agg' and o.a[2] == 'Some':
        return project(o, ('f', 'Some', '0'))
    return None


def same(E, st, a, b):
    if a is None or b is None:
        return None
    if a is b:
        return True
    if a.op == 'agg' and b.op == 'agg':
        return a.a[2] == b.a[2]
    for x, y in ((a, b), (b, a)):
        if x in (TRUE, FALSE):
            w = val3(E, st, y)
            return None if w is None else w is (x is TRUE)
    return E.decide(st, eq0(sub(a, b)))


QN = {'Level0': 0, 'Level1': 1, 'Level2': 2}


def announced():
    """name -> (what must be known on the path, the test: True/False/None)"""
    def number(field, cfg, default):
        w = CF(cfg)
        eq = lambda E, st: E.decide(st, eq0(sub(w, Int(default))))

        def test(E, st, o):
            if default_field(o) or o is NONE:
                return dict(st.ps[0]).get('default')
            return same(E, st, eff(o, None), w)
        return field, {'default': eq}, test

    def boolean(field):
        return field, {field: flag(CF(field))}, lambda E, st, o: same(E, st, eff(o, TRUE), CF(field))

    def qos(E, st, o):
        x = eff(o, Int(2))
        if x is None:
            return None
        if x.op == 'agg':
            x = Int(QN[x.a[2]])
        elif x.op != 'int':
            return None
        return E.decide(st, eq0(sub(CF('max_allowed_qos'), x)))

    def expiry(E, st, o):
        m = CF('max_session_expiry_interval')
        now = st.mem.get(('S', S))
        kept_ = SE('session_expiry_interval') if now is None else fld(now, 'session_expiry_interval')
        asked = SE('session_expiry_interval')
        x = eff(o, asked)
        above = E.decide(st, lt(m, asked))
        if above is None:
            below = E.decide(st, lt(asked, m))
            above = False if below is True else None
        if x is None or above is None:
            return None
        want = m if above else asked
        a, b = same(E, st, x, want), same(E, st, kept_, want)
        return None if a is None or b is None else a and b

    def client_id(E, st, o):
        a = val3(E, st, SE('assigned_client_id'))
        x = eff(o, NONE)
        if a is None or x is None:
            return None
        return x is SE('client_identifier') if a else x is NONE

    def keep(E, st, o):
        a = val3(E, st, SE('server_keep_alive'))
        x = eff(o, NONE)
        if a is None or x is None:
            return None
        return x is SE('keep_alive') if a else x is NONE or x is SE('keep_alive')

    def data(E, st, o):
        d = sym('auth_data')
        a = has(E, st, d)
        x = eff(o, NONE)
        if a is None or x is None:
            return None
        return depends(x, d) if a else x is NONE

    def method(E, st, o):
        a = has(E, st, sym('auth_data'))
        if a is None:
            return None
        return o is SE('auth_method') or not understood(o) if a else default_field(o) or o is NONE or o is SE('auth_method') or None
    below = lambda E, st: E.decide(st, lt(CF('max_session_expiry_interval'), SE('session_expiry_interval')))
    return [
        number('receive_max', 'max_inflight_server', 65535), number('max_packet_size', 'max_packet_size_server', 4294967295), number('topic_alias_max', 'topic_alias_max', 0),
        boolean('retain_available'), boolean('wildcard_subscription_available'), boolean('subscription_id_available'), boolean('shared_subscription_available'),
        ('max_qos', {'q%d' % i: (lambda i: lambda E, st: E.decide(st, eq0(sub(CF('max_allowed_qos'), Int(i)))))(i) for i in range(3)}, qos),
        ('session_expiry_interval', {'capped': below}, expiry),
        ('assigned_client_id', {'assigned': flag(SE('assigned_client_id'))}, client_id),
        ('server_keep_alive', {'server': flag(SE('server_keep_alive'))}, keep),
        ('auth_data', {'data': lambda E, st: has(E, st, sym('auth_data'))}, data),
        ('auth_method', {'data': lambda E, st: has(E, st, sym('auth_data'))}, method)]


def connack_of(vals, name='::Connack'):
    for x in vals:
        for y in walk(x):
            if y.op == 'agg' and y.a[0].endswith(name) and any(n == 'reason_code' for n, _ in y.a[3]):
                return y
    return None


OPQ = STEP.replace('|::session_connect$', '|::session_connectX$') + r'|::check_password$|::reset_last_sent$|::set_max_inflight$|::iter::.*Sum' + IO


def c02(ctx):
    """session_connect: one pass per CONNACK property, in which the path knows the configuration value the property stands for: the value the client
    reads (or the default of the protocol when the property is left out) is that value. Will, reason code and `connected` in further passes."""
    path = V5 + 'connect::session_connect'
    if ctx.anchor(path) is not None:
        for name, track, test in announced():
            def event(E, st, kind, what, vals):
                if kind == 'call' and what == 'write_packet':
                    ca = connack_of(vals)
                    if ca is None:
                        r.count('other')
                        return None
                    o = fld(ca, 'properties.' + name)
                    res = test(E, st, o)
                    if res is None and (default_field(o) or understood(o)):
                        res = False     # a value that does not depend on the configuration it stands for
                    r.count('unclear' if res is None else 'judged')
                    ctx.require(res is not False, 'announced:' + name, 'the CONNACK announces %s = %s' % (name, 'nothing' if default_field(o) else str(o)[:120]), lambda: r.facts(st))
                return None
            r = Flow('::write_packet$', event, track, (), OPQ)
            run(ctx, path, r, join_limit=12)
            ctx.floor('connack ' + name, r.n.get('judged', 0) + r.n.get('unclear', 0), 2)
            ctx.sample('%s: %d judged, %d not understood' % (name, r.n.get('judged', 0), r.n.get('unclear', 0)))
        will_codes(ctx, path)
    for v, path, code, ok in ((V3, V3 + 'connect::handle_connect', 'ConnectReturnCode', 'Accepted'), (V5, V5 + 'connect::session_connect', 'ConnectReasonCode', 'Success')):
        if ctx.anchor(path) is not None:
            connected_iff(ctx, v, path, code, ok)


def will_codes(ctx, path):
    W = SE('last_will')
    wq, mq = discr(fld(W, 'Some.0.qos'), 3), CF('max_allowed_qos')
    level = lambda i: lambda E, st: E.decide(st, eq0(sub(mq, Int(i))))
    track = {'q%d' % i: level(i) for i in range(3)}
    track.update({'will': lambda E, st: has(E, st, W), 'retain': flag(fld(W, 'Some.0.retain')), 'available': flag(CF('retain_available')), 'above': lambda E, st: E.decide(st, lt(mq, wq))})

    def event(E, st, kind, what, vals):
        if kind == 'call' and what == 'write_packet':
            ca = connack_of(vals)
            rc = None if ca is None else fld(ca, 'reason_code')
            if rc is None or rc.op != 'agg':
                return None
            k = dict(st.ps[0]).get
            F = lambda: r.facts(st)
            r.count(rc.a[2])
            retain = False if False in (k('will'), k('retain')) or k('available') is True else True if k('will') and k('retain') and k('available') is False else None
            qos = False if False in (k('will'), k('above')) else True if k('will') and k('above') else None
            if rc.a[2] == 'Success':
                ctx.require(retain is False and qos is False, 'will-accepted', 'a CONNECT whose will the server cannot publish is accepted', F)
            elif rc.a[2] == 'RetainNotSupported':
                ctx.require(retain is True, 'will-retain', 'a CONNECT is refused with RetainNotSupported although its will is not retained or retaining is available', F)
            elif rc.a[2] == 'QoSNotSupported':
                ctx.require(qos is True, 'will-qos', 'a CONNECT is refused with QoSNotSupported although the QoS of its will is allowed', F)
            else:
                ctx.require(False, 'refused:' + rc.a[2], 'a CONNECT is refused with %s after the session was set up' % rc.a[2], F)
        return None
    r = Flow('::write_packet$', event, track, (), OPQ)
    run(ctx, path, r, join_limit=60)
    for k in ('Success', 'RetainNotSupported', 'QoSNotSupported'):
        ctx.floor('will ' + k, r.n.get(k, 0), 1)


def connected_iff(ctx, v, path, code, ok):
    def event(E, st, kind, what, vals):
        h = r.hist(st)
        F = lambda: r.facts(st)
        if kind == 'call' and what == 'write_packet':
            cs = [c for x in vals for c in of_ty(x, code)]
            ctx.require(not ('sent' in h), 'connack-twice:' + v, 'a second CONNACK is sent', F)
            if not cs:
                r.count('unclear')
                return None if 'unclear' in h else 'unclear'
            if cs:
                r.count('success' if cs == [ok] else 'refused')
                if cs != [ok]:
                    ctx.require('connected' not in h, 'connected-refused:' + v, 'a client that is refused counts as connected', F)
                return 'sent' if cs == [ok] else 'refused'
        if kind == 'write' and vals[0] is TRUE:
            ctx.require('refused' not in h, 'connected-refused:' + v, 'a client that is refused counts as connected', F)
            return None if 'connected' in h else 'connected'
        if kind == 'write' and vals[0] is FALSE:
            ctx.require('connected' not in h, 'disconnected:' + v, 'a client that was accepted is set to not connected', F)
        if kind == 'return' and ok_of(E, st, vals[0]) is True:
            r.count('returned')
            ctx.require(('connected' in h) == ('sent' in h) or 'unclear' in h, 'connected:' + v, 'a client counts as connected without a positive CONNACK, or has one and does not', lambda: [str(h)] + F())
        return None
    r = Flow('::write_packet$', event, {}, ('connected',), OPQ)
    run(ctx, path, r, join_limit=12)
    for k in ('success', 'refused', 'returned'):
        ctx.floor('connected %s %s' % (v, k), r.n.get(k, 0), 1)


RULES = {'C02': c02, 'A03': a03, 'A04': a04, 'C01': c01, 'C03': c03}
