"""SCRAM-SHA-256: the server and client state machines of protocols::scram."""
import re
import models
from _base import *
from _base import run

SRV = 'protocols::scram::server::ScramServer'
CLI = "protocols::scram::client::ScramClient::<'a>"
CLIT = 'protocols::scram::client::ScramClient'
MOD = 'protocols::scram'
STD64 = mk('static', 'base64::engine::general_purpose::STANDARD')
SHA = mk('static', 'ring::digest::SHA256')
HSHA = mk('static', 'ring::hmac::HMAC_SHA256')
SELF = sym('self')


def b64(x):
    return mk('pure', 'b64encode', STD64, x)


def hmac(k, d):
    return mk('pure', 'hmac', mk('pure', 'hmackey', HSHA, k), d)


def signatures(salted, auth):
    """RFC 5802 section 3: (ClientProof bytes, ServerSignature)"""
    ck = hmac(salted, Lit('Client Key'))
    csig = hmac(mk('pure', 'digest', SHA, ck), auth)
    xs = []
    for i in range(32):
        a, b = project(ck, ('i', Int(i))), project(csig, ('i', Int(i)))
        if a.id > b.id:
            a, b = b, a
        xs.append(mk('bin', 'BitXor', a, b))
    return array(xs), hmac(hmac(salted, Lit('Server Key')), auth)


def tok(msg, k):
    return project(mk('item', mk('pure', 'split', msg, Int(44)), Int(k)), ('f', 'Some', '0'))


def attr(x, st):
    """'c=' when x is what follows that prefix in a piece known to start with it"""
    if x.op == 'fld' and x.a[1][0] == 's' and x.a[1][1].op == 'int' and x.a[1][2] is None:
        for f, v in st.facts.items():
            if v is TRUE and f.op == 'starts_with' and f.a[0] is x.a[0]:
                l = as_lit(f.a[1])
                if l is not None and len(l) == x.a[1][1].a[0]:
                    return l.decode('latin1')
    return None


def rejoin(t, st):
    """cat("n=", piece[2..]) is piece when piece starts with "n=" """
    ps = list(t.a) if t.op == 'cat' else [t]
    out = []
    for p in ps:
        a = attr(p, st)
        if a and out and out[-1].op == 'lit' and out[-1].a[0].endswith(a.encode()):
            rest = out[-1].a[0][:-len(a)]
            out.pop()
            if rest:
                out.append(Lit(rest))
            out.append(p.a[0])
        else:
            out.append(p)
    return cat(*out)


def is_text(st, t, lit):
    """the piece t is known to be exactly this one-character text"""
    if st.facts.get(eq(t, Lit(lit))) is TRUE or st.facts.get(t) is Lit(lit):
        return True
    if not (st.facts.get(length(t)) is Int(1)):
        return False
    c = ord(lit)
    for f, v in st.facts.items():
        if v is Int(c) and depends(f, t) and f.op == 'fld':
            return True
        if v is TRUE and f is starts_with(t, Lit(lit)):
            return True
    return False


def variant_of(P, adt, v):
    if v is None:
        return None
    if v.op == 'agg':
        return v.a[2]
    return '?'


def entry_variant(E, P, adt, st):
    """variant of *self on entry, from the branch facts"""
    d = discr(SELF, len(P.adts[adt]['variants']))
    v = E.value(st, d)
    if v is None:
        ex = st.excl.get(d, ())
        left = [x['name'] for i, x in enumerate(P.adts[adt]['variants']) if Int(i) not in ex]
        return left
    return [P.adts[adt]['variants'][v.a[0]]['name']]


def payload(v, name):
    return project(v, ('f', name, '0'))


class Handshake:
    """server: decode_client_first; encode_server_first; decode_client_final, composed on symbolic messages"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.paths = []        # (state, client_first Ok?) ...
        self.rejected_first = []
        self.rejected_server = []
        self.CF, self.FIN = sym('client_first'), sym('client_final')
        self.HP, self.SALT, self.IT, self.RNG = sym('hashed_password'), sym('salt'), sym('iterations'), sym('rng')
        TYPES.setdefault(self.IT, 'u16')
        for f in ('decode_client_first', 'encode_server_first', 'decode_client_final'):
            if ctx.anchor(SRV + '::' + f) is None:
                return
        P = ctx.P
        new = P.variant(SRV, 'New')
        if new is None:
            ctx.violation('anchor:New', 'the server machine has no New state')
            return
        R1 = Collect()
        self.alpha = []
        E = self.E = Engine(P, R1)
        E.run(SRV + '::decode_client_first', [SELF, self.CF], mem={('S', SELF): agg(SRV, new[0], 'New')})
        self.first = R1.rets
        self.server = []
        self.final = []
        hs = self

        class R2(Collect):
            def on_element(s, E, st, val, path):
                hs.alpha.append((path, val, st.copy()))
        for v, st in R1.rets:
            if variant_of(P, RES, v) != 'Ok':
                continue
            r2 = R2()
            E.rule = r2
            E.run(SRV + '::encode_server_first', [SELF, self.HP, self.SALT, self.IT, self.RNG], mem=st.mem, facts=st.facts, excl=st.excl)
            for v2, st2 in r2.rets:
                self.server.append((v2, st2))
                if variant_of(P, RES, v2) != 'Ok':
                    continue
                r3 = Collect()
                E.rule = r3
                E.run(SRV + '::decode_client_final', [SELF, self.FIN], mem=st2.mem, facts=st2.facts, excl=st2.excl)
                for v3, st3 in r3.rets:
                    self.final.append((payload(v2, 'Ok'), v3, st3))
        ctx.engine(E)

    def nonce_of(self, sf):
        """combined nonce in the server-first message, and what follows"""
        ps = list(sf.a) if sf.op == 'cat' else [sf]
        if not ps or ps[0].op != 'lit' or not ps[0].a[0].startswith(b'r='):
            return None, None
        out = []
        first = ps[0].a[0][2:]
        if first:
            out.append(Lit(first))
        for i, p in enumerate(ps[1:], 1):
            if p.op == 'lit' and b',s=' in p.a[0]:
                a, b = p.a[0].split(b',s=', 1)
                if a:
                    out.append(Lit(a))
                return cat(*out), cat(Lit(b), *ps[i + 1:])
            out.append(p)
        return cat(*out), None

    def expected(self, sf, st):
        """terms the verification has to use, from the messages of this handshake"""
        cf = self.CF
        t0, t1 = tok(cf, 0), tok(cf, 1)
        nonce, rest = self.nonce_of(sf)
        off = add(add(length(t0), length(t1)), Int(2))
        bare = project(cf, ('s', off, None))
        gs2 = cat(t0, Lit(','), t1, Lit(','))
        return nonce, bare, gs2


def same_text(a, b, st):
    """a and b denote the same text on this path; None when a form is not recognised"""
    a, b = rejoin(a, st), rejoin(b, st)
    if a is b:
        return True
    return None


def gs2_forms(h, st):
    """the texts equal to the client's own gs2 header on this path"""
    cf = h.CF
    t0, t1 = tok(cf, 0), tok(cf, 1)
    out = [cat(t0, Lit(','), t1, Lit(',')), project(cf, ('s', Int(0), add(add(length(t0), length(t1)), Int(2))))]
    empty = st.facts.get(length(t1)) is Int(0) or h.E.decide(st, eq0(length(t1))) is True
    for c in 'ny':
        if is_text(st, t0, c):
            out.append(cat(Lit(c + ','), t1, Lit(',')))
            if empty:
                out.append(Lit(c + ',,'))
    if empty:
        out.append(cat(t0, Lit(',,')))
    return out


def bare_forms(h, st):
    cf = h.CF
    t0, t1 = tok(cf, 0), tok(cf, 1)
    off = add(add(length(t0), length(t1)), Int(2))
    out = [project(cf, ('s', off, None))]
    for o in gs2_forms(h, st):
        out.append(project(cf, ('s', length(o), None)))
    # n=..,r=.. is the whole remainder when no piece follows
    d = discr(mk('item', mk('pure', 'split', cf, Int(44)), Int(4)), 2)
    if h.E.value(st, d) is Int(0):
        out.append(cat(tok(cf, 2), Lit(','), tok(cf, 3)))
    return out


def vague(st):
    """the path was decided by a value computed in a loop that is not understood"""
    return any(x.op in ('phi', 'join', 'stale') for f in st.facts for x in walk(f))


def find_proof_fact(h, st):
    """(received side, stored side) of the comparison that accepted the proof"""
    out = []
    for a, b in true_eqs(st):
        for x, y in ((a, b), (b, a)):
            if only_from(x, h.FIN) and depends(y, h.HP):
                out.append((x, whole(y)))
    return out


def whole(y):
    """the 32 bytes one by one"""
    if y.op == 'upd':
        return array([project(y, ('i', Int(i))) for i in range(32)])
    return y


def split_auth(y):
    """(salted, auth message) used by a client-proof term, or None"""
    if y.op == 'agg' and y.a[0] == '[]' and len(y.a[3]) == 32:
        e = y.a[3][0][1]
        for t in walk(e):
            if t.op == 'pure' and t.a[0] == 'hmac' and t.a[1].op == 'pure' and t.a[1].a[2].op == 'pure' and t.a[1].a[2].a[0] == 'digest':
                return t.a[2]
    return None


def S01(ctx):
    """Every path of the composed server handshake that reports Authenticated carries all five guards."""
    ctx.rule = ('abstract interpretation of client-first, server-first and client-final in sequence on symbolic messages; on every '
                'path that ends Authenticated the branch facts must contain: channel-binding header equal to base64 of the client\'s, '
                'nonce equal to the one sent, decoded proof equal to the proof computed from the stored salted password, '
                'authorization identity absent or equal to the authentication identity')
    h = Handshake(ctx)
    if not hasattr(h, 'final'):
        return
    acc = 0
    for sf, v, st in h.final:
        if v.op == 'agg' and v.a[2] == 'Err':
            continue
        pl = payload(v, 'Ok')
        status = project(pl, ('f', '', '0'))
        name = status.a[2] if status.op == 'agg' else '?'
        if name not in ('Authenticated', '?'):
            continue
        acc += 1
        nonce, _, _ = h.expected(sf, st)
        det = lambda: ['path facts:'] + facts_text(st, 40)
        eqs = list(true_eqs(st))
        # nonce
        got = [x if only_from(x, h.FIN) else y for x, y in eqs if (only_from(x, h.FIN) and y is nonce) or (only_from(y, h.FIN) and x is nonce)]
        ctx.require(bool(got), 'authenticated-without-nonce-check',
                    'a client-final message is reported Authenticated on a path that never compares its nonce with the nonce sent', det)
        ctx.require(all(attr(x, st) in (None, 'r=') for x in got), 'nonce-field', 'the nonce compared is not the r= attribute of client-final', det)
        # channel binding header
        forms = gs2_forms(h, st)
        ok = []
        for x, y in eqs:
            for p, q in ((x, y), (y, x)):
                if only_from(p, h.FIN):
                    if q.op == 'pure' and q.a[0] == 'b64encode':
                        q2 = q.a[2]
                    elif p.op != 'fld' or 'b64decode' in repr(p):
                        q2 = q
                    else:
                        q2 = None
                    if q2 is not None and only_from(q2, h.CF) or q2 is not None and q2.op == 'lit':
                        if q2 is not nonce:
                            ok.append((p, q2))
        ctx.require(bool(ok), 'authenticated-without-channel-binding-check',
                    'a client-final message is reported Authenticated on a path that never compares its channel-binding header', det)
        ctx.require(all(attr(p, st) in (None, 'c=') for p, _ in ok), 'channel-binding-field', 'the channel-binding value compared is not the c= attribute', det)
        # proof
        pf = find_proof_fact(h, st)
        ctx.require(bool(pf) or vague(st), 'authenticated-without-proof',
                    'a client-final message is reported Authenticated on a path without a successful comparison of its proof with one '
                    'computed from the stored password', det)
        for x, y in pf:
            ctx.require(any(t.op == 'pure' and t.a[0] == 'b64decode' for t in walk(x)) or any(t.op == 'pure' and t.a[0] == 'b64encode' for t in walk(y)),
                        'proof-decoding', 'the proof is compared without base64 decoding', det)
            fl = [t for t in walk(x) if t.op == 'fld' and attr(t, st)]
            ctx.require(all(attr(t, st) == 'p=' for t in fl), 'proof-field', 'the proof compared is not the p= attribute', det)
            if understood_rng(y):
                y2 = y.a[2] if y.op == 'pure' and y.a[0] == 'b64encode' else y
                auth = split_auth(y2)
                ctx.require(auth is not None and y2 is signatures(h.HP, auth)[0], 'proof-not-complete',
                            'the value the proof is compared with is not the full 32-byte client proof of the stored password', lambda: [repr(y)[:600]])
        # authorization identity
        t1 = tok(h.CF, 1)
        none = h.E.decide(st, eq0(length(t1))) is True
        same = []
        for x, y in eqs:
            (x, cx), (y, cy) = replacements(x), replacements(y)
            if {attr(x, st), attr(y, st)} == {'a=', 'n='} and cx == cy or only_from(x, h.CF) and only_from(y, h.CF) and not (understood(x) and understood(y)):
                same.append(1)
        ctx.require(none or bool(same) or vague(st), 'authenticated-without-authorization',
                    'a client asking to act as another user is reported Authenticated', det)
        ctx.sample('Authenticated path with %d facts' % len(st.facts))
    ctx.floor('accepting_paths', acc, 1)
    ctx.floor('final_paths', len(h.final), 6)


def S02(ctx):
    """Rejections are exactly the failures, and tell apart wrong proof, wrong identity and malformed message."""
    ctx.rule = ('same composed paths: NotAuthenticated only after a failed proof comparison, NotAuthorized only after a successful one and '
                'with differing identities, an error never after all checks passed; the server signature and anything derived from the '
                'stored password is returned only with Authenticated')
    h = Handshake(ctx)
    if not hasattr(h, 'final'):
        return
    n = {}
    for sf, v, st in h.final:
        det = lambda: ['path facts:'] + facts_text(st, 40)
        eqs = find_proof_fact(h, st)
        proof_ok = bool(eqs)
        bad = [1 for a, b in false_eqs(st) if (only_from(a, h.FIN) and depends(b, h.HP)) or (only_from(b, h.FIN) and depends(a, h.HP))]
        for f in list(st.facts) + list(st.excl):
            for x in walk(f):       # a proof of another length is a wrong one
                if x.op == 'len' and only_from(x, h.FIN) and depends(x, x.a[0]) and any(y.op == 'pure' and y.a[0] == 'b64decode' for y in walk(x)) and (Int(32) in st.excl.get(x, ()) or h.E.decide(st, eq0(sub(x, Int(32)))) is False):
                    bad.append(1)
        if v.op == 'agg' and v.a[2] == 'Err':
            e = payload(v, 'Err')
            n['error'] = n.get('error', 0) + 1
            ctx.require(not proof_ok, 'error-after-proof', 'a client-final message with a correct proof ends in an error', det)
            ctx.require(not bad, 'wrong-proof-is-error', 'a wrong proof is reported as a protocol error instead of NotAuthenticated', det)
            ctx.require(not depends(e, h.HP), 'leak-in-error', 'an error carries data derived from the stored password', det)
            continue
        pl = payload(v, 'Ok')
        status, msg = project(pl, ('f', '', '0')), project(pl, ('f', '', '1'))
        name = status.a[2] if status.op == 'agg' else '?'
        n[name] = n.get(name, 0) + 1
        if name == 'Authenticated':
            nonce, _, _ = h.expected(sf, st)
            for x, y in eqs:
                y2 = y.a[2] if y.op == 'pure' and y.a[0] == 'b64encode' else y
                auth = split_auth(y2)
                if auth is not None and understood(msg):
                    want = cat(Lit('v='), b64(signatures(h.HP, auth)[1]))
                    ctx.require(msg is want, 'server-signature', 'the server-final message of an authenticated client is not "v=" with the server '
                                'signature over the same transcript', lambda: [repr(msg)[:500]])
            ctx.require(depends(msg, h.HP), 'server-signature', 'the server-final message of an authenticated client carries no server signature', det)
        else:
            ctx.require(not depends(msg, h.HP), 'leak-in-rejection', 'a rejected client receives data derived from the stored password', det)
            ctx.require(not (msg.op == 'lit' and not msg.a[0].startswith(b'e=')) and not (msg.op == 'cat' and not as_prefix(msg, b'e=')),
                        'rejection-message', 'the server-final message of a rejected client is not an e= attribute', lambda: [repr(msg)[:300]])
        if name == 'NotAuthenticated':
            ctx.require(bool(bad) or vague(st), 'rejected-without-wrong-proof', 'a client is reported NotAuthenticated without a failed proof comparison', det)
        if name == 'NotAuthorized':
            ctx.require(proof_ok or vague(st), 'notauthorized-before-proof', 'NotAuthorized is reported before the proof was verified', det)
            diff = [1 for a, b in false_eqs(st) if only_from(a, h.CF) and only_from(b, h.CF)]
            t1 = tok(h.CF, 1)
            ctx.require(h.E.decide(st, eq0(length(t1))) is not True and bool(diff), 'notauthorized-same-identity',
                        'NotAuthorized is reported although no differing authorization identity was given', det)
    for k in ('Authenticated', 'NotAuthenticated', 'NotAuthorized', 'error'):
        ctx.floor('paths_' + k, n.get(k, 0), 1)


def as_prefix(t, p):
    return t.op == 'cat' and t.a[0].op == 'lit' and t.a[0].a[0].startswith(p)


def S03(ctx):
    """Typestate of the server machine."""
    ctx.rule = ('each method is interpreted from an arbitrary state: outside its own state it must return InvalidState and leave the '
                'machine unchanged; encode_server_first moves WaitingForPassword to WaitingForClientFinal; decode_client_final always '
                'leaves WaitingForClientFinal for Done, so a proof can be tried once')
    P = ctx.P
    n = 0
    for m, need, after in (('encode_server_first', 'WaitingForPassword', {'Ok': 'WaitingForClientFinal'}),
                           ('decode_client_final', 'WaitingForClientFinal', {'Ok': 'Done', 'Err': 'Done'}),
                           ('decode_client_first', None, {'Ok': 'WaitingForPassword'})):
        if ctx.anchor(SRV + '::' + m) is None:
            continue
        r = Collect()
        E = run(ctx, SRV + '::' + m, r)
        for v, st in r.rets:
            n += 1
            res = variant_of(P, RES, v)
            ent = entry_variant(E, P, SRV, st)
            end = self_value(st)
            det = lambda: ['entry state: %s, exit value: %s' % (ent, end)] + facts_text(st)
            if need is not None and need not in ent:
                e = payload(v, 'Err')
                ctx.require(res == 'Err' and e.op == 'agg' and e.a[2] == 'InvalidState', '%s:out-of-order' % m,
                            '%s called in state %s does not return InvalidState' % (m, '/'.join(ent)), det)
                ctx.require(end is None, '%s:out-of-order-changes-state' % m, '%s called in state %s changes the machine' % (m, '/'.join(ent)), det)
                continue
            if need is not None:
                ctx.require(ent == [need], '%s:unchecked-state' % m, '%s proceeds without being in state %s' % (m, need), det)
            want = after.get(res)
            if want:
                ctx.require(variant_of(P, SRV, end) in (want, '?'), '%s:%s-state' % (m, res),
                            '%s returning %s leaves the machine in %s, expected %s' % (m, res, variant_of(P, SRV, end) or 'its former state', want), det)
            elif m == 'decode_client_first':
                ctx.require(end is None, '%s:error-changes-state' % m, 'a rejected client-first message changes the machine', det)
            elif m == 'encode_server_first' and res == 'Err':
                ctx.require(end is None or variant_of(P, SRV, end) != 'WaitingForClientFinal', '%s:error-advances' % m, 'a failed server-first step advances the machine', det)
    # the machine starts in New
    for f in (SRV + '::new', '<%s as core::default::Default>::default' % SRV):
        if f in P.bodies:
            r = Collect()
            run(ctx, f, r)
            for v, st in r.rets:
                ctx.require(v.op == 'agg' and v.a[2] == 'New', 'initial-state', '%s does not create a machine in state New' % f, [repr(v)])
    # who may build WaitingForClientFinal
    vi = P.variant(SRV, 'WaitingForClientFinal')
    for p, b in P.bodies.items():
        for blk in b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == SRV and s[2][1][3] == 'WaitingForClientFinal':
                    ctx.counts['WaitingForClientFinal_builders'] = ctx.counts.get('WaitingForClientFinal_builders', 0) + 1
                    own = p.startswith(MOD + '::server::')
                    ctx.require(own, 'builder:' + p, '%s puts a server machine into WaitingForClientFinal outside the SCRAM module' % p)
    ctx.floor('typestate_paths', n, 15)


def S04(ctx):
    """RFC 5802 computations."""
    ctx.rule = ('the terms computed on accepting paths are compared with RFC 5802: SaltedPassword = PBKDF2-HMAC-SHA256, ClientProof = ClientKey XOR '
                'HMAC(SHA256(ClientKey), AuthMessage), ServerSignature = HMAC(HMAC(SaltedPassword,"Server Key"), AuthMessage)')
    P = ctx.P
    hp = MOD + '::hash_password'
    if ctx.anchor(hp):
        r = Collect()
        pw, it, salt = sym('password'), sym('iterations'), sym('salt')
        TYPES.setdefault(it, 'u32')
        r.E = run(ctx, hp, r, [pw, it, salt])
        for v, st in r.rets:
            ok = v.op == 'pure' and v.a[0] == 'pbkdf2'
            if understood(v):
                ctx.require(ok and 'PBKDF2_HMAC_SHA256' in repr(v.a[1]) and r.E.decide(st, eq0(sub(v.a[2], it))) is True and v.a[3] is salt and v.a[4] is pw and v.a[5] is Int(32),
                            'salted-password', 'hash_password is not PBKDF2-HMAC-SHA256 of (password, salt, iterations) with 32 bytes output', lambda: [repr(v)[:500]] + facts_text(st))
            else:
                ctx.require(all(depends(v, x) for x in (pw, it, salt)), 'salted-password-inputs', 'the salted password does not depend on password, salt and iteration count', [repr(v)[:500]])
        ctx.floor('hash_paths', len(r.rets), 1)
    fp = MOD + '::find_proofs'
    n = 0
    if fp in P.bodies:
        b = P.body(fp)
        names = [b.locals[i][1] for i in range(1, b.argc + 1)]
        r = Collect()
        g, bare, sf, salted, nonce = (sym(x) for x in ('gs2header', 'client_first_bare', 'server_first', 'salted_password', 'nonce'))
        if b.argc == 5:
            run(ctx, fp, r, [g, bare, sf, salted, nonce])
            auth = cat(bare, Lit(','), sf, Lit(',c='), b64(g), Lit(',r='), nonce)
            want = signatures(salted, auth)
            for v, st in r.rets:
                p, s = whole(project(v, ('f', '', '0'))), project(v, ('f', '', '1'))
                n += 2
                if understood(p):
                    ctx.require(p is want[0], 'client-proof', 'the client proof is not ClientKey XOR HMAC(H(ClientKey), client-first-bare "," server-first "," c=base64(gs2),r=nonce)', [repr(p)[:900]])
                else:
                    ctx.require(any(x.op in OPAQUE for x in walk(p)) or depends(p, salted) and depends(p, bare) and depends(p, sf) and depends(p, nonce) and depends(p, g), 'client-proof-inputs',
                                'the client proof does not depend on every input', [repr(p)[:600]])
                if understood(s):
                    ctx.require(s is want[1], 'server-signature', 'the server signature is not HMAC(HMAC(SaltedPassword, "Server Key"), AuthMessage)', [repr(s)[:900]])
    # through the machines: the same formulas with the machine's own inputs
    h = Handshake(ctx)
    for sf, v, st in getattr(h, 'final', []):
        for x, y in find_proof_fact(h, st):
            y2 = y.a[2] if y.op == 'pure' and y.a[0] == 'b64encode' else y
            nonce = h.nonce_of(sf)[0]
            n += 1
            if understood(y2, nonce.a if nonce is not None and nonce.op == 'cat' else ()):
                auth = split_auth(y2)
                ctx.require(auth is not None and y2 is signatures(h.HP, auth)[0], 'server-side-proof',
                            'the proof verified by the server is not the RFC 5802 client proof of the stored password', lambda: [repr(y2)[:900]])
    ctx.floor('formulas', n, 3)


def S05(ctx):
    """The transcript is the messages exchanged."""
    ctx.rule = ('terms of the composed handshake: server-first is r=<client nonce><fresh random>,s=base64(salt),i=iterations; the signed AuthMessage is '
                'exactly client-first-bare as received, server-first as sent, and the channel binding of the gs2 header as received; every character the '
                'nonce generator can emit is printable ASCII other than comma')
    h = Handshake(ctx)
    if not hasattr(h, 'final'):
        return
    n = 0
    for v2, st in h.server:
        if v2.a[2] != 'Ok' if v2.op == 'agg' else False:
            continue
        sf = payload(v2, 'Ok')
        det = lambda: ['server-first: %s' % repr(sf)[:500]]
        nonce, rest = h.nonce_of(sf)
        n += 1
        if not understood_rng(sf):
            ctx.require(depends(sf, h.CF) and depends(sf, h.SALT) and depends(sf, h.IT), 'server-first-inputs', 'server-first lacks one of nonce, salt, iterations', det)
            continue
        ctx.require(nonce is not None and rest is not None, 'server-first-shape', 'server-first is not r=..,s=..,i=..', det)
        if nonce is None or rest is None:
            continue
        ps = list(nonce.a) if nonce.op == 'cat' else [nonce]
        cn = [p for p in ps[:1] if only_from(p, h.CF)]
        ctx.require(len(cn) == 1 and attr(cn[0], st) in (None, 'r='), 'nonce-not-extending-client', 'the nonce sent does not start with the client nonce', det)
        rnd = ps[1:]
        ctx.require(len(rnd) >= 1 and all(depends_rng(p, h.RNG) for p in rnd), 'nonce-not-random', 'the server part of the nonce is not drawn from the random generator', det)
        ks = [take_count(p) for p in rnd]
        k = Int(0)
        for x in ks:
            k = add(k, x) if x is not None and k is not None else None
        ctx.require(k is None or not understood(k) or h.E.decide(st, lt(k, Int(16))) is False, 'nonce-too-short',
                    'the server part of the nonce can have fewer than 16 random characters (%s)' % (k,), lambda: facts_text(st))
        want = cat(b64(h.SALT), Lit(',i='), mk('pure', 'dec', h.IT))
        ctx.require(rest is want, 'server-first-salt-iterations', 'server-first does not announce base64(salt) and the iteration count used', lambda: [repr(rest)[:300]])
    n += alphabet(ctx, h.E, h.alpha, 'server')
    client_nonce(ctx)
    m = 0
    for sf, v, st in h.final:
        for x, y in find_proof_fact(h, st):
            y2 = y.a[2] if y.op == 'pure' and y.a[0] == 'b64encode' else y
            auth = split_auth(y2) if understood_rng(y2) else None
            m += 1
            if auth is None:
                ctx.require(depends(y2, h.CF) or any(x.op in OPAQUE for x in walk(y2)), 'transcript', 'the proof is verified over a transcript that does not include client-first')
                continue
            nonce, _, _ = h.expected(sf, st)
            # what was received and compared with a text of this side is that text
            same = {}
            for p, q in true_eqs(st):
                for a, b in ((p, q), (q, p)):
                    if only_from(a, h.FIN) and not depends(b, h.FIN):
                        same.setdefault(a, b)
            if same:
                auth = subst(auth, lambda t: same.get(t), {})
                auth = cat(*auth.a) if auth.op == 'cat' else auth
            got = rejoin(auth, st)
            cands = []
            for bf in bare_forms(h, st):
                for g in gs2_forms(h, st):
                    cands.append(rejoin(cat(bf, Lit(','), sf, Lit(',c='), b64(g), Lit(',r='), nonce), st))
            norm = canon_auth(got, st)
            ctx.require(norm in [canon_auth(c, st) for c in cands], 'transcript',
                        'the proof is verified over a transcript that is not the messages exchanged (client-first without its gs2 header as received, '
                        'server-first as sent, client-final without proof)', lambda: ['transcript: %s' % repr(norm)[:700]] + ['expected one of:'] + [repr(canon_auth(c, st))[:700] for c in cands[:2]] + facts_text(st, 40))
            # header compared in client-final
    ctx.floor('server_first_messages', n, 1)
    ctx.floor('transcripts', m, 1)


def alphabet(ctx, E, elements, who):
    """every character drawn is printable, no comma, and one of many"""
    n = 0
    for path, val, st in elements:
        dist = [models.dist_of(x.a[2]) for x in walk(val) if x.op == 'call' and str(x.a[0]).startswith('rand::sample')]
        if not dist or dist[0] is None or not understood_rng(val):
            continue
        n += 1
        det = lambda: ['%s' % val] + facts_text(st)
        ctx.require(E.decide(st, eq0(sub(val, Int(44)))) is False, 'nonce-alphabet-comma:' + who, 'the nonce of the %s can contain a comma' % who, det)
        ctx.require(E.decide(st, lt(val, Int(33))) is False and E.decide(st, lt(val, Int(127))) is True, 'nonce-alphabet:' + who, 'the nonce of the %s can contain a non-printable character' % who, det)
        ctx.require(E.decide(st, lt(sub(dist[0][1], dist[0][0]), Int(32))) is False, 'nonce-alphabet-size:' + who, 'the nonce of the %s is drawn from fewer than 32 characters' % who, det)
    return n


def client_nonce(ctx):
    wr = [p for p in ctx.P.bodies if re.match(r'protocols::scram::client::ScramClient.*::with_rng$', p)]
    if not ctx.require(len(wr) == 1, 'anchor:client', 'the SCRAM client has no constructor'):
        return
    seen = []

    class R(Collect):
        def on_element(s, E, st, val, path):
            seen.append((path, val, st.copy()))
    r = R()
    rng = sym('rng')
    E = run(ctx, wr[0], r, [sym('authcid'), sym('password'), sym('authzid'), rng])
    alphabet(ctx, E, seen, 'client')
    for v, st in r.rets:
        x = project(v, ('f', 'New', 'nonce'))
        ctx.require(depends_rng(x, rng) or not understood_rng(x), 'client-nonce-not-random', 'the nonce of the client is not drawn from the random generator', lambda: [repr(x)[:300]])
        k = take_count(x)
        ctx.require(k is None or not understood(k) or E.decide(st, lt(k, Int(16))) is False, 'client-nonce-too-short', 'the nonce of the client can have fewer than 16 random characters (%s)' % (k,), lambda: facts_text(st))


def canon_auth(t, st):
    return subst(t, lambda x: b64(rejoin(x.a[2], st)) if x.op == 'pure' and x.a[0] == 'b64encode' and rejoin(x.a[2], st) is not x.a[2] else None, {})


def understood_rng(t):
    for x in walk(t):
        if x.op in OPAQUE and x.op != 'mut':
            return False
        if x.op == 'call' and not re.search(r'rand|sample|Rng|^skip$', str(x.a[0])):
            return False
        if x.op == 'pure' and x.a[0] not in KNOWN_PURE and not x.a[0].startswith(('iter_', 'text:')) and x.a[0] not in ('try_from',):
            return False
    return True


def depends_rng(t, rng):
    return any(x is rng or (x.op in ('call', 'mut') and re.search(r'rand|sample|Rng', str(x.a[0]))) for x in walk(t))


def take_count(t):
    for x in walk(t):
        if x.op == 'pure' and x.a[0] == 'iter_take':
            return x.a[-1]
        if x.op == 'agg' and x.a[0] == 'iterlazy' and x.a[2] == 'take':
            return dict(x.a[3]).get('n')
    return None


def S06(ctx):
    """client-first parsing."""
    ctx.rule = ('every accepting path of decode_client_first has the gs2 flag n or y (p is answered UnsupportedExtension), an empty or a= authorization '
                'identity, then n= and r=; the identities and nonce reported afterwards are exactly those attributes')
    P = ctx.P
    h = Handshake(ctx)
    if not hasattr(h, 'first'):
        return
    E = h.E
    acc = 0
    unsup = 0
    cover = set()
    for v, st in h.first:
        det = lambda: facts_text(st, 40)
        t = [tok(h.CF, i) for i in range(4)]
        if v.op == 'agg' and v.a[2] == 'Err':
            e = payload(v, 'Err')
            if e.op == 'agg' and e.a[2] == 'UnsupportedExtension':
                unsup += 1
            # an error needs a reason: something about the message that accepting paths do not have
            ctx.require(not (accepted_shape(E, st, h.CF)), 'valid-rejected', 'a well-formed client-first message is rejected', det)
            continue
        acc += 1
        recognised = any(depends(f, t[0]) for f in list(st.facts) + list(st.excl))
        flag = is_text(st, t[0], 'n') or is_text(st, t[0], 'y')
        if recognised:
            ctx.require(flag, 'gs2-flag', 'a client-first message is accepted although its gs2 flag is not exactly n or y', det)
            sw = [E.decide(st, starts_with(t[i], Lit(p))) for i, p in ((2, 'n='), (3, 'r='))]
            ctx.require(all(sw), 'attributes', 'a client-first message is accepted without n= and r= in this order', det)
            az = E.decide(st, eq0(length(t[1]))) is True
            for fl in 'ny':
                if is_text(st, t[0], fl):
                    cover.add((fl, az))
            ctx.require(az or E.decide(st, starts_with(t[1], Lit('a='))) is True, 'authzid', 'a client-first message is accepted with an authorization identity that is neither empty nor a=', det)
        else:
            cover.add('?')
        # getters
        for g, want in (('authcid', 2), ('authzid', 1)):
            if SRV + '::' + g not in P.bodies:
                continue
            r = Collect()
            E.rule = r
            E.run(SRV + '::' + g, [SELF], mem=st.mem, facts=st.facts, excl=st.excl)
            for gv, gst in r.rets:
                x = payload(gv, 'Some')
                if g == 'authcid':
                    ctx.require(identity_of(x, t[2], 'n='), 'authcid-value', 'the authentication identity reported is not the n= attribute', lambda: [repr(gv)[:300]] + facts_text(st))
                elif recognised:
                    if E.decide(st, eq0(length(t[1]))) is True:
                        ctx.require(x is NONE, 'authzid-value', 'an authorization identity is reported although none was given', lambda: [repr(gv)[:300]])
                    else:
                        ctx.require(identity_of(payload(x, 'Some'), t[1], 'a='), 'authzid-value', 'the authorization identity reported is not the a= attribute', lambda: [repr(gv)[:300]])
    if '?' not in cover:
        for fl in 'ny':
            for az in (True, False):
                ctx.require((fl, az) in cover, 'never-accepted', 'no client-first message with the gs2 flag %s and %s authorization identity is accepted' % (fl, 'no' if az else 'an'))
    ctx.floor('accepting_paths', acc, 1)
    ctx.floor('unsupported_extension_paths', unsup, 1)
    ctx.floor('rejecting_paths', len(h.first) - acc, 4)


def known_empty(E, st, text):
    """the path established that the text has no characters"""
    if E.decide(st, eq0(length(text))) is True:
        return True
    return False


def char_by_char(st, text):
    """the path went through the text character by character, so what was built from it is on the path, not in the term"""
    return any(f.op == 'discr' and f.a[0].op == 'item' and depends(f.a[0].a[0], text) for f in list(st.facts) + list(st.excl))


def identity_of(x, piece, prefix):
    """x is the attribute value of the piece, possibly with =2C / =3D decoded"""
    want = project(piece, ('s', Int(2), None))
    while x.op == 'pure' and x.a[0] == 'str_replace':
        x = x.a[1]
    return x is want or not understood(x)


def accepted_shape(E, st, cf):
    """all conditions of a well-formed message hold on this path"""
    t = [tok(cf, i) for i in range(4)]
    if not (is_text(st, t[0], 'n') or is_text(st, t[0], 'y')):
        return False
    if not (E.decide(st, eq0(length(t[1]))) is True or E.decide(st, starts_with(t[1], Lit('a='))) is True):
        return False
    return E.decide(st, starts_with(t[2], Lit('n='))) is True and E.decide(st, starts_with(t[3], Lit('r='))) is True


def S07(ctx):
    """The client authenticates the server."""
    ctx.rule = ('client-first, server-first and server-final composed on symbolic messages: the client answers only a nonce extending its own, its proof is the '
                'RFC 5802 one for its password, and it succeeds only when the received signature equals the one computed for this transcript')
    P = ctx.P
    CLn = [p for p in P.bodies if re.match(r'protocols::scram::client::ScramClient.*::encode_client_first$', p)]
    if not ctx.require(len(CLn) == 1, 'anchor:client', 'the SCRAM client has no encode_client_first'):
        return
    pre = CLn[0][:-len('encode_client_first')]
    for f in ('decode_server_first', 'decode_server_final'):
        if ctx.anchor(pre + f) is None:
            return
    E = Engine(P, Collect())
    new = P.variant(CLIT, 'New')
    fields = {n: sym('own_' + n) for n in new[1]['fields']}
    st0 = agg(CLIT, new[0], 'New', [(n, fields[n]) for n in new[1]['fields']])
    SF, FIN = sym('server_first'), sym('server_final')
    r1 = E.rule
    E.run(pre + 'encode_client_first', [SELF], mem={('S', SELF): st0})
    nok = 0
    nans = 0
    for v, st in r1.rets:
        if variant_of(P, RES, v) != 'Ok':
            continue
        msg1 = payload(v, 'Ok')
        r2 = Collect()
        E.rule = r2
        E.run(pre + 'decode_server_first', [SELF, SF], mem=st.mem, facts=st.facts, excl=st.excl)
        for v2, st2 in r2.rets:
            det2 = lambda: facts_text(st2, 40)
            if variant_of(P, RES, v2) != 'Ok':
                ctx.require(variant_of(P, CLIT, self_value(st2)) in ('Done', None), 'client-retry', 'a rejected server-first leaves the client waiting', det2)
                continue
            nans += 1
            msg3 = payload(v2, 'Ok')
            nn = fields.get('nonce', sym('own_nonce'))
            sw = [f for f, x in st2.facts.items() if f.op == 'starts_with' and x is TRUE and f.a[1] is nn and only_from(f.a[0], SF)]
            ctx.require(bool(sw), 'nonce-not-checked', 'the client answers a server-first whose nonce was not checked to extend its own', det2)
            if sw and understood(msg3):
                nonce = sw[0].a[0]
                gs2 = fields.get('gs2header')
                ps = list(msg1.a) if msg1.op == 'cat' else [msg1]
                bare = cat(*ps[1:]) if ps and ps[0] is gs2 else None
                salts = [x for x in walk(msg3) if x.op == 'pure' and x.a[0] == 'pbkdf2']
                ctx.require(bool(salts), 'client-salted-password', 'the client proof does not use the salted password', lambda: [repr(msg3)[:500]])
                if salts and bare is not None:
                    sp = salts[0]
                    ctx.require(only_from(sp.a[2], SF) and only_from(sp.a[3], SF) and sp.a[4] is fields['password'] and
                                any(x.op == 'pure' and x.a[0] == 'b64decode' for x in walk(sp.a[3])), 'client-salt',
                                'the client does not derive its key from its password with the salt and iterations received', lambda: [repr(sp)[:500]])
                    auth = cat(bare, Lit(','), SF, Lit(',c='), b64(gs2), Lit(',r='), nonce)
                    pf, sig = signatures(sp, auth)
                    want = cat(Lit('c='), b64(gs2), Lit(',r='), nonce, Lit(',p='), b64(pf))
                    msg4 = subst(msg3, lambda x: b64(whole(x.a[2])) if x.op == 'pure' and x.a[0] == 'b64encode' and whole(x.a[2]) is not x.a[2] else None, {})
                    ctx.require(msg4 is want, 'client-final', 'client-final is not c=..,r=..,p=.. with the proof over the messages exchanged', lambda: [repr(msg3)[:700]])
            r3 = Collect()
            E.rule = r3
            E.run(pre + 'decode_server_final', [SELF, FIN], mem=st2.mem, facts=st2.facts, excl=st2.excl)
            for v3, st3 in r3.rets:
                det3 = lambda: facts_text(st3, 40)
                ctx.require(variant_of(P, CLIT, self_value(st3)) in ('Done', '?'), 'client-final-state', 'the client can check a second server signature', det3)
                eqs = [(a, b) for a, b in true_eqs(st3) for a, b in ((a, b), (b, a)) if only_from(a, FIN) and depends(b, fields['password'])]
                if variant_of(P, RES, v3) == 'Ok':
                    nok += 1
                    ctx.require(bool(eqs), 'server-not-authenticated', 'the client accepts a server whose signature was not verified', det3)
                    for a, b in eqs:
                        if understood(b):
                            ctx.require(b.op == 'pure' and b.a[0] == 'hmac' and 'Server Key' in repr(b), 'server-signature-value',
                                        'the client compares the server signature with something else than the computed one', lambda: [repr(b)[:500]])
                else:
                    ctx.require(not eqs, 'valid-server-rejected', 'the client rejects a correct server signature', det3)
    ctx.engine(E)
    ctx.floor('client_answers', nans, 1)
    ctx.floor('client_accepts', nok, 1)


def S08(ctx):
    """No panic on any message."""
    ctx.rule = ('every panicking construct (index, slice and char-boundary, arithmetic overflow, unwrap/expect, unreachable!) reachable from the SCRAM entry points is '
                'discharged by the branch facts on every path, for arbitrary messages and states')
    P = ctx.P
    todo = [p for p in P.bodies if re.match(r'protocols::scram::(server::ScramServer|client::ScramClient).*::(decode_|encode_|new$|with_rng$|authcid$|authzid$)\w*$', p)]
    todo += [MOD + '::hash_password']
    ctx.floor('entry_points', len(todo), 8)
    r = Collect(obligations=True, keep_logs=True)
    for p in sorted(todo):
        if ctx.anchor(p):
            run(ctx, p, r)
    panic_report(ctx, r, 'the SCRAM exchange')
    ctx.floor('obligations_seen', sum(o[0] for o in r.obl.values()), 10)


def replacements(x):
    """(base, [(from, to)...] in application order) of a chain of string replacements"""
    ch = []
    while x.op == 'pure' and x.a[0] == 'str_replace' and len(x.a) == 4:
        a, b = [chr(y.a[0]).encode() if y.op == 'int' else as_lit(y) for y in x.a[2:4]]
        ch.append((a, b))
        x = x.a[1]
    return x, ch[::-1]


ESC = [(b'=', b'=3D'), (b',', b'=2C')]
UNESC = ([(b'=2C', b','), (b'=3D', b'=')],)


def S09(ctx):
    """Name escaping."""
    ctx.rule = ('the identities reported by the server are the n= and a= values with =2C replaced by a comma and then =3D by an equals sign; the client writes its '
                'names with = replaced by =3D and then comma by =2C, so the two are inverse and a name never contributes a separator')
    P = ctx.P
    h = Handshake(ctx)
    if not hasattr(h, 'first'):
        return
    E = h.E
    n = 0
    for v, st in h.first:
        if variant_of(P, RES, v) != 'Ok':
            continue
        for g, want in (('authcid', 2), ('authzid', 1)):
            if SRV + '::' + g not in P.bodies:
                continue
            r = Collect()
            E.rule = r
            E.run(SRV + '::' + g, [SELF], mem=st.mem, facts=st.facts, excl=st.excl)
            for gv, gst in r.rets:
                x = payload(gv, 'Some')
                if g == 'authzid':
                    if x is NONE or E.decide(st, eq0(length(tok(h.CF, 1)))) is True:
                        continue
                    x = payload(x, 'Some')
                base, ch = replacements(x)
                if not understood(base):
                    continue
                n += 1
                ctx.require(ch in UNESC, 'server-name', 'the %s is reported without decoding =2C and =3D (in this order)' % g, lambda: [repr(x)[:400]])
    CLn = [p for p in P.bodies if re.match(r'protocols::scram::client::ScramClient.*::encode_client_first$', p)]
    wr = [p for p in P.bodies if re.match(r'protocols::scram::client::ScramClient.*::with_rng$', p)]
    if not ctx.require(len(CLn) == 1 and len(wr) == 1, 'anchor:client', 'the SCRAM client has no constructor or no encode_client_first'):
        return
    r = Collect()
    name, az = sym('authcid'), sym('authzid')
    run(ctx, wr[0], r, [name, sym('password'), az, sym('rng')])
    for v, st in r.rets:
        st2 = st.copy()
        r2 = Collect()
        E.rule = r2
        E.run(CLn[0], [SELF], mem={('S', SELF): v}, facts=st.facts, excl=st.excl)
        for v2, st3 in r2.rets:
            msg = payload(v2, 'Ok')
            if variant_of(P, RES, v2) != 'Ok':
                continue
            for src, what in ((name, 'authcid'), (project(az, ('f', 'Some', '0')), 'authzid')):
                uses = [p for p in (msg.a if msg.op == 'cat' else [msg]) if depends(p, src)]
                if what == 'authcid':
                    ctx.require(bool(uses) or any(x.op in OPAQUE for x in walk(msg)) or known_empty(E, st3, name) or char_by_char(st3, name), 'client-name-missing', 'the client does not send its user name', lambda: [repr(msg)[:400]])
                for p in uses:
                    base, ch = replacements(p)
                    if base is not src:
                        continue
                    n += 1
                    left = [e for e in ESC if st3.facts.get(mk('pure', 'strhas', src, Lit(e[0].decode()))) is not FALSE]
                    about = any(depends(f, src) and not understood(f) for f in st3.facts)
                    ctx.require(ch in (ESC, left) or about, 'client-name', 'the client writes its %s without encoding = and , (in this order)' % what, lambda: [repr(p)[:400]])
    ctx.floor('names', n, 4)


RULES = {'S09': S09, 'S01': S01, 'S02': S02, 'S03': S03, 'S04': S04, 'S05': S05, 'S06': S06, 'S07': S07, 'S08': S08}
