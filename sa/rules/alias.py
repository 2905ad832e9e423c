"""T01 topic aliases of a client, T02 topic aliases of the server (MQTT 5)"""
from _base import *
from subscribe import called
from session_end import is_int
from forward import opt
import terms

PUB = 'protocols::mqtt::v5::packet::publish::'
COM = 'protocols::mqtt::v5::packet::common::'
ASSIGN = 'get_or_assign_server_topic_alias'


def lookup(m, k):
    """what a changed map holds for a key: (entry, base) - entry None: not set in the chain"""
    while m.op == 'mapupd':
        if m.a[1] is k:
            return m.a[2], m
        m = m.a[0]
    return None, m


def chain(m):
    """[(key, entry)] of the changes, last first, and the map they are made to"""
    out = []
    while m.op == 'mapupd':
        out.append((m.a[1], m.a[2]))
        m = m.a[0]
    return out, m


def t01(ctx):
    path = PUB + 'handle_publish'
    if ctx.anchor(path) is None:
        return
    S, P, G = sym('session'), sym('packet'), sym('global')
    al = fld(fld(P, 'properties'), 'topic_alias')
    a = fld(al, 'Some.0')
    top = fld(P, 'topic_name')
    mx = fld(fld(G, 'config'), 'topic_alias_max')
    table = fld(S, 'topic_aliases')
    n = {}

    class R(Collect):
        opaque = re.compile(r'::send_publish$|::build_error_disconnect$')
        init = ()

        def on_call(self, E, st, c):
            nm = short(c.res or c.name)
            if nm == 'send_publish':
                now = E.load(st, ('S', S), (('f', '', 'topic_aliases'),))
                st.ps = st.ps + (('sent', E.deep(st, E.vals(st, c)[1]), now),)
            elif nm == 'build_error_disconnect':
                st.ps = st.ps + (('error', E.deep(st, E.vals(st, c)[1]), None),)
            return None
    r = R()
    E = run(ctx, path, r)

    def cnt(k):
        n[k] = n.get(k, 0) + 1
    for rv, st in r.rets:
        F = facts_text(st)
        has = E.value(st, discr(al, 2))
        has = None if has is None else has.a[0] == 1
        zero = E.decide(st, eq0(a)) if has else None
        over = E.decide(st, lt(mx, a)) if has else None
        empty = E.decide(st, eq0(length(top)))
        got = E.value(st, discr(mk('pure', 'mapget', table, a), 2)) if has else None
        errs = [x[1].a[2] for x in st.ps if x[0] == 'error' and x[1].op == 'agg']
        sent = [x for x in st.ps if x[0] == 'sent']
        ok = rv.a[2] == 'Ok' if rv.op == 'agg' else None
        now = sent[0][2] if sent else E.load(st, ('S', S), (('f', '', 'topic_aliases'),))
        ch, base = chain(now)
        bad = zero is True or over is True
        if bad:
            cnt('invalid')
            ctx.require(ok is not True and not sent, 'accepted', 'a PUBLISH with a topic alias of 0 or more than the maximum is accepted', F)
            ctx.require(not errs or errs[-1] == 'TopicAliasInvalid' or len(st.ps) > 1, 'reason', 'a topic alias of 0 or more than the maximum is refused as %s' % errs, F)
        if errs and errs[-1] == 'TopicAliasInvalid':
            cnt('refused')
            ctx.require(bad, 'refused', 'a PUBLISH is refused for its topic alias although that is not known to be 0 or more than the maximum', F)
        if has and empty and not bad and got is not None and got.a[0] == 0:
            cnt('unknown')
            ctx.require(ok is not True and not sent, 'unknown', 'a PUBLISH with an alias never set is accepted', F)
        if has is False and empty:
            ctx.require(ok is not True and not sent, 'no-topic', 'a PUBLISH with neither topic nor alias is accepted', F)
        if ok is True or sent:
            if has is not False:
                ctx.require(has is True and zero is False and over is False, 'accepted', 'a PUBLISH is accepted although its topic alias may be 0 or more than the maximum', F)
            ctx.require(empty is not None, 'topic', 'a PUBLISH is accepted without looking at whether it has a topic', F)
            und = understood(now)
            if has and empty is False:
                cnt('set')
                v, _ = lookup(now, a)
                cur = st.mem.get(('S', fld(mk('pure', 'mapget', table, a), 'Some.0')))
                if v is None and cur is not None:
                    v = Some(E.deep(st, cur))     # written in place
                ctx.require(v is not None and v.op == 'agg' and v.a[2] == 'Some' and dict(v.a[3]).get('0') is top or not und, 'not-recorded', 'a topic sent with an alias is not recorded for it', F)
                ctx.require(all(k is a for k, _ in ch) and base is table or not und, 'others', 'another topic alias changes', F)
            else:
                cnt('used' if has else 'none')
                ctx.require(not ch and base is table or not und, 'changed', 'a topic alias changes although no topic was sent with it', F)
                if has and empty:
                    ctx.require(got is not None and got.a[0] == 1, 'unknown', 'a PUBLISH with an alias that may never have been set is accepted', F)
            for x in sent:
                if x[1].op == 'agg':
                    t = fld(x[1], 'topic_name')
                    want = fld(mk('pure', 'mapget', table, a), 'Some.0') if has and empty else top
                    cnt('published')
                    ctx.require(t is want or not understood(t), 'topic', 'a PUBLISH is published under the topic %s' % str(t)[:100], F)
    for k in ('invalid', 'refused', 'unknown', 'set', 'used', 'none', 'published'):
        ctx.floor(k, n.get(k, 0), 1)
    m = mutators(ctx, 'topic_aliases')
    ctx.floor('functions changing the aliases', len(m), 1)
    for q in only_in(ctx, m, r'v5::packet::publish::handle_publish$|session::Session::new$'):
        ctx.require(False, 'changed:' + q, '%s changes the topic aliases of a client at %s' % (q, m[q]))
    carried(ctx)


def carried(ctx):
    """aliases are no part of what outlives a connection"""
    a = ctx.P.adts.get('protocols::mqtt::v5::session::SessionState')
    if ctx.require(a is not None, 'anchor:SessionState', 'SessionState of MQTT 5 is gone'):
        for v in a['variants']:
            for x, y in zip(v['fields'], v['tys']):
                t = str(y).replace(' ', '')
                ctx.require(not re.search(r'HashMap<u16,(\w+::)*\(?(\w+::)*TopicName|HashMap<(\w+::)*TopicName,u16', t), 'carried:' + x, 'topic aliases (%s) outlive the connection' % x)


def t02(ctx):
    assign(ctx)
    for f in (PUB + 'recv_publish', COM + 'handle_pendings'):
        use(ctx, f)
    m = mutators(ctx, 'server_topic_aliases_by_topic')
    m.update(mutators(ctx, 'server_topic_aliases_by_alias'))
    ctx.floor('functions that may change the aliases', len(m), 2)
    for q in only_in(ctx, m, r'publish::recv_publish$|common::handle_pendings$|session::Session::new$'):
        ctx.require(False, 'changed:' + q, '%s changes the topic aliases of the server at %s' % (q, m[q]))
    m = mutators(ctx, 'topic_alias_max', within='v5::')
    m = {q: s for q, s in m.items() if session_field(ctx, q, 'topic_alias_max')}
    for q in only_in(ctx, m, r'v5::packet::connect::handle_connect(::|$)|session::Session::new$'):
        ctx.require(False, 'maximum:' + q, '%s changes the alias maximum of a connected client at %s' % (q, m[q]))
    ctx.floor('functions that set the maximum', len(m), 1)
    maximum(ctx)
    carried(ctx)


def session_field(ctx, q, f):
    """the function writes or lends the field of a Session (not only of packet properties)"""
    b = ctx.P.bodies[q]
    for bb in b['blocks']:
        if bb['cleanup']:
            continue
        for s in bb['s']:
            if s[0] == '=':
                ps = [s[1]] + ([s[2][2]] if s[2][0] == 'ref' and s[2][1] == 'mut' else [])
                for p in ps:
                    if f in place_fields(p) and 'properties' not in place_fields(p) and 'Properties' not in str(ctx.P.body(q).locals[p[0]][0]) and 'Arguments' not in str(ctx.P.body(q).locals[p[0]][0]):
                        return True
    return False


def maximum(ctx):
    """the maximum is what the CONNECT says"""
    path = 'protocols::mqtt::v5::packet::connect::handle_connect'
    if ctx.anchor(path) is None:
        return
    n = [0]
    S = sym('session')

    class R(Rule):
        opaque = re.compile(r'::session_connect$|check_password$|::build_error\w+$|scram|::await_\w+|::handle_auth$|::start_auth\w*$')

        def on_write(self, E, st, root, path, val, span):
            if root == ('S', S) and fields(path)[-1:] == ['topic_alias_max']:
                want = fld(fld(sym('packet'), 'properties'), 'topic_alias_max')
                d = E.value(st, discr(want, 2))
                n[0] += 1
                F = facts_text(st)
                ok = val is fld(want, 'Some.0') and (d is None or d.a[0] == 1) or is_int(val, 0) and (d is None or d.a[0] == 0)
                ctx.require(ok or not understood(val), 'maximum', 'the alias maximum of a client becomes %s' % str(val)[:80], F)
    run(ctx, path, R())
    ctx.floor('maximum set', n[0], 1)


def assign(ctx):
    path = COM + ASSIGN
    if ctx.anchor(path) is None:
        return
    b = ctx.P.body(path)
    names = argnames(ctx.P, path)
    by = {}
    for i in range(1, b.argc + 1):
        t = b.locals[i][0].replace(' ', '')
        k = ('max' if t == 'u16' else 'topics' if re.search(r'HashMap<.*TopicName,u16', t) else 'aliases' if re.search(r'HashMap<u16,', t) else 'topic' if re.search(r'TopicName$', t) else 'rest')
        by[k] = sym(names[i - 1])
    if not ctx.require(all(k in by for k in ('max', 'topics', 'aliases', 'topic')), 'anchor:' + path, 'the parameters of %s are not as expected' % path):
        return
    MAX, BT, BA, T = by['max'], by['topics'], by['aliases'], by['topic']
    r = Collect()
    E = run(ctx, path, r)
    n = {}

    def cnt(k):
        n[k] = n.get(k, 0) + 1

    def final(st, x):
        v = st.mem.get(('S', x))
        return x if v is None or v.op == 'old' and v.a[0] is x else E.deep(st, v)

    def in_range(st, x):
        """True, False, None (not known)"""
        cut = [y for y in walk(x) if y.op == 'cast']
        if len(cut) == 1 and E.decide(st, lt(Int(65535), cut[0].a[1])) is not True:
            st = st.copy()
            if E.decide(st, lt(cut[0].a[1], MAX)) is True:
                E.assume(st, lt(cut[0], cut[0].a[1]), False)     # less than the maximum, an u16: not cut off
                E.assume(st, lt(cut[0].a[1], cut[0]), False)
        if x.op == 'int':
            if x.a[0] < 1:
                return False
            d = E.decide(st, lt(MAX, x))
            return None if d is None else not d
        lo, hi = E.decide(st, eq0(x)), E.decide(st, lt(MAX, x))
        if lo is True or hi is True:
            return False
        if lo is False and hi is False:
            return True
        for y in walk(x):
            if y.op in ('pure', 'call') and short(str(y.a[0])).startswith('iter_') or y.op == 'item':
                if any(z is BA for z in walk(y)) and not any(z.op == 'agg' and 'Range' in str(z.a[0]) for z in walk(y)):
                    return True
                for z in walk(y):
                    if z.op == 'agg' and 'Range' in str(z.a[0]):
                        d = dict(z.a[3])
                        s, e = d.get('start'), d.get('end')
                        if s is None or e is None:
                            continue
                        if E.decide(st, eq0(s)) is not False or E.decide(st, lt(MAX, e) if str(z.a[0]).endswith('RangeInclusive') else lt(add(MAX, Int(1)), e)) is not False:
                            return False if understood(s) and understood(e) else None
                        return True
        return None
    for rv, st in r.rets:
        F = facts_text(st)
        al, new = fld(rv, '0'), fld(rv, '1')
        if E.value(st, MAX) is not None and is_int(E.value(st, MAX), 0):
            cnt('none')
            ctx.require(is_int(al, 0) and new is FALSE or not understood(al), 'zero', 'an alias is assigned although the client allows none', F)
            ctx.require(final(st, BT) is BT and final(st, BA) is BA, 'zero', 'an alias is recorded although the client allows none', F)
            continue
        have = E.value(st, discr(mk('pure', 'mapget', BT, T), 2))
        bt, ba = final(st, BT), final(st, BA)
        new = E.value(st, new) if E.value(st, new) is not None else new
        if have is not None and have.a[0] == 1:
            cnt('old')
            cur = fld(mk('pure', 'mapget', BT, T), 'Some.0')
            ctx.require(al is cur or not understood(al, (cur,)), 'other', 'a topic that has an alias gets another one', F)
            ctx.require(new is FALSE or not understood(new), 'known', 'a topic that has an alias counts as new', F)
            x = st.mem.get(('S', fld(mk('pure', 'mapget', BA, cur), 'Some.0')))
            x = fld(E.deep(st, x), '0') if x is not None else None
            ctx.require(x is None or x is T or not understood(x) or x is fld(fld(mk('pure', 'mapget', BA, cur), 'Some.0'), '0'), 'kept', 'an alias gets another topic', F)
            ctx.require(bt is BT or not understood(bt), 'kept', 'the aliases change although the topic has one', F)
            for k, e in chain(ba)[0]:
                ctx.require(k is cur or not understood(k), 'kept', 'the aliases change although the topic has one', F)
                if e.op == 'agg' and e.a[3]:
                    x = fld(fld(e, 'Some.0'), '0')
                    ctx.require(x is T or x is fld(fld(mk('pure', 'mapget', BA, cur), 'Some.0'), '0') or not understood(x), 'kept', 'an alias gets another topic', F)
            continue
        if have is None:
            ctx.require(False, 'unlooked', 'an alias is given without looking whether the topic has one', F)
            continue
        cnt('new')
        ctx.require(new is TRUE or not understood(new), 'new', 'a new alias counts as known to the client', F)
        g = in_range(st, al)
        cnt('range %s' % g)
        ctx.require(g is True or g is None and not understood(al), 'range', 'an alias (%s) is not known to be from 1 to the maximum of the client' % str(al)[:80], F)
        e, _ = lookup(bt, T)
        ctx.require(e is not None and e.op == 'agg' and e.a[2] == 'Some' and fld(e, 'Some.0') is al or not understood(bt, (al,)), 'topic', 'a new alias is not recorded for its topic', F)
        e, _ = lookup(ba, al)
        ctx.require(e is not None and e.op == 'agg' and e.a[2] == 'Some' and fld(fld(e, 'Some.0'), '0') is T or not understood(ba, (al,)), 'alias', 'the topic of a new alias is not recorded', F)
        prev = mk('pure', 'mapget', BA, al)
        d = E.value(st, discr(prev, 2))
        ptop = fld(fld(prev, 'Some.0'), '0')
        free = any(y.op == 'pure' and short(str(y.a[0])) == 'iter_find' for y in walk(al))
        for k, e in chain(bt)[0]:
            ctx.require(k is T or k is ptop and e is NONE or not understood(k, (al, prev)), 'others', 'the alias of another topic changes', F)
        for k, e in chain(ba)[0]:
            ctx.require(k is al or not understood(k, (al,)), 'others', 'another alias changes', F)
        if not free and (d is None or d.a[0] == 1):
            cnt('replaced')
            e, _ = lookup(bt, ptop)
            ctx.require(e is NONE or not understood(bt, (al, prev)), 'stale', 'a topic keeps an alias that now stands for another topic', F)
    for k in ('none', 'old', 'new', 'replaced', 'range True'):
        ctx.floor('aliases ' + k, n.get(k, 0), 1)


class Use(Flow):
    """history: asked (for an alias), new, zero (what is known of the answer), sent"""
    def on_assume(self, E, st, t, v):
        for x in walk(t):
            if x.op == 'fld' and called(x.a[0], ASSIGN):
                b = v is TRUE or v is True or hasattr(v, 'op') and v.op == 'int' and v.a[0] == 1
                if x.a[1][-1] == '1' and (t is x or t.op in ('eq0', 'not')):
                    self.put(st, 'new', b if t is x else not b)
                elif x.a[1][-1] == '0' and t.op == 'eq0':
                    self.put(st, 'zero', b)
                elif x.a[1][-1] == '0' and t is x and hasattr(v, 'op') and v.op == 'int':
                    self.put(st, 'zero', v.a[0] == 0)
                elif x.a[1][-1] == '0' and t.op == 'lt0':
                    z = E.decide(st, eq0(x))
                    if z is not None:
                        self.put(st, 'zero', z)
        return super().on_assume(E, st, t, v)

    def put(self, st, k, b):
        self.forget(st, k)
        st.ps = (st.ps[0], tuple(sorted(st.ps[1] + ('%s:%d' % (k, b),))))

    def forget(self, st, *ks):
        st.ps = (st.ps[0], tuple(x for x in st.ps[1] if x.split(':')[0] not in ks))

    def got(self, st, k):
        return next((x.split(':')[1] == '1' for x in st.ps[1] if x.split(':')[0] == k), None)

    def finish(self, E, st, what):
        if self.got(st, 'asked') and not self.got(st, 'sent'):
            self.ctx.require(self.got(st, 'new') is False or self.got(st, 'zero') is True, 'lost:' + self.name, 'an alias may be assigned for a message that is not sent', facts_text(st))
        self.forget(st, 'asked', 'new', 'zero', 'sent')

    def on_back(self, E, st, depth, bb):
        self.finish(E, st, 'round')

    def on_loop(self, E, st, depth, bb):
        if depth == 0:
            self.finish(E, st, 'round')


def use(ctx, path):
    if ctx.anchor(path) is None:
        return
    S = sym('session')
    name = short(path)
    limit = fld(S, 'topic_alias_max')

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + facts_text(st)
        if kind == 'call' and what == ASSIGN:
            r.count('asked')
            r.finish(E, st, 'again')
            ms = [x for x in vals if x.op == 'fld' and x.a[1][-1] == 'topic_alias_max']
            ctx.require(bool(ms) and base_is(ms[0], S) or not understood(vals[0]), 'maximum:' + name, 'an alias is assigned with another maximum', F)
            r.put(st, 'asked', True)
            r.topic = None
            return None
        if kind == 'write':
            ctx.require(vals[0].op == 'mut', 'changed:' + name, '%s changes the topic aliases of the server itself' % name, F)
            return None
        pubs = [p for x in vals[-1:] for p in walk(x) if p.op == 'agg' and str(p.a[0]).endswith('publish::Publish') or p.op == 'agg' and str(p.a[0]).endswith('::Publish') and any(k == 'payload' for k, _ in p.a[3])]
        if kind == 'call' and what == 'push' and not pubs:
            return None
        if kind in ('call', 'return'):
            for p in pubs[:1]:
                r.count('publish')
                if r.got(st, 'asked'):
                    r.count('published with')
                alias, topic = fld(fld(p, 'properties'), 'topic_alias'), fld(p, 'topic_name')
                k, x = opt(alias)
                calls = {y for z in (alias, topic) for y in walk(z) if called(y, ASSIGN)}
                if k is None and understood(alias, calls) and alias.op == 'fld':
                    k = 'None'              # as in the message: none (T01, Q06)
                empty = any(called(y, 'empty_topic_name') or y.op == 'static' or y.op == 'lit' and y.a[0] in ('', '""') for y in walk(topic)) or 'empty_topic_name' in str(topic) or 'EMPTY_TOPIC' in str(topic)
                new, zero = r.got(st, 'new'), r.got(st, 'zero')
                if k == 'Some' and not understood(x, calls):
                    k = None
                if k == 'Some':
                    r.count('with alias')
                    ctx.require(x.op == 'fld' and called(x.a[0], ASSIGN) and x.a[1][-1] == '0', 'alias:' + name, 'a message is sent with the alias %s' % str(x)[:80], F)
                    ctx.require(zero is not True, 'zero:' + name, 'a message is sent with the alias 0', F)
                if empty:
                    r.count('without topic')
                    ctx.require(k in ('Some', None) and new is False, 'topic:' + name, 'a message without topic has no alias the client is known to have', F)
                elif k == 'Some':
                    r.count('with both')
                if r.got(st, 'asked') and k == 'None':
                    ctx.require(new is False or zero is True, 'lost:' + name, 'an alias is assigned but not sent', F)
                for y in calls:
                    ts = [z for z in y.a[1:] if hasattr(z, 'op') and z.op == 'fld' and str(z.a[1][-1]).startswith('topic_name')]
                    if ts and not empty and understood(topic):
                        ctx.require(any(z is topic for z in ts), 'another:' + name, 'an alias of another topic is sent', F)
                r.put(st, 'sent', True)
            if kind == 'return':
                r.finish(E, st, 'return')
        return None
    r = Use(ASSIGN + r'$|::push$|::push_back$', event, {}, ('server_topic_aliases_by_topic', 'server_topic_aliases_by_alias'), ASSIGN + r'$|::empty_topic_name$')
    r.ctx, r.name = ctx, name
    run(ctx, path, r)
    for k in ('asked', 'with alias', 'without topic', 'with both'):
        ctx.floor('%s %s' % (name, k), r.n.get(k, 0), 1)


def base_is(t, S):
    while t.op == 'fld':
        t = t.a[0]
    return t is S


RULES = {'T01': t01, 'T02': t02}
