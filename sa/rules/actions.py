"""H02 hooks: a packet waits for its hook, and what the hook asks for is done, once"""
from _base import *
from subscribe import called
from session_end import is_int
import coll
import terms

M = 'protocols::mqtt::%s::message::'
SESSION = '<impl protocols::mqtt::online_loop::OnlineSession for protocols::mqtt::%s::session::Session>::'
LOOP = 'protocols::mqtt::online_loop::OnlineLoop'
CALLS = r'::apply_action$|::handle_packet$|::handle_request$|::after_handle_packet$|::handle_control$|::handle_normal$|::handle_pendings$|::build_state$|::handle_decode_error$|::poll$|::poll_\w+$'


def is_list(x):
    """the actions in the answer of a hook"""
    return x.op == 'fld' and x.a[1] == ('f', 'Ok', '0') and x.a[0].op == 'fld' and x.a[0].a[1][1] in ('Normal', 'AfterConnect')


class Actions(Rule):
    """st.ps, a sorted set: due (actions to carry out), item (taken, not carried out), failed (an action), refused (by the hook), waiting (for it),
    request (of a packet), fetch (what has become ready for the client)"""
    init = ()
    opaque = re.compile(r'::apply_action$|::handle_\w+$|::poll$|::after_handle_packet$|::build_state$|::disconnected$')

    def __init__(self, ctx, name):
        self.ctx, self.name, self.n = ctx, name, {}
        self.opaque = re.compile(self.opaque.pattern)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def put(self, st, *ls):
        st.ps = tuple(sorted(set(st.ps) | set(ls), key=str))

    def cut(self, st, *ks):
        st.ps = tuple(x for x in st.ps if (x[0] if isinstance(x, tuple) else x) not in ks)

    def get(self, st, k):
        return next((x for x in st.ps if (x[0] if isinstance(x, tuple) else x) == k), None)

    def F(self, st):
        return lambda: [' '.join(str(x)[:100] for x in st.ps)] + facts_text(st)

    def req(self, cond, key, text, st):
        self.ctx.require(cond, key + ':' + self.name, text, self.F(st))

    def settle(self, st, what):
        """what was asked for before must be done by now"""
        self.req(self.get(st, 'item') is None, 'lost', 'an action of a hook is not carried out', st)
        self.req(self.get(st, 'due') is None, 'rest', 'not all actions of a hook are carried out', st)
        self.req('request' not in st.ps, 'unasked', 'a packet that a hook has to decide on is dropped', st)
        if what != 'end':
            for k, text in (('spent', 'a hook that has answered is asked again'), ('failed', 'the connection goes on although an action of a hook failed'), ('refused', 'the connection goes on although a hook ended it'),
                            ('waiting', 'the loop goes on before a hook has answered')):
                self.req(k not in st.ps, k, text, st)

    def take(self, E, st, t, b, ln):
        e = t.a[0]
        c, d = terms.lin_of(e)
        L = ln.a[0]
        if d.get(ln) == -1:
            i, got = terms.add(e, ln), b
        elif d.get(ln) == 1:
            i, got = terms.sub(terms.sub(ln, Int(1)), e), not b
        else:
            return
        if got:
            self.req(self.get(st, 'item') is None, 'lost', 'an action of a hook is not carried out', st)
            self.cut(st, 'item', 'applied')
            if 'started' not in st.ps:
                self.req(E.decide(st, terms.eq0(i)) is not False, 'first', 'the first action of a hook is left out', st)
            self.put(st, ('item', terms.project(L, ('i', i))), 'started')
            self.count('taken')
        else:
            self.cut(st, 'due')

    def on_back(self, E, st, depth, bb):
        self.cut(st, 'applied')

    def on_assume(self, E, st, t, v):
        b = v is TRUE or v is True
        if t.op == 'lt0':
            for ln in walk(t):
                if ln.op == 'len' and is_list(ln.a[0]):
                    self.take(E, st, t, b, ln)
                    break
        elif t.op == 'eq0' and t.a[0].op == 'len' and is_list(t.a[0].a[0]) and b:
            self.cut(st, 'due')
        due = self.get(st, 'due')
        if due is not None and E.decide(st, terms.eq0(length(due[1]))) is True:
            self.cut(st, 'due')
        d, n = None, None
        if t.op == 'discr':
            d, n = t.a[0], v.a[0] if hasattr(v, 'op') and v.op == 'int' else None
        elif t.op == 'eq0' and t.a[0].op == 'discr':
            d, n = t.a[0].a[0], 0 if b else 1
        if d is None or n is None:
            return True
        if d.op == 'fld' and d.a[1][1] in ('Normal', 'AfterConnect'):
            if n == 0:
                self.put(st, ('due', fld(d, 'Ok.0')))
                self.count('answers')
            else:
                self.put(st, 'refused')
                self.count('refusals')
        elif called(d, 'apply_action') and n == 1:
            self.put(st, 'failed')
            self.count('failures')
        elif d.op == 'poll' and self.hook(d):
            if n == 0:
                self.put(st, 'fetch')
                if not any(called(x, 'handle_request') for x in walk(d)):
                    self.put(st, 'spent')
            else:
                self.put(st, 'waiting')
            self.count('ready' if n == 0 else 'not ready')
        elif d.op == 'fld' and d.a[1] == ('f', 'Ok', '0') and called(d.a[0], 'handle_packet') and n == 1:
            self.put(st, 'request')
        return True

    def on_write(self, E, st, root, path, val, span):
        last = fields(path)[-1:] or [y.a[1][-1] for y in walk(root[1]) if y.op == 'fld'][:1] if root[0] == 'S' and isinstance(root[1], T) else []
        if last == ['hook_fut']:
            self.cut(st, 'spent')

    @staticmethod
    def hook(p):
        return any(called(x, 'handle_request') or x.op == 'fld' and x.a[1][-1] == 'hook_fut' for x in walk(p))

    def on_call(self, E, st, c):
        name = next((n for n in (c.res, c.name) if n and re.search(CALLS, n)), None)
        if name is None:
            if re.search(r'Iterator::(try_)?(for_each|fold)$', c.name or '') and any(is_list(y) for x in E.vals(st, c)[:1] for y in walk(E.deep(st, x))):
                self.cut(st, 'due')         # not followed element by element
            return None
        what = short(name)
        vals = [E.deep(st, x) for x in E.vals(st, c)]
        if what == 'apply_action':
            self.count('applied')
            it = self.get(st, 'item')
            self.req('failed' not in st.ps, 'failed', 'actions are carried out after one has failed', st)
            self.req('refused' not in st.ps, 'refused', 'actions are carried out although the hook failed', st)
            x = vals[1]
            ours = [y for y in walk(x) if is_list(y)]
            last = self.get(st, 'applied')
            self.req(last is None or last[1] is not x or not ours, 'twice', 'an action is carried out twice', st)
            if it is not None:
                self.req(x is it[1] or not ours or not x.op == 'fld', 'other', 'another action is carried out than was taken', st)
            self.cut(st, 'item', 'applied')
            self.put(st, ('applied', x))
            return None
        if what == 'handle_request':
            self.count('asked')
            if any(called(y, 'handle_packet') for y in walk(vals[0])):
                self.cut(st, 'request')
            return None
        if what == 'poll' and self.hook(vals[0]):
            return None
        if what == 'after_handle_packet':
            self.settle(st, 'fetch')
            self.cut(st, 'fetch')
            return None
        self.settle(st, what)
        if what in ('handle_packet', 'poll', 'handle_normal'):
            self.req('fetch' not in st.ps, 'fetch', 'what a packet has made ready for its client is not fetched', st)
            self.cut(st, 'fetch')
        self.cut(st, 'item', 'applied', 'started', 'due', 'failed', 'refused', 'waiting', 'request')
        return None

    def on_return(self, E, st, v):
        v = E.deep(st, v)
        self.count('returns')
        ready = None
        if v.op == 'agg' and v.a[2] in ('Ready', 'Pending'):
            ready = v.a[2] == 'Ready'
        err = ready is True
        if ready is None and v.op == 'agg' and v.a[2] in ('Ok', 'Err'):
            err = v.a[2] == 'Err'
            ready = True
        if 'waiting' in st.ps:
            self.req(ready is not True, 'waiting', 'the loop ends although a hook has not answered', st)
            h = [x for x in self.parked(E, st)]
            self.req(not h or h[0] is not NONE, 'forgotten', 'a hook that has not answered is forgotten', st)
            self.cut(st, 'waiting')
            return
        if 'failed' in st.ps:
            self.req(err, 'failed', 'the connection goes on although an action of a hook failed', st)
        elif 'refused' in st.ps:
            self.req(err, 'refused', 'the connection goes on although a hook ended it', st)
        else:
            self.settle(st, 'end')
            self.req('fetch' not in st.ps or ready is True, 'fetch', 'what a packet has made ready for its client is not fetched', st)

    def parked(self, E, st):
        """what the loop keeps of hooks that have not answered"""
        for k, x in st.mem.items():
            if k[0] == 'S' and isinstance(k[1], T) and k[1].op == 'fld' and k[1].a[1][-1] == 'hook_fut':
                yield E.deep(st, x)
            elif k[0] == 'S' and isinstance(k[1], T) and k[1].op == 'sym' and 'hook_fut' in str(x)[:400]:
                y = fld(E.deep(st, x), 'hook_fut')
                if y.op == 'agg':
                    yield y


def h02(ctx):
    poll = [k for k in ctx.P.bodies if k.endswith('Future>::poll') and 'OnlineLoop' in k]
    if ctx.require(len(poll) == 1, 'anchor:poll', 'the loop of a connection is not found'):
        r = Actions(ctx, 'poll')
        run(ctx, poll[0], r)
        for k in ('answers', 'refusals', 'taken', 'applied', 'failures', 'ready', 'not ready', 'asked'):
            ctx.floor('poll ' + k, r.n.get(k, 0), 1)
    for v in ('v3', 'v5'):
        path = M % v + 'after_connect_hook'
        if ctx.anchor(path) is None:
            continue
        r = Actions(ctx, v + ' after_connect')
        run(ctx, path, r)
        for k in ('answers', 'refusals', 'taken', 'applied', 'failures'):
            ctx.floor('%s after_connect %s' % (v, k), r.n.get(k, 0), 1)
        apply(ctx, v)


PART = ('take', 'skip', 'filter', 'filter_map', 'step_by', 'take_while', 'skip_while', 'map_while')


def mapped(ctx, v, path):
    """a topic of a subscription stays what it is"""
    path = path.removeprefix('closure:')
    b = ctx.P.body(path)
    if b is None or b.argc != 2:
        return
    r = Collect()
    run(ctx, path, r)
    x = sym(argnames(ctx.P, path)[1])
    for rv, st in r.rets:
        F = facts_text(st)
        t, o = fld(rv, '0'), fld(rv, '1')
        ctx.require(t is fld(x, '0') or not understood(t), 'filter:' + v, 'a hook subscribes to another filter than it says', F)
        q = fld(o, 'max_qos') if v == 'v5' else o
        ctx.require(q is fld(x, '1') or not understood(q), 'qos:' + v, 'a hook subscribes with another QoS than it says', F)
        if v == 'v5' and o.op == 'agg':
            n = fld(o, 'no_local')
            ctx.require(n is FALSE or is_int(n, 0) or not understood(n), 'local:' + v, 'a subscription made by a hook leaves out messages of the client', F)


def apply(ctx, v):
    """apply_action: one call, with what the action says"""
    path = M % v + SESSION % v + 'apply_action'
    if ctx.anchor(path) is None:
        return
    names = argnames(ctx.P, path)
    S, A, G = [sym(x) for x in names]
    vs = [x['name'] for x in ctx.P.adts['hook::HookAction']['variants']]
    maps = set()
    WHAT = {'Publish': 'send_publish', 'Subscribe': 'handle_subscribe', 'Unsubscribe': 'handle_unsubscribe'}

    def event(E, st, kind, what, vals):
        F = lambda: [' '.join(st.ps[1])] + facts_text(st)
        d = E.value(st, discr(A, len(vs)))
        name = vs[d.a[0]] if d is not None else None
        if kind == 'call' and what in WHAT.values():
            ctx.require(WHAT.get(name) == what, 'action:%s:%s' % (v, name), 'the action %s is carried out by %s' % (name, what), F)
            ctx.require(not st.ps[1], 'action:%s:%s' % (v, name), 'the action %s is carried out twice' % name, F)
            ctx.require(vals[0] is S or not understood(vals[0]), 'session:' + v, 'an action is carried out for another session', F)
            r.count(name)
            src = project(A, ('f', name, '0'))
            m = vals[1]
            if what == 'send_publish' and m.op == 'agg':
                for k in ('retain', 'qos', 'topic_name', 'payload'):
                    x = fld(m, k)
                    ctx.require(x is fld(src, k) or not understood(x), 'publish:%s:%s' % (v, k), 'a hook publishes with another %s than it says' % k, F)
                if v == 'v5':
                    p = fld(m, 'properties')
                    for k in ('payload_is_utf8', 'message_expiry_interval', 'content_type'):
                        x = fld(p, k)
                        ctx.require(x is fld(src, k) or not understood(x), 'publish:%s:%s' % (v, k), 'a hook publishes with another %s than it says' % k, F)
                r.count('messages')
            elif what != 'send_publish':
                t = [y for y in walk(m) if y is src or y is fld(src, '0')]
                part = [y.a[2] for y in walk(m) if y.op == 'agg' and y.a[0] == 'iterlazy' and y.a[2] in PART]
                part += [str(fld(y, 'pos')) for y in walk(m) if y.op == 'agg' and y.a[0] == 'iter' and fld(y, 'pos').op == 'int' and fld(y, 'pos') is not Int(0)]
                ctx.require(not t or not part, 'topics:%s:%s' % (v, name), 'the action %s is carried out for some of its topics only (%s)' % (name, ' '.join(part)), F)
                for y in walk(m):
                    if y.op == 'agg' and y.a[0] == 'iterlazy' and y.a[2] == 'map':
                        f = dict(y.a[3]).get('f')
                        if f is not None and f.op == 'agg':
                            maps.add(str(f.a[0]))
                if t:
                    r.count('topics')
            return what
        if kind == 'return':
            ok = ok_of(E, st, vals[0])
            r.count('returns')
            ctx.require(ok is False or bool(st.ps[1]) or name is None, 'undone:%s:%s' % (v, name), 'the action %s is not carried out' % name, F)
            ctx.require(ok is not False or not st.ps[1], 'failed:%s:%s' % (v, name), 'an action that is carried out ends the connection', F)
        return None
    r = Flow(r'::send_publish$|::handle_subscribe$|::handle_unsubscribe$', event, {}, (), r'::send_publish$|::handle_subscribe$|::handle_unsubscribe$')
    run(ctx, path, r)
    for f in sorted(maps):
        mapped(ctx, v, f)
    for k in ('Publish', 'Subscribe', 'Unsubscribe', 'messages', 'returns', 'topics'):
        ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)


RULES = {'H02': h02}
