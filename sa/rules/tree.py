"""subscription table, shared groups and retained messages: the recursive functions are decided step by step (structural induction over topic levels)"""
from _base import *

RT, RN, SG = 'protocols::mqtt::route::', 'protocols::mqtt::route::RouteNode::', 'protocols::mqtt::route::SharedClients::'
RE, RX = 'protocols::mqtt::retain::RetainTable::', 'protocols::mqtt::retain::RetainNode::'
from forward import val3
ALL, ONE, DOLLAR = Lit(b'#'), Lit(b'+'), Lit(b'$')
STR, OSTR = r'^&str$', r'^core::option::Option<&str>$'


class Trace(Rule):
    """st.ps = the observed events of the path in order"""
    init = ()

    def __init__(self, calls, opaque=None, writes=None):
        self.calls = re.compile(calls)
        if opaque:
            self.opaque = re.compile(opaque)
        self.want = writes
        self.paths = []

    def pin(self, f):
        return True

    def peel(self, body, bb):
        return 4

    def on_call(self, E, st, c):
        n = c.res or c.name
        if self.calls.search(n):
            e = ('call', n, tuple(E.deep(st, x) for x in E.vals(st, c)), c.span)
            if e not in st.ps or not any(y.op in ('phi', 'join') for x in e[2] for y in leaves(x)):
                st.ps = st.ps + (e,)

    def on_return(self, E, st, val):
        self.paths.append((st.ps, st, E.deep(st, val)))


def trace(ctx, path, calls, opaque=None, **kw):
    if ctx.anchor(path) is None:
        return None, []
    r = Trace(calls, opaque)
    E = run(ctx, path, r, join_limit=1500, **kw)
    ctx.floor('paths of ' + path, len(r.paths), 1)
    return E, r.paths


def node_map(t):
    """the map of child nodes of a node term"""
    return mk('inner', fld(t, 'nodes'))


def split_of(x, t):
    """x is the first level of t: 'whole', 'head', or None"""
    if x is t:
        return 'whole'
    if x.op == 'fld' and x.a[0].op == 'item' and x.a[0].a[0].op == 'pure' and x.a[0].a[0].a[0] == 'split' and x.a[0].a[0].a[1] is t \
            and x.a[0].a[1] is Int(0) and str(x.a[0].a[0].a[2]) in ('47', "'/'"):
        return 'head'
    return None


def rest_of(x, t):
    """x (an Option) is what follows the first level of t"""
    d = discr(x, 2)
    if d is Int(0):
        return 'whole'
    y = fld(x, 'Some.0')
    if y.op == 'slice' or 'split' in str(y):
        return 'head' if depends(y, t) else None
    return None


def level_pair(head, rest, t):
    """head and rest are the first level of t and what follows it; None if not understood"""
    h, r = split_of(head, t), rest_of(rest, t)
    if h is None or r is None:
        return None if not (understood(head) and understood(rest)) else False
    return h == r


def nonempty(E, st, content):
    """does a route content (behind its lock) have subscribers: True, False or None"""
    c = mk('inner', content)
    vs = []
    for k in ('clients', 'groups'):
        ln = length(E.load_term(st, c, k) if hasattr(E, 'load_term') else fld(c, k))
        v = E.decide(st, lt(Int(0), ln))
        vs.append(v)
    if True in vs:
        return True
    return False if vs == [False, False] else None


def some(E, st, t):
    v = E.value(st, discr(t, 2))
    return None if v is None else v is Int(1)


def same_text(E, st, a, b):
    for f, v in st.facts.items():
        if f.op == 'eq' and set(f.a) == {a, b}:
            return v is TRUE or v is Int(1)
    if any(x is b for x in st.excl.get(a, ())):
        return False
    return None


def get(m, k):
    return mk('pure', 'mapget', m, k)


def node(t):
    """(map, key) if t is the node found under key"""
    if t.op == 'fld' and t.a[0].op == 'pure' and t.a[0].a[0] == 'mapget':
        return t.a[0].a[1], t.a[0].a[2]
    return None


# ---------------------------------------------------------------- R01: matching

def r01(ctx):
    """RouteNode::get_matches and RouteTable::get_matches, step by step over topic levels: which contents are reported and which children are followed"""
    n = 0
    path = RN + 'get_matches'
    E, paths = trace(ctx, path, r'RouteNode::get_matches$|::push$', r'RouteNode::get_matches$')
    prev, items = params(ctx, path, STR)[0], params(ctx, path, OSTR)[0]
    for ps, st, val in paths:
        n += 1
        me = sym('self')
        kids = node_map(me)
        own = fld(me, 'content')
        F = facts_text(st)
        pushed = [e[2][1] for e in ps if e[1].endswith('push')]
        rec = [(e[2][0], e[2][1], e[2][2]) for e in ps if e[1].endswith('get_matches')]
        isall = same_text(E, st, prev, ALL)
        alls = [isall] if isall is not None else [True, False]
        hash_content = fld(get(kids, ALL), 'Some.0.content')
        for is_all in alls:
            rests = [False] if is_all else [x for x in (True, False) if some(E, st, items) in (None, x)]
            for more in rests:
                want = {}
                if is_all:
                    want[own] = 'a filter ending in # does not match although its level is reached'
                elif not more:
                    want[own] = 'a filter does not match the topic it spells out'
                    want[hash_content] = 'a filter ending in /# does not match its parent level'
                follow = {}
                if not is_all and more:
                    rest = fld(items, 'Some.0')
                    for k, what in ((None, 'same level'), (ALL, '#'), (ONE, '+')):
                        follow[what] = k
                seen = set()
                for x in pushed:
                    k = x
                    ctx.require(k not in seen, 'match-twice', 'a filter is reported twice for one topic', F)
                    seen.add(k)
                    ctx.require(x in want or not understood(x), 'match-extra', 'a filter is reported that does not match: %s' % str(x)[:120], F)
                done = set()
                for nd, item, rest in rec:
                    m = node(nd)
                    if m is None or m[0] is not kids:
                        ctx.require(m is None or not understood(nd), 'match-node', 'the search goes on in another node: %s' % str(nd)[:120], F)
                        continue
                    k = m[1]
                    if item is ALL and k is ALL and not more and not is_all:
                        seen.add(hash_content)
                        continue
                    if is_all or not more:
                        ctx.require(False, 'match-below', 'the search goes on below the last level', F)
                        continue
                    t = fld(items, 'Some.0')
                    ctx.require(k is item or not (understood(k) and understood(item)), 'match-item', 'the search goes on in the node of %s as if it were %s' % (str(k)[:80], str(item)[:80]), F)
                    if k is ALL or k is ONE:
                        r = rest_of(rest, t)
                        what = '#' if k is ALL else '+'
                        ctx.require(r is not None or not understood(rest), 'match-rest', 'the search goes on with other levels: %s' % str(rest)[:120], F)
                        split_known = [x for x in ps if x[1].endswith('get_matches')]
                    else:
                        what = 'same level'
                        r = level_pair(item, rest, t)
                        ctx.require(r is not False, 'match-level', 'the search goes on with other levels: %s, %s' % (str(item)[:80], str(rest)[:80]), F)
                    ctx.require(what not in done, 'match-twice', 'the same child is searched twice', F)
                    done.add(what)
                # the rest handed on must be the same for every child
                rests_given = {x[2] for x in rec}
                ctx.require(len(rests_given) <= 1 or is_all or not more, 'match-rest', 'children are searched with different remaining levels', F)
                for x, msg in want.items():
                    if x in seen:
                        continue
                    if x is hash_content and some(E, st, get(kids, ALL)) is False:
                        continue
                    ctx.require(nonempty(E, st, x) is False, 'match-missing', msg, F)
                for what, k in follow.items():
                    if what in done:
                        continue
                    absent = [kk for kk in map_misses(E, st, kids) if (kk is k if k is not None else kk not in (ALL, ONE))]
                    ctx.require(absent, 'match-child', 'the child for %s is not searched' % what, F)
    path = RT + 'RouteTable::get_matches'
    E, paths = trace(ctx, path, r'RouteNode::get_matches$|::push$', r'RouteNode::get_matches$')
    t = params(ctx, path, r'TopicName$')[0]
    dollars = set()
    for ps, st, val in paths:
        n += 1
        kids = node_map(sym('self'))
        F = facts_text(st)
        v = val3(E, st, mk('starts_with', t, DOLLAR))
        worlds = [v] if v is not None else [True, False]
        for dollar in worlds:
            dollars.add(dollar)
            done = set()
            for e in ps:
                if e[1].endswith('push'):
                    ctx.require(not understood(e[2][1]), 'match-extra', 'a filter is reported that does not match: %s' % str(e[2][1])[:120], F)
                    continue
                nd, item, rest = e[2][:3]
                m = node(nd)
                if m is None or m[0] is not kids:
                    ctx.require(m is None or not understood(nd), 'match-node', 'the search starts in another node: %s' % str(nd)[:120], F)
                    continue
                ctx.require(m[1] is item or not understood(item), 'match-item', 'the search goes on in the node of %s as if it were %s' % (str(m[1])[:80], str(item)[:80]), F)
                if m[1] in (ALL, ONE):
                    what = m[1].a[0].decode()
                    ctx.require(not dollar, 'match-dollar', 'a topic beginning with $ matches a filter beginning with a wildcard', F)
                    ctx.require(rest_of(rest, t) is not None or not understood(rest), 'match-rest', 'the search goes on with other levels: %s' % str(rest)[:120], F)
                else:
                    what = 'same level'
                    ctx.require(level_pair(item, rest, t) is not False, 'match-level', 'the search goes on with other levels: %s, %s' % (str(item)[:80], str(rest)[:80]), F)
                ctx.require(what not in done, 'match-twice', 'the same node is searched twice', F)
                done.add(what)
            rests_given = {e[2][2] for e in ps if e[1].endswith('get_matches')}
            ctx.require(len(rests_given) <= 1, 'match-rest', 'nodes are searched with different remaining levels', F)
            for what in ('same level',) + (() if dollar else ('#', '+')):
                if what not in done:
                    absent = [kk for kk in map_misses(E, st, kids) if (kk is Lit(what.encode()) if what != 'same level' else kk not in (ALL, ONE))]
                    ctx.require(absent, 'match-child', 'the first level %s is not searched' % what, F)
    ctx.floor('topics with and without $', len(dollars), 2)
    ctx.counts['paths'] = n


def map_misses(E, st, m):
    """keys known to be absent from the map m"""
    out = []
    for f, v in st.facts.items():
        if f.op == 'discr' and f.a[0].op == 'pure' and f.a[0].a[0] == 'mapget' and f.a[0].a[1] is m and v is Int(0):
            out.append(f.a[0].a[2])
    for f, ex in st.excl.items():
        if f.op == 'discr' and f.a[0].op == 'pure' and f.a[0].a[0] == 'mapget' and f.a[0].a[1] is m and any(x is Int(1) for x in ex):
            out.append(f.a[0].a[2])
    return out



# ---------------------------------------------------------------- R02: subscribing and unsubscribing

def final(E, st, t, *path):
    """the value of t.path when the function returns (t is reached through a reference)"""
    return E.deep(st, E.load(st, ('S', t), tuple(('f', '', x) for x in path)))


def without(m, k):
    return mk('mapupd', m, k, agg('core::option::Option', 0, 'None', ()))


def upd_of(m):
    """(map, key, value or None) if m is a map with one key set or removed"""
    if m.op != 'mapupd':
        return None
    v = m.a[2]
    return m.a[0], m.a[1], None if discr(v, 2) is Int(0) else fld(v, 'Some.0')


def empty(E, st, m):
    """is the map or list empty: True, False or None"""
    v = E.decide(st, lt(Int(0), length(m)))
    return None if v is None else not v


def check_down(ctx, E, st, e, filt, rest_from, F, same, key):
    """the recursive call goes to the node of the next level with everything else unchanged; returns its key"""
    kids = node_map(sym('self'))
    m = node(e[2][0])
    return m


def r02_insert(ctx):
    path = RN + 'insert'
    E, paths = trace(ctx, path, r'RouteNode::insert$|SharedClients::insert$', r'RouteNode::insert$|SharedClients::insert$')
    flt = params(ctx, path, r'TopicFilter$')[0]
    items, cid, qos = params(ctx, path, OSTR)[0], params(ctx, path, r'ClientId$')[0], params(ctx, path, r'QoS$')[0]
    group = params(ctx, path, r'Option<alloc::string::String>$|^core::option::Option<&str>$')
    group = [g for g in group if g is not items][0]
    kinds = set()
    for ps, st, val in paths:
        F = facts_text(st)
        me = sym('self')
        down = [e for e in ps if e[1].endswith('RouteNode::insert')]
        members = [e for e in ps if e[1].endswith('SharedClients::insert')]
        kids, cont = node_map(me), mk('inner', fld(me, 'content'))
        for more in (True, False):
            if some(E, st, items) not in (None, more):
                continue
            cf, gf, tf = final(E, st, cont, 'clients'), final(E, st, cont, 'groups'), final(E, st, cont, 'topic_filter')
            if more:
                kinds.add('down')
                ctx.require(len(down) == 1, 'insert-down', 'a subscription of a deeper level is not passed on exactly once', F)
                ctx.require(cf is fld(cont, 'clients') and gf is fld(cont, 'groups') and not members, 'insert-passing', 'a subscription of a deeper level is recorded on the way', F)
                for e in down:
                    r02_down(ctx, E, st, e, kids, items, {flt: 'topic filter', cid: 'client', qos: 'QoS', group: 'group'}, 'insert', F)
            else:
                ctx.require(not down, 'insert-below', 'a subscription is passed on below its last level', F)
                ctx.require(some(E, st, tf) is True, 'insert-filter', 'a subscription is recorded in a node without a topic filter', F)
                v = fld(tf, 'Some.0')
                ctx.require(v is flt or v is fld(cont, 'topic_filter', 'Some.0') or not understood(v), 'insert-filter', 'a node gets another topic filter: %s' % str(v)[:100], F)
                for grp in (True, False):
                    if some(E, st, group) not in (None, grp):
                        continue
                    kinds.add('group' if grp else 'client')
                    if not grp:
                        u = upd_of(cf)
                        ctx.require(u is not None and u[0] is fld(cont, 'clients') and u[1] is cid and u[2] is qos or not understood(cf), 'insert-client',
                                    'a subscription does not record its client with the granted QoS: %s' % str(cf)[:150], F)
                        ctx.require(gf is fld(cont, 'groups') and not members, 'insert-client', 'a subscription without group changes a group', F)
                    else:
                        name = fld(group, 'Some.0')
                        g0 = fld(cont, 'groups')
                        ctx.require(cf is fld(cont, 'clients'), 'insert-group', 'a shared subscription is recorded as an ordinary one', F)
                        ctx.require(len(members) == 1, 'insert-group', 'a shared subscription does not join its group exactly once', F)
                        u = upd_of(gf)
                        for e in members:
                            it = e[2][1]
                            ctx.require(fld(it, '0') is cid and fld(it, '1') is qos or not understood(it), 'insert-member', 'a group gets another member than the subscriber with its QoS: %s' % str(it)[:120], F)
                            m = node(e[2][0])
                            if m is not None:
                                ctx.require(m[0] is g0 and m[1] is name, 'insert-name', 'a subscriber joins another group: %s' % str(m[1])[:100], F)
                            else:
                                ctx.require(u is not None and u[0] is g0 and u[1] is name or not understood(gf), 'insert-name', 'a new group is not kept under its name', F)
                                ctx.require(some(E, st, get(g0, name)) is False or u is None, 'insert-replaced', 'an existing group is replaced', F)
    ctx.floor('kinds of insertion', len(kinds), 3)


def r02_down(ctx, E, st, e, kids, items, same, what, F):
    """one recursive step: the child of the next level, the remaining levels and everything else handed on"""
    nd, args = e[2][0], e[2][1:]
    t = fld(items, 'Some.0')
    rest = [x for x in args if not any(x is y for y in same)]
    for y, name in same.items():
        ctx.require(any(x is y for x in args) or not all(understood(x) for x in rest), '%s-%s' % (what, name.replace(' ', '-')), 'the %s is not handed on to the next level' % name, F)
    m = node(nd)
    key = m[1] if m else None
    if m is None:
        u = upd_of(final(E, st, kids))
        if u is not None:
            m, key = (u[0], u[1]), u[1]
            ctx.require(some(E, st, get(kids, key)) is False or not understood(key), what + '-replaced', 'an existing node is replaced by a new one', F)
    if m is not None:
        ctx.require(m[0] is kids or not understood(m[0]), what + '-node', 'the next level is looked up in another node', F)
        rs = [x for x in rest if x.op == 'agg' or rest_of(x, t) is not None]
        for x in rs[:1]:
            ctx.require(level_pair(key, x, t) is not False, what + '-level', 'the next level is %s with %s remaining' % (str(key)[:80], str(x)[:80]), F)
        return key
    return None


def r02_remove(ctx):
    path = RN + 'remove'
    E, paths = trace(ctx, path, r'RouteNode::remove$|SharedClients::remove$', r'RouteNode::remove$|SharedClients::remove$')
    items, group = params(ctx, path, OSTR)
    cid = params(ctx, path, r'ClientId$')[0]
    kinds = set()
    for ps, st, val in paths:
        F = facts_text(st)
        me = sym('self')
        kids, cont = node_map(me), mk('inner', fld(me, 'content'))
        down = [e for e in ps if e[1].endswith('RouteNode::remove')]
        members = [e for e in ps if e[1].endswith('SharedClients::remove')]
        cf, gf, tf = final(E, st, cont, 'clients'), final(E, st, cont, 'groups'), final(E, st, cont, 'topic_filter')
        kf = final(E, st, kids)
        c0, g0 = fld(cont, 'clients'), fld(cont, 'groups')
        r = val3(E, st, val)
        # the caller drops the node: nothing may be lost with it
        if r is not False:
            kinds.add('gone')
            s2 = st.copy()
            if r is None and not E.assume(s2, val, True):
                continue
            ctx.require(all(empty(E, s2, x) is True or not understood(x) for x in (cf, gf, kf)), 'remove-lost', 'a node is reported as unused although subscriptions may remain in or below it', F)
        none = fld(cont, 'topic_filter')
        if tf is not none:
            ctx.require(some(E, st, tf) is not False or all(empty(E, st, x) is True or not understood(x) for x in (cf, gf)), 'remove-filter', 'a node loses its topic filter although it has subscribers', F)
        for more in (True, False):
            if some(E, st, items) not in (None, more):
                continue
            if more:
                ctx.require(cf is c0 and gf is g0 and not members, 'remove-passing', 'unsubscribing from a deeper level changes a subscription on the way', F)
                if not down:
                    ctx.require(map_misses(E, st, kids), 'remove-down', 'unsubscribing from a deeper level is not passed on', F)
                for e in down:
                    kinds.add('down')
                    k = r02_down(ctx, E, st, e, kids, items, {cid: 'client', group: 'group'}, 'remove', F)
                    r02_dropped(ctx, E, st, kids, kf, k, 'remove', F)
                if not down:
                    ctx.require(kf is kids, 'remove-child', 'a node is dropped although nothing was removed from it', F)
            else:
                ctx.require(not down and kf is kids, 'remove-below', 'unsubscribing goes on below the last level', F)
                for grp in (True, False):
                    if some(E, st, group) not in (None, grp):
                        continue
                    kinds.add('group' if grp else 'client')
                    if not grp:
                        u = upd_of(cf)
                        ctx.require(u is not None and u[0] is c0 and u[1] is cid and u[2] is None or not understood(cf), 'remove-client', 'unsubscribing does not remove the client: %s' % str(cf)[:150], F)
                        ctx.require(gf is g0 and not members, 'remove-client', 'unsubscribing without group changes a group', F)
                    else:
                        name = fld(group, 'Some.0')
                        ctx.require(cf is c0, 'remove-group', 'unsubscribing from a group removes an ordinary subscription', F)
                        if not members:
                            ctx.require(some(E, st, get(g0, name)) is False, 'remove-group', 'unsubscribing from a group does not leave it', F)
                        for e in members:
                            m = node(e[2][0])
                            ctx.require(m is None or m[0] is g0 and m[1] is name or not understood(e[2][0]), 'remove-name', 'another group is left', F)
                            ctx.require(any(x is cid for x in e[2][1:]) or not all(understood(x) for x in e[2][1:]), 'remove-member', 'another member leaves the group', F)
                        if gf is not g0:
                            u = upd_of(gf)
                            ok = u is not None and u[0] is g0 and u[1] is name and u[2] is None
                            ctx.require(ok or not understood(gf), 'remove-groups', 'unsubscribing changes another group: %s' % str(gf)[:150], F)
                            if ok:
                                kinds.add('group gone')
                                g = final(E, st, fld(get(g0, name), 'Some.0'), 'items')
                                ctx.require(empty(E, st, g) is True, 'remove-group-lost', 'a group is dropped although members remain', F)
                        elif members:
                            g = final(E, st, fld(get(g0, name), 'Some.0'), 'items')
                            ctx.require(empty(E, st, g) is not True, 'remove-group-empty', 'an empty group is kept', F)
    ctx.floor('kinds of removal', len(kinds), 5)


def r02_dropped(ctx, E, st, kids, kf, k, what, F):
    """a child is dropped exactly when its removal step reported it unused"""
    ret = [val3(E, st, f) for f in st.facts if f.op == 'call' and str(f.a[0]).endswith('::remove')]
    if kf is not kids:
        u = upd_of(kf)
        ctx.require(u is not None and u[0] is kids and u[2] is None and (k is None or u[1] is k) or not understood(kf), what + '-child', 'another node is dropped: %s' % str(kf)[:150], F)
        ctx.require(True in ret, what + '-used', 'a node is dropped although it did not report itself unused', F)
    else:
        ctx.require(True not in ret, what + '-unused', 'an unused node is kept', F)


def r02_table(ctx):
    for fn, rec in (('subscribe', 'insert'), ('unsubscribe', 'remove')):
        path = RT + 'RouteTable::' + fn
        E, paths = trace(ctx, path, r'RouteNode::%s$' % rec, r'RouteNode::(insert|remove)$')
        flt, cid = params(ctx, path, r'TopicFilter$')[0], params(ctx, path, r'ClientId$')[0]
        qos = params(ctx, path, r'QoS$')
        shared = set()
        for ps, st, val in paths:
            F = facts_text(st)
            kids = node_map(sym('self'))
            info = [f.a[0] for f in st.facts if f.op == 'discr' and 'shared_info' in str(f.a[0]) and f.a[0].op in ('call', 'pure')]
            grp = some(E, st, info[0]) if info else None
            ctx.require(grp is not None, fn + '-shared', 'it is not checked whether the filter is a shared subscription', F)
            if grp is None:
                continue
            shared.add(grp)
            kf = final(E, st, kids)
            want_f = None
            if not ps:
                ctx.require(fn == 'unsubscribe' and map_misses(E, st, kids), fn + '-down', 'the subscription is not passed on', F)
                ctx.require(kf is kids, fn + '-child', 'a node is dropped although nothing was removed from it', F)
            for e in ps:
                args = e[2][1:]
                t = None
                if not grp:
                    t = flt
                else:
                    ts = [x for f in st.facts for x in walk(f) if x.op == 'fld' and x.a[1][2] == '0' and str(x.a[1][1]) == 'Ok' or x.op == 'pure' and x.a[0] == 'try_from']
                    t = next((fld(x, 'Ok.0') for x in ts if x.op == 'pure' and depends(x, fld(info[0], 'Some.0.1'))), None)
                gs = [x for x in args if x.op == 'agg' and 'Option' in x.a[0] and discr(x, 2) is not None and (discr(x, 2) is Int(0) or depends(x, info[0]))]
                if t is None:
                    part = fld(info[0], 'Some.0.1')
                    ctx.require(not any(x is flt for x in args) and (not all(understood(x) for x in args) or any(depends(x, part) for x in args)), fn + '-topic-filter', 'a shared subscription is handed on with its group prefix', F)
                    continue
                if grp:
                    ctx.require(not any(x is flt for x in args), fn + '-topic-filter', 'a shared subscription is handed on with its group prefix', F)
                same = {cid: 'client'}
                if qos:
                    same[qos[0]] = 'QoS'
                    same[t] = 'topic filter'
                for y, name in same.items():
                    ctx.require(any(x is y for x in args) or not all(understood(x) for x in args), fn + '-' + name.replace(' ', '-'), 'the %s is not handed on' % name, F)
                last = args[-1]
                if grp:
                    ctx.require(some(E, st, last) is not False and (fld(last, 'Some.0') is fld(info[0], 'Some.0.0') or not understood(last)), fn + '-group', 'a shared subscription goes to group %s' % str(last)[:100], F)
                else:
                    ctx.require(some(E, st, last) is False or not understood(last), fn + '-group', 'an ordinary subscription goes to group %s' % str(last)[:100], F)
                m = node(e[2][0])
                key = m[1] if m else None
                if m is None and upd_of(kf):
                    key = upd_of(kf)[1]
                rest = [x for x in args if x is not last and x.op == 'agg' and 'Option' in x.a[0]]
                if key is not None and rest:
                    ctx.require(level_pair(key, rest[0], t) is not False, fn + '-level', 'the first level is %s with %s remaining' % (str(key)[:80], str(rest[0])[:80]), F)
                if fn == 'unsubscribe':
                    r02_dropped(ctx, E, st, kids, kf, key, fn, F)
        ctx.floor('shared and ordinary filters: ' + fn, len(shared), 2)


def r02(ctx):
    """RouteTable/RouteNode subscribe, unsubscribe, insert, remove step by step: what is recorded or removed, where, and which nodes may be dropped"""
    r02_insert(ctx)
    r02_remove(ctx)
    r02_table(ctx)



# ---------------------------------------------------------------- R03: shared subscription groups

def lookup(m, key, base, eq):
    """value under key after the updates of m: a term, None (absent), 'base' or None if not understood; eq(a, b) decides key equality"""
    while m.op == 'mapupd':
        r = eq(m.a[1], key)
        if r is None:
            return 'unknown'
        if r:
            v = m.a[2]
            d = discr(v, 2)
            return None if d is Int(0) else fld(v, 'Some.0')
        m = m.a[0]
    return 'base' if m is base else 'unknown'


def r03(ctx):
    """SharedClients: insert and remove keep the index the exact inverse of the member list, choosing a member never leaves the list"""
    me = sym('self')
    items, index = fld(me, 'items'), fld(me, 'index')
    path = SG + 'insert'
    E, paths = trace(ctx, path, r'XX')
    kinds = set()
    for ps, st, val in paths:
        F = facts_text(st)
        b = ctx.P.body(path)
        it = params(ctx, path, r'ClientId')[0]
        cid, qos = fld(it, '0'), fld(it, '1')
        fi, fx = E.deep(st, E.load(st, ('S', me), (('f', '', 'items'),))), E.deep(st, E.load(st, ('S', me), (('f', '', 'index'),)))
        there = some(E, st, get(index, cid))
        kinds.add(there)
        if there is None:
            ctx.require(False, 'member-unchecked', 'a member is added without looking whether it is one already', F)
        elif there:
            i = fld(get(index, cid), 'Some.0')
            ctx.require(fx is index or lookup(fx, cid, index, lambda a, b: a is b or None) is i or not understood(fx), 'member-index', 'the position of a member changes when its QoS is updated: %s' % str(fx)[:120], F)
            now = E.deep(st, E.load(st, ('S', me), (('f', '', 'items'), ('i', i), ('f', '', '1'))))
            ctx.require(now is qos or not understood(now), 'member-qos', 'the QoS of a member is not updated: %s' % str(now)[:120], F)
            ctx.require(length(fi) is length(items), 'member-count', 'a member is added twice', F)
        else:
            ctx.require(lookup(fx, cid, index, lambda a, b: a is b or None) is length(items) or not understood(fx), 'member-index', 'a new member is indexed at a position it does not have: %s' % str(fx)[:120], F)
            last = E.deep(st, E.load(st, ('S', me), (('f', '', 'items'), ('i', length(items)))))
            ctx.require(sub(length(fi), length(items)) is Int(1), 'member-count', 'a new member is not added exactly once', F)
            if fi.op == 'cat' and fi.a[0] is items or fi.op == 'cat' and len(fi.a) == 2:
                x = fi.a[-1]
                if x.op == 'agg' and x.a[0].startswith('[]') and len(x.a[3]) == 1:
                    last = x.a[3][0][1]
            ctx.require(last is it or fld(last, '0') is cid and fld(last, '1') is qos or not understood(last), 'member-item', 'another member is added: %s' % str(last)[:120], F)
    ctx.floor('new and known members', len(kinds), 2)
    path = SG + 'remove'
    E, paths = trace(ctx, path, r'XX')
    cid = params(ctx, path, r'ClientId')[0]
    kinds = set()
    for ps, st, val in paths:
        F = facts_text(st)
        fi, fx = E.deep(st, E.load(st, ('S', me), (('f', '', 'items'),))), E.deep(st, E.load(st, ('S', me), (('f', '', 'index'),)))
        there = some(E, st, get(index, cid))
        if there is False:
            kinds.add('absent')
            ctx.require(fi is items, 'leave-other', 'a member leaves although the client is not a member', F)
            ctx.require(fx is index or upd_of(fx) is not None and upd_of(fx)[:2] == (index, cid) or not understood(fx), 'leave-index', 'the index changes although the client is not a member', F)
            continue
        if there is None:
            ctx.require(False, 'leave-unchecked', 'a member leaves without looking whether it is one', F)
            continue
        i = fld(get(index, cid), 'Some.0')
        n1 = sub(length(items), Int(1))
        last = fld(E.deep(st, mk('idx', items, n1)) if False else project(items, ('i', n1)), '0')
        # the invariant of the index: the last item is the one that leaves exactly when its position is the last one
        same = known_same(E, st, last, cid)
        if same is None:
            d = E.decide(st, lt(i, n1))
            same = None if d is None else not d
        one = E.decide(st, lt(Int(1), length(items))) is False
        ctx.require(sub(length(items), length(fi)) is Int(1) or one and E.decide(st, lt(Int(0), length(fi))) is False or not understood(fi), 'leave-count', 'not exactly one member leaves: %s' % str(fi)[:150], F)
        for w in ([True] if one else [True, False]) if same is None else [same]:
            kinds.add('last' if w else 'other')
            eqf = lambda a, b, w=w: True if a is b else (w if {a, b} == {last, cid} else None)
            at = lookup(fx, cid, index, eqf)
            ctx.require(at is None or at == 'unknown', 'leave-stale', 'the index still lists the client that left (%s)' % ('it was the last member' if w else 'it was not the last member'), F)
            if not w:
                x = E.deep(st, E.load(st, ('S', me), (('f', '', 'items'), ('i', i))))
                if fld(x, '0') is last:
                    ctx.require(lookup(fx, last, index, eqf) in (i, 'unknown'), 'leave-moved', 'the member moved to the free position is not indexed there: %s' % str(fx)[:150], F)
                elif understood(x):
                    ctx.require(False, 'leave-item', 'the free position holds %s' % str(x)[:120], F)
    ctx.floor('kinds of leaving members', len(kinds), 3)
    for fn in ('get_by_number', 'get_by_hash'):
        path = SG + fn
        E, paths = trace(ctx, path, r'XX')
        arg = [sym(x) for x in argnames(ctx.P, path)][1]
        for ps, st, val in paths:
            F = facts_text(st)
            ok = val.op == 'fld' and val.a[0] is items and val.a[1][0] == 'i'
            ctx.require(ok or not understood(val), 'choose-member', 'the chosen member is not one of the list: %s' % str(val)[:150], F)
            if ok:
                i = val.a[1][1]
                ctx.require(E.decide(st, lt(i, length(items))) is True and E.decide(st, lt(i, Int(0))) is not True, 'choose-bounds', 'the position of the chosen member may be outside the list', F)
                ctx.require(depends(i, arg) or not understood(i), 'choose-by', 'the choice does not depend on the given %s' % ('number' if fn == 'get_by_number' else 'data'), F)
                ctx.require(not any(x.op == 'bin' and x.a[0] in ('Rem', 'BitAnd') and not depends(x.a[2], length(items)) or x.op == 'bits' and x.a[2] < 32 for x in walk(i)), 'choose-range',
                            'some members can never be chosen: %s' % str(i)[:120], F)


def known_same(E, st, a, b):
    for f, v in st.facts.items():
        if f.op in ('eq', 'eq0'):
            if f.op == 'eq' and set(f.a) == {a, b}:
                return v is TRUE
            if f.op == 'eq0':
                ks = list(terms.lin_of(f.a[0])[1].items())
                if len(ks) == 2 and terms.lin_of(f.a[0])[0] == 0 and any(k in (a, fld(a, '0')) for k, _ in ks) and any(k in (b, fld(b, '0')) for k, _ in ks):
                    return v is TRUE
    return None


# ---------------------------------------------------------------- R04: retained messages

def r04_match(ctx):
    path = RX + 'get_matches'
    E, paths = trace(ctx, path, r'RetainNode::get_matches$|::push$|Iterator::(for_each|fold)$', r'RetainNode::get_matches$')
    prev, items, wf = params(ctx, path, STR)[0], params(ctx, path, OSTR)[0], params(ctx, path, r'^bool$')[0]
    kinds = set()
    me = sym('self')
    kids = node_map(me)

    def blocked(st, c):
        """is the retained message c (an Option) hidden from the filter: True, False or None"""
        d, w = val3(E, st, mk('starts_with', fld(c, 'Some.0.topic_name'), DOLLAR)), val3(E, st, wf)
        if d is False or w is False:
            return False
        return True if d and w else None

    def report(st, pushed, c, F, what):
        """the content c is reported unless absent or hidden"""
        if fld(c, 'Some.0') in pushed:
            ctx.require(blocked(st, c) is False, 'retain-dollar', 'a retained message of a $ topic may be sent for a filter beginning with a wildcard', F)
        else:
            ctx.require(some(E, st, c) is False or blocked(st, c) is True, 'retain-missing', what, F)

    for ps, st, val in paths:
        F = facts_text(st)
        pushed = [e[2][1] for e in ps if e[1].endswith('push')]
        rec = [e[2] for e in ps if e[1].endswith('get_matches')]
        once = [x for x in pushed if not any(y.op == 'phi' for y in leaves(x))]
        ctx.require(len(set(once)) == len(once), 'retain-twice', 'a retained message is reported twice', F)
        is_all, is_one = same_text(E, st, prev, ALL), same_text(E, st, prev, ONE)
        modes = ['#'] if is_all else ['+'] if is_one else (['#'] if is_all is None else []) + (['+'] if is_one is None else []) + ['level']
        walked = [f.a[0] for f, v in st.facts.items() if f.op == 'discr' and f.a[0].op == 'item' and v is Int(1) and depends(f.a[0], kids)]
        seen_any = [f for f in st.facts if f.op == 'discr' and f.a[0].op == 'item' and depends(f.a[0], kids)]
        ended = any(st.facts[f] is Int(0) for f in seen_any) or empty(E, st, kids) is True
        if any(e[1].endswith(('for_each', 'fold')) and depends(e[2][0], kids) for e in ps):
            # these run to the end by themselves
            seen_any = ended = True
        for mode in modes:
            for more in (True, False):
                if some(E, st, items) not in (None, more) or mode == '#' and more:
                    continue
                kinds.add((mode, more))
                t = fld(items, 'Some.0')
                allowed = set()
                follow = []
                if mode == '#':
                    report(st, pushed, fld(me, 'content'), F, 'a filter ending in # does not report the message of its parent level')
                    allowed.add(fld(me, 'content', 'Some.0'))
                    follow = [(child(x), ALL, None) for x in walked]
                elif mode == '+':
                    if more:
                        follow = [(child(x), t, items) for x in walked]
                    else:
                        for x in walked:
                            c = fld(child(x), 'content')
                            report(st, pushed, c, F, 'a filter ending in + does not report a message of that level')
                            allowed.add(fld(c, 'Some.0'))
                else:
                    c = fld(get(kids, prev), 'Some.0')
                    if some(E, st, get(kids, prev)) is not False:
                        if more:
                            follow = [(c, t, items)]
                        else:
                            report(st, pushed, fld(c, 'content'), F, 'a filter does not report the message of the topic it spells out')
                            allowed.add(fld(c, 'content', 'Some.0'))
                if mode != 'level':
                    ctx.require(seen_any or not understood(kids), 'retain-children', 'the children are not looked at for %s' % mode, F)
                    ctx.require(ended or not seen_any, 'retain-all-children', 'the search for %s may stop before the last child' % mode, F)
                for x in pushed:
                    ctx.require(x in allowed or not understood(x) or any(y.op == 'phi' for y in leaves(x)), 'retain-extra', 'a message is reported that does not match: %s' % str(x)[:120], F)
                for nd, t, rest in follow:
                    hits = [a for a in rec if a[0] is nd]
                    ctx.require(hits, 'retain-follow', 'a child that may hold matching messages is not searched (%s)' % mode, F)
                    for a in hits:
                        if t is ALL:
                            ctx.require(any(x is ALL for x in a[1:]), 'retain-level', 'below # the search goes on for %s' % str(a[1])[:80], F)
                        else:
                            o = [x for x in a[1:] if x.op == 'agg' and 'Option' in x.a[0]] or [a[2]]
                            ctx.require(level_pair(a[1], o[0], t) is not False, 'retain-level', 'the search goes on with other levels: %s, %s' % (str(a[1])[:80], str(o[0])[:80]), F)
                        ctx.require(any(x is wf for x in a[1:]) or any(val3(E, st, x) is val3(E, st, wf) is not None for x in a[1:] if x in (TRUE, FALSE)) or not all(understood(x) for x in a[1:]),
                                    'retain-wildcard', 'whether the filter begins with a wildcard is forgotten', F)
                for a in rec:
                    ctx.require(any(a[0] is nd for nd, _, _ in follow) or not understood(a[0]) or any(y.op == 'phi' for y in leaves(a[0])), 'retain-node', 'the search goes on in another node: %s' % str(a[0])[:120], F)
    ctx.floor('kinds of levels', len(kinds), 5)
    path = RE + 'get_matches'
    E, paths = trace(ctx, path, r'RetainNode::get_matches$|::push$|Iterator::(for_each|fold)$', r'RetainNode::get_matches$')
    t = params(ctx, path, STR)[0]
    for ps, st, val in paths:
        F = facts_text(st)
        rec = [e[2] for e in ps if e[1].endswith('get_matches')]
        ctx.require(len(rec) == 1, 'retain-start', 'the retained messages are not searched exactly once', F)
        for a in rec:
            ctx.require(a[0] is fld(sym('self'), 'inner') or not understood(a[0]), 'retain-root', 'the search starts in another node', F)
            o = [x for x in a[1:] if x.op == 'agg' and 'Option' in x.a[0]] or [a[2]]
            ctx.require(level_pair(a[1], o[0], t) is not False, 'retain-level', 'the search starts with other levels: %s, %s' % (str(a[1])[:80], str(o[0])[:80]), F)
            w = a[3] if len(a) > 3 else None
            if w is not None:
                for first in (ALL, ONE):
                    s2 = st.copy()
                    if not E.assume(s2, mk('starts_with', t, first), True):
                        continue
                    v = val3(E, s2, w)
                    if v is None and understood(w) or v is False:
                        ctx.require(False, 'retain-wildcard', 'a filter beginning with %s is not taken as one beginning with a wildcard: %s' % (first.a[0].decode(), str(w)[:100]), F)


def child(x):
    """the node of an item of the map of child nodes"""
    src = x.a[0]
    v = fld(x, 'Some.0')
    return v if 'values' in str(src.a[0] if src.op == 'pure' else '') else fld(v, '1')


def r04_store(ctx):
    me = sym('self')
    kids = node_map(me)
    for fn in ('insert', 'remove'):
        path = RX + fn
        E, paths = trace(ctx, path, r'RetainNode::%s$' % fn, r'RetainNode::(insert|remove)$')
        prev, items = params(ctx, path, STR)[0], params(ctx, path, OSTR)[0]
        content = (params(ctx, path, r'Arc<') or [None])[0]
        kinds = set()
        for ps, st, val in paths:
            F = facts_text(st)
            kf = final(E, st, kids)
            ch = get(kids, prev)
            there = some(E, st, ch)
            node_t = fld(ch, 'Some.0')
            u = upd_of(kf)
            ctx.require(kf is kids or u is not None and u[0] is kids and u[1] is prev or not understood(kf), fn + '-node', 'another node of this level changes: %s' % str(kf)[:150], F)
            ctx.require(there is not None, fn + '-unchecked', 'it is not looked whether the topic level exists', F)
            for more in (True, False):
                if some(E, st, items) not in (None, more):
                    continue
                kinds.add((there, more))
                c0 = fld(node_t, 'content')
                c1 = final(E, st, node_t, 'content') if there else None
                if there is False and fn == 'remove':
                    ctx.require(kf is kids and not ps and some(E, st, val) is False, 'remove-absent', 'removing an absent message changes something', F)
                    continue
                new = u[2] if u is not None else None
                if new is not None and there is False:
                    new = grown(E, st, kids, prev, new)
                if there is False:
                    ctx.require(new is not None or not understood(kf), 'insert-new', 'a message of a new topic is not stored', F)
                    ctx.require(some(E, st, val) is False or not understood(val), 'insert-old', 'an earlier message is reported for a new topic', F)
                    if new is not None and not more:
                        x = fld(new, 'content')
                        ctx.require(fld(x, 'Some.0') is content or not understood(x), 'insert-content', 'another message is stored: %s' % str(x)[:120], F)
                    if more:
                        ctx.require(len(ps) == 1, 'insert-down', 'a message of a deeper level is not passed on exactly once', F)
                        if new is not None:
                            ctx.require(some(E, st, fld(new, 'content')) is False or not understood(fld(new, 'content')), 'insert-passing', 'a message is stored at a higher level', F)
                    else:
                        ctx.require(not ps, 'insert-below', 'a message is passed on below its last level', F)
                elif more:
                    ctx.require(len(ps) == 1, fn + '-down', 'a deeper level is not passed on exactly once', F)
                    ctx.require(c1 is c0, fn + '-passing', 'a message of a higher level changes', F)
                    ctx.require(any(x.op == 'call' and str(x.a[0]).endswith('::' + fn) for x in walk(val)) or not understood(val) and val.op == 'phi', fn + '-old', 'the earlier message of a deeper level is not reported: %s' % str(val)[:100], F)
                elif there:
                    ctx.require(not ps, fn + '-below', 'the search goes on below the last level', F)
                    ctx.require(val is c0 or not understood(val), fn + '-old', 'the earlier message is not reported: %s' % str(val)[:100], F)
                    if fn == 'insert':
                        ctx.require(fld(c1, 'Some.0') is content or not understood(c1), 'insert-content', 'another message is stored: %s' % str(c1)[:120], F)
                    else:
                        ctx.require(discr(c1, 2) is Int(0) or kf is not kids or not understood(c1), 'remove-content', 'a message is not removed: %s' % str(c1)[:120], F)
                for e in ps:
                    a = e[2]
                    t = fld(items, 'Some.0')
                    o = [x for x in a[1:] if x.op == 'agg' and 'Option' in x.a[0]] or [a[2]]
                    ctx.require(level_pair(a[1], o[0], t) is not False, fn + '-level', 'the next level is %s with %s remaining' % (str(a[1])[:80], str(o[0])[:80]), F)
                    if there:
                        ctx.require(a[0] is node_t or not understood(a[0]), fn + '-child', 'the next level is looked up in another node', F)
                    if content is not None:
                        ctx.require(any(x is content for x in a[1:]) or not all(understood(x) for x in a[1:]), fn + '-content', 'another message is passed on', F)
                if fn == 'remove' and there:
                    c2 = c1 if not more else final(E, st, node_t, 'content')
                    sub_kids = node_map(node_t)
                    e1 = some(E, st, c2) is False
                    e2 = empty(E, st, final(E, st, sub_kids)) is True
                    if kf is not kids:
                        ctx.require(u is None or u[2] is None, 'remove-replaced', 'a node is replaced instead of removed', F)
                        ctx.require(e1 and e2, 'remove-lost', 'a node is dropped although messages may remain in or below it', F)
                if fn == 'insert' and there:
                    ctx.require(kf is kids, 'insert-replaced', 'an existing node is replaced', F)
        ctx.floor('kinds of %s' % fn, len(kinds), 4 if fn == 'insert' else 3)
        path = RE + fn
        E, paths = trace(ctx, path, r'RetainNode::%s$' % fn, r'RetainNode::(insert|remove)$')
        for ps, st, val in paths:
            F = facts_text(st)
            ctx.require(len(ps) == 1, fn + '-start', 'the table is not changed exactly once', F)
            c = (params(ctx, path, r'Arc<') or [None])[0]
            t = fld(c, 'topic_name') if c is not None else params(ctx, path, STR)[0]
            for e in ps:
                a = e[2]
                o = [x for x in a[1:] if x.op == 'agg' and 'Option' in x.a[0]] or [a[2]]
                ctx.require(level_pair(a[1], o[0], t) is not False, fn + '-level', 'the first level is %s with %s remaining' % (str(a[1])[:80], str(o[0])[:80]), F)
                ctx.require(a[0] is fld(sym('self'), 'inner') or not understood(a[0]), fn + '-root', 'another node is changed', F)
                if c is not None:
                    ctx.require(any(x is c for x in a[1:]) or not all(understood(x) for x in a[1:]), fn + '-content', 'another message is stored', F)


def grown(E, st, m, k, v):
    """the node created under key k of map m, with what was changed in place afterwards"""
    x = fld(v, 'Some.0') if v.op == 'agg' and 'Option' in v.a[0] else v
    for root, y in st.mem.items():
        if root[0] == 'H' and len(root) > 3 and root[3] is k:
            return E.deep(st, y)
    return x


def r04_publish(ctx):
    """send_publish of both protocols changes the retained messages as the message says"""
    for v in ('v3', 'v5'):
        path = 'protocols::mqtt::%s::packet::publish::send_publish' % v
        if ctx.anchor(path) is None:
            continue
        r = Store(ctx, v)
        run(ctx, path, r, join_limit=40)
        for k in ('insert', 'remove', 'none'):
            ctx.floor('%s %s' % (v, k), r.n.get(k, 0), 1)
            ctx.counts['%s %s' % (v, k)] = r.n.get(k, 0)


class Store(Rule):
    """st.ps = what happened to the retained messages"""
    init = None
    opaque = re.compile(r'::get_matches$|RetainTable::(insert|remove)$|::get_by_|::get_client_normal_sender$|::into_sink$')

    def __init__(self, ctx, v):
        self.ctx, self.v, self.n = ctx, v, {}

    def drop(self, f):
        return re.search('broadcast_packets|get_matches|subscribes', str(f)) is not None

    def on_call(self, E, st, c):
        n = c.res or c.name
        m = re.search(r'RetainTable::(insert|remove)$', n)
        if not m:
            return
        ctx, v, F = self.ctx, self.v, facts_text(st)
        msg = sym('msg')
        retain = val3(E, st, fld(msg, 'retain'))
        ctx.require(retain is True, 'unasked:' + v, 'a message published without retain changes the retained messages (%s)' % c.span, F)
        ctx.require(st.ps is None, 'twice:' + v, 'a retained message is handled twice', F)
        none = empty_text(E, st, fld(msg, 'payload'))
        a = [E.deep(st, x) for x in E.vals(st, c)]
        st.ps = m.group(1)
        self.n[st.ps] = self.n.get(st.ps, 0) + 1
        if st.ps == 'remove':
            ctx.require(none is True, 'removed:' + v, 'a retained message is removed by a message with a payload (%s)' % c.span, F)
            ctx.require(a[1] is fld(msg, 'topic_name') or not understood(a[1]), 'topic:' + v, 'the retained message of another topic is removed: %s' % str(a[1])[:100], F)
        else:
            ctx.require(none is False, 'stored:' + v, 'an empty message is retained (%s)' % c.span, F)
            x = a[1]
            for f in ('qos', 'topic_name', 'payload', 'encode_len'):
                y = fld(x, f)
                ctx.require(y is fld(msg, f) or not understood(y), 'kept-%s:%s' % (f, v), 'the retained message has another %s than published: %s' % (f.replace('_', ' '), str(y)[:100]), F)
            y = fld(x, 'client_identifier')
            ctx.require(y is fld(sym('session'), 'client_identifier') or not understood(y), 'kept-publisher:' + v, 'the retained message is attributed to another client: %s' % str(y)[:100], F)
            if v == 'v5':
                y = fld(x, 'properties')
                ctx.require(some(E, st, y) is True and fld(y, 'Some.0') is fld(msg, 'properties') or not understood(y), 'kept-properties:' + v, 'the properties of a retained message are lost: %s' % str(y)[:100], F)

    def on_return(self, E, st, val):
        if st.ps is None:
            self.n['none'] = self.n.get('none', 0) + 1
            self.ctx.require(val3(E, st, fld(sym('msg'), 'retain')) is False, 'ignored:' + self.v, 'a message published with retain leaves the retained messages as they were', facts_text(st))


def empty_text(E, st, t):
    v = E.decide(st, lt(Int(0), length(t)))
    return None if v is None else not v


def r04(ctx):
    """RetainTable/RetainNode insert, remove and get_matches step by step over topic levels; their use in send_publish of both protocols"""
    r04_match(ctx)
    r04_store(ctx)
    r04_publish(ctx)


RULES = {"R01": r01, "R02": r02, "R03": r03, "R04": r04}
