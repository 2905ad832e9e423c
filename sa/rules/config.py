"""V01: which configurations are judged valid."""
from _base import *
from forward import val3
from tree import some
import terms

CF = 'config::Config::'
ME = sym('self')
ENUMS = {}


class Valid(Flow):
    """what is known of the entries of the two tables survives the pass of the loop they are looked at in"""

    def __init__(self, event, back):
        Flow.__init__(self, r'Iterator::(all|any|find|position|find_map|try_for_each|skip|step_by|take|skip_while|take_while)$', event)
        self.back = back

    def pin(self, f):
        return True

    def on_back(self, E, st, depth, bb):
        self.back(E, st)


def items(st, of):
    """entries of the table taken on this path"""
    return [f.a[0] for f, v in st.facts.items() if f.op == 'discr' and f.a[0].op == 'item' and v is Int(1) and depends(f.a[0], of)]


def rules_of(ctx):
    """the conditions: name -> (E, st) -> True, False or None"""
    auth = fld(ME, 'auth')

    def either(a, b):
        return True if a is True or b is True else False if a is False and b is False else None

    def no(a):
        return None if a is None else not a

    def listener(E, st):
        r = [some(E, st, fld(ME, 'listeners', n)) for n in ('mqtt', 'mqtts', 'ws', 'wss', 'http')]
        return True if True in r else None if None in r else False

    for n in ('max_packet_size_client', 'max_packet_size_server'):
        terms.TYPES.setdefault(fld(ME, n), 'u32')
    terms.TYPES.setdefault(fld(ME, 'max_allowed_qos'), 'u8')
    return {
        'password file': lambda E, st: either(no(val3(E, st, fld(auth, 'enable'))), some(E, st, fld(auth, 'password_file'))),
        'QoS': lambda E, st: no(E.decide(st, lt(Int(2), fld(ME, 'max_allowed_qos')))),
        'packets to clients': lambda E, st: no(E.decide(st, terms.eq0(fld(ME, 'max_packet_size_client')))),
        'packets from clients': lambda E, st: no(E.decide(st, terms.eq0(fld(ME, 'max_packet_size_server')))),
        'listener': listener,
    }


def v01(ctx):
    path = CF + 'is_valid'
    if ctx.anchor(path) is None:
        return
    ctx.rule = ('every path of is_valid judged by what it knows of each setting when it returns; every pass of the loops over the mechanisms and the SCRAM users by the '
                'entry it looked at; the results of max_allowed_qos and new_allow_anonymous')
    conds = rules_of(ctx)
    tables = {'mechanism': fld(ME, 'sasl_mechanisms'), 'iterations': fld(ME, 'scram_users')}
    good = {}

    def entry(E, st, kind, it):
        """is the entry allowed"""
        if kind == 'mechanism':
            x = fld(it, 'Some.0')
            v = E.value(st, discr(x, 2))
            return None if v is None else v is Int(0)
        for x in (fld(it, 'Some.0', 'iterations'), fld(it, 'Some.0.1', 'iterations')):
            d = E.decide(st, lt(x, Int(4096)))
            if d is not None:
                return not d
        return None

    passed = {k: set() for k in tables}
    refused = set()

    def back(E, st):
        for kind, of in tables.items():
            for it in items(st, of):
                g = entry(E, st, kind, it)
                if g is not True and flagged(E, st, it):
                    # remembered in a variable until the loop ends
                    refused.add(kind)
                    continue
                ctx.require(g is True, 'pass:' + kind, 'an entry of %s is passed over although it is not allowed' % field_name(of), facts_text(st))
                r.count('passed ' + kind)

    def event(E, st, what, name, vals):
        if what == 'call':
            for kind, of in tables.items():
                if depends(vals[0], of):
                    if name in ('skip', 'step_by', 'take', 'skip_while', 'take_while'):
                        ctx.require(False, 'all:' + kind, 'only some entries of %s are looked at' % field_name(of), facts_text(st))
                    return ('whole', kind)
            return None
        if what != 'return':
            return None
        F = facts_text(st)
        v = vals[0]
        b = val3(E, st, v)
        if b is None:
            ctx.require(not understood(v), 'verdict', 'the verdict depends on something else: %s' % str(v)[:150], F)
            return None
        known = {n: f(E, st) for n, f in conds.items()}
        if b:
            r.count('valid')
            for n, k in known.items():
                ctx.require(k is True, 'accept:' + n, 'a configuration may be valid although its setting is not allowed (%s)' % n, F)
            for kind, of in tables.items():
                ended = ('whole', kind) in st.ps[1] or coll_empty(E, st, of) or \
                    any(f.op == 'discr' and f.a[0].op == 'item' and x is Int(0) and depends(f.a[0], of) for f, x in st.facts.items())
                ctx.require(ended, 'all:' + kind, 'a configuration may be valid before every entry of %s is looked at' % field_name(of), F)
        else:
            bad = [n for n, k in known.items() if k is False]
            for kind, of in tables.items():
                if any(entry(E, st, kind, it) is False for it in items(st, of)):
                    bad.append(kind)
            refused.update(bad)
            kept = any(x.op in ('phi', 'join') for f in st.facts for x in leaves(f) if terms.TYPES.get(f) == 'bool' or f.op in ('phi', 'join'))
            ctx.require(bad or kept, 'refuse', 'a configuration is refused although all it asks for is allowed', F)
        return None

    r = Valid(event, back)
    run(ctx, path, r, join_limit=400)
    ctx.floor('valid configurations', r.n.get('valid', 0), 1)
    for n in list(conds) + list(tables):
        ctx.require(n in refused, 'refuses:' + n, 'no configuration is refused for this setting: ' + n)
        ctx.sample('refused for: ' + n)
    levels(ctx)
    anonymous(ctx)


def flagged(E, st, it):
    """does a variable of the function collect the verdict on the entries"""
    body = E.p.body(st.frames[0][0])
    before = it.a[1].op == 'int' or any(f.op in ('phi', 'join') for f in st.facts)
    for k, v in st.mem.items():
        if k[0] == 'L' and k[1] == 0 and k[2] in body.names.values() and body.locals[k[2]][0] == 'bool' and v is not TRUE:
            # what it held before must not be lost
            if v is FALSE or before or any(x.op in ('phi', 'join') and not depends(it, x) for x in leaves(v)):
                return True
    return False


def field_name(t):
    return t.a[1][2] if t.op == 'fld' else str(t)


def coll_empty(E, st, of):
    return E.decide(st, terms.eq0(length(of))) is True


def levels(ctx):
    """the number n allows QoS n, and only numbers above two, which no valid configuration has, panic"""
    path = CF + 'max_allowed_qos'
    if ctx.anchor(path) is None:
        return
    q = fld(ME, 'max_allowed_qos')
    got = set()

    def event(E, st, what, name, vals):
        F = facts_text(st)
        if what == 'return':
            v = vals[0]
            x = v.a[1] if v.op == 'agg' else None
            ctx.require(x is not None or not understood(v), 'level', 'the highest QoS is %s' % str(v)[:120], F)
            if x is not None:
                got.add(x)
                ctx.require(E.value(st, q) is Int(x), 'level', 'the highest QoS is %d for another number' % x, F)
        elif what == 'panic':
            ctx.require(E.decide(st, lt(Int(2), q)) is True, 'level-panic', 'a number that may be valid stops the server', F)
    r = Flow(r'XX', event)
    run(ctx, path, r, join_limit=100)
    ctx.floor('levels', len(got), 3)


def anonymous(ctx):
    path = CF + 'new_allow_anonymous'
    if ctx.anchor(path) is None:
        return

    def event(E, st, what, name, vals):
        if what == 'return':
            a = fld(vals[0], 'auth', 'enable')
            ctx.require(a is FALSE or not understood(a), 'anonymous', 'the configuration for anonymous users asks for passwords')
    run(ctx, path, Flow(r'Default::default$', event), join_limit=100)


RULES = {'V01': v01}
