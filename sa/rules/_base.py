"""shared parts of the rules"""
import re
from engine import *
import terms
from terms import *


class Collect(Rule):
    """keeps the state of every return path; every fact is kept"""
    obligations = False

    def __init__(self, **kw):
        self.rets = []
        self.panics = []
        self.obl = {}
        self.__dict__.update(kw)

    def pin(self, f):
        return True

    def on_return(self, E, st, v):
        self.rets.append((E.deep(st, v), st.copy()))

    def on_panic(self, E, st, k, sp):
        self.panics.append((k, sp, E.stack(st)[-1], st.copy()))

    def on_obligation(self, E, st, cond, kind, span, d):
        o = self.obl.setdefault((span, kind, E.stack(st)[-1]), [0, 0, None])
        o[0] += 1
        if d is not True:
            o[1] += 1
            o[2] = o[2] or (cond, facts_text(st))


def facts_text(st, n=24):
    out = []
    for f, v in st.facts.items():
        out.append('%s = %s' % (f, v))
    for f, v in st.excl.items():
        out.append('%s not in %s' % (f, sorted(map(repr, v))))
    return [x[:280] for x in out[-n:]]


def self_value(st, name='self'):
    """final contents of what the argument points to (None: untouched)"""
    v = st.mem.get(('S', sym(name)))
    if v is None or v is sym(name) or (v.op == 'old' and v.a[0] is sym(name)):
        return None
    return v


def short(path):
    return path.split('::')[-1]


KNOWN_PURE = {'hmac', 'hmackey', 'digest', 'b64encode', 'b64decode', 'dec', 'split', 'chars', 'addr', 'is_utf8', 'str_replace',
              'pbkdf2', 'char', 'parse', 'strhas', 'default', 'qosof', 'mapget', 'rsplit'}
OPAQUE = ('phi', 'join', 'stale', 'mut', 'poll', 'opaque', 'undef')


def understood(t, skip=()):
    """no part of the term (but for the values in skip) is an unmodelled operation"""
    for x in walk(t, set(skip)):
        if x.op in OPAQUE or x.op == 'call':
            return False
        if x.op == 'pure' and x.a[0] not in KNOWN_PURE and not x.a[0].startswith('text:'):
            return False
    return True


def only_from(t, *roots):
    """the value depends on these symbols only, and on at least one of them"""
    ls = leaves(t)
    syms = {x for x in ls if x.op == 'sym'}
    return bool(syms) and syms <= set(roots)


def depends(t, x):
    return any(y is x for y in walk(t))


# parameters are named by their type, so that renaming one changes nothing
CANON = [(re.compile(r), n) for r, n in (
    (r'^&(mut )?protocols::mqtt::v\d::session::Session$', 'session'), (r'state::GlobalState>?$', 'global'),
    (r'publish::(Send|Recv)Publish', 'msg'), (r'state::(Normal|Control)Message$', 'msg'),
    (r'mqtt_proto::v\d::(publish::|connect::|subscribe::)?(Publish|Connect|Subscribe|Unsubscribe|Disconnect|Auth|Pub\w+)$', 'packet'),
    (r'mqtt_proto::v\d::(\w+::)?Packet$', 'packet'))]


def argnames(P, path):
    """canonical names of the parameters of a function"""
    b = P.body(path)
    names = [b.locals[i][1] or 'arg%d' % i for i in range(1, b.argc + 1)]
    can = []
    for i in range(1, b.argc + 1):
        can.append(next((n for r, n in CANON if names[i - 1] != 'self' and r.search(b.locals[i][0])), None))
    return [c if c and can.count(c) == 1 and (names.count(c) == 0 or names[i] == c) else names[i] for i, c in enumerate(can)]


def run(ctx, path, rule, args=None, **kw):
    b = ctx.P.body(path)
    co = ctx.P.body(path + '::{closure#0}')
    E = rule.E = Engine(ctx.P, rule, **kw)
    names = argnames(ctx.P, path)
    if co is not None and co.kind == 'coroutine':
        a = {(b.locals[i + 1][1] or 'arg%d' % (i + 1)): sym(n) for i, n in enumerate(names)}
        a.update(args or {})
        E.run_async(path, a)
    else:
        E.run(path, args or [sym(n) for n in names])
    ctx.engine(E)
    return E


def true_eqs(st):
    """pairs known equal on this path"""
    for f, v in st.facts.items():
        if f.op == 'eq' and v is TRUE:
            yield f.a[0], f.a[1]
        elif v.op in ('lit',):
            yield f, v


def false_eqs(st):
    for f, v in st.facts.items():
        if f.op == 'eq' and v is FALSE:
            yield f.a[0], f.a[1]


def panic_report(ctx, rule, what):
    """every panic and every undischarged obligation of the runs collected in `rule`"""
    for k, sp, fn, st in rule.panics:
        ctx.require(False, 'panic:%s:%s' % (fn, k), '%s can panic at %s (%s)' % (what, sp, k), facts_text(st))
    for (sp, kind, fn), (n, bad, ex) in rule.obl.items():
        o = ctx.obl.setdefault('no-panic:%s:%s' % (fn, kind), [0, 0])
        o[0] += n
        if bad:
            o[1] += bad
            ctx.violation('panic:%s:%s' % (fn, kind), '%s: %s at %s is not ruled out on %d of %d paths: %s' % (what, kind, sp, bad, n, ex[0]), ex[1])


class Spy(Collect):
    """records writes to non-local memory and calls of interest with the state they happen in"""
    calls = re.compile(r'(?!)')          # calls to record
    watch = staticmethod(lambda root, path: True)

    def __init__(self, **kw):
        Collect.__init__(self, **kw)
        self.writes = []
        self.seen = []
        self.rejects = []

    def on_write(self, E, st, root, path, val, span):
        if self.watch(root, path):
            self.writes.append((E.stack(st)[-1], root, path, val, st.copy(), span))

    def on_call(self, E, st, c):
        for n in (c.res, c.name):
            if self.calls.search(n):
                self.seen.append((n, E.vals(st, c), st.copy(), c.span, c))
                break
        return None

    def on_reject(self, E, st, root, path, val, call):
        self.rejects.append((E.stack(st)[-1], root, path, val, st.copy(), call.span))


def fields(path):
    return [k[2] for k in path if k[0] == 'f']


def variant_of(E, st, v, adt, n):
    """the variant index v is known to have on this path (None: unknown)"""
    if v.op == 'agg':
        return v.a[1]
    x = E.value(st, discr(v, n))
    return x.a[0] if x is not None and x.op == 'int' else None


def params(ctx, path, ty):
    """symbols of the parameters of a type (regex), by position"""
    b = ctx.P.body(path)
    names = argnames(ctx.P, path)
    out = []
    for i in range(1, b.argc + 1):
        if re.search(ty, b.locals[i][0]):
            out.append(sym(names[i - 1]))
    return out


def module_fns(ctx, prefix):
    """functions of a module or impl (no closures, no generated code)"""
    return sorted(p for p in ctx.P.bodies if p.startswith(prefix) and '{' not in p and '::tests' not in p and not p.startswith('<'))


def all_calls(ctx):
    """(caller, callee, block) of every call with a known callee"""
    for q, b in ctx.P.bodies.items():
        for bb in b['blocks']:
            t = bb['t']
            if t[0] == 'call' and t[1][0] == 'fn':
                yield q, t[1][2] or t[1][1], bb


def callers(ctx):
    """callee -> functions that call it, or create it (closures, coroutines)"""
    if getattr(ctx, '_callers', None) is None:
        m = {}
        for q, c, bb in all_calls(ctx):
            m.setdefault(c, set()).add(q)
        for q, b in ctx.P.bodies.items():
            if b.get('parent') and '{' in q.split('::')[-1]:
                m.setdefault(q, set()).add(b['parent'])
        ctx._callers = m
    return ctx._callers


def place_fields(p):
    return [e[2] for e in p[1] if e[0] == 'field']


def mutators(ctx, field, within='', last=False):
    """functions that assign to, or borrow mutably, a place through the named field: {function: span}"""
    out = {}
    for q, b in ctx.P.bodies.items():
        if within and within not in q:
            continue
        for bb in b['blocks']:
            if bb['cleanup']:
                continue
            for s in bb['s']:
                if s[0] != '=':
                    continue
                hit = field in place_fields(s[1])
                r = s[2]
                if r[0] == 'ref' and r[1] == 'mut' and field in place_fields(r[2]):
                    hit = True
                if hit:
                    out.setdefault(q, s[3] if len(s) > 3 else bb['sp'])
            t = bb['t']
            if t[0] == 'call' and field in place_fields(t[3]):
                out.setdefault(q, bb['sp'])
    return out


def only_in(ctx, fns, allowed):
    """the functions that are neither allowed nor called from allowed ones only"""
    cm = callers(ctx)
    allowed = re.compile(allowed)
    memo = {}

    def ok(f, seen):
        if allowed.search(f):
            return True
        if f in memo:
            return memo[f]
        if f in seen:
            return True
        cs = cm.get(f, set())
        r = bool(cs) and all(ok(c, seen | {f}) for c in cs)
        memo[f] = r
        return r
    return [f for f in fns if not ok(f, frozenset())]


class Flow(Rule):
    """property simulation over one function. `track` names what the checks need to know about the inputs: functions of (E, st) that give
    True, False or None (not known); what becomes known is part of the property state of the path, a path that contradicts it is infeasible.
    `event(E, st, kind, what, vals)` judges each call, write and return of interest and may return a label for the history of the path."""
    obligations = True
    init = ((), ())

    def __init__(self, calls, event, track=None, writes=(), opaque=None, peels=0, pins=(), labels=24):
        self.calls = re.compile(calls)
        self.opaque = re.compile(opaque or calls)
        self.event = event
        self.track = track or {}
        self.writes = writes
        self.peels = peels
        self.pins = tuple(pins)
        self.memo = {}
        self.labels = labels
        self.n = {}

    def peel(self, body, bb):
        return self.peels

    def pin(self, f):
        if not self.pins:
            return False
        if f not in self.memo:
            self.memo[f] = any(x in self.pins for x in walk(f))
        return self.memo[f]

    def k(self, st, name):
        return dict(st.ps[0]).get(name)

    def hist(self, st):
        return st.ps[1]

    def count(self, what):
        self.n[what] = self.n.get(what, 0) + 1

    def learn(self, E, st):
        have = dict(st.ps[0])
        new = False
        for n, f in self.track.items():
            x = f(E, st)
            if x is None or have.get(n) is x:
                continue
            if n in have:
                return False
            have[n] = x
            new = True
        if new:
            st.ps = (tuple(sorted(have.items())), st.ps[1])
        return True

    def on_assume(self, E, st, t, v):
        return self.learn(E, st)

    def add(self, st, label):
        if label is not None and len(st.ps[1]) < self.labels:
            st.ps = (st.ps[0], st.ps[1] + (label,))

    def on_call(self, E, st, c):
        for n in (c.res, c.name):
            if n and self.calls.search(n):
                self.learn(E, st)
                self.add(st, self.event(E, st, 'call', short(n), [E.deep(st, x) for x in E.vals(st, c)]))
                break
        return None

    def on_write(self, E, st, root, path, val, span):
        fs = fields(path)
        if fs and fs[-1] in self.writes and root[0] == 'S':
            self.learn(E, st)
            self.add(st, self.event(E, st, 'write', fs[-1], [E.deep(st, val), root]))

    def on_return(self, E, st, v):
        self.learn(E, st)
        self.event(E, st, 'return', '', [E.deep(st, v)])

    def on_panic(self, E, st, kind, span):
        self.event(E, st, 'panic', kind, [])

    def on_obligation(self, E, st, cond, kind, span, d):
        if d is not True and kind in ('unwrap', 'expect', 'unwrap_err', 'expect_err'):
            self.event(E, st, 'panic', kind, [])

    def facts(self, st):
        return ['known: ' + ', '.join('%s=%s' % x for x in st.ps[0])] + facts_text(st)


def of_ty(t, name):
    """variants of the enum that occur in the term"""
    return [x.a[2] for x in walk(t) if x.op == 'agg' and str(x.a[0]).endswith(name)]


def ok_of(E, st, v):
    """True/False: the returned Result is Ok/Err on this path; None: not known"""
    if v.op == 'agg' and v.a[2] in ('Ok', 'Err'):
        return v.a[2] == 'Ok'
    d = E.value(st, discr(v, 2))
    return None if d is None else d is Int(0)
