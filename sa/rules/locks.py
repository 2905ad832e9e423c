"""L01: tasks never wait for each other for ever: lock order, no lock taken twice, none held across an await, no blocking wait"""
import itertools
import re

from _base import *

GUARD = re.compile(r'lock_api::\w+::(Mapped|Arc)?(RwLock|Mutex|ReentrantMutex)\w*Guard|dashmap::mapref::|dashmap::iter(_set)?::|dashmap::lock::|std::sync::(poison::)?\w+::(Mapped)?\w+Guard|'
                   r'tokio::sync::\w+::\w*Guard|(RwLock\w*|Mutex)Guard<')
TAKE = re.compile(r'(RwLock|Mutex)(::<[^>]*>)?::(\w+)$')
DASH = re.compile(r'dashmap::(DashMap|DashSet)(::<[^>]*>)?::(\w+)$')
WRITES = {'write', 'lock', 'upgradable_read', 'get_mut', 'insert', 'remove', 'remove_if', 'remove_if_mut', 'iter_mut', 'entry', 'try_entry', 'clear', 'retain', 'alter', 'alter_all', 'blocking_lock', 'blocking_write'}
READS = {'read', 'read_recursive', 'get', 'iter', 'contains_key', 'len', 'is_empty', 'view', 'contains', 'blocking_read'}
TRY = {'try_read', 'try_write', 'try_lock', 'try_get', 'try_get_mut'}
BLOCK = re.compile(r'^flume::(Sender|Receiver)::<[^>]*>::(send|send_timeout|send_deadline|recv|recv_timeout|recv_deadline|iter|drain_block)$|^std::thread::(functions::)?(sleep|park|scoped::scope)|'
                   r'^std::thread::.*JoinHandle::<[^>]*>::join$|::block_on$|^std::sync::mpsc::.*::(recv|send)$|Condvar::wait|Barrier::wait|blocking_(send|recv|lock|read|write)$|std::sync::barrier')
TASKS = re.compile(r'(^|[< ])(protocols::mqtt|hook|state|server::(rt|proxy|mod)?)')


def operands(rv):
    """locals read by an rvalue, with whether they are moved out of and through which projection"""
    out = []

    def op(o):
        if isinstance(o, list) and o and o[0] in ('copy', 'move'):
            out.append((o[1][0], o[0] == 'move', len(o[1][1])))
    if rv[0] in ('use', 'un', 'cast', 'bin', 'repeat'):
        for o in rv[1:]:
            op(o)
    elif rv[0] == 'ref':
        out.append((rv[2][0], False, 1))
    elif rv[0] in ('discr', 'rawptr', 'len'):
        out.append((rv[1][0], False, 1))
    elif rv[0] == 'agg':
        for o in rv[2]:
            op(o)
    return out


def held_type(t):
    return not t.startswith(('&', '*')) and GUARD.search(t) is not None


class Locks:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.taken = {}         # class -> call sites
        self.edges = {}         # (a, b) -> {(frozenset of gates, derived, where)}
        self.contexts = {}
        self.bad = {}
        self.ncalls = 0
        self.info = {}
        self.impls = {}
        for f in self.P.bodies:
            m = re.search(r'<impl (.*) for .*>::(\w+)$', f) or re.match(r'<.* as (.*)>::(\w+)$', f)
            if m:
                self.impls.setdefault(m.group(1).split('<')[0] + '::' + m.group(2), []).append(f)
        self.owners = {}        # data type -> [(struct, field)]
        for a, d in self.P.adts.items():
            for v in d['variants']:
                for f, t in zip(v['fields'], v.get('tys') or []):
                    c = self.lock_of(t)
                    if c:
                        self.owners.setdefault(c, []).append((a, f, t))
        # locks there is one of: what the global state holds by value
        self.single = set()
        todo = [a for a in self.P.adts if a.endswith('state::GlobalState')]
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen or a not in self.P.adts:
                continue
            seen.add(a)
            for v in self.P.adts[a]['variants']:
                for f, t in zip(v['fields'], v.get('tys') or []):
                    if re.match(r'(lock_api|parking_lot|std::sync|dashmap)\b', t):
                        self.single.add('%s.%s' % (a.split('::')[-1], f))
                    elif t in self.P.adts:
                        todo.append(t)

    @staticmethod
    def lock_of(t):
        """kind and data type of the lock inside a type"""
        m = re.search(r'(lock_api::rwlock::RwLock|lock_api::mutex::Mutex|std::sync::(?:poison::)?\w+::(?:RwLock|Mutex)|tokio::sync::\w+::(?:RwLock|Mutex)|dashmap::DashMap|dashmap::DashSet)<(.*)', t)
        if not m:
            return None
        s, d, out = m.group(2), 0, ''
        for ch in s:
            d += (ch == '<') + (ch == '(') - (ch == '>') - (ch == ')')
            if d < 0:
                break
            out += ch
        out = re.sub(r'^parking_lot::\w+::\w+, ', '', out)
        return m.group(1).split('::')[-1] + ' ' + out

    def locky(self, t):
        """can a value of the type lead to a lock"""
        return t == '' or self.lock_of(t) is not None or t.startswith('&') or any(o[0] in t for own in self.owners.values() for o in own)

    def klass(self, info, local, t):
        c = self.lock_of(t) or t
        own = self.owners.get(c, [])
        name = lambda o: '%s.%s' % (o[0].split('::')[-1], o[1])
        if len(own) == 1:
            return name(own[0])
        for a, f in info['fields'].get(local, ()):
            for o in own:
                if o[1] == f and (a is None or o[0] == a):
                    if a is not None or sum(x[1] == f for x in own) == 1:
                        return name(o)
        arc = [o for o in own if 'Arc<' in o[2]]
        return name(arc[0]) if len(arc) == 1 else c

    def body_info(self, f):
        """flow-insensitive: for each local the fields it is a reference to, the locals it is derived from, the closure it is"""
        if f in self.info:
            return self.info[f]
        b = self.P.body(f)
        frm, fields_, clo = {}, {}, {}
        ty = [l[0] for l in b.locals]

        def base(pl):
            for i, p in reversed(list(enumerate(pl[1]))):
                if p[0] == 'field':
                    if i == 0 or i == 1 and pl[1][0][0] == 'deref':
                        a = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty[pl[0]]).split('<')[0]
                        a = a if a in self.P.adts else None
                    else:
                        a = None
                    return [(a, p[2])]
            return None
        for x in b.blocks:
            if x.get('cleanup'):
                continue
            for s in x['s']:
                if s[0] != '=':
                    continue
                d, rv = s[1][0], s[2]
                if not s[1][1] or self.locky(str(s[4]) if len(s) > 4 else ''):
                    for l, mv, n in operands(rv):
                        frm.setdefault(d, set()).add(l)
                pl = rv[2] if rv[0] == 'ref' else rv[1][1] if rv[0] == 'use' and rv[1][0] in ('copy', 'move') else None
                if pl:
                    z = base(pl)
                    if z:
                        fields_.setdefault(d, set()).update(z)
                    else:
                        fields_.setdefault(d, set()).update({('from', pl[0])})
                if rv[0] == 'agg' and rv[1][0] == 'closure':
                    clo[d] = rv[1][1]
            t = x['t']
            if t[0] == 'call':
                d = t[3][0]
                for o in t[2]:
                    if o[0] in ('copy', 'move') and not (t[3][1] and not self.locky(str(t[5] if len(t) > 5 else ''))):
                        frm.setdefault(d, set()).add(o[1][0])
                        if re.search(r'::(deref|deref_mut|as_ref|clone|borrow)$', str(t[1][1])):
                            fields_.setdefault(d, set()).add(('from', o[1][0]))
        done = False
        while not done:
            done = True
            for d, z in fields_.items():
                for k in [k for k in z if k[0] == 'from']:
                    new = fields_.get(k[1], set()) - z
                    if new and not (new == {('from', d)}):
                        z |= new
                        done = False
        for d in fields_:
            fields_[d] = {k for k in fields_[d] if k[0] != 'from'}
        done = False
        while not done:
            done = True
            for d in list(frm):
                new = set().union(*[frm.get(l, set()) for l in frm[d]]) - frm[d]
                if new:
                    frm[d] |= new
                    done = False
        for d in frm:
            for l in frm[d]:
                if l in clo:
                    clo.setdefault(d, clo[l])
        r = self.info[f] = {'b': b, 'from': frm, 'fields': fields_, 'clo': clo, 'ty': ty}
        return r

    # ------------------------------------------------------------ whole program
    def explore(self):
        called = set()
        for f in self.P.bodies:
            for t in self.targets_all(f):
                called.add(t)
        roots = [f for f in self.P.bodies if f not in called or self.is_coroutine(f)]
        todo = [(f, frozenset()) for f in roots]
        while todo:
            k = todo.pop()
            if k in self.contexts:
                continue
            self.contexts[k] = 1
            todo += self.flow(*k)
            if len(self.contexts) > 20000:
                raise RuntimeError('too many lock contexts')

    def is_coroutine(self, f):
        return any(x['t'][0] == 'yield' for x in self.P.bodies[f]['blocks']) or 'coroutine' in str(self.P.bodies[f].get('kind'))

    def resolve(self, t, info):
        out = []
        if t[1][0] == 'fn':
            for n in (t[1][2], t[1][1]):
                if n and n in self.P.bodies:
                    out.append(n)
                    break
            else:
                out += [x for n in (t[1][2], t[1][1]) if n for x in self.impls.get(n, [])]
        for o in t[2]:
            if o[0] in ('copy', 'move'):
                c = info['clo'].get(o[1][0])
                if c and c in self.P.bodies:
                    out.append(c)
        return out

    def targets_all(self, f):
        info = self.body_info(f)
        return [y for x in info['b'].blocks if x['t'][0] == 'call' and not x.get('cleanup') for y in self.resolve(x['t'], info)]

    def where(self, f, x):
        return '%s (%s)' % (f, str(x['sp']).split('/')[-1])

    def take(self, f, x, c, mode, local, held, info):
        self.taken.setdefault(c, set()).add((f, str(x['sp'])))
        src = info['from'].get(local, set()) | {local}
        for h in held:
            hc, hm, roots = h
            inside = bool(roots & src) or self.fresh(info, src)
            gates = frozenset((o[0], o[1]) for o in held if o is not h)
            self.edges.setdefault((hc, c), set()).add((gates, inside, self.where(f, x)))

    @staticmethod
    def fresh(info, src):
        """made in this function, from nothing another task can reach"""
        return not any(1 <= l <= info['b'].argc for l in src) and not any(held_type(info['ty'][l]) for l in src)

    def flow(self, f, entry):
        """locks held at each point of the body, called with the locks of `entry` held: (class, mode, parameters that lead below the lock)"""
        info = self.body_info(f)
        b, ty = info['b'], info['ty']
        start = frozenset((c, m, frozenset(ps)) for c, m, ps in entry)      # held all the time, roots are parameters
        state = {0: frozenset()}       # local guards: (local, class, mode)
        todo, calls = [0], []
        seen_calls = set()
        while todo:
            i = todo.pop()
            x = b.blocks[i]
            if x.get('cleanup'):
                continue
            cur = set(state[i])
            disc = {}
            for s in x['s']:
                if s[0] == 'dead':
                    cur = {g for g in cur if g[0] != s[1]}
                elif s[0] == '=':
                    d, rv = s[1][0], s[2]
                    if rv[0] == 'discr':
                        disc[d] = (rv[1], rv[2])
                    t = s[4] if len(s) > 4 else ty[d]
                    for l, mv, n in operands(rv):
                        if mv and any(g[0] == l for g in cur) and (held_type(str(t)) or held_type(ty[d]) and not s[1][1]):
                            gs = {g for g in cur if g[0] == l}
                            cur = (cur - gs) | {(d, g[1], g[2]) for g in gs}
            t = x['t']
            outs = []
            if t[0] == 'goto':
                outs = [(t[1], cur)]
            elif t[0] == 'drop':
                outs = [(t[2], {g for g in cur if not (g[0] == t[1][0] and not t[1][1])})]
            elif t[0] == 'assert':
                outs = [(t[4], cur)]
            elif t[0] == 'yield':
                for g in cur:
                    self.bad['await:' + g[1]] = ('a lock is held while the task waits', self.where(f, x))
                outs = [(t[2], cur)]
            elif t[0] == 'switch':
                d = disc.get(t[1][1][0]) if t[1][0] in ('copy', 'move') else None
                for val, tgt in t[2]:
                    c2 = cur
                    if d and val == '0' and 'Option' in str(d[1]) and not d[0][1]:
                        c2 = {g for g in cur if g[0] != d[0][0]}
                    outs.append((tgt, c2))
                if t[3] is not None:
                    c2 = cur
                    if d and 'Option' in str(d[1]) and not d[0][1] and [v for v, _ in t[2]] == ['1']:
                        c2 = {g for g in cur if g[0] != d[0][0]}
                    outs.append((t[3], c2))
            elif t[0] == 'call':
                outs = self.call(f, x, info, cur, start, calls, seen_calls)
            for tgt, c2 in outs:
                if not isinstance(tgt, int):
                    continue
                c2 = frozenset(c2)
                old = state.get(tgt)
                if old is None or not c2 <= old:
                    state[tgt] = c2 if old is None else old | c2
                    todo.append(tgt)
        return calls

    def call(self, f, x, info, cur, start, calls, seen):
        t, ty = x['t'], info['ty']
        self.ncalls += 1
        name = str(t[1][2] or t[1][1]) if t[1][0] == 'fn' else ''
        dest = t[3][0]
        args = [(o[1][0], o[0] == 'move' and not o[1][1]) for o in t[2] if o[0] in ('copy', 'move')]
        used = {g for g in cur if any(l == g[0] and mv for l, mv in args)}
        below = lambda g, l: g[0] == l or g[0] in info['from'].get(l, ())
        held = {(c, m, roots) for c, m, roots in start} | {(g[1], g[2], frozenset({g[0]})) for g in cur}
        m = TAKE.search(name) or DASH.search(name)
        after = set(cur)
        got = held_type(ty[dest]) and not t[3][1]
        taken = False
        if m and args and m.groups()[-1] in WRITES | READS | TRY:
            op = m.groups()[-1]
            local = args[0][0]
            c = self.klass(info, local, t[4][0] if len(t) > 4 and isinstance(t[4], list) and t[4] else ty[local])
            mode = 'w' if op in WRITES or op in ('try_write', 'try_lock', 'try_get_mut') else 'r'
            if op not in TRY:
                self.take(f, x, c, mode, local, held, info)
            if got:
                after = {g for g in after if g[0] != dest} | {(dest, c, mode)}
            taken = True
        if BLOCK.search(name):
            for h in held:
                self.bad['blocking:' + h[0]] = ('a thread waits while it holds a lock', self.where(f, x))
            if TASKS.search(f) and not f.startswith('server::rt'):
                self.bad['blocks:%s' % f.split('::{closure')[0]] = ('a task blocks its thread, and with it the other tasks that run there', self.where(f, x))
        if not taken:
            for y in self.resolve(t, info):
                b2 = self.P.body(y)
                entry = set()
                for c, md, roots in held:
                    ps = set()
                    for n, (l, mv) in enumerate(args, 1):
                        src = info['from'].get(l, set()) | {l}
                        if roots & src or self.fresh(info, src):
                            ps.add(n)
                    if y in info['clo'].values():
                        ps = {1, 2} if ps or roots & set().union(*[info['from'].get(l, set()) | {l} for l, _ in args] or [set()]) else set()
                    entry.add((c, md, frozenset(ps)))
                if self.is_coroutine(y):
                    continue
                k = (y, frozenset(entry))
                if k not in seen:
                    seen.add(k)
                    calls.append(k)
            if used:
                after -= used
                if got:
                    after |= {(dest, g[1], g[2]) for g in used}
            elif got:
                src = {g for g in cur if any(below(g, l) for l, _ in args)}
                after |= {(dest, g[1], g[2]) for g in src}
            for l, mv in args:
                if mv:
                    after = {g for g in after if g[0] != l or g[0] == dest}
        return [(self.target(t), after)]

    @staticmethod
    def target(t):
        for z in t[4:]:
            if isinstance(z, int):
                return z
        return None

    def cycles(self):
        """cycles of the lock order no gate lock makes impossible"""
        g = {}
        for a, b in self.edges:
            if a != b:
                g.setdefault(a, set()).add(b)
        out = []
        nodes = sorted(g)

        def walk_(path):
            for n in sorted(g.get(path[-1], ())):
                if n == path[0]:
                    out.append(tuple(path))
                elif n > path[0] and n not in path and len(path) < 6:
                    walk_(path + [n])
        for n in nodes:
            walk_([n])
        res = []
        for cyc in out:
            es = [(cyc[i], cyc[(i + 1) % len(cyc)]) for i in range(len(cyc))]
            for pick in itertools.islice(itertools.product(*[sorted(self.edges[e], key=str) for e in es]), 4096):
                safe = False
                for p, q in itertools.combinations(range(len(pick)), 2):
                    for c, m in pick[p][0]:
                        for c2, m2 in pick[q][0]:
                            if c == c2 and c in self.single and c not in cyc and 'w' in (m, m2):
                                safe = True
                if not safe:
                    res.append((cyc, [z[2] for z in pick]))
                    break
        return res


def lk1(ctx):
    L = Locks(ctx)
    L.explore()
    for c, sites in sorted(L.taken.items()):
        for s in sorted(sites):
            ctx.require(True, 'taken:%s' % c, '')
    for (a, b), es in sorted(L.edges.items()):
        if a == b:
            for gates, inside, w in sorted(es, key=str):
                ctx.require(inside, 'twice:' + a, 'a lock is taken while it is held already (or two of its kind in no order)', lambda: [w])
        else:
            ctx.require(True, 'order:%s>%s' % (a, b), '')
    for cyc, sites in L.cycles():
        ctx.require(False, 'cycle:' + '>'.join(cyc), 'locks are taken in different orders, two tasks can wait for each other', lambda: sites)
    for k, (what, w) in sorted(L.bad.items()):
        ctx.require(False, k, what, lambda: [w])
    ctx.floor('lock classes', len(L.taken), 9)
    ctx.floor('places where locks are taken', sum(map(len, L.taken.values())), 30)
    ctx.floor('ordered pairs of locks', len([1 for e in L.edges if e[0] != e[1]]), 4)
    ctx.floor('functions reached', len({f for f, _ in L.contexts}), 300)
    return L


RULES = {'L01': lk1}
