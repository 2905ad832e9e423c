"""Path-sensitive abstract interpreter over the MIR dump (property simulation in the style of ESP).

A state is (call stack, memory, branch facts, rule automaton state).  Local functions, closures and async bodies are
interpreted at the call; everything else goes through a model or is opaque.  Loops are widened at their heads, states
are merged when they agree (or, above a bound, joined), so exploration reaches a fixpoint."""
import json, re, sys
from terms import *
import terms
import lindom

sys.setrecursionlimit(20000)

INTTY = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char', 'bool'}


class Body:
    def __init__(self, j):
        self.j = j
        self.path = j['path']
        self.kind = j['kind']
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.argc = j['argc']
        self.tainted = j['tainted']
        self.span = j['span']
        self.names = {n: i for i, (t, n) in reversed(list(enumerate(j['locals']))) if n}
        self._prep()

    def succs(self, i):
        t = self.blocks[i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k in ('drop',):
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [t[2]]
        return []

    def _prep(self):
        n = len(self.blocks)
        self.succ = [self.succs(i) for i in range(n)]
        # reachable + preds + back edges (iterative DFS)
        self.preds = [[] for _ in range(n)]
        color = [0] * n
        back = []
        order = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                self.preds[v].append(u)
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(self.succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        self.rpo = order[::-1]
        self.loops = {}
        for u, h in back:
            s = self.loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work.extend(self.preds[x])
        self.inloop = set()
        for s in self.loops.values():
            self.inloop |= s
        self._live()

    def _live(self):
        """per block live-in locals; address-taken locals are always live"""
        n = len(self.blocks)
        self.addr = set()
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def uses_place(p, acc, isdef=False):
            if not (isdef and not p[1]):
                acc.add(p[0])
            for e in p[1]:
                if e[0] == 'index':
                    acc.add(e[1])

        def uses_op(o, acc):
            if o[0] in ('copy', 'move'):
                uses_place(o[1], acc)

        for i in self.rpo:
            g, k = gen[i], kill[i]
            bb = self.blocks[i]

            def use(acc):
                for x in acc:
                    if x not in k:
                        g.add(x)
            for s in bb['s']:
                if s[0] == '=':
                    acc = set()
                    r = s[2]
                    rk = r[0]
                    if rk in ('use', 'repeat'):
                        uses_op(r[1], acc)
                    elif rk in ('ref', 'rawptr'):
                        p = r[2] if rk == 'ref' else r[1]
                        uses_place(p, acc)
                        if not any(e[0] == 'deref' for e in p[1]):
                            self.addr.add(p[0])
                    elif rk == 'cast':
                        uses_op(r[2], acc)
                    elif rk == 'bin':
                        uses_op(r[2], acc); uses_op(r[3], acc)
                    elif rk == 'un':
                        uses_op(r[2], acc)
                    elif rk == 'discr':
                        uses_place(r[1], acc)
                    elif rk == 'agg':
                        for o in r[2]:
                            uses_op(o, acc)
                    uses_place(s[1], acc, True)
                    use(acc)
                    if not s[1][1]:
                        k.add(s[1][0])
                elif s[0] == 'setdiscr':
                    use({s[1][0]})
            t = bb['t']
            acc = set()
            if t[0] == 'switch':
                uses_op(t[1], acc)
            elif t[0] == 'call':
                if t[1][0] in ('copy', 'move'):
                    uses_op(t[1], acc)
                for o in t[2]:
                    uses_op(o, acc)
                uses_place(t[3], acc, True)
            elif t[0] == 'assert':
                uses_op(t[1], acc)
                if t[3][0] == 'bounds':
                    uses_op(t[3][1], acc); uses_op(t[3][2], acc)
            elif t[0] == 'yield':
                uses_op(t[1], acc)
            elif t[0] == 'return':
                acc.add(0)
            use(acc)
            if t[0] == 'call' and not t[3][1]:
                k.add(t[3][0])
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in reversed(self.rpo):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                new = gen[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        self.live = [frozenset(x | self.addr) for x in live]


class Program:
    def __init__(self, *files):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        for f in files:
            d = json.load(open(f))
            for b in d['bodies']:
                self.bodies[b['path']] = b
            self.adts.update(d['adts'])
            self.impls += d['impls']
        self._b = {}
        for p, a in self.adts.items():
            for i, v in enumerate(a['variants']):
                terms.DISCR[(p, i)] = int(v['discr'])
        self.nv = {p: len(a['variants']) for p, a in self.adts.items() if a['kind'] == 'enum'}

    def body(self, path):
        b = self._b.get(path)
        if b is None and path in self.bodies:
            b = self._b[path] = Body(self.bodies[path])
        return b

    def find(self, rx):
        r = re.compile(rx)
        return [p for p in self.bodies if r.search(p)]

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name:
                return i, v
        return None


def tyhead(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:]
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else t
            t = t.strip()
            if t.startswith('mut '):
                t = t[4:]
            continue
        break
    return t.split('<')[0]


class State:
    __slots__ = ('frames', 'mem', 'facts', 'excl', 'ps', 'trace', 'heads', 'prev', 'note', 'nf')

    def copy(self):
        s = State()
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.excl = dict(self.excl)
        s.ps = self.ps
        s.trace = self.trace
        s.heads = dict(self.heads)
        s.prev = self.prev
        s.note = self.note
        s.nf = self.nf
        return s


# frame = (path, bb, dest, target, conts)


class Stop(Exception):
    pass


class Rule:
    """default rule: observes nothing"""
    init = ()
    opaque = re.compile(r'(?!)')         # local functions not to interpret
    keep_logs = False
    obligations = False

    def partition(self, st):
        """what keeps states apart when there are too many of them"""
        return ()

    def on_call(self, E, st, c):
        """before a non-interpreted call; may set st.ps; may return a list of (state, value) to override"""
        return None

    def on_result(self, E, st, c, val):
        pass

    def on_ret0(self, E, st, v):
        pass

    def on_write(self, E, st, root, path, val, span):
        pass

    def on_assume(self, E, st, term, val):
        pass

    def on_return(self, E, st, val):
        """return of the analysed entry function"""
        pass

    def on_enter(self, E, st, path, args):
        pass

    def on_leave(self, E, st, path, val):
        pass

    def on_panic(self, E, st, kind, span):
        pass

    def on_await(self, E, st, fut):
        pass

    def on_drop(self, E, st, v, ty, span):
        pass

    def on_loop(self, E, st, depth, bb):
        """entering a loop"""
        pass

    def peel(self, body, bb):
        return 0

    def drop(self, f):
        """facts the rule has no use for: forgetting them merges states"""
        return False

    def on_back(self, E, st, depth, bb):
        """end of a loop iteration, before the loop variables are generalised"""
        pass

    def pin(self, f):
        return False


class Call:
    __slots__ = ('name', 'res', 'args', 'atys', 'rty', 'dest', 'target', 'span', 'site', 'tys', 'vals', 'caller', 'local')

    def __init__(self):
        self.vals = None


class Engine:
    def __init__(self, prog, rule, join_limit=400, max_steps=3000000, max_depth=40):
        self.p = prog
        self.rule = rule
        self.join_limit = join_limit
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.steps = 0
        self.visited = {}
        self.groups = {}
        self.joined = {}
        self.njoin = 0
        self.sites = {}
        self.npaths = 0
        self.entered = set()
        self.callsites = set()
        self.branches = set()
        self.fns = {}

    # ------------------------------------------------------------ entry
    def run(self, path, args=None, ps=None, facts=None, mem=None, excl=None):
        b = self.p.body(path)
        if b is None:
            raise KeyError(path)
        self.visited, self.groups, self.joined = {}, {}, {}
        st = State()
        st.mem = dict(mem or {})
        st.facts = dict(facts or {})
        st.excl = dict(excl or {})
        st.ps = self.rule.init if ps is None else ps
        st.trace = None
        st.heads = {}
        st.prev = None
        st.note = None
        st.nf = 0
        st.frames = ()
        if args is None:
            args = []
            for i in range(1, b.argc + 1):
                args.append(sym(b.locals[i][1] or 'arg%d' % i))
        self._push(st, path, args, None, None, ())
        work = [st]
        self.loop(work)

    def run_async(self, path, args=None, **kw):
        """entry is an async fn: interprets its body with named captured arguments"""
        b = self.p.body(path + '::{closure#0}')
        if b is None:
            raise KeyError(path)
        if args is None:
            args = {}
        fields = []
        fn = self.p.body(path)
        for i in range(1, fn.argc + 1):
            n = fn.locals[i][1] or 'arg%d' % i
            fields.append((n, args.get(n, sym(n))))
        co = agg('coroutine:' + b.path, 0, '', fields)
        self.run(b.path, [co, sym('cx')], **kw)

    def loop(self, work):
        while work:
            st = work.pop()
            outs = self.step(st)
            if outs:
                work.extend(outs)
            self.steps += 1
            if self.steps > self.max_steps:
                raise Stop('step budget exceeded in %s' % (self.cur,))

    # ------------------------------------------------------------ memory
    def init(self, root):
        if root[0] == 'S':
            return root[1]
        return UNDEF

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.init(root)
        for k in path:
            v = project(v, k)
        return v

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = self.init(root)
        st.mem[root] = self._setpath(v, path, val)

    def _setpath(self, v, path, val):
        if not path:
            return val
        # compose slice+index into one key on the base
        if path[0][0] == 's' and len(path) > 1 and path[1][0] in ('i', 's'):
            lo = path[0][1]
            if path[1][0] == 'i':
                nk = ('i', add(lo, path[1][1]))
            else:
                hi = path[1][2]
                nk = ('s', add(lo, path[1][1]), path[0][2] if hi is None else add(lo, hi))
            return self._setpath(v, (nk,) + path[2:], val)
        if len(path) == 1:
            return update(v, path[0], val)
        return update(v, path[0], self._setpath(project(v, path[0]), path[1:], val))

    def target(self, v):
        """what a pointer-like value points to"""
        if v.op == 'ptr':
            return v.a[0], v.a[1]
        if v.op == 'agg' and v.a[0] == 'guard':
            return self.target(v.a[3][0][1])
        return ('S', v), ()

    def ptr(self, root, path):
        if root[0] == 'S' and not path:
            return root[1]
        return mk('ptr', root, path)

    def deref(self, st, v):
        """value behind a reference; follows pointers until a non-pointer value"""
        n = 0
        while n < 12:
            if v.op == 'ptr':
                w = self.load(st, v.a[0], v.a[1])
            elif ('S', v) in st.mem:
                w = st.mem[('S', v)]
                if w is v:
                    return v
            else:
                return v
            if w.op != 'ptr' and not (('S', w) in st.mem and st.mem[('S', w)] is not w):
                return w
            v = w
            n += 1
        return v

    def deep(self, st, v, memo=None, depth=0):
        """value with every embedded pointer to local memory replaced by what it points to"""
        def fn(x):
            if x.op == 'ptr':
                return self.deep(st, self.load(st, x.a[0], x.a[1]), None, depth + 1) if depth < 8 else None
            if ('S', x) in st.mem and st.mem[('S', x)] is not x and depth < 8:
                return self.deep(st, st.mem[('S', x)], None, depth + 1)
            # everything but containers was resolved when it was built
            return None if x.op in ('agg', 'upd') else x
        if not has_ptr(v) and not any(r[0] == 'S' for r in st.mem):
            return v
        return subst(v, fn, {})

    def place(self, st, p):
        depth = len(st.frames) - 1
        root, path = ('L', depth, p[0]), ()
        var = ''
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                root, path = self.target(self.load(st, root, path))
                var = ''
            elif k == 'field':
                path = path + (('f', var, e[2]),)
                var = ''
            elif k == 'down':
                var = e[2]
            elif k == 'index':
                path = self._idx(path, self.load(st, ('L', depth, e[1])))
            elif k == 'cindex':
                off = Int(e[1])
                if e[3]:
                    off = sub(length(self.deref(st, self.load(st, root, path))), Int(e[1]))
                path = self._idx(path, off)
            elif k == 'subslice':
                lo = Int(e[1])
                hi = Int(e[2])
                if e[3]:
                    hi = sub(length(self.load(st, root, path)), Int(e[2]))
                path = path + (('s', lo, hi),)
            else:
                path = path + (('f', '', '?' + k),)
        return root, path

    def _idx(self, path, i):
        if path and path[-1][0] == 's':
            return path[:-1] + (('i', add(path[-1][1], i)),)
        return path + (('i', i),)

    # ------------------------------------------------------------ operands
    def const(self, o):
        _, ty, val, name = o
        k = val[0]
        if k in ('int', 'char', 'bool'):
            return Int(int(val[1]))
        if k == 'str':
            return Lit(val[1])
        if k == 'bytes':
            return Lit(bytes(val[1]))
        if k == 'bits':
            a = self.p.adts.get(tyhead(ty))
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if int(v['discr']) == int(val[1]) and not v['fields']:
                        return agg(tyhead(ty), i, v['name'])
            return mk('static', name or (ty + '#' + val[1]))
        if k == 'zst':
            if ty == '()':
                return UNIT
            return agg(tyhead(ty))
        if k == 'static':
            return mk('static', val[1])
        if k == 'mem':
            if re.match(r'\[u8; ', ty):
                return Lit(bytes(val[1]))
            return mk('static', name or (ty + '#' + bytes(val[1])[:64].hex()))
        return mk('static', name or (ty + '#' + str(val)))

    def operand(self, st, o):
        k = o[0]
        if k == 'copy':
            r, p = self.place(st, o[1])
            return self.load(st, r, p)
        if k == 'move':
            r, p = self.place(st, o[1])
            v = self.load(st, r, p)
            if not p and r[0] == 'L':
                st.mem[r] = MOVED
            return v
        if k == 'const':
            return self.const(o)
        if k == 'static':
            return mk('static', o[1])
        if k == 'closure':
            return agg('closure:' + o[1])
        if k == 'fn':
            return agg('fn:' + (o[2] or o[1]))
        return UNDEF

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, ty):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'repeat':
            v = self.operand(st, r[1])
            n = r[2]
            m = re.match(r'(\d+)', n)
            if m:
                n = int(m.group(1))
                if n <= 4:
                    return array([v] * n)
            return mk('repeat', v, n)
        if k in ('ref', 'rawptr'):
            root, path = self.place(st, r[2] if k == 'ref' else r[1])
            return self.ptr(root, path)
        if k == 'cast':
            v = self.operand(st, r[2])
            if r[1].startswith('IntToInt'):
                return self.cast(v, r[4], r[3])
            return v
        if k == 'bin':
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                if ty == 'bool':
                    return neg(v)
                return mk('un', 'Not', v)
            if r[1] == 'Neg':
                return mulc(v, -1)
            if r[1] == 'PtrMetadata':
                return length(self.deref(st, v))
            return mk('un', r[1], v)
        if k == 'discr':
            root, path = self.place(st, r[1])
            v = self.load(st, root, path)
            v = self.deref(st, v) if v.op == 'ptr' else v
            return self.discr(v, r[2])
        if k == 'agg':
            ops = [self.operand(st, o) for o in r[2]]
            a = r[1]
            if a[0] == 'array':
                return array(ops)
            if a[0] == 'tuple':
                return tup(*ops)
            if a[0] == 'adt':
                return agg(a[1], a[2], a[3], zip(a[4], ops))
            if a[0] in ('closure', 'coroutine'):
                return agg(a[0] + ':' + a[1], 0, '', zip(a[2], ops))
            return mk('otheragg', *ops)
        if k == 'tls':
            return mk('static', r[1])
        return mk('opaque', json.dumps(r)[:200])

    def discr(self, v, adt=''):
        if v.op == 'agg':
            return Int(terms.DISCR.get((v.a[0], v.a[1]), v.a[1]))
        return discr(v, self.p.nv.get(adt))

    def cast(self, v, frm, to):
        if v.op == 'int':
            rg = lindom.RANGES.get(to)
            if rg and rg[0] <= v.a[0] <= rg[1]:
                return v
        a, b = lindom.RANGES.get(frm), lindom.RANGES.get(to)
        if frm == 'bool' and b:
            r = mk('b2i', v)
            TYPES.setdefault(r, 'bool')
            return r
        if a and b and b[0] <= a[0] and a[1] <= b[1]:
            return v
        if to in ('usize', 'u64') and frm in ('usize', 'u64'):
            return v
        r = mk('cast', to, v)
        TYPES.setdefault(r, to)
        return r

    def binop(self, st, op, a, b, ty):
        ints = ty in INTTY and ty != 'bool'
        if ints:
            for x in (a, b):
                if x.op not in ('int', 'lin'):
                    TYPES.setdefault(x, ty)
        elif ty not in INTTY:
            a, b = (self.deref(st, a) if a.op == 'ptr' else a), (self.deref(st, b) if b.op == 'ptr' else b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul') and ty not in ('f32', 'f64'):
            r = None
            if base == 'Add':
                r = add(a, b)
            elif base == 'Sub':
                r = sub(a, b)
            elif a.op == 'int':
                r = mulc(b, a.a[0])
            elif b.op == 'int':
                r = mulc(a, b.a[0])
            else:
                r = mk('mul', *sorted((a, b)))
                TYPES.setdefault(r, ty)
            if op.endswith('WithOverflow'):
                return tup(r, self.overflow(r, ty))
            return r
        if base in ('Lt', 'Le', 'Gt', 'Ge') and ints:
            return {'Lt': lt(a, b), 'Le': le(a, b), 'Gt': lt(b, a), 'Ge': le(b, a)}[base]
        if base == 'Eq':
            return self.eqv(a, b, ints, ty)
        if base == 'Ne':
            return neg(self.eqv(a, b, ints, ty))
        if ty == 'bool':
            if base == 'BitAnd':
                return band(a, b)
            if base == 'BitOr':
                return bor(a, b)
            if base == 'BitXor':
                return neg(self.eqv(a, b, False, ty))
        if ints:
            return self.bits(base, a, b, ty)
        if base in ('Lt', 'Gt', 'Le', 'Ge'):
            if base in ('Gt', 'Ge'):
                a, b = b, a
            return mk('cmp', 'lt' if base in ('Lt', 'Gt') else 'le', a, b)
        return mk('bin', base, a, b)

    def overflow(self, r, ty):
        rg = lindom.RANGES.get(ty)
        if r.op == 'int' and rg:
            return FALSE if rg[0] <= r.a[0] <= rg[1] else TRUE
        if not rg:
            return mk('ovf', r)
        return mk('ovf', r, ty)

    def bits(self, op, a, b, ty):
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(ty)
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                return Int({'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                            'Shl': lambda: (x << y) & ((1 << w) - 1), 'Shr': lambda: x >> y, 'Div': lambda: x // y,
                            'Rem': lambda: x % y}[op]())
            except Exception:
                pass
        if w:
            if op == 'BitAnd':
                if a.op == 'int':
                    a, b = b, a
                if b.op == 'int':
                    m = b.a[0]
                    lo = 0
                    if m == 0:
                        return Int(0)
                    while not (m >> lo) & 1:
                        lo += 1
                    n = (m >> lo).bit_length()
                    if (m >> lo) == (1 << n) - 1:
                        if lo == 0 and n == w:
                            return a
                        return mulc(self.bitfield(a, lo, n), 1 << lo)
            if op in ('Shr', 'Div') and b.op == 'int':
                k = b.a[0] if op == 'Shr' else (b.a[0].bit_length() - 1 if b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 else None)
                if k == 0:
                    return a
                if k:
                    c, d = lin_of(a)
                    if c % (1 << k) == 0 and all(v % (1 << k) == 0 for v in d.values()):
                        return from_lin(c >> k, {x: v >> k for x, v in d.items()})
                    return self.bitfield(a, k, w - k)
            if op == 'Shl' and b.op == 'int' and 0 <= b.a[0] < w:
                lo, hi = self.interval(a)
                if lo is not None and lo >= 0 and hi << b.a[0] < 1 << w:
                    return mulc(a, 1 << b.a[0])
            if op in ('BitOr', 'BitXor'):
                for x, y in ((a, b), (b, a)):
                    # disjoint bits
                    lo, hi = self.interval(y)
                    if lo is not None and lo >= 0:
                        k = hi.bit_length()
                        c, d = lin_of(x)
                        if c % (1 << k) == 0 and all(v % (1 << k) == 0 for v in d.values()) and (self.interval(x)[0] or 0) >= 0:
                            return add(x, y)
            if op == 'Rem' and b.op == 'int' and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
                return self.bitfield(a, 0, b.a[0].bit_length() - 1)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a.id > b.id:
            a, b = b, a
        r = mk('bin', op, a, b)
        TYPES.setdefault(r, ty)
        return r

    def interval(self, t):
        """(low, high) of an integer term from the ranges of its atoms, or (None, None)"""
        c, d = lin_of(t)
        lo = hi = c
        for x, k in d.items():
            r = lindom.trange(x)
            if r is None:
                return None, None
            lo += k * (r[0] if k > 0 else r[1])
            hi += k * (r[1] if k > 0 else r[0])
        return lo, hi

    def bitfield(self, a, lo, n):
        if a.op == 'bits':
            return mk('bits', a.a[0], a.a[1] + lo, min(n, a.a[2] - lo))
        return mk('bits', a, lo, n)

    def eqv(self, a, b, ints=False, ty=''):
        return eq(a, b, ints)

    # ------------------------------------------------------------ facts
    def value(self, st, t):
        """constant value of t under the facts, or None"""
        if t.op in CONSTOPS:
            return t
        v = st.facts.get(t)
        if v is not None:
            return v
        if t.op == 'lin':
            r = Int(t.a[0])
            for at, c in t.a[1]:
                x = st.facts.get(at)
                if x is None or x.op != 'int':
                    return None
                r = add(r, mulc(x, c))
            return r
        if t.op == 'bits':
            x = self.value(st, t.a[0])
            if x is not None and x.op == 'int' and x.a[0] >= 0:
                return Int((x.a[0] >> t.a[1]) & ((1 << t.a[2]) - 1))
        if t.op == 'discr':
            nv = NVARIANTS.get(t)
            ex = st.excl.get(t)
            if nv and ex and len(ex) == nv - 1:
                rest = [i for i in range(nv) if Int(i) not in ex]
                if len(rest) == 1:
                    return Int(rest[0])
        return None

    def simp(self, st, t):
        """substitutes known integer atoms"""
        c, d = lin_of(t)
        r = Int(c)
        for at, k in d.items():
            v = self.value(st, at) if at.op not in ('int',) else at
            if v is not None and v.op == 'int':
                r = add(r, Int(k * v.a[0]))
            else:
                r = add(r, mulc(at, k))
        return r

    def decide(self, st, t):
        """truth of a boolean term: True/False/None"""
        if t.op == 'int':
            return bool(t.a[0])
        if t.op == 'not':
            r = self.decide(st, t.a[0])
            return None if r is None else not r
        v = st.facts.get(t)
        if v is not None and v.op == 'int':
            return bool(v.a[0])
        if t.op == 'lt0':
            n = st.facts.get(neg(t))
            if n is not None and n.op == 'int':
                return not n.a[0]
            x = lt0(self.simp(st, t.a[0]))
            if x.op == 'int':
                return bool(x.a[0])
            return lindom.decide_lt0(st.facts, st.excl, x.a[0])
        if t.op == 'eq0':
            s = self.simp(st, t.a[0])
            x = eq0(s)
            if x.op == 'int':
                return bool(x.a[0])
            c, d = lin_of(x.a[0])
            if len(d) == 1:
                (k, cf), = d.items()
                if c % cf:
                    return False
                val = Int(-c // cf)
                kv = self.value(st, k)
                if kv is not None and kv.op == 'int':
                    return kv is val
                if val in st.excl.get(k, ()):
                    return False
                if k.op == 'discr':
                    nv = NVARIANTS.get(k)
                    if nv and not (0 <= val.a[0] < nv) and False:
                        return False
                    return None
            return lindom.decide_eq0(st.facts, st.excl, x.a[0])
        if t.op == 'and':
            a, b = self.decide(st, t.a[0]), self.decide(st, t.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if t.op == 'ovf':
            if len(t.a) < 2:
                return None
            rg = lindom.RANGES[t.a[1]]
            r = self.simp(st, t.a[0])
            lo = lindom.decide_lt0(st.facts, st.excl, sub(r, Int(rg[0])))
            hi = lindom.decide_lt0(st.facts, st.excl, sub(Int(rg[1]), r))
            if lo is False and hi is False:
                return False
            if lo or hi:
                return True
            return None
        if t.op == 'eq':
            a, b = t.a
            va, vb = self.value(st, a), self.value(st, b)
            if va is not None or vb is not None:
                x = eq(va or a, vb or b)
                if x.op == 'int':
                    return bool(x.a[0])
                if x is not t:
                    return self.decide(st, x)
            if b.op == 'lit' and b in st.excl.get(a, ()):
                return False
            if a.op == 'lit' and a in st.excl.get(b, ()):
                return False
        if t.op == 'boundary':
            # byte index t.a[1] of string t.a[0] is a char boundary
            a, x = t.a
            if self.decide(st, eq0(x)) or self.decide(st, eq0(sub(length(a), x))):
                return True
            la = as_lit(a)
            if la is not None and x.op == 'int' and x.a[0] <= len(la):
                return x.a[0] == len(la) or la[x.a[0]] & 0xC0 != 0x80
            if x.op == 'int':
                for f, v in st.facts.items():
                    if v is TRUE and f.op in ('starts_with', 'eq') and f.a[0] is a:
                        lq = as_lit(f.a[1])
                        # the prefix is itself valid text: its end is a boundary when the matched prefix is ASCII
                        if lq is not None and len(lq) >= x.a[0] and all(z < 128 for z in lq[:x.a[0]]):
                            return True
            # the start or end of a piece of the text split at an ASCII separator
            for sp, n in lindom.pieces(st.facts).items():
                if sp.a[1] is a:
                    pos = Int(0)
                    for i in range(n):
                        end = add(pos, length(lindom.piece(sp, i)))
                        if self.decide(st, eq0(sub(x, pos))) or self.decide(st, eq0(sub(x, end))):
                            return True
                        pos = add(end, Int(1))
            if x.op == 'int':
                # every byte before the index is known to be ASCII
                if all(self.ascii_byte(st, project(a, ('i', Int(i)))) for i in range(x.a[0])):
                    return True
            return None
        if t.op == 'starts_with':
            a, p = t.a
            va = self.value(st, a)
            if va is not None:
                x = starts_with(va, p)
                if x.op == 'int':
                    return bool(x.a[0])
            lp = as_lit(p)
            for f, v in st.facts.items():
                if f.op == 'starts_with' and f.a[0] is a and v.op == 'int' and lp is not None:
                    lq = as_lit(f.a[1])
                    if lq is None:
                        continue
                    if v.a[0]:
                        if lq.startswith(lp):
                            return True
                        if not lp.startswith(lq):
                            return False
                    elif lp.startswith(lq):
                        return False
            if lp is not None and lindom.decide_lt0(st.facts, st.excl, sub(length(a), Int(len(lp)))):
                return False
        return None

    def ascii_byte(self, st, b):
        TYPES.setdefault(b, 'u8') if b.op not in ('int', 'lin') else None
        return self.decide(st, lt(b, Int(128))) is True

    def assume(self, st, t, val):
        """boolean t is val; False when that contradicts the facts"""
        if t.op == 'int':
            return bool(t.a[0]) == bool(val)
        if t.op == 'not':
            return self.assume(st, t.a[0], not val)
        d = self.decide(st, t)
        if d is not None:
            return d == bool(val)
        if t.op == 'and' and val:
            return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
        if t.op == 'and':
            a, b = self.decide(st, t.a[0]), self.decide(st, t.a[1])
            if a:
                return self.assume(st, t.a[1], False)
            if b:
                return self.assume(st, t.a[0], False)
        if t.op == 'eq0':
            x = eq0(self.simp(st, t.a[0]))
            c, d = lin_of(x.a[0]) if x.op == 'eq0' else (0, {})
            if len(d) == 1:
                (k, cf), = d.items()
                if c % cf == 0:
                    return self.assume_val(st, k, Int(-c // cf), val)
        if t.op == 'eq':
            a, b = t.a
            if a.op == 'lit':
                a, b = b, a
            if b.op == 'lit':
                if not self.assume_val(st, a, b, val):
                    return False
        if not val and t.op == 'lt0':
            t, val = neg(t), True
        st.facts[t] = TRUE if val else FALSE
        st.nf += 1
        return self.rule.on_assume(self, st, t, bool(val)) is not False

    def assume_val(self, st, t, c, pos=True):
        """t == c (or != c)"""
        if t.op in CONSTOPS:
            return (t is c) == pos
        if t.op == 'b2i':
            if c.op == 'int' and c.a[0] in (0, 1):
                return self.assume(st, t.a[0], bool(c.a[0]) == pos)
        if t.op == 'lin':
            return self.assume(st, eq0(sub(t, c)), pos)
        if is_bool(t) and c.op == 'int':
            return self.assume(st, t, bool(c.a[0]) == pos)
        v = self.value(st, t)
        if v is not None:
            return (v is c) == pos
        ex = st.excl.get(t, frozenset())
        if pos:
            if c in ex:
                return False
            if c.op == 'int':
                r = lindom.decide_eq0(st.facts, st.excl, sub(t, c)) if t.op not in ('discr',) else None
                if r is False:
                    return False
            st.facts[t] = c
            st.nf += 1
            st.excl.pop(t, None)
            if self.rule.on_assume(self, st, t, c) is False:
                return False
        else:
            if c in ex:
                return True
            st.excl[t] = ex | {c}
            st.nf += 1
            w = self.value(st, t)
            if t.op == 'discr':
                nv = NVARIANTS.get(t)
                if nv and len(st.excl[t]) >= nv:
                    return False
            if w is not None:
                st.facts[t] = w
                if self.rule.on_assume(self, st, t, w) is False:
                    return False
            else:
                if self.rule.on_assume(self, st, mk('eqc', t, c), False) is False:
                    return False
        return True

    # ------------------------------------------------------------ frames
    def _push(self, st, path, args, dest, target, conts):
        depth = len(st.frames)
        b = self.p.body(path)
        self.entered.add(path)
        st.frames = st.frames + ((path, 0, dest, target, conts),)
        for k in [k for k in st.mem if k[0] == 'L' and k[1] >= depth]:
            del st.mem[k]
        for k in [k for k in st.heads if k[0] >= depth]:
            del st.heads[k]
        for i, a in enumerate(args):
            st.mem[('L', depth, i + 1)] = a
            t = b.locals[i + 1][0]
            if t in INTTY and a.op not in ('int', 'lin'):
                TYPES.setdefault(a, t)
        st.prev = None
        self.rule.on_enter(self, st, path, args)

    def site(self, st):
        k = tuple((f[0], f[1]) for f in st.frames)
        i = self.sites.get(k)
        if i is None:
            i = self.sites[k] = len(self.sites) + 1
        return i

    def in_loop(self, st):
        return any(f[1] in self.p.body(f[0]).inloop for f in st.frames)

    def goto(self, st, bb):
        f = st.frames[-1]
        st.prev = f[1]
        st.frames = st.frames[:-1] + ((f[0], bb) + f[2:],)

    def spanof(self, st):
        f = st.frames[-1]
        return self.p.body(f[0]).blocks[f[1]]['sp']

    def log(self, st, text):
        st.trace = (st.trace, self.spanof(st), text)

    def trace(self, st):
        out = []
        t = st.trace
        while t:
            out.append((t[1], t[2]))
            t = t[0]
        return out[::-1]

    def stack(self, st):
        return [f[0] for f in st.frames]

    # ------------------------------------------------------------ stepping
    def step(self, st):
        """runs st until it forks or ends"""
        while True:
            path, bb, dest, target, conts = st.frames[-1]
            self.cur = path
            self.curdepth = len(st.frames) - 1
            body = self.p.body(path)
            blk = body.blocks[bb]
            if st.prev is not None or st.note == 'ret':
                if bb in body.loops:
                    self.loophead(st, body, bb)
                if len(body.preds[bb]) > 1 or st.note == 'ret':
                    st.note = None
                    r = self.merge(st, body, bb)
                    if r is None:
                        return []
                    st = r
            self.steps += 1
            depth = len(st.frames) - 1
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(st, s[2], s[4])
                    if s[4] in INTTY and v.op not in ('int', 'lin', 'agg'):
                        TYPES.setdefault(v, s[4])
                    root, p = self.place(st, s[1])
                    if root[0] != 'L':
                        self.rule.on_write(self, st, root, p, v, s[3])
                    elif root == ('L', 0, 0) and not p:
                        self.rule.on_ret0(self, st, v)
                    self.store(st, root, p, v)
                elif s[0] == 'dead':
                    st.mem.pop(('L', depth, s[1]), None)
                elif s[0] == 'setdiscr':
                    pass
            t = blk['t']
            k = t[0]
            if k == 'goto':
                self.goto(st, t[1])
                continue
            if k == 'drop':
                root, p = self.place(st, t[1])
                v = self.load(st, root, p)
                if v is not MOVED and v is not UNDEF:
                    self.rule.on_drop(self, st, v, t[3], blk['sp'])
                self.goto(st, t[2])
                continue
            if k == 'switch':
                v = self.operand(st, t[1])
                return self.switch(st, v, t[2], t[3], t[4])
            if k == 'assert':
                c = self.operand(st, t[1])
                exp = bool(t[2])
                cond = c if exp else neg(c)
                kind = t[3][0]
                if kind == 'bounds':
                    ln, ix = self.operand(st, t[3][1]), self.operand(st, t[3][2])
                    TYPES.setdefault(ix, 'usize') if ix.op not in ('int', 'lin') else None
                    cond = lt(ix, ln)
                self.oblige(st, cond, kind if kind != 'overflow' else 'overflow ' + t[3][1], blk['sp'])
                if not self.assume(st, cond, True):
                    return []
                self.goto(st, t[4])
                continue
            if k == 'yield':
                root, p = self.place(st, t[3])
                self.store(st, root, p, sym('cx'))
                self.goto(st, t[2])
                continue
            if k == 'return':
                return self.ret(st)
            if k in ('unreachable', 'resume', 'otherterm'):
                return []
            if k == 'call':
                outs = self.call(st, t, blk['sp'])
                if outs is None:
                    return []
                if len(outs) == 1 and outs[0] is st:
                    continue
                return outs
            raise Exception('terminator ' + k)

    def oblige(self, st, cond, kind, span):
        if self.rule.obligations:
            self.rule.on_obligation(self, st, cond, kind, span, self.decide(st, cond))

    def switch(self, st, v, targets, other, ty):
        if ty == 'bool':
            # targets [['0', f]] else t
            f = targets[0][1] if targets[0][0] == '0' else other
            t = other if targets[0][0] == '0' else targets[0][1]
            if v.op == 'int':
                self.goto(st, t if v.a[0] else f)
                return [st]
            d = self.decide(st, v)
            if d is not None:
                self.goto(st, t if d else f)
                return [st]
            outs = []
            for b, tgt in ((True, t), (False, f)):
                s = st.copy()
                if self.assume(s, v, b):
                    self.branches.add((st.frames[-1][0], st.frames[-1][1], b))
                    self.goto(s, tgt)
                    outs.append(s)
            return outs
        c = self.value(st, v)
        if c is not None and c.op == 'int':
            for val, tgt in targets:
                if int(val) == c.a[0]:
                    self.goto(st, tgt)
                    return [st]
            self.goto(st, other)
            return [st]
        outs = []
        body = self.p.body(st.frames[-1][0])
        for val, tgt in targets:
            s = st.copy()
            if self.assume_val(s, v, Int(int(val)), True):
                self.goto(s, tgt)
                outs.append(s)
        if body.blocks[other]['t'][0] != 'unreachable' or body.blocks[other]['s']:
            ok = True
            for val, tgt in targets:
                if not self.assume_val(st, v, Int(int(val)), False):
                    ok = False
                    break
            if ok:
                self.goto(st, other)
                outs.append(st)
        return outs

    # ------------------------------------------------------------ return and continuations
    def ret(self, st):
        path, bb, dest, target, conts = st.frames[-1]
        depth = len(st.frames) - 1
        v = st.mem.get(('L', depth, 0), UNIT)
        if v is UNDEF:
            v = UNIT
        if has_ptr(v):
            v = self.relocate(st, v, depth)
        self.rule.on_leave(self, st, path, v)
        if depth == 0:
            self.npaths += 1
            self.rule.on_return(self, st, v)
            return []
        for k in [k for k in st.mem if k[0] == 'L' and k[1] >= depth]:
            del st.mem[k]
        for k in [k for k in st.heads if k[0] >= depth]:
            del st.heads[k]
        st.frames = st.frames[:-1]
        outs = self.finish(st, v, conts, dest, target)
        for o in outs:
            o.note = 'ret'
        return outs

    def relocate(self, st, v, depth):
        s = self.site(st)
        done = {}

        def fn(x):
            if x.op == 'ptr' and x.a[0][0] == 'L' and x.a[0][1] >= depth:
                root = x.a[0]
                nr = ('H', s, root[1] - depth, root[2])
                if nr not in done:
                    done[nr] = True
                    c = st.mem.get(root, UNDEF)
                    st.mem[nr] = UNDEF
                    st.mem[nr] = subst(c, fn, {})
                return mk('ptr', nr, tuple(subkey(k, fn) for k in x.a[1]))
            return None
        return subst(v, fn, {})

    def finish(self, st, v, conts, dest, target):
        """applies continuations to the value of an interpreted call, then stores it and continues at target"""
        work = [(st, v, conts)]
        outs = []
        while work:
            s, v, cs = work.pop()
            if not cs:
                if target is None:
                    continue
                if dest is not None:
                    if dest.op == 'ptr':
                        root, p = dest.a
                    else:
                        root, p = ('S', dest), ()
                    if root[0] != 'L':
                        self.rule.on_write(self, s, root, p, v, self.spanof(s))
                    self.store(s, root, p, v)
                self.goto(s, target)
                outs.append(s)
                continue
            c, rest = cs[0], cs[1:]
            for o in self.cont(s, v, c):
                s2, w = o
                if isinstance(w, T):
                    work.append((s2, w, rest))
                else:
                    # ('inline', path, args, conts)
                    if w[0] == 'inline':
                        self._push(s2, w[1], w[2], dest, target, tuple(w[3]) + rest)
                        outs.append(s2)
        return outs

    def cont(self, st, v, c):
        k = c[0]
        if k == 'wrap':
            w = {'Ok': Ok, 'Err': Err, 'Some': Some, 'Ready': Ready, 'id': lambda x: x}[c[1]]
            return [(st, w(v))]
        if k == 'const':
            return [(st, c[1])]
        if k == 'map_err':
            return self.on_result_fork(st, v, lambda s, x: [(s, Ok(x))],
                                       lambda s, e: self.apply(s, c[1], [e], (('wrap', 'Err'),)))
        if k == 'not':
            return [(st, neg(v))]
        if k[0] == '@':
            import models
            return models.CONTS[k](self, st, v, c)
        if k == 'bool_some':
            outs = []
            for val in (True, False):
                s = st.copy()
                if self.assume(s, v, val):
                    outs.append((s, Some(c[1]) if val else NONE))
            return outs
        raise Exception('cont ' + k)

    def apply(self, st, f, args, conts=()):
        """calls a closure/function value"""
        f = self.deref(st, f)
        if f.op == 'agg' and f.a[0] == 'notfn':
            return self.apply(st, f.a[3][0][1], args, (('not',),) + tuple(conts))
        if f.op == 'agg' and f.a[0].startswith('closure:'):
            p = f.a[0][8:]
            b = self.p.body(p)
            if b is not None and len(st.frames) < self.max_depth and self.stack(st).count(p) < 2:
                return [(st, ('inline', p, [f] + list(args), tuple(conts)))]
        if f.op == 'agg' and f.a[0].startswith('fn:'):
            p = f.a[0][3:]
            b = self.p.body(p)
            if b is not None and not self.rule.opaque.search(p) and len(st.frames) < self.max_depth and self.stack(st).count(p) < 2:
                return [(st, ('inline', p, list(args), tuple(conts)))]
            # constructors used as functions
            m = p.rsplit('::', 1)
            a = self.p.adts.get(m[0])
            if a and len(m) == 2:
                for i, v in enumerate(a['variants']):
                    if v['name'] == m[1]:
                        r = agg(m[0], i, v['name'], zip(v['fields'], args))
                        return self.run_conts(st, r, conts)
            a = self.p.adts.get(p)
            if a and a['kind'] == 'struct':
                return self.run_conts(st, agg(p, 0, p.split('::')[-1], zip(a['variants'][0]['fields'], args)), conts)
            if re.search(r'::(into|from|to_string|to_owned|clone)$', p):
                return self.run_conts(st, self.deref(st, args[0]), conts)
            if re.search(r'^core::option::Option::Some$|^core::result::Result::(Ok|Err)$', p):
                w = {'Some': Some, 'Ok': Ok, 'Err': Err}[p.rsplit('::', 1)[1]]
                return self.run_conts(st, w(args[0]), conts)
            if p in self.fns and args:
                r = self.library_fn(st, p, args)
                if r is not None:
                    return [o for s, v in r for o in self.run_one(s, v, conts)]
        r = mk('call', 'apply', self.fresh_site(st), f, *[self.deep(st, a) for a in args])
        r = self.fresh(st, r)
        return self.run_conts(st, r, conts)

    def library_fn(self, st, p, args):
        """a function of the libraries passed as a value: modelled as if it were called by name"""
        import models
        name, tys, ty = self.fns[p]
        c = Call()
        c.name, c.res, c.tys, c.local = name, p, tys, False
        c.args, c.caller, c.span, c.site = list(args), st.frames[-1][0], self.spanof(st), None
        m = re.search(r'fn\((.*)\)(?: -> (.*?))? \{', ty)
        parts, d, cur = [], 0, ''
        for ch in (m.group(1) if m else ''):
            d += ch in '(<[' and 1 or (ch in ')>]' and -1 or 0)
            if ch == ',' and d == 0:
                parts.append(cur.strip())
                cur = ''
            else:
                cur += ch
        parts.append(cur.strip())
        c.atys = [re.sub(r"&'\w+ ", '&', x) for x in parts]
        c.atys += [''] * (len(args) - len(c.atys))
        c.rty = (m.group(2) if m else '') or '()'
        c.dest, c.target = None, 0
        r = models.model(self, st, c)
        if r is not None:
            for s, v in r:
                if isinstance(v, T) and c.rty in INTTY and v.op not in ('int', 'lin', 'agg'):
                    TYPES.setdefault(v, c.rty)
        return r

    def run_one(self, s, v, conts):
        if isinstance(v, T):
            return self.run_conts(s, v, conts)
        if v[0] == 'inline':
            return [(s, ('inline', v[1], v[2], tuple(v[3]) + tuple(conts)))]
        return []

    def run_conts(self, st, v, conts):
        res = [(st, v)]
        for i, c in enumerate(conts):
            nxt = []
            for s, x in res:
                if isinstance(x, T):
                    nxt.extend(self.cont(s, x, c))
                else:
                    nxt.append((s, ('inline', x[1], x[2], tuple(x[3]) + (c,))))
            res = nxt
        return res

    def on_result_fork(self, st, v, fok, ferr):
        d = self.discr(v, RES)
        NVARIANTS.setdefault(d, 2) if d.op == 'discr' else None
        outs = []
        c = self.value(st, d)
        if c is None or c is Int(0):
            s = st if c is not None else st.copy()
            if c is not None or self.assume_val(s, d, Int(0)):
                outs += fok(s, project(v, ('f', 'Ok', '0')))
        if c is None or c is Int(1):
            s = st
            if c is not None or self.assume_val(s, d, Int(1)):
                outs += ferr(s, project(v, ('f', 'Err', '0')))
        return outs

    def on_option_fork(self, st, v, fsome, fnone):
        d = self.discr(v, OPT)
        NVARIANTS.setdefault(d, 2) if d.op == 'discr' else None
        outs = []
        c = self.value(st, d)
        if c is None or c is Int(1):
            s = st if c is not None else st.copy()
            if c is not None or self.assume_val(s, d, Int(1)):
                outs += fsome(s, project(v, ('f', 'Some', '0')))
        if c is None or c is Int(0):
            s = st
            if c is not None or self.assume_val(s, d, Int(0)):
                outs += fnone(s)
        return outs

    # ------------------------------------------------------------ calls
    def fresh_site(self, st):
        return self.site(st)

    def fresh(self, st, r):
        """an opaque result produced again (loop) makes its previous incarnation stale"""
        if self.in_loop(st):
            self.stale(st, {r})
        return r

    def stale(self, st, ts):
        def hit(x):
            return bool(leaves(x) & ts)

        def fn(x):
            if x in ts:
                return mk('stale', x if x.op != 'stale' else x.a[0])
            if not (leaves(x) & ts):
                return x
            return None
        memo = {}
        for k, v in list(st.mem.items()):
            if hit(v):
                st.mem[k] = subst(v, fn, memo)
            if k[0] == 'S' and hit(k[1]):
                nv = st.mem.pop(k)
                st.mem[('S', subst(k[1], fn, memo))] = nv
        for d in (st.facts, st.excl):
            for f in list(d):
                if hit(f):
                    del d[f]

    def call(self, st, t, span):
        f = t[1]
        c = Call()
        c.span = span
        c.atys = t[5]
        c.rty = t[6]
        c.local = False
        if f[0] == 'fn':
            c.name, c.res, c.tys = f[1], f[2] or f[1], f[3]
            c.local = f[4]
        else:
            fv = self.operand(st, f)
            c.name = c.res = 'indirect'
            c.tys = []
            c.args = [self.operand(st, a) for a in t[2]]
            root, p = self.place(st, t[3])
            c.dest, c.target = self.ptr(root, p) if root[0] == 'L' or p else self.ptr(root, p), t[4]
            c.site = None
            c.caller = st.frames[-1][0]
            return self.outcomes(st, c, self.apply(st, fv, c.args))
        c.args = [self.operand(st, a) for a in t[2]]
        for a, ty in zip(t[2], t[5]):
            if a[0] == 'fn':
                self.fns[a[2] or a[1]] = (a[1], a[3], ty)
        c.caller = st.frames[-1][0]
        root, p = self.place(st, t[3])
        c.dest, c.target = self.ptr(root, p), t[4]
        c.site = None
        self.callsites.add((c.caller, st.frames[-1][1]))
        import models
        r = self.rule.on_call(self, st, c)
        if r is not None:
            return self.outcomes(st, c, r)
        r = models.model(self, st, c)
        if r is not None:
            return self.outcomes(st, c, r)
        # interpreted local function
        for nm in (c.res, c.name):
            if nm in self.p.bodies:
                if self.rule.opaque.search(nm):
                    break
                b = self.p.body(nm)
                if len(st.frames) < self.max_depth and self.stack(st).count(nm) < 2 and not b.tainted:
                    self._push(st, nm, c.args, c.dest, c.target, ())
                    return [st]
                break
        return self.outcomes(st, c, self.opaque_call(st, c))

    def vals(self, st, c):
        if c.vals is None:
            c.vals = [self.deep(st, self.deref(st, a)) for a in c.args]
        return c.vals

    def opaque_call(self, st, c, name=None):
        """uninterpreted: fresh result, &mut arguments and captured memory become unknown"""
        vals = self.vals(st, c)
        name = name or c.res
        s = self.fresh_site(st)
        r = self.fresh(st, mk('call', name, s, *vals))
        if c.rty in INTTY:
            TYPES.setdefault(r, c.rty)
        if c.rty == '()' or c.rty == '!':
            rv = UNIT
        else:
            rv = r
        clos = []
        for i, (a, ty) in enumerate(zip(c.args, c.atys)):
            if ty.startswith('&mut ') or re.match(r"&'\S+ mut ", ty) or 'Pin<&mut' in ty[:40]:
                if a.op == 'ptr' or a.op in ('sym', 'fld', 'call', 'item', 'phi', 'upd', 'join', 'guard', 'await', 'stale', 'inner', 'agg', 'mut'):
                    root, p = self.target(a)
                    old = self.load(st, root, p)
                    ln = length(self.deep(st, old)) if re.search(r'&(\S+ )?mut \[', ty) else None
                    nv = mk('mut', name, s, i) if ln is None else mk('mut', name, s, i, ln)
                    nv = self.fresh(st, nv)
                    if root[0] != 'L':
                        self.rule.on_write(self, st, root, p, nv, c.span)
                    self.store(st, root, p, nv)
            v = self.deref(st, a)
            if v.op == 'agg' and v.a[0].startswith('closure:'):
                clos.append(v)
        outs = [(st, rv)]
        if clos:
            # the callee may run each closure it is given
            s0 = st.copy()
            outs = [(s0, rv)]
            for v in clos:
                p = v.a[0][8:]
                b = self.p.body(p)
                if b is None or len(st.frames) >= self.max_depth or self.stack(st).count(p) >= 2:
                    continue
                s1 = st.copy()
                args = []
                for i in range(2, b.argc + 1):
                    x = mk('item', r, Int(i - 2))
                    if b.locals[i][0] in INTTY:
                        TYPES.setdefault(x, b.locals[i][0])
                    args.append(self.fresh(s1, x))
                outs.append((s1, ('inline', p, [v] + args, (('const', rv),))))
        for s2, _ in outs:
            self.rule.on_result(self, s2, c, rv)
        return outs

    def outcomes(self, st, c, res):
        outs = []
        for s, v in res:
            if isinstance(v, T):
                if c.rty in INTTY and v.op not in ('int', 'lin', 'agg'):
                    TYPES.setdefault(v, c.rty)
                outs += self.finish(s, v, (), c.dest, c.target)
            elif v[0] == 'inline':
                self._push(s, v[1], v[2], c.dest, c.target, tuple(v[3]))
                outs.append(s)
            elif v[0] == 'dead':
                pass
        return outs

    def panic(self, st, kind, span):
        self.rule.on_panic(self, st, kind, span)

    # ------------------------------------------------------------ loops and merging
    def loophead(self, st, body, bb):
        depth = len(st.frames) - 1
        key = (depth, bb)
        lp = body.loops[bb]
        isback = st.prev in lp
        live = body.live[bb]
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == depth and k[2] not in live]:
            del st.mem[k]
        if not isback or key not in st.heads:
            self.rule.on_loop(self, st, depth, bb)
            st.heads[key] = {k: (v,) for k, v in st.mem.items()}
            st.heads[key]['#'] = (st.nf, 0)
            return
        snap = st.heads[key]
        nf, n = snap['#']
        if nf == st.nf and n < 70:
            # the iteration was decided by constants alone: follow it instead of widening
            st.heads[key] = {k: (v,) for k, v in st.mem.items()}
            st.heads[key]['#'] = (nf, n + 1)
            st.heads[key]['peel'] = snap.get('peel', 0)
            return
        sid = (self.site(st), bb)
        self.rule.on_back(self, st, depth, bb)
        peeled = snap.get('peel', 0)
        if peeled < self.rule.peel(body, bb):
            # the first iterations are followed one by one, the rest is widened
            st.heads[key] = {k: (v,) for k, v in st.mem.items()}
            st.heads[key]['#'] = (st.nf, 0)
            st.heads[key]['peel'] = peeled + 1
            return
        redefine = {}
        phis = set()
        newsnap = dict(snap)
        newsnap['#'] = (st.nf, 99)
        for k, v in list(st.mem.items()):
            seen = snap.get(k)
            if seen is None:
                if k[0] == 'L' and k[1] == depth:
                    newsnap[k] = (v,)
                    continue
                seen = ()
                if k[0] == 'S':
                    seen = (k[1],)
            if v in seen:
                continue
            g, ns = self.generalize(seen, v, sid, k, phis)
            newsnap[k] = ns
            if g is not v:
                redefine[k] = g
        if phis:
            # facts about the redefined loop variables belong to the previous iteration
            self.stale(st, phis)
            # snapshots of everything else keep their own terms
        for k, g in redefine.items():
            st.mem[k] = g
        st.heads[key] = newsnap

    def generalize(self, seen, v, sid, k, phis, path=()):
        """least value covering v and one of the seen ones"""
        def phi(p, olds=()):
            x = mk('phi', sid[0], sid[1], k, p)
            ls = {length(o) for o in olds}
            if len(ls) == 1:
                ln, = ls
                if ln.op != 'len' and not (leaves(ln) & {x}):
                    x = mk('phi', sid[0], sid[1], k, p, ln)
            if not p and k[0] == 'L':
                t = self.p.body(self.cur).locals[k[2]][0] if k[1] == self.curdepth else None
                if t in INTTY:
                    TYPES.setdefault(x, t)
            for o in olds:
                if TYPES.get(o) in INTTY:
                    TYPES.setdefault(x, TYPES[o])
            if p and p[-1] == 'pos' and k[0] == 'L':
                TYPES.setdefault(x, 'usize')
            phis.add(x)
            return x
        if is_const(v) and len(seen) < 6 and all(is_const(x) or x.op == 'agg' for x in seen):
            return v, seen + (v,)
        if v.op == 'agg':
            for i, x in enumerate(seen):
                if x.op == 'agg' and x.a[0] == v.a[0] and x.a[1] == v.a[1] and [n for n, _ in x.a[3]] == [n for n, _ in v.a[3]]:
                    fs = []
                    for (n, a), (_, b) in zip(x.a[3], v.a[3]):
                        if a is b:
                            fs.append((n, a))
                        else:
                            g, _ = self.generalize((a,), b, sid, k, phis, path + (n,)) if not is_const(b) or a.op == 'agg' else (phi(path + (n,), (a, b)), ())
                            fs.append((n, g))
                    g = mk('agg', v.a[0], v.a[1], v.a[2], tuple(fs))
                    return g, seen[:i] + (g,) + seen[i + 1:]
            if len(seen) < 6 and all(x.op in ('agg', 'int') for x in seen) and not v.a[0].startswith('[]'):
                return v, seen + (v,)
        if v.op == 'upd':
            for i, x in enumerate(seen):
                b1, b2 = x, v
                w1, w2 = upds(x), upds(v)
                if base(x) is base(v) and all(kk[0] == 'f' for kk in list(w1) + list(w2)):
                    g = base(v)
                    for kk in sorted(set(w1) | set(w2)):
                        a = w1.get(kk, project(base(x), kk))
                        b = w2.get(kk, project(base(v), kk))
                        if a is not b:
                            a = phi(path + kk, (a, b))
                        g = update(g, kk, a)
                    return g, seen[:i] + (g,) + seen[i + 1:]
        g = phi(path, seen + (v,))
        if g in seen:
            return g, seen
        return g, (g,)

    def gc(self, st, body, bb):
        depth = len(st.frames) - 1
        live = body.live[bb]
        for k in [k for k, v in st.mem.items() if (k[0] == 'L' and k[1] == depth and k[2] not in live) or v is MOVED]:
            del st.mem[k]
        # reachable values
        alive = set()
        for k, v in st.mem.items():
            alive |= leaves(v)
            if k[0] == 'S':
                alive |= leaves(k[1])
        for d in (st.facts, st.excl):
            for f in list(d):
                if self.rule.pin(f):
                    continue
                if self.rule.drop(f):
                    del d[f]
                    continue
                for x in leaves(f):
                    if x.op != 'sym' and x not in alive:
                        del d[f]
                        break

    def joinv(self, a, b, site, k, ty, path=()):
        """least value covering a and b: structures are joined part by part"""
        if a is b:
            return a
        if a.op == 'agg' and b.op == 'agg' and a.a[:3] == b.a[:3] and [n for n, _ in a.a[3]] == [n for n, _ in b.a[3]]:
            return mk('agg', *a.a[:3], tuple((n, self.joinv(x, y, site, k, None, path + (n,))) for (n, x), (_, y) in zip(a.a[3], b.a[3])))
        if base(a) is base(b) and (a.op == 'upd' or b.op == 'upd'):
            w1, w2 = upds(a), upds(b)
            if all(kk[0] == 'f' for kk in list(w1) + list(w2)):
                g = base(a)
                for kk in sorted(set(w1) | set(w2)):
                    g = update(g, kk, self.joinv(w1.get(kk, project(base(a), kk)), w2.get(kk, project(base(b), kk)), site, k, None, path + kk))
                return g
        x = mk('join', site, k, path) if path else mk('join', site, k)
        if length(a) is length(b) and length(a).op != 'len':
            x = mk('join', site, k, path, length(a))
        for o in (a, b):
            if TYPES.get(o) in INTTY:
                TYPES.setdefault(x, TYPES[o])
        if ty in INTTY:
            TYPES.setdefault(x, ty)
        if path and path[-1] == 'pos':
            TYPES.setdefault(x, 'usize')
        return x

    def outcome(self, st, body, bb):
        """the known truth of the condition block bb branches on: paths that will part again at once are kept apart"""
        t = body.blocks[bb]['t']
        if t[0] == 'switch' and t[1][0] in ('copy', 'move') and not t[1][1][1]:
            v = st.mem.get(('L', len(st.frames) - 1, t[1][1][0]))
            if v is TRUE or v is FALSE:
                return v
        return None

    def merge(self, st, body, bb):
        self.gc(st, body, bb)
        fk = st.frames
        key = (fk, st.ps, frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.excl.items()))
        h = key
        if h in self.visited:
            return None
        self.visited[h] = True
        g = (fk, st.ps, self.rule.partition(st), self.outcome(st, body, bb))
        n = self.groups.get(g, 0) + 1
        self.groups[g] = n
        if n > self.join_limit:
            self.njoin += 1
            j = self.joined.get(g)
            if j is None:
                self.joined[g] = st.copy()
                return st
            changed = False
            m = {}
            sid = ('join', self.site(st))
            for k in set(j.mem) & set(st.mem):
                a, b = j.mem[k], st.mem[k]
                if a is not b:
                    x = self.joinv(a, b, sid[1], k, body.locals[k[2]][0] if k[0] == 'L' and k[1] == len(fk) - 1 else None)
                    if a is not x:
                        changed = True
                    m[k] = x
                else:
                    m[k] = a
            fs = {}
            for f, v in j.facts.items():
                if st.facts.get(f) is v and not any(x.op == 'join' for x in leaves(f)):
                    fs[f] = v
                else:
                    changed = True
            ex = {}
            for f, v in j.excl.items():
                w = st.excl.get(f)
                if w is None:
                    changed = True
                    continue
                x = v & w
                if x != v:
                    changed = True
                if x:
                    ex[f] = x
            if not changed:
                return None
            st.mem, st.facts, st.excl = m, fs, ex
            self.joined[g] = st.copy()
        return st


def is_bool(t):
    return t.op in ('lt0', 'eq0', 'eq', 'not', 'and', 'starts_with', 'ovf', 'cmp', 'pred') or TYPES.get(t) == 'bool'


def base(t):
    while t.op == 'upd':
        t = t.a[0]
    return t


def upds(t):
    r = {}
    while t.op == 'upd':
        r.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return r


_hp = {}


def has_ptr(t):
    r = _hp.get(t)
    if r is None:
        r = t.op == 'ptr' or any(has_ptr(k) for k in kids(t))
        _hp[t] = r
    return r


_sz = {}


def term_size(t):
    r = _sz.get(t)
    if r is None:
        r = 1
        for k in kids(t):
            r += term_size(k)
            if r > 10000:
                break
        _sz[t] = r
    return r


def subkey(k, fn):
    if k[0] == 'f':
        return k
    return tuple(subst(x, fn, {}) if isinstance(x, T) else x for x in k)
