"""Hash-consed symbolic values and their normal forms.

A value is erased of its reference/owner wrappers: `&T`, `&&T`, `Arc<T>`, `Box<T>`, `String`/`&str`/bytes of
the same contents are one value.  Integers are linear combinations over atoms."""

_tab = {}
_cnt = 0


class T:
    __slots__ = ('op', 'a', 'id', '_leaf')

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._leaf = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        return (_remk, (self.op, self.a))


def _remk(op, a):
    return mk(op, *a)


def mk(op, *a):
    global _cnt
    k = (op, a)
    r = _tab.get(k)
    if r is None:
        _cnt += 1
        r = T(op, a, _cnt)
        _tab[k] = r
    return r


TYPES = {}          # atom -> integer type name
NVARIANTS = {}      # term -> number of variants of its enum type
DISCR = {}          # (adt, variant index) -> discriminant value
VARNAMES = {}       # term -> list of variant names


def Int(n):
    return mk('int', n)


TRUE, FALSE = mk('int', 1), mk('int', 0)
UNIT = mk('agg', '()', 0, '', ())
MOVED = mk('moved')
UNDEF = mk('undef')


def Lit(b):
    if isinstance(b, str):
        b = b.encode('utf8', 'surrogateescape')
    return mk('lit', bytes(b))


def sym(n):
    return mk('sym', n)


def agg(adt, vi=0, vn='', fields=()):
    return mk('agg', adt, vi, vn, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
NONE = agg(OPT, 0, 'None')


def Some(x):
    return agg(OPT, 1, 'Some', (('0', x),))


def Ok(x):
    return agg(RES, 0, 'Ok', (('0', x),))


def Err(x):
    return agg(RES, 1, 'Err', (('0', x),))


def Ready(x):
    return agg(POLL, 0, 'Ready', (('0', x),))


def tup(*xs):
    return agg('()', 0, '', tuple((str(i), x) for i, x in enumerate(xs)))


def array(xs):
    return agg('[]', 0, '', tuple((str(i), x) for i, x in enumerate(xs)))


# ---------------------------------------------------------------- subterms

def kids(t):
    for x in t.a:
        yield from _kids(x)


def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _kids(y)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for k in kids(t):
        yield from walk(k, seen)


LEAFOPS = ('sym', 'call', 'item', 'phi', 'mut', 'await', 'undef', 'stale', 'join', 'poll')


def leaves(t):
    """ids of identity-bearing subterms (calls, symbols, loop variables), including itself"""
    if t._leaf is not None:
        return t._leaf
    s = set()
    if t.op in LEAFOPS:
        s.add(t)
    for k in kids(t):
        s |= leaves(k)
    t._leaf = frozenset(s)
    return t._leaf


def subst(t, fn, memo):
    """rebuilds t with fn(sub) (None = keep) applied top-down"""
    if t in memo:
        return memo[t]
    r = fn(t)
    if r is None:
        if t.op in ('int', 'lit', 'sym', 'moved', 'undef'):
            r = t
        else:
            changed = False

            def go(x):
                nonlocal changed
                if isinstance(x, T):
                    y = subst(x, fn, memo)
                    if y is not x:
                        changed = True
                    return y
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return x
            na = tuple(go(x) for x in t.a)
            if not changed:
                r = t
            elif t.op == 'lin':
                r = Int(t.a[0])
                for at, c in na[1]:
                    r = add(r, mulc(at, c))
            else:
                r = mk(t.op, *na)
    memo[t] = r
    return r


# ---------------------------------------------------------------- integers

def lin_of(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, s=1):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return from_lin(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, c):
    c1, d1 = lin_of(a)
    return from_lin(c1 * c, {k: v * c for k, v in d1.items()})


from math import gcd


def _norm(t, eq):
    """canonical form of t<0 / t==0: gcd reduced; for eq the sign of the first atom is positive"""
    c, d = lin_of(t)
    if not d:
        return t
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if eq:
        if c % g:
            return Int(1)
        items = sorted(d.items(), key=lambda kv: kv[0].id)
        s = 1 if items[0][1] > 0 else -1
        return from_lin(s * c // g, {k: s * v // g for k, v in d.items()})
    # sum + c < 0  <=>  sum/g < -c/g  <=> sum/g <= ceil(-c/g)-1 <=> sum/g - ceil(-c/g) < 0
    q = -c
    ceil = -((-q) // g)
    return from_lin(-ceil, {k: v // g for k, v in d.items()})


def lt0(t):
    t = _norm(t, False)
    if t.op == 'int':
        return TRUE if t.a[0] < 0 else FALSE
    return mk('lt0', t)


def eq0(t):
    t = _norm(t, True)
    if t.op == 'int':
        return TRUE if t.a[0] == 0 else FALSE
    return mk('eq0', t)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), Int(-1)))


def neg(b):
    if b.op == 'int':
        return FALSE if b.a[0] else TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'lt0':      # not(x<0) = -x-1 < 0
        return lt0(add(mulc(b.a[0], -1), Int(-1)))
    return mk('not', b)


CONSTOPS = ('int', 'lit', 'static')


def is_const(t):
    if t.op in CONSTOPS:
        return True
    if t.op == 'agg':
        return all(is_const(v) for _, v in t.a[3])
    return False


def intlike(t):
    return t.op in ('int', 'lin') or t in TYPES


def eq(a, b, ints=False):
    if a is b:
        if 'stale' in (x.op for x in leaves(a)):
            return mk('eq', a, b)
        return TRUE
    if ints or (a.op in ('int', 'lin') or b.op in ('int', 'lin')):
        return eq0(sub(a, b))
    if a.op == 'lit' and b.op == 'lit':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            if len(a.a[3]) == len(b.a[3]):
                r = None
                for (n, x), (m, y) in zip(a.a[3], b.a[3]):
                    e = eq(x, y)
                    r = e if r is None else band(r, e)
                return TRUE if r is None else r
    # literal byte arrays against literals
    la, lb = as_lit(a), as_lit(b)
    if la is not None and lb is not None:
        return TRUE if la == lb else FALSE
    if la is not None:
        a, b, la, lb = b, a, lb, la
    if lb is not None:
        b = Lit(lb)
        # prefix test: x[..n] == lit(n)
        if a.op == 'fld' and a.a[1][0] == 's' and a.a[1][1] is Int(0) and a.a[1][2] is not None \
                and a.a[1][2] is Int(len(lb)):
            return starts_with(a.a[0], b)
        if len(lb) == 0:
            return eq0(length(a))
        return mk('eq', a, b)
    # Option/Result variants without payload
    for x, y in ((a, b), (b, a)):
        if y.op == 'agg' and not y.a[3] and x.op != 'agg' and y.a[2]:
            return eq0(sub(discr(x), discr(y)))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def as_lit(t):
    if t.op == 'lit':
        return t.a[0]
    if t.op == 'agg' and t.a[0] == '[]' and t.a[3] and \
            all(v.op == 'int' and 0 <= v.a[0] < 256 for _, v in t.a[3]):
        return bytes(v.a[0] for _, v in t.a[3])
    if t.op == 'repeat' and t.a[0].op == 'int' and isinstance(t.a[1], int) and 0 <= t.a[0].a[0] < 256 and t.a[1] < 64:
        return bytes([t.a[0].a[0]]) * t.a[1]
    return None


def starts_with(x, p):
    lp = as_lit(p)
    if lp is not None:
        if lp == b'':
            return TRUE
        lx = as_lit(x)
        if lx is not None:
            return TRUE if lx.startswith(lp) else FALSE
        p = Lit(lp)
    return mk('starts_with', x, p)


def length(x):
    if x.op == 'old':
        return length(x.a[0])
    if x.op == 'lit':
        return Int(len(x.a[0]))
    if x.op == 'static' and x.a[0] == '{}':
        return Int(0)
    if x.op == 'agg' and x.a[0] == '[]':
        return Int(len(x.a[3]))
    if x.op == 'repeat':
        return Int(x.a[1]) if isinstance(x.a[1], int) else x.a[1] if isinstance(x.a[1], T) else mk('len', x)
    if x.op == 'fld' and x.a[1][0] == 's':
        lo, hi = x.a[1][1], x.a[1][2]
        if hi is None:
            hi = length(x.a[0])
        return sub(hi, lo)
    if x.op == 'upd':
        if x.a[1][0] in ('i', 's'):
            return length(x.a[0])
    if x.op == 'cat':
        r = Int(0)
        for p in x.a:
            r = add(r, length(p))
        return r
    if x.op == 'mut' and len(x.a) > 3:
        return x.a[3]
    if x.op == 'phi' and len(x.a) > 4:
        return x.a[4]
    if x.op == 'join' and len(x.a) > 3:
        return x.a[3]
    if x.op == 'stale' and x.a[0].op in ('mut', 'phi', 'join') and length(x.a[0]).op == 'int':
        return length(x.a[0])
    if x.op == 'pure' and x.a[0] == 'pbkdf2':
        return x.a[5]
    if x.op == 'pure' and x.a[0] in ('hmac', 'digest') and 'SHA256' in repr(x.a[1]):
        return Int(32)
    r = mk('len', x)
    TYPES.setdefault(r, 'usize')
    return r


def band(a, b):
    if a.op == 'int':
        return b if a.a[0] else FALSE
    if b.op == 'int':
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk('and', a, b)


def bor(a, b):
    return neg(band(neg(a), neg(b)))


def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat':
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        l = as_lit(p)
        if l is not None:
            if l == b'':
                continue
            if res and res[-1].op == 'lit':
                res[-1] = Lit(res[-1].a[0] + l)
            else:
                res.append(Lit(l))
        else:
            res.append(p)
    if not res:
        return Lit(b'')
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


def discr(x, nv=None, names=None):
    if x.op == 'old':
        x = x.a[0]
    if x.op == 'agg':
        return Int(DISCR.get((x.a[0], x.a[1]), x.a[1]))
    if x.op == 'pure' and x.a[0] == 'qosof':
        x, nv = x.a[1], 3
        if x.op == 'agg':
            return Int(x.a[1])
    r = mk('discr', x)
    if nv:
        NVARIANTS.setdefault(r, nv)
    if names:
        VARNAMES.setdefault(r, names)
    return r


# ---------------------------------------------------------------- projections

def _rng_disjoint(k1, k2):
    """both ('i',x) or ('s',lo,hi): provably disjoint by constant differences"""
    def span(k):
        if k[0] == 'i':
            return k[1], add(k[1], Int(1))
        return k[1], k[2]
    a, b = span(k1)
    c, d = span(k2)
    if b is not None:
        x = sub(c, b)
        if x.op == 'int' and x.a[0] >= 0:
            return True
    if d is not None:
        x = sub(a, d)
        if x.op == 'int' and x.a[0] >= 0:
            return True
    return False


def _contains(k1, k2):
    """range k1 contains k2 (k1 is a slice)"""
    if k1[0] != 's':
        return False
    lo = k2[1]
    x = sub(lo, k1[1])
    if not (x.op == 'int' and x.a[0] >= 0):
        # lower bound zero contains anything non-negative
        if not (k1[1] is Int(0)):
            return False
    if k1[2] is None:
        return True
    hi = add(k2[1], Int(1)) if k2[0] == 'i' else k2[2]
    if hi is None:
        return False
    y = sub(k1[2], hi)
    return y.op == 'int' and y.a[0] >= 0


def project(v, key):
    op = v.op
    if op == 'old':
        return project(v.a[0], key)
    k0 = key[0]
    if op == 'agg':
        if k0 == 'f':
            for n, x in v.a[3]:
                if n == key[2]:
                    if key[1] and v.a[2] and key[1] != v.a[2]:
                        return UNDEF
                    return x
            return UNDEF if v.a[3] or v.a[0] != '()' else mk('fld', v, key)
        if v.a[0] == '[]':
            if k0 == 'i' and key[1].op == 'int' and 0 <= key[1].a[0] < len(v.a[3]):
                return v.a[3][key[1].a[0]][1]
            if k0 == 's' and key[1].op == 'int' and (key[2] is None or key[2].op == 'int'):
                hi = len(v.a[3]) if key[2] is None else key[2].a[0]
                if 0 <= key[1].a[0] <= hi <= len(v.a[3]):
                    return array([x for _, x in v.a[3][key[1].a[0]:hi]])
        return mk('fld', v, key)
    if op == 'upd':
        base, k, val = v.a
        if k == key:
            return val
        if k0 == 'f' or k[0] == 'f':
            if k0 == k[0]:
                if k[2] == key[2] and (k[1] == key[1]):
                    return val
                return project(base, key)
            return mk('fld', v, key)
        if _rng_disjoint(k, key):
            return project(base, key)
        if _contains(k, key):
            if k0 == 'i':
                return project(val, ('i', sub(key[1], k[1])))
            return project(val, ('s', sub(key[1], k[1]), None if key[2] is None else sub(key[2], k[1])))
        return mk('fld', v, key)
    if k0 == 's' and key[1] is Int(0):
        n = length(v)
        if key[2] is None or key[2] is n:
            return v
    if op == 'lit':
        if k0 == 'i' and key[1].op == 'int' and 0 <= key[1].a[0] < len(v.a[0]):
            return Int(v.a[0][key[1].a[0]])
        if k0 == 's' and key[1].op == 'int' and (key[2] is None or key[2].op == 'int'):
            hi = len(v.a[0]) if key[2] is None else key[2].a[0]
            if 0 <= key[1].a[0] <= hi <= len(v.a[0]):
                return Lit(v.a[0][key[1].a[0]:hi])
    if op == 'repeat':
        if k0 == 'i':
            return v.a[0]
        if k0 == 's' and key[2] is not None:
            n = sub(key[2], key[1])
            return mk('repeat', v.a[0], n.a[0] if n.op == 'int' else n)
    if op == 'fld' and v.a[1][0] == 's':
        lo, hi = v.a[1][1], v.a[1][2]
        if k0 == 'i':
            return project(v.a[0], ('i', add(lo, key[1])))
        if k0 == 's':
            return project(v.a[0], ('s', add(lo, key[1]), hi if key[2] is None else add(lo, key[2])))
    return mk('fld', v, key)


def update(v, key, val):
    if v.op == 'agg' and key[0] == 'f':
        fs = list(v.a[3])
        for i, (n, x) in enumerate(fs):
            if n == key[2]:
                if x is val:
                    return v
                fs[i] = (n, val)
                return mk('agg', v.a[0], v.a[1], v.a[2], tuple(fs))
        return mk('agg', v.a[0], v.a[1], v.a[2], tuple(fs + [(key[2], val)]))
    if v.op == 'agg' and v.a[0] == '[]' and key[0] == 'i' and key[1].op == 'int' and 0 <= key[1].a[0] < len(v.a[3]):
        fs = list(v.a[3])
        fs[key[1].a[0]] = (fs[key[1].a[0]][0], val)
        return mk('agg', v.a[0], v.a[1], v.a[2], tuple(fs))
    if v.op == 'repeat' and isinstance(v.a[1], int) and v.a[1] <= 64 and key[0] == 'i' and key[1].op == 'int':
        return update(array([v.a[0]] * v.a[1]), key, val)
    if key[0] == 's' and key[1] is Int(0) and (key[2] is None or key[2] is length(v)):
        return val
    if v.op == 'upd':
        if v.a[1] == key:
            return mk('upd', v.a[0], key, val)
        # commute independent field updates into one canonical order
        if v.a[1][0] == 'f' and key[0] == 'f' and key[1:] < v.a[1][1:]:
            return mk('upd', update(v.a[0], key, val), v.a[1], v.a[2])
    return mk('upd', v, key, val)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 9:
        return '…'
    d = depth + 1
    s = lambda x: show(x, d) if isinstance(x, T) else (x if isinstance(x, str) else repr(x))
    o = t.op
    if o == 'old':
        return s(t.a[0])
    if o == 'int':
        return str(t.a[0])
    if o == 'lit':
        return repr(t.a[0])[1:]
    if o == 'sym':
        return t.a[0]
    if o == 'agg':
        n = t.a[0].split('::')[-1]
        if t.a[2] and t.a[2] != n:
            n += '::' + t.a[2]
        return n + ('(' + ', '.join((k + '=' if not k.isdigit() else '') + s(v) for k, v in t.a[3]) + ')' if t.a[3] else '')
    if o == 'lin':
        r = ' + '.join((('%d*' % c) if c != 1 else '') + s(x) for x, c in t.a[1])
        return '(' + r + (' + %d' % t.a[0] if t.a[0] else '') + ')'
    if o == 'fld':
        return s(t.a[0]) + showkey(t.a[1], d)
    if o == 'upd':
        return s(t.a[0]) + '{' + showkey(t.a[1], d) + ':=' + s(t.a[2]) + '}'
    if o == 'lt0':
        return s(t.a[0]) + '<0'
    if o == 'eq0':
        return s(t.a[0]) + '==0'
    if o == 'eq':
        return '(' + s(t.a[0]) + ' == ' + s(t.a[1]) + ')'
    if o == 'not':
        return '!' + s(t.a[0])
    if o == 'call':
        return t.a[0].split('::')[-1] + '(' + ', '.join(s(x) for x in t.a[2:]) + ')'
    if o == 'ptr':
        return '&' + repr(t.a[0][:3] if t.a[0][0] == 'L' else t.a[0]) + ''.join(showkey(k, d) for k in t.a[1])
    return o + '(' + ', '.join(s(x) for x in t.a) + ')'


def showkey(k, d=0):
    if k[0] == 'f':
        return '.' + (k[1] + '.' if k[1] else '') + k[2]
    if k[0] == 'i':
        return '[' + show(k[1], d) + ']'
    return '[' + show(k[1], d) + '..' + ('' if k[2] is None else show(k[2], d)) + ']'


def fld(t, *names):
    for n in names:
        v = ''
        for p in n.split('.'):
            if p[0].isupper():
                v = p
            else:
                t = project(t, ('f', v, p))
                v = ''
    return t
