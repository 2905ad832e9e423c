"""Models of containers and lazy iterators.

Sequences (Vec, VecDeque, slices) are values with integer-indexed elements; a reference to an element is a place in
the sequence.  Maps are values `m`, with `mapget(m, k)` the optional value under a key and `mapupd(m, k, v)` an update.
Iterator adaptors are kept lazily; an arbitrary number of skipped elements is an unknown position."""
import re
import engine
from terms import *
from models import (m, rx, contd, dv, pure, item_of, known_len, step3, known_consume, iter_consume, with_closures, MODELS,
                    old_of, extend as seq_extend)

SEQ = r'(alloc::collections::vec_deque::VecDeque|alloc::vec::Vec)::<.*>::'
MAP = r'(hashbrown::map::HashMap|std::collections::hash::map::HashMap|dashmap::DashMap|alloc::collections::btree::map::BTreeMap)::<.*>::'
SET = r'(hashbrown::set::HashSet|std::collections::hash::set::HashSet|alloc::collections::btree::set::BTreeSet)::<.*>::'
EMPTY = mk('static', '{}')


def place(E, st, a):
    """the place of the container behind a reference (through guards and nested references)"""
    root, p = E.target(a)
    v = E.load(st, root, p)
    n = 0
    while n < 6 and (v.op == 'ptr' or (v.op == 'agg' and v.a[0] == 'guard') or (('S', v) in st.mem and root != ('S', v))):
        root, p = E.target(v)
        v = E.load(st, root, p)
        n += 1
    return root, p, v


def put(E, st, c, root, p, v):
    if root[0] != 'L':
        E.rule.on_write(E, st, root, p, v, c.span)
    E.store(st, root, p, v)


def grown(E, st, v, *parts):
    nv = cat(v, *parts)
    if engine.term_size(nv) > 300:
        nv = E.fresh(st, mk('mut', 'push', E.site(st), 0))
    return nv


# ---------------------------------------------------------------- sequences

@rx('^' + SEQ + r'(push_back|push|push_front)$')
def push(E, st, c):
    root, p, v = place(E, st, c.args[0])
    x = array([c.args[1]])
    front = c.name.endswith('front')
    put(E, st, c, root, p, grown(E, st, x, v) if front else grown(E, st, v, x))
    return UNIT


@rx('^' + SEQ + r'(pop_front|pop_back|pop)$')
def pop(E, st, c):
    root, p, v = place(E, st, c.args[0])
    n = length(E.deep(st, v))
    outs = []
    for val in (True, False):
        s = st.copy()
        if not E.assume(s, lt(Int(0), n), val):
            continue
        if not val:
            outs.append((s, NONE))
        elif c.name.endswith('front'):
            put(E, s, c, root, p, project(v, ('s', Int(1), None)))
            outs.append((s, Some(project(v, ('i', Int(0))))))
        else:
            k = sub(n, Int(1))
            put(E, s, c, root, p, project(v, ('s', Int(0), k)))
            outs.append((s, Some(project(v, ('i', k)))))
    return outs


@rx('^' + SEQ + r'(front|back|front_mut|back_mut|get|get_mut)$')
def seqget(E, st, c):
    root, p, v = place(E, st, c.args[0])
    n = length(E.deep(st, v))
    k = c.name.rsplit('::', 1)[1]
    if k.startswith('get'):
        if c.atys[1] != 'usize':
            return None
        i = c.args[1]
    else:
        i = Int(0) if k.startswith('front') else sub(n, Int(1))
    if i.op not in ('int', 'lin'):
        TYPES.setdefault(i, 'usize')
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, lt(i, n), val) and (not val or k != 'back' or E.assume(s, lt(Int(0), n), True)):
            outs.append((s, Some(E.ptr(root, E._idx(p, i))) if val else NONE))
    return outs


@rx('^' + SEQ + r'(swap_remove|remove|swap_remove_back|swap_remove_front)$')
def seqremove(E, st, c):
    root, p, v = place(E, st, c.args[0])
    k = c.name.rsplit('::', 1)[1]
    n = length(E.deep(st, v))
    i = c.args[1]
    if i.op not in ('int', 'lin'):
        TYPES.setdefault(i, 'usize')
    opt = 'VecDeque' in c.name
    x = project(v, ('i', i))
    if k == 'swap_remove' or k == 'swap_remove_back':
        last = sub(n, Int(1))
        nv = project(update(v, ('i', i), project(v, ('i', last))), ('s', Int(0), last))
    elif k == 'remove':
        nv = cat(project(v, ('s', Int(0), i)), project(v, ('s', add(i, Int(1)), None)))
    else:
        return None
    if not opt:
        E.oblige(st, lt(i, n), 'index bounds', c.span)
        if not E.assume(st, lt(i, n), True):
            return []
        put(E, st, c, root, p, nv)
        return x
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, lt(i, n), val):
            if val:
                put(E, s, c, root, p, nv)
            outs.append((s, Some(x) if val else NONE))
    return outs


@rx('^' + SEQ + r'clear$')
def seqclear(E, st, c):
    root, p, v = place(E, st, c.args[0])
    put(E, st, c, root, p, Lit(b''))
    return UNIT


@rx('^' + SEQ + r'(new|with_capacity)$')
def seqnew(E, st, c):
    return Lit(b'')


@rx('^' + SEQ + r'(shrink_to|shrink_to_fit|reserve|reserve_exact|capacity|make_contiguous|as_mut_slices|as_slices)$')
def seqcap(E, st, c):
    k = c.name.rsplit('::', 1)[1]
    if k == 'capacity':
        r = pure('capacity', dv(E, st, c), ty='usize')
        return r
    if k == 'make_contiguous':
        return c.args[0]
    if 'slices' in k:
        return None
    return UNIT


@rx('^' + SEQ + r'(iter|iter_mut)$')
def seqiter(E, st, c):
    return agg('iter', 0, 'seq', (('src', c.args[0]), ('pos', Int(0))))


@rx(r'^' + SEQ + r'(extend|append)$')
def seqext(E, st, c):
    root, p, v = place(E, st, c.args[0])
    x = dv(E, st, c, 1)
    put(E, st, c, root, p, grown(E, st, v, x))
    if c.name.endswith('append'):
        r2, p2, v2 = place(E, st, c.args[1])
        put(E, st, c, r2, p2, Lit(b''))
    return UNIT


# ---------------------------------------------------------------- maps

def mapget(E, st, mp, k):
    """the optional value under k"""
    x = mp
    while True:
        if x is EMPTY:
            return NONE
        if x.op != 'mapupd':
            break
        if x.a[1] is k:
            return x.a[2]
        if E.decide(st, E.eqv(x.a[1], k)) is not False:
            break
        x = x.a[0]
    r = mk('pure', 'mapget', x, k)
    discr(r, 2)
    return r


def key(E, st, c, i=1):
    return E.deep(st, E.deref(st, c.args[i]))


def has(o):
    return eq0(sub(discr(o, 2), Int(1)))


@rx('^' + MAP + r'(get|get_mut|get_key_value|contains_key)$')
def mget(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    root, p, v = place(E, st, c.args[0])
    k = key(E, st, c)
    o = mapget(E, st, E.deep(st, v), k)
    if n == 'contains_key':
        return has(o)
    if n == 'get_key_value':
        return E.on_option_fork(st, o, lambda s, x: [(s, Some(tup(k, x)))], lambda s: [(s, NONE)])
    if o.op == 'agg':
        # value written on this path: hand out its place
        if o is NONE:
            return NONE
        x = project(o, ('f', 'Some', '0'))
        if x.op == 'agg' and n == 'get_mut':
            h = ('H', E.site(st), 0, k)
            st.mem[h] = x
            return Some(mk('ptr', h, ()))
        return o
    return E.on_option_fork(st, o, lambda s, x: [(s, Some(x))], lambda s: [(s, NONE)])


@rx('^' + MAP + r'(insert|remove|remove_entry)$')
def minsert(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    root, p, v = place(E, st, c.args[0])
    k = key(E, st, c)
    mp = E.deep(st, v)
    o = mapget(E, st, mp, k)
    nv = mk('mapupd', mp, k, Some(c.args[2]) if n == 'insert' else NONE)
    if engine.term_size(nv) > 300:
        nv = E.fresh(st, mk('mut', 'insert', E.site(st), 0))
    put(E, st, c, root, p, nv)
    if n == 'remove' and 'DashMap' in c.name or n == 'remove_entry':
        return E.on_option_fork(st, o, lambda s, x: [(s, Some(tup(k, x)))], lambda s: [(s, NONE)])
    return o


@rx('^' + SET + r'(insert|remove|contains)$')
def sinsert(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    root, p, v = place(E, st, c.args[0])
    k = key(E, st, c)
    mp = E.deep(st, v)
    o = mapget(E, st, mp, k)
    if n == 'contains':
        return has(o)
    put(E, st, c, root, p, mk('mapupd', mp, k, Some(UNIT) if n == 'insert' else NONE))
    return neg(has(o)) if n == 'insert' else has(o)


@rx('^(' + MAP + '|' + SET + r')(new|with_capacity)$')
def mnew(E, st, c):
    return EMPTY


@rx('^(' + MAP + '|' + SET + r')clear$')
def mclear(E, st, c):
    root, p, v = place(E, st, c.args[0])
    put(E, st, c, root, p, EMPTY)
    return UNIT


@rx('^(' + MAP + '|' + SET + r')drain$')
def mdrain(E, st, c):
    root, p, v = place(E, st, c.args[0])
    old = E.deep(st, v)
    put(E, st, c, root, p, EMPTY)
    return agg('iter', 0, 'drain', (('src', mk('pure', 'drain', old)), ('pos', Int(0))))


@rx('^' + MAP + r'entry$')
def mentry(E, st, c):
    root, p, v = place(E, st, c.args[0])
    return agg('mapentry', 0, '', (('m', E.ptr(root, p)), ('k', key(E, st, c))))


@rx(r'Entry::<.*>::(or_insert|or_insert_with|or_default|or_insert_entry)$')
def orinsert(E, st, c):
    e = c.args[0]
    if not (e.op == 'agg' and e.a[0] == 'mapentry'):
        return None
    n = c.name.rsplit('::', 1)[1]
    root, p, v = place(E, st, project(e, ('f', '', 'm')))
    k = project(e, ('f', '', 'k'))
    mp = E.deep(st, v)
    o = mapget(E, st, mp, k)

    def fresh(s):
        if n == 'or_insert':
            return E.run_conts(s, c.args[1], (('@orins', root, p, mp, k, c),))
        if n == 'or_insert_with':
            return E.apply(s, c.args[1], [], (('@orins', root, p, mp, k, c),))
        import models
        v0 = models.default_of(E, re.sub(r'^&(\'\S+ )?mut ', '', c.rty))
        return E.run_conts(s, v0, (('@orins', root, p, mp, k, c),))
    return E.on_option_fork(st, o, lambda s, x: [(s, x)], fresh)


@contd('@orins')
def c_orins(E, st, v, c):
    _, root, p, mp, k, call = c
    put(E, st, call, root, p, mk('mapupd', mp, k, Some(v)))
    h = ('H', E.site(st), 0, k)
    st.mem[h] = v
    return [(st, mk('ptr', h, ()))]


@rx(r'dashmap::mapref::(one|multiple|entry)::\w+::<.*>::(value|value_mut|key|pair)$')
def dref(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    v = E.deref(st, c.args[0])
    if 'multiple' in c.name:
        # element of an iteration: (key, value)
        return project(v, ('f', '', '0' if n == 'key' else '1'))
    if n == 'key':
        return mk('pure', 'keyof', v)
    return v


# ---------------------------------------------------------------- lazy iterators

LAZY = 'iterlazy'


def isiter(v):
    return v.op == 'agg' and v.a[0].startswith('iter')


def lazy(kind, a, **f):
    return agg(LAZY, 0, kind, [('a', a)] + sorted(f.items()))


def havoc(E, st, it):
    """the iterator after an unknown number of further elements"""
    if it.op != 'agg':
        return it
    if it.a[0] == 'iter':
        pos = project(it, ('f', '', 'pos'))
        h = mk('call', 'skip', E.site(st), it)
        TYPES.setdefault(h, 'usize')
        h = E.fresh(st, h)
        E.assume(st, lt(h, pos), False)
        return update(it, ('f', '', 'pos'), h)
    for k in ('a', 'b'):
        if any(n == k for n, _ in it.a[3]):
            it = update(it, ('f', '', k), havoc(E, st, project(it, ('f', '', k))))
    return it


def nexts(E, st, it, conts):
    """outcomes of next(): conts receive (option, advanced iterator)"""
    if it.op == 'ptr':
        it = E.deref(st, it)
    if it.op == 'agg' and it.a[0] == LAZY:
        kind = it.a[2]
        a = project(it, ('f', '', 'a'))
        if kind in ('filter', 'filter_map', 'skip_while', 'rev', 'position'):
            a = havoc(E, st, a)
        if kind == 'take':
            n = project(it, ('f', '', 'n'))
            outs = []
            for val in (True, False):
                s = st.copy()
                if E.assume(s, lt(Int(0), n), val):
                    if val:
                        nit = update(it, ('f', '', 'n'), sub(n, Int(1)))
                        outs += nexts(E, s, a, (('@lz', nit),) + tuple(conts))
                    else:
                        outs += E.run_conts(s, tup(NONE, it), conts)
            return outs
        return nexts(E, st, a, (('@lz', it),) + tuple(conts))
    if it.op == 'agg' and it.a[0] == 'iter3':
        if known_len(E, st, it) == 0:
            return E.run_conts(st, tup(NONE, it), conts)
        return step3(E, st, it, (('@somepair',),) + tuple(conts))
    r = item_of(E, st, it)
    if r is None:
        o = E.fresh(st, mk('call', 'next', E.site(st), it))
        discr(o, 2)
        return E.on_option_fork(st, o, lambda s, x: E.run_conts(s, tup(Some(x), it), conts),
                                lambda s: E.run_conts(s, tup(NONE, it), conts))
    cond, x, nit = r
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, cond, val):
            outs += E.run_conts(s, tup(Some(x), nit) if val else tup(NONE, it), conts)
    return outs


@contd('@somepair')
def c_somepair(E, st, v, c):
    return [(st, tup(Some(v.a[3][0][1]), v.a[3][1][1]))]


@contd('@lz')
def c_lz(E, st, v, c):
    it = c[1]
    o, na = v.a[3][0][1], v.a[3][1][1]
    kind = it.a[2]
    nit = update(it, ('f', '', 'a'), na)
    if o is NONE:
        if kind == 'chain':
            return nexts(E, st, project(it, ('f', '', 'b')), ())
        return [(st, tup(NONE, nit))]
    x = project(o, ('f', 'Some', '0'))
    f = project(it, ('f', '', 'f'))
    if kind in ('map', 'filter', 'filter_map', 'take_while', 'inspect', 'map_while', 'position'):
        return E.apply(st, f, [x], (('@lz2', kind, x, nit),))
    if kind == 'enumerate':
        n = project(it, ('f', '', 'n'))
        return [(st, tup(Some(tup(n, x)), update(nit, ('f', '', 'n'), add(n, Int(1)))))]
    if kind == 'zip':
        return nexts(E, st, project(it, ('f', '', 'b')), (('@lzzip', x, nit),))
    return [(st, tup(Some(x), nit))]


@contd('@lzzip')
def c_lzzip(E, st, v, c):
    _, x, nit = c
    o, nb = v.a[3][0][1], v.a[3][1][1]
    nit = update(nit, ('f', '', 'b'), nb)
    if o is NONE:
        return [(st, tup(NONE, nit))]
    return [(st, tup(Some(tup(x, project(o, ('f', 'Some', '0')))), nit))]


@contd('@lz2')
def c_lz2(E, st, v, c):
    _, kind, x, nit = c
    if kind == 'map':
        return [(st, tup(Some(v), nit))]
    if kind == 'inspect':
        return [(st, tup(Some(x), nit))]
    if kind in ('filter_map', 'map_while'):
        return E.on_option_fork(st, v, lambda s, y: [(s, tup(Some(y), nit))],
                                lambda s: [(s, tup(NONE, nit))] if kind == 'map_while' else [])
    outs = []
    s = st.copy()
    if E.assume(s, v, True):
        if kind == 'position':
            a = project(nit, ('f', '', 'a'))
            i = sub(project(a, ('f', '', 'pos')), Int(1)) if a.op == 'agg' and a.a[0] == 'iter' else E.fresh(s, mk('call', 'position', E.site(s)))
            outs.append((s, tup(Some(i), nit)))
        else:
            outs.append((s, tup(Some(x), nit)))
    if kind == 'take_while' and E.assume(st, v, False):
        outs.append((st, tup(NONE, nit)))
    return outs


@contd('@lznext')
def c_lznext(E, st, v, c):
    E.store(st, c[1], c[2], v.a[3][1][1])
    return [(st, v.a[3][0][1])]


@contd('@fst')
def c_fst(E, st, v, c):
    return [(st, v.a[3][0][1])]


@contd('@found')
def c_found(E, st, v, c):
    o = v.a[3][0][1]
    return [(st, (TRUE if o is not NONE else FALSE) if c[1] == 'any' else (FALSE if o is not NONE else TRUE))]


@contd('@consumed')
def c_consumed(E, st, v, c):
    _, r, f, acc = c
    o = v.a[3][0][1]
    if o is NONE:
        return []
    x = project(o, ('f', 'Some', '0'))
    if f is None:
        g = getattr(E.rule, 'on_element', None)
        if g:
            g(E, st, x, None)
        return [(st, r)]
    return E.apply(st, f, ([acc] if acc is not None else []) + [x], (('const', r),))


_next0 = MODELS['core::iter::traits::iterator::Iterator::next']


@m('core::iter::traits::iterator::Iterator::next')
def lnext(E, st, c):
    root, p = E.target(c.args[0])
    it = E.load(st, root, p)
    if it.op == 'ptr':
        root, p = it.a
        it = E.load(st, root, p)
    if it.op == 'agg' and it.a[0] == LAZY:
        return nexts(E, st, it, (('@lznext', root, p),))
    return _next0(E, st, c)


ADAPT = ('filter', 'filter_map', 'take', 'skip', 'rev', 'chain', 'take_while', 'skip_while', 'inspect', 'map_while', 'map', 'enumerate', 'zip')


def adapt(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    a = c.args[0]
    if a.op == 'ptr':
        a = E.deref(st, a)
    if not isiter(a):
        return 0
    if n == 'map':
        k = known_len(E, st, a)
        if k is not None and k <= 64:
            return 0
    if n in ('enumerate', 'zip') and a.a[0] == 'iter':
        return 0
    if n == 'skip':
        if a.a[0] == 'iter':
            return update(a, ('f', '', 'pos'), add(project(a, ('f', '', 'pos')), c.args[1]))
        return lazy('skip_while', a)
    if n == 'take':
        k = c.args[1]
        if k.op not in ('int', 'lin'):
            TYPES.setdefault(k, 'usize')
        return lazy(n, a, n=k)
    if n == 'rev':
        return lazy(n, a)
    if n == 'enumerate':
        return lazy(n, a, n=Int(0))
    if n in ('chain', 'zip'):
        b = c.args[1]
        if not isiter(b):
            b = agg('iter', 0, 'seq', (('src', b), ('pos', Int(0))))
        return lazy(n, a, b=b)
    return lazy(n, a, f=c.args[1])


@rx(r'^core::iter::traits::iterator::Iterator::(map|filter|take|skip|rev|chain|take_while|filter_map|skip_while|inspect|map_while|enumerate|zip)$')
def iter_adapt2(E, st, c):
    import models
    r = adapt(E, st, c)
    if isinstance(r, T):
        return r
    n = c.name.rsplit('::', 1)[1]
    return models.iter_zip(E, st, c) if n in ('enumerate', 'zip') else models.iter_adapt(E, st, c)


def zip_in(it):
    """the zip of two sequences from their start inside a chain of maps"""
    while it.op == 'agg' and it.a[0] == LAZY and it.a[2] == 'map':
        it = project(it, ('f', '', 'a'))
    if it.op != 'agg' or it.a[0] not in ('iter2', LAZY) or it.a[2] != 'zip':
        return None
    ab = [project(it, ('f', '', k)) for k in 'ab']
    return ab if all(x.op == 'agg' and x.a[0] == 'iter' and x.a[2] == 'seq' and project(x, ('f', '', 'pos')) is Int(0) for x in ab) else None


def at(it, i):
    for k in 'ab':
        if it.op == 'agg' and any(n == k for n, _ in it.a[3]):
            it = update(it, ('f', '', k), at(project(it, ('f', '', k)), i))
    return update(it, ('f', '', 'pos'), i) if it.a[0] == 'iter' else it


def pairwise(E, st, c, n, it, ab):
    """any/all/fold over pairs that compares them one by one: the comparison of the whole, when the lengths are known to be equal"""
    vals = []
    for x in ab:
        root, p = E.target(project(x, ('f', '', 'src')))
        v = E.load(st, root, p)
        if v.op == 'ptr':
            v = E.load(st, *v.a)
        vals.append(E.deep(st, v))
    if E.decide(st, eq0(sub(length(vals[0]), length(vals[1])))) is not True:
        return None
    i = mk('call', 'pair', E.site(st), 0)
    acc = mk('call', 'pairacc', E.site(st), 0)
    TYPES.setdefault(i, 'usize')
    TYPES.setdefault(acc, 'u8')
    s = st.copy()
    i, acc = E.fresh(s, i), E.fresh(s, acc)
    E.assume(s, lt(i, length(vals[0])), True)
    f = c.args[2] if n == 'fold' else c.args[1]
    return nexts(E, s, at(it, i), (('@pair1', n, f, acc), ('@pair2', n, st, tuple(vals), i, acc, c)))


@contd('@pair1')
def c_pair1(E, st, v, c):
    o = v.a[3][0][1]
    if o is NONE:
        return []
    x = project(o, ('f', 'Some', '0'))
    return E.apply(st, c[2], [c[3], x] if c[1] == 'fold' else [x])


@contd('@pair2')
def c_pair2(E, st, v, c):
    _, n, st0, (a, b), i, acc, call = c
    x, y = project(a, ('i', i)), project(b, ('i', i))
    for t in (x, y):
        TYPES.setdefault(t, 'u8')
    same = eq(x, y, True)
    forms = {'all': (same, eq(x, y)), 'any': (neg(same), neg(eq(x, y))), 'fold': (E.bits('BitOr', acc, E.bits('BitXor', x, y, 'u8'), 'u8'),)}[n]
    st0 = st0.copy()
    if v not in forms or n == 'fold' and call.args[1] is not Int(0):
        return iter_consume2(E, st0, call, True) or [(st0, E.fresh(st0, mk('call', n, E.site(st0), a, b)))]
    outs = []
    for val in (True, False):
        s = st0.copy()
        if E.assume(s, E.eqv(a, b), val):
            r = TRUE if val == (n == 'all') else FALSE
            if n == 'fold':
                r = Int(0)
                if not val:
                    r = mk('pure', 'pairdiff', a, b)
                    TYPES.setdefault(r, 'u8')
                    E.assume(s, eq0(r), False)
            outs.append((s, r))
    return outs


@rx(r'^core::iter::traits::iterator::Iterator::(any|all|find|position|find_map|collect|for_each|fold|count|sum|last|max|min|min_by_key|max_by_key|nth)$')
def iter_consume2(E, st, c, plain=False):
    n = c.name.rsplit('::', 1)[1]
    a = c.args[0]
    ptr = None
    it = a
    if a.op == 'ptr':
        ptr = a
        it = E.deref(st, a)
    if not isiter(it):
        return iter_consume(E, st, c)
    k = known_len(E, st, it)
    if k is not None and k <= 64 and n in ('collect', 'fold', 'for_each', 'any', 'all'):
        return known_consume(E, st, c)
    if n in ('any', 'all', 'fold') and not plain:
        ab = zip_in(it)
        outs = pairwise(E, st, c, n, it, ab) if ab else None
        if outs is not None:
            return outs
    if n in ('find', 'find_map', 'position', 'any', 'all'):
        f = c.args[1]
        if ptr is not None:
            root, p = E.target(ptr)
            E.store(st, root, p, havoc(E, st.copy(), it))
        if n == 'find':
            return nexts(E, st, lazy('filter', it, f=f), (('@fst',),))
        if n == 'find_map':
            return nexts(E, st, lazy('filter_map', it, f=f), (('@fst',),))
        if n == 'position':
            return nexts(E, st, lazy('position', it, f=f), (('@fst',),))
        if n == 'any':
            return nexts(E, st, lazy('filter', it, f=f), (('@found', 'any'),))
        return nexts(E, st, lazy('filter', it, f=agg('notfn', 0, '', (('0', f),))), (('@found', 'all'),))
    if it.a[0] != LAZY and len(c.args) < 2:
        return iter_consume(E, st, c)
    vals = [E.deep(st, E.deref(st, x)) for x in c.args]
    r = mk('pure', 'iter_' + n, *vals)
    if c.rty in engine.INTTY:
        TYPES.setdefault(r, c.rty)
    outs = [(st.copy(), r)]
    f, acc = None, None
    if n in ('for_each', 'min_by_key', 'max_by_key'):
        f = c.args[1]
    if n == 'fold':
        f, acc = c.args[2], c.args[1]
    outs += nexts(E, st, havoc(E, st, it), (('@consumed', r, f, acc),))
    return outs


@rx(r'^' + SEQ + r'(retain|retain_mut)$')
def seqretain(E, st, c):
    """the closure runs on an arbitrary element; what it rejects is an event the rules can see"""
    root, p, v = place(E, st, c.args[0])
    h = mk('call', 'retained', E.site(st), v)
    TYPES.setdefault(h, 'usize')
    h = E.fresh(st, h)
    s1 = st.copy()
    nv = E.fresh(s1, mk('mut', 'retain', E.site(s1), 0))
    outs = []
    if E.assume(st, lt(h, length(E.deep(st, v))), True):
        outs += E.apply(st, c.args[1], [E.ptr(root, E._idx(p, h))], (('@retained', root, p, nv, E._idx(p, h), c),))
    E.store(s1, root, p, nv)
    outs.append((s1, UNIT))
    return outs


@contd('@retained')
def c_retained(E, st, v, c):
    _, root, p, nv, pe, call = c
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, v, val):
            if not val:
                f = getattr(E.rule, 'on_reject', None)
                if f:
                    f(E, s, root, p, E.load(s, root, pe), call)
            E.store(s, root, p, nv)
            outs.append((s, UNIT))
    return outs


_into0 = MODELS['core::iter::traits::collect::IntoIterator::into_iter']


@m('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(E, st, c):
    if c.tys and re.search(r'^(&(\'\S+ )?(mut )?)?(hashbrown|std::collections::hash|alloc::collections::btree)::(map|set)\S*::(HashMap|HashSet|BTreeMap|BTreeSet)<', c.tys[0]):
        v = dv(E, st, c)
        return agg('iter', 0, 'iter', (('src', mk('pure', 'iter', v)), ('pos', Int(0))))
    return _into0(E, st, c)


import models
for _n in ('zip', 'enumerate'):
    MODELS.pop('core::iter::traits::iterator::Iterator::' + _n, None)
for _n in ('new', 'with_capacity'):
    MODELS.pop('alloc::vec::Vec::<T>::' + _n, None)
_own = [x for x in models.RX if x[1].__module__ == 'coll']
models.RX[:] = _own + [x for x in models.RX if x[1].__module__ != 'coll']


def elements(v):
    """elements of a sequence of known length, or None"""
    out = []
    for x in (v.a if v.op == 'cat' else (v,)):
        if x.op == 'lit' and not x.a[0]:
            continue
        if x.op == 'agg' and x.a[0] == '[]':
            out += [y for _, y in x.a[3]]
        else:
            return None
    return out


@rx(r'^(core::slice::<impl \[T\]>|alloc::collections::vec_deque::VecDeque::<T, A>)::contains$')
def seq_contains(E, st, c):
    root, p, v = place(E, st, c.args[0])
    x = dv(E, st, c, 1)
    v = E.deep(st, v)
    es = elements(v)
    if es is None or len(es) > 4:
        r = mk('pure', 'seqhas', v, x)
        TYPES.setdefault(r, 'bool')
        return r
    outs = []
    for e in es:
        t = eq(e, x)
        d = E.decide(st, t)
        if d is True:
            outs.append((st, TRUE))
            return outs
        if d is None:
            s = st.copy()
            if E.assume(s, t, True):
                outs.append((s, TRUE))
            if not E.assume(st, t, False):
                return outs
    outs.append((st, FALSE))
    return outs
