"""Models of std and third-party functions used by the code under analysis."""
import re
from terms import *
import engine
import lindom

BRANCH = {}
MODELS = {}
RX = []


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def rx(pat):
    def deco(f):
        RX.append((re.compile(pat), f))
        return f
    return deco


_cache = {}


def lookup(name):
    f = _cache.get(name, 0)
    if f == 0:
        f = MODELS.get(name)
        if f is None:
            for r, g in RX:
                if r.search(name):
                    f = g
                    break
        _cache[name] = f
    return f


def model(E, st, c):
    if c.name.startswith('log::') or c.name.startswith('<log::'):
        return log(E, st, c)
    f = lookup(c.name)
    if f is None and c.res != c.name and c.res not in E.p.bodies:
        f = lookup(c.res)
    if f is None:
        return never(E, st, c)
    r = f(E, st, c)
    if r is None:
        return never(E, st, c)
    if isinstance(r, T):
        return [(st, r)]
    return r


def never(E, st, c):
    if c.target is None and c.name not in E.p.bodies:
        E.panic(st, c.name, c.span)
        return []
    return None


def pure(name, *a, ty=None, bool_=False):
    r = mk('pure', name, *a)
    if ty:
        TYPES.setdefault(r, ty)
    if bool_:
        TYPES.setdefault(r, 'bool')
    return r


def dv(E, st, c, i=0):
    """value behind argument i, embedded local pointers resolved"""
    return E.deep(st, E.deref(st, c.args[i]))


# ---------------------------------------------------------------- logging: disabled unless the rule wants it

def log(E, st, c):
    if c.name == 'log::max_level':
        return [(st, mk('static', 'log::max_level'))]
    if c.rty == '()':
        return [(st, UNIT)]
    return [(st, mk('static', c.name))]


# ---------------------------------------------------------------- identities

IDENTITY = '''core::str::<impl str>::as_bytes
alloc::string::String::as_bytes
alloc::string::String::as_str
alloc::string::String::as_mut_str
alloc::vec::Vec::<T, A>::as_slice
alloc::vec::Vec::<T, A>::as_mut_slice
core::convert::AsRef::as_ref
core::convert::AsMut::as_mut
core::borrow::Borrow::borrow
core::borrow::BorrowMut::borrow_mut
core::pin::Pin::<Ptr>::new
core::pin::Pin::<Ptr>::new_unchecked
core::pin::Pin::<Ptr>::as_mut
core::pin::Pin::<Ptr>::as_ref
core::pin::Pin::<&'a mut T>::get_mut
core::pin::Pin::<&'a mut T>::get_unchecked_mut
core::pin::Pin::<&'a T>::get_ref
core::pin::Pin::<Ptr>::into_inner
core::hint::must_use
core::hint::black_box
core::convert::identity
core::future::into_future::IntoFuture::into_future
alloc::slice::<impl [T]>::into_vec
alloc::boxed::Box::<T>::new
alloc::boxed::Box::<T>::pin
alloc::rcs::arc::Arc::<T>::new
alloc::sync::Arc::<T>::new
alloc::string::String::into_bytes
alloc::string::String::into_boxed_str
alloc::vec::Vec::<T, A>::into_boxed_slice
core::array::<impl [T; N]>::as_slice
core::array::<impl [T; N]>::as_mut_slice
core::num::nonzero::NonZero::<T>::get
core::num::nonzero::NonZero::<T>::new_unchecked'''.split('\n')


def nz(ty):
    m_ = re.fullmatch(r'core::num::nonzero::NonZero<(\w+)>', ty or '')
    return m_.group(1) if m_ else ty


@m(*IDENTITY)
def ident(E, st, c):
    return c.args[0]


CONTS = {}


def contd(n):
    def deco(f):
        CONTS[n] = f
        return f
    return deco


@m('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'bytes::bytes::Bytes::copy_from_slice',
   'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'alloc::borrow::Cow::<\'_, B>::into_owned',
   'core::option::Option::<T>::as_deref', 'core::option::Option::<T>::as_ref', 'core::result::Result::<T, E>::as_ref')
def value_copy(E, st, c):
    if c.res in E.p.bodies and 'Clone' not in c.name and not c.res.endswith('::clone'):
        return None
    if c.name.endswith('::as_ref') or c.name.endswith('::as_deref'):
        root, p = E.target(c.args[0])
        v = E.load(st, root, p)
        if v.op == 'ptr':
            root, p = v.a
            v = E.load(st, root, p)
        if v.op == 'agg':
            if not v.a[3]:
                return v
            # payload stays in place: a reference to it
            key = ('f', v.a[2], '0')
            inner = project(v, key)
            if inner.op in ('agg', 'upd'):
                return agg(v.a[0], v.a[1], v.a[2], (('0', E.ptr(root, p + (key,))),))
            return v
        return v
    v = E.deref(st, c.args[0])
    return v


@m('core::convert::From::from', 'core::convert::Into::into')
def conv(E, st, c):
    if c.name.endswith('Into::into') and len(c.tys) == 2:
        # find a local From impl
        for p in local_from(E, c.tys[0], c.tys[1]):
            if not E.rule.opaque.search(p):
                return [(st, ('inline', p, c.args, ()))]
    if c.res in E.p.bodies:
        return None
    v = c.args[0]
    to = c.tys[0] if c.name.endswith('From::from') and c.tys else (c.tys[1] if len(c.tys) > 1 else '')
    if to in engine.INTTY:
        frm = c.atys[0]
        return E.cast(v, frm, to)
    if 'Ipv4Addr' in to or 'Ipv6Addr' in to:
        return pure('addr', E.deep(st, E.deref(st, v)))
    if engine.tyhead(to) == 'core::option::Option' and engine.tyhead(c.atys[0]) != 'core::option::Option':
        return Some(v)
    return E.deref(st, v) if c.atys and c.atys[0].startswith('&') and not to.startswith('&') else v


_lf = {}


def local_from(E, frm, to):
    k = (frm, to)
    if k not in _lf:
        r = []
        for tr, sty, ms in E.p.impls:
            if tr == 'core::convert::From' and sty == to:
                for x in ms:
                    if x.endswith('::from') and x in E.p.bodies and E.p.bodies[x]['locals'][1][0] == frm:
                        r.append(x)
        _lf[k] = r
    return _lf[k]


@m('alloc::string::ToString::to_string')
def to_string(E, st, c):
    if engine.tyhead(c.tys[0]) in ('str', 'alloc::string::String', 'char') or 'str' == c.tys[0].lstrip('&'):
        return E.deref(st, c.args[0])
    return fmtval(dv(E, st, c)) if engine.tyhead(c.tys[0]) in engine.INTTY else pure('to_string', dv(E, st, c))


@m('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(E, st, c):
    if c.res in E.p.bodies:
        return None
    ty = c.tys[0] if c.tys else ''
    h = engine.tyhead(ty)
    if re.match(r'alloc::(string::String|vec::Vec|borrow::Cow)$', h) or h in ('std::path::PathBuf', 'bytes::bytes::Bytes'):
        return c.args[0]
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    r, q = E.target(v)
    return E.ptr(r, q)


# ---------------------------------------------------------------- locks and shared maps

@m('lock_api::rwlock::RwLock::<R, T>::read', 'lock_api::rwlock::RwLock::<R, T>::write', 'lock_api::mutex::Mutex::<R, T>::lock',
   'std::sync::poison::mutex::Mutex::<T>::lock', 'tokio::sync::mutex::Mutex::<T>::lock')
def lock(E, st, c):
    v = E.deref(st, c.args[0])
    return agg('guard', 0, '', (('0', mk('inner', v)), ('kind', Lit(c.name.rsplit('::', 1)[1]))))


@m('lock_api::rwlock::RwLock::<R, T>::new', 'lock_api::mutex::Mutex::<R, T>::new', 'core::sync::atomic::Atomic::<u64>::new')
def lock_new(E, st, c):
    return c.args[0]


# ---------------------------------------------------------------- ? operator

@m('core::ops::try_trait::Try::branch')
def try_branch(E, st, c):
    v = c.args[0]
    h = engine.tyhead(c.tys[0])
    if h == RES:
        return E.on_result_fork(st, v, lambda s, x: [(s, agg(CF, 0, 'Continue', (('0', x),)))],
                                lambda s, e: [(s, agg(CF, 1, 'Break', (('0', Err(e)),)))])
    if h == OPT:
        return E.on_option_fork(st, v, lambda s, x: [(s, agg(CF, 0, 'Continue', (('0', x),)))],
                                lambda s: [(s, agg(CF, 1, 'Break', (('0', NONE),)))])
    if h == POLL:
        # Poll<Result<..>>
        d = E.discr(v, POLL)
        if d.op == 'discr':
            NVARIANTS.setdefault(d, 2)
        outs = []
        cst = E.value(st, d)
        if cst is None or cst is Int(1):
            s = st.copy()
            if cst is not None or E.assume_val(s, d, Int(1)):
                outs.append((s, agg(CF, 0, 'Continue', (('0', agg(POLL, 1, 'Pending')),))))
        if cst is None or cst is Int(0):
            s = st
            if cst is not None or E.assume_val(s, d, Int(0)):
                x = project(v, ('f', 'Ready', '0'))
                outs += E.on_result_fork(s, x, lambda s, y: [(s, agg(CF, 0, 'Continue', (('0', Ready(y)),)))],
                                         lambda s, e: [(s, agg(CF, 1, 'Break', (('0', Err(e)),)))])
        return outs
    return None


@m('core::ops::try_trait::FromResidual::from_residual')
def from_residual(E, st, c):
    v = c.args[0]
    to = c.rty
    frm = c.atys[0]
    if engine.tyhead(to) == RES and v.op == 'agg' and v.a[2] == 'Err':
        e = v.a[3][0][1]
        te = second_arg(to)
        fe = second_arg(frm)
        if te and fe and te != fe:
            for p in local_from(E, fe, te):
                if not E.rule.opaque.search(p):
                    return [(st, ('inline', p, [e], (('wrap', 'Err'),)))]
        return v
    if engine.tyhead(to) == POLL and v.op == 'agg' and v.a[2] == 'Err':
        return Ready(v)
    return v


def split_args(t):
    i = t.find('<')
    if i < 0:
        return []
    s = t[i + 1:-1]
    out, d, cur = [], 0, ''
    for j, ch in enumerate(s):
        if ch in '<([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == '>' and (j == 0 or s[j - 1] != '-'):
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def second_arg(t):
    a = split_args(t)
    return a[1] if len(a) > 1 else None


# ---------------------------------------------------------------- Option / Result

def optval(E, st, v):
    return E.deref(st, v) if v.op == 'ptr' else v


@m('core::option::Option::<T>::is_some', 'core::option::Option::<T>::is_none', 'core::result::Result::<T, E>::is_ok',
   'core::result::Result::<T, E>::is_err', 'core::task::poll::Poll::<T>::is_ready', 'core::task::poll::Poll::<T>::is_pending')
def is_variant(E, st, c):
    v = E.deref(st, c.args[0])
    n = c.name.rsplit('::', 1)[1]
    adt, idx = {'is_some': (OPT, 1), 'is_none': (OPT, 0), 'is_ok': (RES, 0), 'is_err': (RES, 1), 'is_ready': (POLL, 0),
                'is_pending': (POLL, 1)}[n]
    d = E.discr(v, adt)
    if d.op == 'discr':
        NVARIANTS.setdefault(d, 2)
    return eq0(sub(d, Int(idx)))


@m('core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect', 'core::result::Result::<T, E>::unwrap',
   'core::result::Result::<T, E>::expect', 'core::result::Result::<T, E>::unwrap_err', 'core::result::Result::<T, E>::expect_err')
def unwrap(E, st, c):
    v = c.args[0]
    isres = 'Result' in c.name
    want_err = c.name.endswith('_err')
    adt = RES if isres else OPT
    d = E.discr(v, adt)
    if d.op == 'discr':
        NVARIANTS.setdefault(d, 2)
    good = (1 if want_err else 0) if isres else 1
    cond = eq0(sub(d, Int(good)))
    E.oblige(st, cond, c.name.rsplit('::', 1)[1], c.span)
    if not E.assume(st, cond, True):
        return []
    return project(v, ('f', ('Err' if want_err else 'Ok') if isres else 'Some', '0'))


@m('core::option::Option::<T>::unwrap_or', 'core::option::Option::<T>::unwrap_or_default', 'core::result::Result::<T, E>::unwrap_or',
   'core::result::Result::<T, E>::unwrap_or_default')
def unwrap_or(E, st, c):
    v = c.args[0]
    if len(c.args) > 1:
        alt = c.args[1]
    else:
        alt = default_of(E, c.rty)
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: [(s, x)], lambda s: [(s, alt)])
    return E.on_result_fork(st, v, lambda s, x: [(s, x)], lambda s, e: [(s, alt)])


def default_of(E, ty):
    h = engine.tyhead(ty)
    if ty in engine.INTTY:
        return Int(0)
    if h == OPT:
        return NONE
    if h in ('alloc::string::String', 'str', 'alloc::vec::Vec'):
        return Lit(b'')
    return pure('default', Lit(ty))


@m('core::default::Default::default')
def default(E, st, c):
    if c.res in E.p.bodies:
        return None
    return default_of(E, c.rty)


@m('core::option::Option::<T>::unwrap_or_else', 'core::result::Result::<T, E>::unwrap_or_else')
def unwrap_or_else(E, st, c):
    v, f = c.args
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: [(s, x)], lambda s: E.apply(s, f, []))
    return E.on_result_fork(st, v, lambda s, x: [(s, x)], lambda s, e: E.apply(s, f, [e]))


@m('core::option::Option::<T>::map', 'core::result::Result::<T, E>::map')
def omap(E, st, c):
    v, f = c.args
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: E.apply(s, f, [x], (('wrap', 'Some'),)), lambda s: [(s, NONE)])
    return E.on_result_fork(st, v, lambda s, x: E.apply(s, f, [x], (('wrap', 'Ok'),)), lambda s, e: [(s, Err(e))])


@m('core::result::Result::<T, E>::map_err')
def map_err(E, st, c):
    v, f = c.args
    return E.on_result_fork(st, v, lambda s, x: [(s, Ok(x))], lambda s, e: E.apply(s, f, [e], (('wrap', 'Err'),)))


@m('core::task::poll::Poll::<core::result::Result<T, E>>::map_err')
def poll_map_err(E, st, c):
    v, f = c.args
    d = E.discr(v, POLL)
    if d.op == 'discr':
        NVARIANTS.setdefault(d, 2)
    outs = []
    cst = E.value(st, d)
    if cst is None or cst is Int(1):
        s = st.copy()
        if cst is not None or E.assume_val(s, d, Int(1)):
            outs.append((s, agg(POLL, 1, 'Pending')))
    if cst is None or cst is Int(0):
        if cst is not None or E.assume_val(st, d, Int(0)):
            x = project(v, ('f', 'Ready', '0'))
            outs += E.on_result_fork(st, x, lambda s, y: [(s, Ready(Ok(y)))],
                                     lambda s, e: E.apply(s, f, [e], (('wrap', 'Err'), ('wrap', 'Ready'))))
    return outs


@m('core::option::Option::<T>::and_then', 'core::result::Result::<T, E>::and_then')
def and_then(E, st, c):
    v, f = c.args
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: E.apply(s, f, [x]), lambda s: [(s, NONE)])
    return E.on_result_fork(st, v, lambda s, x: E.apply(s, f, [x]), lambda s, e: [(s, Err(e))])


@m('core::option::Option::<T>::or_else', 'core::result::Result::<T, E>::or_else')
def or_else(E, st, c):
    v, f = c.args
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: [(s, Some(x))], lambda s: E.apply(s, f, []))
    return E.on_result_fork(st, v, lambda s, x: [(s, Ok(x))], lambda s, e: E.apply(s, f, [e]))


@m('core::option::Option::<T>::or')
def o_or(E, st, c):
    return E.on_option_fork(st, c.args[0], lambda s, x: [(s, Some(x))], lambda s: [(s, c.args[1])])


@m('core::option::Option::<T>::zip')
def o_zip(E, st, c):
    b = c.args[1]
    return E.on_option_fork(st, c.args[0], lambda s, x: E.on_option_fork(s, b, lambda s2, y: [(s2, Some(tup(x, y)))], lambda s2: [(s2, NONE)]), lambda s: [(s, NONE)])


@m('core::option::Option::<T>::and')
def o_and(E, st, c):
    return E.on_option_fork(st, c.args[0], lambda s, x: [(s, c.args[1])], lambda s: [(s, NONE)])


@m('core::option::Option::<T>::xor')
def o_xor(E, st, c):
    b = c.args[1]
    return E.on_option_fork(st, c.args[0], lambda s, x: E.on_option_fork(s, b, lambda s2, y: [(s2, NONE)], lambda s2: [(s2, Some(x))]), lambda s: [(s, b)])


@m('core::option::Option::<core::option::Option<T>>::flatten')
def o_flatten(E, st, c):
    return E.on_option_fork(st, c.args[0], lambda s, x: [(s, x)], lambda s: [(s, NONE)])


@m('core::option::Option::<T>::inspect', 'core::result::Result::<T, E>::inspect', 'core::result::Result::<T, E>::inspect_err')
def o_inspect(E, st, c):
    v, f = c.args
    if 'Option' in c.name:
        return E.on_option_fork(st, v, lambda s, x: E.apply(s, f, [x], (('const', Some(x)),)), lambda s: [(s, NONE)])
    if c.name.endswith('_err'):
        return E.on_result_fork(st, v, lambda s, x: [(s, Ok(x))], lambda s, e: E.apply(s, f, [e], (('const', Err(e)),)))
    return E.on_result_fork(st, v, lambda s, x: E.apply(s, f, [x], (('const', Ok(x)),)), lambda s, e: [(s, Err(e))])


@m('core::result::Result::<T, E>::and', 'core::result::Result::<T, E>::or')
def r_and(E, st, c):
    if c.name.endswith('and'):
        return E.on_result_fork(st, c.args[0], lambda s, x: [(s, c.args[1])], lambda s, e: [(s, Err(e))])
    return E.on_result_fork(st, c.args[0], lambda s, x: [(s, Ok(x))], lambda s, e: [(s, c.args[1])])


@m('core::result::Result::<T, E>::map_or_else', 'core::result::Result::<T, E>::is_err_and')
def r_map_or_else(E, st, c):
    if c.name.endswith('is_err_and'):
        return E.on_result_fork(st, c.args[0], lambda s, x: [(s, FALSE)], lambda s, e: E.apply(s, c.args[1], [e]))
    return E.on_result_fork(st, c.args[0], lambda s, x: E.apply(s, c.args[2], [x]), lambda s, e: E.apply(s, c.args[1], [e]))


@m('core::option::Option::<T>::ok_or', 'core::option::Option::<T>::ok_or_else')
def ok_or(E, st, c):
    v, f = c.args
    if c.name.endswith('else'):
        return E.on_option_fork(st, v, lambda s, x: [(s, Ok(x))], lambda s: E.apply(s, f, [], (('wrap', 'Err'),)))
    return E.on_option_fork(st, v, lambda s, x: [(s, Ok(x))], lambda s: [(s, Err(f))])


@m('core::result::Result::<T, E>::ok')
def r_ok(E, st, c):
    return E.on_result_fork(st, c.args[0], lambda s, x: [(s, Some(x))], lambda s, e: [(s, NONE)])


@m('core::result::Result::<T, E>::err')
def r_err(E, st, c):
    return E.on_result_fork(st, c.args[0], lambda s, x: [(s, NONE)], lambda s, e: [(s, Some(e))])


@m('core::option::Option::<T>::is_some_and', 'core::option::Option::<T>::is_none_or', 'core::result::Result::<T, E>::is_ok_and',
   'core::option::Option::<T>::map_or', 'core::option::Option::<T>::map_or_else', 'core::result::Result::<T, E>::map_or')
def some_and(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    v = c.args[0]
    fk = E.on_option_fork if 'Option' in c.name else None
    if n == 'is_some_and':
        return E.on_option_fork(st, v, lambda s, x: E.apply(s, c.args[1], [x]), lambda s: [(s, FALSE)])
    if n == 'is_none_or':
        return E.on_option_fork(st, v, lambda s, x: E.apply(s, c.args[1], [x]), lambda s: [(s, TRUE)])
    if n == 'is_ok_and':
        return E.on_result_fork(st, v, lambda s, x: E.apply(s, c.args[1], [x]), lambda s, e: [(s, FALSE)])
    if n == 'map_or':
        if fk:
            return E.on_option_fork(st, v, lambda s, x: E.apply(s, c.args[2], [x]), lambda s: [(s, c.args[1])])
        return E.on_result_fork(st, v, lambda s, x: E.apply(s, c.args[2], [x]), lambda s, e: [(s, c.args[1])])
    return E.on_option_fork(st, v, lambda s, x: E.apply(s, c.args[2], [x]), lambda s: E.apply(s, c.args[1], []))


@m('core::option::Option::<T>::filter')
def o_filter(E, st, c):
    v, f = c.args
    return E.on_option_fork(st, v, lambda s, x: E.apply(s, f, [x], (('bool_some', x),)), lambda s: [(s, NONE)])


@m('core::bool::<impl bool>::then_some', 'core::bool::<impl bool>::then')
def then_some(E, st, c):
    b, f = c.args
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, b, val):
            if not val:
                outs.append((s, NONE))
            elif c.name.endswith('some'):
                outs.append((s, Some(f)))
            else:
                outs += E.apply(s, f, [], (('wrap', 'Some'),))
    return outs


@m('core::option::Option::<core::result::Result<T, E>>::transpose')
def transpose(E, st, c):
    v = c.args[0]
    return E.on_option_fork(st, v,
                            lambda s, x: E.on_result_fork(s, x, lambda s2, y: [(s2, Ok(Some(y)))], lambda s2, e: [(s2, Err(e))]),
                            lambda s: [(s, Ok(NONE))])


@m('core::option::Option::<T>::take', 'core::mem::take', 'core::mem::replace', 'core::option::Option::<T>::replace')
def take(E, st, c):
    root, p = E.target(c.args[0])
    old = E.load(st, root, p)
    if c.name.endswith('mem::replace'):
        new = c.args[1]
    elif c.name.endswith('::replace'):
        new = Some(c.args[1])
    elif c.name.endswith('mem::take'):
        new = default_of(E, c.rty)
    else:
        new = NONE
    if root[0] != 'L':
        E.rule.on_write(E, st, root, p, new, c.span)
    E.store(st, root, p, new)
    return old_of(root, p, old)


def old_of(root, p, v):
    """the former contents of a place the analysis has no other name for"""
    return mk('old', v) if root[0] == 'S' and not p and v is root[1] else v


@m('core::mem::swap')
def swap(E, st, c):
    r1, p1 = E.target(c.args[0])
    r2, p2 = E.target(c.args[1])
    a, b = E.load(st, r1, p1), E.load(st, r2, p2)
    a, b = old_of(r1, p1, a), old_of(r2, p2, b)
    for (r, p, v) in ((r1, p1, b), (r2, p2, a)):
        if r[0] != 'L':
            E.rule.on_write(E, st, r, p, v, c.span)
        E.store(st, r, p, v)
    return UNIT


@m('core::mem::drop')
def mdrop(E, st, c):
    E.rule.on_drop(E, st, c.args[0], c.atys[0], c.span)
    return UNIT


@m('core::option::Option::<T>::as_mut', 'core::option::Option::<T>::as_deref_mut')
def as_mut(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    if v.op == 'ptr':
        root, p = v.a
        v = E.load(st, root, p)
    if v.op == 'agg' and not v.a[3]:
        return v
    return E.on_option_fork(st, v, lambda s, x: [(s, Some(E.ptr(root, p + (('f', 'Some', '0'),))))], lambda s: [(s, NONE)])


@m('core::option::Option::<T>::insert', 'core::option::Option::<T>::get_or_insert')
def o_insert(E, st, c):
    root, p = E.target(c.args[0])
    E.store(st, root, p, Some(c.args[1]))
    return E.ptr(root, p + (('f', 'Some', '0'),))


@m('core::option::Option::<T>::get_or_insert_with')
def o_insert_with(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    if v.op == 'ptr':
        root, p = v.a
        v = E.load(st, root, p)
    at = E.ptr(root, p + (('f', 'Some', '0'),))
    return E.on_option_fork(st, v, lambda s, x: [(s, at)], lambda s: E.apply(s, c.args[1], [], (('@setsome', root, p),)))


@contd('@setsome')
def c_setsome(E, st, v, c):
    _, root, p = c
    E.store(st, root, p, Some(v))
    return [(st, E.ptr(root, p + (('f', 'Some', '0'),)))]


# ---------------------------------------------------------------- comparisons

@m('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def peq(E, st, c):
    if c.res in E.p.bodies and c.name.endswith('eq'):
        return None
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    if 'log::' in c.tys[0]:
        return FALSE
    ty = c.tys[0].replace('&', '').strip()
    # derived impls of local types
    neg_ = c.name.endswith('ne')
    h = engine.tyhead(ty)
    if neg_:
        p = '<%s as core::cmp::PartialEq>::eq' % h
        if p in E.p.bodies:
            return [(st, ('inline', p, list(c.args), (('not',),)))]
    for x in (a, b):
        if ty in engine.INTTY and x.op not in ('int', 'lin'):
            TYPES.setdefault(x, ty)
    r = E.eqv(a, b, ty in engine.INTTY and ty != 'bool', ty)
    return neg(r) if neg_ else r


def unit_enum(E, ty):
    """A fieldless enum: its derived order is the order of its discriminants."""
    a = E.p.adts.get(ty)
    return bool(a) and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants'])


def rank(E, x, ty):
    d = E.discr(x, ty)
    if d.op == 'discr':
        ds = [int(v['discr']) for v in E.p.adts[ty]['variants']]
        key = 'enum %d..%d' % (min(ds), max(ds))
        lindom.RANGES.setdefault(key, (min(ds), max(ds)))
        TYPES.setdefault(d, key)
    return d


@m('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def pord(E, st, c):
    if c.tys and c.tys[0].startswith('log::'):
        return TRUE if E.rule.keep_logs else FALSE
    if c.res in E.p.bodies:
        return None
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    ty = c.tys[0].replace('&', '').strip()
    n = c.name.rsplit('::', 1)[1]
    if unit_enum(E, ty):
        a, b = rank(E, a, ty), rank(E, b, ty)
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[n]
    if ty in engine.INTTY:
        for x in (a, b):
            if x.op not in ('int', 'lin'):
                TYPES.setdefault(x, ty)
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[n]
    if n in ('gt', 'ge'):
        a, b = b, a
    return mk('cmp', 'lt' if n in ('lt', 'gt') else 'le', a, b)


@m('core::num::nonzero::NonZero::<T>::new')
def nonzero_new(E, st, c):
    a = c.args[0]
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, eq0(a), val):
            outs.append((s, NONE if val else Some(a)))
    return outs


@m('core::cmp::Ord::clamp')
def clamp(E, st, c):
    x, lo, hi = c.args
    if nz(c.rty) not in engine.INTTY:
        return None
    if x.op not in ('int', 'lin'):
        TYPES.setdefault(x, nz(c.rty))
    outs = []
    for val in (True, False):
        s = st.copy()
        if not E.assume(s, lt(x, lo), val):
            continue
        if val:
            outs.append((s, lo))
            continue
        for v2 in (True, False):
            s2 = s.copy()
            if E.assume(s2, lt(hi, x), v2):
                outs.append((s2, hi if v2 else x))
    return outs


@m('core::cmp::min', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::Ord::max')
def minmax(E, st, c):
    a, b = c.args
    n = c.name.rsplit('::', 1)[1]
    ints = nz(c.rty) in engine.INTTY
    if ints:
        for x in (a, b):
            if x.op not in ('int', 'lin'):
                TYPES.setdefault(x, nz(c.rty))
    if not ints and a.op in ('call', 'fld', 'sym', 'agg') or True:
        # decide by branching: the smaller one
        cond = (le(a, b) if ints else mk('cmp', 'le', a, b))
        if unit_enum(E, nz(c.rty)):
            cond = le(rank(E, a, nz(c.rty)), rank(E, b, nz(c.rty)))
        elif not ints and a.op == 'agg' and b.op == 'agg' and not a.a[3] and not b.a[3]:
            cond = TRUE if a.a[1] <= b.a[1] else FALSE
        outs = []
        for val in (True, False):
            s = st.copy()
            if E.assume(s, cond, val):
                outs.append((s, (a if val else b) if n == 'min' else (b if val else a)))
        return outs


@m('core::num::<impl u32>::saturating_sub', 'core::num::<impl usize>::saturating_sub', 'core::num::<impl u16>::saturating_sub',
   'core::num::<impl u8>::saturating_sub', 'core::num::<impl u64>::saturating_sub')
def sat_sub(E, st, c):
    a, b = c.args
    for x in (a, b):
        if x.op not in ('int', 'lin'):
            TYPES.setdefault(x, c.rty)
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, lt(a, b), val):
            outs.append((s, Int(0) if val else sub(a, b)))
    return outs


@rx(r'^core::num::<impl (u|i)\w+>::(saturating_add|wrapping_add|wrapping_sub|wrapping_mul|saturating_mul)$')
def wrap_arith(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    ty = nz(c.rty)
    if n == 'saturating_add' and ty in lindom.RANGES and ty[0] == 'u':
        a, b = c.args
        for x in (a, b):
            if x.op not in ('int', 'lin'):
                TYPES.setdefault(x, ty)
        hi = Int(lindom.RANGES[ty][1])
        outs = []
        for val in (True, False):
            s = st.copy()
            if E.assume(s, lt(hi, add(a, b)), val):
                outs.append((s, hi if val else add(a, b)))
        return outs
    r = mk('pure', n, Lit(c.rty), *c.args)
    TYPES.setdefault(r, c.rty)
    return r


@rx(r'^core::ops::range::Range(Inclusive|From|To|ToInclusive)?::<.*>::contains$')
def range_contains(E, st, c):
    v, x = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    if v.op != 'agg' or nz(str(c.tys[0]) if c.tys else '') not in engine.INTTY:
        return None
    d = dict(v.a[3])
    if x.op not in ('int', 'lin'):
        TYPES.setdefault(x, nz(str(c.tys[0])))
    inc = 'Inclusive' in c.name
    out, outs = st, []
    for k in ('start', 'end'):
        if k not in d:
            continue
        t = lt(x, d[k]) if k == 'start' else lt(d[k], x) if inc else le(d[k], x)
        s = out.copy()
        if E.assume(s, t, True):
            outs.append((s, FALSE))
        out = out.copy()
        if not E.assume(out, t, False):
            return outs
    return outs + [(out, TRUE)]


@rx(r'^core::num::<impl (u|i)\w+>::checked_(add|sub|mul)$')
def checked(E, st, c):
    ty = re.search(r'impl (\w+)', c.name).group(1)
    a, b = c.args
    n = c.name.rsplit('_', 1)[1]
    for x in (a, b):
        if x.op not in ('int', 'lin'):
            TYPES.setdefault(x, ty)
    if n == 'mul':
        r = mulc(b, a.a[0]) if a.op == 'int' else mulc(a, b.a[0]) if b.op == 'int' else mk('mul', *sorted((a, b)))
    else:
        r = add(a, b) if n == 'add' else sub(a, b)
    lo, hi = lindom.RANGES[ty]
    outs = []
    s = st.copy()
    if E.assume(s, lt(r, Int(lo)), False) and E.assume(s, lt(Int(hi), r), False):
        outs.append((s, Some(r)))
    if n == 'sub':
        if E.assume(st, lt(r, Int(lo)), True):
            outs.append((st, NONE))
    elif E.assume(st, lt(Int(hi), r), True):
        outs.append((st, NONE))
    return outs


@m('core::intrinsics::discriminant_value')
def discriminant_value(E, st, c):
    v = E.deref(st, c.args[0])
    return E.discr(v, engine.tyhead(c.tys[0]))


# ---------------------------------------------------------------- sequences and strings

@rx(r'(::len|::is_empty)$')
def seqlen(E, st, c):
    if len(c.args) != 1 or c.res in E.p.bodies:
        return None
    if re.search(r'DashMap|flume|Semaphore', c.name):
        return None
    v = dv(E, st, c)
    n = length(v)
    if c.name.endswith('is_empty'):
        return eq0(n)
    return n


@m('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
def startsw(E, st, c):
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    if b.op == 'agg' and b.a[0].startswith('closure'):
        return pure('starts_with_pred', a, b, bool_=True)
    if b.op == 'int':       # char pattern
        b = Lit(chr(b.a[0]))
    ty = c.atys[1] if len(c.atys) > 1 else ''
    if 'char' in ty and ('[' in ty):       # any of several chars
        if b.op == 'lit':
            r = None
            for x in b.a[0].decode('utf-8', 'replace'):
                y = starts_with(a, Lit(x))
                r = y if r is None else bor(r, y)
            return r if r is not None else FALSE
        return pure('starts_with_any', a, b, bool_=True)
    return starts_with(a, b)


@m('core::str::<impl str>::strip_prefix', 'core::slice::<impl [T]>::strip_prefix')
def strip_prefix(E, st, c):
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    if b.op == 'int':
        b = Lit(chr(b.a[0]))
    cond = starts_with(a, b)
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, cond, val):
            outs.append((s, Some(project(a, ('s', length(b), None))) if val else NONE))
    return outs


@m('core::str::<impl str>::split', 'core::str::<impl str>::chars', 'core::slice::<impl [T]>::iter', 'core::str::<impl str>::bytes',
   'core::slice::<impl [T]>::iter_mut', 'core::iter::traits::collect::IntoIterator::into_iter', 'core::str::<impl str>::lines',
   'core::str::<impl str>::splitn', 'core::str::<impl str>::char_indices', 'core::slice::<impl [T]>::chunks')
def mkiter(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    if n == 'into_iter':
        if c.res in E.p.bodies:
            return None
        v = c.args[0]
        w = E.deref(st, v) if v.op == 'ptr' else v
        if w.op == 'agg' and w.a[0].startswith('iter'):
            return w
        if w.op == 'agg' and 'ops::range::Range' in w.a[0]:
            return agg('iter', 0, 'range', (('src', w), ('pos', Int(0))))
        if c.res.startswith('<I as'):
            return v
        return agg('iter', 0, 'seq', (('src', v), ('pos', Int(0))))
    if n in ('iter', 'iter_mut'):
        return agg('iter', 0, 'seq', (('src', c.args[0]), ('pos', Int(0))))
    v = dv(E, st, c)
    extra = [dv(E, st, c, i) for i in range(1, len(c.args))]
    return agg('iter', 0, n, (('src', mk('pure', n, v, *extra)), ('pos', Int(0))))


@rx(r'^(hashbrown::map::HashMap|std::collections::hash::map::HashMap|dashmap::DashMap|hashbrown::set::HashSet|std::collections::hash::set::HashSet|alloc::collections::btree::(?:map::BTreeMap|set::BTreeSet))::<.*>::(iter|keys|values|iter_mut|values_mut|drain)$')
def mapiter(E, st, c):
    v = dv(E, st, c)
    n = c.name.rsplit('::', 1)[1]
    if n == 'drain':
        return None
    return agg('iter', 0, n, (('src', mk('pure', n, v)), ('pos', Int(0))))


@m('core::iter::traits::iterator::Iterator::peekable', 'core::iter::traits::iterator::Iterator::by_ref',
   'core::iter::traits::iterator::Iterator::fuse')
def iter_id(E, st, c):
    return c.args[0]


@m('core::iter::traits::iterator::Iterator::zip', 'core::iter::traits::iterator::Iterator::enumerate')
def iter_zip(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    if n == 'zip':
        b = c.args[1]
        if not (b.op == 'agg' and b.a[0].startswith('iter')):
            b = agg('iter', 0, 'seq', (('src', b), ('pos', Int(0))))
        return agg('iter2', 0, 'zip', (('a', c.args[0]), ('b', b)))
    return agg('iter2', 0, 'enumerate', (('a', c.args[0]),))


def item_of(E, st, it):
    """(list of (term for 'has next', payload), advanced iterator) or None"""
    if it.op != 'agg':
        return None
    if it.a[0] == 'iter':
        src, pos = project(it, ('f', '', 'src')), project(it, ('f', '', 'pos'))
        nit = update(it, ('f', '', 'pos'), add(pos, Int(1)))
        if it.a[2] == 'seq':
            root, p = E.target(src)
            base = E.load(st, root, p)
            if base.op == 'ptr':
                root, p = base.a
                base = E.load(st, root, p)
            elem = E.ptr(root, E._idx(p, pos))
            return lt(pos, length(E.deep(st, base))), elem, nit
        if it.a[2] == 'range':
            lo, hi = project(src, ('f', '', 'start')), project(src, ('f', '', 'end'))
            x = add(lo, pos)
            return lt(x, hi), x, nit
        if it.a[2] == 'sample':
            ty = as_lit(project(it, ('f', '', 'ty'))).decode()
            return TRUE, sampled(E, st, mk('item', src, pos), src.a[2], ty), nit
        o = mk('item', src, pos)
        d = discr(o, 2)
        return eq0(sub(d, Int(1))), project(o, ('f', 'Some', '0')), nit
    if it.a[0] == 'iter2':
        a = item_of(E, st, project(it, ('f', '', 'a')))
        if a is None:
            return None
        nit = update(it, ('f', '', 'a'), a[2])
        if it.a[2] == 'enumerate':
            ia = project(it, ('f', '', 'a'))
            pos = project(ia, ('f', '', 'pos')) if ia.a[0] == 'iter' else mk('opaque', 'pos')
            return a[0], tup(pos, a[1]), nit
        b = item_of(E, st, project(it, ('f', '', 'b')))
        if b is None:
            return None
        return band(a[0], b[0]), tup(a[1], b[1]), update(nit, ('f', '', 'b'), b[2])
    return None


@m('core::iter::traits::iterator::Iterator::next', 'core::iter::adapters::peekable::Peekable::<I>::peek',
   'core::iter::adapters::peekable::Peekable::<I>::next')
def inext(E, st, c):
    if c.res in E.p.bodies:
        return None
    root, p = E.target(c.args[0])
    it = E.load(st, root, p)
    if it.op == 'ptr':
        root, p = it.a
        it = E.load(st, root, p)
    if it.op == 'agg' and it.a[0] == 'iter3':
        if known_len(E, st, it) == 0:
            return NONE
        return step3(E, st, it, (('@next', root, p),))
    r = item_of(E, st, it)
    if r is None:
        # opaque iterator: fresh option each time
        o = E.fresh(st, mk('call', 'next', E.site(st), it))
        E.store(st, root, p, mk('mut', 'next', E.site(st), 0))
        return E.on_option_fork(st, o, lambda s, x: [(s, Some(x))], lambda s: [(s, NONE)])
    cond, x, nit = r
    if nit.op == 'agg' and nit.a[0] == 'iter3':
        raise AssertionError
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, cond, val):
            if not c.name.endswith('peek') and val:
                E.store(s, root, p, nit)
            outs.append((s, Some(x) if val else NONE))
    return outs


# iterators whose number of elements is known are followed element by element

def known_len(E, st, it):
    it = E.deref(st, it) if it.op == 'ptr' else it
    if it.op != 'agg':
        return None
    if it.a[0] == 'iter' and it.a[2] in ('seq', 'range'):
        src, pos = project(it, ('f', '', 'src')), project(it, ('f', '', 'pos'))
        if it.a[2] == 'seq':
            n = sub(length(E.deep(st, E.deref(st, src))), pos)
        else:
            n = sub(sub(project(src, ('f', '', 'end')), project(src, ('f', '', 'start'))), pos)
        return max(0, n.a[0]) if n.op == 'int' else None
    if it.a[0] == 'iter2':
        a = known_len(E, st, project(it, ('f', '', 'a')))
        if it.a[2] == 'zip':
            b = known_len(E, st, project(it, ('f', '', 'b')))
            if a is None or b is None:
                return None
            return min(a, b)
        return a
    if it.a[0] == 'iter3':
        return known_len(E, st, project(it, ('f', '', 'a')))
    if it.a[0] == 'iterlazy' and it.a[2] == 'take':
        n, a = project(it, ('f', '', 'n')), project(it, ('f', '', 'a'))
        if n.op == 'int' and a.op == 'agg' and a.a[0] == 'iter' and a.a[2] == 'seq':
            src, pos = project(a, ('f', '', 'src')), project(a, ('f', '', 'pos'))
            left = sub(length(E.deep(st, E.deref(st, src))), pos)
            if left.op == 'int':
                return min(n.a[0], max(0, left.a[0]))
            if E.decide(st, lt(left, n)) is False:
                return n.a[0]
    return None


def step3(E, st, it, conts):
    """next element of an iterator of known, non-zero length; conts receive (element, advanced iterator)"""
    if it.a[0] == 'iter3':
        return step3(E, st, project(it, ('f', '', 'a')), (('@map', it),) + conts)
    if it.a[0] == 'iterlazy':
        cond, x, nit = item_of(E, st, project(it, ('f', '', 'a')))
        nit = update(update(it, ('f', '', 'a'), nit), ('f', '', 'n'), sub(project(it, ('f', '', 'n')), Int(1)))
        return E.run_conts(st, tup(x, nit), conts)
    cond, x, nit = item_of(E, st, it)
    return E.run_conts(st, tup(x, nit), conts)


@contd('@map')
def c_map(E, st, v, c):
    it = c[1]
    x, nit = v.a[3][0][1], v.a[3][1][1]
    return E.apply(st, project(it, ('f', '', 'f')), [x], (('@pair', update(it, ('f', '', 'a'), nit)),))


@contd('@pair')
def c_pair(E, st, v, c):
    return [(st, tup(v, c[1]))]


@contd('@consume')
def c_consume(E, st, v, c):
    _, kind, f, acc, rty = c
    x, nit = v.a[3][0][1], v.a[3][1][1]
    if kind == 'collect':
        return consume(E, st, kind, nit, f, acc + (E.deref(st, x) if x.op == 'ptr' else x,), rty)
    if kind == 'fold':
        return E.apply(st, f, [acc, x], (('@acc', kind, nit, f, rty),))
    return E.apply(st, f, [x], (('@acc', kind, nit, f, rty),))


@contd('@acc')
def c_acc(E, st, v, c):
    _, kind, nit, f, rty = c
    if kind in ('any', 'all'):
        outs = []
        for val in (True, False):
            s = st.copy()
            if E.assume(s, v, val):
                if val == (kind == 'any'):
                    outs.append((s, TRUE if val else FALSE))
                else:
                    outs += consume(E, s, kind, nit, f, None, rty)
        return outs
    return consume(E, st, kind, nit, f, v, rty)


def consume(E, st, kind, it, f, acc, rty):
    if known_len(E, st, it) == 0:
        if kind == 'collect':
            return [(st, array(acc))]
        if kind == 'for_each':
            return [(st, UNIT)]
        if kind in ('any', 'all'):
            return [(st, FALSE if kind == 'any' else TRUE)]
        return [(st, acc)]
    return step3(E, st, it, (('@consume', kind, f, acc, rty),))


@rx(r'^core::iter::traits::iterator::Iterator::(collect|fold|for_each|any|all)$')
def known_consume(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    it = c.args[0]
    if it.op == 'ptr':
        it = E.deref(st, it)
    k = known_len(E, st, it)
    if k is None or k > 64 or (n == 'collect' and not re.search(r'^(alloc::vec::Vec|alloc::boxed::Box<\[)', c.rty)):
        return iter_consume(E, st, c)
    if n == 'fold':
        return consume(E, st, n, it, c.args[2], c.args[1], c.rty)
    if n == 'collect':
        return consume(E, st, n, it, None, (), c.rty)
    return consume(E, st, n, it, c.args[1], None, c.rty)


@m('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def call_fn(E, st, c):
    f = E.deref(st, c.args[0])
    t = c.args[1]
    if not (f.op == 'agg' and f.a[0].startswith(('closure:', 'fn:', 'notfn'))) or t.op not in ('agg',) and t is not UNIT:
        return None
    return E.apply(st, c.args[0], [x for _, x in t.a[3]] if t.op == 'agg' else [])


@m('core::array::from_fn')
def array_from_fn(E, st, c):
    mm = re.match(r'\[.*; (\d+)\]$', c.rty)
    if not mm or int(mm.group(1)) > 64:
        return None
    it = agg('iter', 0, 'range', (('src', agg('core::ops::range::Range', 0, 'Range', (('start', Int(0)), ('end', Int(int(mm.group(1))))))),
                                 ('pos', Int(0))))
    return consume(E, st, 'collect', agg('iter3', 0, 'map', (('a', it), ('f', c.args[0]))), None, (), c.rty)


@m('ring::deprecated_constant_time::verify_slices_are_equal', 'ring::constant_time::verify_slices_are_equal')
def ct_eq(E, st, c):
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, E.eqv(a, b), val):
            outs.append((s, Ok(UNIT) if val else Err(mk('static', 'Unspecified'))))
    return outs


@rx(r'^core::iter::traits::iterator::Iterator::(map|filter|flat_map|flatten|take|skip|cloned|copied|rev|chain|take_while|filter_map|skip_while|step_by|inspect|map_while)$')
def iter_adapt(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    if n in ('cloned', 'copied'):
        return c.args[0]
    if n == 'map':
        k = known_len(E, st, c.args[0])
        if k is not None and k <= 64:
            return agg('iter3', 0, 'map', (('a', c.args[0]), ('f', c.args[1])))
    vals = [E.deep(st, E.deref(st, a)) for a in c.args]
    r = agg('iter', 0, n, (('src', mk('pure', 'iter_' + n, *vals)), ('pos', Int(0))))
    return with_closures(E, st, c, r, mk('pure', 'iter_' + n, *vals))


UNI = 'rand::Uniform'


def uniform(lo, hi):
    return agg(UNI, 0, 'Uniform', (('lo', lo), ('hi', hi)))


def dist_of(v):
    """(lo, hi) of a term that is a uniform distribution or a range; hi is exclusive"""
    if v.op == 'agg' and v.a[0] == UNI:
        return project(v, ('f', '', 'lo')), project(v, ('f', '', 'hi'))
    if v.op == 'agg' and v.a[0].endswith('::Range'):
        return project(v, ('f', '', 'start')), project(v, ('f', '', 'end'))
    if v.op == 'agg' and v.a[0].endswith('::RangeInclusive'):
        return project(v, ('f', '', 'start')), add(project(v, ('f', '', 'end')), Int(1))
    return None


def make_uniform(E, st, lo, hi):
    if E.decide(st, lt(lo, hi)) is True:
        return Ok(uniform(lo, hi))
    return None


@rx(r'^rand::distr::uniform::Uniform::<X>::(new|new_inclusive)$')
def uniform_new(E, st, c):
    lo, hi = dv(E, st, c, 0), dv(E, st, c, 1)
    return make_uniform(E, st, lo, add(hi, Int(1)) if c.name.endswith('inclusive') else hi)


@m('rand::distr::distribution::Distribution::sample_iter', 'rand::rng::Rng::sample_iter')
def sample_iter(E, st, c):
    a, b = [E.deep(st, E.deref(st, x)) for x in c.args]
    d, g = (a, b) if 'Distribution' in c.name else (b, a)
    ty = next((t for t in c.tys if t in engine.INTTY), None)
    src = mk('call', 'rand::sample_iter', E.site(st), d, g)
    return agg('iter', 0, 'sample', (('src', src), ('pos', Int(0)), ('ty', Lit(ty or ''))))


def sampled(E, st, x, d, ty):
    if ty:
        TYPES.setdefault(x, ty)
        r = dist_of(d)
        if r:
            E.assume(st, lt(x, r[0]), False)
            E.assume(st, lt(x, r[1]), True)
    return x


@m('rand::distr::distribution::Distribution::sample', 'rand::rng::Rng::sample', 'rand::rng::Rng::random_range')
def sample(E, st, c):
    a, b = [E.deep(st, E.deref(st, x)) for x in c.args]
    d, g = (a, b) if 'Distribution' in c.name else (b, a)
    return sampled(E, st, E.fresh(st, mk('call', 'rand::sample', E.site(st), d, g)), d, c.rty if c.rty in engine.INTTY else None)


def with_closures(E, st, c, r, src):
    outs = [(st.copy(), r)]
    for a in c.args[1:]:
        v = E.deref(st, a)
        if v.op == 'agg' and v.a[0].startswith('closure:'):
            b = E.p.body(v.a[0][8:])
            if b is None or E.stack(st).count(b.path) >= 2 or len(st.frames) >= E.max_depth:
                continue
            s1 = st.copy()
            args = []
            for i in range(2, b.argc + 1):
                x = mk('item', src, Lit('arg%d' % i))
                if b.locals[i][0] in engine.INTTY:
                    TYPES.setdefault(x, b.locals[i][0])
                x = E.fresh(s1, x)
                args.append(x)
            outs.append((s1, ('inline', b.path, [v] + args, (('const', r),))))
    return outs


@contd('@next')
def c_next(E, st, v, c):
    x, nit = v.a[3][0][1], v.a[3][1][1]
    E.store(st, c[1], c[2], nit)
    return [(st, Some(x))]


@rx(r'^core::iter::traits::iterator::Iterator::(any|all|find|position|collect|sum|count|last|max|min|min_by_key|max_by_key|fold|nth|find_map|eq)$')
def iter_consume(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    vals = [E.deep(st, E.deref(st, a)) for a in c.args]
    r = mk('pure', 'iter_' + n, *vals)
    if c.rty in engine.INTTY:
        TYPES.setdefault(r, c.rty)
    return with_closures(E, st, c, r, vals[0])


@m('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(E, st, c):
    if c.res in E.p.bodies:
        return None
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    if v.op == 'ptr':
        root, p = v.a
        v = E.load(st, root, p)
    if ('S', v) in st.mem and root != ('S', v):
        root, p = ('S', v), ()
        v = st.mem[root]
    i = c.args[1]
    ity = engine.tyhead(c.atys[1])
    isstr = 'str' in engine.tyhead(c.tys[0]) if c.tys else False
    n = length(E.deep(st, v))
    if 'ops::range::Range' in ity:
        lo, hi = Int(0), None
        if ity.endswith('RangeFull'):
            return E.ptr(root, p)
        if i.op == 'agg':
            lo = project(i, ('f', '', 'start')) if any(k == 'start' for k, _ in i.a[3]) else Int(0)
            hi = project(i, ('f', '', 'end')) if any(k == 'end' for k, _ in i.a[3]) else None
        else:
            lo, hi = mk('fld', i, ('f', '', 'start')), mk('fld', i, ('f', '', 'end'))
        if ity.endswith('RangeInclusive') or ity.endswith('RangeToInclusive'):
            hi = add(hi, Int(1)) if hi is not None else None
        for x in (lo, hi):
            if x is not None and x.op not in ('int', 'lin'):
                TYPES.setdefault(x, 'usize')
        conds = [le(hi, n), le(lo, hi)] if hi is not None else [le(lo, n)]
        for cd in conds:
            E.oblige(st, cd, 'slice bounds', c.span)
            if not E.assume(st, cd, True):
                return []
        if isstr:
            for x in (lo, hi):
                if x is not None and x is not Int(0) and x is not n:
                    E.oblige(st, mk('boundary', E.deep(st, v), x), 'char boundary', c.span)
        key = ('s', lo, hi)
        if p and p[-1][0] == 's':
            blo, bhi = p[-1][1], p[-1][2]
            p = p[:-1]
            key = ('s', add(blo, lo), add(blo, hi) if hi is not None else bhi)
        return E.ptr(root, p + (key,))
    if c.atys[1] == 'usize':
        if i.op not in ('int', 'lin'):
            TYPES.setdefault(i, 'usize')
        cd = lt(i, n)
        E.oblige(st, cd, 'index bounds', c.span)
        if not E.assume(st, cd, True):
            return []
        return E.ptr(root, E._idx(p, i))
    # map indexing
    return None


@m('core::slice::<impl [T]>::get', 'core::str::<impl str>::get', 'core::slice::<impl [T]>::get_mut')
def sget(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    i = c.args[1]
    n = length(E.deep(st, v))
    ity = engine.tyhead(c.atys[1])
    if 'ops::range::Range' in ity:
        if i.op != 'agg':
            return None
        lo = project(i, ('f', '', 'start')) if any(k == 'start' for k, _ in i.a[3]) else Int(0)
        hi = project(i, ('f', '', 'end')) if any(k == 'end' for k, _ in i.a[3]) else None
        if ity.endswith('Inclusive') and hi is not None:
            hi = add(hi, Int(1))
        for x in (lo, hi):
            if x is not None and x.op not in ('int', 'lin'):
                TYPES.setdefault(x, 'usize')
        cond = band(le(hi, n), le(lo, hi)) if hi is not None else le(lo, n)
        key = ('s', lo, hi)
        if p and p[-1][0] == 's':
            blo, bhi = p[-1][1], p[-1][2]
            p = p[:-1]
            key = ('s', add(blo, lo), add(blo, hi) if hi is not None else bhi)
        res = E.ptr(root, p + (key,))
    else:
        if i.op not in ('int', 'lin'):
            TYPES.setdefault(i, 'usize')
        cond = lt(i, n)
        res = E.ptr(root, E._idx(p, i))
    outs = []
    if 'str' in c.name:
        # also None when an end is not a char boundary
        s = st.copy()
        outs.append((s, NONE))
        if E.assume(st, cond, True):
            outs.append((st, Some(res)))
        return outs
    for val in (True, False):
        s = st.copy()
        if E.assume(s, cond, val):
            outs.append((s, Some(res) if val else NONE))
    return outs


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def sfirst(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    n = length(E.deep(st, v))
    i = Int(0) if c.name.endswith('first') else sub(n, Int(1))
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, lt(Int(0), n), val):
            outs.append((s, Some(E.ptr(root, E._idx(p, i))) if val else NONE))
    return outs


@m('core::slice::<impl [T]>::fill')
def slice_fill(E, st, c):
    root, p = E.target(c.args[0])
    n = length(E.deep(st, E.load(st, root, p)))
    E.store(st, root, p, mk('repeat', c.args[1], n.a[0] if n.op == 'int' else n))
    return UNIT


@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(E, st, c):
    root, p = E.target(c.args[0])
    src = dv(E, st, c, 1)
    dst = E.load(st, root, p)
    cond = eq0(sub(length(E.deep(st, dst)), length(src)))
    E.oblige(st, cond, 'copy_from_slice length', c.span)
    if not E.assume(st, cond, True):
        return []
    E.store(st, root, p, src)
    return UNIT


@m('core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from', 'core::convert::TryFrom::try_from',
   'core::convert::TryInto::try_into')
def try_from(E, st, c):
    frm, to = c.atys[0], split_args(c.rty)[0] if split_args(c.rty) else ''
    v = c.args[0]
    mm = re.match(r'\[.*; (\d+)\]$', to)
    if mm:
        x = dv(E, st, c)
        n = Int(int(mm.group(1)))
        outs = []
        for val in (True, False):
            s = st.copy()
            if E.assume(s, eq0(sub(length(x), n)), val):
                outs.append((s, Ok(x) if val else Err(mk('static', 'TryFromSliceError'))))
        return outs
    if to in engine.INTTY and frm in engine.INTTY:
        lo, hi = lindom.RANGES[to]
        if v.op not in ('int', 'lin'):
            TYPES.setdefault(v, frm)
        outs = []
        cond = band(neg(lt(v, Int(lo))), neg(lt(Int(hi), v)))
        for val in (True, False):
            s = st.copy()
            if E.assume(s, cond, val):
                outs.append((s, Ok(v) if val else Err(mk('static', 'TryFromIntError'))))
        return outs
    if c.res in E.p.bodies:
        return None
    r = pure('try_from', Lit(to), E.deep(st, E.deref(st, v)))
    dd = discr(r, 2)
    if 'Uniform<' in to and dist_of(r.a[2]):
        u = make_uniform(E, st, *dist_of(r.a[2]))       # a non-empty range always makes a distribution
        if u is not None:
            return u
    return r


@rx(r'^core::num::<impl (u16|u32|u64|usize)>::from_(be|le|ne)_bytes$')
def from_be(E, st, c):
    ty = re.search(r'impl (\w+)', c.name).group(1)
    w = {'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[ty]
    v = dv(E, st, c)
    bs = [project(v, ('i', Int(i))) for i in range(w)]
    if 'from_le' in c.name or 'from_ne' in c.name:
        bs = bs[::-1]
    for b in bs:
        if b.op not in ('int', 'lin'):
            TYPES.setdefault(b, 'u8')
    r = Int(0)
    for b in bs:
        r = add(mulc(r, 256), b)
    return r


@rx(r'^core::num::<impl (u16|u32|u64)>::to_(be|le)_bytes$')
def to_be(E, st, c):
    ty = re.search(r'impl (\w+)', c.name).group(1)
    w = {'u16': 2, 'u32': 4, 'u64': 8}[ty]
    return mk('pure', c.name.rsplit('::', 1)[1], c.args[0], Int(w))


@m('core::net::ip_addr::Ipv4Addr::new', 'core::net::ip_addr::Ipv6Addr::new')
def ipnew(E, st, c):
    return pure('addr', array(c.args))


@m('alloc::string::String::from_utf8', 'core::str::converts::from_utf8', 'core::str::from_utf8', 'core::str::<impl str>::from_utf8')
def from_utf8(E, st, c):
    v = dv(E, st, c)
    cond = pure('is_utf8', v, bool_=True)
    outs = []
    for val in (True, False):
        s = st.copy()
        if E.assume(s, cond, val):
            outs.append((s, Ok(v) if val else Err(mk('static', 'Utf8Error'))))
    return outs


@m('alloc::string::String::from_utf8_lossy')
def utf8_lossy(E, st, c):
    return pure('utf8_lossy', dv(E, st, c))


@m('alloc::string::String::new', 'alloc::string::String::with_capacity', 'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def empty(E, st, c):
    return Lit(b'')


@m('alloc::string::String::push_str', 'alloc::string::String::push')
def push_str(E, st, c):
    root, p = E.target(c.args[0])
    x = dv(E, st, c, 1)
    if c.name.endswith('::push'):
        x = Lit(chr(x.a[0])) if x.op == 'int' else mk('pure', 'char', x)
    nv = cat(E.load(st, root, p), x)
    if engine.term_size(nv) > 300:
        nv = E.fresh(st, mk('mut', 'push', E.site(st), 0))
    E.store(st, root, p, nv)
    return UNIT


@m('alloc::vec::Vec::<T, A>::extend_from_slice', 'core::iter::traits::collect::Extend::extend')
def extend(E, st, c):
    if c.res in E.p.bodies:
        return None
    if c.name.endswith('Extend::extend') and not re.search(r'String|Vec<', c.tys[0]):
        return None
    root, p = E.target(c.args[0])
    x = dv(E, st, c, 1)
    nv = cat(E.load(st, root, p), x)
    if engine.term_size(nv) > 300:
        nv = E.fresh(st, mk('mut', 'push', E.site(st), 0))
    outs = []
    if c.name.endswith('Extend::extend') and isiter(E.deref(st, c.args[1])):
        s = st.copy()
        it = E.deref(s, c.args[1])
        outs = coll.nexts(E, s, coll.havoc(E, s, it), (("@element", c.caller),))
    E.store(st, root, p, nv)
    return outs + [(st, UNIT)]


def isiter(v):
    return v.op == 'agg' and v.a[0].startswith('iter')


@contd('@element')
def c_element(E, st, v, c):
    """one element that is taken over: an event for the rules, not a path of its own"""
    o = v.a[3][0][1]
    f = getattr(E.rule, 'on_element', None)
    if f and o is not NONE:
        f(E, st, project(o, ('f', 'Some', '0')), c[1])
    return []


@m('alloc::vec::from_elem')
def from_elem(E, st, c):
    n = c.args[1]
    return mk('repeat', c.args[0], n.a[0] if n.op == 'int' else n)


@m('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_vec(E, st, c):
    return E.deref(st, c.args[0])


# ---------------------------------------------------------------- formatting

@rx(r'^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex)$')
def fmtarg(E, st, c):
    v = dv(E, st, c)
    k = c.name.rsplit('_', 1)[1]
    if k == 'display':
        return agg('fmtarg', 0, '', (('0', v),))
    return agg('fmtarg', 0, '', (('0', pure(k, v)),))


@rx(r"^core::fmt::Arguments::<.*>::(from_str|from_str_nonconst)$")
def args_str(E, st, c):
    return agg('fmtargs', 0, '', (('0', dv(E, st, c)),))


@rx(r"^core::fmt::Arguments::<.*>::new$")
def args_new(E, st, c):
    t = dv(E, st, c, 0)
    a = dv(E, st, c, 1)
    tb = as_lit(t)
    if tb is None or a.op != 'agg':
        return agg('fmtargs', 0, '', (('0', pure('fmt', t, a)),))
    items = [project(project(a, ('i', Int(i))), ('f', '', '0')) for i in range(len(a.a[3]))]
    parts = []
    i = 0
    nxt = 0
    while i < len(tb):
        x = tb[i]
        if x == 0:
            break
        if x < 0x80:
            parts.append(Lit(tb[i + 1:i + 1 + x]))
            i += 1 + x
        elif x == 0x80:
            ln = tb[i + 1] | tb[i + 2] << 8
            parts.append(Lit(tb[i + 3:i + 3 + ln]))
            i += 3 + ln
        elif x == 0xC0:
            parts.append(fmtval(items[nxt]) if nxt < len(items) else mk('opaque', 'fmt'))
            nxt += 1
            i += 1
        elif x > 0xC0:
            i += 1
            flags = x & 0x3f
            idx = None
            opts = []
            if flags & 1:
                opts.append(tb[i:i + 4]); i += 4
            if flags & 2:
                opts.append(tb[i:i + 2]); i += 2
            if flags & 4:
                opts.append(tb[i:i + 2]); i += 2
            if flags & 8:
                idx = tb[i] | tb[i + 1] << 8; i += 2
            if idx is not None:
                nxt = idx
            v = fmtval(items[nxt]) if nxt < len(items) else mk('opaque', 'fmt')
            nxt += 1
            if opts:
                v = pure('fmtspec', v, Lit(b''.join(opts)))
            parts.append(v)
        else:
            return agg('fmtargs', 0, '', (('0', pure('fmt', t, a)),))
    return agg('fmtargs', 0, '', (('0', cat(*parts) if parts else Lit(b'')),))


def fmtval(v):
    if v.op == 'int':
        return Lit(str(v.a[0]))
    if v.op == 'lin' or TYPES.get(v) in engine.INTTY:
        return mk('pure', 'dec', v)
    return v


@m('alloc::fmt::format')
def fformat(E, st, c):
    v = c.args[0]
    return project(v, ('f', '', '0')) if v.op == 'agg' else pure('format', v)


@m('core::str::<impl str>::parse')
def parse(E, st, c):
    v = dv(E, st, c)
    r = pure('parse', Lit(c.tys[0]), v)
    TYPES.setdefault(project(r, ('f', 'Ok', '0')), c.tys[0]) if c.tys[0] in engine.INTTY else None
    return r


@m('base64::engine::Engine::encode', 'base64::engine::Engine::decode')
def b64(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    eng = dv(E, st, c, 0)
    v = dv(E, st, c, 1)
    return pure('b64' + n, eng, v)


@m('ring::hmac::sign')
def hmac_sign(E, st, c):
    return pure('hmac', dv(E, st, c, 0), dv(E, st, c, 1))


@m('ring::hmac::Key::new')
def hmac_key(E, st, c):
    return pure('hmackey', dv(E, st, c, 0), dv(E, st, c, 1))


@m('ring::digest::digest')
def rdigest(E, st, c):
    return pure('digest', dv(E, st, c, 0), dv(E, st, c, 1))


@m('ring::hmac::Context::with_key')
def hctx(E, st, c):
    return agg('hmacctx', 0, '', (('key', dv(E, st, c)), ('data', Lit(b''))))


@m('ring::digest::Context::new')
def dctx(E, st, c):
    return agg('digestctx', 0, '', (('key', dv(E, st, c)), ('data', Lit(b''))))


@m('ring::hmac::Context::update', 'ring::digest::Context::update')
def hupd(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    x = dv(E, st, c, 1)
    if v.op == 'agg':
        d = cat(project(v, ('f', '', 'data')), x)
        if engine.term_size(d) > 400:
            d = E.fresh(st, mk('mut', 'update', E.site(st), 0))
        E.store(st, root, p, update(v, ('f', '', 'data'), d))
        return UNIT
    return None


@m('ring::hmac::Context::sign', 'ring::digest::Context::finish')
def hsign(E, st, c):
    v = c.args[0]
    if v.op == 'agg':
        return pure('hmac' if 'hmac' in c.name else 'digest', project(v, ('f', '', 'key')), project(v, ('f', '', 'data')))
    return None


@m('core::ops::bit::BitXor::bitxor', 'core::ops::bit::BitAnd::bitand', 'core::ops::bit::BitOr::bitor')
def bitxor(E, st, c):
    ty = c.rty
    op = {'bitxor': 'BitXor', 'bitand': 'BitAnd', 'bitor': 'BitOr'}[c.name.rsplit('::', 1)[1]]
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    for x in (a, b):
        if ty in engine.INTTY and x.op not in ('int', 'lin'):
            TYPES.setdefault(x, ty)
    return E.bits(op, a, b, ty)


@rx(r'^core::ops::bit::Bit(Xor|And|Or)Assign::bit\w+$')
def bitassign(E, st, c):
    ty = re.sub(r'^&(mut )?', '', c.atys[0])
    if ty not in engine.INTTY and ty != 'bool':
        return None
    op = re.search(r'Bit(Xor|And|Or)Assign', c.name).group(1)
    root, p = E.target(c.args[0])
    a, b = E.load(st, root, p), dv(E, st, c, 1)
    for x in (a, b):
        if x.op not in ('int', 'lin'):
            TYPES.setdefault(x, ty)
    v = E.bits('Bit' + op, a, b, ty)
    if root[0] != 'L':
        E.rule.on_write(E, st, root, p, v, c.span)
    E.store(st, root, p, v)
    return UNIT


@m('core::ops::range::RangeInclusive::<Idx>::new')
def rangeinc(E, st, c):
    return agg('core::ops::range::RangeInclusive', 0, 'RangeInclusive', (('start', c.args[0]), ('end', c.args[1])))


# ---------------------------------------------------------------- futures

@m('core::future::ready::ready', 'core::future::poll_fn::poll_fn', 'futures_lite::future::FutureExt::or',
   'futures_util::future::try_future::TryFutureExt::map_err')
def mkfut(E, st, c):
    n = c.name.rsplit('::', 1)[1]
    return agg('fut:' + n, 0, '', tuple((str(i), a) for i, a in enumerate(c.args)))


@m('core::future::get_context')
def getctx(E, st, c):
    return sym('cx')


def poll_value(E, st, f, conts):
    """outcomes of awaiting future value f, conts applied to its output"""
    f = E.deref(st, f)
    if f.op == 'agg' and f.a[0].startswith('coroutine:'):
        p = f.a[0][10:]
        b = E.p.body(p)
        if b is not None and not E.rule.opaque.search(p) and E.stack(st).count(p) < 2 and not b.tainted:
            return [(st, ('inline', p, [f, sym('cx')], tuple(conts)))]
    if f.op == 'agg' and f.a[0] == 'fut:ready':
        return E.run_conts(st, f.a[3][0][1], conts)
    if f.op == 'agg' and f.a[0] == 'fut:or':
        s2 = st.copy()
        return poll_value(E, st, f.a[3][0][1], conts) + poll_value(E, s2, f.a[3][1][1], conts)
    if f.op == 'agg' and f.a[0] == 'fut:map_err':
        return poll_value(E, st, f.a[3][0][1], (('map_err', f.a[3][1][1]),) + tuple(conts))
    E.rule.on_await(E, st, f)
    v = E.fresh(st, mk('await', E.deep(st, f)))
    adt = E.p.adts.get(f.a[0]) if f.op == 'agg' else None
    if adt and adt['kind'] == 'struct':
        # a future that is not interpreted may write through the mutable references it holds
        for (n, x), ty in zip(f.a[3], adt['variants'][0]['tys']):
            if re.match(r"&('\S+ )?mut ", ty):
                root, p = E.target(x)
                nv = E.fresh(st, mk('mut', f.a[0], E.site(st), n))
                if root[0] != 'L':
                    E.rule.on_write(E, st, root, p, nv, None)
                E.store(st, root, p, nv)
    return E.run_conts(st, v, conts)


@m('core::future::future::Future::poll')
def poll(E, st, c):
    f = E.deref(st, c.args[0])
    body = E.p.body(c.caller)
    if f.op == 'agg' and f.a[0] == 'fut:poll_fn':
        return E.apply(st, f.a[3][0][1], [sym('cx')])
    if f.op == 'agg' and f.a[0].startswith(('coroutine:', 'fut:')):
        if body.kind == 'coroutine':
            return poll_value(E, st, f, (('wrap', 'Ready'),))
    if c.res in E.p.bodies and c.res != c.caller:
        if not E.rule.opaque.search(c.res):
            return None
    if body.kind == 'coroutine':
        return poll_value(E, st, f, (('wrap', 'Ready'),))
    r = E.fresh(st, mk('poll', E.site(st), E.deep(st, f)))
    E.rule.on_await(E, st, f)
    discr(r, 2)
    return r


@m('ring::pbkdf2::derive')
def pbkdf2(E, st, c):
    root, p = E.target(c.args[4])
    old = E.load(st, root, p)
    v = mk('pure', 'pbkdf2', dv(E, st, c, 0), dv(E, st, c, 1), dv(E, st, c, 2), dv(E, st, c, 3), length(E.deep(st, old)))
    if root[0] != 'L':
        E.rule.on_write(E, st, root, p, v, c.span)
    E.store(st, root, p, v)
    return UNIT


@m('alloc::str::<impl str>::replace')
def str_replace(E, st, c):
    return pure('str_replace', dv(E, st, c, 0), dv(E, st, c, 1) if c.args[1].op != 'int' else Lit(chr(c.args[1].a[0])), dv(E, st, c, 2))


@rx(r'^(core|alloc)::str::<impl str>::(trim|trim_start|trim_end|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim_ascii|repeat)$|'
    r'^core::str::<impl str>::(trim_matches|trim_start_matches|trim_end_matches|eq_ignore_ascii_case)$|^core::slice::ascii::<impl \[u8\]>::(trim_ascii\w*|to_ascii\w*|eq_ignore_ascii_case)$')
def str_transform(E, st, c):
    """functions of texts that are other texts than their argument"""
    n = c.name.rsplit('::', 1)[1]
    args = [E.deep(st, E.deref(st, a)) for a in c.args]
    if n == 'eq_ignore_ascii_case' and args[0] is args[1]:
        return TRUE
    return pure('text:' + n, *args, bool_=(c.rty == 'bool'))


@m('core::str::<impl str>::contains')
def str_contains(E, st, c):
    """conjunction over the characters of an array pattern"""
    a, b = dv(E, st, c, 0), dv(E, st, c, 1)
    ty = c.atys[1] if len(c.atys) > 1 else ''
    if b.op == 'int':
        b = Lit(chr(b.a[0]))
    pats = [b]
    if 'char' in ty and '[' in ty:
        if b.op == 'agg' and b.a[0] == '[]' and all(x.op == 'int' for _, x in b.a[3]):
            pats = [Lit(chr(x.a[0])) for _, x in b.a[3]]
        elif b.op == 'lit':
            pats = [Lit(x) for x in b.a[0].decode('utf-8', 'replace')]
        else:
            return None
    if any(p.op not in ('lit', 'sym', 'fld') for p in pats) or not pats:
        return None
    r = None
    for p in pats:
        y = pure('strhas', a, p, bool_=True)
        r = y if r is None else bor(r, y)
    return r


@m('alloc::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::join')
def sconcat(E, st, c):
    v = dv(E, st, c)
    if v.op != 'agg' or v.a[0] != '[]':
        return None
    parts = [E.deref(st, x) for _, x in v.a[3]]
    if c.name.endswith('join'):
        sep = dv(E, st, c, 1)
        if sep.op not in ('lit', 'sym'):
            return None
        parts = [p for i, x in enumerate(parts) for p in ((sep, x) if i else (x,))]
    return cat(*parts) if parts else Lit(b'')


@m('core::ops::arith::Add::add')
def str_add(E, st, c):
    if engine.tyhead(c.atys[0]) == 'alloc::string::String':
        return cat(dv(E, st, c), E.deref(st, c.args[1]))
    return None


@m('core::ops::arith::AddAssign::add_assign')
def str_add_assign(E, st, c):
    if 'alloc::string::String' not in c.atys[0]:
        return None
    root, p = E.target(c.args[0])
    E.store(st, root, p, cat(E.deep(st, E.load(st, root, p)), E.deref(st, c.args[1])))
    return UNIT


@m('core::fmt::Write::write_fmt')
def write_fmt(E, st, c):
    v = c.args[1]
    if 'alloc::string::String' not in c.atys[0] or v.op != 'agg':
        return None
    root, p = E.target(c.args[0])
    E.store(st, root, p, cat(E.deep(st, E.load(st, root, p)), project(v, ('f', '', '0'))))
    return Ok(UNIT)


@m('core::str::<impl str>::rsplit_once')
def rsplit_once(E, st, c):
    s = dv(E, st, c)
    t = mk('pure', 'rsplit', s, c.args[1])
    return E.on_option_fork(st, t, lambda x, v: [(x, Some(v))], lambda x: [(x, NONE)])


@m('core::str::<impl str>::split_once')
def split_once(E, st, c):
    """the first piece and the rest of the text, through the same pieces as split"""
    s = dv(E, st, c)
    sep = c.args[1]
    if sep.op != 'int' or sep.a[0] >= 128:
        return None
    src = mk('pure', 'split', s, sep)
    t0, t1 = mk('item', src, Int(0)), mk('item', src, Int(1))
    outs = []
    for two in (1, 0):
        x = st.copy()
        if E.assume(x, eq0(sub(discr(t0, 2), Int(1))), True) and E.assume(x, eq0(sub(discr(t1, 2), Int(1))), bool(two)):
            if two:
                a = project(t0, ('f', 'Some', '0'))
                outs.append((x, Some(agg('()', 0, '', (('0', a), ('1', project(s, ('s', add(length(a), Int(1)), None))))))))
            else:
                outs.append((x, NONE))
    return outs


@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def split_at(E, st, c):
    root, p = E.target(c.args[0])
    v = E.load(st, root, p)
    n = length(E.deep(st, v))
    k = c.args[1]
    if k.op not in ('int', 'lin'):
        TYPES.setdefault(k, 'usize')
    cond = le(k, n)
    E.oblige(st, cond, 'split_at bounds', c.span)
    if not E.assume(st, cond, True):
        return []
    if 'str' in c.name:
        E.oblige(st, mk('boundary', E.deep(st, v), k), 'char boundary', c.span)
    lo, hi = Int(0), None
    if p and p[-1][0] == 's':
        lo, hi = p[-1][1], p[-1][2]
        p = p[:-1]
    mid = add(lo, k)
    return agg('()', 0, '', (('0', E.ptr(root, p + (('s', lo, mid),))), ('1', E.ptr(root, p + (('s', mid, hi),)))))


@m('mqtt_proto::QosPid::qos')
def qospid_qos(E, st, c):
    v = dv(E, st, c)
    if v.op == 'agg':
        return agg('mqtt_proto::QoS', v.a[1], v.a[2], ())
    return mk('pure', 'qosof', v)


import coll  # noqa: E402,F401  container and iterator models
