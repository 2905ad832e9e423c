"""Passwords and access to the broker: A01 password check, A02 password file, A03 CONNECT, A04 enhanced authentication."""
import re

from _base import *
from tree import Trace, trace, some, val3, get, known_same
import terms

AU = 'protocols::mqtt::auth::'
ALGS = {'Sha256': ('digest', 'ring::digest::SHA256'), 'Sha512': ('digest', 'ring::digest::SHA512'),
        'Sha256Pkbdf2': ('pbkdf2', 'ring::pbkdf2::PBKDF2_HMAC_SHA256', 32), 'Sha512Pkbdf2': ('pbkdf2', 'ring::pbkdf2::PBKDF2_HMAC_SHA512', 64)}


def algs(ctx):
    """variants of HashAlgorithm in the order of their discriminants; None if they are not the four known ones"""
    vs = ctx.P.adts.get('state::HashAlgorithm') or next((v for k, v in ctx.P.adts.items() if k.endswith('::HashAlgorithm')), None)
    return vs


def expected(alg, name, salt, password):
    kind = ALGS[name]
    if kind[0] == 'digest':
        return mk('pure', 'digest', mk('static', kind[1]), cat(password, salt))
    return mk('pure', 'pbkdf2', mk('static', kind[1]), fld(alg, name + '.iterations'), salt, password, Int(kind[2]))


def alg_of(E, st, t):
    """name of the algorithm the term is known to be on this path"""
    v = E.value(st, discr(t, 4))
    return list(ALGS)[v.a[0]] if v is not None else None


def a01(ctx):
    """check_password and hash_password: value of every path per algorithm, against the definition of the algorithm"""
    path = AU + 'hash_password'
    E, paths = trace(ctx, path, r'XX')
    seen = set()
    if E:
        alg = params(ctx, path, r'HashAlgorithm')[0]
        salt, pw = [sym(x) for x in argnames(ctx.P, path)][1:3]
        for ps, st, val in paths:
            n = alg_of(E, st, alg)
            if n is None:
                if understood(val):
                    ctx.require(False, 'hash-unchecked', 'the algorithm is not looked at', facts_text(st))
                continue
            seen.add(n)
            ctx.require(val is expected(alg, n, salt, pw) or not understood(val), 'hash:' + n, 'the hash of a password with %s is %s' % (n, str(val)[:200]), facts_text(st))
        ctx.floor('algorithms hashed', len(seen), 4)
    path = AU + 'check_password'
    E, paths = trace(ctx, path, r'XX')
    if not E:
        return
    users, name, pw = [sym(x) for x in argnames(ctx.P, path)][:3]
    entry = get(users, name)
    item = fld(entry, 'Some.0')
    seen = set()
    for ps, st, val in paths:
        for verdict in (True, False):
            s = st.copy()
            if not E.assume(s, val, verdict):
                continue
            F = facts_text(s)
            there = some(E, s, entry)
            n = alg_of(E, s, fld(item, 'hash_algorithm')) if there else None
            ok = None
            strange = []
            for f, v in s.facts.items():
                if f.op == 'eq' and fld(item, 'hashed_password') in f.a:
                    other = f.a[0] if f.a[1] is fld(item, 'hashed_password') else f.a[1]
                    if n and other is expected(fld(item, 'hash_algorithm'), n, fld(item, 'salt'), pw):
                        ok = v is TRUE or v is Int(1)
                    else:
                        strange.append(other)
                elif f.op == 'discr' and f.a[0].op == 'call' and re.search(r'verify', str(f.a[0].a[0])):
                    a = f.a[0].a[2:] if not isinstance(f.a[0].a[1], terms.T) else f.a[0].a[1:]
                    a = [x for x in a if isinstance(x, terms.T)]
                    if 'verify_slices' in str(f.a[0].a[0]):
                        want = {fld(item, 'hashed_password'), n and expected(fld(item, 'hash_algorithm'), n, fld(item, 'salt'), pw)}
                        good = set(a) == want
                    else:
                        good = n is not None and ALGS[n][0] == 'pbkdf2' and a == [mk('static', ALGS[n][1]), fld(item, 'hash_algorithm', n + '.iterations'), fld(item, 'salt'), pw, fld(item, 'hashed_password')]
                    if good:
                        ok = v is Int(0)
                    else:
                        strange.append(f.a[0])
            if verdict:
                ctx.require(there is True, 'unknown-user', 'a password is accepted without an account of that name', F)
                if there:
                    seen.add(n)
                    ctx.require(ok is True or ok is None and any(not understood(x) and x.op != 'call' for x in strange), 'accepted:%s' % n,
                                'a password is accepted without comparing its hash with the stored one', F)
            else:
                ctx.require(there is False or ok is False or ok is None and (n is None and understood(val) is False or bool(strange)), 'refused:%s' % n, 'a correct password is refused', F)
                if there and ok is None and n is not None:
                    ctx.require(not any(understood(x) for x in strange), 'refused:%s' % n, 'a password is refused because of %s' % [str(x)[:120] for x in strange], F)
    ctx.floor('algorithms checked', len(seen - {None}), 4)


def part(t):
    """(index, text) if t is the index-th piece of a text cut at commas"""
    while t.op == 'agg' and t.a[0] == '()' and len(t.a[3]) == 1:
        t = t.a[3][0][1]
    i = None
    if t.op == 'fld' and t.a[1][0] == 'i':
        src, i = t.a[0], t.a[1][1]
    elif t.op in ('idx', 'item'):
        src, i = t.a[0], t.a[1]
    elif t.op == 'fld' and t.a[0].op == 'item':
        src, i = t.a[0].a[0], t.a[0].a[1]
    if i is None or i.op != 'int':
        return None
    for x in walk(src):
        if x.op == 'pure' and x.a[0] == 'split' and str(x.a[2]) in ('44', "','"):
            return i.a[0], x.a[1]
    return None


def a02(ctx):
    """dump_passwords writes what load_passwords reads: the line of each algorithm, piece by piece; which lines load refuses"""
    path = AU + 'dump_passwords'
    forms = {}
    if ctx.anchor(path) is not None:
        users = [sym(x) for x in argnames(ctx.P, path)][1]
        r = Dump(ctx, users, forms)
        run(ctx, path, r, join_limit=1500)
        ctx.floor('algorithms written', len(forms), 4)
    path = AU + 'load_passwords'
    if ctx.anchor(path) is None:
        return
    names = {}
    r = Load(ctx)
    E = run(ctx, path, r, join_limit=1500)
    for ps, st, val in r.paths:
        F = facts_text(st)
        if val is None and not ps:
            # one pass over the loop that recorded nothing
            text = {x for x in walk_all(st) if x.op in ('call', 'pure') and str(x.a[0]).endswith('trim')}
            ctx.require(not text or any(E.decide(st, eq0(length(x))) is True for x in text), 'load-skipped', 'a line that is not empty is ignored', F)
        for e in ps:
            k, acc = e[2][1], e[2][2]
            alg = fld(acc, 'hash_algorithm')
            if alg.op != 'agg':
                ctx.require(not understood(alg), 'load-algorithm', 'the algorithm of an account is %s' % str(alg)[:100], F)
                continue
            n = alg.a[2]
            salt, hsh = fld(acc, 'salt'), fld(acc, 'hashed_password')
            sp, hp = decoded(E, st, salt), decoded(E, st, hsh)
            ip = None
            if ALGS[n][0] == 'pbkdf2':
                it = fld(alg, 'iterations')
                ip = next((part(x.a[-1]) for x in walk(it) if x.op == 'pure' and x.a[0] == 'parse'), None)
                ctx.require(ip is not None or not understood(it), 'load-iterations:' + n, 'the number of iterations is %s' % str(it)[:100], F)
            if sp is None or hp is None:
                ctx.require(not (understood(salt) and understood(hsh)), 'load-fields:' + n, 'salt or hash are not decoded from the line: %s, %s' % (str(salt)[:80], str(hsh)[:80]), F)
                continue
            (si, text), (hi, _) = sp[0], hp[0]
            ctx.require(E.decide(st, lt(length(salt), Int(12))) is False, 'load-salt:' + n, 'a salt of fewer than 12 bytes is accepted', F)
            user = k
            while user.op == 'agg' and len(user.a[3]) == 1:
                user = user.a[3][0][1]
            pair = text.a[0] if text.op == 'fld' else None
            first = [x for x in eqs(st, text) if True]
            ctx.require(len(first) == 1, 'load-name:' + n, 'the algorithm %s is taken for lines named %s' % (n, first), F)
            whole = next((length(x) for x in (walk_all(st)) if x.op in ('pure', 'call') and 'collect' in str(x.a[0]) and depends(x, text)), None)
            cnt = E.value(st, whole) if whole is not None else None
            ctx.require(cnt is not None or whole is None, 'load-count:' + n, 'a line with surplus pieces is accepted', F)
            got = dict(sep=sp[1], iterations=ip[0] if ip else None, salt=si, hash=hi, name=first[0] if first else None, count=cnt.a[0] if cnt is not None else None,
                       user=str(fld(pair, 'Some.0.0')) if False else None)
            names.setdefault(n, got)
            ctx.require(names[n] == got, 'load-form:' + n, 'lines of one algorithm are read in several ways', F)
            # what is before the last ':' is the user name, what follows holds the pieces
            ctx.require(text.op == 'fld' and user.op == 'fld' and text.a[0] is user.a[0] and text.a[1][2] == '1' and user.a[1][2] == '0' or not (understood(strip(user)) and understood(strip(text))),
                        'load-user:' + n, 'the user name is %s where the pieces come from %s' % (str(user)[:80], str(text)[:80]), F)
            cut = next((x for x in walk(text) if x.op == 'pure' and x.a[0] in ('rsplit', 'split') and str(x.a[2]) in ('58', "':'")), None)
            if cut is not None:
                ctx.require(cut.a[0] == 'rsplit', 'load-colon:' + n, 'a user name with a colon is cut at its first colon', F)
    ctx.floor('algorithms read', len(names), 4)
    for n in sorted(set(forms) & set(names)):
        got, f = names[n], forms[n]
        want = [('user',), ':%s,' % got['name']]
        pcs = {got['salt']: ('salt', got['sep']), got['hash']: ('hash', got['sep'])}
        if got['iterations'] is not None:
            pcs[got['iterations']] = ('iterations',)
        for i in sorted(pcs):
            want += [pcs[i], ',']
        want[-1] = '\n'
        if any(x[0] == '??' for x in f if isinstance(x, tuple)):
            continue
        ctx.require(f == want and sorted(pcs) == list(range(1, len(pcs) + 1)), 'form:' + n, 'an account is written as %s but read as %s' % (show(f), show(want)), [])
        if got['count'] is not None:
            ctx.require(got['count'] == len(pcs) + 1, 'count:' + n, 'a line must have %s pieces but %d are written' % (got['count'], len(pcs) + 1), [])


class Load(Rule):
    """st.ps = accounts recorded in this pass of the loop; paths = passes of the loop, and returns"""
    init = ()

    def __init__(self, ctx):
        self.ctx, self.paths = ctx, []

    def pin(self, f):
        return True

    def peel(self, body, bb):
        return 0

    def on_call(self, E, st, c):
        if re.search(r'(Dash|Hash)Map.*::insert$', c.res or c.name):
            st.ps = st.ps + (('call', c.name, tuple(E.deep(st, x) for x in E.vals(st, c)), c.span),)

    def on_back(self, E, st, depth, bb):
        if depth:
            return
        self.paths.append((st.ps, st.copy(), None))
        st.ps = ()

    def on_return(self, E, st, val):
        self.paths.append((st.ps, st, E.deep(st, val)))


class Dump(Load):
    """st.ps = lines written in this pass of the loop"""

    def __init__(self, ctx, users, forms):
        self.ctx, self.users, self.forms = ctx, users, forms

    def on_call(self, E, st, c):
        n = c.res or c.name
        if re.search(r'::(write_all|flush|write)$', n) and 'fmt' not in n:
            st.ps = st.ps + ((n.rsplit('::', 1)[1], E.deep(st, E.vals(st, c)[1]) if not n.endswith('flush') else None),)

    def on_back(self, E, st, depth, bb):
        if depth:
            return
        ctx, F = self.ctx, facts_text(st)
        items = {f.a[0] for f, v in st.facts.items() if f.op == 'discr' and f.a[0].op == 'item' and v is Int(1) and depends(f.a[0], self.users)}
        lines = [x for k, x in st.ps if k == 'write_all']
        ctx.require(not any(k == 'write' for k, _ in st.ps), 'dump-partial', 'a line may be written in part', F)
        it = next((i for i in items if any(depends(x, i) for x in lines)), None)
        ctx.require(len(lines) == 1 or not lines and not items, 'dump-line', 'an account is written %d times' % len(lines), F)
        if it is None:
            ctx.require(not all(understood(x) for x in lines), 'dump-line', 'an account is not written', F)
            st.ps = ()
            return
        k, acc = fld(it, 'Some.0.0'), fld(it, 'Some.0.1')
        n = alg_of(E, st, fld(acc, 'hash_algorithm'))
        for x in lines:
            if x.op != 'cat' or n is None:
                ctx.require(x.op != 'cat', 'dump-form', 'an account is written without regard to its algorithm', F)
                continue
            form = []
            for y in x.a:
                if y.op == 'lit':
                    form.append(y.a[0].decode())
                elif y is k:
                    form.append(('user',))
                elif y.op == 'pure' and y.a[0] == 'b64encode':
                    form.append(({fld(acc, 'salt'): 'salt', fld(acc, 'hashed_password'): 'hash'}.get(y.a[2], '?'), y.a[1]))
                elif y is fld(acc, 'hash_algorithm', n + '.iterations') or y.op == 'pure' and y.a[0] == 'dec' and fld(acc, 'hash_algorithm', n + '.iterations') in y.a:
                    form.append(('iterations',))
                else:
                    form.append(('?' if understood(y) else '??', y))
            self.forms.setdefault(n, form)
            ctx.require(self.forms[n] == form, 'dump-form:' + n, 'accounts are written in several forms', F)
        st.ps = ()

    def on_return(self, E, st, val):
        if any(k == 'write_all' for k, _ in st.ps):
            # a failed write ends the dump with its error
            failed = any(f.op == 'discr' and 'write_all' in str(f.a[0]) and v is Int(1) for f, v in st.facts.items())
            self.ctx.require(failed, 'dump-all', 'the dump ends before the last account', facts_text(st))
            return
        ended = any(f.op == 'discr' and f.a[0].op == 'item' and v is Int(0) and depends(f.a[0], self.users) for f, v in st.facts.items())
        self.ctx.require(ended, 'dump-all', 'the dump may end before the last account', facts_text(st))
        self.ctx.require(any(k == 'flush' for k, _ in st.ps), 'dump-flush', 'the dump ends without writing out what is buffered', facts_text(st))


def strip(t):
    """the text of the line itself is not looked into"""
    for x in walk(t):
        if x.op in ('call', 'pure') and ('trim' in str(x.a[0]) or 'next' in str(x.a[0])):
            return sym('line')
    return t


def walk_all(st):
    for f in list(st.facts) + list(st.excl):
        yield from walk(f)


def show(f):
    return ''.join(x if isinstance(x, str) else '<%s>' % x[0] for x in f).strip()


def eqs(st, text):
    """literals the first piece of the text is known to equal"""
    r = set()
    for f, v in st.facts.items():
        if f.op == 'eq' and (v is TRUE or v is Int(1)):
            for a, b in (f.a, f.a[::-1]):
                p = part(a)
                if b.op == 'lit' and p and p == (0, text):
                    r.add(b.a[0].decode())
    return sorted(r)


def decoded(E, st, t):
    """((index, text), alphabet) if t is a base64 piece"""
    for x in walk(t):
        if x.op == 'pure' and x.a[0] == 'b64decode':
            p = part(x.a[2])
            if p:
                return p, x.a[1]
    return None


RULES = {'A01': a01, 'A02': a02}
