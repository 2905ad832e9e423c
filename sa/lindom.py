"""Linear-inequality abstract domain: conjunctions of `lin <= 0` over integer atoms, entailment by bounded
Fourier-Motzkin elimination on the constraints connected to the goal."""
from terms import *
from math import gcd

RANGES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
          'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
          'bool': (0, 1), 'isize': (-2**63, 2**63 - 1), 'char': (0, 0x10ffff), 'u128': (0, 2**128 - 1)}


def trange(atom):
    if atom.op == 'bits':               # (x >> lo) & (2^n-1)
        return 0, (1 << atom.a[2]) - 1
    if atom.op in ('len',):
        return 0, 2**56 - 1           # nothing in memory is longer than the address space
    if atom.op == 'min':
        return None
    t = TYPES.get(atom)
    return RANGES.get(t)


def norm(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum + c <= 0 -> sum/g <= floor(-c/g)
        return -((-c) // g), {k: v // g for k, v in d.items()}
    return c, d


class Sys:
    def __init__(self):
        self.cons = set()      # (c, ((atom,coef)...)) meaning lin <= 0
        self.bad = False

    def add_le0(self, t):
        c, d = lin_of(t)
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c > 0:
                self.bad = True
            return
        c, d = norm(c, d)
        self.cons.add((c, tuple(sorted(d.items(), key=lambda kv: kv[0].id))))

    def add_eq0(self, t):
        self.add_le0(t)
        self.add_le0(mulc(t, -1))


def infeasible(cons, limit=400):
    """True if the conjunction of lin<=0 has no (rational) solution"""
    cur = {}
    for c, d in cons:
        k = d
        if k not in cur or cur[k] < c:
            cur[k] = c
    cur = [(c, dict(d)) for d, c in cur.items()]
    while True:
        for c, d in cur:
            if not d and c > 0:
                return True
        cur = [(c, d) for c, d in cur if d]
        if not cur:
            return False
        occ = {}
        for c, d in cur:
            for k, v in d.items():
                p = occ.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k.id))
        pos = [(c, d) for c, d in cur if d.get(var, 0) > 0]
        ng = [(c, d) for c, d in cur if d.get(var, 0) < 0]
        rest = [(c, d) for c, d in cur if var not in d]
        if len(rest) + len(pos) * len(ng) > limit:
            return False
        new = {}
        for c, d in rest:
            k = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
            if k not in new or new[k] < c:
                new[k] = c
        for c1, d1 in pos:
            a = d1[var]
            for c2, d2 in ng:
                b = -d2[var]
                c = c1 * b + c2 * a
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * b
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * a
                d = {k: v for k, v in d.items() if v}
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = norm(c, d)
                k = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
                if k not in new or new[k] < c:
                    new[k] = c
        cur = [(c, dict(d)) for d, c in new.items()]


def atoms_of(t):
    c, d = lin_of(t)
    return set(d)


def pieces(facts):
    """{split term: number of leading pieces known to exist} for `text.split(ASCII separator)`"""
    out = {}
    for f, v in facts.items():
        if f.op == 'discr' and v.op == 'int' and v.a[0] == 1 and f.a[0].op == 'item':
            s, k = f.a[0].a[0], f.a[0].a[1]
            if isinstance(k, T):
                if k.op != 'int':
                    continue
                k = k.a[0]
            if s.op == 'pure' and s.a[0] == 'split' and len(s.a) == 3 and s.a[2].op == 'int' and s.a[2].a[0] < 128:
                out[s] = max(out.get(s, 0), k + 1)
    return out


def piece(s, k):
    """k-th piece of a split term"""
    return project(mk('item', s, Int(k)), ('f', 'Some', '0'))


def part_of(a):
    """quotients and remainders of unsigned terms (t <= 0)"""
    if a.op == 'bits' and a.a[1] > 0:
        x, k, n = a.a
        out = [sub(mulc(a, 1 << k), x)]
        r = trange(x)
        if k + n >= 64 or r and r[1] < 1 << (k + n):
            out.append(sub(sub(x, mulc(a, 1 << k)), Int((1 << k) - 1)))
        return out
    if a.op == 'bin' and a.a[0] in ('Div', 'Rem') and a.a[2].op == 'int' and a.a[2].a[0] > 0 and str(TYPES.get(a, '')).startswith('u'):
        x, k = a.a[1], a.a[2].a[0]
        if a.a[0] == 'Div':
            return [sub(mulc(a, k), x), sub(sub(x, mulc(a, k)), Int(k - 1))]
        return [sub(a, x), sub(a, Int(k - 1))]
    return []


def system(facts, excl, goal_atoms):
    """constraints from facts connected to the goal's atoms"""
    cand = []
    for s, n in pieces(facts).items():
        # the pieces and the separators between them lie side by side in the text
        t = Int(n - 1)
        for i in range(n):
            t = add(t, length(piece(s, i)))
        cand.append(sub(t, length(s.a[1])))
    for f, v in facts.items():
        if f.op == 'lt0' and v.op == 'int':
            t = f.a[0]
            if v.a[0]:
                cand.append(add(t, Int(1)))
            else:
                cand.append(mulc(t, -1))
        elif f.op == 'eq0' and v.op == 'int':
            if v.a[0]:
                cand.append(f.a[0])
                cand.append(mulc(f.a[0], -1))
            else:
                # a sum of non-negative terms that is not zero is at least one
                c, d = lin_of(f.a[0])
                for k in (1, -1):
                    if c * k >= 0 and all(v * k > 0 and (trange(x) or (-1,))[0] >= 0 for x, v in d.items()):
                        cand.append(sub(Int(1), mulc(f.a[0], k)))
        elif v.op == 'int':
            cand.append(sub(f, v))
            cand.append(sub(v, f))
        elif f.op in ('starts_with', ) and v.op == 'int':
            pass
    for f, v in facts.items():
        if f.op == 'starts_with' and v is TRUE:
            cand.append(sub(length(f.a[1]), length(f.a[0])))
        if f.op == 'eq' and v is TRUE:
            x, y = f.a
            if y.op == 'lit' or x.op == 'lit' or True:
                lx, ly = length(x), length(y)
                if y.op in ('lit',) or x.op in ('lit',):
                    cand.append(sub(lx, ly))
                    cand.append(sub(ly, lx))
    atoms = set(goal_atoms)
    s = Sys()
    used = set()
    frontier = set(atoms)
    parts = set()
    while True:
        grew = False
        for a in atoms - parts:
            parts.add(a)
            cand.extend(part_of(a))
        for i, t in enumerate(cand):
            if i in used:
                continue
            at = atoms_of(t)
            if not at or at & atoms:
                used.add(i)
                s.add_le0(t)
                if not at <= atoms:
                    atoms |= at
                    grew = True
        if not grew:
            break
    for a in list(atoms):
        r = trange(a)
        if r:
            s.add_le0(sub(Int(r[0]), a))
            s.add_le0(sub(a, Int(r[1])))
        if a.op == 'min':
            for x in a.a:
                s.add_le0(sub(a, x))
        if a.op == 'max':
            for x in a.a:
                s.add_le0(sub(x, a))
    for t, vals in excl.items():
        if t in atoms:
            r = trange(t)
            if r:
                lo, hi = r
                ints = {v.a[0] for v in vals if v.op == 'int'}
                while lo in ints:
                    lo += 1
                while hi in ints:
                    hi -= 1
                s.add_le0(sub(Int(lo), t))
                s.add_le0(sub(t, Int(hi)))
    return s


def decide_lt0(facts, excl, t):
    """t < 0 under the facts: True / False / None"""
    if t.op == 'int':
        return t.a[0] < 0
    s = system(facts, excl, atoms_of(t))
    if s.bad:
        return True
    base = set(s.cons)
    # can t >= 0 ?
    s1 = Sys(); s1.cons = set(base); s1.add_le0(mulc(t, -1))
    if infeasible(s1.cons):
        return True
    s2 = Sys(); s2.cons = set(base); s2.add_le0(add(t, Int(1)))
    if infeasible(s2.cons):
        return False
    return None


def decide_eq0(facts, excl, t):
    if t.op == 'int':
        return t.a[0] == 0
    c, d = lin_of(t)
    if len(d) == 1:
        (k, v), = d.items()
        if c % v == 0:
            val = Int(-c // v)
            if val in excl.get(k, ()):
                return False
    s = system(facts, excl, atoms_of(t))
    if s.bad:
        return True
    base = set(s.cons)
    s1 = Sys(); s1.cons = set(base); s1.add_eq0(t)
    if infeasible(s1.cons):
        return False
    s2 = Sys(); s2.cons = set(base); s2.add_le0(add(t, Int(1)))
    s3 = Sys(); s3.cons = set(base); s3.add_le0(add(mulc(t, -1), Int(1)))
    if infeasible(s2.cons) and infeasible(s3.cons):
        return True
    return None
