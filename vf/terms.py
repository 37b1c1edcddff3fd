"""Integer/real polynomials over interned atoms, and conditions over them.

Atoms: ('v',name) variable; ('ite',cond,p,q); ('div',p,q) and ('mod',p,q) (Euclidean, q>0 is an obligation at the
place that creates it); ('fn',name,args...) uninterpreted; ('ld',buf,addr,epoch) a memory cell's value on entry.
Conditions (hash-consed tuples): True, False, ('le',p) p<=0, ('eq',p) p=0, ('ne',p), ('lt',p) real p<0,
('and',cs), ('or',cs), ('b',name) / ('nb',name) opaque truth value."""
from fractions import Fraction
from math import gcd
from functools import reduce

_atoms = {}
_list = []


class Atom:
    __slots__ = ('id', 'k', 'key', 'hasite', 'hasdiv', 'vs')


def atom(*key):
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(_list); a.k = key[0]; a.key = key
        _list.append(a); _atoms[key] = a
        vs = frozenset([a.id]); hi = key[0] == 'ite'; hd = key[0] in ('div', 'mod')
        for x in key[1:]:
            for y in (x if isinstance(x, tuple) and not is_cond(x) else (x,)):
                w, i, d = _info(y)
                vs |= w; hi |= i; hd |= d
        a.vs, a.hasite, a.hasdiv = vs, hi, hd
    return a


def is_cond(x):
    return isinstance(x, tuple) and x and x[0] in ('le', 'eq', 'ne', 'lt', 'ler', 'and', 'or', 'b', 'nb')


_ci = {}


def _info(y):
    if isinstance(y, Poly):
        return y.vs(), any(_list[i].hasite for m in y.m for i in m), any(_list[i].hasdiv for m in y.m for i in m)
    if is_cond(y):
        r = _ci.get(y)
        if r is None:
            vs, hi, hd = frozenset(), False, False
            for z in (y[1] if y[0] in ('and', 'or') else y[1:]):
                w, i, d = _info(z)
                vs |= w; hi |= i; hd |= d
            r = _ci[y] = (vs, hi, hd)
        return r
    if isinstance(y, tuple):
        vs, hi, hd = frozenset(), False, False
        for z in y:
            w, i, d = _info(z)
            vs |= w; hi |= i; hd |= d
        return vs, hi, hd
    return frozenset(), False, False


class Poly:
    __slots__ = ('m', '_h', '_vs')

    def __init__(s, m):
        s.m = m; s._h = None; s._vs = None

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.m.items()))
        return s._h

    def __eq__(s, o):
        return s is o or (isinstance(o, Poly) and hash(s) == hash(o) and s.m == o.m)

    def __ne__(s, o):
        return not s == o

    def __add__(s, o):
        o = P(o)
        if not o.m:
            return s
        if not s.m:
            return o
        m = dict(s.m)
        for k, c in o.m.items():
            c2 = m.get(k, 0) + c
            if c2:
                m[k] = c2
            else:
                del m[k]
        return Poly(m)
    __radd__ = __add__

    def __neg__(s):
        return Poly({k: -c for k, c in s.m.items()})

    def __sub__(s, o):
        return s + (-P(o))

    def __rsub__(s, o):
        return P(o) + (-s)

    def __mul__(s, o):
        o = P(o)
        if len(o.m) == 1 and () in o.m:
            c = o.m[()]
            return s if c == 1 else Poly({k: norm(v * c) for k, v in s.m.items()})
        m = {}
        for k, c in s.m.items():
            for k2, c2 in o.m.items():
                kk = tuple(sorted(k + k2)) if k and k2 else (k or k2)
                v = m.get(kk, 0) + c * c2
                if v:
                    m[kk] = norm(v)
                else:
                    m.pop(kk, None)
        return Poly(m)
    __rmul__ = __mul__

    def const(s):
        """the value if constant, else None"""
        if not s.m:
            return 0
        if len(s.m) == 1 and () in s.m:
            return s.m[()]
        return None

    def vs(s):
        """ids of every atom occurring, at any depth"""
        if s._vs is None:
            r = frozenset()
            for m in s.m:
                for i in m:
                    r |= _list[i].vs
            s._vs = r
        return s._vs

    def atoms(s):
        return {i for m in s.m for i in m}

    def single(s):
        """the atom if the poly is exactly one atom"""
        if len(s.m) == 1:
            (k, c), = s.m.items()
            if c == 1 and len(k) == 1:
                return _list[k[0]]
        return None

    def __repr__(s):
        return show(s)


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(x.id,): 1})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Poly({(): norm(x)}) if x else ZERO
    raise TypeError(repr(x))


ZERO = Poly({})
ONE = Poly({(): 1})


def V(name):
    return P(atom('v', name))


_fresh = [0]


def fresh(name):
    _fresh[0] += 1
    return V('%s#%d' % (name, _fresh[0]))


# ---------------------------------------------------------------- conditions
def _prim(p, intp=True):
    """divide by the positive content of the coefficients"""
    cs = [c for c in p.m.values()]
    if any(isinstance(c, Fraction) for c in cs):
        l = reduce(lambda a, b: a * b // gcd(a, b), [Fraction(c).denominator for c in cs], 1)
        p = p * l
        cs = [c for c in p.m.values()]
    nc = [abs(c) for k, c in p.m.items() if k]
    return p, reduce(gcd, nc, 0)


def le(a, b=0):
    """a <= b over the integers"""
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return c <= 0
    p, g = _prim(p)
    if g > 1:
        k = p.m.get((), 0)
        m = {q: v // g for q, v in p.m.items() if q}
        k2 = -((-k) // g)          # ceil(k/g): sum/g <= floor(-k/g)
        if k2:
            m[()] = k2
        p = Poly(m)
    return ('le', p)


def lt(a, b):
    return le(P(a) + 1, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ltr(a, b):
    p = P(a) - P(b)
    c = p.const()
    return c < 0 if c is not None else ('lt', p)


def ler(a, b):
    p = P(a) - P(b)
    c = p.const()
    return c <= 0 if c is not None else ('ler', p)


def _eqn(p):
    p, g = _prim(p)
    if p.m[min(p.m)] < 0:
        p = -p
    if g > 1 and p.m.get((), 0) % g == 0:
        p = Poly({k: c // g for k, c in p.m.items()})
    return p


def eq(a, b=0):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return c == 0
    return ('eq', _eqn(p))


def ne(a, b=0):
    c = eq(a, b)
    return (not c) if isinstance(c, bool) else ('ne', c[1])


def neg(c):
    if isinstance(c, bool):
        return not c
    k = c[0]
    if k == 'le':
        return le(1 - c[1])
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'lt':
        return ('ler', -c[1])
    if k == 'ler':
        return ('lt', -c[1])
    if k == 'and':
        return disj(*[neg(x) for x in c[1]])
    if k == 'or':
        return conj(*[neg(x) for x in c[1]])
    if k == 'b':
        return ('nb', c[1])
    if k == 'nb':
        return ('b', c[1])
    raise ValueError(c)


def conj(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        for d in (c[1] if c[0] == 'and' else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        if neg(d) in out or d[0] == 'or' and all(neg(x) in out for x in d[1]):
            return False
    return True if not out else out[0] if len(out) == 1 else ('and', tuple(out))


def disj(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        for d in (c[1] if c[0] == 'or' else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        if neg(d) in out or d[0] == 'and' and all(neg(x) in out for x in d[1]):
            return True
    return False if not out else out[0] if len(out) == 1 else ('or', tuple(out))


def implies(a, b):
    return disj(neg(a), b)


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    a, b = assume(a, c), assume(b, neg(c))
    if a == b:
        return a
    if c[0] in ('ne', 'nb', 'or'):
        c, a, b = neg(c), b, a
    # pull out the common part: ite(c,x+d,x+e) = x + ite(c,d,e)
    com = {k: v for k, v in a.m.items() if b.m.get(k) == v}
    if com:
        x = Poly(com)
        return x + P(atom('ite', c, a - x, b - x))
    return P(atom('ite', c, a, b))


def maxp(a, b):
    return ite(le(a, b), b, a)


def minp(a, b):
    return ite(le(a, b), a, b)


def citec(c, a, b):
    """condition-valued if"""
    return disj(conj(c, a), conj(neg(c), b))


# ---------------------------------------------------------------- division
def pdivmod(a, b):
    """polynomial division of a by b: (q, r) with a = q*b + r, dividing by b's leading monomial as long as possible"""
    if b.const() is not None:
        c = b.const()
        if c == 0:
            return ZERO, a
        q, r = {}, {}
        for k, v in a.m.items():
            if isinstance(v, int) and isinstance(c, int):
                d = v // c if v % c == 0 or () == k else None
                if d is None:
                    # keep the divisible part
                    d = v // c
                if d:
                    q[k] = d
                if v - d * c:
                    r[k] = v - d * c
            else:
                q[k] = Fraction(v) / c
        return Poly(q), Poly(r)
    lead = max((k for k in b.m), key=lambda k: (len(k), k))
    lc = b.m[lead]
    q, r = ZERO, a
    for _ in range(200):
        for k in sorted(r.m, key=lambda k: (-len(k), k)):
            v = r.m[k]
            rest = _mdiv(k, lead)
            if rest is not None and (not isinstance(v, int) or not isinstance(lc, int) or v % lc == 0):
                t = Poly({rest: norm(Fraction(v) / lc)})
                q = q + t; r = r - t * b
                break
        else:
            return q, r
    return q, r


def _mdiv(k, l):
    k = list(k)
    for i in l:
        if i in k:
            k.remove(i)
        else:
            return None
    return tuple(k)


def exact_div(a, b):
    """a/b if b divides a as polynomials (through if-then-else), else None"""
    a, b = P(a), P(b)
    q, r = pdivmod(a, b)
    if not r.m:
        return q
    for i in sorted(r.atoms()):
        at = _list[i]
        if at.k == 'ite':
            c = at.key[1]
            x = exact_div(assume(a, c), assume(b, c)); y = exact_div(assume(a, neg(c)), assume(b, neg(c)))
            if x is not None and y is not None:
                return ite(c, x, y)
            return None
    return None


def div(a, b):
    a, b = P(a), P(b)
    if b == ONE:
        return a
    x, y = a.const(), b.const()
    if x is not None and y is not None and y != 0:
        return P(int(Fraction(x) // Fraction(y)))
    e = exact_div(a, b)
    if e is not None:
        return e
    if y is not None and y > 1:
        q, r = pdivmod(a, b)      # split off the multiples of a constant
        if q.m and r.m:
            return q + P(atom('div', r, b))
    return P(atom('div', a, b))


def mod(a, b):
    a, b = P(a), P(b)
    if b == ONE:
        return ZERO
    x, y = a.const(), b.const()
    if x is not None and y is not None and y != 0:
        return P(int(Fraction(x) % Fraction(y)))
    e = exact_div(a, b)
    if e is not None:
        return ZERO
    if y is not None and y > 1:
        _q, r = pdivmod(a, b)
        a = r
        c = a.const()
        if c is not None:
            return P(c % y)
        if y == 2 and a.m.get((), 0) == 1:
            return ONE - mod(a - 1, 2)
    return P(atom('mod', a, b))


def rdiv(a, b):
    """real division"""
    a, b = P(a), P(b)
    y = b.const()
    if y:
        return a * (Fraction(1) / Fraction(y))
    if b == a:
        return ONE
    return P(atom('rdiv', a, b))


# ---------------------------------------------------------------- substitution
def subst(x, s, memo=None):
    """simultaneous substitution {atom id: Poly} in a Poly or condition"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        if not (x.vs() & s.keys()):
            return x
        r = memo.get(x)
        if r is None:
            r = ZERO
            for k, c in x.m.items():
                t = P(c)
                plain = []
                for i in k:
                    if _list[i].vs & s.keys():
                        t = t * _sa(_list[i], s, memo)
                    else:
                        plain.append(i)
                if plain:
                    t = t * Poly({tuple(plain): 1})
                r = r + t
            memo[x] = r
        return r
    if isinstance(x, bool):
        return x
    if not (_info(x)[0] & s.keys()):
        return x
    k = x[0]
    if k in ('and', 'or'):
        return (conj if k == 'and' else disj)(*[subst(c, s, memo) for c in x[1]])
    if k in ('b', 'nb'):
        return x
    p = subst(x[1], s, memo)
    return remk(k, p)


def remk(k, p):
    if k == 'le':
        return le(p)
    if k == 'eq':
        return eq(p)
    if k == 'ne':
        return ne(p)
    if k == 'lt':
        return ltr(p, 0)
    if k == 'ler':
        return ler(p, 0)
    raise ValueError(k)


def _sa(a, s, memo):
    if a.id in s:
        return s[a.id]
    m = memo.get(a.id)
    if m is not None:
        return m
    k = a.k
    if k == 'ite':
        r = ite(subst(a.key[1], s, memo), subst(a.key[2], s, memo), subst(a.key[3], s, memo))
    elif k in ('div', 'mod', 'rdiv'):
        r = {'div': div, 'mod': mod, 'rdiv': rdiv}[k](subst(a.key[1], s, memo), subst(a.key[2], s, memo))
    elif k == 'fn':
        r = fn(a.key[1], *[subst(y, s, memo) for y in a.key[2:]])
    elif k == 'ld':
        b = a.key[1]
        b = tuple(subst(y, s, memo) if isinstance(y, Poly) else y for y in b)
        r = P(atom('ld', b, subst(a.key[2], s, memo), *a.key[3:]))
    else:
        r = P(a)
    memo[a.id] = r
    return r


_fnhook = {}


def fn(name, *args):
    args = [P(a) for a in args]
    h = _fnhook.get(name)
    if h:
        r = h(*args)
        if r is not None:
            return r
    return P(atom('fn', name, *args))


_am = {}


def assume(x, c):
    """simplify x knowing condition c (syntactic: replaces occurrences of c and its negation)"""
    if isinstance(c, bool) or isinstance(x, bool):
        return x
    key = (x, c)
    r = _am.get(key)
    if r is None:
        lits = {}
        for d in (c[1] if c[0] == 'and' else (c,)):
            lits[d] = True
            lits[neg(d)] = False
            if d[0] == 'eq':
                lits[le(d[1])] = True; lits[le(-d[1])] = True
                lits[le(1 + d[1])] = False; lits[le(1 - d[1])] = False
            if d[0] == 'le':
                q = d[1] - 1   # p<=0 -> p<=1 ; p>=1 false; p==1 false
                lits[eq(q)] = False; lits[ne(q)] = True
        r = _as(x, lits, {}, 0)
        if len(_am) > 200000:
            _am.clear()
        _am[key] = r
    return r


def _as(x, L, memo, d):
    if isinstance(x, bool):
        return x
    if isinstance(x, Poly):
        if not any(_list[i].hasite for m in x.m for i in m):
            return x
        r = memo.get(x)
        if r is None:
            r = ZERO
            for k, c in x.m.items():
                t = P(c)
                for i in k:
                    a = _list[i]
                    if not a.hasite:
                        t = t * P(a); continue
                    if a.k == 'ite':
                        cc = _as(a.key[1], L, memo, d)
                        if cc is True:
                            v = _as(a.key[2], L, memo, d)
                        elif cc is False:
                            v = _as(a.key[3], L, memo, d)
                        else:
                            v = ite0(cc, _as(a.key[2], L, memo, d), _as(a.key[3], L, memo, d))
                    elif a.k in ('div', 'mod', 'rdiv'):
                        v = {'div': div, 'mod': mod, 'rdiv': rdiv}[a.k](_as(a.key[1], L, memo, d), _as(a.key[2], L, memo, d))
                    elif a.k == 'fn':
                        v = fn(a.key[1], *[_as(y, L, memo, d) for y in a.key[2:]])
                    elif a.k == 'ld':
                        v = P(atom('ld', tuple(_as(y, L, memo, d) if isinstance(y, Poly) else y for y in a.key[1]), _as(a.key[2], L, memo, d), *a.key[3:]))
                    else:
                        v = P(a)
                    t = t * v
                r = r + t
            memo[x] = r
        return r
    v = L.get(x)
    if v is not None:
        return v
    if x[0] in ('and', 'or'):
        return (conj if x[0] == 'and' else disj)(*[_as(c, L, memo, d) for c in x[1]])
    if x[0] in ('b', 'nb'):
        return x
    return remk(x[0], _as(x[1], L, memo, d))


def ite0(c, a, b):
    if a == b:
        return a
    if c is True:
        return a
    if c is False:
        return b
    if c[0] in ('ne', 'nb', 'or'):
        c, a, b = neg(c), b, a
    return P(atom('ite', c, a, b))


# ---------------------------------------------------------------- sums
_bern = {}


def faulhaber(p, n):
    """sum_{t=0}^{n-1} t^p as Poly in n"""
    # via Lagrange on exact values; small degrees only
    key = p
    if key not in _bern:
        pts = []
        s = 0
        for i in range(p + 2):
            pts.append((i, s)); s += i ** p
        # Newton form -> coefficients
        coef = [Fraction(0)] * (p + 2)
        for i, (xi, yi) in enumerate(pts):
            num = [Fraction(1)]; den = Fraction(1)
            for j, (xj, _) in enumerate(pts):
                if j != i:
                    num = [Fraction(0)] + num
                    for q in range(len(num) - 1):
                        num[q] -= num[q + 1] * xj
                    den *= xi - xj
            for q in range(len(num)):
                coef[q] += num[q] * yi / den
        _bern[key] = coef
    r = ZERO; pw = ONE
    for c in _bern[key]:
        r = r + pw * c
        pw = pw * n
    return r


class NoSum(Exception):
    pass


def psum(f, t, n, depth=0):
    """sum_{t=0}^{n-1} f(t), n >= 0; t an atom"""
    f = P(f); n = P(n)
    tid = t.id
    if tid not in f.vs():
        return f * n
    # an if-then-else that depends on t
    for i in sorted(f.atoms()):
        a = _list[i]
        if tid in a.vs and i != tid:
            if a.k != 'ite' or depth > 6:
                raise NoSum(repr(a.key))
            c = a.key[1]
            if tid not in _info(c)[0]:
                return ite(c, psum(assume(f, c), t, n, depth + 1), psum(assume(f, neg(c)), t, n, depth + 1))
            lits = list(c[1]) if c[0] == 'and' else [c]
            dep = [x for x in lits if tid in _info(x)[0]]
            ind = [x for x in lits if tid not in _info(x)[0]]
            if len(dep) != 1:
                raise NoSum('condition ' + show(c))
            d = dep[0]
            fT, fF = assume(f, c), assume(f, neg(c))
            ind = conj(*ind)
            if d[0] in ('eq', 'ne'):
                # t == X
                X = solve(d[1], tid)
                if X is None:
                    raise NoSum('condition ' + show(c))
                if d[0] == 'ne':
                    fT, fF = fF, fT
                    if ind is not True:
                        raise NoSum('condition ' + show(c))
                base = psum(fF, t, n, depth + 1)
                diff = subst(fT - fF, {tid: X})
                return base + ite(conj(ind, le(0, X), lt(X, n)), diff, 0)
            if d[0] == 'le':
                # a*t + b <= 0 with a = +-1
                X, sg = solve_le(d[1], tid)
                if X is None:
                    raise NoSum('condition ' + show(c))
                if sg > 0:      # t <= X: true on [0, X]
                    k = minp(maxp(X + 1, 0), n)
                    A = psum(fT, t, k, depth + 1) + psum(subst(fF, {tid: P(t) + k}), t, n - k, depth + 1)
                else:           # t >= X
                    k = minp(maxp(X, 0), n)
                    A = psum(fF, t, k, depth + 1) + psum(subst(fT, {tid: P(t) + k}), t, n - k, depth + 1)
                return ite(ind, A, psum(fF, t, n, depth + 1)) if ind is not True else A
            raise NoSum('condition ' + show(c))
    r = ZERO
    for k, c in f.m.items():
        e = sum(1 for i in k if i == tid)
        rest = Poly({tuple(i for i in k if i != tid): c})
        r = r + rest * faulhaber(e, n)
    return r


def solve(p, tid):
    """X with p = 0 <=> t = X, for p linear in t with coefficient +-1"""
    co, rest = ZERO, ZERO
    for k, c in p.m.items():
        n = sum(1 for i in k if i == tid)
        if n == 0:
            if any(tid in _list[i].vs for i in k):
                return None
            rest = rest + Poly({k: c})
        elif n == 1 and k == (tid,):
            co = co + c
        else:
            return None
    c = co.const()
    if c == 1:
        return -rest
    if c == -1:
        return rest
    return None


def solve_le(p, tid):
    X = solve(p, tid)
    if X is None:
        return None, 0
    return X, (1 if p.m[(tid,)] > 0 else -1)


# ---------------------------------------------------------------- printing / evaluation
def show(x, d=0):
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, Poly):
        if not x.m:
            return '0'
        out = []
        for k in sorted(x.m, key=lambda k: (-len(k), k)):
            c = x.m[k]
            s = '*'.join(showa(_list[i]) for i in k)
            if not k:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(x, tuple) and is_cond(x):
        k = x[0]
        if k in ('and', 'or'):
            return '(' + (' && ' if k == 'and' else ' || ').join(show(c) for c in x[1]) + ')'
        if k == 'b':
            return x[1]
        if k == 'nb':
            return '!' + x[1]
        return show(x[1]) + {'le': ' <= 0', 'eq': ' == 0', 'ne': ' != 0', 'lt': ' < 0', 'ler': ' <= 0'}[k]
    return str(x)


def showa(a):
    if a.k == 'v':
        return a.key[1]
    if a.k == 'ite':
        return '(%s ? %s : %s)' % (show(a.key[1]), show(a.key[2]), show(a.key[3]))
    if a.k in ('div', 'mod', 'rdiv'):
        return '(%s %s %s)' % (show(a.key[1]), {'div': '/', 'mod': '%', 'rdiv': './'}[a.k], show(a.key[2]))
    if a.k == 'fn':
        return '%s(%s)' % (a.key[1], ', '.join(show(y) for y in a.key[2:]))
    if a.k == 'ld':
        return '%s[%s]' % (''.join(str(y) for y in a.key[1]), show(a.key[2]))
    return str(a.key)


class EvalErr(Exception):
    pass


def ev(x, env, fns=None, memo=None):
    """concrete evaluation; env: {atom id: number}"""
    if isinstance(x, bool):
        return x
    if isinstance(x, Poly):
        r = 0
        for k, c in x.m.items():
            t = c
            for i in k:
                t = t * eva(_list[i], env, fns)
            r += t
        return r
    k = x[0]
    if k == 'and':
        return all(ev(c, env, fns) for c in x[1])
    if k == 'or':
        return any(ev(c, env, fns) for c in x[1])
    if k == 'b':
        return bool(env[x[1]])
    if k == 'nb':
        return not env[x[1]]
    v = ev(x[1], env, fns)
    return {'le': v <= 0, 'ler': v <= 0, 'eq': v == 0, 'ne': v != 0, 'lt': v < 0}[k]


def eva(a, env, fns=None):
    v = env.get(a.id)
    if v is not None:
        return v
    k = a.k
    if k == 'ite':
        return ev(a.key[2], env, fns) if ev(a.key[1], env, fns) else ev(a.key[3], env, fns)
    if k in ('div', 'mod'):
        x, y = ev(a.key[1], env, fns), ev(a.key[2], env, fns)
        if y == 0:
            raise EvalErr('division by zero')
        return x // y if k == 'div' else x % y
    if k == 'rdiv':
        y = ev(a.key[2], env, fns)
        if y == 0:
            raise EvalErr('division by zero')
        return Fraction(ev(a.key[1], env, fns)) / y
    if k == 'fn' and fns and a.key[1] in fns:
        return fns[a.key[1]](*[ev(y, env, fns) for y in a.key[2:]])
    raise EvalErr('no value for ' + showa(a))


def topy(x, names):
    """python source of x; names: atom id -> python name"""
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, Poly):
        if not x.m:
            return '0'
        out = []
        for k, c in x.m.items():
            f = [] if c == 1 and k else ['(%s)' % c if not isinstance(c, Fraction) else '(Fraction(%d,%d))' % (c.numerator, c.denominator)]
            f += [topya(_list[i], names) for i in k]
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    k = x[0]
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(topy(c, names) for c in x[1]) + ')'
    if k == 'b':
        return names[x[1]]
    if k == 'nb':
        return '(not %s)' % names[x[1]]
    return '(%s %s 0)' % (topy(x[1], names), {'le': '<=', 'ler': '<=', 'eq': '==', 'ne': '!=', 'lt': '<'}[k])


def topya(a, names):
    if a.id in names:
        return names[a.id]
    if a.k == 'ite':
        return '(%s if %s else %s)' % (topy(a.key[2], names), topy(a.key[1], names), topy(a.key[3], names))
    if a.k == 'div':
        return '(%s // %s)' % (topy(a.key[1], names), topy(a.key[2], names))
    if a.k == 'mod':
        return '(%s %% %s)' % (topy(a.key[1], names), topy(a.key[2], names))
    if a.k == 'rdiv':
        return '(Fraction(%s)/%s)' % (topy(a.key[1], names), topy(a.key[2], names))
    raise EvalErr('no value for ' + showa(a))


def get(i):
    return _list[i]


def cvs(c):
    return _info(c)[0]


def hasite(x):
    return _info(x)[1]


def hasdiv(x):
    return _info(x)[2]
