"""How often a product is rounded on its way into the result (C24).

The kernels are executed a second time, with a *count* in place of every floating-point value: the largest number of
rounded operations an element of A, B or C has gone through.  Everything else - addresses, loops, sizes - keeps its
meaning.  x + y and x - y: one more than the larger of the two; x * y: one more than their sum; fma(x, y, z): one more
than the larger of count(x) + count(y) and count(z).  A value that comes from a constant is exact (EXACT below): adding
zero to something still counts as an operation.

Two executions per kernel and depth: 'terms', where all loads start at 0, and 'old', where the previous value of the
tile starts at an unknown count and what does not contain it is left out (NEG), so that the count of the stored value
says how often the previous value has been rounded.  With
terms <= k+1 and old <= max(k, 1) for a call of depth k, and calls of depth k_1, ..., k_n >= 1 with sum K (C06, C07,
and C01-C05 for 'every product once'), no product of an element goes through more than K+1 rounded operations, and the
textbook argument gives |computed - exact| <= (K+1)u/(1-(K+1)u) * sum |a||b|."""
from fractions import Fraction
from .terms import *
from . import terms as T, symex
from .symex import Exec, Ptr, Vec, PIte, Unsupported, topoly
from .prover import Prover
from .cfront import E, S

EXACT = V('rounding_exact')          # no rounding, and no element: a constant
NEG = V('rounding_none')             # nothing of the previous value of the tile in it (execution 'old')
OLD = V('rounding_old')              # the count of the previous value (execution 'old')
_ex, _neg = EXACT.single().id, NEG.single().id
COPY = {'loadu_ps', 'load_ps', 'storeu_ps', 'store_ps', 'broadcast_ss', 'set1_ps', 'set_ps1', 'setzero_ps', 'unpacklo_ps', 'unpackhi_ps',
        'shuffle_ps', 'permute2f128_ps', 'castps256_ps128', 'insertf128_ps', 'extractf128_ps', 'undefined_ps', 'unpacklo_pd', 'unpackhi_pd'}
FT = ('float', 'double', 'vec')


def norm(x):
    """a value a loop has changed: started from a constant; started without the previous value"""
    if x in (EXACT, NEG):
        return x
    if _neg in x.vs():
        return NEG
    return subst(x, {_ex: ZERO}) if _ex in x.vs() else x


def real(t):
    return t in FT


class RExec(Exec):
    def __init__(s, prog, pr, old):
        Exec.__init__(s, prog, pr)
        s.old = old
        s.stored = set()
        s.const = NEG if old else EXACT

    # -- counts
    def more(s, x, y):
        """count of a sum"""
        a = s.larger(norm(x), norm(y))
        return a if a in (NEG, EXACT) else a + 1

    def larger(s, x, y):
        for p, q in ((x, y), (y, x)):
            if p in (EXACT, NEG):
                if q in (EXACT, NEG):
                    return EXACT if EXACT in (p, q) else NEG
                return q
        if x == y:
            return x
        d = (x - y).const()
        if d is None:
            if x == ZERO:          # counts are never negative
                return y
            if y == ZERO:
                return x
            if s.pr.prove(s.F, le(y, x)):
                return x
            if s.pr.prove(s.F, le(x, y)):
                return y
            raise Unsupported('which of two values has been rounded more often')
        return x if d >= 0 else y

    def times(s, x, y):
        x, y = norm(x), norm(y)
        for c in (NEG, EXACT):
            if c in (x, y):
                return c if x == y else (y if x == c else x) + 1
        return x + y + 1

    def fma(s, x, y, z):
        p = s.times(x, y)
        return s.more(p if p in (NEG, EXACT) else p - 1, z)

    # -- the language
    def load(s, p, t, st, tr):
        v = Exec.load(s, p, t, st, tr)
        if real(t) and isinstance(p, Ptr) and p.buf[0] in ('A', 'B', 'C'):
            if st.wrote.get(('any', p.buf[0])) and (p.off.const() is None or None in s.stored or p.off.const() in s.stored):
                raise Unsupported('reads back what it has written')
            return ZERO if not s.old else OLD if p.buf[0] == 'C' else NEG
        if real(t) and not (isinstance(p, Ptr) and p.buf[0] == 'arr'):
            raise Unsupported('floating-point value from elsewhere')
        return v

    def write(s, p, v, t, st, tr):
        if isinstance(p, Ptr) and p.buf[0] == 'C':
            s.stored.add(p.off.const())
        Exec.write(s, p, v, t, st, tr)

    def ev(s, e, st, tr, drop=False):
        s.F = st.facts
        if e.k == 'fnum':
            return s.const
        if e.k == 'inc' and real(e.t):
            raise Unsupported('++ on a floating-point value')
        return Exec.ev(s, e, st, tr, drop)

    def cast(s, e, st, tr):
        x, ck, q = e.a
        if ck == 'IntegralToFloating':
            s.ev(x, st, tr)
            return s.const
        if ck == 'FloatingCast':
            v = s.ev(x, st, tr)
            return v if e.t == 'double' or v in (EXACT, NEG) else v + 1
        if ck in ('FloatingToIntegral', 'FloatingToBoolean'):
            raise Unsupported('a decision on an element')
        return Exec.cast(s, e, st, tr)

    def unary(s, e, st, tr):
        if e.a[0] == '-' and real(e.t):
            return s.ev(e.a[1], st, tr)
        return Exec.unary(s, e, st, tr)

    def arith(s, op, x, y, t, ta, tb, st):
        if isinstance(x, Vec) or isinstance(y, Vec) or real(t) or real(ta) or real(tb):
            s.F = st.facts
            f = {'+': s.more, '-': s.more, '*': s.times}.get(op)
            if f is None:
                raise Unsupported('operator %s on elements' % op)
            if isinstance(x, Vec) and isinstance(y, Vec):
                return Vec([f(a, b) for a, b in zip(x.l, y.l)])
            return f(topoly(x), topoly(y))
        return Exec.arith(s, op, x, y, t, ta, tb, st)

    def builtin(s, name, v, args, st, tr):
        s.F = st.facts
        if name in ('fmaf', 'fma', '__builtin_fmaf', '__builtin_fma'):
            return s.fma(*[topoly(a) for a in v])
        if name.startswith('_mm'):
            o = name.split('_', 2)[2] if name.startswith('_mm_') else name[len('_mm256_'):]
            z = lambda f: Vec([f(*[topoly(a) for a in q]) for q in zip(*[x.l for x in v])])
            if o == 'setzero_ps':
                return Vec([s.const] * (8 if name.startswith('_mm256') else 4))
            if o in ('fmadd_ps', 'fmsub_ps', 'fnmadd_ps', 'fnmsub_ps'):
                return z(s.fma)
            if o in ('add_ps', 'sub_ps'):
                return z(s.more)
            if o == 'mul_ps':
                return z(s.times)
            if o not in COPY:
                raise Unsupported('intrinsic ' + name)
        elif any(real(a.t) for a in args):
            raise Unsupported('call of %s with an element' % name)
        return Exec.builtin(s, name, v, args, st, tr)


def counts(tr, mr, nr):
    out = {}
    for e in tr:
        if e[0] == 'w':
            o = e[2].const()
            if e[1] != ('C',) or o is None:
                raise Unsupported('store elsewhere')
            out.setdefault(int(o), []).append(P(e[3]))
        elif e[0] in ('loop', 'if'):
            for x in (e[1].body if e[0] == 'loop' else e[2]):
                if x[0] != 'r':
                    raise Unsupported('stores inside a loop or branch of a kernel')
        elif e[0] != 'r':
            raise Unsupported('effect %s in a kernel' % e[0])
    return out


def t_rounding(ctx, r, mr, nr):
    """how often a call rounds its products and the previous value of its tile, for every depth"""
    from . import small as sm
    fn = 'cake_sgemm_haswell_%dx%d' % (mr, nr)
    r.funcs.add(fn)
    pr = Prover()
    U = sm.unrolled(ctx, pr, fn, mr, nr)
    for res in range(U):
        q = V('q') if U > 1 else V('k')
        k = q * U + res if U > 1 else q
        for old in (False, True):
            F = [ge(q, 0), ge(OLD, 0)]
            ex = RExec(ctx.prog, pr, old)
            ex.F = F
            tr, alts = ex.run(fn, [Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), P(mr), P(nr), k], {}, F)
            sm.live(alts, fn)
            lim = OLD + maxp(k, ONE) if old else k + 1
            nm = '%s k=%s: %s' % (fn, show(k), 'the previous value is rounded at most max(k,1) times' if old else 'no product is rounded more than k+1 times')
            seen = counts(tr, mr, nr)
            bad = [(o, v) for o, l in sorted(seen.items()) for v in map(norm, l) if v not in (EXACT, NEG) and not pr.prove(F, le(v, lim))]
            if any(not v.vs() <= q.vs() | OLD.vs() for _o, v in bad) and not any(v.vs() <= q.vs() | OLD.vs() for _o, v in bad):
                raise Unsupported('%s: %s' % (nm, show(bad[0][1])[:200]))
            r.obls.append((nm, 'undecided' if bad else 'proved', ', '.join('element %d: %s' % (o, show(v)) for o, v in bad[:3])))
            r.inlined |= ex.used_inline; r.externals |= ex.externals
    if any(o[1] != 'proved' for o in r.obls):
        r.refuted_extra += reals(mr, nr)


def reals(mr, nr):
    return ['prod api=%s M=%d N=%d K=%d p=2 mr=%d nr=%d mc=%d kc=%d nc=%d pa=0 pb=0 beta=%d L1=32768 L2=1048576 L3=8388608 ncores=4 reps=1 own=0 real=1 seed=%d' % (
        api, 2 * mr + 1, nr + 1, K, mr, nr, mr, kc, nr, b, sd) for sd in range(1, 9) for api, b in (('KMN', 0), ('MKN', 1)) for K, kc in ((1, 1), (2, 1), (3, 3), (9, 2))]


# ------------------------------------------------------------------ outside the kernels elements are copied
ROOTS = ('cake_sgemm', 'cake_sgemm_online', 'cake_sgemm_2d')


def walk(x, f):
    if isinstance(x, (E, S)):
        f(x)
        for y in x.a:
            walk(y, f)
    elif isinstance(x, (list, tuple)):
        for y in x:
            walk(y, f)


def reachable(prog, roots):
    out, todo = {}, list(roots)
    while todo:
        n = todo.pop()
        if n in out or n.startswith('cake_sgemm_haswell_'):
            continue
        f = prog.funcs.get(n)
        if f is None or f.body is None:
            if n in prog.unsupported:
                raise Unsupported('no body for %s %s' % (n, prog.unsupported[n]))
            continue
        out[n] = f
        walk(f.body, lambda x: todo.append(x.a[0]) if isinstance(x, E) and x.k == 'fref' else None)
    return out


def elements(x):
    """is there an access to a float or vector element in x?"""
    hit = []
    def f(y):
        if isinstance(y, E) and y.t in ('float', 'vec') and (y.k == 'idx' or (y.k == 'un' and y.a[0] == '*')):
            hit.append(y)
        if isinstance(y, E) and y.k == 'call' and y.a[0].k == 'fref' and y.a[0].a[0].startswith('_mm'):
            hit.append(y)
    walk(x, f)
    return bool(hit)


def t_copies(ctx, r):
    """outside the kernels no arithmetic is done on elements: they are loaded, stored and set to zero"""
    fs = reachable(ctx.prog, ROOTS)
    for n, f in sorted(fs.items()):
        r.funcs.add(n)
        bad = []
        if elements(f.body):
            def look(x):
                if not isinstance(x, E):
                    return
                if x.k in ('bin', 'asg') and (x.t in ('float', 'vec') or any(isinstance(y, E) and y.t in ('float', 'vec') for y in x.a)) and x.a[0] not in (None, ',', '=='):
                    bad.append('operator %s' % x.a[0])
                elif x.k == 'un' and x.a[0] == '-' and x.t in ('float', 'vec'):
                    bad.append('negation')
                elif x.k == 'inc' and x.t in ('float', 'vec'):
                    bad.append('++')
                elif x.k == 'cast' and x.a[1] in ('FloatingCast', 'FloatingToIntegral') and elements(x.a[0]):
                    bad.append('conversion')
                elif x.k == 'call' and x.a[0].k == 'fref':
                    g = x.a[0].a[0]
                    o = g.split('_', 2)[2] if g.startswith('_mm_') else g[len('_mm256_'):] if g.startswith('_mm256_') else None
                    if o is not None and o not in COPY:
                        bad.append(g)
                    elif o is None and g not in fs and any(isinstance(y, E) and y.t in ('float', 'vec') for y in x.a[1]):
                        bad.append(g)
            walk(f.body, look)
        if bad:
            r.error = 'arithmetic on elements in %s (%s)' % (n, ', '.join(sorted(set(bad))[:4]))
            r.refuted_extra += reals(*ctx.shapes[0])
        else:
            r.obls.append(('%s: elements are only copied' % n, 'proved', ''))
