"""Decides  facts |- goal  over the integers (nonlinear), for all values, with no bound.

Order of attack: syntactic simplification; case split on if-then-else and disjunctions; elimination of solved
equalities; removal of / and % (exact quotient found by polynomial division and its defining inequalities proved, else
a fresh quotient and remainder); polynomial normal form; z3 linear arithmetic over monomials with products of facts
added; z3 nonlinear arithmetic with a time limit."""
import time, itertools, random
import z3
from .terms import *
from . import terms as T

STAT = {'normal-form': 0, 'z3-linear': 0, 'z3-products': 0, 'z3-nonlinear': 0, 'queries': 0, 'solver_s': 0.0, 'unknown': 0}
_cur = [set()]


# ---- z3, through its C interface, with every condition translated once
_ctx = z3.main_ctx()
_cr = _ctx.ref()
_keep, _za, _zv, _zn, _solv = [], {}, {}, {}, {}


def _k(e):
    _keep.append(e)
    return e


_zero = (_k(z3.RealVal(0)), _k(z3.IntVal(0)), _k(z3.IntVal(0)))


def _ref(ast):
    z3.Z3_inc_ref(_cr, ast)
    return ast


def _arr(l):
    return (z3.Ast * len(l))(*l)


def zmon(m, w):
    key = (m, w)
    v = _zv.get(key)
    if v is None:
        if w == 2 and len(m) > 1:
            v = _ref(z3.Z3_mk_mul(_cr, len(m), _arr([zmon((i,), 2) for i in m])))
        else:
            nm = ('m' if w == 0 else 'i') + '_'.join(map(str, m))
            v = _k(z3.Real(nm) if w == 0 else z3.Int(nm)).as_ast()
        _zv[key] = v
    return v


def zast(c, w):
    """w: 0 linear reals over monomials, 1 linear integers over monomials, 2 nonlinear integers"""
    key = (c, w)
    if key in _za:
        return _za[key]
    k = c[0]
    r = None
    if k in ('le', 'eq', 'ler', 'lt', 'ne'):
        tot = []
        sort = _k(z3.RealSort() if w == 0 else z3.IntSort()).ast
        mlt = 1
        if w:
            for co in c[1].m.values():
                if isinstance(co, Fraction):
                    mlt = mlt * co.denominator // __import__('math').gcd(mlt, co.denominator)
        for m, co in c[1].m.items():
            co = co * mlt
            num = _ref(z3.Z3_mk_numeral(_cr, str(co), sort))
            if not m:
                tot.append(num)
            elif co == 1:
                tot.append(zmon(m, w))
            else:
                tot.append(_ref(z3.Z3_mk_mul(_cr, 2, _arr([num, zmon(m, w)]))))
        e = _ref(z3.Z3_mk_add(_cr, len(tot), _arr(tot))) if len(tot) > 1 else tot[0]
        z = _zero[w].as_ast()
        if k in ('le', 'ler'):
            r = z3.Z3_mk_le(_cr, e, z)
        elif k == 'lt':
            r = z3.Z3_mk_lt(_cr, e, z)
        else:
            r = _ref(z3.Z3_mk_eq(_cr, e, z))
            if k == 'ne':
                r = z3.Z3_mk_not(_cr, r)
        r = _ref(r)
    _za[key] = r
    return r


def znn(m):
    r = _zn.get(m)
    if r is None:
        r = _zn[m] = _ref(z3.Z3_mk_ge(_cr, zmon(m, 0), _zero[0].as_ast()))
    return r


def zcheck(logic, asts, ms):
    sol = _solv.get(logic)
    if sol is None:
        sol = _solv[logic] = z3.SolverFor(logic)
    sol.set('timeout', ms)
    t = time.time()
    sol.push()
    sr = sol.solver
    for e in asts:
        z3.Z3_solver_assert(_cr, sr, e)
    try:
        r = z3.Z3_solver_check(_cr, sr)
    except z3.Z3Exception:
        r = 0
    sol.pop()
    STAT['solver_s'] += time.time() - t
    STAT['z3_calls'] = STAT.get('z3_calls', 0) + 1
    return r == -1


class Prover:
    def __init__(s, nia_ms=3000, depth=40, budget=60.0):
        s.nia_ms, s.depth, s.budget = nia_ms, depth, budget
        s.cache = {}
        s.sampler, s.mcache, s.rng = None, {}, random.Random(5)      # concrete values of the parameters, to skip hopeless attempts

    # ---- concrete assignments satisfying the facts: a goal false in one of them is not worth an attempt
    def models(s, facts):
        key = tuple(facts)
        r = s.mcache.get(key)
        if r is None:
            i = len(key) - 1
            while i > 0 and key[:i] not in s.mcache:
                i -= 1
            if i <= 0:
                base = []
                for _ in range(40):
                    e = s.sampler(s.rng)
                    if e is not None:
                        base.append({V(n).single().id: x for n, x in e.items()})
                i = 0
            else:
                base = s.mcache[key[:i]]
            r = s.extend(base, key[i:]) if base else []
            s.mcache[key] = r
        return r

    def extend(s, base, new):
        vs, ub = [], {}
        for c in new:
            if isinstance(c, bool):
                continue
            for i in sorted(cvs(c)):
                if T.get(i).k in ('v', 'fn', 'ld') and i not in vs:
                    vs.append(i)
            if c[0] == 'le':
                for k, q in c[1].m.items():
                    if len(k) == 1 and q == 1 and T.get(k[0]).k == 'v':
                        ub.setdefault(k[0], P(T.get(k[0])) - c[1])
        out = []
        for b in base:
            for _ in range(3):
                e = dict(b)
                try:
                    for i in vs:
                        if i in e:
                            continue
                        h = None
                        if i in ub:
                            try:
                                h = int(ev(ub[i], e))
                            except EvalErr:
                                h = None
                        h = 5 if h is None else min(h, 12)
                        if h < 0:
                            raise EvalErr('')
                        x = s.rng.random()
                        e[i] = 0 if x < 0.3 else h if x < 0.6 else s.rng.randint(0, h)
                    if all(ev(c, e) for c in new):
                        out.append(e); break
                except (EvalErr, KeyError, ZeroDivisionError):
                    continue
        return out

    def hopeless(s, facts, goal):
        if s.sampler is None or isinstance(goal, bool):
            return False
        ms = s.models(facts)
        for e in ms:
            try:
                un = [i for i in cvs(goal) if i not in e and T.get(i).k in ('v', 'fn', 'ld')]
                if un:
                    e = dict(e)
                    for i in un:
                        e[i] = s.rng.randint(0, 5)
                if not ev(goal, e):
                    return True
            except (EvalErr, KeyError, ZeroDivisionError):
                continue
        return False

    # facts: list of conditions
    def prove(s, facts, goal, budget=None):
        """True if proved"""
        if goal is True:
            STAT['normal-form'] += 1
            return True
        key = (tuple(facts), goal)
        r = s.cache.get(key)
        if r is not None:
            return r
        if isinstance(goal, tuple) and goal[0] == 'and':
            r = all(s.prove(facts, g, budget) for g in goal[1])
            s.cache[key] = r
            return r
        STAT['queries'] += 1
        if s.hopeless(facts, goal):
            STAT['unknown'] += 1
            s.cache[key] = False
            return False
        r = s.near(facts, goal)
        s.end = time.time() + (budget or s.budget)
        if not r:
            s.used = set()
            try:
                r = s.unsat([f for f in facts] + [neg(goal)], 0)
            except TimeoutError:
                r = False
        if r:
            m = s.used
            STAT['z3-nonlinear' if 'n' in m else 'z3-products' if 'p' in m else 'z3-linear' if 'l' in m else 'normal-form'] += 1
        else:
            STAT['unknown'] += 1
        s.cache[key] = r
        return r

    def quick(s, facts, goal):
        """cheap attempt, used for pruning: True only if proved"""
        if isinstance(goal, bool):
            return goal
        if goal in facts:
            return True
        key = ('q', tuple(facts), goal)
        r = s.cache.get(key)
        if r is None and s.hopeless(facts, goal):
            r = s.cache[key] = False
        if r is None:
            r = s.near(facts, goal, True)
            if not r:
                s.end = time.time() + 4
                s.used = set()
                try:
                    r = s.unsat(list(facts) + [neg(goal)], 0, light=True)
                except TimeoutError:
                    r = False
            s.cache[key] = r
        return r

    def near(s, facts, goal, light=False):
        """a short attempt with the facts about the variables of the goal alone"""
        if isinstance(goal, bool):
            return False
        vs = basevars(goal)
        few = tuple(f for f in facts if not isinstance(f, bool) and basevars(f) <= vs)
        if len(few) == len(facts):
            return False
        key = ('n', light, few, goal)
        r = s.cache.get(key)
        if r is None:
            s.end = time.time() + 1.0
            s.used = set()
            keep, s.nia_ms = s.nia_ms, 50
            try:
                r = s.unsat(list(few) + [neg(goal)], 0, light=light)
            except TimeoutError:
                r = False
            s.nia_ms = keep
            s.cache[key] = r = (r, set(s.used))
        s.used = set(r[1])
        return r[0]

    def decide(s, facts, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if c in facts:
            return True
        if neg(c) in facts:
            return False
        if s.quick(facts, c):
            return True
        if s.quick(facts, neg(c)):
            return False
        return None

    # ---- unsatisfiability
    def unsat(s, cs, d, light=False, fresh_ok=True):
        if time.time() > s.end:
            raise TimeoutError
        if d > s.depth:
            return False
        # flatten
        out, seen = [], set()
        st = list(cs)[::-1]
        while st:
            c = st.pop()
            if c is True:
                continue
            if c is False:
                return True
            if c[0] == 'and':
                st.extend(reversed(c[1]))
                continue
            if c not in seen:
                seen.add(c); out.append(c)
        cs = out
        for c in cs:
            if c[0] not in ('or',) and neg(c) in seen:
                return True
        # eliminate solved equalities
        for i, c in enumerate(cs):
            if c[0] == 'eq':
                v = s.pick(c[1])
                if v is not None:
                    tid, X = v
                    rest = [subst(x, {tid: X}) for j, x in enumerate(cs) if j != i]
                    return s.unsat(rest, d + 1, light)
        # unit literals simplify the rest
        units = {}
        # case split on if-then-else
        it = s.find_ite(cs)
        if it is not None:
            if light and d > 12:
                return False
            # prune early when there are enough plain facts
            if d >= 1:
                plain = [c for c in cs if c[0] in ('le', 'eq') and not hasite(c) and not hasdiv(c)]
                if s.lin(plain):
                    s.used.add('l')
                    return True
            a = s.unsat([assume(c, it) for c in cs] + [it], d + 1, light)
            if not a:
                return False
            n = neg(it)
            return s.unsat([assume(c, n) for c in cs] + [n], d + 1, light)
        # disjunctions: simplify with units, then split
        ors = [c for c in cs if c[0] == 'or']
        if ors:
            plain = [c for c in cs if c[0] != 'or']
            ps = set(plain)
            c = min(ors, key=lambda c: len(c[1]))
            rest = [x for x in cs if x is not c]
            base = [x for x in plain if not hasdiv(x)]
            if s.lin(base):
                s.used.add('l')
                return True
            for lit in c[1]:
                if lit in ps:
                    return s.unsat(rest, d + 1, light)
            for lit in c[1]:
                if neg(lit) in ps:
                    continue
                if not s.unsat(rest + [lit], d + 1, light):
                    return False
            return True
        # div / mod
        dv = s.find_div(cs)
        if dv is not None:
            a = T.get(dv)
            num, den = a.key[1], a.key[2]
            plain = [c for c in cs if dv not in cvs(c) and not hasdiv(c)]
            q, r = s.quot(num, den, plain, d, light)
            if q is None:
                den_pos = den.const() is not None and den.const() > 0 or s.sub(plain, gt(den, 0), d)
                if not den_pos:
                    return s.final([c for c in cs if not hasdiv(c)], light)
                q = fresh('q'); r = num - q * den
                extra = [le(0, r), lt(r, den)]
                # bounds of the quotient from bounds of the numerator that are multiples of the denominator
                nv = num.vs()
                if nv and any(len(m) == 1 for m in num.m):
                    for c in plain:
                        if c[0] == 'le':
                            up, lo = num - c[1], num + c[1]
                            if len(up.m) <= 4 and not (up.vs() & nv):
                                y = exact_div(up + 1, den)
                                if y is not None:
                                    extra.append(le(q, y - 1))
                            if len(lo.m) <= 4 and not (lo.vs() & nv):
                                y = exact_div(lo, den)
                                if y is not None:
                                    extra.append(le(y, q))
                # the remainder of a linear equation keeps the numerator solvable
            else:
                extra = []
            ids = {}
            for kk, val in (('div', q), ('mod', r)):
                at = T._atoms.get((kk, num, den))
                if at is not None:
                    ids[at.id] = val
            return s.unsat([subst(c, ids) for c in cs] + extra, d + 1, light)
        return s.final(cs, light)

    def sub(s, facts, goal, d):
        """auxiliary implication inside a proof"""
        if isinstance(goal, bool):
            return goal
        return s.unsat(list(facts) + [neg(goal)], d + 3, True)

    def quot(s, num, den, facts, d, light):
        """(q, r) when num = q*den + r with 0 <= r < den follows from facts"""
        if den.const() is not None:
            return None, None
        cand, r = pdivmod(num, den)
        for dq in (0, -1, 1):
            q = cand + dq
            rr = num - q * den
            if s.sub(facts, le(0, rr), d) and s.sub(facts, lt(rr, den), d):
                return q, rr
            if len(r.m) > 8:
                break
        # fewer steps of the division
        lead_ms = sorted(den.m, key=lambda k: (-len(k), k))[:1]
        return None, None

    def pick(s, p):
        best = None
        for k, c in p.m.items():
            if len(k) == 1 and c in (1, -1):
                a = T.get(k[0])
                if a.k in ('v', 'fn', 'ld'):
                    if all(k[0] not in {j for i in m for j in T.get(i).vs} for m in p.m if m != k):
                        rest = Poly({m: v for m, v in p.m.items() if m != k})
                        X = -rest if c == 1 else rest
                        sc = (0 if a.k == 'v' and '#' in a.key[1] else 1, len(rest.m))
                        if best is None or sc < best[0]:
                            best = (sc, (k[0], X))
        return best[1] if best else None

    def find_ite(s, cs):
        """the condition of an innermost if-then-else"""
        for c in cs:
            if not isinstance(c, tuple) or not hasite(c):
                continue
            r = s._fi(c)
            if r is not None:
                return r
        return None

    def _fi(s, x):
        if isinstance(x, Poly):
            for m in x.m:
                for i in m:
                    a = T.get(i)
                    if a.hasite:
                        r = s._fa(a)
                        if r is not None:
                            return r
            return None
        if isinstance(x, bool):
            return None
        if not hasite(x):
            return None
        for y in (x[1] if x[0] in ('and', 'or') else x[1:]):
            if isinstance(y, (Poly, tuple)):
                r = s._fi(y)
                if r is not None:
                    return r
        return None

    def _fa(s, a):
        if a.k == 'ite':
            c = a.key[1]
            if hasite(c):
                r = s._fi(c)
                if r is not None:
                    return r
            if c[0] == 'and':
                return c[1][0]
            if c[0] == 'or':
                return c[1][0]
            return c
        for y in a.key[1:]:
            for z in (y if isinstance(y, tuple) and not T.is_cond(y) else (y,)):
                if isinstance(z, Poly):
                    r = s._fi(z)
                    if r is not None:
                        return r
        return None

    def find_div(s, cs):
        """an innermost div/mod atom"""
        best = None
        for c in cs:
            if not isinstance(c, tuple) or c[0] in ('b', 'nb') or not hasdiv(c):
                continue
            for i in c[1].vs():
                a = T.get(i)
                if a.k in ('div', 'mod') and not hasdiv2(a):
                    if best is None or i < best:
                        best = i
        return best

    # ---- arithmetic
    def lin(s, cs, nn=()):
        """linear unsatisfiability over monomials (reals, tightened integers)"""
        ms, asts = set(), []
        for c in cs:
            e = zast(c, 0)
            if e is not None:
                asts.append(e)
                if nn:
                    ms.update(c[1].m)
        if not asts:
            return False
        if nn:
            for m in ms:
                if m and all(i in nn for i in m):
                    asts.append(znn(m))
        return zcheck('QF_LRA', asts, 1000)

    def slack(s, cs):
        """rewrite x >= L as x = L + x', x' >= 0 as often as possible; returns (conditions, ids known >= 0)"""
        nn = set()
        cs = list(cs)
        for _ in range(60):
            best = None
            for n, c in enumerate(cs):
                if c[0] != 'le':
                    continue
                p = c[1]
                for k, v in p.m.items():
                    if v == -1 and len(k) == 1 and k[0] not in nn and T.get(k[0]).k in ('v', 'fn'):
                        i = k[0]
                        if any(i in T.get(j).vs for m in p.m if m != k for j in m):
                            continue
                        rest = [(m, w) for m, w in p.m.items() if m != k]
                        good = all(w > 0 for m, w in rest if m)
                        free = any(j not in nn for m, w in rest for j in m)
                        cst = not any(m for m, w in rest)
                        sc = (0 if good else 1, 0 if (free and not cst) else (1 if cst else 2), max([len(m) for m, w in rest] + [0]), len(rest))
                        if best is None or sc < best[0]:
                            best = (sc, n, i, rest)
            if best is None:
                break
            if best[0][0]:          # x >= something with negative parts: not helpful
                break
            _, n, i, rest = best
            sl = fresh('s')
            nn.add(sl.single().id)
            X = Poly(dict(rest)) + sl
            cs = [subst(c, {i: X}) for j, c in enumerate(cs) if j != n]
            if any(c is False for c in cs):
                return None, nn
            cs = [c for c in cs if c is not True]
        return cs, nn

    def final(s, cs, light):
        cs = [c for c in cs if c[0] not in ('b', 'nb', 'or')]
        nes = [c for c in cs if c[0] == 'ne']
        cur = [c for c in cs if c[0] != 'ne']
        if s.lin(cur):
            s.used.add('l')
            return True
        nl = any(len(m) > 1 for c in cs for m in c[1].m)
        if nl:
            ln = [c for c in cur if all(len(m) <= 1 for m in c[1].m)]
            if any(c[0] == 'eq' or c[0] == 'le' and any(m and abs(v) > 1 for m, v in c[1].m.items()) for c in ln) and s.zint(ln, 100):
                s.used.add('l')
                return True
            sc, nn = s.slack(cur)
            if sc is None:
                s.used.add('p')
                return True
            for c in sc:
                if c[0] == 'le' and c[1].m.get((), 0) > 0 and all(v >= 0 and all(i in nn for i in m) for m, v in c[1].m.items()):
                    s.used.add('p')
                    return True
            if s.lin(sc, nn):
                s.used.add('p')
                return True
            if s.lin(sc + s.products(sc, nn, light), nn):
                s.used.add('p')
                return True
        # disequalities: split (at most 3)
        if nes and len(nes) <= 4:
            c = nes[0]
            rest = [x for x in cs if x is not c]
            if s.final(rest + [le(c[1] + 1)], light) and s.final(rest + [le(1 - c[1])], light):
                return True
            return False
        if light and not nl:
            # integers
            return s.zint(cur, 300)
        if light:
            return False
        if not nl and s.zint(cs, 1500):
            s.used.add('l')
            return True
        if nl and s.znl(cs):
            s.used.add('n')
            return True
        return False

    def zint(s, cs, ms):
        return zcheck('QF_LIA', [e for e in (zast(c, 1) for c in cs) if e is not None], ms)

    def znl(s, cs):
        return zcheck('QF_NIA', [e for e in (zast(c, 2) for c in cs) if e is not None], s.nia_ms)

    def products(s, cs, nn, light):
        """implied products of the remaining inequalities with each other and with nonnegative variables"""
        ineq = [-c[1] for c in cs if c[0] == 'le']        # >= 0
        eqs = [c[1] for c in cs if c[0] == 'eq']
        want = {m for c in cs for m in c[1].m if len(m) > 1}
        maxd = max((len(m) for m in want), default=1)
        wa = sorted({i for m in want for i in m})
        deg = lambda p: max((len(m) for m in p.m), default=0)
        ineq.sort(key=lambda p: (deg(p), len(p.m)))
        ineq = ineq[:30]
        out, seen = [], set()
        def add(p):
            if p not in seen and len(p.m) <= 24:
                seen.add(p); out.append(le(-p)); return True
        lvl = list(ineq)
        for _ in range(1 if light else 2):
            nxt = []
            for p in lvl:
                d = deg(p)
                for i in wa:
                    if d + 1 <= maxd and i in nn:
                        q = p * Poly({(i,): 1})
                        if any(len(m) > 1 and m in want for m in q.m) and add(q):
                            nxt.append(q)
            lvl = nxt
            if len(out) > 600:
                break
        for a, b in itertools.combinations_with_replacement(ineq[:18], 2):
            if deg(a) + deg(b) <= maxd and any(m in want for m in (a * b).m):
                add(a * b)
        for e in eqs:
            for i in wa:
                if deg(e) + 1 <= maxd + 1:
                    q = e * Poly({(i,): 1})
                    if any(m in want for m in q.m):
                        out.append(eq(q))
        return [o for o in out if not isinstance(o, bool)][:1200]


_bv = {}


def basevars(c):
    r = _bv.get(c)
    if r is None:
        r = _bv[c] = frozenset(i for i in cvs(c) if T.get(i).k in ('v', 'fn', 'ld'))
    return r


def hasdiv2(a):
    for x in a.key[1:]:
        if isinstance(x, Poly) and hasdiv(x):
            return True
    return False
