"""Families of events and their specifications.

A trace (vf/symex.py) is flattened into families: an event under loops (each with its range) and guards.  A
specification is a list of families written from the layout definitions (vf/spec.py) over structured coordinates.
`match` shows that the two describe the same set of events, one to one, for all parameter values:

  soundness   every event of the code is the specified event at coordinates phi(x), inside the specified ranges;
  coverage    every specified event is produced, at code indices psi(coordinates);
  uniqueness  psi(phi(x)) = x and different code families give different specified events.

phi and psi are found from concrete enumerations of both sides; what is found is only a hint, every statement about
it is proved.  When the enumerations already disagree the obligation is refuted and the parameters are the
counterexample."""
import random
from .terms import *
from . import terms as T
from .symex import Ptr, PIte, tsubst, tvs


class Fam:
    """vars: [(atom, count Poly, par)], guards: [cond], tag: static tuple, polys: [Poly] (the event's numbers)"""
    def __init__(s, vars, guards, tag, polys, path=(), node=None):
        s.vars, s.guards, s.tag, s.polys, s.path, s.node = vars, guards, tag, polys, path, node

    def dom(s):
        out = []
        for a, n, _p in s.vars:
            out += [le(0, P(a)), lt(P(a), n)]
        return [c for c in out if c is not True] + [g for g in s.guards if g is not True]

    def __repr__(s):
        return '%s %s %s' % (s.tag, [showa(a) for a, _n, _p in s.vars], [show(g) for g in s.guards])


def split_val(v, guards=()):
    """[(guards, kind, polys)] of a stored value"""
    v = P(v)
    c = v.const()
    if c is not None:
        return [(list(guards), ('const', c), [])]
    a = v.single()
    if a is not None and a.k == 'ite':
        k = a.key[1]
        return split_val(a.key[2], list(guards) + [k]) + split_val(a.key[3], list(guards) + [neg(k)])
    if a is not None and a.k == 'ld':
        st, ps = buftag(a.key[1])
        return [(list(guards), ('ld',) + st, ps + [a.key[2]])]
    return [(list(guards), ('expr',), [v])]


def buftag(buf):
    st, ps = [], []
    for x in buf:
        if isinstance(x, Poly):
            st.append('*'); ps.append(x)
        else:
            st.append(x)
    return tuple(st), ps


def flatten(tr, kinds=None):
    """list of Fam for all events of the given kinds"""
    out = []
    def go(tr, vars, guards, path):
        for n, e in enumerate(tr):
            if e[0] == 'loop':
                L = e[1]
                go(L.body, vars + [(L.var, L.n, L.par)], guards, path + ((n, L),))
            elif e[0] == 'if':
                cs = list(e[1][1]) if isinstance(e[1], tuple) and e[1][0] == 'and' else [e[1]]
                go(e[2], vars, guards + cs, path + ((n, None),))
            elif kinds is None or e[0] in kinds:
                for f in event(e, vars, guards, path + ((n, None),)):
                    f.node = e
                    out.append(f)
    go(tr, [], [], ())
    return out


def event(e, vars, guards, path):
    k = e[0]
    if k == 'w':
        bt, bp = buftag(e[1])
        return [Fam(vars, guards + [x for x in g if x not in guards], ('w', bt) + kind, bp + [e[2]] + ps, path) for g, kind, ps in split_val(e[3])]
    if k == 'r':
        bt, bp = buftag(e[1])
        return [Fam(vars, guards, ('r', bt), bp + [e[2]], path)]
    if k == 'set0':
        bt, bp = buftag(e[1])
        return [Fam(vars, guards, ('set0', bt), bp + [e[2], e[3]], path)]
    if k == 'uk':
        ps, tag = [], ['uk']
        for p in e[1:4]:
            bt, bp = buftag(p.buf)
            tag.append(bt); ps += bp + [p.off]
        ps += [e[4], e[5], e[6]] + [P(x) for x in e[7]]
        return [Fam(vars, guards, tuple(tag), ps, path)]
    if k == 'pk':        # a packed block: e = ('pk', name, [ptr, ...], [polys])
        ps, tag = [], ['pk', e[1]]
        for p in e[2]:
            bt, bp = buftag(p.buf)
            tag.append(bt); ps += bp + [p.off]
        return [Fam(vars, guards, tuple(tag), ps + list(e[3]), path)]
    return [Fam(vars, guards, (k,) + tuple(str(x) for x in e[1:]), [], path)]


def clears(tr, want):
    """loops that store zero to consecutive elements of a buffer (of the wanted kind) become one clearing"""
    out = []
    for e in tr:
        if e[0] == 'loop':
            L = e[1]
            L.body = clears(L.body, want)
            b = L.body
            if len(b) == 1 and b[0][0] in ('w', 'set0') and want(b[0][1]):
                w = b[0]
                n = ONE if w[0] == 'w' else w[3]
                if (w[0] == 'set0' or P(w[3]) == ZERO) and L.var.id not in allvars(n) and not any(isinstance(x, Poly) and L.var.id in allvars(x) for x in w[1]):
                    o = P(w[2])
                    base = subst(o, {L.var.id: ZERO})
                    if o == base + P(L.var) * n:
                        e = ('set0', w[1], base, n * L.n)
        elif e[0] == 'if':
            e = (e[0], e[1], clears(e[2], want)) + tuple(e[3:])
        out.append(e)
    return out


# ------------------------------------------------------------------ enumeration
def pyname(i):
    return 'v%d' % i


def compile_fam(f, params, polys=None, limit=4000):
    """python generator enumerating the family for given parameter values"""
    names = {i: pyname(i) for i in params}
    src = ['def gen(%s):' % ', '.join(pyname(i) for i in params)]
    ind = ' '
    pend = list(f.guards)
    bound = set(params)
    def guards():
        nonlocal ind, pend
        rest = []
        for g in pend:
            if g is True:
                continue
            if {v for v in cvs(g) if T.get(v).k == 'v'} <= bound:
                src.append('%sif not %s: %s' % (ind, topy(g, names), 'continue' if ind != ' ' else 'return'))
            else:
                rest.append(g)
        pend = rest
    guards()
    for a, n, _p in f.vars:
        names[a.id] = pyname(a.id)
        src.append('%sfor %s in range(%s):' % (ind, pyname(a.id), topy(n, names)))
        ind += ' '
        bound.add(a.id)
        guards()
    ev_ = ', '.join(topy(p, names) for p in (f.polys if polys is None else polys))
    src.append('%syield ((%s), (%s))' % (ind, ''.join(pyname(a.id) + ', ' for a, _n, _p in f.vars), ev_ + (',' if ev_ else '')))
    d = {'Fraction': Fraction}
    exec('\n'.join(src), d)
    return d['gen']


from fractions import Fraction


class Mismatch(Exception):
    def __init__(s, what, env):
        s.what, s.env = what, env


class Result:
    def __init__(s):
        s.obls = []       # (name, status, note)
        s.refuted = []    # (name, env)

    def add(s, name, ok, note=''):
        s.obls.append((name, 'proved' if ok else 'undecided', note))
        return ok

    def refute(s, name, what, env):
        s.obls.append((name, 'refuted', what))
        s.refuted.append((name + ': ' + what, env))

    def ok(s):
        return all(o[1] == 'proved' for o in s.obls)


class Matcher:
    def __init__(s, prover, facts, sampler, params, name, consts=(), nsamples=24, seed=1, maxpts=2500, keylen=None):
        """facts: parameter facts; sampler(rng) -> {param name: value}; params: names in order"""
        s.pr, s.facts, s.name = prover, list(facts), name
        s.pnames = list(params)
        s.pids = [V(n).single().id for n in params]
        s.sampler, s.consts = sampler, list(consts)
        s.ns, s.maxpts, s.maxpairs = nsamples, maxpts, 60000
        s.rng = random.Random(seed)
        s.res = Result()
        s.maps = {}

    def prove(s, facts, goal, name, note=''):
        ok = s.pr.prove(s.facts + [f for f in facts if f is not True], goal) if goal is not False else s.pr.prove(s.facts + [f for f in facts if f is not True], False)
        s.res.add('%s: %s' % (s.name, name), ok, note if ok else show(goal)[:300])
        return ok

    def envs(s):
        out = []
        for _ in range(s.ns):
            e = s.sampler(s.rng)
            if e is not None:
                out.append(e)
        return out

    def match(s, code, spec, what, keyed=None, bijective=True, cover=True):
        """code, spec: lists of Fam.  Returns {code family: (spec family, phi)} or None.
        The correspondence is guessed from samples; a guess that is not proved is made again from more of them."""
        ns, best = s.ns, None
        n0 = len(s.res.obls)
        for turn in range(3):
            r = s.match1(code, spec, what, keyed, bijective, cover)
            new = s.res.obls[n0:]
            bad = sum(o[1] != 'proved' for o in new)
            if not bad or s.res.refuted:
                break
            if best is None or bad < best[0]:
                best = bad, new, r, s.maps.get(what)
            del s.res.obls[n0:]
            s.ns = s.ns * 2
        else:
            s.res.obls += best[1]
            r = best[2]
            if best[3] is not None:
                s.maps[what] = best[3]
        s.ns = ns
        return r

    def match1(s, code, spec, what, keyed, bijective, cover):
        pv = {n: i for n, i in zip(s.pnames, s.pids)}
        cg, sg = [compile_fam(f, s.pids) for f in code], [compile_fam(f, s.pids) for f in spec]
        pairs = {}          # (code index) -> list of (env values, x, spec idx, sigma)
        rev = {}            # spec index -> list of (env, sigma, code idx, x)
        keyed = keyed or (lambda tag, ev: (tag, ev))
        tried = 0
        for e in s.envs():
            vals = tuple(e[n] for n in s.pnames)
            d = {}
            cnt = 0
            try:
                for k, g in enumerate(sg):
                    for sig, ev in g(*vals):
                        key = (spec[k].tag, ev)
                        if key in d:
                            s.res.add('%s: %s: specified events are distinct' % (s.name, what), False, 'specification is ambiguous')
                            return None
                        d[key] = (k, sig); cnt += 1
                        if cnt > s.maxpts * 8:
                            raise OverflowError
            except OverflowError:
                continue
            tried += 1
            seen = {}
            got = {}
            try:
                for j, g in enumerate(cg):
                    for x, ev in g(*vals):
                        h = d.get((code[j].tag, ev))
                        if h is None:
                            s.res.refute('%s: %s' % (s.name, what), 'event %s %s is not a specified one' % (code[j].tag, ev), e)
                            return None
                        if h in seen and bijective:
                            s.res.refute('%s: %s' % (s.name, what), 'event %s %s happens twice' % (code[j].tag, ev), e)
                            return None
                        seen[h] = (j, x)
                        if len(seen) > cnt * 4 + 10:
                            raise OverflowError
                        got.setdefault(j, []).append((j, x, h))
                for j, x, h in (q for l in got.values() for q in s.thin(l, 1500)):
                    pairs.setdefault(j, []).append((vals, x, h[0], h[1]))
                    rev.setdefault(h[0], []).append((vals, h[1], j, x))
            except (ZeroDivisionError, OverflowError):
                continue
            if cover and len(seen) != cnt:
                miss = next(k for k in d if d[k] not in seen)
                s.res.refute('%s: %s' % (s.name, what), 'specified event %s does not happen' % (miss,), e)
                return None
            if sum(len(v) for v in pairs.values()) > s.maxpairs and tried >= 6:
                break
        if tried < 3:
            s.res.add('%s: %s: enumeration' % (s.name, what), False, 'no samples')
            return None
        # ---- phi
        phi = {}
        pool0 = s.pool(code, spec)
        for j, f in enumerate(code):
            if j not in pairs:
                s.prove(f.dom(), False, '%s: family %d (%s) is empty' % (what, j, f.tag[0]))
                continue
            ks = {h for _v, _x, h, _s in pairs[j]}
            if len(ks) != 1:
                s.res.add('%s: %s: family %d' % (s.name, what, j), False, 'several specified families')
                return None
            k = ks.pop()
            xs = [a for a, _n, _p in f.vars]
            ns = [n for _a, n, _p in f.vars]
            ph = s.refit([(v + x, sig) for v, x, _h, sig in pairs[j]], xs, ns, spec[k], pool0)
            if ph is None:
                s.res.add('%s: %s: family %d' % (s.name, what, j), False, 'no correspondence found')
                return None
            phi[j] = (k, ph)
            sub = {a.id: p for (a, _n, _p), p in zip(spec[k].vars, ph)}
            for g in spec[k].dom():
                s.prove(f.dom(), subst(g, sub), '%s: family %d in the specified range' % (what, j))
            for n, (p, q) in enumerate(zip(f.polys, spec[k].polys)):
                s.prove(f.dom(), eq(p, subst(q, sub)), '%s: family %d component %d as specified' % (what, j, n))
        s.maps[what] = (code, spec, phi, None, None)
        if not cover and not bijective:
            return phi
        # ---- psi
        psi = {}
        leafsel = {}
        for k, f in enumerate(spec):
            if k not in rev:
                if cover:
                    s.prove(f.dom(), False, '%s: specified family %d is empty' % (what, k))
                continue
            fams = sorted({j for _v, _s, j, _x in rev[k]})
            sv = [a for a, _n, _p in f.vars]
            ns = [n for _a, n, _p in f.vars]
            for j in fams:
                ps = s.refit([(v + sig, x) for v, sig, jj, x in rev[k] if jj == j], sv, ns, code[j], pool0)
                if ps is None:
                    s.res.add('%s: %s: inverse of family %d' % (s.name, what, j), False, 'no correspondence found')
                    return None
                psi[j] = ps
            # which family
            pool = list(pool0)
            for j in fams:
                sub = {a.id: p for (a, _n, _p), p in zip(code[j].vars, psi[j])}
                for g in code[j].dom():
                    h = subst(g, sub)
                    if not isinstance(h, bool) and h not in pool and neg(h) not in pool:
                        pool.append(h)
            data = [(v + sig, j) for v, sig, j, _x in s.thin(rev[k], 3000)]
            tree = s.tree([(d, (j,)) for d, j in data], lambda j: [(j, None)], s.pids + [a.id for a in sv], pool, label=True)
            if tree is None:
                s.res.add('%s: %s: which family produces a specified event' % (s.name, what), False, '')
                return None
            for conds, j in tree:
                if j is None:
                    continue
                leafsel.setdefault(j, []).append(conj(*conds))
                if not cover:
                    continue
                sub = {a.id: p for (a, _n, _p), p in zip(code[j].vars, psi[j])}
                for g in code[j].dom():
                    s.prove(f.dom() + conds, subst(g, sub), '%s: specified events are produced (family %d)' % (what, j))
                ph = phi[j][1]
                for (a, _n, _p), q in zip(f.vars, ph):
                    s.prove(f.dom() + conds, eq(subst(q, sub), P(a)), '%s: inverse (family %d)' % (what, j))
            for conds, j in tree:
                if j is None and cover:
                    s.prove(f.dom() + conds, False, '%s: no other specified event' % what)
        if bijective:
            for j in phi:
                if j not in psi:
                    continue
                f = code[j]
                k, ph = phi[j]
                sub = {a.id: p for (a, _n, _p), p in zip(spec[k].vars, ph)}
                for (a, _n, _p), q in zip(f.vars, psi[j]):
                    s.prove(f.dom(), eq(subst(q, sub), P(a)), '%s: family %d happens once per event' % (what, j))
                same = [j2 for j2 in phi if j2 != j and phi[j2][0] == k]
                if same:
                    s.prove(f.dom(), subst(disj(*leafsel.get(j, [False])), sub), '%s: family %d is the only source' % (what, j))
        s.maps[what] = (code, spec, phi, psi, leafsel)
        return phi

    def order(s, wa, wb, seq, par, name):
        return order(s, wa, wb, seq, par, name)

    def thin(s, l, n=400):
        if len(l) <= n:
            return l
        r = random.Random(7)
        return [l[i] for i in sorted(r.sample(range(len(l)), n))]

    def pool(s, code, spec):
        """conditions that may separate cases"""
        out = []
        def addc(c):
            if isinstance(c, bool):
                return
            if c[0] in ('and', 'or'):
                for d in c[1]:
                    addc(d)
                return
            if c[0] in ('b', 'nb'):
                return
            if c not in out and neg(c) not in out:
                out.append(c)
        def goc(c):
            if isinstance(c, bool) or c[0] in ('b', 'nb'):
                return
            if c[0] in ('and', 'or'):
                for d in c[1]:
                    goc(d)
            else:
                go(c[1])
        def go(p):
            for i in p.vs():
                a = T.get(i)
                if a.k == 'ite':
                    addc(a.key[1])
        for f in list(code) + list(spec):
            for p in f.polys:
                go(p)
            for _a, n, _p in f.vars:
                go(n)
            for g in f.guards:
                addc(g); goc(g)
        return out[:60]

    # -------- fitting
    def cands(s, xs, ns, tgt_n):
        c1 = [P(a) for a in xs] + [ZERO]
        c2 = [n - 1 - P(a) for a, n in zip(xs, ns)]
        if tgt_n is not None:
            c2 += [tgt_n - 1] + [tgt_n - 1 - P(a) for a in xs]
        c3 = [P(c) for c in s.consts] + [P(c) - 1 for c in s.consts]
        c4 = []
        for a in xs:
            for c in s.consts + [ONE, P(-1)]:
                c4 += [P(a) + c, P(a) + c - 1]
                if P(c).const() is None:
                    c4 += [P(c) - 1 - P(a)]
        for a in xs:
            for b in xs:
                if a is not b:
                    c4 += [P(a) - P(b)]
                    for c in s.consts:
                        c4 += [P(a) * c + P(b)]
                    if b is not a:
                        nb = ns[xs.index(b)]
                        c4 += [P(a) * nb + P(b)]
        for a in xs:
            for c in s.consts + [P(2), P(4), P(8)]:
                c4 += [div(P(a), c), mod(P(a), c)]
        return [c1, c1 + c2, c1 + c2 + c3, c1 + c2 + c3 + c4]

    def refit(s, data, xs, ns, target, pool):
        """fit on a part of the data, check on all of it, add what does not agree, again"""
        part = s.thin(data)
        ids = s.pids + [a.id for a in xs]
        for _ in range(6):
            ph = s.fit_all(part, xs, ns, target, pool)
            if ph is None or len(part) == len(data):
                return ph
            bad, fs = [], [s.cfun(q, ids) for q in ph]
            if None in fs:
                return ph
            for d, y in data:
                try:
                    if any(f(*d) != v for f, v in zip(fs, y)):
                        bad.append((d, y))
                        if len(bad) >= 2000:
                            break
                except ZeroDivisionError:
                    pass
            if not bad:
                return ph
            part = part + s.thin(bad, 60)
        return ph

    def fit_all(s, data, xs, ns, target, pool):
        """polys for every coordinate of the target family, or None"""
        out = []
        sub = {}
        pool = list(pool)
        ids = s.pids + [a.id for a in xs]
        for q, (a, n, _p) in enumerate(target.vars):
            tn = subst(n, sub)
            dat = [(d, (y[q],)) for d, y in data]
            r = None
            for c in pool[:60]:
                c = subst(c, sub)
                if not isinstance(c, bool) and c not in pool and neg(c) not in pool:
                    pool.append(c)
            cs = s.cands(xs, ns, tn)
            for lvl in range(4):
                t = s.tree(dat, lambda _j: None, ids, pool, cands=cs[lvl], depth=0)
                if t is not None:
                    r = t; break
            if r is None:
                for lvl in range(4):
                    t = s.tree(dat, lambda _j: None, ids, pool, cands=cs[lvl], depth=4)
                    if t is not None:
                        r = t; break
            if r is None:
                return None
            e = totree(r)
            out.append(e)
            sub[a.id] = e
        return out

    def cfun(s, x, ids):
        key = (x, tuple(ids))
        f = _cf.get(key)
        if f is None:
            names = {i: pyname(i) for i in ids}
            try:
                d = {'Fraction': Fraction}
                f = eval('lambda %s: %s' % (', '.join(pyname(i) for i in ids), topy(x, names)), d)
            except EvalErr:
                f = False
            _cf[key] = f
        return f or None

    def tree(s, data, _unused, ids, pool, cands=None, depth=5, label=False):
        """[(conds, candidate or label)] separating the data, or None"""
        fs = []
        if cands is not None:
            seen = set()
            for c in cands:
                if c in seen:
                    continue
                seen.add(c)
                f = s.cfun(c, ids)
                if f:
                    fs.append((c, f))
        ps = []
        def getp():
            if not ps:
                for c in pool:
                    f = s.cfun(c, ids)
                    if f:
                        ps.append((c, f))
            return ps
        def leaf(dat):
            if not dat:
                return None
            if label:
                l = {y[0] for _d, y in dat}
                return l.pop() if len(l) == 1 else None
            for c, f in fs:
                try:
                    if all(f(*d) == y[0] for d, y in dat):
                        return c
                except ZeroDivisionError:
                    pass
            return None
        def go(dat, d, used):
            r = leaf(dat)
            if r is not None:
                return [([], r)]
            if d <= 0:
                return None
            opts = []
            for c, f in getp():
                if c in used:
                    continue
                try:
                    A = [x for x in dat if f(*x[0])]
                except ZeroDivisionError:
                    continue
                if not A or len(A) == len(dat):
                    continue
                B = [x for x in dat if not f(*x[0])]
                la, lb = leaf(A), leaf(B)
                opts.append((-(la is not None) - (lb is not None), len(opts), c, A, B))
            opts.sort(key=lambda o: o[:2])
            for sc, _n, c, A, B in opts[:8 if d > 1 else 60]:
                if d == 1 and sc > -2:
                    return None
                a = go(A, d - 1, used | {c})
                if a is None:
                    continue
                b = go(B, d - 1, used | {c})
                if b is None:
                    continue
                return [([c] + cs, v) for cs, v in a] + [([neg(c)] + cs, v) for cs, v in b]
            return None
        for dd in ([0] if depth == 0 else range(1 if not label else 0, depth + 1)):
            r = go(data, dd, frozenset())
            if r is not None:
                return r
        return None


_cf = {}


def common_loops(pa, pb):
    """loops two events have in common, and which of them comes first inside those (-1: the first, 1: the second)"""
    out = []
    for (na, la), (nb, lb) in zip(pa, pb):
        if na != nb:
            return out, -1 if na < nb else 1
        if la is not lb:
            return out, 0
        if la is not None:
            out.append(la)
    return out, 0


def order(s, wa, wb, seq, par, name):
    """seq / par: coordinate names.  Proves: events of wa and of wb with equal coordinates seq+par come in the order
    wa, wb inside one and the same iteration of their common loops, and these iterations are numbered by seq (and par):
    no event of another step comes between."""
    nm = '%s: %s' % (s.name, name)
    if wa not in s.maps or wb not in s.maps or s.maps[wa][3] is None or s.maps[wb][3] is None:
        s.res.add(nm, False, 'no correspondence'); return False
    ca, sa, pha, psa, la = s.maps[wa]
    cb, sb, phb, psb, lb = s.maps[wb]
    good = True
    for i in pha:
        for j in phb:
            if i not in psa or j not in psb:
                continue
            fa, fb = ca[i], cb[j]
            ls, first = common_loops(fa.path, fb.path)
            if first >= 0:
                s.res.add(nm, False, 'the first may come after the second'); good = False; continue
            ka, kb = pha[i][0], phb[j][0]
            specA, specB = sa[ka], sb[kb]
            ren = {a.id: V(a.key[1] + '@') for a, _n, _p in specB.vars if a.key[1].lstrip('$') not in seq + par}
            dom = specA.dom() + [subst(c, ren) for c in specB.dom()]
            cn = {a.key[1].lstrip('$'): q for (a, _n, _p), q in zip(specA.vars, pha[i][1])}
            cm = {a.key[1].lstrip('$'): q for (a, _n, _p), q in zip(specB.vars, phb[j][1])}
            lids = {L.var.id for L in ls}
            allowed = set(s.pids)
            for L in ls:
                xa = {a.id: q for (a, _n, _p), q in zip(fa.vars, psa[i])}[L.var.id]
                xb = subst({a.id: q for (a, _n, _p), q in zip(fb.vars, psb[j])}[L.var.id], ren)
                if not s.prove(dom + [disj(*la.get(i, [False]))] + [subst(disj(*lb.get(j, [False])), ren)], eq(xa, xb), '%s: same iteration of %s' % (name, L.name)):
                    good = False
                if L.par:
                    okv = {V('$' + p).single().id for p in seq + par} | allowed
                    if not set(xa.vs()) <= okv and not {v for v in allvars(xa)} <= okv:
                        s.res.add(nm, False, 'threads are not assigned by %s' % (par,)); good = False
            for c in seq:
                for q, f in ((cn[c], fa), (cm[c], fb)):
                    if not {v for v in allvars(q)} <= lids | allowed:
                        s.res.add(nm, False, 'steps are not contiguous'); good = False
    s.res.add('%s: order' % nm, good, '')
    return good


def allvars(x):
    return {v for v in cvs(x) if T.get(v).k == 'v'} if not isinstance(x, Poly) else {v for v in deepvs(x) if T.get(v).k == 'v'}


def deepvs(p):
    out = set()
    st = [p]
    while st:
        q = st.pop()
        for v in (q.vs() if isinstance(q, Poly) else cvs(q)):
            if v in out:
                continue
            out.add(v)
            a = T.get(v)
            if a.k == 'v':
                continue
            for y in a.key[1:]:
                if isinstance(y, Poly) or isinstance(y, tuple) and len(y) and isinstance(y[0], str):
                    st.append(y)
    return out


def totree(t):
    """ite expression of a tree [(conds, poly)]"""
    if len(t) == 1 and not t[0][0]:
        return t[0][1]
    c = t[0][0][0]
    A = [(cs[1:], v) for cs, v in t if cs[0] == c]
    B = [(cs[1:], v) for cs, v in t if cs[0] != c]
    return ite0(c, totree(A), totree(B))
