"""No two iterations of a parallel loop touch the same element, one of them writing it (C15).

For every parallel loop L of a function and every two accesses inside it to one buffer, at least one of them a write, with
everything outside L the same in both, one of these is shown, for all parameters of a case:

  number     equal numbers of a per-core buffer are the same iteration of L;
  owner      the accesses are those of matched families (vf/families.py): the iteration is a function of the structured
             coordinates of the event, of which those of the element are fixed by its place (layout lemmas) and those of
             the surrounding step by the loops outside; from these alone the iterations are equal;
  apart      the ranges of an earlier and of a later iteration do not overlap.

Local variables: a shared variable written inside a parallel loop is an obligation of its own (vf/symex.py)."""
import random
from .terms import *
from . import terms as T
from .symex import Ptr, Unsupported
from .prover import Prover
from . import plan, families as fm, spec as sp, tasks as tk, bounds as bo, small as sm, blockp, otf


def key(f):
    return id(f.node), f.tag, tuple(f.guards)


def rename(f, keep, mark):
    """the family with the variables bound inside, renamed"""
    sub = {a.id: V(a.key[1] + mark) for a, _n, _p in f.vars if a.id not in keep}
    g = fm.Fam([((sub[a.id].single() if a.id in sub else a), subst(n, sub), p) for a, n, p in f.vars], [subst(c, sub) for c in f.guards], f.tag, [subst(q, sub) for q in f.polys], f.path, f.node)
    return g, sub


def loops_of(code):
    out = []
    for f in code:
        for _n, L in f.path:
            if L is not None and L.par and L not in out:
                out.append(L)
    return out


def outside(f, L):
    """ids of the loop variables around L"""
    ids = set()
    for _n, q in f.path:
        if q is L:
            return ids
        if q is not None:
            ids.add(q.var.id)
    return ids


class Owners:
    """matched families: iteration of a loop as a function of structured coordinates"""
    def __init__(s, mt, regs):
        s.mt, s.regs, s.ix = mt, regs, {}
        if mt is None:
            return
        for what, m in mt.maps.items():
            if m[3] is None:
                continue
            for j, f in enumerate(m[0]):
                if j in m[2] and j in m[3]:
                    s.ix[key(f)] = (what, j)

    def get(s, f):
        q = s.ix.get(key(f))
        if q is None:
            return None
        what, j = q
        code, spec, phi, psi, sel = s.mt.maps[what]
        k, ph = phi[j]
        return code[j], spec[k], ph, psi[j], disj(*sel.get(j, [False]))

    def same(s, r, pr, F, fa, fb, L, buf):
        """True if equal elements are accessed in the same iteration"""
        a, b = s.get(fa), s.get(fb)
        if a is None or b is None or buf not in s.regs:
            return False
        if buf[0] == 'elem':
            return False
        ca, sa, pa, qa, la = a
        cb, sb, pb, qb, lb = b
        X, Y = s.regs[buf]
        out = outside(fa, L)
        params = set(s.mt.pids)
        va, vb = [x for x, _n, _p in sa.vars], [x for x, _n, _p in sb.vars]
        da = {x.id: q for x, q in zip(va, pa)}
        db = {x.id: q for x, q in zip(vb, pb)}
        # coordinates the surrounding loops fix
        fixed = set()
        for x in va:
            if x.id in db and fm.allvars(da[x.id]) <= out | params and fm.allvars(db[x.id]) <= out | params:
                if da[x.id] == db[x.id] or pr.prove(F + [c for f in (fa, fb) for c in f.dom() if fm.allvars(c) <= out | params], eq(da[x.id], db[x.id])):
                    fixed.add(x.id)
        if not Y <= fixed:
            return False
        fixed |= X
        ren = {x.id: V(x.key[1] + '@') for x in vb if x.id not in fixed}
        ta = dict(zip([x.id for x, _n, _p in ca.vars], qa))[L.var.id]
        tb = subst(dict(zip([x.id for x, _n, _p in cb.vars], qb))[L.var.id], ren)
        D = F + sa.dom() + [la] + [subst(c, ren) for c in sb.dom() + [lb]]
        return ta == tb or pr.prove([d for d in D if d is not True], eq(ta, tb))


def regions(fn, mt, S, c):
    """buffer -> (coordinates that are fixed by the place, coordinates the layout depends on)"""
    regs = {}
    if mt is None:
        return regs
    params = set(mt.pids)
    def lay(buf, *ls):
        X = {x.id for l in ls for x, _n, _s, _z in l.levels}
        Y = set()
        for l in ls:
            for _x, n, st, z in l.levels:
                Y |= fm.allvars(P(n)) | fm.allvars(P(st)) | fm.allvars(P(z))
        regs[buf] = X, Y - X - params
    if isinstance(S, otf.Steps):
        lay(S.Abuf, S.Alay()); lay(S.Bbuf, S.Blay())
        lay(('C',), S.rows_layout(), S.cols_layout())
    elif S is not None:
        for b in 'ABC':
            lay((b + '_p',), getattr(S, b)())
        lay(('C',), S.rows_layout(), S.cols_layout())
    return regs


def rowmajor(r, pr, F, rows, cols, N):
    """rows and columns of an element from its place in a matrix with rows of N elements"""
    a, b, x, y = (V('$' + q) for q in 'abxy')
    ok = pr.prove([le(0, x), lt(x, N), le(0, y), lt(y, N), lt(a, b), le(1, N)], lt(a * N + x, b * N + y))
    r.obls.append(('places in a row-major matrix are distinct', 'proved' if ok else 'undecided', ''))


def check(r, pr, F, code, own, nm, sample, names, case, depth=20):
    """all parallel loops; -> list of pairs that are not shown"""
    left = []
    for L in loops_of(code):
        fs = [f for f in code if any(q is L for _n, q in f.path)]
        acc = []
        for f in fs:
            if f.tag[0] in ('alloc', 'free'):
                raise Unsupported('%s in a parallel loop' % f.tag[0])
            seen = set()
            for a in bo.accesses(f):
                acc.append((f,) + a)
        bad = []
        done = set()
        for i, (fa, ba, na, oa, ka, wa) in enumerate(acc):
            for fb, bb, nb, ob, kb, wb in acc[i:]:
                if ba != bb or not (wa or wb):
                    continue
                out = outside(fa, L)
                sig = (ba, wa, wb, na, nb, oa, ob, ka, kb, tuple(fa.dom()), tuple(fb.dom()))
                if sig in done:
                    continue
                done.add(sig)
                what = '%s: %s of %s, loop %s' % (nm, '/'.join('write' if w else 'read' for w in (wa, wb)), ba[0] if ba[0] != 'elem' else ba[1], L.name)
                how = one(pr, F, own, r, L, out, (fa, na, oa, ka), (fb, nb, ob, kb), ba, depth)
                if how:
                    r.obls.append((what + ': iterations are apart (%s)' % how, 'proved', ''))
                else:
                    bad.append((what, fa, fb))
        if bad:
            left.append((L, bad, fs))
    return left


def one(pr, F, own, r, L, out, a, b, buf, depth):
    fa, na, oa, ka = a
    fb, nb, ob, kb = b
    g, sub = rename(fb, out, "'")
    t, u = P(L.var), sub[L.var.id]
    D = [d for d in F + fa.dom() + g.dom() if d is not True]
    if na is not None:
        n2 = subst(nb, sub)
        if (na == t and n2 == u) or pr.prove(D + [eq(na, n2)], eq(t, u), budget=depth):
            return 'number'
        D = D + [eq(na, n2)]
    if own.same(r, pr, F, fa, fb, L, buf):
        return 'owner'
    o2, k2 = subst(ob, sub), subst(kb, sub)
    def apart(d):
        return pr.prove(D + d, le(oa + ka, o2), budget=depth) or pr.prove(D + d, le(o2 + k2, oa), budget=depth)
    if apart([lt(t, u)]) and (fa is fb and na == nb and oa == ob and ka == kb or apart([lt(u, t)])):
        return 'apart'
    return None


def witness(left, sample, names, tries=80, cells=60000):
    """concrete parameters and two iterations that touch the same element"""
    rng = random.Random(11)
    pids = [V(n).single().id for n in names]
    for L, bad, fs in left:
        gens = []
        for f in fs:
            out = outside(f, L)
            for b, n, o, k, w in bo.accesses(f):
                h = fm.Fam(f.vars, f.guards, ('acc',), [P(L.var), n if n is not None else ZERO, o, k])
                pos = [i for i, (a, _n, _p) in enumerate(f.vars) if a.id in out]
                gens.append((fm.compile_fam(h, pids), b, w, pos))
        for _ in range(tries):
            e = sample(rng)
            if e is None:
                continue
            seen, cnt = {}, 0
            try:
                for g, b, w, pos in gens:
                    for x, (t, n, o, k) in g(*[e[q] for q in names]):
                        u = tuple(x[i] for i in pos)
                        for z in range(int(o), int(o + k)):
                            cnt += 1
                            if cnt > cells:
                                raise OverflowError
                            h = seen.setdefault((b, n, z, u), {})
                            h[t] = h.get(t, False) or w
                            if len(h) > 1 and any(h.values()):
                                return L, b, z, sorted(h)[:2], e
            except (OverflowError, ZeroDivisionError):
                continue
    return None


def conclude(r, left, nm, sample, names, case):
    if not left:
        return
    q = witness(left, sample, names)
    if q:
        L, b, z, ts, e = q
        try:
            cs = case(e)
        except Exception:
            cs = None
        txt = '%s: iterations %s and %s of loop %s both touch element %s of %s, one writing, at %s' % (nm, ts[0], ts[1], L.name, z, b, e)
        r.obls.append((left[0][1][0][0] + ': iterations are apart', 'refuted', txt))
        r.refuted.append((txt, cs))
        return
    r.error = 'not shown to be apart, no example found: %s' % '; '.join(sorted({x[0] for _L, bad, _f in left for x in bad})[:3])


def t_races(ctx, r, exact, eargs, fn, mp, kp, np_, sch=None):
    e, got = tk.TaskResult(r.name), None
    try:
        got = exact(ctx, e, *eargs)
    except (Unsupported, T.EvalErr) as x:
        e.error = str(x)
    c, args, size, con, api = bo.setup(ctx, fn, mp, kp, np_, sch)
    nm = '%s %s' % (fn, c.name)
    r.funcs.add(fn)
    names = [n for n, _l, _h in c.base]
    if e.ok() and got:
        code, mt, S = got
        pr = mt.pr
        r.obls += e.obls
        for k in ('funcs', 'inlined', 'contracts', 'externals', 'assume'):
            getattr(r, k).update(getattr(e, k))
        rowmajor(r, pr, c.F, None, None, V('$N'))
    else:
        mt = S = None
        pr, ex, tr, alts = tk.run_fn(ctx, c, fn, args, con, reads=True)
        code = fm.flatten(fm.clears(tr, lambda b: b[0] == 'elem'))
        shared(r, ex)
        blockp.credit(r, ex.used_contracts)
        r.inlined |= ex.used_inline; r.contracts |= ex.used_contracts; r.externals |= ex.externals
    own = Owners(mt, regions(fn, mt, S, c))
    r.obls.append((nm + ': parallel loops', 'proved', str(len(loops_of(code)))))
    sample = lambda rng: (lambda q: q and dict(q, m_map=1, n_map=2))(c.sample(rng))
    case = lambda q: (tk.pack_case(c, bo.operand(fn), q, ctx.shapes, int(fn.endswith('_blis'))) if 'pack' in fn else tk.prod_case(c, q, ctx.shapes, api=api))
    more(r, sample, case)
    left = check(r, pr, c.F, code, own, nm, sample, names, case)
    conclude(r, left, nm, sample, names + ['m_map', 'n_map'], case)


def shared(r, ex):
    for o in ex.obls:
        if o.name.startswith('race'):
            r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', ''))


def more(r, sample, case):
    """inputs to try when a shared variable is written"""
    if all(o[1] == 'proved' for o in r.obls):
        return
    rng = random.Random(5)
    es = sorted((e for e in (sample(rng) for _ in range(60)) if e), key=lambda e: -sum(e.get(q, 0) for q in ('Mb', 'Kb', 'Nb', 'p', 'u', 'v', 'q', 'h')))
    for e in es[:6]:
        try:
            r.refuted_extra.append(case(e))
        except Exception:
            pass


def t_trans(ctx, r, bn, bk):
    e, got = tk.TaskResult(r.name), None
    try:
        got = sm.t_trans(ctx, e, bn, bk)
    except (Unsupported, T.EvalErr) as x:
        e.error = str(x)
    if got is None:
        raise Unsupported('transpose_mat: %s' % e.error)
    code, mt, lays, F, sample, names, case, ex, N = got
    r.funcs.add('transpose_mat')
    if e.ok():
        r.obls += e.obls
        rowmajor(r, mt.pr, F, None, None, V('$N'))
        X = {x.id for l in lays for x, _n, _s, _z in l.levels}
        own = Owners(mt, {('At',): (X, set())})
    else:
        shared(r, ex)
        own = Owners(None, {})
    more(r, sample, case)
    left = check(r, mt.pr, F, code, own, 'transpose_mat', sample, names, case)
    conclude(r, left, 'transpose_mat', sample, names, case)


def t_block(ctx, r, name):
    """block packers and the functions that stand on their own: by the places alone"""
    M, N, K = V('M'), V('N'), V('K')
    r.funcs.add(name)
    pr = Prover()
    if name == 'cake_sgemm_checker':
        names = ['M', 'N', 'K']
        F = [ge(q, 1) for q in (M, N, K)]
        from .symex import Exec
        ex = Exec(ctx.prog, pr, None)
        ex.track_reads = ex.nan = ex.flags = True
        tr, alts = ex.run(name, [Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), N, M, K], {}, F)
        hi = 4
    else:
        raise Unsupported(name)
    sample = lambda rng: {n: rng.randint(1, hi) for n in names}
    code = fm.flatten(tr)
    shared(r, ex)
    case = lambda e: 'checker f=gemm M=%d N=%d K=%d bad=0 kind=0 seed=1' % (e['M'] + 8, e['N'] + 8, e['K'])
    inner = [f for f in code if any(L is not None and L.par for _n, L in f.path)]
    left = check(r, pr, F, inner, Owners(None, {}), name, sample, names, case)
    conclude(r, left, name, sample, names, case)
