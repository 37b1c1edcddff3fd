"""The block plan: init_block_dims returns exactly the plan the other proofs assume, for every matrix, core count,
kernel shape and tile sizes; and every such input is one of the cases considered."""
import random
from .terms import *
from . import terms as T
from .symex import Exec, Ptr, Unsupported, NULL, multiple
from .prover import Prover
from . import plan, tasks as tk, spec as sp

SCH = tk.SCH


def extra(c):
    """facts that tie the parameters of the plan made by the library (beyond those its users need)"""
    X, names = [], []
    if c.sch in ('KMN', '2D') and c.mp:
        X += [lt(c.pm * (c.c - 1), c.rho), le(c.rho, c.pm * c.c)]
    if c.sch == '2D' and c.np:
        X += [lt(c.pn * (c.cn - 1), c.tau), le(c.tau, c.pn * c.cn)]
    if c.sch in ('MKN', 'NKM') and c.kp:
        X += [lt(c.p * (c.k1 - 1), c.kr), le(c.kr, c.p * c.k1)]
    return X


def sample(c, X, rng, n=12):
    out = []
    for _ in range(3000):
        e = c.sample(rng)
        if e is None:
            continue
        env = {V(k).single().id: v for k, v in e.items()}
        if all(ev(x, env) for x in X):
            out.append(env)
            if len(out) >= n:
                break
    return out


def hints(c):
    h = [c.Mb, c.Kb, c.Nb, c.Mb - 1, c.Kb - 1, c.Nb - 1, c.u, c.vv]
    for n in ('rho', 'c', 'l', 'pl_m', 'k1', 'kl', 'pl_k', 'tau', 'cn', 'ln', 'pl_n', 'kr'):
        v = getattr(c, n, None)
        if v is not None:
            h.append(v)
    return h


def cache_contract(c, want):
    """get_cache_dims: a fresh record with the tile sizes and schedule it decided on"""
    def f(ex, v, st, tr):
        M, N, K, p, cx, sch, argv, ts, a, b, d = v
        for n, (g, w) in enumerate(zip([M, N, K, p, sch, ts, a, b, d], [c.M, c.N, c.K, c.p] + want)):
            ex.oblige(st, eq(P(g), w), 'tile sizes are chosen for this problem (argument %d)' % n)
        ex.structural(isinstance(cx, Ptr) and cx.buf == ('cntx',), 'tile sizes are chosen for this context')
        hid = ('heap', 'dims')
        tr.append(('alloc', hid, fn('sizeof_cache_dims_t'), 'malloc'))
        st.heap[(hid, 'm_c')] = c.mc
        st.heap[(hid, 'k_c')] = c.kc
        st.heap[(hid, 'n_c')] = c.nc
        st.heap[(hid, 'sch')] = P(SCH[c.sch])
        return Ptr(hid)
    return f


USED = {   # fields the code reads, by schedule
    'KMN': ['m_c', 'k_c', 'n_c', 'm_c1', 'k_c1', 'n_c1', 'm_c1_last_core', 'mr_rem', 'nr_rem', 'p_l', 'm_pad', 'k_pad', 'n_pad', 'Mb', 'Kb', 'Nb', 'M_padded', 'N_padded', 'pm', 'pn', 'sch'],
    'MKN': ['m_c', 'k_c', 'n_c', 'm_c1', 'k_c1', 'n_c1', 'k_c1_last_core', 'mr_rem', 'nr_rem', 'k_rem', 'p_l', 'm_pad', 'k_pad', 'n_pad', 'Mb', 'Kb', 'Nb', 'M_padded', 'N_padded', 'pm', 'pn', 'sch'],
}
USED['NKM'] = USED['MKN']


def t_plan(ctx, r, sch, mp, kp, np_):
    c = plan.Case(sch, mp, kp, np_)
    X = extra(c)
    envs = sample(c, X, random.Random(5))
    F = c.F + X
    pr = Prover()
    want = [V('sch_arg'), P(4), V('mcu'), V('kcu'), V('ncu')]
    ex = Exec(ctx.prog, pr, {'get_cache_dims': cache_contract(c, want)})
    ex.hints, ex.envs = hints(c), envs
    r.funcs.add('init_block_dims')
    heap = {(('cntx',), 'mr'): c.mr, (('cntx',), 'nr'): c.nr}
    args = [c.M, c.N, c.K, c.p, Ptr(('x',)), Ptr(('cntx',)), want[0], Ptr(('argv',))] + want[1:]
    case = lambda e: tk.plan_case(c, e, ctx.shapes)
    tr, alts = ex.run('init_block_dims', args, heap, F)
    live = [a for a in alts if a.status != 'dead']
    if len(live) != 1 or live[0].c is not True:
        raise Unsupported('several ways through the planner')
    H = live[0].st.heap
    for f in USED[sch]:
        check(r, pr, F, H, f, c.f[f], c, envs, case, 'plan %s' % c.name)
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
    al = [e for e in tr if e[0] == 'alloc']; fr = [e for e in tr if e[0] == 'free']
    r.obls.append(('plan: the record of tile sizes is released', 'proved' if len(al) == len(fr) == 1 and isinstance(fr[0][1], Ptr) and fr[0][1].buf == al[0][1] else 'undecided', ''))
    r.inlined |= ex.used_inline; r.contracts |= ex.used_contracts; r.externals |= ex.externals


def check(r, pr, F, H, f, want, c, envs, case, name):
    got = H.get((('x',), f))
    nm = '%s: %s' % (name, f)
    if not isinstance(got, Poly):
        r.obls.append((nm, 'refuted', 'not set'))
        if envs:
            e = {n: envs[0][V(n).single().id] for n, _l, _h in c.base}
            r.refuted.append((nm + ' is not set', case(e)))
        return
    ok = pr.prove(F, eq(got, want))
    if ok:
        r.obls.append((nm, 'proved', '')); return
    for env in envs + sample(c, extra(c), random.Random(77), 200):
        try:
            if ev(got, env) != ev(want, env):
                e = {n: env[V(n).single().id] for n, _l, _h in c.base}
                r.obls.append((nm, 'refuted', ''))
                r.refuted.append(('%s is %s, should be %s at %s' % (nm, ev(got, env), ev(want, env), e), case(e)))
                return
        except EvalErr:
            break
    r.obls.append((nm, 'undecided', show(got)[:160]))


def t_exist(ctx, r, which):
    """every size splits into full blocks and an edge of the assumed form; every active core has a share"""
    pr = Prover(nia_ms=8000)
    M, P_, mr, u, kc = V('M'), V('pm'), V('mr'), V('u'), V('k_c')
    def ob(F, g, n):
        r.obls.append(('existence (%s): %s' % (which, n), 'proved' if pr.prove(F, g) else 'undecided', ''))
    if which in ('rows over cores', 'rows'):
        D = P_ * mr * u
        q = V('q'); rem = V('rem')
        F = [ge(M, 1), ge(P_, 1), ge(mr, 1), ge(u, 1), eq(M, q * D + rem), ge(q, 0), ge(rem, 0), lt(rem, D)]      # division of M by D
        ob([ge(M, 1), ge(P_, 1), ge(mr, 1), ge(u, 1)], gt(D, 0), 'blocks are not empty')
        ob(F + [eq(rem, 0)], ge(q, 1), 'no edge: at least one full block')
        rho = V('rho')
        R = F + [ge(rem, 1), lt(mr * (rho - 1), rem), le(rem, mr * rho)]      # rho = rem / mr rounded up
        ob(R, conj(ge(rho, 1), le(rho, P_ * u)), 'edge: register tiles within the block')
        ob(R, conj(ge(rem - mr * (rho - 1), 1), le(rem - mr * (rho - 1), mr)), 'edge: last register tile not empty')
        if which == 'rows over cores':
            c, pl = V('c'), V('pl')
            R2 = R + [ge(rho, 1), le(rho, P_ * u), lt(P_ * (c - 1), rho), le(rho, P_ * c)]
            ob(R2, conj(ge(c, 1), le(c, u)), 'edge: share of a core within the tile')
            R3 = R2 + [ge(c, 1), le(c, u), lt(c * (pl - 1), rho), le(rho, c * pl)]
            ob(R3, conj(ge(pl, 1), le(pl, P_)), 'edge: active cores within the cores')
            l = rho - c * (pl - 1)
            ob(R3, conj(ge(l, 1), le(l, c)), 'edge: last core\'s share not empty, within the share')
    elif which == 'depth':
        K, q, rem = V('K'), V('q'), V('rem')
        F = [ge(K, 1), ge(kc, 1), eq(K, q * kc + rem), ge(q, 0), ge(rem, 0), lt(rem, kc)]
        ob(F + [eq(rem, 0)], ge(q, 1), 'no edge: at least one full block')
        ob(F + [ge(rem, 1)], conj(ge(rem, 1), lt(rem, kc)), 'edge within the tile')
    elif which == 'depth over cores':
        K, q, rem, k1, pl = V('K'), V('q'), V('rem'), V('k1'), V('pl')
        D = P_ * kc
        F = [ge(K, 1), ge(kc, 1), ge(P_, 1), eq(K, q * D + rem), ge(q, 0), ge(rem, 0), lt(rem, D)]
        ob(F + [eq(rem, 0)], ge(q, 1), 'no edge: at least one full block')
        R = F + [ge(rem, 1), lt(P_ * (k1 - 1), rem), le(rem, P_ * k1)]
        ob(R, conj(ge(k1, 1), le(k1, kc)), 'edge: share of a core within the tile')
        R2 = R + [ge(k1, 1), le(k1, kc), lt(k1 * (pl - 1), rem), le(rem, k1 * pl)]
        ob(R2, conj(ge(pl, 1), le(pl, P_)), 'edge: active cores within the cores')
        l = rem - k1 * (pl - 1)
        ob(R2, conj(ge(l, 1), le(l, k1)), 'edge: last core\'s share not empty, within the share')


def t_cover(ctx, r, sch, mp, kp, np_):
    """the statement of the property over the plan's fields: shares add up to the padded matrix"""
    c = plan.Case(sch, mp, kp, np_)
    S = sp.Spec(c)
    pr = Prover()
    def ob(F, g, n):
        r.obls.append(('%s: %s' % (c.name, n), 'proved' if pr.prove(F, g) else 'undecided', ''))
    for L in (S.rows_layout(), S.cols_layout(), S.depth_layout()):
        for F, g, nm in sp.lemmas(c, L):
            ob(c.F + F, g, nm)
    F = c.F
    ob(F, conj(le(c.M, S.Mp), lt(S.Mp, c.M + c.mr)), 'M_padded is M rounded up')
    ob(F, conj(le(c.N, S.Np), lt(S.Np, c.N + c.nr)), 'N_padded is N rounded up')
    ob(F, exact_div(S.Mp, c.mr) is not None, 'M_padded is a multiple of the register tile')
    ob(F, exact_div(S.Np, c.nr) is not None, 'N_padded is a multiple of the register tile')
    at = lambda q: q.single()
    m, n, k, core = S.m, S.n, S.k, S.core
    R = F + [le(0, m), lt(m, c.Mb), le(0, n), lt(n, c.Nb), le(0, k), lt(k, c.Kb), le(0, core), lt(core, S.ncore)]
    ob(R, conj(ge(S.mct, 1), ge(S.nct, 1), ge(S.kct, 1)), 'every active core has a share')
    ob(R, conj(le(S.kct, c.kc), le(S.nct, c.nc if sch != '2D' else c.nc), le(S.mct, c.mc if sch != 'NKM' else c.p * c.mc)), 'shares within the full tile')
    ob(R, le(S.ncore, c.p), 'active cores within the cores')


SIZES = {'A': 'cake_sgemm_packed_A_size', 'B': 'cake_sgemm_packed_B_size', 'C': 'cake_sgemm_packed_C_size'}


def t_size(ctx, r, what, sch, mp, kp, np_):
    """the reported size of a packed operand is the size of its layout"""
    c = plan.Case(sch, mp, kp, np_)
    X = extra(c)
    pr = Prover()
    ex = Exec(ctx.prog, pr)
    ex.hints, ex.envs = hints(c), sample(c, X, random.Random(5))
    S = sp.Spec(c)
    f = SIZES[what]
    r.funcs.add(f)
    x, cx, sc = Ptr(('x',)), Ptr(('cntx',)), P(SCH[sch])
    args = {'A': [c.M, c.K, c.p, x, cx, sc], 'B': [c.K, c.N, c.p, x, cx], 'C': [c.M, c.N, c.p, x, cx, sc]}[what]
    tr, alts = ex.run(f, args, c.heap(), c.F)
    live = [a for a in alts if a.status != 'dead']
    if len(live) != 1 or live[0].c is not True or not isinstance(live[0].ret, Poly):
        raise Unsupported('several ways through ' + f)
    tot = {'A': S.A, 'B': S.B, 'C': S.C}[what]().total
    nm = '%s %s: size of the packed operand' % (f, c.name)
    if pr.prove(c.F, le(4 * tot, live[0].ret)):
        r.obls.append((nm, 'proved', ''))
    else:
        st = 'undecided'
        for env in ex.envs:
            try:
                if ev(live[0].ret, env) < ev(4 * tot, env):
                    e = {n: env[V(n).single().id] for n, _l, _h in c.base}
                    r.refuted.append((nm + ' too small at %s' % e, tk.pack_case(c, what, e, ctx.shapes)))
                    st = 'refuted'; break
            except EvalErr:
                break
        r.obls.append((nm, st, show(live[0].ret)[:200]))
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
    if any(e[0] not in ('r',) for e in tr):
        r.obls.append((nm + ': no effects', 'undecided', ''))


def t_tiles(ctx, r, sch):
    """get_cache_dims: schedule and tile sizes are usable, and as given where given (sch: 0..2 given, 3 left open)"""
    pr = Prover()
    ex = Exec(ctx.prog, pr)
    ex.abstract = {}
    heap = {(('cntx',), k): V(k) for k in ('mr', 'nr', 'L1', 'L2', 'L3', 'ncores', 'alpha_n')}
    us = [V('mcu'), V('kcu'), V('ncu')]
    M, N, K, p, mr, nr = (V(k) for k in ('M', 'N', 'K', 'p', 'mr', 'nr'))
    F = [ge(V(k), 1) for k in ('M', 'N', 'K', 'p', 'mr', 'nr', 'ncores')] + [ge(V(k), 0) for k in ('L1', 'L2', 'L3', 'mcu', 'kcu', 'ncu')]
    r.funcs |= {'get_cache_dims', 'derive_schedule'}
    tr, alts = ex.run('get_cache_dims', [M, N, K, p, Ptr(('cntx',)), P(sch), Ptr(('argv',)), P(4)] + us, heap, F)
    live = [a for a in alts if a.status != 'dead']
    if len(live) != 1 or not isinstance(live[0].ret, Ptr):
        raise Unsupported('several ways through get_cache_dims')
    st = live[0].st
    F = F + ex.absfacts
    b = live[0].ret.buf
    nm = 'get_cache_dims (schedule %s)' % ('left open' if sch == 3 else sch)
    def ob(ok, n, note=''):
        r.obls.append(('%s: %s' % (nm, n), 'proved' if ok else 'undecided', note))
    ob(live[0].c is True or pr.prove(F, live[0].c), 'always returns')
    g = lambda f: st.heap.get((b, f))
    vals = {f: g(f) for f in ('m_c', 'k_c', 'n_c', 'sch')}
    if not all(isinstance(v, Poly) for v in vals.values()):
        ob(False, 'every field is set', str([f for f, v in vals.items() if not isinstance(v, Poly)]))
        return
    al = [e for e in tr if e[0] == 'alloc' and e[1] == b]
    ob(len(al) == 1 and pr.prove(F, eq(al[0][2], fn('sizeof_cache_dims_t'))), 'the record is allocated here')
    if sch == 3:
        ob(pr.prove(F, conj(le(0, vals['sch']), le(vals['sch'], 2))), 'one of the three schedules')
    else:
        ob(pr.prove(F, eq(vals['sch'], sch)), 'schedule as given')
    full = conj(*[ge(x, 1) for x in us])
    for f, x in zip(('m_c', 'k_c', 'n_c'), us):
        ob(pr.prove(F + [full], eq(vals[f], x)), '%s as given' % f, show(vals[f])[:200])
    for x in us:
        A = F + [eq(x, 0)]
        for f, unit in (('m_c', mr), ('n_c', nr), ('k_c', None)):
            v = vals[f]
            ob(pr.prove(A, ge(v, 1)), '%s positive when %s is left open' % (f, x), show(v)[:200])
            if unit is not None:
                ob(multiple(pr, A, v, unit), '%s a multiple of the register tile when %s is left open' % (f, x), show(v)[:200])
    for k in heap:
        if k[1] != 'alpha_n':
            ob(st.heap.get(k) == heap[k], 'context field %s is left alone' % k[1])
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
    r.inlined |= ex.used_inline; r.externals |= ex.externals
    if any(o[1] != 'proved' for o in r.obls):
        # values of the real-valued formulas are unknowns here: concrete candidates for replay
        rng = random.Random(9)
        for _ in range(30):
            s_, n_ = rng.choice(ctx.shapes)
            full_ = rng.randint(0, 1)
            r.refuted_extra.append('plan api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d L1=%d L2=%d L3=%d ncores=%d' % (
                ('KMN', 'MKN', 'NKM', 'NA')[sch], rng.randint(1, 3000), rng.randint(1, 3000), rng.randint(1, 3000), rng.randint(1, 16), s_, n_,
                full_ * s_ * 3, full_ * 50, full_ * n_ * 2, 32768, 1024 * rng.randint(0, 2000), 4096 * rng.randint(0, 4000), rng.randint(1, 32)))


# ------------------------------------------------------------------ the grid of cores and the plan built on it
GRID = ('ideal below 1', 'ideal above the cores', 'ideal a divisor', 'ideal no divisor')


def t_grid(ctx, r, which):
    """grid_dims_2d: the divisor of p closest to the ideal number of columns, ties to the smaller"""
    r.funcs.add('grid_dims_2d')
    M, N, K, p, d, k0 = (V(k) for k in ('M', 'N', 'K', 'p', 'd', 'k0'))
    key = fn('real_round', fn('sqrt', rdiv(N * p, M)))
    F = [ge(x, 1) for x in (M, N, K, p, d)] + [ge(k0, 0), eq(mod(p, d), 0), le(d, p)]      # d: any divisor
    case, ideal = {GRID[0]: ([eq(k0, 0)], ONE), GRID[1]: ([gt(k0, p)], p), GRID[2]: ([ge(k0, 1), le(k0, p), eq(mod(p, k0), 0)], k0),
                   GRID[3]: ([ge(k0, 1), le(k0, p), ne(mod(p, k0), 0)], k0)}[which]
    F = F + case
    pr = Prover()
    ex = Exec(ctx.prog, pr)
    ex.abstract = {key: k0}
    ex.insts = [d, p, ONE]
    tr, alts = ex.run('grid_dims_2d', [M, N, K, p, V('ncores')], {}, F)
    if len(ex.abstract) != 1 or ex.absfacts:
        raise Unsupported('the ideal number of columns is computed in another way')
    live = [a for a in alts if a.status != 'dead']
    if len(live) != 1 or not isinstance(live[0].ret, Poly):
        raise Unsupported('several ways through grid_dims_2d')
    R = live[0].ret
    ab = lambda x: ite(le(0, x), x, -x)
    nm = 'grid_dims_2d, %s: ' % which
    def ob(G, g, n):
        r.obls.append((nm + n, 'proved' if pr.prove(G, g) else 'undecided', show(R)[:200]))
    for side, c in (('a divisor below the ideal', lt(d, ideal)), ('a divisor at the ideal', eq(d, ideal)), ('a divisor above the ideal', gt(d, ideal))):
        G = units(pr, F + [c], ex.exported)
        ob(G, conj(le(1, R), le(R, p)), 'within 1..p (%s)' % side)
        ob(G, eq(mod(p, R), 0), 'divides p (%s)' % side)
        ob(G, le(ab(R - ideal), ab(d - ideal)), 'at least as close as %s' % side)
        ob(G, disj(lt(ab(R - ideal), ab(d - ideal)), le(R, d)), 'tie: not above %s' % side)
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
    if any(e[0] != 'r' for e in tr):
        r.obls.append((nm + 'no effects', 'undecided', ''))
    r.inlined |= ex.used_inline; r.externals |= ex.externals
    if any(o[1] != 'proved' for o in r.obls):
        r.refuted_extra += candidates(ctx, 40)


def candidates(ctx, n, given=None):
    rng = random.Random(9)
    out = []
    for _ in range(n):
        s_, n_ = rng.choice(ctx.shapes)
        full = rng.randint(0, 1) if given is None else given
        mx = rng.choice((30, 300, 3000))
        out.append('plan api=2d M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d L1=%d L2=%d L3=%d ncores=%d' % (
            rng.randint(1, mx), rng.randint(1, mx), rng.randint(1, mx), rng.randint(1, 24), s_, n_,
            full * s_ * rng.randint(1, 3), full * rng.randint(1, 50), full * n_ * rng.randint(1, 3), 32768, 1024 * rng.randint(0, 2000), 4096 * rng.randint(0, 4000), rng.randint(1, 32)))
    return out


def units(pr, F, clauses):
    """facts and clauses, with the alternatives the facts exclude left out"""
    out = list(F)
    todo = [(f[1] if isinstance(f, tuple) and f[0] == 'or' else (f,)) for f in clauses]
    for _ in range(3):
        nxt = []
        for cl in todo:
            ls = [l for l in cl if not pr.prove(out, neg(l))]
            if len(ls) == 1:
                out += list(ls[0][1]) if isinstance(ls[0], tuple) and ls[0][0] == 'and' else [ls[0]]
            else:
                nxt.append(tuple(ls))
        if len(nxt) == len(todo):
            break
        todo = nxt
    return out + [disj(*c) for c in todo]


USED['2D'] = ['m_c', 'k_c', 'n_c', 'm_c1', 'k_c1', 'n_c1', 'm_c1_last_core', 'n_c1_last_core', 'mr_rem', 'nr_rem', 'pm_l', 'pn_l', 'm_pad', 'k_pad', 'n_pad', 'Mb', 'Kb', 'Nb',
              'M_padded', 'N_padded', 'pm', 'pn', 'sch']


def grid_contract(want, pn):
    """grid_dims_2d: a divisor of p (p is the product pn0*pm0)"""
    def f(ex, v, st, tr):
        for n, (g, w) in enumerate(zip(v, want)):
            ex.oblige(st, eq(P(g), w), 'the grid is chosen for this problem (argument %d)' % n)
        return pn
    return f


def t_plan2(ctx, r, given):
    """init_block_dims_2d: tile sizes and grid are usable, and the rest of the plan is the one they determine"""
    r.funcs.add('init_block_dims_2d')
    M, N, K, mr, nr, pm0, pn0 = (V(k) for k in ('M', 'N', 'K', 'mr', 'nr', 'pm0', 'pn0'))
    p = pm0 * pn0
    heap = {(('cntx',), k): V(k) for k in ('mr', 'nr', 'L1', 'L2', 'L3', 'ncores', 'alpha_n')}
    F = [ge(V(k), 1) for k in ('M', 'N', 'K', 'pn0', 'pm0', 'mr', 'nr', 'ncores')] + [ge(V(k), 0) for k in ('L1', 'L2', 'L3', 'mcu', 'kcu', 'ncu')]
    us = [V('mcu'), V('kcu'), V('ncu')]
    if given:
        us = [mr * us[0], us[1], nr * us[2]]
        F += [ge(V(k), 1) for k in ('mcu', 'kcu', 'ncu')]
    else:
        F.append(disj(*[eq(x, 0) for x in us]))
    pr = Prover()
    ex = Exec(ctx.prog, pr, {'grid_dims_2d': grid_contract([M, N, K, p], pn0)})
    ex.abstract = {}
    ex.naming = ([mr, nr], [pm0, pn0])
    sch = V('sch_arg')
    tr, alts = ex.run('init_block_dims_2d', [M, N, K, p, Ptr(('x',)), Ptr(('cntx',)), sch, Ptr(('argv',)), P(4)] + us, heap, F)
    live = [a for a in alts if a.status != 'dead']
    if len(live) != 1 or live[0].c is not True:
        raise Unsupported('several ways through init_block_dims_2d')
    st = live[0].st
    nm = 'init_block_dims_2d (%s): ' % ('tile sizes given' if given else 'tile sizes left open')
    got = {f: st.heap.get((('x',), f)) for f in USED['2D']}
    def ob(ok, n, note=''):
        r.obls.append((nm + n, 'proved' if ok else 'undecided', note))
    def done():
        for o in ex.obls:
            r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
        r.inlined |= ex.used_inline; r.contracts |= ex.used_contracts; r.externals |= ex.externals
        if any(o[1] != 'proved' for o in r.obls):
            r.refuted_extra += candidates(ctx, 60, 1 if given else 0)
    unset = [f for f in got if not isinstance(got[f], Poly)]
    if unset:
        ob(False, 'every field is set', str(unset))
        return done()
    # the five values the rest depends on
    five = [got[f] for f in ('m_c', 'n_c', 'k_c', 'pm', 'pn')]
    named = ex.name_cases(st, *five)
    got = {f: st.heap[(('x',), f)] for f in got}
    mc, nc, kc, pm, pn = named
    G = st.facts + ex.absfacts + [f for f in ex.namefacts if f not in st.facts]
    ob(pr.prove(G, conj(ge(mc, 1), ge(nc, 1), ge(kc, 1), ge(pm, 1), ge(pn, 1))), 'tile sizes and grid are positive')
    ob(pr.prove(G, le(pm * pn, p)), 'the grid has at most p cores')
    ob(exact_div(mc, mr) is not None or multiple(pr, G, mc, mr), 'm_c a multiple of the register tile')
    ob(exact_div(nc, nr) is not None or multiple(pr, G, nc, nr), 'n_c a multiple of the register tile')
    ob(pr.prove(G, eq(got['sch'], sch)), 'schedule as given')
    # the rest, as the plan they determine
    want = lambda c: {'m_c': c.mc, 'n_c': c.nc, 'k_c': c.kc, 'pm': c.pm, 'pn': c.pn}
    u, w = exact_div(mc, mr), exact_div(nc, nr)
    vs = [x.single() if isinstance(x, Poly) else None for x in (u, w, kc, pm, pn)]
    if any(v is None or v.k not in ('v', 'fn') for v in vs) or len({v.id for v in vs}) < 5:
        raise Unsupported('tile sizes and grid of the 2-D plan')
    for mp in (0, 1):
        for kp in (0, 1):
            for np_ in (0, 1):
                c = plan.Case('2D', mp, kp, np_)
                sub = dict(zip([v.id for v in vs], [c.u, c.vv, c.kc, c.pm, c.pn]))
                sub.update({M.single().id: c.M, N.single().id: c.N, K.single().id: c.K})
                CF = c.F + extra(c)
                envs = sample(c, extra(c), random.Random(5))
                memo = {}
                for f in USED['2D']:
                    if f == 'sch':
                        continue
                    check(r, pr, CF, {(('x',), f): resolve(pr, CF, subst(got[f], sub), hints(c), envs, memo)}, f, c.f[f], c, envs, lambda e: tk.plan_case(c, e, ctx.shapes), nm + c.name)
    done()


def resolve(pr, F, v, hs, envs, memo):
    """quotients and remainders in v replaced by what they are in this case of the plan, conditions decided"""
    for _ in range(60):
        i = pr.find_div([('eq', v)])
        if i is not None:
            a = T.get(i)
            num, den = a.key[1], a.key[2]
            key = (num, den)
            if key not in memo:
                cand = [pdivmod(num, den)[0]]
                for h in hs + [ZERO, ONE]:
                    try:
                        if len(envs) > 4 and all(ev(den, e) > 0 and ev(num, e) // ev(den, e) == ev(h, e) for e in envs):
                            cand.append(h)
                    except EvalErr:
                        pass
                memo[key] = next((q for q in cand if pr.prove(F, conj(le(0, num - q * den), lt(num - q * den, den)), budget=10)), None)
            q = memo[key]
            if q is None:
                return v
            ids = {}
            for kk, val in (('div', q), ('mod', num - q * den)):
                at = T._atoms.get((kk, num, den))
                if at is not None:
                    ids[at.id] = val
            v = subst(v, ids)
            continue
        it = pr._fi(v)
        if it is None:
            return v
        d = pr.decide(F, it)
        if d is None:
            return v
        v = assume(v, it if d else neg(it))
    return v


def t_cover2(ctx, r, mp, kp, np_):
    """the statement of the property over the fields of the 2-D plan"""
    from . import otf
    c = plan.Case('2D', mp, kp, np_)
    S = otf.Steps(c, True)
    pr = Prover()
    def ob(F, g, n):
        r.obls.append(('%s: %s' % (c.name, n), 'proved' if pr.prove(F, g) else 'undecided', ''))
    for L in (S.rows_layout(), S.cols_layout(), S.depth_layout()):
        for F, g, nm in sp.lemmas(c, L):
            ob(c.F + F, g, nm)
    F = c.F
    Mp, Np = c.f['M_padded'], c.f['N_padded']
    ob(F, conj(le(c.M, Mp), lt(Mp, c.M + c.mr)), 'M_padded is M rounded up')
    ob(F, conj(le(c.N, Np), lt(Np, c.N + c.nr)), 'N_padded is N rounded up')
    ob(F, exact_div(Mp, c.mr) is not None, 'M_padded is a multiple of the register tile')
    ob(F, exact_div(Np, c.nr) is not None, 'N_padded is a multiple of the register tile')
    R = F + [q for x, n in [(S.m, c.Mb), (S.n, c.Nb), (S.k, c.Kb)] + S.who for q in (le(0, x), lt(x, n))]
    ob(R, conj(ge(S.mct, 1), ge(S.nct, 1), ge(S.kct, 1)), 'every active core has a share')
    ob(R, conj(le(S.kct, c.kc), le(S.nct, c.nc), le(S.mct, c.mc)), 'shares within the full tile')
    ob(R, le(S.pmu * S.pnu, c.p), 'active cores within the cores')
