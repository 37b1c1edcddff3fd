"""Every access lies inside the memory it is for, whatever the layout: the offsets of all reads, writes, kernel operands
and clearings of a function against the sizes its callers provide (C11, C12), and the kernel that is called (C14)."""
from .terms import *
from . import terms as T
from .symex import Ptr, Unsupported
from . import plan, families as fm, spec as sp, tasks as tk, blockp

SCHED = {'schedule_KMN': 'KMN', 'schedule_MKN': 'MKN', 'schedule_NKM': 'NKM', 'schedule_KMN_online': 'KMN', 'schedule_KMN_2d': '2D'}
OPERANDS = (('A',), ('B',), ('C',))


def operand(fn):
    return fn[-1] if not fn.endswith('_blis') else fn[5]


def setup(ctx, fn, mp, kp, np_, sch=None):
    """(case, arguments, sizes of the buffers: {buffer tag: (elements, number of buffers or None)}, contracts)"""
    sch = SCHED.get(fn, sch)
    c = plan.Case(sch, mp, kp, np_)
    S = sp.Spec(c) if sch != '2D' else None
    ops = {('A',): (c.M * c.K, None), ('B',): (c.K * c.N, None), ('C',): (c.M * c.N, None)}
    part = ('elem', 'C_p', '*')
    con = tk.CONTRACTS
    X = tk.X
    if fn in ('pack_A', 'pack_B', 'pack_C', 'unpack_C') or fn.endswith('_blis'):
        b = operand(fn)
        dims = {'A': [c.M, c.K, c.p], 'B': [c.K, c.N, c.p], 'C': [c.M, c.N, c.p]}[b]
        args = [Ptr((b,)), Ptr((b + '_p',))] + dims + X + [P(tk.SCH[sch])]
        if fn.endswith('_blis'):
            args = args[:2] + (dims if b == 'A' else dims[:2]) + X
        size = {(b,): ops[(b,)], (b + '_p',): (getattr(S, b)().total, None)}
        api = sch
    elif fn in ('schedule_KMN', 'schedule_MKN', 'schedule_NKM'):
        bufs = ('A_p', 'B_p', 'C', 'C_p') if sch == 'KMN' else ('A_p', 'B_p', 'C_p')
        args = [Ptr((q,)) for q in bufs] + [c.M, c.N, c.K, c.p, X[1], X[0]]
        size = {('A_p',): (S.A().total, None), ('B_p',): (S.B().total, None)}
        if sch == 'KMN':
            size.update({('C',): ops[('C',)], part: (c.mc * c.nc, c.p)})
        else:
            size[('C_p',)] = (S.C().total, None)
        api = sch
    else:
        args = [Ptr((q,)) for q in ('A', 'B', 'C', 'A_p', 'B_p', 'C_p')] + [c.M, c.N, c.K, c.p, Ptr(('cntx',)), Ptr(('x',))]
        size = dict(ops)
        size[part] = (c.mc * c.nc, c.p)
        if sch == '2D':
            size.update({('A_p',): (c.pm * c.mc * c.kc, None), ('B_p',): (c.pn * c.nc * c.kc, None)})
            api = '2d'
        else:
            size.update({('elem', 'A_p', '*'): (c.mc * c.kc, c.p), ('B_p',): (c.nc * c.kc, None)})
            api = 'online'
        con = blockp.usable(ctx)
    return c, args, size, con, api


def accesses(f):
    """[(buffer tag, number of the buffer or None, first element, elements, written)] of an event"""
    k = f.tag[0]
    out, q = [], list(f.polys)
    def take(b):
        n = q.pop(0) if '*' in b else None
        return n, q.pop(0)
    if k == 'w':
        n, o = take(f.tag[1])
        out.append((f.tag[1], n, o, ONE, True))
    elif k == 'r':
        n, o = take(f.tag[1])
        out.append((f.tag[1], n, o, ONE, False))
    elif k == 'set0':
        n, o = take(f.tag[1])
        out.append((f.tag[1], n, o, q[0], True))
    elif k == 'uk':
        a = [(b,) + take(b) for b in f.tag[1:4]]
        mr, nr, kk = q[:3]
        for (b, n, o), cnt, w in zip(a, (mr * kk, nr * kk, mr * nr), (False, False, True)):
            out.append((b, n, o, cnt, w))
    else:
        raise Unsupported('effect %s' % (f.tag,))
    return out


def outer(x, acc):
    """outermost choices in a term or condition"""
    if isinstance(x, Poly):
        for m in x.m:
            for i in m:
                a = T.get(i)
                if a.k == 'ite':
                    acc.setdefault(i, a)
                elif a.hasite:
                    for y in a.key[1:]:
                        if isinstance(y, (Poly, tuple)):
                            outer(y, acc)
    elif isinstance(x, tuple):
        for y in (x[1] if x and x[0] in ('and', 'or') else x[1:]):
            if isinstance(y, (Poly, tuple)):
                outer(y, acc)
    return acc


def inside(pr, D, goal, cands):
    """goal from D; values chosen under a condition nothing else depends on are first replaced by names with bounds"""
    if isinstance(goal, bool):
        return goal
    g = outer(goal, {})
    if g:
        conds = {}
        for f in D:
            for a in outer(f, {}).values():
                conds.setdefault(a.key[1], set()).add('facts')
        for i, a in g.items():
            conds.setdefault(a.key[1], set()).add(i)
        sub, new = {}, []
        for i, a in g.items():
            if conds[a.key[1]] == {i} and not (conds.get(neg(a.key[1]), set()) - {i}):
                key = (i, tuple(D))
                if key not in memo:
                    z, bs = fresh('z'), []
                    b = next((b for b in (1, 0) if pr.prove(D, ge(P(a), b), budget=5)), None)
                    if b is not None:
                        bs.append(ge(z, b))
                        bs += [le(z, q) for q in cands if pr.prove(D, le(P(a), q), budget=5)]
                    memo[key] = (z, bs)
                z, bs = memo[key]
                if bs:
                    sub[i] = z; new += bs
        if sub:
            D2 = [subst(f, sub) for f in D] + new
            if pr.prove(D2, subst(goal, sub), budget=20):
                return True
    return pr.prove(D, goal)


memo = {}


def t_bounds(ctx, r, fn, mp, kp, np_, which, sch=None):
    """which: 'own' for the library's buffers, 'ops' for the operands"""
    c, args, size, con, api = setup(ctx, fn, mp, kp, np_, sch)
    r.funcs.add(fn)
    pr, ex, tr, alts = tk.run_fn(ctx, c, fn, args, con, reads=True)
    code = fm.flatten(fm.clears(tr, lambda b: b[0] == 'elem'))
    nm = '%s %s' % (fn, c.name)
    seen, bad = set(), []
    for f in code:
        dom = None
        for b, n, o, cnt, w in accesses(f):
            if (b in OPERANDS) != (which == 'ops'):
                continue
            what = '%s of %s' % ('write' if w else 'read', b[0] if b[0] != 'elem' else b[1])
            if b not in size:
                raise Unsupported('access to %r' % (b,))
            if which == 'ops' and w and not (b == ('C',) and not fn.startswith('pack_')):
                r.obls.append(('%s: %s' % (nm, what), 'undecided', 'operands are only read')); bad.append(f)
                continue
            key = (b, n, o, cnt, tuple(f.dom()))
            if key in seen:
                continue
            seen.add(key)
            sz, num = size[b]
            D = c.F + f.dom()
            for g, t in [(le(0, o), 'starts inside'), (le(o + cnt, sz), 'ends inside')] + ([(conj(le(0, n), lt(n, num)), 'one of the buffers')] if num is not None else []):
                ok = inside(pr, D, g, [c.kc])
                r.obls.append(('%s: %s: %s' % (nm, what, t), 'proved' if ok else 'undecided', '' if ok else '%s, of %s' % (show(o)[:200], show(sz)[:100])))
                if not ok:
                    bad.append((f, g))
    if bad:
        witness(ctx, r, c, bad, nm, api, fn)
    if which == 'own':
        blockp.credit(r, ex.used_contracts)
    tk.finish(r, ex, None, None)


def witness(ctx, r, c, bad, nm, api, fn):
    """concrete parameters at which an access is outside"""
    import random
    rng = random.Random(4)
    case = lambda e: (tk.pack_case(c, operand(fn), e, ctx.shapes, int(fn.endswith('_blis'))) if 'pack' in fn else tk.prod_case(c, e, ctx.shapes, api=api))
    more = 0
    for f, g in [x for x in bad if isinstance(x, tuple)][:6]:
        try:
            # any event outside?
            pids = [V(n).single().id for n, _l, _h in c.base]
            h = fm.Fam(f.vars, f.guards + [neg(g)], ('out',), [ZERO])
            gen = fm.compile_fam(h, pids + [V('m_map').single().id, V('n_map').single().id])
            for _ in range(60):
                e = c.sample(rng)
                if e is None:
                    continue
                hit = next(iter(gen(*([e[n] for n, _l, _h in c.base] + [1, 2]))), None)
                if hit is not None:
                    r.refuted.append(('%s: access outside at %s' % (nm, e), case(e)))
                    more += 1
                    if more >= 3:
                        return
                    break
        except Exception:
            continue
    for _ in range(4):
        e = c.sample(rng)
        if e is not None:
            r.refuted_extra.append(case(e))


def t_index(ctx, r, fn, mp, kp, np_):
    """every kernel call of a schedule is made with the kernel and the tile shape of the context"""
    c, args, size, con, api = setup(ctx, fn, mp, kp, np_)
    r.funcs.add(fn)
    pr, ex, tr, alts = tk.run_fn(ctx, c, fn, args, con)
    nm = '%s %s' % (fn, c.name)
    uk = [f for f in fm.flatten(tr) if f.tag[0] == 'uk']
    r.obls.append((nm + ': kernels are called', 'proved' if uk else 'undecided', ''))
    for f in uk:
        mr, nr, _k, *idx = f.polys[-(3 + 2):] if len(f.polys) >= 5 else []
        for g, t in ((eq(mr, c.mr), 'tile height'), (eq(nr, c.nr), 'tile width'), (eq(idx[0], V('m_map')), 'table row'), (eq(idx[1], V('n_map')), 'table column')):
            ok = pr.prove(c.F + f.dom(), g)
            r.obls.append(('%s: kernel call: %s of the context' % (nm, t), 'proved' if ok else 'undecided', '' if ok else show(g)[:200]))
            if not ok:
                import random
                e = c.sample(random.Random(4))
                if e is not None:
                    r.refuted_extra.append(tk.prod_case(c, e, ctx.shapes, api=api))
    for o in ex.obls:
        if o.status != 'proved':
            r.obls.append(('%s [%s]' % (o.name, o.where), 'undecided', show(o.goal)[:200]))
    r.inlined |= ex.used_inline; r.contracts |= ex.used_contracts


def t_safe(ctx, r, which, exact, eargs, fn, mp, kp, np_, sch=None):
    """accesses are inside: either because the function does exactly what its contract says (whose places are inside by
    the layout lemmas, and all written before they are read), or else shown for the accesses as they are"""
    e = tk.TaskResult(r.name)
    try:
        exact(ctx, e, *eargs)
    except (Unsupported, T.EvalErr) as x:
        e.error = str(x)
    if e.ok():
        r.obls += e.obls
        for k in ('funcs', 'inlined', 'contracts', 'externals', 'assume'):
            getattr(r, k).update(getattr(e, k))
        return
    t_bounds(ctx, r, fn, mp, kp, np_, which, sch)
    r.refuted_extra += [c for _t, c in e.refuted if c] + e.refuted_extra
    if which == 'own' and r.ok():
        bad = [o for o in e.obls if o[1] != 'proved']
        r.error = 'inside, but that all that is read was written before is not shown (%s)' % (e.error or bad[0][0])
