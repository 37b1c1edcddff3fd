"""The schedules that pack on the fly: blocks of A and B are packed inside the schedule, and kept from one step to the
next where the walk turns around.

The steps are (n, m, k): block column, block row, block of the depth.  Shown, for all parameters of a plan case:

  result     the elements written to C are those of step (n, m), each once, from the partial tile of its core;
  kernels    in step (n, m, k) every register tile of every core is multiplied, once, with the tiles of the packed
             blocks at the places where blocks (m, k) of A and (k, n) of B keep them;
  packing    wherever a block is packed in step (n, m, k), all of block (m, k) of A (block (k, n) of B) is written, in
             that layout, padded with zeros, and before the kernels of the step;
  holding    in a step that does not pack, the step before it had the same block;
  partials   a core's partial tile is cleared after its result was written, before the next step's kernels."""
from .terms import *
from . import terms as T
from .symex import Ptr, Unsupported
from . import plan, families as fm, spec as sp, tasks as tk, blocks, blockp
from .spec import Layout, sv, lemmas


class Steps:
    """block structure of the plan, for the row-major walk over (n, m, k)"""
    def __init__(s, c, two):
        s.c, s.two = c, two
        m, k, n, core, cm, cn, rt, ct, mreg, nreg, kk, i, j = (sv(x) for x in 'm k n core cm cn rt ct mreg nreg kk i j'.split())
        s.m, s.k, s.n, s.core, s.cm, s.cn, s.rt, s.ct, s.mreg, s.nreg, s.kk, s.i, s.j = m, k, n, core, cm, cn, rt, ct, mreg, nreg, kk, i, j
        eM = eq(m, c.Mb - 1) if c.mp else False
        eK = eq(k, c.Kb - 1) if c.kp else False
        eN = eq(n, c.Nb - 1) if c.np else False
        mr, nr, mc, nc, kc = c.mr, c.nr, c.mc, c.nc, c.kc
        pm, pn = (c.pm, c.pn) if two else (c.p, ONE)
        row = cm if two else core
        s.kct = ite(eK, c.k1, kc) if c.kp else kc
        s.kbase = k * kc
        s.pmu = ite(eM, c.pl_m, pm) if c.mp else pm
        s.ux = ite(eM, c.c, c.u) if c.mp else c.u
        s.mregs = ite(eM, ite(eq(row, c.pl_m - 1), c.l, c.c), c.u) if c.mp else c.u
        s.R = ite(eM, c.rho, pm * c.u) if c.mp else pm * c.u
        s.mcx, s.mct = s.ux * mr, s.mregs * mr
        s.rbase, s.rowbase = m * pm * mc, m * pm * mc + row * s.mcx
        if two:
            s.pnu = ite(eN, c.pl_n, pn) if c.np else pn
            s.vx = ite(eN, c.cn, c.vv) if c.np else c.vv
            s.nregs = ite(eN, ite(eq(cn, c.pl_n - 1), c.ln, c.cn), c.vv) if c.np else c.vv
            s.S = ite(eN, c.tau, pn * c.vv) if c.np else pn * c.vv
            s.ncx, s.nct = s.vx * nr, s.nregs * nr
            s.cbase, s.colbase = n * pn * nc, n * pn * nc + cn * s.ncx
            s.who = [(cm, s.pmu), (cn, s.pnu)]
            s.coreno = cm * s.pnu + cn
        else:
            s.nregs = s.S = ite(eN, c.tau, c.vv) if c.np else c.vv
            s.nct = s.nregs * nr
            s.cbase = s.colbase = n * nc
            s.who = [(core, s.pmu)]
            s.coreno = core
        s.Abuf, s.Bbuf, s.Cbuf = ('A_p',) if two else ('elem', 'A_p', '*'), ('B_p',), ('elem', 'C_p', '*')

    def row(s):
        return s.rowbase + s.mreg * s.c.mr + s.i

    def col(s):
        return s.colbase + s.nreg * s.c.nr + s.j

    def dep(s):
        return s.kbase + s.kk

    @staticmethod
    def at(x):
        return x.single()

    # layouts of the blocks held
    def Alay(s):
        a, c = s.at, s.c
        t = (s.rt, s.R) if s.two else (s.mreg, s.mregs)
        return Layout('block of A', [(a(t[0]), t[1], t[0] * c.mr * s.kct, c.mr * s.kct), (a(s.kk), s.kct, s.kk * c.mr, c.mr), (a(s.i), c.mr, s.i, ONE)], t[1] * c.mr * s.kct)

    def Blay(s):
        a, c = s.at, s.c
        t = (s.ct, s.S) if s.two else (s.nreg, s.nregs)
        return Layout('block of B', [(a(t[0]), t[1], t[0] * c.nr * s.kct, c.nr * s.kct), (a(s.kk), s.kct, s.kk * c.nr, c.nr), (a(s.j), c.nr, s.j, ONE)], t[1] * c.nr * s.kct)

    def Clay(s):
        a, c = s.at, s.c
        return Layout('partial tile', [(a(s.nreg), s.nregs, s.nreg * s.mct * c.nr, s.mct * c.nr), (a(s.mreg), s.mregs, s.mreg * c.mr * c.nr, c.mr * c.nr),
                                       (a(s.i), c.mr, s.i * c.nr, c.nr), (a(s.j), c.nr, s.j, ONE)], s.mct * s.nct)

    def rows_layout(s):
        a, c = s.at, s.c
        r = s.cm if s.two else s.core
        pm = c.pm if s.two else c.p
        return Layout('rows', [(a(s.m), c.Mb, s.rbase, s.R * c.mr), (a(r), s.pmu, r * s.mcx, s.mct), (a(s.mreg), s.mregs, s.mreg * c.mr, c.mr), (a(s.i), c.mr, s.i, ONE)], c.f['M_padded'])

    def cols_layout(s):
        a, c = s.at, s.c
        l = [(a(s.n), c.Nb, s.cbase, s.S * c.nr)]
        if s.two:
            l.append((a(s.cn), s.pnu, s.cn * s.ncx, s.nct))
        return Layout('columns', l + [(a(s.nreg), s.nregs, s.nreg * c.nr, c.nr), (a(s.j), c.nr, s.j, ONE)], c.f['N_padded'])

    def depth_layout(s):
        a, c = s.at, s.c
        return Layout('depth', [(a(s.k), c.Kb, s.k * c.kc, s.kct), (a(s.kk), s.kct, s.kk, ONE)], c.K)

    # coordinates
    def stepvars(s, names):
        d = {'n': (s.n, s.c.Nb), 'm': (s.m, s.c.Mb), 'k': (s.k, s.c.Kb)}
        return [(s.at(d[q][0]), d[q][1], False) for q in names]

    def whovars(s):
        return [(s.at(x), n, False) for x, n in s.who]

    def tile(s):
        return s.nreg * s.mct * s.c.nr + s.mreg * s.c.mr * s.c.nr

    def unpack(s):
        c, a = s.c, s.at
        vs = s.stepvars('nm') + s.whovars() + [(x, n, False) for x, n, _st, _z in s.Clay().levels]
        return [fm.Fam(vs, [lt(s.row(), c.M), lt(s.col(), c.N)], ('w', ('C',), 'ld') + s.Cbuf, [s.row() * c.N + s.col(), s.coreno, s.tile() + s.i * c.nr + s.j])]

    def kernels(s, idx):
        c, a = s.c, s.at
        vs = s.stepvars('nmk') + s.whovars() + [(a(s.nreg), s.nregs, False), (a(s.mreg), s.mregs, False)]
        if s.two:
            pa = [(s.cm * s.ux + s.mreg) * c.mr * s.kct]
            pb = [(s.cn * s.vx + s.nreg) * c.nr * s.kct]
        else:
            pa, pb = [s.core, s.mreg * c.mr * s.kct], [s.nreg * c.nr * s.kct]
        return [fm.Fam(vs, [], ('uk', s.Abuf, s.Bbuf, s.Cbuf), pa + pb + [s.coreno, s.tile(), c.mr, c.nr, s.kct] + list(idx) + [s.n, s.m, s.k])]

    def packs(s, what, names, guards=(), kinds=None):
        """writes of the packed block, with the step coordinates `names` as further components"""
        c, a = s.c, s.at
        if what == 'A':
            lay = s.Alay()
            row = s.rbase + s.rt * c.mr + s.i if s.two else s.row()
            v = ite(ge(row, c.M), ZERO, P(atom('ld', ('A',), row * c.K + s.dep(), 0)))
            buf, who = s.Abuf, [] if s.two else [(a(s.core), s.pmu, False)]
            pre = [] if s.two else [s.core]
        else:
            lay = s.Blay()
            col = s.cbase + s.ct * c.nr + s.j if s.two else s.col()
            v = ite(ge(col, c.N), ZERO, P(atom('ld', ('B',), s.dep() * c.N + col, 0)))
            buf, who, pre = s.Bbuf, [], []
        d = {'n': s.n, 'm': s.m, 'k': s.k}
        vs = s.stepvars(names) + who + lay.vars()
        return [fm.Fam(vs, list(guards) + g, ('w', buf) + kind, pre + [lay.pos()] + ps + [d[q] for q in names])
                for g, kind, ps in fm.split_val(v) if kinds is None or kind[0] in kinds]


def annotate(mt, fams, ref, names):
    out = []
    for f in fams:
        st = tk.step_of(mt, f, ref, names)
        if st is None:
            mt.res.add('%s: %s belongs to a step' % (mt.name, f.tag[0]), False, ''); return None
        out.append(fm.Fam(f.vars, f.guards, f.tag, f.polys + st, f.path, f.node))
    return out


def step_loops(mt, S, uk, packs):
    """the loops around everything that happens in one step, and their variables as functions of the step"""
    ls = None
    for f in uk + packs:
        p = [L for _n, L in f.path if L is not None]
        if ls is None:
            ls = p
        else:
            q = 0
            while q < min(len(ls), len(p)) and ls[q] is p[q]:
                q += 1
            ls = ls[:q]
    code, spec, phi, psi, sel = mt.maps['kernel calls']
    steps = {S.at(S.n).id, S.at(S.m).id, S.at(S.k).id} | set(mt.pids)
    xs = {}
    for j in phi:
        for (a, _n, _p), q in zip(code[j].vars, psi[j]):
            for L in ls:
                if L.var is a:
                    xs.setdefault(a.id, []).append((j, q))
    sub = {}
    for L in ls:
        if L.par:
            raise Unsupported('steps in parallel')
        js = xs.get(L.var.id)
        if not js:
            raise Unsupported('step loop')
        q = js[0][1]
        if not fm.allvars(q) <= steps:
            raise Unsupported('a step loop depends on more than the step')
        for j, r in js[1:]:
            if r != q:
                mt.prove(spec[0].dom() + [disj(*sel.get(j, [False]))], eq(q, r), 'the loops of a step')
        sub[L.var.id] = q
    return ls, sub


def common_guard(fams, ids):
    """guards on the step that all of the families share"""
    g = None
    for f in fams:
        h = [c for c in f.guards if c is not True and fm.allvars(c) <= ids]
        g = h if g is None else [c for c in g if c in h]
    return g or []


def held(mt, S, ls, sub, G, same, what):
    """a step that does not pack comes right after one with the same block"""
    st = [S.n, S.m, S.k]
    old = {S.at(x).id: V(x.single().key[1] + "'") for x in st}
    dom = [le(0, x) for x in st] + [lt(S.n, S.c.Nb), lt(S.m, S.c.Mb), lt(S.k, S.c.Kb)]
    dom2 = [subst(c, old) for c in dom]
    qs, ns = [], []
    for L in ls:
        qs.append(subst(P(L.pos) if L.pos is not None else P(L.var), sub))
        ns.append(subst(P(L.n), sub))
    q2, n2 = [subst(q, old) for q in qs], [subst(n, old) for n in ns]
    ng = neg(conj(*G)) if G else False
    few = [f for f in mt.facts if not isinstance(f, bool) and f[0] != 'or' and fm.allvars(f) <= {x.single().id for x in (S.c.Mb, S.c.Kb, S.c.Nb)}]
    def show_(facts, goal, nm):
        if mt.pr.prove(few + [f for f in facts if f is not True], goal, budget=20):
            mt.res.add('%s: %s' % (mt.name, nm), True)
        else:
            mt.prove(facts, goal, nm)
    if ng is False:
        mt.res.add('%s: %s: packed in every step' % (mt.name, what), True); return
    show_(dom + [ng] + [eq(q, 0) for q in qs], False, what + ': the first step packs')
    for i in range(len(ls)):
        cs = [eq(q2[j], qs[j]) for j in range(i)] + [ge(qs[i], 1), eq(q2[i], qs[i] - 1)]
        for j in range(i + 1, len(ls)):
            cs += [eq(qs[j], 0), eq(q2[j], n2[j] - 1)]
        for x in same:
            show_(dom + dom2 + [ng] + cs, eq(subst(x, old), x), '%s: the step before has the same %s (loop %d)' % (what, showa(S.at(x)), i))


def t_otf(ctx, r, fn, mp, kp, np_, parts=('result', 'reads')):
    two = fn == 'schedule_KMN_2d'
    c = plan.Case('2D' if two else 'KMN', mp, kp, np_)
    r.funcs.add(fn)
    args = [Ptr((q,)) for q in ('A', 'B', 'C', 'A_p', 'B_p', 'C_p')] + [c.M, c.N, c.K, c.p, Ptr(('cntx',)), Ptr(('x',))]
    pr, ex, tr, alts = tk.run_fn(ctx, c, fn, args, blockp.usable(ctx), reads=True)
    S = Steps(c, two)
    idx = [V('m_map'), V('n_map')]
    code = fm.flatten(fm.clears(tr, lambda b: b[0] == 'elem' and b[1] == 'C_p'))
    mt = tk.matcher(pr, c, fn + ' ' + c.name, ('m_map', 'n_map'))
    def sampler(rng):
        # a few parameters large, the others small: steps, register tiles, cores, anything
        t = rng.randrange(4)
        cap = dict(mr=3, nr=3, p=9 if two else 3, k_c=3, u=3, v=3, Mb=3, Nb=3, Kb=3)
        low = {}
        if t == 0:
            cap.update(mr=2, nr=2, k_c=2, u=2, v=2, Mb=4, Nb=3, Kb=5, p=4, pm=2, pn=2); low.update(Kb=4, Mb=2, Nb=2)
        elif t == 1:
            cap.update(Mb=2, Nb=2, Kb=2); low.update(mr=2, nr=2, e=rng.choice((1, 2, 3)), ec=rng.choice((1, 2, 3)), k_c=2, k1=2)
        elif t == 2:
            cap.update(mr=2, nr=2, k_c=2, Mb=3, Nb=3, Kb=2); low.update(p=2, pm=2, pn=2, u=2, v=2)
        else:
            cap.update(Mb=4, Nb=4, Kb=4)
        e = c.sample(rng, cap, low)
        return e and dict(e, m_map=1, n_map=2)
    mt.sampler = sampler
    mt.ns, mt.maxpairs, mt.maxpts = 140, 160000, 6000
    mt.consts += [c.u] + ([c.c] if mp else []) + ([c.pn, c.vv] if two else []) + ([c.pl_n, c.cn] if two and np_ else [])
    for L in (S.rows_layout(), S.cols_layout(), S.depth_layout(), S.Alay(), S.Blay(), S.Clay()):
        first = [] if L.name in ('rows', 'columns', 'depth') else [q for x, n in [(S.m, c.Mb), (S.n, c.Nb), (S.k, c.Kb)] + S.who for q in (le(0, x), lt(x, n))]
        for F, g, nm in lemmas(c, L):
            mt.prove(first + F, g, nm)
    dom = [q for x, n in [(S.m, c.Mb), (S.n, c.Nb), (S.k, c.Kb)] + S.who for q in (le(0, x), lt(x, n))]
    mt.prove(dom, le(S.Alay().total, (c.pm if two else ONE) * c.mc * c.kc), 'block of A: inside its buffer')
    mt.prove(dom, le(S.Blay().total, (c.pn if two else ONE) * c.nc * c.kc), 'block of B: inside its buffer')
    mt.prove(dom, le(S.Clay().total, c.mc * c.nc), 'partial tile: inside its buffer')
    mt.prove(dom, lt(S.coreno, c.p), 'partial tile: of one of the cores')
    if two:
        t = dom + [le(0, S.mreg), lt(S.mreg, S.mregs), le(0, S.nreg), lt(S.nreg, S.nregs)]
        mt.prove(t, lt(S.cm * S.ux + S.mreg, S.R), 'a core\'s tile of A is in the block')
        mt.prove(t, lt(S.cn * S.vx + S.nreg, S.S), 'a core\'s tile of B is in the block')
        mt.prove(t, eq(S.rbase + (S.cm * S.ux + S.mreg) * c.mr, S.rowbase + S.mreg * c.mr), 'a core\'s tile of A has its rows')
        mt.prove(t, eq(S.cbase + (S.cn * S.vx + S.nreg) * c.nr, S.colbase + S.nreg * c.nr), 'a core\'s tile of B has its columns')
        cm2, cn2 = V("cm'"), V("cn'")
        ren = {S.at(S.cm).id: cm2, S.at(S.cn).id: cn2}
        mt.prove(dom + [le(0, cm2), lt(cm2, S.pmu), le(0, cn2), lt(cn2, S.pnu), lt(S.cm, cm2)], lt(S.coreno, subst(S.coreno, ren)), 'cores are distinct')
    is_w = lambda f, b: f.tag[0] == 'w' and f.tag[1] == b
    wC, wA, wB = ([f for f in code if is_w(f, b)] for b in (('C',), S.Abuf, S.Bbuf))
    uk = [f for f in code if f.tag[0] == 'uk']
    rest = [f for f in code if f.tag[0] not in ('uk', 'set0', 'r') and not (f in wC or f in wA or f in wB)]
    if rest:
        r.obls.append((fn + ': no other effects', 'undecided', str([f.tag for f in rest][:3])))
    mt.match(wC, S.unpack(), 'elements of C')
    case = lambda e: tk.prod_case(c, e, ctx.shapes, api='2d' if two else 'online')
    def done():
        blockp.credit(r, ex.used_contracts)
        tk.finish(r, ex, mt, case)
        return code, mt, S
    if mt.maps.get('elements of C') is None or not mt.res.ok():
        return done()
    mt.match([f for f in wA if 'ld' in f.tag], [strip(f, 2) for f in S.packs('A', 'mk', kinds=('ld',))], 'elements of A', bijective=False, cover=False)
    if 'elements of A' not in mt.maps:
        return done()
    u1 = annotate(mt, uk, 'elements of C', ['n', 'm'])
    u2 = u1 and annotate(mt, u1, 'elements of A', ['k'])
    if not u2:
        return done()
    mt.match(u2, S.kernels(idx), 'kernel calls')
    if 'kernel calls' not in mt.maps or mt.maps['kernel calls'][3] is None:
        return done()
    a2, b2 = annotate(mt, wA, 'kernel calls', ['n', 'm', 'k']), annotate(mt, wB, 'kernel calls', ['n', 'm', 'k'])
    if not a2 or not b2:
        return done()
    ls, sub = step_loops(mt, S, u2, a2 + b2)
    ids = {L.var.id for L in ls} | set(mt.pids)
    GA, GB = ([subst(q, sub) for q in common_guard(fs, ids)] for fs in (a2, b2))
    mt.match(a2, S.packs('A', 'nmk', GA), 'packing A')
    mt.match(b2, S.packs('B', 'nmk', GB), 'packing B')
    held(mt, S, ls, sub, GA, [S.m, S.k], 'block of A')
    held(mt, S, ls, sub, GB, [S.n, S.k], 'block of B')
    who = [S.at(x).key[1].lstrip('$') for x, _n in S.who]
    mt.order('packing A', 'kernel calls', ['n', 'm', 'k'], [] if two else who, 'A is packed before the kernels')
    mt.order('packing B', 'kernel calls', ['n', 'm', 'k'], [], 'B is packed before the kernels')
    mt.order('kernel calls', 'elements of C', ['n', 'm'], who, 'kernels before unpacking')
    zeroed(mt, S, code, who)
    if 'reads' in parts:
        for what in 'AB':
            rd = [f for f in code if f.tag == ('r', (what,))]
            spc = S.packs(what, 'mk' if what == 'A' else 'nk', kinds=('ld',))[0]
            g = fm.Fam(spc.vars, spc.guards, ('r', (what,)), [spc.polys[-3]])
            mt.match(rd, [g], 'reads of ' + what, bijective=False, cover=False)
    return done()


def strip(f, n):
    return fm.Fam(f.vars, f.guards, f.tag, f.polys[:-n], f.path, f.node)


def zeroed(mt, S, code, who):
    c = S.c
    z = annotate(mt, [f for f in code if f.tag[0] == 'set0'], 'elements of C', ['n', 'm'])
    if z is None:
        return
    z = [fm.Fam(f.vars, f.guards, f.tag, f.polys[:-3] + f.polys[-2:], f.path, f.node) for f in z]
    raw = [f for f in code if f.tag[0] == 'set0']
    sz = [fm.Fam(S.stepvars('nm') + S.whovars(), [], ('set0', S.Cbuf), [S.coreno, ZERO, S.n, S.m])]
    mt.match(z, sz, 'clearing')
    for j, f in enumerate(raw):
        ph = mt.maps.get('clearing', (0, 0, {}))[2].get(j)
        if ph is None:
            continue
        sub = {a.id: q for (a, _n, _p), q in zip(sz[0].vars, ph[1])}
        mt.prove(f.dom(), le(subst(S.mct * S.nct, sub), f.polys[-1]), 'clearing: the whole partial tile')
        mt.prove(f.dom(), le(f.polys[-1], c.mc * c.nc), 'clearing: inside the buffer')
    mt.order('elements of C', 'clearing', ['n', 'm'], who, 'unpacking before clearing')
