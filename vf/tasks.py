"""Proof tasks: each runs one function of /repo (with everything it calls, inlined or by contract) for all values of
its parameters in one case of the block plan, and proves its contract.  A task returns a TaskResult."""
import random, time, traceback, os
from .terms import *
from . import terms as T
from .prover import Prover, STAT
from .symex import Exec, Ptr, Unsupported, St, NULL
from . import plan, families as fm, spec as sp

SCH = {'KMN': 0, 'MKN': 1, 'NKM': 2}


class TaskResult:
    def __init__(s, name):
        s.name = name
        s.obls = []          # (name, 'proved'|'undecided'|'refuted', note)
        s.refuted = []       # (text, case string or None)
        s.funcs, s.inlined, s.contracts, s.externals = set(), set(), set(), set()
        s.error = None       # reason why the task gave no answer
        s.stat, s.secs = {}, 0.0
        s.assume = set()
        s.refuted_extra = []   # cases worth replaying when an obligation is not discharged

    def ok(s):
        return s.error is None and all(o[1] == 'proved' for o in s.obls)


class Ctx:
    """what a task needs: program, kernel shapes"""
    def __init__(s, prog, shapes):
        s.prog, s.shapes = prog, shapes


# ------------------------------------------------------------------ parameters -> a concrete case
def concrete(c, env, shapes):
    """plan parameters -> concrete sizes with a generated kernel shape"""
    e = dict(env)
    mr, nr = shapes[0]
    for n, full, new in (('e', 'mr', mr), ('ec', 'nr', nr)):
        if n in e:
            e[n] = max(1, new - (e[full] - e[n]))
    e['mr'], e['nr'] = mr, nr
    d = {V(k).single().id: v for k, v in e.items()}
    g = lambda p: int(ev(p, d)) if isinstance(p, Poly) else p
    return dict(M=g(c.M), N=g(c.N), K=g(c.K), p=g(c.p), mr=mr, nr=nr, mc=g(c.mc), kc=g(c.kc), nc=g(c.nc))


def pack_case(c, what, env, shapes, blis=0):
    q = concrete(c, env, shapes)
    return 'pack what=%s api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d blis=%d' % (
        what, c.sch, q['M'], q['N'], q['K'], q['p'], q['mr'], q['nr'], q['mc'], q['kc'], q['nc'], blis)


def plan_case(c, env, shapes):
    q = concrete(c, env, shapes)
    return 'plan api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d L1=32768 L2=1048576 L3=8388608 ncores=4' % (
        {'2D': '2d'}.get(c.sch, c.sch), q['M'], q['N'], q['K'], q['p'], q['mr'], q['nr'], q['mc'], q['kc'], q['nc'])


def prod_case(c, env, shapes, api=None, pa=0, pb=0, beta=0, reps=1, own=0):
    q = concrete(c, env, shapes)
    return 'prod api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d pa=%d pb=%d beta=%d L1=32768 L2=1048576 L3=8388608 ncores=4 reps=%d own=%d seed=1' % (
        api or c.sch, q['M'], q['N'], q['K'], q['p'], q['mr'], q['nr'], q['mc'], q['kc'], q['nc'], pa, pb, beta, reps, own)


def finish(r, ex, mt, tocase):
    """obligations of the execution and of the matcher into the result"""
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else 'refuted' if o.status == 'refuted' else 'undecided',
                       '' if o.status == 'proved' else show(o.goal)[:300]))
    r.inlined |= ex.used_inline
    r.contracts |= ex.used_contracts
    r.externals |= ex.externals
    if mt is not None:
        r.obls += mt.res.obls
        for t, env in mt.res.refuted:
            try:
                r.refuted.append((t + ' at ' + str(env), tocase(env) if tocase else None))
            except Exception as x:
                r.refuted.append((t + ' at ' + str(env), None))


def matcher(pr, c, name, extra=()):
    base = c.sample
    s = base if not extra else (lambda r: (lambda e: e and dict(e, **{n: i + 1 for i, n in enumerate(extra)}))(base(r)))
    return fm.Matcher(pr, c.F, s, [n for n, _l, _h in c.base] + list(extra), name, consts=[c.Mb, c.Kb, c.Nb, c.p])


def only(r, fams, kinds, what):
    """no events of other kinds"""
    bad = [f for f in fams if f.tag[0] not in kinds]
    if bad:
        r.obls.append(('%s: no other effects' % what, 'undecided', 'unexpected events %s' % ([f.tag for f in bad][:4],)))
    return not bad


# ------------------------------------------------------------------ packing
def run_fn(ctx, c, fn, args, contracts=None, reads=False):
    pr = Prover()
    pr.sampler = lambda rng: (lambda e: e and dict(e, m_map=1, n_map=2))(c.sample(rng))
    ex = Exec(ctx.prog, pr, contracts)
    ex.track_reads = reads
    tr, alts = ex.run(fn, args, c.heap(), c.F)
    return pr, ex, tr, alts


X = [Ptr(('x',)), Ptr(('cntx',))]


def t_pack(ctx, r, fn, what, sch, mp, kp, np_, blis=0):
    c = plan.Case(sch, mp, kp, np_)
    dims = {'A': [c.M, c.K, c.p], 'B': [c.K, c.N, c.p], 'C': [c.M, c.N, c.p], 'U': [c.M, c.N, c.p]}[what]
    b = 'C' if what == 'U' else what
    args = [Ptr((b,)), Ptr((b + '_p',))] + dims + X + [P(SCH[sch])]
    if fn.endswith('_blis'):
        args = [Ptr((b,)), Ptr((b + '_p',))] + (dims if what == 'A' else dims[:2]) + X
    r.funcs.add(fn)
    pr, ex, tr, alts = run_fn(ctx, c, fn, args, CONTRACTS, reads=True)
    S = sp.Spec(c)
    code = fm.flatten(tr)
    mt = matcher(pr, c, fn + ' ' + c.name)
    lay = getattr(S, b)()
    for F, g, nm in sp.lemmas(c, lay):
        mt.prove(F, g, nm)
    spec = {'A': S.packA, 'B': S.packB, 'C': S.packC, 'U': S.unpackC}[what]()
    w = [f for f in code if f.tag[0] == 'w']
    mt.match(w, spec, 'elements of ' + ('the packed ' + b if what != 'U' else 'C'))
    reads_in_bounds(mt, S, code, what)
    only(r, code, ('w', 'r'), fn)
    finish(r, ex, mt, lambda e: pack_case(c, b, e, ctx.shapes, blis))
    return code, mt, S


def reads_in_bounds(mt, S, code, what):
    """every element of the source that is read lies inside it"""
    c = S.c
    src = {'A': ('A',), 'B': ('B',), 'C': ('C',), 'U': ('C_p',)}[what]
    rd = [f for f in code if f.tag == ('r', src)]
    other = [f for f in code if f.tag[0] == 'r' and f.tag != ('r', src)]
    if other:
        mt.res.add('%s: reads only its source' % mt.name, False, str([f.tag for f in other][:3]))
    lay = {'A': S.A, 'B': S.B, 'C': S.C, 'U': S.C}[what]()
    if what == 'A':
        g, off = [lt(S.row(), c.M)], S.row() * c.K + S.dep()
    elif what == 'B':
        g, off = [lt(S.col(), c.N)], S.dep() * c.N + S.col()
    elif what == 'C':
        g, off = [lt(S.row(), c.M), lt(S.col(), c.N)], S.row() * c.N + S.col()
    else:
        g, off = [], lay.pos()
    spec = [fm.Fam(lay.vars(), g, ('r', src), [off])]
    mt.match(rd, spec, 'reads', bijective=False, cover=False)
    dom = spec[0].dom()
    R = [S.rows_layout(), S.cols_layout(), S.depth_layout()]
    for L in {'A': [R[0], R[2]], 'B': [R[2], R[1]], 'C': R[:2], 'U': []}[what]:
        for F, gg, nm in sp.lemmas(c, L):
            mt.prove(F, gg, nm)


# ------------------------------------------------------------------ contracts of external functions
CONTRACTS = {}


# ------------------------------------------------------------------ schedules
def t_sched(ctx, r, sch, mp, kp, np_, reads=False):
    c = plan.Case(sch, mp, kp, np_)
    fn = 'schedule_' + sch
    bufs = ('A_p', 'B_p', 'C', 'C_p') if sch == 'KMN' else ('A_p', 'B_p', 'C_p')
    args = [Ptr((q,)) for q in bufs] + [c.M, c.N, c.K, c.p, X[1], X[0]]
    r.funcs.add(fn)
    pr, ex, tr, alts = run_fn(ctx, c, fn, args, CONTRACTS, reads)
    S = sp.Spec(c)
    code = fm.flatten(fm.clears(tr, lambda b: b[0] == 'elem'))
    mt = matcher(pr, c, fn + ' ' + c.name, ('m_map', 'n_map'))
    idx = [V('m_map'), V('n_map')]
    for L in (S.A(), S.B(), S.depth_layout()) + ((S.C(),) if sch != 'KMN' else (S.rows_layout(), S.cols_layout())):
        for F, g, nm in sp.lemmas(c, L):
            mt.prove(F, g, nm)
    uk = [f for f in code if f.tag[0] == 'uk']
    if sch == 'KMN':
        tile = S.nreg * S.mct * c.nr + S.mreg * c.mr * c.nr
        spc = S.kernels(('elem', 'C_p', '*'), [S.core, tile], idx)
        un = S.unpackC(('elem', 'C_p', '*'), [S.core, tile + S.i * c.nr + S.j])
    else:
        spc = S.kernels(idx=idx)
    mt.match(uk, spc, 'kernel calls')
    if sch == 'KMN':
        w = [f for f in code if f.tag[0] == 'w']
        mt.match(w, un, 'elements of C')
        zeroed(r, mt, S, code)
        only(r, code, ('w', 'uk', 'set0', 'r'), fn)
    else:
        only(r, code, ('uk',), fn)
    finish(r, ex, mt, lambda e: prod_case(c, e, ctx.shapes))
    return code, mt, S


def step_of(mt, f, ref, names):
    """the coordinates `names` of the step an event belongs to, taken from the already matched events `ref` it shares
    its loops with"""
    code, spec, phi = mt.maps.get(ref, ((), (), {}))[:3]
    for j in phi:
        ls, _o = fm.common_loops(code[j].path, f.path)
        ids = {L.var.id for L in ls} | set(mt.pids)
        k, ph = phi[j]
        d = {a.key[1].lstrip('$'): q for (a, _n, _p), q in zip(spec[k].vars, ph)}
        if all(n in d and fm.allvars(d[n]) <= ids for n in names):
            return [d[n] for n in names]
    return None


def zeroed(r, mt, S, code):
    """each core's partial tile is cleared once per step, between the unpacking of one step and the kernels of the next"""
    c = S.c
    at = lambda x: x.single()
    z = [f for f in code if f.tag[0] == 'set0']
    z2 = []
    for f in z:
        st = step_of(mt, f, 'elements of C', ['n', 'm'])
        if st is None:
            mt.res.add('%s: clearing belongs to a step' % mt.name, False, ''); return
        z2.append(fm.Fam(f.vars, f.guards, f.tag, f.polys[:-1] + st, f.path, f.node))
    sz = [fm.Fam([(at(S.n), c.Nb, False), (at(S.m), c.Mb, False), (at(S.core), S.ncore, False)], [], ('set0', ('elem', 'C_p', '*')), [S.core, ZERO, S.n, S.m])]
    mt.match(z2, sz, 'clearing')
    for j, f in enumerate(z):
        ph = mt.maps.get('clearing', (0, 0, {}))[2].get(j)
        if ph is None:
            continue
        sub = {a.id: q for (a, _n, _p), q in zip(sz[0].vars, ph[1])}
        mt.prove(f.dom(), le(subst(S.mct * S.nct, sub), f.polys[-1]), 'clearing: the whole partial tile')
        mt.prove(f.dom(), le(f.polys[-1], c.mc * c.nc), 'clearing: inside the buffer')
    mt.order('kernel calls', 'elements of C', ['n', 'm'], ['core'], 'kernels before unpacking')
    mt.order('elements of C', 'clearing', ['n', 'm'], ['core'], 'unpacking before clearing')


# ------------------------------------------------------------------ running tasks
def task(ctx, name, f, args):
    r = TaskResult(name)
    t = time.time()
    for k in STAT:
        STAT[k] = 0 if k != 'solver_s' else 0.0
    try:
        f(ctx, r, *args)
    except Unsupported as x:
        r.error = 'outside the verifier\'s reach: %s' % x
    except EvalErr as x:
        r.error = 'outside the verifier\'s reach: %s' % x
    except RecursionError:
        r.error = 'recursion limit'
    except MemoryError:
        r.error = 'memory'
    except Exception as x:
        r.error = 'internal: ' + traceback.format_exc()[-700:]
    r.stat = dict(STAT)
    r.secs = time.time() - t
    return r
