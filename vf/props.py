"""Which proof tasks decide which property, and how their results become a verdict."""
import os, sys, time, multiprocessing as mp, signal, resource
from . import cfront, tasks as tk, drivers as dr, plans as pl, small as sm, otf, bounds as bo, races as ra, rounding as ro

B2 = (0, 1)


def all8(sch):
    return [(sch, a, b, c) for a in B2 for b in B2 for c in B2]


def packs(what, schs=('KMN', 'MKN', 'NKM'), blis=True):
    out = []
    fn = {'A': 'pack_A', 'B': 'pack_B', 'C': 'pack_C', 'U': 'unpack_C'}[what]
    for s in schs:
        for a in B2:
            for b in B2:
                m, k, n = {'A': (a, b, 0), 'B': (0, a, b), 'C': (a, 0, b), 'U': (a, 0, b)}[what]
                out.append(('%s %s m%d k%d n%d' % (fn, s, m, k, n), tk.t_pack, (fn, what, s, m, k, n), 15 if (m and n) else 5))
                if blis and s == 'KMN' and what in BLIS:
                    out.append(('%s m%d k%d n%d' % (BLIS[what], m, k, n), tk.t_pack, (BLIS[what], what, s, m, k, n, 1), 15 if (m and n) else 5))
    return out


BLIS = {'A': 'pack_A_single_buf_k_first_blis', 'B': 'pack_B_k_first_blis'}      # the packers of cake_sgemm_test


def scheds(s):
    return [('schedule_%s m%d k%d n%d' % (s, a, b, c), tk.t_sched, (s, a, b, c), {'KMN': 30, 'MKN': 6, 'NKM': 15}[s] * (1 + a + b + c)) for _s, a, b, c in all8(s)]


def onthefly(api):
    fn = {'online': 'schedule_KMN_online', '2d': 'schedule_KMN_2d'}[api]
    return [('%s m%d k%d n%d' % (fn, a, b, c), otf.t_otf, (fn, a, b, c), 20 + 50 * a + 20 * c + 5 * b + (60 * a if api == '2d' else 0)) for a in B2 for b in B2 for c in B2]


DRV = {'KMN': 'cake_sgemm', 'MKN': 'cake_sgemm', 'NKM': 'cake_sgemm', 'online': 'cake_sgemm_online', '2d': 'cake_sgemm_2d'}


KIND = {'C11': 'dims mem', 'C12': 'dims own', 'C16': 'free leak', 'C18': 'dims val own mem free', 'C19': 'dims val mem'}


def drivers(*schs, betas=B2, pid=None):
    out = []
    for s in schs:
        sch = {'online': 'KMN', '2d': '2D'}.get(s, s)
        for a in B2:
            for b in B2:
                for c in B2:
                    out.append(('%s %s m%d k%d n%d' % (DRV[s], s, a, b, c), dr.t_driver, (DRV[s], sch, a, b, c, betas, 1, tk.prod_case, KIND.get(pid, 'dims val mem own')), 1))
    return out


S3 = ('KMN', 'MKN', 'NKM')


def plans(*schs, cover=True):
    out = []
    for s, a, b, c in sum((all8(s) for s in schs), []):
        out.append(('init_block_dims %s m%d k%d n%d' % (s, a, b, c), pl.t_plan, (s, a, b, c), 2))
        if cover:
            out.append(('block plan %s m%d k%d n%d' % (s, a, b, c), pl.t_cover, (s, a, b, c), 1))
    return out


def plan2(grid=True):
    return ([('grid_dims_2d, ' + g, pl.t_grid, (g,), 25 if g == pl.GRID[3] else 1) for g in pl.GRID] if grid else []) + [
        ('init_block_dims_2d, tile sizes ' + ('given' if g else 'left open'), pl.t_plan2, (g,), 25) for g in B2]


def safe(which, tl):
    """the accesses of the functions of other tasks are inside"""
    out = []
    for n, f, a, w in tl:
        if f is tk.t_pack:
            fn, _what, s, m, k, np_ = a[:6]
            q = (fn, m, k, np_, s)
        elif f is tk.t_sched:
            q = ('schedule_' + a[0],) + a[1:]
        else:
            q = a
        out.append((n, bo.t_safe, (which, f, a) + q, w))
    return out


def apart(tl):
    """the parallel loops of the functions of other tasks"""
    out = []
    for n, f, a, w in tl:
        if f is tk.t_pack:
            fn, _what, s, m, k, np_ = a[:6]
            q = (fn, m, k, np_, s)
        elif f is tk.t_sched:
            q = ('schedule_' + a[0],) + a[1:]
            a = a + (True,)
        else:
            q = a
        out.append((n, ra.t_races, (f, a) + q, w))
    return out


def index(*fns):
    return [('%s m%d k%d n%d' % (f, a, b, c), bo.t_index, (f, a, b, c), 5 + (10 if f in ('schedule_KMN_2d', 'schedule_KMN_online') else 0)) for f in fns for _s, a, b, c in all8('')]


ALL5 = ('schedule_KMN', 'schedule_MKN', 'schedule_NKM', 'schedule_KMN_online', 'schedule_KMN_2d')


def needs_plan2():
    return [(n, soft, (f,) + a, w) for n, f, a, w in plan2()]


def needs_plan(*schs):
    """the plan contract, where it is an assumption of this property: a failure is reported by C06/C07, here it only
    weakens the result (unless the replay of a product shows that this property fails as well)"""
    return [(n, soft, (f,) + a, w) for n, f, a, w in plans(*schs, cover=False)]


def soft(ctx, r, f, *args):
    f(ctx, r, *args)
    bad = [o for o in r.obls if o[1] != 'proved']
    if bad:
        r.refuted_extra += [x for c in (c for _t, c in r.refuted) if c for x in prods(c)]
        r.refuted = []
        r.obls = [o for o in r.obls if o[1] == 'proved']
        r.error = 'the block plan is not as assumed (%s)' % bad[0][0]


def prods(c):
    return [c.replace('plan ', 'prod ') + ' pa=0 pb=0 beta=0 reps=1 own=0 seed=1']


def exist(*which):
    return [('every size is one of the cases: ' + w, pl.t_exist, (w,), 1) for w in which]


def sizes(what, *schs):
    return [('%s %s m%d k%d n%d' % (pl.SIZES[what], s, a, b, c), pl.t_size, (what, s, a, b, c), 1) for s, a, b, c in sum((all8(s) for s in schs), [])]


EX1 = ('rows over cores', 'rows', 'depth', 'depth over cores')


def kernels(shapes):
    return [('kernel %dx%d' % q, sm.t_kernel, q, 4) for q in shapes]


def choosing(shapes):
    return [('update_mr_nr %dx%d' % q, sm.t_choose, q, 1) for q in shapes] + contexts()


def contexts():
    return [(f, sm.t_context, (f,), 1) for f in ('cake_query_cntx', 'cake_query_cntx_torch')]


def task_list(pid, tier, shapes=()):
    T = {
        'C01': lambda: scheds('KMN') + packs('A', ['KMN'], False) + packs('B', ['KMN'], False) + drivers('KMN', betas=(0,)) + needs_plan('KMN'),
        'C02': lambda: scheds('MKN') + packs('A', ['MKN']) + packs('B', ['MKN']) + packs('U', ['MKN']) + drivers('MKN', betas=(0,)) + needs_plan('MKN'),
        'C03': lambda: scheds('NKM') + packs('A', ['NKM']) + packs('B', ['NKM']) + packs('U', ['NKM']) + drivers('NKM', betas=(0,)) + needs_plan('NKM'),
        'C04': lambda: onthefly('online') + drivers('online', betas=(0,)) + needs_plan('KMN'),
        'C05': lambda: onthefly('2d') + drivers('2d', betas=(0,)) + needs_plan2(),
        'C06': lambda: plans(*S3) + exist(*EX1),
        'C07': lambda: plan2() + exist(*EX1) + [('2-D block plan m%d k%d n%d' % q, pl.t_cover2, q, 1) for _s, *q in all8('2D') for q in (tuple(q),)],
        'C08': lambda: packs('A') + sizes('A', *S3),
        'C09': lambda: packs('B') + sizes('B', *S3),
        'C10': lambda: packs('C', ['MKN', 'NKM', 'KMN']) + packs('U', ['MKN', 'NKM', 'KMN']) + sizes('C', *S3),
        'C11': lambda: safe('own', sum((scheds(s) for s in S3), []) + packs('A') + packs('B') + packs('C', ['MKN', 'NKM']) + packs('U', ['MKN', 'NKM']) + onthefly('online') + onthefly('2d')) +
        drivers(*S3, 'online', '2d', pid=pid) + sizes('A', *S3) + sizes('B', *S3) + sizes('C', *S3) + needs_plan(*S3) + needs_plan2(),
        'C12': lambda: safe('ops', packs('A') + packs('B') + packs('C', ['MKN', 'NKM']) + packs('U', ['MKN', 'NKM']) + scheds('KMN') + onthefly('online') + onthefly('2d')) +
        drivers(*S3, 'online', '2d', pid=pid) + needs_plan(*S3) + needs_plan2(),
        'C13': lambda: kernels(shapes),
        'C14': lambda: choosing(shapes) + index(*ALL5),
        'C15': lambda: apart(packs('A') + packs('B') + packs('C') + packs('U') + sum((scheds(s) for s in S3), []) + onthefly('online') + onthefly('2d')) +
        [('transpose_mat, block sizes %s 8, %s 8' % (('below', 'from')[a], ('below', 'from')[b]), ra.t_trans, (a, b), 1 + a + b) for a in B2 for b in B2] +
        [('cake_sgemm_checker', ra.t_block, ('cake_sgemm_checker',), 1)] + needs_plan(*S3) + needs_plan2(),
        'C17': lambda: [('transpose_8x8', sm.t_tile8, (), 1), ('transpose', sm.t_naive, (), 1)] + [('transpose_mat, block sizes %s 8, %s 8' % (('below', 'from')[a], ('below', 'from')[b]), sm.t_trans, (a, b), 1 + a + b) for a in B2 for b in B2],
        'C21': lambda: contexts() + [('clamp_val', sm.t_clamp, (), 1), ('lcm', sm.t_lcm, (), 1)],
        'C22': lambda: [(f, sm.t_checker, (f,), 1) for f in ('mat_equals', 'cake_sgemm_checker', 'add_checker')],
        'C16': lambda: drivers(*S3, 'online', '2d', pid=pid) + [(f, sm.t_streams, (f,), 1) for f in ('get_num_physical_cores', 'get_cache_size')],
        'C18': lambda: drivers(*S3, pid=pid) + sizes('A', *S3) + sizes('B', *S3),
        'C19': lambda: drivers(*S3, 'online', '2d', pid=pid) + packs('C', ['MKN', 'NKM']) + packs('U', ['MKN', 'NKM']),
        'C20': lambda: [('get_cache_dims, schedule %s' % ('left open' if i == 3 else i), pl.t_tiles, (i,), 20) for i in range(4)],
        'C24': lambda: [('rounding in kernel %dx%d' % q, ro.t_rounding, q, 4) for q in shapes] + [('elements are only copied', ro.t_copies, (), 1)] + kernels(shapes) +
        once(sum((T['C0%d' % i]() for i in range(1, 6)), [])),
    }
    return T[pid]() if pid in T else []


def once(tl):
    seen = {}
    for t in tl:
        seen.setdefault((t[0], t[2]), t)
    return list(seen.values())


TRUSTED = [
    'the verifier itself: pycparser-free C front end on the clang JSON AST (vf/cfront.py), symbolic executor (vf/symex.py), event-family matcher (vf/families.py), normaliser and case splitter (vf/prover.py, vf/terms.py)',
    'z3 (linear and nonlinear arithmetic) as back end for the obligations the normaliser does not close',
    'clang as parser of the staged sources; the project\'s own kernel generator, run on every check',
]
COMMON = [
    'machine integers are treated as mathematical integers: sizes whose byte counts overflow int are outside the claim',
    'matrix elements are uninterpreted reals: what is proved is which terms are added where; how often they are rounded on the way is C24',
    'A, B and C do not overlap each other and are at least M x K, K x N and M x N elements',
    'calloc, malloc and posix_memalign succeed and return fresh, suitably sized memory',
    'OpenMP: every iteration of a parallel loop runs exactly once, with a barrier at its end',
]
ASSUME = {'C24': ['each float operation and conversion has a relative error of at most 2^-24: round to nearest, no overflow, no underflow; the compiler contracts a*b+c to one operation or leaves it, and does nothing else to float arithmetic (no -ffast-math)',
                  'the step from counts of rounded operations to the bound is the textbook argument, not checked by machine',
                  'every multiply call of the plan has a depth of at least 1 (C06, C07) and goes to the kernel the context names (C14)']}
# properties whose every task is discharged on the committed tree
PROVED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C24']
LEVELS = {p: 'proof' for p in PROVED}
_SZ = 'all sizes, core counts, plans, register tiles; machine integers as mathematical integers, matrix elements as uninterpreted reals'
NOTES = {
    'C01': 'schedule_KMN, pack_A, pack_B, the block plan and cake_sgemm against their contracts, for ' + _SZ + '. Depth sums are re-indexed by one meta-lemma (sum over a bijective block/offset split). Kernels by their C13 contract.',
    'C02': 'schedule_MKN, pack_A, pack_B, unpack_C, the block plan and cake_sgemm against their contracts, for ' + _SZ + '.',
    'C03': 'schedule_NKM, pack_A, pack_B, unpack_C, the block plan and cake_sgemm against their contracts, for ' + _SZ + '.',
    'C04': 'schedule_KMN_online with its block packers by contract (freshness of every reused block included) and cake_sgemm_online, for ' + _SZ + '.',
    'C05': 'schedule_KMN_2d with its block packers by contract, cake_sgemm_2d, init_block_dims_2d and grid_dims_2d, for ' + _SZ + '. Tile sizes given by a caller are hints to the 2-D planner.',
    'C06': 'init_block_dims (1-D schedules) against the plan contract, the exact-cover lemmas over that contract, and exhaustiveness of the edge cases, for all M, N, K, p.',
    'C07': 'grid_dims_2d for all p, M, N (the ideal ratio is an arbitrary real rounded by the code\'s own function), init_block_dims_2d and the exact-cover lemmas.',
    'C08': 'pack_A for all schedules and edge cases, element by element, and the reported sizes.',
    'C09': 'pack_B for all schedules and edge cases, element by element, and the reported sizes.',
    'C10': 'pack_C and unpack_C for all schedules and edge cases, and the reported sizes.',
    'C11': 'index obligations of all packers and schedules, buffer sizes at the entry points, size functions; heap allocation sizes are compared as mathematical integers.',
    'C12': 'read and write sets of all packers and schedules against M x K, K x N and M x N; const operands reach no store.',
    'C13': 'every kernel the project\'s own generator emits, as generated on this run: loop invariant over the depth, all depths including zero. AVX intrinsics by their lane-wise meaning.',
    'C14': 'update_mr_nr for every generated shape, both context constructors, and every kernel call of every schedule.',
    'C15': 'every parallel loop of the packers, the five schedules, transpose_mat and the checker: no element is accessed by two iterations, one writing, for ' + _SZ + '. Iterations of an OpenMP loop are taken to be joined at its end.',
    'C16': 'allocation/release protocol of the four multiply entry points in every combination, and the streams of the system queries; paths that end in exit() are excluded as the property says.',
    'C17': 'transpose_8x8 lane by lane, transpose_mat for block sizes below and from 8, for all sizes.',
    'C18': 'cake_sgemm in every combination of packed operands against the same contracts, and the size functions.',
    'C19': 'alpha 1 with beta 0 and (M-first, N-first) beta 1, for all sizes; the ignored other factors are known findings reproduced on every run.',
    'C20': 'get_cache_dims for each schedule and with the schedule left open, over all cache sizes, core counts and shapes; square roots and floor as axiomatised reals.',
    'C21': 'both context constructors, clamp_val and lcm. Numbers printed by the system tools are assumed positive.',
    'C24': 'a second execution of every generated kernel counts rounded operations per product and on the previous value of the tile, for every depth; outside the kernels elements are only copied; every product once by C13 and the contracts of C01-C05. From the counts to the bound: textbook argument.',
    'C22': 'mat_equals, cake_sgemm_checker and add_checker: every element is compared, NaN and infinities decided by class; rounding of the difference itself is not modelled.',
}


NOMATCH = ('no correspondence found', 'no correspondence', 'several specified families')


class Proof:
    def __init__(s, pid, tier='quick'):
        s.pid, s.tier = pid, tier
        s.results, s.cases, s.failed, s.assumptions = [], [], [], []
        s.level = 'exploration'
        s.unfinished, s.unsupported = [], []
        s.secs = 0.0

    def add(s, r):
        s.results.append(r)

    def close(s):
        fl = 'tsan' if s.pid == 'C15' else 'asan'
        for r in s.results:
            if r.error:
                (s.unfinished if r.error.startswith('time') else s.unsupported).append('%s: %s' % (r.name, r.error))
            for t, case in r.refuted:
                s.failed.append('%s (refuted: %s)' % (r.name, t[:400]))
                if case:
                    s.cases.append((fl, case))
            s.cases += [(fl, x) for x in r.refuted_extra]
            for o in r.obls:
                if o[1] == 'undecided' and o[2] in NOMATCH and not r.refuted:
                    # the enumerations agree on every sample, the correspondence was not found in closed form
                    s.unsupported.append('%s: %s: outside the verifier\'s reach: %s' % (r.name, o[0], o[2]))
                elif o[1] == 'undecided':
                    s.failed.append('%s: %s %s' % (r.name, o[0], o[2][:200]))
                elif o[1] == 'refuted' and not r.refuted:
                    s.failed.append('%s: %s %s' % (r.name, o[0], o[2][:200]))
        if s.results and not s.unfinished and not s.unsupported and not s.failed:
            s.level = LEVELS.get(s.pid, 'proof')

    def counts(s):
        tot = sum(len(r.obls) for r in s.results)
        ok = sum(1 for r in s.results for o in r.obls if o[1] == 'proved')
        return tot, ok

    def coverage(s):
        tot, ok = s.counts()
        st = {}
        for r in s.results:
            for k, v in r.stat.items():
                st[k] = st.get(k, 0) + v
        fs = sorted(set().union(*[r.funcs for r in s.results])) if s.results else []
        inl = sorted(set().union(*[r.inlined for r in s.results])) if s.results else []
        con = sorted(set().union(*[r.contracts for r in s.results])) if s.results else []
        ext = sorted(set().union(*[r.externals for r in s.results])) if s.results else []
        return dict(obligations=tot, discharged=ok, checker_cmd='VERIF_TIER=%s python3-vt -m vf.check %s (in /verif)' % (s.tier, s.pid), trusted_base=TRUSTED, proof_tasks=len(s.results), functions_under_contract=fs, functions_inlined=inl,
                    callee_contracts_used=con, external_functions=ext, back_ends={k: v for k, v in st.items() if k not in ('solver_s',)},
                    solver_seconds=round(st.get('solver_s', 0.0), 1), prover_seconds=round(sum(r.secs for r in s.results), 1),
                    tasks=[dict(task=r.name, obligations=len(r.obls), discharged=sum(o[1] == 'proved' for o in r.obls), seconds=round(r.secs, 1),
                                error=r.error) for r in s.results],
                    unfinished=s.unfinished, unsupported=s.unsupported)

    def summary(s):
        tot, ok = s.counts()
        l = ['deductive: %d tasks, %d of %d obligations discharged, %.0f s' % (len(s.results), ok, tot, s.secs)]
        for x in s.unsupported[:6]:
            l.append('bounded only: ' + x[:400])
        for x in s.unfinished[:6]:
            l.append('not finished: ' + x[:300])
        return '\n'.join(l)

    def detail(s):
        out = []
        for r in s.results:
            for o in r.obls:
                if o[1] != 'proved':
                    out.append('%s | %s | %s | %s' % (r.name, o[0], o[1], o[2]))
        return '\n'.join(out[:200])


GRACE = 150.0
LIMIT = {'quick': 480.0, 'thorough': 700.0}


def _child(conn, ctx, name, f, args):
    try:
        sys.setrecursionlimit(20000)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = tk.task(ctx, name, f, args)
        conn.send(r)
    except BaseException as x:
        try:
            r = tk.TaskResult(name); r.error = 'internal: %r' % (x,)
            conn.send(r)
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_tasks(ctx, tl, limit, jobs=8, stop=None):
    """tasks in processes of their own, longest first; those that do not finish in time are reported as such"""
    t0 = time.time()
    todo = sorted(tl, key=lambda t: -t[3])
    m = mp.get_context('fork')
    live, out = {}, []
    while todo or live:
        while todo and len(live) < jobs:
            name, f, args, _w = todo.pop(0)
            a, b = m.Pipe(False)
            p = m.Process(target=_child, args=(b, ctx, name, f, args))
            p.start(); b.close()
            live[a] = (p, name)
        rd = mp.connection.wait(list(live), timeout=0.5)
        for a in rd:
            p, name = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = tk.TaskResult(name); r.error = 'process ended'
            out.append(r)
            if r.refuted_extra or any(c for _t, c in r.refuted):    # a failed obligation with an input to replay: the others get a while more
                limit = min(limit, time.time() - t0 + GRACE)
            p.join(5)
            a.close()
        if time.time() - t0 > limit:
            for a, (p, name) in live.items():
                p.kill(); p.join()
                r = tk.TaskResult(name); r.error = 'time limit'
                out.append(r)
            for name, _f, _a, _w in todo:
                r = tk.TaskResult(name); r.error = 'time limit'
                out.append(r)
            break
    return out


def prove(pid, stg, tier, seed):
    t0 = time.time()
    tl = task_list(pid, tier, stg.shapes)
    if not tl:
        return None
    prog = cfront.Program(stg)
    ctx = tk.Ctx(prog, stg.shapes)
    pf = Proof(pid, tier)
    pf.assumptions = COMMON + ASSUME.get(pid, [])
    if prog.errors:
        pf.unsupported += ['%s: %s' % kv for kv in prog.errors.items()]
    for r in run_tasks(ctx, tl, LIMIT.get(tier, 480.0)):
        pf.add(r)
    pf.close()
    pf.secs = time.time() - t0
    return pf
