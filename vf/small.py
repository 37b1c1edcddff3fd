"""Contracts of the functions that stand on their own: micro-kernels, context constructors, kernel choice, arithmetic
helpers, system queries, transposition, result checkers."""
import random, itertools
from .terms import *
from . import terms as T
from .symex import Exec, Ptr, PIte, Unsupported, NoReturn, NULL, topoly, Fn, Split
from .prover import Prover
from . import tasks as tk, families as fm


def engine(ctx, r, fn, contracts=None):
    pr = Prover()
    r.funcs.add(fn)
    return pr, Exec(ctx.prog, pr, contracts)


def close(r, ex):
    for o in ex.obls:
        r.obls.append(('%s [%s]' % (o.name, o.where), 'proved' if o.status == 'proved' else o.status if o.status == 'refuted' else 'undecided', '' if o.status == 'proved' else show(o.goal)[:200]))
    r.inlined |= ex.used_inline; r.contracts |= ex.used_contracts; r.externals |= ex.externals


def live(alts, what):
    l = [a for a in alts if a.status != 'dead']
    if len(l) != 1:
        raise Unsupported('several ways through ' + what)
    return l[0]


# ------------------------------------------------------------------ micro-kernels
def addends(v, dom=()):
    """v as a list of (coefficient, factors, [(bound variable, count)])"""
    out = []
    for m, c in v.m.items():
        sums = [i for i in m if T.get(i).k == 'fn' and T.get(i).key[1] == 'SUM']
        if not sums:
            out.append((c, tuple(m), list(dom)))
        elif len(sums) == 1 and len(m) == 1 and c == 1:
            _f, _n, b, n, body = T.get(sums[0]).key
            out += addends(body, list(dom) + [(b, n)])
        else:
            raise Unsupported('unexpected form of a sum')
    return out


def expand(ad, limit=512):
    """sums over a constant number of terms written out"""
    out = []
    for c, m, dom in ad:
        todo = [(c, m, [])]
        for b, n in dom:
            k = n.const()
            if k is None:
                todo = [(c, m, d + [(b, n)]) for c, m, d in todo]
                continue
            nxt = []
            for c, m, d in todo:
                for i in range(int(k)):
                    q = subst(Poly({m: c}), {b.single().id: P(i)})
                    if len(q.m) != 1:
                        raise Unsupported('unexpected form of a sum')
                    (mm, cc), = q.m.items()
                    nxt.append((cc, mm, [(bb, subst(nn, {b.single().id: P(i)})) for bb, nn in d]))
            todo = nxt
        out += todo
        if len(out) > limit:
            raise Unsupported('too many terms')
    return out


def covers(pr, F, pieces, k):
    """pieces (start, stride, count): do they visit 0..k-1 exactly once?"""
    cnst = [(a, s, n) for a, s, n in pieces]
    blocks = []
    rest = list(cnst)
    while rest:
        a, s, n = rest.pop(0)
        if n.const() == 0:
            continue
        if s == 1 or n.const() == 1:
            blocks.append((a, n)); continue
        # s residues side by side make a stretch
        grp = [(a, s, n)]
        for j in range(1, s):
            for q in rest:
                if q[1] == s and q[2] == n:
                    d = (q[0] - a).const()
                    if d is not None and abs(d) < s and all((q[0] - g[0]).const() for g in grp):
                        grp.append(q); rest.remove(q)
                        break
            else:
                return False, 'the terms %s + %d*t are not complemented' % (show(a), s)
        lo = min(grp, key=lambda g: (g[0] - a).const())[0]
        if sorted((g[0] - lo).const() for g in grp) != list(range(s)):
            return False, 'residues'
        blocks.append((lo, n * s))
    at = ZERO
    while blocks:
        for i, (a, n) in enumerate(blocks):
            if a == at or pr.prove(F, eq(a, at)):
                at = at + n
                del blocks[i]
                break
        else:
            em = [b for b in blocks if pr.prove(F, le(b[1], 0))]
            if len(em) == len(blocks):
                break
            return False, 'stretch starting at %s' % show(blocks[0][0])
    return (at == k or pr.prove(F, eq(at, k))), 'sum ends at %s' % show(at)


def unrolled(ctx, pr, fn, mr, nr):
    """the depth is treated by its residue modulo this"""
    k = V('k')
    tr, alts = Exec(ctx.prog, pr).run(fn, [Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), P(mr), P(nr), k], {}, [ge(k, 0)])
    U = 1
    def consts(x):
        nonlocal U
        for i in x:
            a = T.get(i)
            if a.k in ('mod', 'div') and a.key[2].const():
                U = U * int(a.key[2].const()) // __import__('math').gcd(U, int(a.key[2].const()))
    from .symex import trvs
    consts(trvs(tr))
    if U > 64:
        raise Unsupported('unrolled %d times' % U)
    return U


def t_kernel(ctx, r, mr, nr):
    """adds the product of the slivers to the tile, for every depth"""
    fn = 'cake_sgemm_haswell_%dx%d' % (mr, nr)
    k = V('k')
    r.funcs.add(fn)
    pr = Prover()
    U = unrolled(ctx, pr, fn, mr, nr)
    for res in range(U):
        q = V('q') if U > 1 else k
        kk = q * U + res if U > 1 else k
        F = [ge(q, 0)]
        ex = Exec(ctx.prog, pr)
        tr, alts = ex.run(fn, [Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), P(mr), P(nr), kk], {}, F)
        one_kernel(r, pr, ex, tr, live(alts, fn), mr, nr, kk, F, '%s k=%s' % (fn, show(kk)))
        close(r, ex)
    bad = [o for o in r.obls if o[1] != 'proved']
    if bad:
        for kx in (0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 64, 100):
            r.refuted_extra.append('kernel mr=%d nr=%d k=%d via=0 seed=1' % (mr, nr, kx))


def one_kernel(r, pr, ex, tr, alt, mr, nr, k, F, nm):
    def ob(ok, n, note=''):
        r.obls.append(('%s: %s' % (nm, n), 'proved' if ok else 'undecided', note if not ok else ''))
    code = fm.flatten(tr)
    w = {}
    okw = True
    for f in code:
        if f.tag[0] == 'w':
            off = f.polys[-1] if len(f.polys) == 1 else None
            # (a store of a constant address, once)
            pass
    last = {}
    for e in tr:
        if e[0] == 'w':
            o = e[2].const()
            if e[1] != ('C',) or o is None or not 0 <= o < mr * nr:
                ob(False, 'writes only its tile', '%s' % (e[1:3],)); okw = False; continue
            if o in last:
                ob(False, 'each element of the tile is written once', str(o)); okw = False
            last[o] = e[3]
        elif e[0] == 'loop':
            if any(x.tag[0] != 'r' for x in fm.flatten([e])):
                raise Unsupported('stores inside the loop of a kernel')
        elif e[0] != 'r':
            raise Unsupported('effect %s in a kernel' % e[0])
    ob(okw, 'writes only its tile, each element once')
    ob(len(last) == mr * nr, 'writes the whole tile')
    for f in code:
        if f.tag[0] != 'r':
            continue
        b, o = f.tag[1:], f.polys[-1]
        lim = {'A': k * mr, 'B': k * nr, 'C': P(mr * nr)}.get(f.tag[1][0] if f.tag[1:] else None)
        if lim is None:
            ob(False, 'reads only the slivers and the tile', str(f.tag)); continue
        if not pr.prove(F + f.dom(), conj(le(0, o), lt(o, lim))):
            ob(False, 'reads inside the sliver %s' % f.tag[1][0], show(o))
    ob(True, 'reads inside the slivers')
    for o, v in sorted(last.items()):
        i, j = o // nr, o % nr
        n1 = 'element (%d,%d)' % (i, j)
        v = P(v)
        try:
            ad = expand(addends(v))
        except Unsupported as x:
            ob(False, n1, str(x)); continue
        own, pieces, note = 0, [], ''
        for c, m, dom in ad:
            at = [T.get(x) for x in m]
            if c == 1 and len(at) == 1 and not dom and at[0].k == 'ld' and at[0].key[1] == ('C',) and at[0].key[2] == P(o):
                own += 1; continue
            if c != 1 or len(at) != 2 or any(a.k != 'ld' for a in at) or {a.key[1] for a in at} != {('A',), ('B',)} or any(a.key[3] != 0 for a in at):
                note = 'term %s' % show(Poly({m: c})); break
            a, b = sorted(at, key=lambda a: a.key[1])
            ta, tb = exact_div(a.key[2] - i, mr), exact_div(b.key[2] - j, nr)
            if ta is None or tb is None or not (ta == tb or pr.prove(F, eq(ta, tb))):
                note = 'term %s' % show(Poly({m: c})); break
            if not dom:
                pieces.append((ta, 1, ONE)); continue
            if len(dom) > 1:
                note = 'nested sum'; break
            (bv, n), = dom
            bid = bv.single().id
            st = (subst(ta, {bid: bv + 1}) - ta).const()
            if st is None or st < 1:
                note = 'stride'; break
            pieces.append((subst(ta, {bid: ZERO}), int(st), n))
        if note:
            ob(False, n1, note); continue
        if own != 1:
            ob(False, n1 + ': previous value kept', 'tile value used %d times' % own); continue
        ok, note = covers(pr, F, pieces, k)
        ob(ok, n1 + ': every product once', note)


# ------------------------------------------------------------------ which kernel
def table(ctx):
    """(i, j) -> kernel named at that position of the dispatch table"""
    for g in ctx.prog.globals.values():
        if g[0] == 'kernel_map' and g[2] is not None and g[2].k == 'init':
            ex = Exec(ctx.prog, Prover())
            out = {}
            for i, row in enumerate(g[2].a):
                if row.k != 'init':
                    raise Unsupported('kernel table')
                for j, e in enumerate(row.a):
                    v = ex.ev(e, __import__('vf.symex', fromlist=['St']).St({}, {}, [], {}), [])
                    out[i, j] = v.n if isinstance(v, Fn) else str(v)
            return out
    raise Unsupported('no kernel table')


def shape_at(tb, i, j):
    import re
    i, j = i.const(), j.const()
    if i is None or j is None:
        return None
    m = re.match(r'cake_sgemm_haswell_(\d+)x(\d+)$', tb.get((int(i), int(j)), ''))
    return (int(m.group(1)), int(m.group(2))) if m else None


def kfields(r, ctx, heap, b, nm, want=None):
    """shape and table position in a context name the same generated kernel"""
    tb = table(ctx)
    g = lambda f: heap.get((b, f))
    v = {f: g(f) for f in ('mr', 'nr', 'm_map', 'n_map')}
    ok = all(isinstance(x, Poly) for x in v.values())
    sh = None
    if ok:
        sh = shape_at(tb, v['m_map'], v['n_map'])
        ok = sh is not None and v['mr'] == P(sh[0]) and v['nr'] == P(sh[1]) and (want is None or sh == want)
    r.obls.append((nm, 'proved' if ok else 'refuted', '' if ok else '%s -> %s' % ({f: show(x) if isinstance(x, Poly) else x for f, x in v.items()}, sh)))
    return ok


def t_choose(ctx, r, mr, nr):
    """update_mr_nr: whatever the context held before, it names the kernel of the given shape afterwards"""
    pr, ex = engine(ctx, r, 'update_mr_nr')
    b = ('cntx',)
    fields = [f for f, _t in ctx.prog.structs['cake_cntx_t']]
    heap = {(b, f): V('old_' + f) for f in fields}
    tr, alts = ex.run('update_mr_nr', [Ptr(b), P(mr), P(nr)], heap, [])
    l = [a for a in alts if a.status != 'dead']
    nm = 'update_mr_nr(%d,%d)' % (mr, nr)
    good = True
    for n, a in enumerate(l):
        if a.c is False:
            continue
        if len(l) == 1:
            r.obls.append((nm + ' returns', 'proved' if a.c is True else 'undecided', ''))
        good &= kfields(r, ctx, a.st.heap, b, nm + ': context names this kernel%s' % (' (way %d)' % n if len(l) > 1 else ''), (mr, nr))
        for f in fields:
            if f not in ('mr', 'nr', 'm_map', 'n_map'):
                r.obls.append((nm + ': %s left alone' % f, 'proved' if a.st.heap.get((b, f)) == heap[(b, f)] else 'undecided', ''))
    only(r, nm, tr, ('fs', 'if'))
    close(r, ex)
    if not good:
        r.refuted_extra += ['cntx f=update mr=%d nr=%d mr0=%d nr0=%d' % (mr, nr, a, b) for a, b in [(0, 0)] + list(ctx.shapes)]


def only(r, nm, tr, kinds):
    bad = []
    def go(t):
        for e in t:
            if e[0] == 'if':
                go(e[2])
            elif e[0] == 'loop':
                go(e[1].body)
            elif e[0] not in kinds:
                bad.append(e[0])
    go(tr)
    r.obls.append((nm + ': no other effects', 'undecided' if bad else 'proved', str(bad[:4]) if bad else ''))


def fields_read(ctx):
    """fields of the context that the library reads, found in its sources"""
    out = set()
    names = {f for f, _t in ctx.prog.structs['cake_cntx_t']}
    def go(x, lhs=False):
        from .cfront import E
        if isinstance(x, E):
            if x.k == 'mem' and x.a[1] in names and not lhs:
                out.add(x.a[1])
            if x.k == 'asg' and x.a[0] is None:
                go(x.a[1], True); go(x.a[2]); return
            for y in x.a:
                go(y, lhs if x.k == 'mem' else False)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    return out, names


def t_context(ctx, r, fn):
    """a new context: every field set, from the queries, and its shape and kernel agree"""
    q = {}
    def query(name):
        def f(ex, v, st, tr):
            x = fn_(name, *[topoly(a) for a in v])
            q.setdefault(name, []).append(x)
            return x
        return f
    from .terms import fn as fn_
    pr, ex = engine(ctx, r, fn, {'get_cache_size': query('get_cache_size'), 'get_num_physical_cores': query('get_num_physical_cores')})
    args = [V('L2'), V('L3')][:len(ctx.prog.funcs[fn].params)]
    heap = {}
    for shp in [None]:
        tr, alts = ex.run(fn, args, heap, [])
        a = live(alts, fn)
    if a.c is not True or not isinstance(a.ret, Ptr):
        raise Unsupported('what %s returns' % fn)
    b = a.ret.buf
    H = a.st.heap
    def ob(ok, n, note=''):
        r.obls.append(('%s: %s' % (fn, n), 'proved' if ok else 'undecided', note if not ok else ''))
    al = [e for e in tr if e[0] == 'alloc']
    ob(len(al) == 1 and al[0][1] == b, 'returns a fresh record, the only allocation')
    ob(len(al) == 1 and (al[0][2] == fn_('sizeof_cake_cntx_t') or pr.prove([], le(fn_('sizeof_cake_cntx_t'), al[0][2]))), 'large enough', show(al[0][2]) if al else '')
    only(r, fn, tr, ('alloc', 'fs', 'if'))
    kfields(r, ctx, H, b, fn + ': shape is a generated one and names its kernel')
    cs = lambda l: fn_('get_cache_size', P(l))
    want = {'L1': cs(1), 'L2': cs(2) if not args else args[0], 'L3': cs(3) if not args else args[1], 'ncores': fn_('get_num_physical_cores')}
    for f, w in want.items():
        v = H.get((b, f))
        ob(isinstance(v, Poly) and v == w, '%s as queried%s' % (f, ' or given' if args else ''), str(v))
    for f in ('alpha_n', 'peak_dram_bw', 'peak_flops'):
        v = H.get((b, f))
        ob(isinstance(v, Poly) and v.const() is not None and v.const() > 0, '%s set to a positive number' % f, str(v))
    close(r, ex)
    if any(o[1] != 'proved' for o in r.obls):
        r.refuted_extra += ['cntx f=query L2=0 L3=0', 'cntx f=torch L2=1048576 L3=8388608']


# ------------------------------------------------------------------ helpers
def t_clamp(ctx, r):
    pr, ex = engine(ctx, r, 'clamp_val')
    d, lo, hi = V('d'), V('lo'), V('hi')
    F = [ler(lo, hi)]
    tr, alts = ex.run('clamp_val', [d, lo, hi], {}, F)
    a = live(alts, 'clamp_val')
    v = P(a.ret)
    ob = lambda F, g, n: r.obls.append(('clamp_val: ' + n, 'proved' if pr.prove(F, g) else 'undecided', show(v)))
    ob(F, conj(ler(lo, v), ler(v, hi)), 'inside the range')
    ob(F + [ler(lo, d), ler(d, hi)], eq(v, d), 'a value inside is not changed')
    ob(F + [ltr(d, lo)], eq(v, lo), 'a value below becomes the minimum')
    ob(F + [ltr(hi, d)], eq(v, hi), 'a value above becomes the maximum')
    only(r, 'clamp_val', tr, ())
    close(r, ex)
    if any(o[1] != 'proved' for o in r.obls):
        r.refuted_extra += ['misc f=clamp a=%d b=%d d=%d' % q for q in ((1, 5, 9), (5, 1, 9), (11, 1, 9), (1, 1, 9), (9, 1, 9), (-3, -5, 9))]


def t_lcm(ctx, r):
    pr, ex = engine(ctx, r, 'lcm')
    a, b, m = V('n1'), V('n2'), V('m')
    F = [ge(a, 1), ge(b, 1)]
    G = [ge(m, 1), eq(mod(m, a), 0), eq(mod(m, b), 0)]
    ex.insts = [a * b, m]
    tr, alts = ex.run('lcm', [a, b], {}, F)
    l = live(alts, 'lcm')
    v = P(l.ret)
    F2 = F + [x for x in l.st.facts if x not in F]
    ob = lambda F, g, n: r.obls.append(('lcm: ' + n, 'proved' if pr.prove(F, g) else 'undecided', show(v)))
    ob(F2, conj(ge(v, a), ge(v, b)), 'at least each of them')
    ob(F2, eq(mod(v, a), 0), 'a multiple of the first')
    ob(F2, eq(mod(v, b), 0), 'a multiple of the second')
    ob(F2 + G, ge(m, a), 'a common multiple is at least the first')
    ob(F2 + G, ge(m, b), 'a common multiple is at least the second')
    ob(F2 + G + [ge(m, a), ge(m, b)], le(v, m), 'no common multiple is smaller')
    only(r, 'lcm', tr, ())
    close(r, ex)
    if any(o[1] != 'proved' for o in r.obls):
        r.refuted_extra += ['misc f=lcm a=%d b=%d d=1' % q for q in ((1, 1), (6, 16), (16, 6), (7, 7), (12, 8), (8, 32), (5, 9), (30, 42))]


# ------------------------------------------------------------------ transposition
def t_tile8(ctx, r):
    """transpose_8x8: B[j*ldb+i] = A[i*lda+j] for i, j < 8, each once"""
    pr, ex = engine(ctx, r, 'transpose_8x8')
    lda, ldb = V('lda'), V('ldb')
    tr, alts = ex.run('transpose_8x8', [Ptr(('A',)), Ptr(('B',)), lda, ldb], {}, [ge(lda, 8), ge(ldb, 8)])
    live(alts, 'transpose_8x8')
    want = {j * ldb + i: i * lda + j for i in range(8) for j in range(8)}
    reads = set(want.values())
    seen, bad = set(), []
    for e in tr:
        if e[0] == 'r':
            if e[1] != ('A',) or e[2] not in reads:
                bad.append('reads %s' % (e[1:3],))
        elif e[0] == 'w' and e[1] == ('B',):
            a = P(e[3]).single()
            if e[2] not in want or e[2] in seen or a is None or a.k != 'ld' or a.key[1] != ('A',) or a.key[2] != want[e[2]] or a.key[3] != 0:
                bad.append('B[%s] = %s' % (show(e[2]), show(P(e[3]))))
            seen.add(e[2])
        elif e[0] in ('loop', 'if'):
            raise Unsupported('transpose_8x8 is not straight-line code')
        else:
            bad.append(e[0])
    r.obls += [('transpose_8x8: mirrored element %d' % n, 'proved' if w in seen and not bad else 'undecided', '; '.join(bad)[:200]) for n, w in enumerate(want)]
    close(r, ex)
    trans_cases(r)


def trans_cases(r):
    if any(o[1] != 'proved' for o in r.obls) or r.refuted:
        r.refuted_extra += ['transpose f=mat K=%d N=%d Kt=%d Nt=%d p=%d' % q for q in ((8, 8, 8, 8, 1), (16, 24, 8, 8, 2), (9, 9, 8, 8, 2), (17, 23, 16, 8, 3), (40, 33, 20, 12, 3), (64, 64, 16, 32, 4), (1, 1, 1, 1, 1), (7, 20, 3, 9, 2), (8, 7, 100, 100, 1))]


def tile8_contract(ex, v, st, tr):
    from .symex import Loop
    A, B, lda, ldb = v
    i, j = fresh('i8'), fresh('j8')
    val = P(atom('ld', A.buf, A.off + i * lda + j, 0))
    body = [('r', A.buf, A.off + i * lda + j), ('w', B.buf, B.off + j * ldb + i, val, 'float')]
    tr.append(('loop', Loop(i.single(), P(8), [('loop', Loop(j.single(), P(8), body, False, 'j8'))], False, 'i8')))
    return None


def t_trans(ctx, r, bn, bk):
    """transpose_mat: every element of the K x N matrix lands at its mirrored place exactly once, nothing else is touched.
    bn, bk: block size given below 8 (0) or at least 8 (1)"""
    names, F = [], []
    def v(n, lo, hi):
        names.append((n, lo, hi)); F.append(le(lo, V(n)))
        return V(n)
    b = v('b', 1, lambda e: 3) if bn else ONE
    s = v('s', 0, lambda e: 7); F.append(le(s, 7))
    c = v('c', 1, lambda e: 3) if bk else ONE
    t = v('t', 0, lambda e: 7); F.append(le(t, 7))
    q = v('q', 1, lambda e: 3); rn = v('rn', 1, lambda e: 8 * e.get('b', 1)); F.append(le(rn, 8 * b))
    h = v('h', 1, lambda e: 3); rk = v('rk', 1, lambda e: 8 * e.get('c', 1)); F.append(le(rk, 8 * c))
    N, K = (q - 1) * 8 * b + rn, (h - 1) * 8 * c + rk
    Nt, Kt = (8 * b + s if bn else s), (8 * c + t if bk else t)
    def sample(rng):
        e = {}
        for n, lo, hi in names:
            e[n] = rng.randint(lo, hi(e))
        return e
    def case(e):
        d = {V(k).single().id: x for k, x in e.items()}
        return 'transpose f=mat K=%d N=%d Kt=%d Nt=%d p=3' % tuple(int(ev(x, d)) for x in (K, N, Kt, Nt))
    con = {'transpose_8x8': tile8_contract} if 'transpose_8x8' in ctx.prog.funcs else {}
    pr, ex = engine(ctx, r, 'transpose_mat', con)
    rng = random.Random(3)
    ex.envs = [{V(k).single().id: x for k, x in sample(rng).items()} for _ in range(20)]
    ex.hints = [q, h, q - 1, h - 1, b, c, ONE, ZERO]
    tr, alts = ex.run('transpose_mat', [Ptr(('A',)), Ptr(('At',)), K, N, Kt, Nt], {}, F)
    if live(alts, 'transpose_mat').c is not True:
        r.obls.append(('transpose_mat: always returns', 'undecided', ''))
    mt = fm.Matcher(pr, F, sample, [n for n, _l, _h in names], 'transpose_mat', consts=[N, K])
    code = fm.flatten(tr)
    nb, nn, i, kb, kk, j = (V('$' + x) for x in ('nb', 'nn', 'i', 'kb', 'kk', 'j'))
    at = lambda x: x.single()
    n_, k_ = nb * 8 * b + nn * 8 + i, kb * 8 * c + kk * 8 + j
    vs = [(at(nb), q, False), (at(nn), b, False), (at(i), P(8), False), (at(kb), h, False), (at(kk), c, False), (at(j), P(8), False)]
    spec = [fm.Fam(vs, [lt(n_, N), lt(k_, K)], ('w', ('At',), 'ld', 'A'), [n_ * K + k_, k_ * N + n_])]
    w = [f for f in code if f.tag[0] == 'w']
    mt.match(w, spec, 'elements')
    rs = [fm.Fam(vs, [lt(n_, N), lt(k_, K)], ('r', ('A',)), [k_ * N + n_])]
    mt.match([f for f in code if f.tag[0] == 'r'], rs, 'reads', bijective=False, cover=False)
    # coordinates <-> rows: positions unique, without gaps
    from . import spec as sp
    lays = []
    for nm, x, x1, x2, cnt, bb, L in (('rows', nb, nn, i, q, b, N), ('columns', kb, kk, j, h, c, K)):
        lay = sp.Layout(nm, [(at(x), cnt, x * 8 * bb, 8 * bb), (at(x1), bb, x1 * 8, P(8)), (at(x2), P(8), x2, ONE)], cnt * 8 * bb)
        lays.append(lay)
        for FF, g, n in sp.lemmas(None, lay):
            mt.prove(FF, g, n)
        mt.prove([], conj(le(L, cnt * 8 * bb)), '%s: the blocks reach the end' % nm)
    tk.only(r, code, ('w', 'r'), 'transpose_mat')
    tk.finish(r, ex, mt, case)
    trans_cases(r)
    return code, mt, lays, F, sample, [n for n, _l, _h in names], case, ex, N


def t_naive(ctx, r):
    pr, ex = engine(ctx, r, 'transpose')
    M, K = V('M'), V('K')
    F = [ge(M, 1), ge(K, 1)]
    tr, alts = ex.run('transpose', [Ptr(('At',)), Ptr(('A',)), M, K], {}, F)
    live(alts, 'transpose')
    code = fm.flatten(tr)
    sample = lambda rng: {'M': rng.randint(1, 6), 'K': rng.randint(1, 6)}
    mt = fm.Matcher(pr, F, sample, ['M', 'K'], 'transpose', consts=[M, K])
    m, k = V('$m'), V('$k')
    vs = [(m.single(), M, False), (k.single(), K, False)]
    mt.match([f for f in code if f.tag[0] == 'w'], [fm.Fam(vs, [], ('w', ('At',), 'ld', 'A'), [k * M + m, m * K + k])], 'elements')
    mt.match([f for f in code if f.tag[0] == 'r'], [fm.Fam(vs, [], ('r', ('A',)), [m * K + k])], 'reads', bijective=False, cover=False)
    tk.only(r, code, ('w', 'r'), 'transpose')
    tk.finish(r, ex, mt, lambda e: 'transpose f=naive K=%d N=%d Kt=1 Nt=1 p=1' % (e['K'], e['M']))


# ------------------------------------------------------------------ system queries
STREAM_OPEN = {'popen': 'pclose', 'fopen': 'fclose'}


def stream_contracts():
    con = {}
    cnt = itertools.count()
    fresh = lambda n: V('%s.%d' % (n, next(cnt)))     # (the same names on every run)
    def opener(name):
        def f(ex, v, st, tr):
            if ex.inloop():
                raise Unsupported('stream opened in a loop')
            b = ('stream', name, next(cnt))
            ok = ('b', 'opened%d' % b[2])
            tr.append(('if', ok, [('open', b)]))
            return PIte(ok, Ptr(b), NULL)
        return f
    def resolve(ex, p, st):
        while isinstance(p, PIte):
            d = ex.pr.decide(st.facts, p.c)
            if d is None:
                return p
            p = p.a if d else p.b
        return p
    def emit(ex, p, st, tr, ev):
        p = resolve(ex, p, st)
        if isinstance(p, PIte):
            a, b = [], []
            emit(ex, p.a, st, a, ev); emit(ex, p.b, st, b, ev)
            tr.append(('if', p.c, a)); tr.append(('if', neg(p.c), b))
        elif isinstance(p, Ptr) and p.buf[0] in ('stream', 'null'):
            tr.append((ev[0], p.buf) + ev[1:])
        else:
            raise Unsupported('stream operand')
    def closer(name):
        def f(ex, v, st, tr):
            emit(ex, v[0], st, tr, ('close', name))
            return fresh('status')
        return f
    for o, c in STREAM_OPEN.items():
        con[o], con[c] = opener(o), closer(c)
    def fgets(ex, v, st, tr):
        emit(ex, v[2], st, tr, ('use',))
        return PIte(('b', 'read%d' % next(cnt)), v[0], NULL)
    con['fgets'] = fgets
    con['strlen'] = lambda ex, v, st, tr: fresh('strlen')
    for n in ('atoi', 'atol', 'strtol'):
        def f(ex, v, st, tr):
            x = fresh('number')
            st.facts.append(ge(x, 1))       # assumed: the counts printed by the system tools are positive
            return x
        con[n] = f
    for n in ('feof', 'ferror'):
        def f(ex, v, st, tr):
            emit(ex, v[0], st, tr, ('use',))
            return fresh('flag')
        con[n] = f
    for n in ('fscanf',):
        def f(ex, v, st, tr):
            emit(ex, v[0], st, tr, ('use',))
            return fresh('number')
        con[n] = f
    con['strcpy'] = con['strcat'] = con['strncpy'] = con['memset'] = con['strchr'] = con['strcspn'] = lambda ex, v, st, tr: fresh('text')
    return con


def ways(ctx, r, fn, args, mk, limit=400):
    """every way through a function, one at a time: (facts, trace, outcome)"""
    pr = Prover()
    todo, out = [[]], []
    while todo:
        F = todo.pop()
        ex = mk(pr)
        ex.split = 2
        try:
            tr, alts = ex.run(fn, args, {}, F)
        except Split as x:
            for c in (x.c, neg(x.c)):
                if not pr.prove(F, neg(c)):
                    todo.append(F + [c])
            if len(todo) + len(out) > limit:
                raise Unsupported('too many ways through ' + fn)
            continue
        except NoReturn:        # the rest of this way is that of the ways that return
            out.append((F, [], None))
            close(r, ex)
            continue
        l = [a for a in alts if a.status != 'dead']
        if len(l) > 1:
            raise Unsupported('ways through %s do not separate' % fn)
        out.append((F, tr, l[0] if l else None))
        close(r, ex)
    return pr, out


def t_streams(ctx, r, fn):
    """every stream opened is closed exactly once on every way out, and not used afterwards"""
    r.funcs.add(fn)
    def mk(pr):
        ex = Exec(ctx.prog, pr, stream_contracts())
        ex.opaque_arrays = True
        return ex
    pr, out = ways(ctx, r, fn, [V('arg%d' % i) for i in range(len(ctx.prog.funcs[fn].params))], mk)
    for n, (F, tr, a) in enumerate(out):
        state, bad = {}, []
        def walk(t):
            for e in t:
                if e[0] == 'if':
                    d = pr.decide(F, e[1])
                    if d is None:
                        if any(x[0] in ('open', 'close', 'use', 'if') for x in e[2]):
                            raise Unsupported('effect under an undecided condition')
                    elif d:
                        walk(e[2])
                elif e[0] == 'loop':
                    if any(x.tag[0] in ('open', 'close', 'use') for x in fm.flatten([e])):
                        raise Unsupported('stream used in a loop')
                elif e[0] in ('open', 'close', 'use'):
                    k = state.get(e[1], 0)
                    if e[1][0] == 'null':
                        bad.append('%s of a null stream' % e[0])
                    elif e[0] == 'open':
                        state[e[1]] = k + 1
                    elif k != 1:
                        bad.append('%s of %s while it is not open' % (e[0], e[1][1:]))
                    elif e[0] == 'close':
                        state[e[1]] = 0
                        if STREAM_OPEN[e[1][1]] != e[2]:
                            bad.append('%s closed by %s' % (e[1][1], e[2]))
                elif e[0] in ('alloc', 'free'):
                    raise Unsupported('memory handling in a query')
        walk(tr)
        if a is not None:
            bad += ['%s left open' % (b[1:],) for b, k in state.items() if k]
        r.obls.append(('%s, way %d: streams opened, used and closed in order' % (fn, n), 'undecided' if bad else 'proved', ('; '.join(bad[:3]) + ' when ' + '; '.join(show(f) for f in F))[:300] if bad else ''))
        if bad:
            r.refuted_extra += ['cntx f=query L2=0 L3=0']


# ------------------------------------------------------------------ result checkers
EPS = 1e-3


def exists_fams(c, vars=(), guards=()):
    """a condition as `some element of these families satisfies its leaf condition`: [(vars, guards, leaf)]"""
    if c is False:
        return []
    if isinstance(c, tuple) and c[0] == 'or':
        return sum((exists_fams(d, vars, guards) for d in c[1]), [])
    if isinstance(c, tuple) and c[0] == 'le':
        p = 1 - c[1]                # p >= 1, p a sum of counts
        if p.m and all(q > 0 for q in p.m.values()) and all(len(k) == 1 for k in p.m) and any(T.get(k[0]).k == 'fn' and T.get(k[0]).key[1] == 'SUM' or T.get(k[0]).k == 'ite' for k in p.m):
            out = []
            for k in p.m:
                out += count_fams(T.get(k[0]), vars, guards)
            return out
    return [(list(vars), list(guards), c)]


def count_fams(a, vars, guards):
    if a.k == 'fn' and a.key[1] == 'SUM':
        b, n, body = a.key[2:]
        out = []
        for k, q in body.m.items():
            if q <= 0 or len(k) != 1:
                raise Unsupported('count of mismatches')
            out += count_fams(T.get(k[0]), list(vars) + [(b.single(), n, False)], guards)
        return out
    if a.k == 'ite' and a.key[2] == ONE and a.key[3] == ZERO:
        return exists_fams(a.key[1], vars, guards)
    raise Unsupported('count of mismatches')


def ieee(p, env):
    """value of a term over floating-point samples"""
    import math
    r = 0.0
    for k, q in p.m.items():
        t = float(q)
        for i in k:
            t = t * ieee_atom(T.get(i), env)
        r = r + t
    return r


def ieee_atom(a, env):
    import math
    if a.k == 'v':
        return env[a.id]
    if a.k == 'fn':
        f, xs = a.key[1], [ieee(x, env) for x in a.key[2:]]
        if f == 'fabs':
            return abs(xs[0])
        if f in ('isnan', 'isinf', 'isfinite'):
            return float({'isnan': math.isnan, 'isinf': math.isinf, 'isfinite': math.isfinite}[f](xs[0]))
        if f == 'f<': return float(xs[0] < xs[1])
        if f == 'f<=': return float(xs[0] <= xs[1])
        if f == 'f==': return float(xs[0] == xs[1])
    if a.k == 'ite':
        return ieee(a.key[2] if ieee_cond(a.key[1], env) else a.key[3], env)
    raise Unsupported('term in a comparison: %s' % a.k)


def ieee_cond(c, env):
    if isinstance(c, bool):
        return c
    if c[0] in ('and', 'or'):
        return (all if c[0] == 'and' else any)(ieee_cond(d, env) for d in c[1])
    v = ieee(c[1], env)
    if c[0] == 'le': return v <= 0
    if c[0] == 'eq': return v == 0
    if c[0] == 'ne': return v != 0
    raise Unsupported('condition in a comparison')


def realise(x):
    """floating-point comparisons as comparisons of real numbers"""
    if isinstance(x, bool):
        return x
    if isinstance(x, tuple):
        if x[0] in ('and', 'or'):
            return (conj if x[0] == 'and' else disj)(*[realise(d) for d in x[1]])
        if x[0] == 'le' and len(x[1].m) <= 2:
            # 1 <= [a < b]   or   [a < b] <= 0
            p = x[1]
            for k in p.m:
                if len(k) == 1 and T.get(k[0]).k == 'fn' and T.get(k[0]).key[1] in ('f<', 'f<=', 'f=='):
                    f, a, b = T.get(k[0]).key[1:]
                    a, b = realise(a), realise(b)
                    g = {'f<': lambda: ltr(a, b), 'f<=': lambda: ler(a, b), 'f==': lambda: conj(ler(a, b), ler(b, a))}[f]()
                    rest = p - P(T.get(k[0])) * p.m[k]
                    if p.m[k] == -1 and rest == ONE:
                        return g
                    if p.m[k] == 1 and not rest.m:
                        return neg(g)
                if len(k) == 1 and T.get(k[0]).k == 'fn' and T.get(k[0]).key[1] in ('isnan', 'isinf', 'isfinite'):
                    fin = T.get(k[0]).key[1] == 'isfinite'
                    return fin if p.m[k] < 0 else not fin
        raise Unsupported('condition in a comparison')
    r = ZERO
    for k, q in x.m.items():
        t = P(q)
        for i in k:
            a = T.get(i)
            if a.k == 'fn' and a.key[1] == 'fabs':
                y = realise(a.key[2])
                t = t * ite(ler(0, y), y, -y)
            elif a.k == 'fn':
                raise Unsupported('term in a comparison')
            elif a.k == 'ite':
                t = t * ite(realise(a.key[1]), realise(a.key[2]), realise(a.key[3]))
            else:
                t = t * P(a)
        r = r + t
    return r


def verdict(r, pr, ex, F, alts, nm, bx, by, spaces, names):
    """the boolean returned is `some element is wrong`, for exactly the elements of the matrices"""
    from .symex import tocond
    rej, acc = False, False
    for a in alts:
        if a.status == 'dead':
            raise Unsupported('way out of ' + nm)
        w = tocond(a.ret)
        rej, acc = disj(rej, conj(a.c, w)), disj(acc, conj(a.c, neg(w)))
    r.obls.append(('%s: gives one answer' % nm, 'proved' if acc == neg(rej) or (pr.prove(F + [rej], neg(acc)) and pr.prove(F + [neg(rej)], acc)) else 'undecided', ''))
    fs = []
    x, y = V('x_'), V('y_')
    leaf = set()
    for vars, guards, c in exists_fams(rej):
        lds = {i for i in cvs(c) if T.get(i).k == 'ld'}
        if isinstance(c, bool):
            lds = set()
        xo = [T.get(i) for i in lds if T.get(i).key[1] == bx]
        yo = [T.get(i) for i in lds if T.get(i).key[1] == by]
        if len(xo) != 1 or len(yo) != 1 or len(lds) != 2:
            raise Unsupported('comparison of other things: %s' % show(c)[:100])
        for a in xo + yo:
            if a.key[3] != 0 and int(a.key[3][1:]) < ex.lastwrite:
                raise Unsupported('comparison before the reference is complete')
        g = subst(c, {xo[0].id: x, yo[0].id: y})
        if {a.id for a, _n, _p in vars} & cvs(g):
            raise Unsupported('comparison depends on the place')
        leaf.add(g)
        fs.append(fm.Fam(vars, guards, ('cmp',), [xo[0].key[2], yo[0].key[2]]))
    if not fs:
        r.obls.append((nm + ': compares', 'undecided', show(rej)[:200])); return
    best = None
    for vs, off, sample in spaces:
        mt = fm.Matcher(pr, F, sample, names, nm)
        mt.match(fs, [fm.Fam(vs, [], ('cmp',), [off, off])], 'compares every element', bijective=False)
        if best is None or sum(o[1] != 'proved' for o in mt.res.obls) + len(mt.res.refuted) < sum(o[1] != 'proved' for o in best.res.obls) + len(best.res.refuted):
            best = mt
    r.obls += best.res.obls
    r.refuted += [('%s at %s' % q, None) for q in best.res.refuted]
    import math
    nan, inf = math.nan, math.inf
    from fractions import Fraction
    eps = P(Fraction(1, 1000))
    for g in leaf:
        rl = realise(g)
        d = x - y
        r.obls.append((nm + ': an element further off than the tolerance is rejected (real numbers)', 'proved' if pr.prove([disj(ltr(eps, d), ltr(eps, -d))], rl) else 'undecided', show(g)[:200]))
        r.obls.append((nm + ': a value equal to the reference is accepted (real numbers)', 'proved' if pr.prove([eq(x, y)], neg(rl)) else 'undecided', show(g)[:200]))
        r.obls.append((nm + ': an element within the tolerance is accepted (real numbers)', 'proved' if pr.prove([ler(d, eps), ler(-d, eps)], neg(rl)) else 'undecided', show(g)[:200]))
        for xv, yv, want in ((nan, 1.0, True), (1.0, nan, True), (nan, nan, True), (inf, 1.0, True), (-inf, 1.0, True), (1.0, inf, True), (inf, -inf, True), (inf, inf, False), (-inf, -inf, False), (nan, inf, True)):
            got = ieee_cond(g, {x.single().id: xv, y.single().id: yv})
            r.obls.append(('%s: result %s against reference %s is %s' % (nm, xv, yv, 'rejected' if want else 'accepted'), 'proved' if got == want else 'undecided', show(g)[:200] if got != want else ''))


def adds(code, buf):
    """stores into buf as `adds this product here` families"""
    out = []
    for f in code:
        if f.tag[0] != 'w':
            continue
        if f.tag[1] != fm.buftag(buf)[0]:
            return None
        off = f.polys[len(fm.buftag(buf)[1])]
        kind = f.tag[2:]
        v = f.polys[-1] if kind[0] == 'expr' else None
        if v is None:
            raise Unsupported('store of ' + str(kind[0]))
        own = [k for k in v.m if len(k) == 1 and T.get(k[0]).k == 'ld' and T.get(k[0]).key[1] == buf and T.get(k[0]).key[2] == off and v.m[k] == 1]
        if own:
            v = v - P(T.get(own[0][0]))
        for c, m, dom in addends(v):
            at = [T.get(i) for i in m]
            if c != 1 or any(a.k != 'ld' or a.key[3] != 0 for a in at) or any(a.key[1] == buf for a in at):
                raise Unsupported('store of %s' % show(Poly({m: c}))[:100])
            at.sort(key=lambda a: str(a.key[1]))
            bt, ps = [], []
            for a in at:
                t, p = fm.buftag(a.key[1])
                bt.append(t); ps += p + [a.key[2]]
            out.append((bool(own), fm.Fam(f.vars + [(b.single(), n, False) for b, n in dom], f.guards, ('add',) + tuple(bt), [off] + ps, f.path)))
    return out


def t_checker(ctx, r, fn):
    M, N, K, p = V('M'), V('N'), V('K'), V('p')
    F = [ge(M, 1), ge(N, 1), ge(K, 1), ge(p, 1)]
    names = ['M', 'N', 'K', 'p']
    sample = lambda rng: {n: rng.randint(1, 4) for n in names}
    pr, ex = engine(ctx, r, fn)
    ex.nan = ex.flags = True
    A, B, C, D = Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), Ptr(('D',))
    tr, alts = ex.run(fn, {'mat_equals': [C, D, M, N], 'cake_sgemm_checker': [A, B, C, N, M, K], 'add_checker': [Ptr(('S',)), C, M, N, p]}[fn], {}, F)
    m, n, k, e = (V('$' + q) for q in 'mnke')
    at = lambda q: q.single()
    spaces = [([(at(m), M, False), (at(n), N, False)], m * N + n, sample), ([(at(e), M * N, False)], e, sample)]
    al = [q for q in tr if q[0] == 'alloc']
    ref = ('D',) if fn == 'mat_equals' else al[0][1] if al else None
    if ref is None:
        raise Unsupported('where the reference is kept')
    verdict(r, pr, ex, F, alts, fn, ('C',), ref, spaces, names)
    code = fm.flatten(tr)
    if fn != 'mat_equals':
        r.obls.append((fn + ': the reference starts as zero', 'proved' if len(al) == 1 and al[0][3] == 'calloc' and pr.prove(F, le(M * N * 4, al[0][2])) else 'undecided', ''))
        fr = []
        def frees(t, g):
            for q in t:
                if q[0] == 'free':
                    if g is None or not isinstance(q[1], Ptr) or q[1].buf != ref or q[1].off.m:
                        raise Unsupported('release of other memory')
                    fr.append(g)
                elif q[0] == 'if':
                    frees(q[2], None if g is None else conj(g, q[1]))
                elif q[0] == 'loop':
                    frees(q[1].body, None)
        frees(tr, True)
        once = not (len(fr) == 0 or any(not pr.prove(F + [fr[i]], neg(fr[j])) for i in range(len(fr)) for j in range(i))) and pr.prove(F + [neg(g) for g in fr[1:]], fr[0])
        r.obls.append((fn + ': the reference is released once', 'proved' if once else 'undecided', ''))
        ad = adds(code, ref)
        if ad is None:
            r.obls.append((fn + ': writes only the reference', 'undecided', '')); return
        if not all(o for o, _f in ad):
            # a store of the whole sum: each element once
            if any(o for o, _f in ad):
                raise Unsupported('mixed stores')
            mt = fm.Matcher(pr, F, sample, names, fn)
            ws = [fm.Fam(f.vars, f.guards, ('st',), [f.polys[len(fm.buftag(ref)[1])]]) for f in code if f.tag[0] == 'w']
            mt.match(ws, [fm.Fam([(at(m), M, False), (at(n), N, False)], [], ('st',), [m * N + n])], 'stores of the reference')
            r.obls += mt.res.obls
        mt = fm.Matcher(pr, F, sample, names, fn)
        if fn == 'cake_sgemm_checker':
            spec = [fm.Fam([(at(m), M, False), (at(n), N, False), (at(k), K, False)], [], ('add', ('A',), ('B',)), [m * N + n, m * K + k, k * N + n])]
        else:
            spec = [fm.Fam([(at(k), p, False), (at(e), M * N, False)], [], ('add', ('elem', 'S', '*')), [e, k, e])]
        mt.match([f for _o, f in ad], spec, 'products of the reference')
        tk.only(r, [f for f in code if not (f.tag[0] in ('alloc', 'free'))], ('w', 'r'), fn)
        tk.finish(r, ex, mt, lambda e: None)
    else:
        tk.only(r, code, ('r',), fn)
        close(r, ex)
    if any(o[1] != 'proved' for o in r.obls) or r.refuted:
        f = {'mat_equals': 'equals', 'cake_sgemm_checker': 'gemm', 'add_checker': 'add'}[fn]
        r.refuted_extra += ['checker f=%s M=%d N=%d K=%d bad=%d kind=%d seed=1' % (f, M_, N_, K_, b, kd) for M_, N_, K_, b in ((1, 1, 1, 0), (3, 5, 4, 0), (3, 5, 4, 14), (5, 3, 7, 7)) for kd in range(10)]
