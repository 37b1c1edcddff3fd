"""Proof of the block-level packing functions against their contracts (vf/blocks.py), with free parameters."""
import random
from .terms import *
from . import terms as T
from .symex import Ptr, Exec, Unsupported
from .prover import Prover
from . import blocks, families as fm
from .blocks import SIG, POS

HI = dict(M=7, K=6, N=7, m1=4, m2=4, n1=5, kc=3, mr=3, nr=3, u=3, v=3)


def prove(ctx, name):
    """-> (obligations, True if all are discharged, statistics of the executor)"""
    names, F, cases = [], [], [{}]
    def v(n):
        if n not in names:
            names.append(n); F.append(le(1 if n in POS else 0, V(n)))
        return V(n)
    obls = []
    def args(flags):
        out = []
        for q in SIG[name]:
            if q[0] == '*':
                out.append(Ptr((q[1:],)))
            elif q[0] == '?':
                out.append(P(flags[q]))
            elif '*' in q:
                a, b = q.split('*'); out.append(v(a) * v(b))
            else:
                out.append(v(q))
        return out
    fl = [q for q in SIG[name] if q[0] == '?']
    ok = True
    for bits in range(1 << len(fl)):
        flags = {q: bits >> i & 1 for i, q in enumerate(fl)}
        al = args(flags)
        def sample(rng):
            return {n: rng.randint(1 if n in POS else 0, HI[n]) for n in names}
        pr = Prover()
        pr.sampler = sample
        ex = Exec(ctx.prog, pr, None)
        ex.track_reads = True
        tr, alts = ex.run(name, al, {}, F)
        code = fm.flatten(tr)
        nm = name + ''.join(' %s=%d' % (q[1:], x) for q, x in flags.items())
        mt = fm.Matcher(pr, F, sample, names, nm)
        mt.ns = 60
        vs, dst, off, alternatives = blocks.build(name, al)
        spec, reads = [], []
        sv = [(V('$%d' % i).single(), n, False) for i, (a, n) in enumerate(vs)]
        ren = {a.single().id: P(x) for (a, _n), (x, _m, _p) in zip(vs, sv)}
        for g, src, so in alternatives:
            if g is False:
                continue
            val = ZERO if src is None else P(atom('ld', src.buf, subst(src.off + so, ren), 0))
            gs = [] if g is True else [subst(g, ren)]
            for gg, kind, ps in fm.split_val(val):
                st, bp = fm.buftag(dst.buf)
                spec.append(fm.Fam(sv, gs + gg, ('w', st) + kind, bp + [subst(dst.off + off, ren)] + ps))
            if src is not None:
                reads.append(fm.Fam(sv, gs, ('r', src.buf), [subst(src.off + so, ren)]))
        w = [f for f in code if f.tag[0] == 'w']
        mt.match(w, spec, 'elements written')
        # the reads are only guessed from sizes at which places in the source are unique; what is proved is for all
        mt.sampler = lambda rng: (lambda e: dict(e, K=e.get('K', 0) + e['kc'] if 'kc' in e else 1, N=e.get('N', 0) + 12))(sample(rng))
        mt.match([f for f in code if f.tag[0] == 'r'], reads, 'elements read', bijective=False, cover=False)
        rest = [f for f in code if f.tag[0] not in ('w', 'r')]
        mt.res.add(nm + ': no other effects', not rest, str([f.tag for f in rest][:3]))
        for o in ex.obls:
            mt.res.add('%s: %s [%s]' % (nm, o.name, o.where), o.status == 'proved', '' if o.status == 'proved' else show(o.goal)[:200])
        obls += mt.res.obls
        ok = ok and mt.res.ok()
        if not ok:
            break
    return obls, ok



_memo = {}


def usable(ctx, names=None):
    """the contracts a caller may rely on: those whose function is proved against them.  (The others are executed in
    place: the property of the caller does not depend on where the work is done.)"""
    out = {}
    for n in names or SIG:
        if n not in ctx.prog.funcs:
            continue
        if n not in _memo:
            try:
                _memo[n] = prove(ctx, n)
            except (Unsupported, KeyError, AttributeError, TypeError, IndexError, ZeroDivisionError):
                _memo[n] = [], False
        obls, ok = _memo[n]
        if ok:
            out[n] = blocks.CONTRACTS[n]
    return out


def credit(r, names):
    """the proofs of the contracts that were used"""
    for n in sorted(names):
        if n in _memo:
            r.obls += _memo[n][0]
            r.funcs.add(n)
