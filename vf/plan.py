"""The block plan as a parametrised object: for every combination of (edge block in M, in K, in N) the plan's inputs
and fields are polynomials in free parameters, with the linear facts that tie the parameters.  `init_block_dims` is
proved to return exactly these fields (C06/C07); everything that consumes a plan assumes exactly them."""
import random
from .terms import *
from .symex import Ptr

FIELDS = ['m_c', 'k_c', 'n_c', 'm_c1', 'k_c1', 'n_c1', 'm_c1_last_core', 'n_c1_last_core', 'k_c1_last_core', 'mr_rem', 'nr_rem', 'k_rem', 'p_l',
          'pm_l', 'pn_l', 'pm', 'pn', 'm_pad', 'k_pad', 'n_pad', 'Mb', 'Kb', 'Nb', 'M_padded', 'N_padded', 'sch']


class Case:
    """sch in 'KMN','MKN','NKM','2D'"""
    def __init__(s, sch, mp, kp, np_):
        s.sch, s.mp, s.kp, s.np = sch, mp, kp, np_
        s.name = '%s m%d k%d n%d' % (sch, mp, kp, np_)
        s.base = []          # parameter names in sampling order, with (lo, hi) as functions of the environment
        s.facts, s.f, s.defs = [], {}, {}
        F, v = s.facts, s.v
        p = v('p', 1, lambda e: 9 if sch == '2D' else 4)
        mr = v('mr', 1, lambda e: 4); nr = v('nr', 1, lambda e: 4)
        s.p, s.mr, s.nr = p, mr, nr
        u = v('u', 1, lambda e: 3); w = v('v', 1, lambda e: 3)
        kc = v('k_c', 1, lambda e: 4)
        Mb = v('Mb', 1, lambda e: 4); Kb = v('Kb', 1, lambda e: 4); Nb = v('Nb', 1, lambda e: 4)
        mc, nc = mr * u, nr * w
        pm = pn = pk = ONE
        if sch == 'KMN':
            pm = p
        elif sch == 'MKN':
            pk = p
        elif sch == 'NKM':
            pm = p; pk = p
        elif sch == '2D':
            pm = v('pm', 1, lambda e: 3); pn = v('pn', 1, lambda e: 3)
            F.append(le(pm * pn, p))
        s.pm, s.pn, s.pk = pm, pn, pk
        f = s.f
        f.update(m_c=mc, k_c=kc, n_c=nc, m_pad=P(mp), k_pad=P(kp), n_pad=P(np_), Mb=Mb, Kb=Kb, Nb=Nb)
        s.u, s.vv, s.kc, s.Mb, s.Kb, s.Nb, s.mc, s.nc = u, w, kc, Mb, Kb, Nb, mc, nc
        # ---- rows
        if mp:
            if sch in ('KMN', '2D'):
                c = v('c', 1, lambda e: e['u']); l = v('l', 1, lambda e: e['c']); pl = v('p_l', 1, lambda e: e['p'] if sch == 'KMN' else e['pm'])
                F += [le(l, c), le(c, u), le(pl, pm)]
                rho = c * (pl - 1) + l
            else:
                rho = v('rho', 1, lambda e: e['u'] * (e['p'] if sch == 'NKM' else 1)); F.append(le(rho, pm * u))
                c = l = pl = None
            er = v('e', 1, lambda e: e['mr']); F.append(le(er, mr))
            rem = mr * (rho - 1) + er
            F.append(lt(rem, pm * mc))
            if sch in ('MKN', 'NKM') or True:
                F.append(le(rho, pm * u))
            s.M = (Mb - 1) * pm * mc + rem
            s.rho, s.er, s.c, s.l, s.pl_m = rho, er, c, l, pl
            f.update(mr_rem=rho, M_padded=(Mb - 1) * pm * mc + mr * rho)
            if sch in ('KMN', '2D'):
                f.update(m_c1=mr * c, m_c1_last_core=mr * l)
                f['p_l' if sch == 'KMN' else 'pm_l'] = pl
            else:
                f.update(m_c1=mr * rho)
        else:
            s.M = Mb * pm * mc
            s.rho = s.er = s.c = s.l = s.pl_m = None
            f.update(mr_rem=ZERO, m_c1=ZERO, M_padded=s.M)
            if sch in ('KMN', '2D'):
                f.update(m_c1_last_core=ZERO)
                f['p_l' if sch == 'KMN' else 'pm_l'] = ZERO
        # ---- depth
        if kp:
            if sch in ('KMN', '2D'):
                k1 = v('k1', 1, lambda e: e['k_c'] - 1); F.append(lt(k1, kc))
                s.K = (Kb - 1) * kc + k1
                s.k1 = k1
                f.update(k_c1=k1)
            else:
                k1 = v('k1', 1, lambda e: e['k_c']); kl = v('kl', 1, lambda e: e['k1']); pl = v('p_l', 1, lambda e: e['p'])
                F += [le(kl, k1), le(k1, kc), le(pl, p)]
                kr = k1 * (pl - 1) + kl
                F.append(lt(kr, p * kc))
                s.K = (Kb - 1) * p * kc + kr
                s.k1, s.kl, s.pl_k, s.kr = k1, kl, pl, kr
                f.update(k_c1=k1, k_c1_last_core=kl, p_l=pl, k_rem=kr)
        else:
            s.K = Kb * kc * pk
            s.k1 = None
            f.update(k_c1=ZERO)
            if sch in ('MKN', 'NKM'):
                f.update(k_c1_last_core=ZERO, p_l=ZERO, k_rem=ZERO)
                s.kl = s.pl_k = s.kr = None
        # ---- columns
        if np_:
            if sch == '2D':
                cn = v('cn', 1, lambda e: e['v']); ln = v('ln', 1, lambda e: e['cn']); pln = v('pn_l', 1, lambda e: e['pn'])
                F += [le(ln, cn), le(cn, w), le(pln, pn)]
                tau = cn * (pln - 1) + ln
                s.cn, s.ln, s.pl_n = cn, ln, pln
                f.update(n_c1=nr * cn, n_c1_last_core=nr * ln, pn_l=pln)
            else:
                tau = v('tau', 1, lambda e: e['v']); F.append(le(tau, w))
                f.update(n_c1=nr * tau)
            ec = v('ec', 1, lambda e: e['nr']); F.append(le(ec, nr))
            rem = nr * (tau - 1) + ec
            F.append(lt(rem, pn * nc))
            s.N = (Nb - 1) * pn * nc + rem
            s.tau, s.ec = tau, ec
            f.update(nr_rem=tau, N_padded=(Nb - 1) * pn * nc + nr * tau)
        else:
            s.N = Nb * pn * nc
            s.tau = s.ec = None
            f.update(nr_rem=ZERO, n_c1=ZERO, N_padded=s.N)
            if sch == '2D':
                f.update(n_c1_last_core=ZERO, pn_l=ZERO)
        if sch == '2D':
            f.update(pm=pm, pn=pn)
        elif sch == 'NKM':
            f.update(pm=ONE, pn=p)
        else:
            f.update(pm=p, pn=ONE)
        f['sch'] = P({'KMN': 0, 'MKN': 1, 'NKM': 2, '2D': 0}[sch])
        s.F = F

    def v(s, name, lo, hi):
        x = V(name)
        s.base.append((name, lo, hi))
        s.facts.append(le(lo, x))
        return x

    def heap(s, xs='x', cs='cntx', m_map=None, n_map=None):
        h = {}
        for k in FIELDS:
            h[((xs,), k)] = s.f[k] if k in s.f else V('unset_' + k)
        h[((cs,), 'mr')] = s.mr; h[((cs,), 'nr')] = s.nr
        h[((cs,), 'm_map')] = V('m_map'); h[((cs,), 'n_map')] = V('n_map')
        h[((cs,), 'ncores')] = V('ncores')
        return h

    def sample(s, rng, cap=(), low=()):
        """a random assignment of the parameters satisfying the facts, or None; cap, low: limits of some parameters"""
        for _ in range(60):
            e = {}
            ok = True
            for n, lo, hi in s.base:
                h = hi(e)
                if n in cap:
                    h = min(h, cap[n])
                if h < lo:
                    ok = False; break
                e[n] = rng.randint(min(h, max(lo, low[n])) if n in low else lo, h)
            if not ok:
                continue
            env = {V(n).single().id: x for n, x in e.items()}
            try:
                if all(ev(f, env) for f in s.F):
                    return e
            except EvalErr:
                pass
        return None

    # block sizes as functions of the block index (spec side)
    def rows(s):
        pass


def cases(sch):
    return [Case(sch, a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
