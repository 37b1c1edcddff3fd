"""Layouts and specified event families, written from the data-layout definitions alone.

A layout is a list of nested levels (coordinate, count, start of the part inside its parent, size of the part); the
position of an element is the sum of the starts.  `layout_lemmas` are the facts that make positions unique, in bounds
and (for tight layouts) without gaps."""
from .terms import *
from . import terms as T
from .families import Fam, split_val


class Layout:
    def __init__(s, name, levels, total, tight=True):
        s.name, s.levels, s.total, s.tight = name, levels, total, tight

    def pos(s):
        r = ZERO
        for _a, _n, st, _z in s.levels:
            r = r + st
        return r

    def at(s, names):
        """sum of the starts of the named levels"""
        r = ZERO
        for a, _n, st, _z in s.levels:
            if a.key[1] in names:
                r = r + st
        return r

    def vars(s):
        return [(a, n, False) for a, n, _s, _z in s.levels]


def sv(n):
    return V('$' + n)


def lemmas(c, lay):
    """obligations (facts, goal, name): every level's parts lie in order, disjoint, inside the parent"""
    out = []
    F = []
    parent = lay.total
    for a, n, st, z in lay.levels:
        x = P(a)
        inr = [le(0, x), lt(x, n)]
        x2 = V(a.key[1] + "'")
        sub = {a.id: x2}
        out.append((F + inr, le(0, st), '%s: %s part starts inside' % (lay.name, a.key[1])))
        out.append((F + inr, le(0, z), '%s: %s part has a size' % (lay.name, a.key[1])))
        out.append((F + inr, le(st + z, parent), '%s: %s part ends inside' % (lay.name, a.key[1])))
        out.append((F + inr + [lt(x, x2), lt(x2, n)], le(st + z, subst(st, sub)), '%s: %s parts do not overlap' % (lay.name, a.key[1])))
        if lay.tight:
            out.append((F + [gt(n, 0)], eq(subst(st, {a.id: ZERO}), 0), '%s: first %s part at the start' % (lay.name, a.key[1])))
            nx = subst(st, {a.id: x + 1})
            out.append((F + inr + [lt(x + 1, n)], eq(st + z, nx), '%s: %s parts follow each other' % (lay.name, a.key[1])))
            out.append((F + [gt(n, 0)], eq(subst(st + z, {a.id: n - 1}), parent), '%s: last %s part ends the whole' % (lay.name, a.key[1])))
            out.append((F, gt(n, 0), '%s: at least one %s part' % (lay.name, a.key[1])))
        F = F + inr
        parent = z
    return out


class Spec:
    """block structure of a plan case"""
    def __init__(s, c):
        s.c = c
        sch = c.sch
        m, k, n, core, mreg, nreg, kk, i, j = (sv(x) for x in 'm k n core mreg nreg kk i j'.split())
        s.m, s.k, s.n, s.core, s.mreg, s.nreg, s.kk, s.i, s.j = m, k, n, core, mreg, nreg, kk, i, j
        eM = eq(m, c.Mb - 1) if c.mp else False
        eK = eq(k, c.Kb - 1) if c.kp else False
        eN = eq(n, c.Nb - 1) if c.np else False
        p, mr, nr, mc, nc, kc = c.p, c.mr, c.nr, c.mc, c.nc, c.kc
        s.nct = ite(eN, nr * c.tau, nc) if c.np else nc
        s.nregs = ite(eN, c.tau, c.vv) if c.np else c.vv
        s.colbase = n * nc
        Z0 = ZERO
        if sch == 'KMN':
            s.rows = ite(eM, mr * c.rho, p * mc) if c.mp else p * mc
            s.ncore = ite(eM, c.pl_m, p) if c.mp else p
            lastc = conj(eM, eq(core, c.pl_m - 1)) if c.mp else False
            s.mcx = ite(eM, mr * c.c, mc) if c.mp else mc
            s.mct = ite(eM, ite(eq(core, c.pl_m - 1), mr * c.l, mr * c.c), mc) if c.mp else mc
            s.mregs = ite(eM, ite(eq(core, c.pl_m - 1), c.l, c.c), c.u) if c.mp else c.u
            s.kct = ite(eK, c.k1, kc) if c.kp else kc
            s.kbase = k * kc
            s.rowbase = m * p * mc + core * s.mcx
        else:
            big = p if sch == 'NKM' else ONE
            s.mct = ite(eM, mr * c.rho, big * mc) if c.mp else big * mc
            s.mregs = ite(eM, c.rho, big * c.u) if c.mp else big * c.u
            s.rows = s.mct
            s.ncore = ite(eK, c.pl_k, p) if c.kp else p
            s.kct = ite(eK, ite(eq(core, c.pl_k - 1), c.kl, c.k1), kc) if c.kp else kc
            s.kcx = ite(eK, c.k1, kc) if c.kp else kc
            s.kcb = ite(eK, c.kr, p * kc) if c.kp else p * kc
            s.kbase = k * p * kc + core * s.kcx
            s.rowbase = m * big * mc
        s.Mp = c.f['M_padded']; s.Np = c.f['N_padded']

    def A(s):
        c, at = s.c, lambda x: x.single()
        tail = [(at(s.mreg), s.mregs, s.mreg * c.mr * s.kct, c.mr * s.kct), (at(s.kk), s.kct, s.kk * c.mr, c.mr), (at(s.i), c.mr, s.i, ONE)]
        if c.sch == 'KMN':
            h = [(at(s.m), c.Mb, s.m * c.p * c.mc * c.K, s.rows * c.K), (at(s.k), c.Kb, s.k * s.rows * c.kc, s.rows * s.kct),
                 (at(s.core), s.ncore, s.core * s.mcx * s.kct, s.mct * s.kct)]
        elif c.sch == 'MKN':
            h = [(at(s.k), c.Kb, s.k * s.Mp * c.p * c.kc, s.Mp * s.kcb), (at(s.m), c.Mb, s.m * c.mc * s.kcb, s.mct * s.kcb),
                 (at(s.core), s.ncore, s.core * s.kcx * s.mct, s.kct * s.mct)]
        else:
            h = [(at(s.m), c.Mb, s.m * c.p * c.mc * c.K, s.mct * c.K), (at(s.k), c.Kb, s.mct * s.k * c.p * c.kc, s.mct * s.kcb),
                 (at(s.core), s.ncore, s.core * s.mct * s.kcx, s.mct * s.kct)]
        return Layout('packed A', h + tail, s.Mp * c.K)

    def B(s):
        c, at = s.c, lambda x: x.single()
        tail = [(at(s.nreg), s.nregs, s.nreg * s.kct * c.nr, s.kct * c.nr), (at(s.kk), s.kct, s.kk * c.nr, c.nr), (at(s.j), c.nr, s.j, ONE)]
        if c.sch == 'KMN':
            h = [(at(s.n), c.Nb, s.n * c.K * c.nc, c.K * s.nct), (at(s.k), c.Kb, s.k * c.kc * s.nct, s.kct * s.nct)]
        elif c.sch == 'MKN':
            h = [(at(s.n), c.Nb, s.n * c.K * c.nc, c.K * s.nct), (at(s.k), c.Kb, s.k * c.p * c.kc * s.nct, s.kcb * s.nct),
                 (at(s.core), s.ncore, s.core * s.kcx * s.nct, s.kct * s.nct)]
        else:
            h = [(at(s.k), c.Kb, s.k * c.p * c.kc * s.Np, s.kcb * s.Np), (at(s.n), c.Nb, s.n * c.nc * s.kcb, s.nct * s.kcb),
                 (at(s.core), s.ncore, s.core * s.kcx * s.nct, s.kct * s.nct)]
        return Layout('packed B', h + tail, s.Np * c.K)

    def C(s):
        c, at = s.c, lambda x: x.single()
        tail = [(at(s.nreg), s.nregs, s.nreg * s.mct * c.nr, s.mct * c.nr), (at(s.mreg), s.mregs, s.mreg * c.mr * c.nr, c.mr * c.nr),
                (at(s.i), c.mr, s.i * c.nr, c.nr), (at(s.j), c.nr, s.j, ONE)]
        if c.sch == 'KMN':
            h = [(at(s.n), c.Nb, s.n * s.Mp * c.nc, s.Mp * s.nct), (at(s.m), c.Mb, s.m * c.p * c.mc * s.nct, s.rows * s.nct),
                 (at(s.core), s.ncore, s.core * s.mcx * s.nct, s.mct * s.nct)]
        elif c.sch == 'MKN':
            h = [(at(s.n), c.Nb, s.n * s.Mp * c.nc, s.Mp * s.nct), (at(s.m), c.Mb, s.m * c.mc * s.nct, s.mct * s.nct)]
        else:
            h = [(at(s.m), c.Mb, s.m * c.p * c.mc * s.Np, s.mct * s.Np), (at(s.n), c.Nb, s.mct * s.n * c.nc, s.mct * s.nct)]
        return Layout('packed C', h + tail, s.Mp * s.Np)

    # rows / columns / depth of an element
    def row(s):
        return s.rowbase + s.mreg * s.c.mr + s.i

    def col(s):
        return s.colbase + s.nreg * s.c.nr + s.j

    def dep(s):
        return s.kbase + s.kk

    def rows_layout(s):
        c, at = s.c, lambda x: x.single()
        if c.sch == 'KMN':
            l = [(at(s.m), c.Mb, s.m * c.p * c.mc, s.rows), (at(s.core), s.ncore, s.core * s.mcx, s.mct)]
        else:
            l = [(at(s.m), c.Mb, s.rowbase, s.mct)]
        return Layout('rows', l + [(at(s.mreg), s.mregs, s.mreg * c.mr, c.mr), (at(s.i), c.mr, s.i, ONE)], s.Mp)

    def cols_layout(s):
        c, at = s.c, lambda x: x.single()
        return Layout('columns', [(at(s.n), c.Nb, s.colbase, s.nct), (at(s.nreg), s.nregs, s.nreg * c.nr, c.nr), (at(s.j), c.nr, s.j, ONE)], s.Np)

    def depth_layout(s):
        c, at = s.c, lambda x: x.single()
        l = [(at(s.k), c.Kb, s.k * c.kc, s.kct)] if c.sch == 'KMN' else \
            [(at(s.k), c.Kb, s.k * c.p * c.kc, s.kcb), (at(s.core), s.ncore, s.core * s.kcx, s.kct)]
        return Layout('depth', l + [(at(s.kk), s.kct, s.kk, ONE)], c.K)

    # ---- specified events
    def writes(s, lay, dst, val):
        bt = (dst,)
        return [Fam(lay.vars(), g, ('w', bt) + kind, [lay.pos()] + ps) for g, kind, ps in split_val(val)]

    def packA(s):
        c = s.c
        v = ite(ge(s.row(), c.M), ZERO, P(atom('ld', ('A',), s.row() * c.K + s.dep(), 0)))
        return s.writes(s.A(), 'A_p', v)

    def packB(s):
        c = s.c
        v = ite(ge(s.col(), c.N), ZERO, P(atom('ld', ('B',), s.dep() * c.N + s.col(), 0)))
        return s.writes(s.B(), 'B_p', v)

    def packC(s):
        c = s.c
        v = ite(conj(lt(s.row(), c.M), lt(s.col(), c.N)), P(atom('ld', ('C',), s.row() * c.N + s.col(), 0)), ZERO)
        return s.writes(s.C(), 'C_p', v)

    def unpackC(s, src=('C_p',), pos=None):
        """C[row][col] = packed value, for rows and columns that exist"""
        c = s.c
        g = [lt(s.row(), c.M), lt(s.col(), c.N)]
        return [Fam(s.C().vars(), g, ('w', ('C',), 'ld') + src, [s.row() * c.N + s.col()] + (pos if pos is not None else [s.C().pos()]))]

    def kernels(s, cbuf=('C_p',), cpos=None, idx=()):
        """one kernel call per (block of A, block of B, register tile)"""
        c, at = s.c, lambda x: x.single()
        vs = [(at(s.n), c.Nb, False), (at(s.m), c.Mb, False), (at(s.k), c.Kb, False), (at(s.core), s.ncore, False),
              (at(s.nreg), s.nregs, False), (at(s.mreg), s.mregs, False)]
        z = {at(s.kk).id: ZERO, at(s.i).id: ZERO, at(s.j).id: ZERO}
        a, b = subst(s.A().pos(), z), subst(s.B().pos(), z)
        cp = cpos if cpos is not None else [subst(s.C().pos(), z)]
        return [Fam(vs, [], ('uk', ('A_p',), ('B_p',), cbuf), [a, b] + cp + [c.mr, c.nr, s.kct] + list(idx))]
