"""Contracts of the block-level packing functions (src/pack_ob.cpp): what one call writes, element by element.

Each contract is a list of canonical loops over (tile, ...) with one store.  A caller is executed against it; `t_block`
proves the function's own body against the same contract, with free parameters."""
from .terms import *
from . import terms as T
from .symex import Ptr, Loop, Unsupported, PIte

# name -> (parameter names, builder).  builder(args, new) -> list of (loops [(name, count)], guard, dst pointer+offset, value)


def _tiles(m_c, m_r):
    q = exact_div(m_c, m_r)
    if q is None:
        raise Unsupported('tile count')
    return q


def pack_A_mr_x_kc(v, x):
    A, Ap, K, kc, mr = v
    i, j = x('i', kc), x('j', mr)
    return [(i, j)], Ap, i * mr + j, [(True, A, i + j * K)]


def pack_B_nr_x_kc(v, x):
    B, Bp, N, kc, nr = v
    i, j = x('i', kc), x('j', nr)
    return [(i, j)], Bp, i * nr + j, [(True, B, i * N + j)]


def pack_ob_A_single_buf(v, x):
    A, Ap, M, K, m1, m2, mc, kc, mr, pad = v
    t, i, j = x('t', _tiles(mc, mr)), x('i', kc), x('j', mr)
    g = lt(m1 + m2 + t * mr + j, M)
    return [(t, i, j)], Ap, (t * kc + i) * mr + j, [(g, A, t * mr * K + i + j * K), (neg(g), None, None)]


def pack_ob_B_single_buf(v, x):
    B, Bp, K, N, n1, kc, nc, nr, pad = v
    t, i, j = x('t', _tiles(nc, nr)), x('i', kc), x('j', nr)
    g = lt(n1 + t * nr + j, N)
    p = pad
    if isinstance(p, Poly):
        c = p.const()
        p = bool(c) if c is not None else ne(p, 0)
    g = disj(g, neg(p) if not isinstance(p, bool) else not p)
    return [(t, i, j)], Bp, (t * kc + i) * nr + j, [(g, B, t * nr + i * N + j), (neg(g) if g is not True else False, None, None)]


def unpack_ob_C_single_buf(v, x):
    C, Cp, M, N, m1, n1, m2, mc, nc, mr, nr = v
    t, u, i, j = x('t', _tiles(nc, nr)), x('u', _tiles(mc, mr)), x('i', mr), x('j', nr)
    g = conj(lt(n1 + t * nr + j, N), lt(m1 + m2 + u * mr + i, M))
    return [(t, u, i, j)], C, t * nr + u * mr * N + i * N + j, [(g, Cp, ((t * _tiles(mc, mr) + u) * mr + i) * nr + j)]


def pack_ob_C_single_buf(v, x):
    C, Cp, M, N, m1, n1, m2, mc, nc, mr, nr, pm, pn = v
    t, u, i, j = x('t', _tiles(nc, nr)), x('u', _tiles(mc, mr)), x('i', mr), x('j', nr)
    g = conj(lt(n1 + t * nr + j, N), lt(m1 + m2 + u * mr + i, M))
    pads = []
    for p in (pm, pn):
        if isinstance(p, Poly):
            c = p.const()
            p = bool(c) if c is not None else ne(p, 0)
        pads.append(p)
    anyp = disj(*pads)
    g = disj(g, neg(anyp)) if not isinstance(anyp, bool) else (g if anyp else True)
    return [(t, u, i, j)], Cp, ((t * _tiles(mc, mr) + u) * mr + i) * nr + j, \
        [(g, C, t * nr + u * mr * N + i * N + j), (neg(g) if g is not True else False, None, None)]


DEFS = {f.__name__: f for f in (pack_A_mr_x_kc, pack_B_nr_x_kc, pack_ob_A_single_buf, pack_ob_B_single_buf, unpack_ob_C_single_buf, pack_ob_C_single_buf)}


# parameter kinds: pointers, free sizes, tile sizes (a multiple of the register tile), flags
SIG = {
    'pack_A_mr_x_kc': ['*A', '*Ap', 'K', 'kc', 'mr'],
    'pack_B_nr_x_kc': ['*B', '*Bp', 'N', 'kc', 'nr'],
    'pack_ob_A_single_buf': ['*A', '*Ap', 'M', 'K', 'm1', 'm2', 'mr*u', 'kc', 'mr', '?pad'],
    'pack_ob_B_single_buf': ['*B', '*Bp', 'K', 'N', 'n1', 'kc', 'nr*v', 'nr', '?pad'],
    'unpack_ob_C_single_buf': ['*C', '*Cp', 'M', 'N', 'm1', 'n1', 'm2', 'mr*u', 'nr*v', 'mr', 'nr'],
    'pack_ob_C_single_buf': ['*C', '*Cp', 'M', 'N', 'm1', 'n1', 'm2', 'mr*u', 'nr*v', 'mr', 'nr', '?pad', '?pad2'],
}
POS = ('mr', 'nr', 'K', 'N')


def build(name, v):
    """-> (vars [(Poly var, count)], dst, off, alternatives)"""
    vs = []
    def x(n, count):
        a = fresh(n)
        vs.append((a, P(count)))
        return a
    v = [a if isinstance(a, (Ptr, PIte)) or not isinstance(a, (int, bool)) else P(a) for a in v]
    order, dst, off, alts = DEFS[name](v, x)
    return vs, dst, off, alts


def contract(name):
    def f(ex, vals, st, tr):
        vals = [polyof(a) for a in vals]
        if any(isinstance(a, PIte) for a in vals):
            raise Unsupported('pointer operand of ' + name)
        for k, a in zip(SIG[name], vals):
            if k[0] not in '*?' and '*' not in k:
                ex.oblige(st, le(1 if k in POS else 0, P(a)), 'precondition of %s: %s' % (name, k))
        vs, dst, off, alts = build(name, vals)
        for a, n in vs:
            ex.oblige(st, le(0, n), 'precondition of %s: counts' % name)
        body = []
        for g, src, so in alts:
            if g is False:
                continue
            if src is None:
                val = ZERO
                ev = [('w', dst.buf, dst.off + off, val, 'float')]
            else:
                ep = 'w%d' % ex.clock if st.wrote.get(('any', src.buf[0])) else 0
                ev = []
                if ex.track_reads:
                    ev.append(('r', src.buf, src.off + so))
                ev.append(('w', dst.buf, dst.off + off, P(atom('ld', src.buf, src.off + so, ep)), 'float'))
            body += ev if g is True else [('if', g, ev)]
        for a, n in reversed(vs):
            body = [('loop', Loop(a.single(), n, body, False, showa(a.single())))]
        tr += body
        st.wrote[dst.buf[0:1] + dst.buf[1:2]] = 1
        ex.wrote(st, dst.buf[0])
        return None
    return f


def polyof(a):
    if isinstance(a, (bool, int)):
        return P(int(a))
    if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in ('<', '<=', '=', '!=', 'and', 'or', 'le', 'lt', 'eq', 'ne'):
        return ite(a, ONE, ZERO)
    return a


CONTRACTS = {n: contract(n) for n in DEFS}
