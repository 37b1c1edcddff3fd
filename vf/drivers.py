"""The multiply entry points against the contracts of what they call.

The body of cake_sgemm (and its variants) is executed with the plan, packing, schedule and unpacking functions
replaced by their contracts; what is left is a sequence of allocations, calls and releases, checked here against a
protocol: which memory holds what, who owns it, how large it has to be."""
from .terms import *
from . import terms as T
from .symex import Exec, Ptr, Unsupported, NULL, PIte
from .prover import Prover
from . import plan, spec as sp, families as fm
from .cfront import NoReturn
import random

PLAN_FNS = {'init_block_dims': 'KMN', 'init_block_dims_2d': '2D'}
CALLS = ['pack_A', 'pack_B', 'pack_C', 'unpack_C', 'schedule_KMN', 'schedule_MKN', 'schedule_NKM', 'schedule_KMN_online', 'schedule_KMN_2d']


KINDS = 'dims val mem own free leak'


class Bad(Exception):
    pass


class Region:
    def __init__(s, name, size, own, content, count=None, kind=''):
        s.name, s.size, s.own, s.content, s.count, s.kind = name, size, own, content, count, kind
        s.live = True


class Protocol:
    def __init__(s, pr, c, api, A, B, C, pa, pb, beta, user, sizes, given, kinds=KINDS):
        s.kinds = set(kinds.split())
        s.pr, s.c, s.api = pr, c, api
        s.pa, s.pb, s.beta, s.user, s.sizes, s.given = pa, pb, beta, user, sizes, given
        s.reg = {}
        s.obls = []
        s.cont = {('C',): 'old'}
        s.plan = None
        s.inl = []
        s.reg[('A',)] = Region(('A',), None, False, 'packedA' if pa else 'A')
        s.reg[('B',)] = Region(('B',), None, False, 'packedB' if pb else 'B')
        s.reg[('C',)] = Region(('C',), None, False, 'old')
        s.reg[('cntx',)] = Region(('cntx',), None, False, 'cntx')

    def need(s, ok, what, kind='dims'):
        """kinds: 'dims' sizes and plan handed on; 'val' contents; 'mem' extents, liveness, nothing read before it is
        written; 'own' whose memory is written or read; 'free' releases; 'leak'.  A statement none of whose kinds is asked
        for does not concern the property: it is neither counted nor an alarm"""
        if not s.kinds & set(kind.split()):
            return
        if ok is not True and ok is not False:
            ok = s.pr.prove(list(s.c.F), ok)
        s.obls.append((what, bool(ok)))
        if not ok:
            raise Bad(what)

    # regions
    def get(s, p, what):
        if isinstance(p, Ptr) and p.buf in s.reg and p.off == ZERO:
            r = s.reg[p.buf]
            s.need(r.live, '%s: %s is live' % (what, r.name[0]), 'mem val')
            return r
        raise Unsupported('%s: pointer %r' % (what, p))

    def arr(s, p, what):
        """array of pointers"""
        if isinstance(p, Ptr) and p.buf[0] in ('larr', 'heap') and p.off == ZERO:
            r = s.reg.get(('each',) + p.buf)
            s.need(r is not None, '%s: the array of buffers is filled' % what, 'mem val')
            s.known(r, what)
            s.need(r.live, '%s: buffers are live' % what, 'mem val')
            return r
        raise Unsupported('%s: pointer %r' % (what, p))

    def walk(s, tr, loop=None):
        if loop is None:
            tr = fm.clears(tr, lambda b: b[0] in ('heap', 'elem'))
        for e in tr:
            if e[0] == 'loop':
                if loop is not None:
                    raise Unsupported('nested loops')
                if any(x[0] not in ('alloc', 'pw', 'free', 'set0') for x in e[1].body):
                    raise Unsupported('loop with %s' % ([x[0] for x in e[1].body][:4],))
                s.walk(e[1].body, e[1])
            elif e[0] == 'if':
                raise Unsupported('conditional effect under %s' % show(e[1]))
            else:
                s.event(e, loop)

    def ename(s, buf, loop):
        if loop is None:
            return buf, None
        if buf[0] == 'elem' and buf[-1] == P(loop.var):
            return ('each',) + buf[1:-1], loop.n
        if buf[0] == 'elem' and eq(buf[-1], loop.n - 1 - P(loop.var)) is True:
            return ('each',) + buf[1:-1], loop.n        # the same ones, backwards
        raise Unsupported('buffer of a loop %r' % (buf,))

    def event(s, e, loop):
        k = e[0]
        if k == 'alloc':
            nm, n = s.ename(e[1], loop)
            s.need(not (nm in s.reg and s.reg[nm].live), 'no live buffer is lost by allocating over it', 'leak')
            s.reg[nm] = Region(nm, e[2], True, {'calloc': 'zero', 'cntx': 'cntx'}.get(e[3], 'garbage'), n, e[3])
        elif k == 'pw':
            nm, n = s.ename(('elem',) + e[1] + (e[2],), loop)
            s.need(isinstance(e[3], Ptr) and nm in s.reg and s.ename(e[3].buf, loop)[0] == nm, 'pointer array holds the allocated buffers', 'mem val own free leak')
        elif k == 'free':
            p = e[1]
            if isinstance(p, Ptr) and p.buf[0] == 'null':
                return
            if not isinstance(p, Ptr) or p.off != ZERO:
                raise Unsupported('free of %r' % (p,))
            nm, n = s.ename(p.buf, loop)
            if loop is None and p.buf[0] == 'elem':
                raise Unsupported('free of one buffer of many')
            s.need(nm in s.reg, 'only allocated memory is freed', 'free')
            r = s.reg.get(nm)
            if r is None:
                return
            s.need(r.own, 'the caller\'s memory is not freed (%s)' % (nm[0],), 'free')
            s.need(r.live, 'nothing is freed twice', 'free')
            if r.count is not None:
                s.need(eq(r.count, n), 'all of the buffers are freed', 'leak free')
            r.live = False
        elif k == 'set0':
            nm, n = s.ename(e[1], loop)
            r = s.reg.get(nm)
            s.need(r is not None and r.live and r.own, 'only own live memory is cleared', 'own mem val')
            s.known(r, 'clearing')
            s.need(le(4 * P(e[3]), r.size), 'clearing stays inside', 'mem')
            if s.pr.prove(list(s.c.F), eq(4 * P(e[3]), r.size)) and e[2] == ZERO:
                r.content = 'zero'
        elif k == 'call':
            s.call(e[1], e[2])
        elif k in ('fs', 'r'):
            pass
        elif k == 'w':
            nm, n = e[1], None
            raise Unsupported('store to %r' % (e[1],))
        else:
            raise Unsupported('effect ' + k)

    def args(s, got, want, what):
        for n, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, Ptr):
                s.need(isinstance(g, Ptr) and g == w, '%s: argument %d' % (what, n))
            elif w is not None:
                s.need(eq(P(g), w), '%s: argument %d' % (what, n))

    def planned(s, x, cx, what):
        s.need(s.plan is not None and isinstance(x, Ptr) and x.buf == s.plan, '%s: uses the plan made' % what)
        s.known(s.plan, 'plan')
        s.need(s.reg[s.plan].live, '%s: plan is live' % what, 'mem val')
        s.need(isinstance(cx, Ptr) and cx.buf == s.cx, '%s: uses the context' % what)
        s.need(s.reg[s.cx].live, '%s: context is live' % what, 'mem val')

    def size(s, r, total, what):
        if r.own:
            s.need(le(4 * P(total), r.size), '%s: large enough' % what, 'mem')

    def known(s, r, what):
        if r is None:
            raise Unsupported('%s: unknown memory' % what)

    def defined(s, r, what):
        s.need(r.content != 'garbage', '%s: what it reads was written before' % what, 'mem')

    def call(s, f, v):
        c, S = s.c, sp.Spec(s.c) if s.c.sch != '2D' else None
        if f in ('init_block_dims', 'init_block_dims_2d'):
            M, N, K, p, x, cx, sch, argv, ts, a, b, d = v[:12]
            s.args([M, N, K, p], [c.M, c.N, c.K, c.p], f)
            s.args([ts], [P(4)], f + ': element size')
            s.args([a, b, d], s.sizes, f + ': tile sizes as given')
            if s.given is not None:
                s.args([sch], [s.given], f + ': schedule as given')
            s.need(isinstance(argv, Ptr) and argv.buf == ('argv',), f + ': argument vector')
            r = s.get(x, f)
            s.need(eq(r.size, fn('sizeof_blk_dims_t')), 'plan: large enough', 'mem')
            s.plan = x.buf
            s.get(cx, f)
            s.cx = cx.buf
            r.content = 'plan'
            return
        sch = P({'KMN': 0, 'MKN': 1, 'NKM': 2, '2D': 0}[c.sch])
        if f in ('pack_A', 'pack_B', 'pack_C', 'unpack_C'):
            src, dst, d1, d2, p, x, cx, sc = v
            s.planned(x, cx, f)
            s.args([d1, d2, p, sc], {'pack_A': [c.M, c.K, c.p, sch], 'pack_B': [c.K, c.N, c.p, sch]}.get(f, [c.M, c.N, c.p, sch]), f)
            rs, rd = s.get(src, f), s.get(dst, f)
            if f == 'pack_A':
                s.need(rs.name == ('A',) and not s.pa, 'pack_A packs the operand A', 'val own')
                s.need(rd.own, 'pack_A writes only own memory', 'own mem'); s.size(rd, S.A().total, 'packed A'); rd.content = 'packedA'
            elif f == 'pack_B':
                s.need(rs.name == ('B',) and not s.pb, 'pack_B packs the operand B', 'val own')
                s.need(rd.own, 'pack_B writes only own memory', 'own mem'); s.size(rd, S.B().total, 'packed B'); rd.content = 'packedB'
            elif f == 'pack_C':
                s.need(rs.name == ('C',) and rs.content == 'old', 'pack_C packs the old C', 'val own')
                s.need(rd.own, 'pack_C writes only own memory', 'own mem'); s.size(rd, S.C().total, 'packed C'); rd.content = 'packedC'
            else:
                s.need(rs.name == ('C',), 'unpack_C writes C', 'val own')
                s.need(rd.own, 'unpack_C reads the packed C', 'val mem'); s.size(rd, S.C().total, 'packed C')
                s.defined(rd, f)
                s.need(rd.content in ('prod', 'C+prod'), 'unpack_C follows the schedule', 'val')
                rs.content = rd.content
            return
        if f == 'schedule_KMN':
            a, b, C, Cp, M, N, K, p, cx, x = v
            s.planned(x, cx, f)
            s.need(c.sch == 'KMN', f + ': called for its own schedule')
            s.operands(f, a, b, M, N, K, p)
            s.partial(f, Cp)
            s.final(f, C)
        elif f in ('schedule_MKN', 'schedule_NKM'):
            a, b, Cp, M, N, K, p, cx, x = v
            s.planned(x, cx, f)
            s.need(f == 'schedule_' + c.sch, f + ': called for its own schedule')
            s.operands(f, a, b, M, N, K, p)
            r = s.get(Cp, f)
            s.need(r.own, f + ': accumulates in own memory', 'own val mem')
            s.size(r, S.C().total, 'packed C')
            s.defined(r, f)
            s.need(r.content in ('zero', 'packedC'), f + ': starts from zero or the packed C', 'val')
            r.content = 'prod' if r.content == 'zero' else 'C+prod'
        elif f in ('schedule_KMN_online', 'schedule_KMN_2d'):
            A, B, C, Ap, Bp, Cp, M, N, K, p, cx, x = v
            s.planned(x, cx, f)
            s.args([A, B, M, N, K, p], [Ptr(('A',)), Ptr(('B',)), c.M, c.N, c.K, c.p], f)
            s.need(c.sch == ('2D' if f.endswith('2d') else 'KMN'), f + ': plan of the right kind')
            if f.endswith('online'):
                ra = s.arr(Ap, f)
                s.need(le(c.p, ra.count), 'a block of A for every core', 'mem')
                s.need(le(4 * c.mc * c.kc, ra.size), 'block of A: large enough', 'mem')
                rb = s.get(Bp, f)
                s.need(le(4 * c.kc * c.nc, rb.size), 'block of B: large enough', 'mem')
            else:
                ra, rb = s.get(Ap, f), s.get(Bp, f)
                s.need(le(4 * c.pm * c.mc * c.kc, ra.size), 'blocks of A: large enough', 'mem')
                s.need(le(4 * c.pn * c.nc * c.kc, rb.size), 'blocks of B: large enough', 'mem')
            s.need(ra.own and rb.own, f + ': packs into own memory', 'own mem val')
            s.partial(f, Cp)
            s.final(f, C)
        else:
            raise Unsupported('call of ' + f)

    def operands(s, f, a, b, M, N, K, p):
        c, S = s.c, sp.Spec(s.c)
        s.args([M, N, K, p], [c.M, c.N, c.K, c.p], f)
        ra, rb = s.get(a, f), s.get(b, f)
        s.defined(ra, f); s.defined(rb, f)
        s.need(ra.content == 'packedA', f + ': gets the packed A', 'val')
        s.need(rb.content == 'packedB', f + ': gets the packed B', 'val')
        s.size(ra, S.A().total, 'packed A'); s.size(rb, S.B().total, 'packed B')

    def partial(s, f, Cp):
        c = s.c
        r = s.arr(Cp, f)
        s.need(r.own, f + ': accumulates in own memory', 'own val mem')
        s.need(le(c.p, r.count), f + ': a partial tile for every core', 'mem')
        s.need(le(4 * c.mc * c.nc, r.size), f + ': partial tiles large enough', 'mem')
        s.defined(r, f)
        s.need(r.content == 'zero', f + ': partial tiles start at zero', 'val')

    def final(s, f, C):
        r = s.get(C, f)
        s.need(r.name == ('C',), f + ': writes C', 'val own')
        r.content = 'prod'

    def end(s, want):
        s.need(s.reg[('C',)].content in want, 'C holds the result (%s)' % '/'.join(want), 'val')
        left = [r for r in s.reg.values() if r.own and r.live]
        s.need(not left, 'everything allocated is released', 'leak')


SCH, NA = {'KMN': 0, 'MKN': 1, 'NKM': 2}, 3


def one(sch_arg, ctx, r, api, sch, c, two, sizes, pa, pb, beta, own, alpha, tocase, kinds):
    """one combination of arguments"""
    pr = Prover()
    H = c.heap()
    def plan_fn(kind):
        def f(ex, v, st, tr):
            tr.append(('call', kind, tuple(v)))
            x = v[4]
            if not isinstance(x, Ptr):
                raise Unsupported('plan pointer')
            for k, val in H.items():
                if k[0] == ('x',):
                    st.heap[(x.buf, k[1])] = val
            return None
        return f
    def rec(n):
        def f(ex, v, st, tr):
            tr.append(('call', n, tuple(v)))
            return None
        return f
    def query(ex, v, st, tr):
        tr.append(('alloc', ('own',), ZERO, 'cntx'))
        for k, val in H.items():
            if k[0] == ('cntx',):
                st.heap[(('own',), k[1])] = val
        return Ptr(('own',))
    con = {n: rec(n) for n in CALLS}
    con.update({n: plan_fn(n) for n in PLAN_FNS})
    con['cake_query_cntx'] = query
    ex = Exec(ctx.prog, pr, con)
    args = [Ptr(('A',)), Ptr(('B',)), Ptr(('C',)), c.M, c.N, c.K, c.p, NULL if own else Ptr(('cntx',)), Ptr(('argv',)),
            P(pa), P(pb), P(alpha), P(beta), sch_arg] + sizes
    nm = '%s %s packedA=%d packedB=%d beta=%d own context=%d%s' % (api, c.name, pa, pb, beta, own, '' if sch_arg == V('sch_arg') or two else ' schedule %s' % ('left open' if sch_arg == P(NA) else 'given'))
    prot = Protocol(pr, c, api, None, None, None, pa, pb, beta, own, sizes, sch_arg if not two else None, kinds)
    try:
        try:
            tr, alts = ex.run(api, args, H, c.F)
        except NoReturn:
            raise Bad('it returns to its caller')
        for o in ex.obls:
            if o.status != 'proved':
                raise Bad('%s [%s]' % (o.name, o.where))
            r.obls.append(('%s: %s' % (nm, o.name), 'proved', ''))
        live = [a for a in alts if a.status != 'dead']
        if len(live) != 1 or live[0].c is not True:
            raise Unsupported('several ways through %s: %s' % (api, [(a.status, show(a.c)) for a in live][:3]))
        prot.walk(tr)
        prot.end(('prod',) if beta == 0 else ('C+prod',))
    except Bad as b:
        e = c.sample(random.Random(3))
        r.obls.append(('%s: %s' % (nm, b), 'refuted', ''))
        if e is not None:
            r.refuted.append(('%s: %s' % (nm, b), tocase(c, e, ctx.shapes, api={'cake_sgemm_online': 'online', 'cake_sgemm_2d': '2d'}.get(api, sch if sch_arg != P(NA) else 'NA'), pa=pa, pb=pb, beta=beta, reps=2, own=own)))
    for what, ok in prot.obls:
        if ok:
            r.obls.append(('%s: %s' % (nm, what), 'proved', ''))
    r.inlined |= ex.used_inline
    r.contracts |= ex.used_contracts
    r.externals |= ex.externals


def t_driver(ctx, r, api, sch, mp, kp, np_, betas=(0, 1), alpha=1, tocase=None, kinds=KINDS):
    """all combinations of packed operands, beta and own/caller's context for one case of the plan"""
    c = plan.Case(sch, mp, kp, np_)
    r.funcs.add(api)
    two = api in ('cake_sgemm_online', 'cake_sgemm_2d')
    sizes = [V('mcu'), V('kcu'), V('ncu')]
    for pa in (0, 1) if not two else (0,):
        for pb in (0, 1) if not two else (0,):
            for beta in betas:
                if beta and (two or sch == 'KMN'):
                    continue
                for own in (0, 1):
                    combo = (ctx, r, api, sch, c, two, sizes, pa, pb, beta, own, alpha, tocase, kinds)
                    mark = len(r.obls)
                    try:
                        one(V('sch_arg') if not two else P(0), *combo)
                    except Unsupported as u:
                        if two or 'sch_arg' not in str(u):
                            raise
                        # the function looks at the schedule asked for: the plan's own, or none
                        # (init_block_dims keeps an explicit schedule: contract of set_schedule, C20)
                        del r.obls[mark:]
                        for v in (SCH[sch], NA):
                            one(P(v), *combo)
