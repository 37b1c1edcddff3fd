"""Symbolic execution of the staged C functions into a structured trace, with every loop summarised for an arbitrary
number of iterations (counters and accumulators get closed forms that are themselves derived, by induction, from one
symbolic execution of the body from an arbitrary iteration)."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as T
from .cfront import Unsupported, NoReturn, S, E


class Split(Exception):
    """(only where asked for) a branch outside loops whose way is open: the caller runs again once for each"""
    def __init__(s, c):
        Exception.__init__(s, 'split')
        s.c = c


class Ptr:
    __slots__ = ('buf', 'off')
    def __init__(s, buf, off=ZERO):
        s.buf, s.off = buf, off
    def __eq__(s, o):
        return isinstance(o, Ptr) and s.buf == o.buf and s.off == o.off
    def __hash__(s):
        return hash((s.buf, s.off))
    def __repr__(s):
        return '%s+%s' % (s.buf, show(s.off))


class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b
    def __eq__(s, o):
        return isinstance(o, PIte) and (s.c, s.a, s.b) == (o.c, o.a, o.b)
    def __hash__(s):
        return hash((s.c, s.a, s.b))
    def __repr__(s):
        return '(%s?%s:%s)' % (show(s.c), s.a, s.b)


NULL = Ptr(('null',))


class LRef:
    """address of a local variable / array cell / struct field"""
    def __init__(s, key):
        s.key = key
    def __eq__(s, o):
        return isinstance(o, LRef) and s.key == o.key
    def __hash__(s):
        return hash(s.key)


class Vec:
    __slots__ = ('l',)
    def __init__(s, l):
        s.l = tuple(l)
    def __eq__(s, o):
        return isinstance(o, Vec) and s.l == o.l
    def __hash__(s):
        return hash(s.l)


class Str:
    def __init__(s, v):
        s.v = v
    def __eq__(s, o):
        return isinstance(o, Str) and s.v == o.v
    def __hash__(s):
        return hash(s.v)


class Fn:
    def __init__(s, n):
        s.n = n


UNDEF = 'undef'


class Loop:
    def __init__(s, var, n, body, par, name, pos=None):
        s.var, s.n, s.body, s.par, s.name, s.pos = var, n, body, par, name, pos
        s.outer_pos = None


class St:
    __slots__ = ('env', 'heap', 'facts', 'wrote')
    def __init__(s, env, heap, facts, wrote):
        s.env, s.heap, s.facts, s.wrote = env, heap, facts, wrote
    def copy(s):
        return St(dict(s.env), dict(s.heap), list(s.facts), dict(s.wrote))


class Alt:
    __slots__ = ('c', 'status', 'st', 'ret')
    def __init__(s, c, status, st, ret=None):
        s.c, s.status, s.st, s.ret = c, status, st, ret


class NotAffine(Unsupported):
    pass


def nob_tr(keep):
    return keep[1]


def lead_break(body):
    """(condition, rest) if all the loop body does first is to test whether to break"""
    l = body.a[0] if body.k == 'block' else [body]
    if not l or l[0].k != 'if' or assigned(l[0].a[0]):
        return None
    c, a, b = l[0].a
    def only_break(y):
        return y.k == 'break' or (y.k == 'block' and len(y.a[0]) == 1 and only_break(y.a[0][0]))
    if not only_break(a):
        return None
    return c, S('block', ([] if b.k == 'null' else [b]) + list(l[1:]))


def tail_break(body):
    """likewise for a loop body that ends in the test"""
    if body.k != 'block' or not body.a[0]:
        return None
    r = lead_break(S('block', [body.a[0][-1]]))
    if r is None or r[1].a[0]:
        return None
    return r[0], S('block', list(body.a[0][:-1]))


def declared(x, out=None):
    out = set() if out is None else out
    if isinstance(x, S):
        if x.k == 'decl':
            out.add(x.a[0])
        for y in x.a:
            declared(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            declared(y, out)
    return out


def has_break(x):
    """break at the level of this loop"""
    if not isinstance(x, S):
        return False
    if x.k == 'break':
        return True
    if x.k in ('for', 'do', 'switch'):
        return False
    def deep(y):
        if isinstance(y, S):
            return has_break(y)
        if isinstance(y, (list, tuple)):
            return any(deep(z) for z in y)
        return False
    return deep(x.a)


def strip(tr):
    for e in tr:
        if e[0] == 'if':
            yield from strip(e[2])
        elif e[0] == 'loop':
            yield from strip(e[1].body)
        else:
            yield e


class Reindex(Exception):
    def __init__(s, tid, c, rev_when):
        s.tid, s.c, s.rev_when = tid, c, rev_when


class Obl:
    def __init__(s, name, facts, goal, status, how='', where=''):
        s.name, s.facts, s.goal, s.status, s.how, s.where = name, facts, goal, status, how, where


IGNORED = {'clock_gettime', 'printf', 'fprintf', 'fflush', 'sprintf', 'puts', 'omp_set_num_threads', 'putchar', 'print_schedule', 'snprintf'}


def tsubst(v, s):
    """substitution in any value"""
    if isinstance(v, Poly):
        return subst(v, s)
    if isinstance(v, bool):
        return v
    if isinstance(v, Ptr):
        return Ptr(tuple(subst(x, s) if isinstance(x, Poly) else x for x in v.buf), subst(v.off, s))
    if isinstance(v, PIte):
        c = subst(v.c, s)
        return tsubst(v.a, s) if c is True else tsubst(v.b, s) if c is False else PIte(c, tsubst(v.a, s), tsubst(v.b, s))
    if isinstance(v, Vec):
        return Vec([subst(x, s) for x in v.l])
    if isinstance(v, tuple) and T.is_cond(v):
        return subst(v, s)
    return v


def tvs(v):
    if isinstance(v, Poly):
        return v.vs()
    if isinstance(v, Ptr):
        r = v.off.vs()
        for x in v.buf:
            if isinstance(x, Poly):
                r |= x.vs()
        return r
    if isinstance(v, PIte):
        return cvs(v.c) | tvs(v.a) | tvs(v.b)
    if isinstance(v, Vec):
        r = frozenset()
        for x in v.l:
            r |= x.vs()
        return r
    if isinstance(v, tuple) and T.is_cond(v):
        return cvs(v)
    return frozenset()


_prog = [None]
_unused = {}


def unused_param(name, n):
    """the called function has a body that never mentions its n-th parameter"""
    f = _prog[0].funcs.get(name) if _prog[0] is not None else None
    if f is None or f.body is None or n >= len(f.params):
        return False
    key = (id(f), n)
    if key not in _unused:
        pid = f.params[n][0]
        found = False
        stack = [f.body]
        while stack and not found:
            x = stack.pop()
            if isinstance(x, E):
                if x.k == 'var' and x.a[0] == pid:
                    found = True
                stack.append(x.a)
            elif isinstance(x, S):
                stack.append(x.a)
            elif isinstance(x, (list, tuple)):
                stack += list(x)
            elif isinstance(x, dict):
                stack += list(x.values())
        _unused[key] = not found
    return _unused[key]


def assigned(s, out=None, decl=None):
    """ids of the scalar variables assigned in a statement and not declared in it"""
    out = set() if out is None else out
    decl = set() if decl is None else decl
    def ex(e):
        if not isinstance(e, E):
            return
        if e.k == 'asg':
            lv(e.a[1]); ex(e.a[1]); ex(e.a[2]); return
        if e.k == 'inc':
            lv(e.a[2]); ex(e.a[2]); return
        if e.k == 'un' and e.a[0] == '&' and e.a[1].k == 'var':
            return
        if e.k == 'call':
            ex(e.a[0])
            for n, x in enumerate(e.a[1]):
                ex(x)
                if e.a[0].k == 'fref' and unused_param(e.a[0].a[0], n):
                    continue
                if x.k == 'un' and x.a[0] == '&' and x.a[1].k == 'var' and x.a[1].t in ('int', 'float', 'double', 'ptr'):
                    out.add((x.a[1].a[0], '&', x.a[1].a[1]))
            return
        for x in e.a if isinstance(e.a, (tuple, list)) else ():
            if isinstance(x, E):
                ex(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    ex(y)
    def lv(e):
        if e.k == 'var':
            out.add((e.a[0], e.t, e.a[1]))
        elif e.k == 'idx' and e.a[0].k == 'var':
            out.add((e.a[0].a[0], 'elem', e.a[0].a[1]))
    def st(s):
        if s is None:
            return
        k = s.k
        if k == 'block':
            for x in s.a[0]:
                st(x)
        elif k == 'decl':
            decl.add(s.a[0])
            if s.a[3] is not None:
                ex(s.a[3])
        elif k == 'expr':
            ex(s.a[0])
        elif k == 'if':
            ex(s.a[0]); st(s.a[1]); st(s.a[2])
        elif k == 'for':
            st(s.a[0]); ex(s.a[1]) if s.a[1] else None; ex(s.a[2]) if s.a[2] else None; st(s.a[3])
        elif k == 'do':
            st(s.a[0]); ex(s.a[1])
        elif k == 'return':
            ex(s.a[0]) if s.a[0] else None
        elif k == 'switch':
            ex(s.a[0])
            for _v, l in s.a[1]:
                for x in l:
                    st(x)
    if isinstance(s, E):
        ex(s)
    else:
        st(s)
    return {x for x in out if x[0] not in decl}


class Exec:
    def __init__(s, prog, prover, contracts=None, consts=None, inline=True, trust=None):
        s.prog, s.pr, s.contracts = prog, prover, contracts or {}
        _prog[0] = prog
        s.obls, s.dry, s.depth, s.fname = [], 0, 0, []
        s.used_contracts, s.used_inline, s.externals = set(), set(), set()
        s.nheap = 0
        s.clock, s.lastwrite = 1, 0      # versions of memory: loads of one address between writes give one value
        s.hooks = {}
        s.notes = set()
        s.track_reads = True
        s.split = 0
        s.flags = False             # loop-carried flags as sums of conditions
        s.nan = False               # comparisons of floating-point values may meet NaN: kept as they are
        s.opaque_arrays = False     # contents of local arrays (text) are unknowns
        s.abstract, s.absfacts = None, []      # real values: conversions and comparisons as unknowns
        s.base_facts, s.exported, s.found_facts = set(), [], []
        s.foralls, s.insts = [], []           # searches made: (iteration, found at, not found before); instances wanted
        s.naming, s.named, s.nameof, s.namefacts = None, [], {}, []          # (units, upper bounds): values chosen by cases get a name before they are divided
        s.hints, s.envs = [], []      # terms that may be the value of a quotient; sample values of the parameters

    def wrote(s, st, buf):
        st.wrote[('any', buf)] = 1
        s.clock += 1
        s.lastwrite = s.clock

    # -------------------------------------------------------------- obligations
    def oblige(s, st, goal, name, line=''):
        if s.dry:
            return
        if goal is True:
            s.obls.append(Obl(name, (), True, 'proved', '', s.where()))
            return
        ok = goal is not False and s.pr.prove(st.facts, goal)
        s.obls.append(Obl(name, tuple(st.facts), goal, 'proved' if ok else 'failed', '', s.where()))

    def structural(s, ok, name):
        if not s.dry:
            s.obls.append(Obl(name, (), bool(ok), 'proved' if ok else 'refuted', 'structural', s.where()))

    def where(s):
        return '/'.join(s.fname)

    # -------------------------------------------------------------- running a function
    def run(s, fname, args, heap=None, facts=(), trace=None):
        f = s.prog.funcs.get(fname)
        if f is None or f.body is None:
            raise Unsupported('no body for %s %s' % (fname, s.prog.unsupported.get(fname, '')))
        env = {}
        for (i, n, c), a in zip(f.params, args):
            env[i] = a
        st = St(env, dict(heap or {}), list(facts), {})
        s.base_facts = set(facts)
        tr = [] if trace is None else trace
        s.fname.append(fname)
        alts = s.stmts([f.body], st, tr)
        s.fname.pop()
        return tr, alts

    def inline_call(s, f, args, st, tr):
        if len(s.fname) > 12:
            raise Unsupported('call depth')
        env = {}
        for (i, n, c), a in zip(f.params, args):
            env[i] = a
        st2 = St(env, st.heap, list(st.facts), st.wrote)
        st2.env['$up'] = st.env
        s.fname.append(f.name)
        alts = s.stmts([f.body], st2, tr)
        s.fname.pop()
        live = [a for a in alts if a.status in ('norm', 'ret')]
        if not live:
            raise NoReturn('call that never returns')
        m, ret, c = s.merge(live, st2.facts)
        nh = dict(m.heap)
        st.heap.clear(); st.heap.update(nh)
        st.wrote = m.wrote
        have = set(st.facts)
        for x in m.facts + ([c] if c is not True else []):
            if x not in have:
                have.add(x); st.facts.append(x)
        return ret

    # -------------------------------------------------------------- statements
    def stmts(s, lst, st, tr):
        out, cur, cc = [], st, True
        base = list(st.facts)
        for x in lst:
            sub = tr if cc is True else []
            alts = s.stmt(x, cur, sub)
            if sub is not tr and sub:
                tr.append(('if', cc, sub))
            norm = [a for a in alts if a.status == 'norm']
            for a in alts:
                if a.status != 'norm':
                    out.append(Alt(conj(cc, a.c), a.status, a.st, a.ret))
            if not norm:
                return out
            if len(norm) == 1:
                cur = norm[0].st; cc = conj(cc, norm[0].c)
                if norm[0].c is not True and norm[0].c not in cur.facts:
                    cur.facts.append(norm[0].c)
            else:
                cur, _r, c = s.merge(norm, cur.facts if False else base0(cur))
                cc = conj(cc, c)
        out.append(Alt(cc, 'norm', cur))
        return out

    def merge(s, alts, facts):
        """one state out of several alternatives with exclusive conditions"""
        if len(alts) == 1:
            a = alts[0]
            return a.st, a.ret, a.c
        st = alts[-1].st; ret = alts[-1].ret
        c = alts[-1].c
        for a in reversed(alts[:-1]):
            cond = a.c
            env = {}
            for k in st.env.keys() | a.st.env.keys():
                if k == '$up':
                    env[k] = a.st.env[k]; continue
                env[k] = s.mval(cond, a.st.env.get(k, UNDEF), st.env.get(k, UNDEF))
            heap = {}
            for k in st.heap.keys() | a.st.heap.keys():
                heap[k] = s.mval(cond, a.st.heap.get(k, UNDEF), st.heap.get(k, UNDEF))
            wr = dict(st.wrote); 
            for k, v in a.st.wrote.items():
                wr[k] = max(wr.get(k, 0), v)
            common = [f for f in a.st.facts if f in set(st.facts)]
            common += [f for f in s.namefacts if f not in common]
            st = St(env, heap, common, wr)
            if ret is not None or a.ret is not None:
                ret = s.mval(cond, a.ret, ret)
            c = disj(c, cond)
        if c is not True:
            st.facts = st.facts + [c]
        return st, ret, c

    def mval(s, c, a, b):
        if a is UNDEF or a is None:
            return b
        if b is UNDEF or b is None:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return merge_ites(ite(c, a, b))
        if type(a) == type(b) and a == b:
            return a
        if is_c(a) or is_c(b):
            if is_c(a) and is_c(b):
                return citec(c, a, b)
            return merge_ites(ite(c, topoly(a), topoly(b)))
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf == b.buf:
                return Ptr(a.buf, ite(c, a.off, b.off))
            return PIte(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec([ite(c, x, y) for x, y in zip(a.l, b.l)])
        return UNDEF

    def stmt(s, x, st, tr):
        k = x.k
        if k == 'block':
            return s.stmts(x.a[0], st, tr)
        if k == 'null':
            return [Alt(True, 'norm', st)]
        if k == 'decl':
            i, n, c, init, q = x.a
            if '[' in q:
                dim = q[q.index('[') + 1:q.index(']')]
                if not dim.isdigit():
                    if init is not None:
                        raise Unsupported('array initialiser')
                    st.env[i] = Ptr(('larr', n))
                    return [Alt(True, 'norm', st)]
                st.env[i] = ('arr', i, int(dim))
                for kk in [kk for kk in st.env if isinstance(kk, tuple) and kk[0] == 'cell' and kk[1] == i]:
                    del st.env[kk]
                if init is not None and init.k == 'init':
                    for j, e in enumerate(init.a):
                        st.env[('cell', i, j)] = s.ev(e, st, tr)
                elif init is not None and init.k != 'str':
                    raise Unsupported('array initialiser')
            elif init is None:
                st.env[i] = UNDEF
            else:
                v = s.ev(init, st, tr)
                st.env[i] = s.setv(v, c, st)
            return [Alt(True, 'norm', st)]
        if k == 'expr':
            v = s.ev(x.a[0], st, tr, drop=True)
            if v == 'DEAD':
                return [Alt(True, 'dead', st)]
            return [Alt(True, 'norm', st)]
        if k == 'return':
            v = s.ev(x.a[0], st, tr) if x.a[0] is not None else None
            return [Alt(True, 'ret', st, v)]
        if k == 'break':
            return [Alt(True, 'brk', st)]
        if k == 'continue':
            return [Alt(True, 'cont', st)]
        if k == 'if':
            return s.do_if(x.a[0], [x.a[1]], [x.a[2]], st, tr)
        if k == 'switch':
            return s.do_switch(x, st, tr)
        if k == 'do':
            return s.do_while(x.a[0], x.a[1], st, tr)
        if k == 'for':
            return s.do_for(x, st, tr)
        raise Unsupported('statement ' + k)

    def do_if(s, cond, A, B, st, tr):
        c = cond if is_c(cond) else s.cond(cond, st, tr)
        d = s.pr.decide(st.facts, c)
        if d is not None:
            return s.stmts(A if d else B, st, tr)
        if s.split and not s.dry and not s.inloop():
            raise Split(c)
        t1, t2 = [], []
        sa, sb = st.copy(), st.copy()
        sa.facts.append(c); sb.facts.append(neg(c))
        aa = s.stmts(A, sa, t1); bb = s.stmts(B, sb, t2)
        if t1:
            tr.append(('if', c, t1))
        if t2:
            tr.append(('if', neg(c), t2))
        alts = [Alt(conj(c, a.c), a.status, a.st, a.ret) for a in aa] + [Alt(conj(neg(c), a.c), a.status, a.st, a.ret) for a in bb]
        return s.join(alts, st)

    def join(s, alts, st):
        """merge alternatives of equal status"""
        out = []
        for status in ('norm', 'cont', 'brk', 'ret', 'dead'):
            g = [a for a in alts if a.status == status]
            if not g:
                continue
            if len(g) == 1 or status == 'dead':
                if status == 'dead':
                    out.append(Alt(disj(*[a.c for a in g]), 'dead', g[0].st)); continue
                out += g; continue
            m, ret, c = s.merge(g, st.facts)
            if c is True or s.covers(g):
                c = True
                m.facts = [f for f in m.facts if not (isinstance(f, tuple) and f[0] == 'or' and f == disj(*[a.c for a in g]))]
            out.append(Alt(c, status, m, ret))
        live = [a for a in out if a.status != 'dead']
        if len(live) == 1 and len(out) > 1:
            # the other paths end the program
            pass
        return out

    def covers(s, g):
        return disj(*[a.c for a in g]) is True

    def do_switch(s, x, st, tr):
        v = s.ev(x.a[0], st, tr)
        groups = x.a[1]
        vals = []
        for vs, _l in groups:
            if vs is not None:
                vals += [s.ev(e, st, tr) for e in vs if e is not None]
        def body(i):
            out = []
            for _vs, l in groups[i:]:
                out += l
            return out
        def chain(order, st, tr):
            if not order:
                return [Alt(True, 'norm', st)]
            i = order[0]
            vs = groups[i][0]
            if vs is None or None in vs:
                alts = s.stmts(body(i), st, tr)
            else:
                c = disj(*[eq(v, s.ev(e, st, tr)) for e in vs])
                d = s.pr.decide(st.facts, c)
                if d is True:
                    alts = s.stmts(body(i), st, tr)
                elif d is False:
                    return chain(order[1:], st, tr)
                else:
                    if s.split and not s.dry and not s.inloop():
                        raise Split(c)
                    t1, t2 = [], []
                    sa, sb = st.copy(), st.copy()
                    sa.facts.append(c); sb.facts.append(neg(c))
                    aa = s.stmts(body(i), sa, t1); bb = chain(order[1:], sb, t2)
                    aa = [Alt(a.c, 'norm' if a.status == 'brk' else a.status, a.st, a.ret) for a in aa]
                    if t1:
                        tr.append(('if', c, t1))
                    if t2:
                        tr.append(('if', neg(c), t2))
                    return s.join([Alt(conj(c, a.c), a.status, a.st, a.ret) for a in aa] + [Alt(conj(neg(c), a.c), a.status, a.st, a.ret) for a in bb], st)
            return [Alt(a.c, 'norm' if a.status == 'brk' else a.status, a.st, a.ret) for a in alts]
        order = [i for i, g in enumerate(groups) if g[0] is not None and None not in g[0]] + [i for i, g in enumerate(groups) if g[0] is not None and None in g[0]]
        return s.join(chain(order, st, tr), st)

    # -------------------------------------------------------------- loops
    def do_for(s, x, st, tr):
        init, cond, inc, body, omp = x.a
        if init.k != 'null':
            a = s.stmts([init], st, tr)
            if len(a) != 1:
                raise Unsupported('loop init')
            st = a[0].st
        if cond is None or (omp is None and has_break(body)):
            keep, nt, nob = st.copy(), len(tr), len(s.obls)
            try:
                return s.search_loop(cond, inc, body, st, tr)
            except Unsupported as e:
                # the same loop without its break, if that is easy to see
                if omp is not None:
                    raise
                del tr[nt:], s.obls[nob:]
                no = lambda c: E('un', ('!', c), 'int')
                r = lead_break(body)
                if r is not None:
                    c = no(r[0]) if cond is None else E('bin', ('&&', cond, no(r[0])), 'int')
                    return s.do_for(S('for', S('null'), c, inc, r[1], None), keep, tr)
                r = tail_break(body)
                if r is not None and inc is None and (cond is None or (cond.k == 'num' and cond.a[0])):
                    return s.do_while(r[1], no(r[0]), keep, tr)
                raise e
        mods = assigned(body) | (assigned(inc) if inc is not None else set()) | assigned(cond)
        ids = {}
        for i, t, n in mods:
            if t == 'elem' and not (isinstance(s.look(st, i), tuple) and s.look(st, i)[0] == 'arr'):
                continue        # store through a pointer, not a scalar
            ids.setdefault(i, n)
        # loop counter
        incs = s.incs(inc) if inc is not None else {}
        bodymods = {i for i, t, n in assigned(body)}
        counters = {i: e for i, e in incs.items() if i not in bodymods}
        if omp is not None:
            if len(counters) != 1:
                raise Unsupported('omp loop counter')
            cid = next(iter(counters))
            priv = set(omp['private']) | {cid}
            for i, n in ids.items():
                if i not in priv:
                    s.structural(False, 'race: shared variable %s is written inside a parallel loop' % n)
            for i in set(omp['private']) - {cid}:
                st.env[i] = UNDEF
        keep, nob = (st.copy(), len(tr)), len(s.obls)
        try:
            return s.loop(st, tr, cond, inc, body, omp, ids, counters, x)
        except NotAffine as e:
            if omp is not None:
                raise Unsupported(str(e))
            del tr[nob_tr(keep):], s.obls[nob:]
            return s.search_loop(cond, inc, body, keep[0], tr)

    def do_while(s, body, cond, st, tr):
        """do body while (cond), where the condition is known to hold before: while (cond) body"""
        if evars(cond) & declared(body) or assigned(cond):
            raise Unsupported('do-while condition')
        s.dry += 1
        try:
            c = s.cond(cond, st.copy(), [])
        finally:
            s.dry -= 1
        if c is not True and not s.pr.prove(st.facts, c):
            raise Unsupported('do-while whose condition may not hold at first')
        return s.do_for(S('for', S('null'), cond, None, body, None), st, tr)

    def search_loop(s, cond, inc, body, st, tr):
        """a loop that looks for something: it may leave by break or by a condition that is not affine in the iteration.
        Nothing else may happen in it.  The iteration it leaves at is an unknown, with: it holds there, it did not before."""
        mods = assigned(body) | (assigned(inc) if inc is not None else set()) | (assigned(cond) if cond is not None else set())
        ids = {i: n for i, t, n in mods}
        t = fresh('look'); tid = t.single().id
        ent = {i: s.look(st, i) for i in ids}
        hs = {i: fresh('h') for i in ids if isinstance(ent[i], Poly)}
        def once(heads, extra):
            b = st.copy()
            b.env.update(heads)
            b.facts = b.facts + [le(0, t)] + extra
            sub = []
            c = s.cond(cond, b, sub) if cond is not None else True
            outs = [('out', neg(c), b.copy())] if c is not True else []
            if c is not False:
                b2 = b.copy()
                if c is not True:
                    b2.facts.append(c)
                for a in s.stmts([body], b2, sub):
                    if a.status in ('norm', 'cont'):
                        if inc is not None:
                            s.ev(inc, a.st, sub, drop=True)
                        outs.append(('next', conj(c, a.c), a.st))
                    elif a.status == 'brk':
                        outs.append(('out', conj(c, a.c), a.st))
                    elif a.status != 'dead':
                        raise Unsupported('%s inside a search loop' % a.status)
            if any(e[0] != 'r' for e in strip(sub)):
                raise Unsupported('effects inside a search loop')
            return outs
        s.dry += 1
        try:
            outs = once({i: hs.get(i, UNDEF) for i in ids}, [])
        finally:
            s.dry -= 1
        closed = {}
        for i in ids:
            if i not in hs:
                closed[i] = UNDEF; continue
            vals = {a.env.get(i) for k, _c, a in outs if k == 'next'}
            ds = {v - hs[i] if isinstance(v, Poly) else None for v in vals}
            if not ds:
                closed[i] = ent[i]; continue
            d = next(iter(ds))
            if len(ds) > 1 or d is None or d.vs() & {h.single().id for h in hs.values()}:
                raise Unsupported('search loop changes %s irregularly' % ids[i])
            closed[i] = ent[i] + d * t
        for k, _c, a in outs:
            for kk in a.heap:
                if a.heap[kk] is not st.heap.get(kk) and a.heap[kk] != st.heap.get(kk):
                    raise Unsupported('search loop changes a field')
        def holds(B, w):
            return s.pr.prove(st.facts, conj(le(0, w), subst(B, {tid: w})))
        # does it always end?  (then no iteration after the one where it surely does is ever made)
        s.dry += 1
        try:
            o = [c for k, c, a in once(closed, []) if k == 'out']
        finally:
            s.dry -= 1
        last = next((w for w in s.exits(ent, closed, t, cond, st) if holds(disj(*o), w)), None) if o else None
        outs = once(closed, [le(t, last)] if last is not None else [])
        out = [(c, a) for k, c, a in outs if k == 'out']
        if not out:
            raise Unsupported('endless loop')
        B = disj(*[c for c, _a in out])
        e = fresh('found')
        ends = last is not None
        if not ends:
            s.oblige(st, False, 'the search ends')
        sub = {tid: e}
        s.foralls.append((t, e, neg(B)))
        facts = st.facts + [le(0, e), subst(B, sub)] + ([le(e, last)] if ends else [])
        for w in s.insts:
            if isinstance(w, Poly):
                # not found before: instances at the places of interest
                for i in ids:
                    if i in hs and tid in tvs(closed[i]):
                        d = closed[i] - ent[i]
                        stp = exact_div(d, t)
                        for wv in (w, w - 1):
                            at_ = exact_div(wv - ent[i], stp) if stp is not None else None
                            if at_ is not None:
                                facts.append(disj(lt(at_, 0), ge(at_, e), subst(neg(B), {tid: at_})))
        if not s.dry:
            # (what an earlier search exported follows from a part of the same path)
            path = [f for f in st.facts if f not in s.base_facts and f not in s.found_facts]
            for f in facts[len(st.facts):]:
                s.exported.append(disj(*[neg(q) for q in path], f))
                s.found_facts.append(f)
        alts = []
        for c, a in out:
            n = St({k: tsubst(v, sub) for k, v in a.env.items() if k != '$up'}, dict(a.heap), list(facts), dict(st.wrote))
            if '$up' in st.env:
                n.env['$up'] = st.env['$up']
            n.facts.append(subst(c, sub))
            alts.append(Alt(subst(c, sub), 'norm', n))
        if len(alts) == 1:
            s.found_facts += [f for f in alts[0].st.facts if f not in facts] if not s.dry else []
            alts[0].c = True
            return alts
        m, _r, c = s.merge(alts, st.facts)
        m.facts = list(facts)
        return [Alt(True, 'norm', m)]

    def exits(s, ent, closed, t, cond, st):
        """iterations at which a search may be known to succeed"""
        out = [ZERO]
        for i, c in closed.items():
            if isinstance(c, Poly) and t.single().id in c.vs():
                stp = exact_div(c - ent[i], t)
                if stp is not None and stp.const() in (1, -1):
                    for w in list(s.insts) + [ONE, ZERO]:
                        if isinstance(w, Poly):
                            for d in (0, -1, 1):
                                out.append((w + d - ent[i]) * int(stp.const()))
        return out

    def incs(s, e):
        """{var id: step expression}"""
        if e.k == 'bin' and e.a[0] == ',':
            d = s.incs(e.a[1]); d.update(s.incs(e.a[2])); return d
        if e.k == 'inc' and e.a[2].k == 'var':
            return {e.a[2].a[0]: E('num', (1 if e.a[0] == '++' else -1,), 'int')}
        if e.k == 'asg' and e.a[1].k == 'var':
            i = e.a[1].a[0]
            if e.a[0] == '+':
                return {i: e.a[2]}
            if e.a[0] == '-':
                return {i: E('un', ('-', e.a[2]), 'int')}
            if e.a[0] is None and e.a[2].k == 'bin' and e.a[2].a[0] in '+-':
                op, a, b = e.a[2].a
                if a.k == 'var' and a.a[0] == i:
                    return {i: b if op == '+' else E('un', ('-', b), 'int')}
                if op == '+' and b.k == 'var' and b.a[0] == i:
                    return {i: a}
        return {}

    def look(s, st, i):
        if i in st.env:
            return st.env[i]
        return None

    def trip(s, st, c, tid, t):
        """iterations of a loop whose condition at iteration t is c"""
        lits = c[1] if isinstance(c, tuple) and c[0] == 'and' else (c,)
        if c is True:
            raise NotAffine('endless loop')
        if c is False:
            return ZERO
        ns = []
        for l in lits:
            if l is True:
                continue
            if l[0] not in ('le', 'ne'):
                raise NotAffine('loop condition ' + show(l))
            p = l[1]
            if hasite(p):
                it = s.pr._fi(p)
                if it is not None and tid not in cvs(it):
                    pa, pb = assume(l, it), assume(l, neg(it))
                    fa = St(st.env, st.heap, st.facts + [it], st.wrote); fb = St(st.env, st.heap, st.facts + [neg(it)], st.wrote)
                    na, nb = s.trip(fa, pa, tid, t), s.trip(fb, pb, tid, t)
                    if na == nb or s.pr.quick(st.facts, eq(na, nb)):
                        ns.append(nb if not hasite(nb) else na)
                    else:
                        ns.append(ite(it, na, nb))
                    continue
            al, be = ZERO, ZERO
            for k, v in p.m.items():
                n = sum(1 for i in k if i == tid)
                if n == 0:
                    if any(tid in T.get(i).vs for i in k):
                        raise NotAffine('loop condition ' + show(l))
                    al = al + Poly({k: v})
                elif n == 1:
                    kk = list(k); kk.remove(tid)
                    be = be + Poly({tuple(kk): v})
                else:
                    raise NotAffine('loop condition ' + show(l))
            if not be.m:
                raise NotAffine('loop condition does not change: ' + show(l))
            if l[0] == 'ne':
                # al + be*t != 0 : t != -al/be
                n = exact_div(-al, be)
                if n is None:
                    raise NotAffine('!= loop')
                s.oblige(st, le(0, n), 'loop terminates (%s)' % show(l))
                ns.append(n)
                continue
            if be.const() is not None and be.const() < 0:
                raise Unsupported('loop condition direction ' + show(l))
            if be.const() is None:
                s.oblige(st, gt(be, 0), 'loop step positive')
            X = 1 - al
            n = exact_div(X, be)
            if n is None:
                q, r = pdivmod(X, be)
                if q.m and s.pr.quick(st.facts, le(1, r)) and s.pr.quick(st.facts, le(r, be)):
                    n = q + 1
                elif q.m and s.pr.quick(st.facts, le(1, r + be)) and s.pr.quick(st.facts, le(r, 0)):
                    n = q
                else:
                    n = div(X + be - 1, be)
            if not s.pr.quick(st.facts, le(0, n)):
                # could be negative
                n = maxp(n, 0)
            ns.append(n)
        r = ns[0]
        for n in ns[1:]:
            r = minp(r, n)
        return r

    def loop(s, st, tr, cond, inc, body, omp, ids, counters, x):
        name = next(iter(ids.values())) if ids else 'it'
        for i in counters:
            name = ids[i]
        t = fresh(name); tid = t.single().id
        entry = {i: s.look(st, i) for i in ids}
        # step values
        steps = {}
        for i, e in counters.items():
            if assigned(e):
                raise Unsupported('loop step')
            sv = s.ev(e, st, [])
            if any(v in ids for v in evars(e)):
                raise Unsupported('loop step changes')
            steps[i] = sv
        def headenv(h):
            b = st.copy()
            b.env.update(h)
            return b
        heads = {}
        hsym = {}
        pos = None
        reidx = None
        for i in ids:
            v0 = entry[i]
            if i in counters:
                if isinstance(v0, Ptr):
                    heads[i] = Ptr(v0.buf, v0.off + steps[i] * t)
                elif isinstance(v0, Poly):
                    heads[i] = merge_ites(v0 + steps[i] * t)
                else:
                    raise Unsupported('loop counter without a start value')
        others = [i for i in ids if i not in counters]
        cells = {}
        def mkhead(i, v0):
            if isinstance(v0, Poly):
                h = fresh('h'); hsym[h.single().id] = i
                return h
            if is_c(v0):
                h = fresh('h'); hsym[h.single().id] = i
                return h
            if isinstance(v0, Ptr):
                h = fresh('h'); hsym[h.single().id] = i
                return Ptr(v0.buf, h)
            if isinstance(v0, Vec):
                l = []
                for _ in v0.l:
                    h = fresh('h'); hsym[h.single().id] = i; l.append(h)
                return Vec(l)
            return UNDEF
        # local array cells
        arrs = [i for i in others if isinstance(entry[i], tuple) and entry[i][0] == 'arr']
        others = [i for i in others if i not in arrs]
        cellkeys = [k for k in st.env if isinstance(k, tuple) and k[0] == 'cell' and k[1] in arrs]
        heapkeys = []      # struct fields assigned in the loop are found by running the body
        keys = others + cellkeys
        v0s = {k: st.env.get(k, UNDEF) for k in keys}
        closed = {}
        need = {k: v0s[k] for k in keys}
        if keys:
            h1 = dict(heads)
            for k in keys:
                h1[k] = mkhead(k, v0s[k])
            b = headenv(h1)
            # trip count may not depend on the heads
            s.dry += 1
            try:
                c = s.cond(cond, b, [])
                b.facts = b.facts + [le(0, t)] + ([c] if c is not True else [])
                alts = s.stmts([body], b, [])
                e = s.endstate(alts, b)
                if inc is not None:
                    s.ev(inc, e, [], drop=True)
            finally:
                s.dry -= 1
            post = {k: e.env.get(k, UNDEF) for k in keys}
            pend = set(keys)
            hs = set(hsym)
            done = {}     # head symbol id -> closed form
            for _round in range(len(keys) + 1):
                prog = False
                for k in list(pend):
                    hv, pv = h1[k], post[k]
                    if hv is UNDEF and pv is not UNDEF and not (tvs(pv) & hs):
                        closed[k] = ('temp', tsubst(pv, done)); pend.discard(k); prog = True; continue
                    if hv is UNDEF or pv is UNDEF:
                        closed[k] = ('undef', None); pend.discard(k); prog = True; continue
                    if not (tvs(pv) & hs):
                        closed[k] = ('temp', pv); pend.discard(k); prog = True
                        continue
                    # accumulator: post = head + d
                    pv2 = tsubst(pv, done)
                    def acc(h, p, z):
                        d = minus(p, h)
                        if d.vs() & (hs - done.keys()):
                            return None
                        return z + mksum(d, t, t)
                    try:
                        if isinstance(hv, Poly) and isinstance(pv2, Poly):
                            r = acc(hv, pv2, topoly(v0s[k]))
                            ok = r is not None
                            if ok:
                                done[hv.single().id] = r
                        elif isinstance(hv, Ptr) and isinstance(pv2, Ptr) and hv.buf == pv2.buf:
                            r = acc(hv.off, pv2.off, v0s[k].off)
                            ok = r is not None
                            if ok:
                                done[hv.off.single().id] = r
                                r = Ptr(hv.buf, r)
                        elif isinstance(hv, Vec) and isinstance(pv2, Vec):
                            r = [acc(a, p, z) for a, p, z in zip(hv.l, pv2.l, v0s[k].l)]
                            ok = all(q is not None for q in r)
                            if ok:
                                for a, q in zip(hv.l, r):
                                    done[a.single().id] = q
                                r = Vec(r)
                        else:
                            ok = False
                    except NoSum as ex:
                        raise Unsupported('accumulator %s: %s' % (ids.get(k, k), ex))
                    if not ok and s.flags and isinstance(hv, Poly) and isinstance(pv2, Poly) and not (pv2.vs() & (hs - done.keys() - {hv.single().id})):
                        # set to a constant when something is met
                        ff = flagform(pv2, hv.single().id)
                        if ff is not None and ff[1] is not None:
                            r = ite(le(1, mksum(ite(ff[0], ONE, ZERO), t, t)), ff[1], topoly(v0s[k]))
                            done[hv.single().id] = r
                            ok = True
                    if ok:
                        closed[k] = ('acc', r); pend.discard(k); prog = True
                if not pend:
                    break
                if not prog:
                    break
            for k in pend:
                closed[k] = ('bad', None)
                import os
                if os.environ.get('VF_DEBUG'): print('BAD', ids.get(k,k), h1[k], post[k], {q: show(P(T.get(q))) for q in hs})
        # second pass: real heads
        wr_extra = {}
        for attempt in range(4):
            hd = dict(heads)
            for k in keys:
                kind, v = closed[k]
                if kind == 'acc':
                    hd[k] = v
                elif kind == 'temp':
                    # value left by the previous iteration
                    if v0s[k] is UNDEF or omp is not None:
                        hd[k] = UNDEF
                    else:
                        prev = tsubst(v, {tid: t - 1})
                        hd[k] = s.mval(eq(t, 0), v0s[k], prev)
                elif kind == 'bad':
                    hd[k] = opaque(v0s[k])
                else:
                    hd[k] = v0s[k] if omp is None else UNDEF
            if omp is not None and any(kind == 'acc' for kind, _ in closed.values()):
                pass        # already reported as a race; the sequential meaning is used for the rest
            b = headenv(hd)
            b.facts = b.facts + [le(0, t)]
            c = s.cond(cond, b, [])
            for i in counters:
                pass
            n = s.trip(st, c, tid, t)
            bad = {i for k in keys if closed[k][0] == 'bad' for i in tvs(hd[k])}
            if n.vs() & bad:
                raise Unsupported('trip count')
            # reverse / alternating loops: index by the counter's value
            v = t; e = None
            for i in counters:
                r = s.snake(st, entry[i], steps[i], n, omp)
                if r is not None and not any(closed[k][0] == 'acc' for k in keys):
                    reidx = r
            sub = None
            if reidx is not None:
                e = fresh(name)
                c0, = (reidx,)
                v = ite0(c0, n - 1 - e, e) if not isinstance(c0, bool) else (n - 1 - e)
                sub = {tid: v}
                hd = {k: tsubst(val, sub) for k, val in hd.items()}
                hd = {k: (merge_ites(val) if isinstance(val, Poly) else val) for k, val in hd.items()}
                pos = v
            lv = (e if e is not None else t)
            b = headenv(hd)
            b.facts = [f for f in b.facts] + [le(0, lv), lt(lv, n)]
            b.wrote.update(wr_extra)
            for k in keys:
                if isinstance(b.env.get(k), (Poly, Ptr)) and closed[k][0] == 'acc':
                    b.env[k] = s.simp(b.env[k], b.facts)
            sub_tr = []
            s.loopvars = getattr(s, 'loopvars', [])
            s.loopvars.append((lv.single().id, n, pos is not None))
            nob = len(s.obls)
            s.clock += 1; began = s.clock
            try:
                c = s.cond(cond, b, sub_tr)
                alts = s.stmts([body], b, sub_tr)
            except Reindex as r:
                s.loopvars.pop()
                del s.obls[nob:]
                if r.tid != tid:
                    raise
                if any(closed[k][0] == 'acc' for k in keys):
                    raise Unsupported('reindexed accumulator')
                reidx = r.rev_when
                continue
            s.loopvars.pop()
            s.clock += 1
            if s.lastwrite > began:
                s.lastwrite = s.clock; s.clock += 1
            es = s.endstate(alts, b)
            neww = {k: v for k, v in es.wrote.items() if k not in st.wrote and k not in wr_extra}
            if neww:
                rd = trread(sub_tr)
                if any(k[0] == 'any' and k[1] in rd for k in neww):
                    # a later iteration may read what an earlier one wrote
                    wr_extra.update(neww)
                    del s.obls[nob:]
                    continue
            break
        else:
            raise Unsupported('reindexing')
        if inc is not None:
            s.ev(inc, es, sub_tr, drop=True)
        for k in es.heap:
            if k in st.heap and es.heap[k] != st.heap[k] or k not in st.heap:
                if not s.heap_loop_ok(k, st, es):
                    raise Unsupported('struct field changed in a loop')
        # 'bad' variables may not influence anything that is kept
        if bad:
            used = trvs(sub_tr)
            if used & bad:
                raise Unsupported('loop-carried variable %s' % [ids.get(k, k) for k in keys if closed[k][0] == 'bad'])
        L = Loop(lv.single(), n, sub_tr, omp is not None, name, pos)
        tr.append(('loop', L))
        # after the loop
        post = st
        for i in counters:
            v0 = entry[i]
            if omp is not None:
                post.env[i] = UNDEF if i not in st.env else UNDEF
                continue
            if isinstance(v0, Ptr):
                post.env[i] = Ptr(v0.buf, v0.off + steps[i] * n)
            else:
                post.env[i] = merge_ites(v0 + steps[i] * n)
        ge1 = None
        for k in keys:
            kind, v = closed[k]
            if omp is not None and k in (omp['private'] or ()):
                post.env[k] = UNDEF
            elif kind == 'acc':
                post.env[k] = s.simp(tsubst(v, {tid: n}), st.facts)
            elif kind == 'temp':
                if ge1 is None:
                    ge1 = s.pr.quick(st.facts, le(1, n))
                if reidx is not None:
                    # last iteration in program order
                    val = es.env.get(k, UNDEF)
                    lp = subst(v_inv(reidx, n), {}) 
                    last = tsubst(val, {lv.single().id: lp})
                else:
                    last = tsubst(es.env.get(k, UNDEF), {tid: n - 1})
                post.env[k] = last if (ge1 or v0s[k] is UNDEF) else s.mval(le(1, n), last, v0s[k])
            elif kind == 'bad':
                post.env[k] = opaque(v0s[k])
            else:
                post.env[k] = UNDEF
        for a in arrs:
            for k in [k for k in es.env if isinstance(k, tuple) and k[0] == 'cell' and k[1] == a and k not in keys]:
                post.env[k] = UNDEF
        for kb, ep in es.wrote.items():
            post.wrote[kb] = max(post.wrote.get(kb, 0), ep)
        return [Alt(True, 'norm', post)]

    def simp(s, v, facts):
        """drop the branches of if-then-else that the facts rule out"""
        if isinstance(v, Ptr):
            return Ptr(v.buf, s.simp(v.off, facts))
        if not isinstance(v, Poly) or not hasite(v):
            return v
        return s._simp(v, facts, 0)

    def _simp(s, p, facts, d):
        for _ in range(30):
            a = None
            for m in p.m:
                for i in m:
                    if T.get(i).k == 'ite':
                        a = T.get(i)
                        c = a.key[1]
                        for lit in (c[1] if c[0] == 'and' else (c,)):
                            r = s.pr.decide(facts, lit)
                            if r is not None:
                                q = assume(p, lit if r else neg(lit))
                                if q != p:
                                    p = q; break
                        else:
                            continue
                        break
                else:
                    continue
                break
            else:
                break
        out = ZERO
        for m, co in p.m.items():
            t = P(co)
            for i in m:
                x = T.get(i)
                if x.k == 'ite' and d < 4:
                    c = x.key[1]
                    t = t * ite(c, s._simp(x.key[2], facts + [c], d + 1), s._simp(x.key[3], facts + [neg(c)], d + 1))
                else:
                    t = t * P(x)
            out = out + t
        return out

    def heap_loop_ok(s, k, st, es):
        return k and k[0] == 'pstore'

    def snake(s, st, v0, step, n, omp):
        """condition under which the counter runs backwards over [lo, lo+n), if it does so in some case"""
        if not isinstance(v0, Poly) or omp is not None and False:
            return None
        if step.const() == -1:
            return True
        if step.const() is not None:
            return None
        a = None
        for i in step.atoms():
            if T.get(i).k == 'ite':
                a = T.get(i)
        if a is None:
            return None
        c = a.key[1]
        x, y = assume(step, c).const(), assume(step, neg(c)).const()
        lo1 = assume(v0, c); lo2 = assume(v0, neg(c))
        n1, n2 = assume(n, c), assume(n, neg(c))
        if (x, y) == (-1, 1):
            if lo1 - n1 + 1 == lo2:
                return c
        elif (x, y) == (1, -1):
            if lo2 - n2 + 1 == lo1:
                return neg(c)
        elif x is None or y is None:
            pass
        return None

    def endstate(s, alts, b):
        live = []
        for a in alts:
            if a.status in ('norm', 'cont'):
                live.append(a)
            elif a.status == 'dead':
                pass
            else:
                raise Unsupported('%s inside a loop' % a.status)
        if not live:
            raise Unsupported('loop body never completes')
        m, _r, c = s.merge(live, b.facts)
        return m

    # -------------------------------------------------------------- expressions
    def cond(s, e, st, tr):
        v = s.ev(e, st, tr)
        return tocond(v)

    def setv(s, v, c, st):
        if c == 'int' and is_c(v):
            return topoly(v)
        if c == 'bool':
            return tocond(v)
        if isinstance(v, Poly) and c == 'int':
            v = merge_ites(v)
            s.check_snake(v)
        return v

    def check_snake(s, v):
        """v = ite(c, n-1-t, t) for the current loop's t: index that loop by v instead"""
        a = v.single()
        if a is None or a.k != 'ite':
            return
        for tid, n, done in reversed(getattr(s, 'loopvars', [])):
            if done or tid not in a.vs or tid in cvs(a.key[1]):
                continue
            t = P(T.get(tid)); c, x, y = a.key[1:]
            if x == n - 1 - t and y == t:
                raise Reindex(tid, c, c)
            if y == n - 1 - t and x == t:
                raise Reindex(tid, c, neg(c))

    def ev(s, e, st, tr, drop=False):
        k = e.k
        if k == 'num':
            return P(e.a[0]) if e.t != 'bool' else bool(e.a[0])
        if k == 'fnum':
            return P(Fraction(str(e.a[0])))
        if k == 'str':
            return Str(e.a[0])
        if k == 'null':
            return NULL
        if k == 'defarg':
            return 'default'
        if k == 'fref':
            return Fn(e.a[0])
        if k == 'sizeof':
            if e.a[1] is None:
                return fn('sizeof_' + e.a[0])
            return P(e.a[1])
        if k == 'var':
            return s.var(e, st)
        if k == 'cast':
            return s.cast(e, st, tr)
        if k == 'un':
            return s.unary(e, st, tr)
        if k == 'bin':
            return s.binary(e, st, tr)
        if k == 'cond':
            c = s.cond(e.a[0], st, tr)
            d = s.pr.decide(st.facts, c)
            if d is not None:
                return s.ev(e.a[1 if d else 2], st, tr)
            if s.split == 2 and not s.dry and not s.inloop():
                raise Split(c)
            t1, t2 = [], []
            sa, sb = St(st.env, st.heap, st.facts + [c], st.wrote), St(st.env, st.heap, st.facts + [neg(c)], st.wrote)
            a = s.ev(e.a[1], sa, t1); b = s.ev(e.a[2], sb, t2)
            if t1:
                tr.append(('if', c, t1))
            if t2:
                tr.append(('if', neg(c), t2))
            return s.mval(c, a, b)
        if k == 'asg':
            return s.assign(e, st, tr)
        if k == 'inc':
            op, post, lv = e.a
            old = s.ev(lv, st, tr)
            one = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = Ptr(old.buf, old.off + one)
            elif isinstance(old, Poly):
                new = old + one
            else:
                raise Unsupported('++ on undefined value')
            s.store(lv, new, st, tr)
            return old if post else new
        if k == 'idx':
            p = s.addr(e, st, tr)
            return s.load(p, e.t, st, tr)
        if k == 'mem':
            return s.member(e, st, tr)
        if k == 'call':
            return s.call(e, st, tr)
        raise Unsupported('expression ' + k)

    def var(s, e, st):
        i, n = e.a
        v = st.env.get(i)
        if v is None:
            g = s.prog.globals.get(n)
            if g is not None:
                return Ptr(('global', n)) if g[1] == 'ptr' else s.gload(n, st)
            raise Unsupported('variable ' + n)
        if v is UNDEF and v == 'undef':
            s.structural(False, 'read of uninitialised variable %s' % n) if not s.dry else None
            raise Unsupported('uninitialised ' + n)
        if isinstance(v, tuple) and v and v[0] == 'arr':
            return Ptr(('arr', v[1]))
        return v

    def gload(s, n, st):
        return st.heap.get(('global', n)) or fn('global_' + n)

    def cast(s, e, st, tr):
        x, ck, q = e.a
        v = s.ev(x, st, tr)
        if ck == 'IntegralCast':
            return topoly(v) if is_c(v) and e.t != 'bool' else v
        if ck == 'IntegralToFloating':
            return topoly(v)
        if ck == 'FloatingCast':
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return tocond(v)
        if ck == 'PointerToBoolean':
            return nonnull(v)
        if ck == 'ToVoid':
            return v
        if ck == 'FloatingToIntegral':
            return s.to_int(v, st)
        raise Unsupported(ck)

    def to_int(s, v, st):
        v = P(v)
        if isint(v):
            return v
        if s.abstract is not None:
            k = s.abstract.get(v)
            if k is None:
                k = s.abstract[v] = fresh('trunc')
                if s.nonneg(v, st.facts + [f for f in s.absfacts if f not in st.facts]):
                    s.absfacts.append(le(0, k))
            f = le(0, k)
            if f in s.absfacts and f not in st.facts:
                st.facts.append(f)
            return k
        # truncation; for nonnegative values the floor
        r = rfloor(v, st, s)
        return r

    def nonneg(s, v, facts):
        """sign of a real expression"""
        v = P(v)
        if isint(v):
            return s.pr.prove(facts, le(0, v))
        if all(c > 0 and all(s.nna(T.get(i), facts) for i in k) for k, c in v.m.items()):
            return True
        a = v.single()
        if a is not None and a.k == 'ite':
            return s.nonneg(a.key[2], facts + [a.key[1]]) and s.nonneg(a.key[3], facts + [neg(a.key[1])])
        # real factors with integer coefficients
        grp, ok = {}, True
        for k, c in v.m.items():
            re = tuple(i for i in k if not isint(P(T.get(i))))
            rest = tuple(i for i in k if isint(P(T.get(i))))
            grp.setdefault(re, {})[rest] = c
        for re, m in grp.items():
            d = 1
            for c in m.values():
                d = d * Fraction(c).denominator // __import__('math').gcd(d, Fraction(c).denominator)
            if not (all(s.nna(T.get(i), facts) for i in re) and s.pr.prove(facts, le(0, Poly(m) * d))):
                ok = False; break
        if ok:
            return True
        # c*sqrt(Y) + R >= 0 when R^2 <= c^2*Y
        for k, c in v.m.items():
            if len(k) == 1 and c > 0 and T.get(k[0]).k == 'fn' and T.get(k[0]).key[1] == 'sqrt':
                Y, R = T.get(k[0]).key[2], Poly({a: b for a, b in v.m.items() if a != k})
                g = Y * c * c - R * R
                d = 1
                for x in g.m.values():
                    d = d * Fraction(x).denominator // __import__('math').gcd(d, Fraction(x).denominator)
                g = g * d
                if isint(g) and s.pr.prove(facts, le(0, g)):
                    return True
        return False

    def nna(s, a, facts):
        if a.k == 'fn' and a.key[1] == 'sqrt':
            return True
        if a.k == 'fn' and a.key[1] == 'real_round':
            return s.nonneg(a.key[2], facts)
        if a.k == 'rdiv':
            return s.nonneg(a.key[1], facts) and s.nonneg(a.key[2], facts)
        if a.k == 'ite':
            return s.nonneg(a.key[2], facts) and s.nonneg(a.key[3], facts)
        return s.pr.prove(facts, le(0, P(a)))

    def unary(s, e, st, tr):
        op, x = e.a
        if op == '&':
            if x.k in ('idx', 'mem') or (x.k == 'un' and x.a[0] == '*'):
                if x.k == 'mem':
                    b = s.mbase(x, st, tr)
                    return LRef(('h', b, x.a[1]))
                return s.addr(x, st, tr)
            if x.k == 'var':
                v = st.env.get(x.a[0])
                if isinstance(v, tuple) and v and v[0] == 'arr':
                    return Ptr(('arr', v[1]))
                if v is None and x.a[1] in s.prog.globals:
                    return LRef(('g', x.a[1]))
                return LRef(('l', x.a[0], x.t))
            if x.k == 'fref':
                return Fn(x.a[0])
            raise Unsupported('address of ' + x.k)
        if op == '*':
            p = s.ev(x, st, tr)
            if isinstance(p, LRef):
                return s.deref(p, st)
            return s.load(p, e.t, st, tr)
        v = s.ev(x, st, tr)
        if op == '!':
            return neg(tocond(v)) if not isinstance(v, (Ptr, PIte)) else neg(nonnull(v))
        if op == '-':
            if isinstance(v, Vec):
                return Vec([-a for a in v.l])
            return -topoly(v)
        if op == '~' and not isinstance(v, (Vec, Ptr, PIte)):
            return -topoly(v) - 1
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def deref(s, r, st):
        k = r.key
        if k[0] == 'l':
            env = st.env
            while env is not None:
                if k[1] in env:
                    v = env[k[1]]
                    if v is UNDEF:
                        raise Unsupported('uninitialised')
                    return v
                env = env.get('$up')
            raise Unsupported('dangling reference')
        if k[0] == 'h':
            return s.fieldval(k[1], k[2], st)
        raise Unsupported('deref')

    def binary(s, e, st, tr):
        op, a, b = e.a
        if op == ',':
            s.ev(a, st, tr, drop=True)
            return s.ev(b, st, tr)
        if op in ('&&', '||'):
            c = tocond_any(s.ev(a, st, tr))
            if c is (op == '||'):
                return c
            if isinstance(c, bool):
                return tocond_any(s.ev(b, st, tr))
            st2 = St(st.env, st.heap, st.facts + [c if op == '&&' else neg(c)], st.wrote)
            sub = []
            d = tocond_any(s.ev(b, st2, sub))
            if sub:
                tr.append(('if', c if op == '&&' else neg(c), sub))
            return conj(c, d) if op == '&&' else disj(c, d)
        x, y = s.ev(a, st, tr), s.ev(b, st, tr)
        return s.arith(op, x, y, e.t, a.t, b.t, st)

    def arith(s, op, x, y, t, ta, tb, st):
        if isinstance(x, Vec) or isinstance(y, Vec):
            f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}.get(op)
            if f is None:
                raise Unsupported('vector ' + op)
            return Vec([f(p, q) for p, q in zip(x.l, y.l)])
        if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)):
            if op in ('+', '-') and isinstance(x, Ptr) and isinstance(y, Poly):
                return Ptr(x.buf, x.off + y if op == '+' else x.off - y)
            if op == '+' and isinstance(y, Ptr) and isinstance(x, Poly):
                return Ptr(y.buf, y.off + x)
            if op in ('==', '!='):
                r = ptreq(x, y)
                return r if op == '==' else neg(r)
            raise Unsupported('pointer arithmetic')
        if x == 'default' or y == 'default':
            raise Unsupported('default argument')
        if op in '&|' and is_c(x) and is_c(y):
            return conj(x, y) if op == '&' else disj(x, y)
        x, y = topoly(x), topoly(y)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        real = 'float' in (ta, tb) or 'double' in (ta, tb)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if real and s.nan and (x.const() is None or y.const() is None):
                return fcmp(op, x, y)
            if real and not (isint(x) and isint(y)):
                if s.abstract is not None and op in ('<', '<=', '>', '>='):
                    key = (op in ('<', '>'), x, y) if op in ('<', '<=') else (op == '>', y, x)
                    if key not in s.abstract:
                        s.abstract[key] = ('b', 'real%d' % len(s.abstract))
                    return s.abstract[key]
                return {'<': lambda: ltr(x, y), '>': lambda: ltr(y, x), '<=': lambda: ler(x, y), '>=': lambda: ler(y, x),
                        '==': lambda: eq(x, y), '!=': lambda: ne(x, y)}[op]()
            return {'<': lambda: lt(x, y), '>': lambda: gt(x, y), '<=': lambda: le(x, y), '>=': lambda: ge(x, y),
                    '==': lambda: eq(x, y), '!=': lambda: ne(x, y)}[op]()
        if op == '/':
            if t in ('float', 'double'):
                return rdiv(x, y)
            return s.idiv(x, y, st)[0]
        if op == '%':
            return s.idiv(x, y, st)[1]
        if op == '<<' and y.const() is not None:
            return x * (1 << y.const())
        if op == '>>' and y.const() is not None:
            return s.idiv(x, P(1 << y.const()), st)[0]
        if op == '&':
            for u, v in ((x, y), (y, x)):
                c = v.const()
                if c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
                    return s.idiv(u, P(int(c) + 1), st)[1]
                if c is not None and c < 0 and (int(-c) & int(-c - 1)) == 0:
                    return u - s.idiv(u, P(int(-c)), st)[1]
        raise Unsupported('operator ' + op)

    def name_cases(s, st, *vals):
        """a variable of its own for every value chosen by cases in vals, with what is known of it; st is rewritten
        to use it.  What the variable stands for is forgotten, so whatever is proved afterwards holds for any such value"""
        units, ubs = s.naming
        sub = {}
        for v in vals:
            for i in sorted({i for m in v.m for i in m if T.get(i).hasite}):
                if i in sub:
                    continue
                if i in s.nameof:
                    z, loc = s.nameof[i], []
                else:
                    a = P(T.get(i))
                    G = list(s.base_facts) + s.namefacts       # what holds on every path
                    u = next((u for u in units if multiple(s.pr, G, a, u)), None)
                    glob = True
                    if u is None:
                        u = next((u for u in units if multiple(s.pr, st.facts, a, u)), None)
                        glob = u is None
                    q = fresh('c')
                    z = q if u is None else u * q
                    loc, done = [], False
                    for cand, fact in [(ge(a, 1), ge(q, 1)), (ge(a, 0), ge(q, 0))] + [(le(a, b), le(z, b)) for b in ubs]:
                        if fact == ge(q, 0) and done:
                            continue
                        if glob and s.pr.prove(G, cand):
                            s.namefacts.append(fact)
                        elif s.pr.prove(st.facts, cand):
                            loc.append(fact)
                        else:
                            continue
                        done = done or fact == ge(q, 1)
                    if glob and not loc:
                        s.nameof[i] = z
                    s.named.append((a, z))
                sub[i] = z
                st.facts = st.facts + [f for f in s.namefacts + loc if f not in st.facts]
        if not sub:
            return vals
        for d in (st.env, st.heap):
            for k in list(d):
                if k != '$up':
                    d[k] = tsubst(d[k], sub)
        st.facts = [f for f in (subst(f, sub) if not isinstance(f, bool) else f for f in st.facts) if f is not True]
        return tuple(subst(v, sub) for v in vals)

    def idiv(s, x, y, st):
        if s.naming is not None and not s.inloop() and len(s.fname) == 1:
            x, y = s.name_cases(st, x, y)
        c = y.const()
        if c is None or c <= 0:
            s.oblige(st, gt(y, 0), 'divisor positive: %s' % show(y)[:80])
        if x.const() is None or x.const() < 0:
            if not (y.const() == 1):
                s.oblige(st, le(0, x), 'dividend not negative: %s' % show(x)[:80])
        q = div(x, y)
        at = q.single()
        if at is not None and at.k == 'div':
            qq, rr = s.pr_quot(x, y, st)
            if qq is not None:
                return qq, rr
        return q, mod(x, y)

    def pr_quot(s, x, y, st):
        if y.const() is not None:
            return None, None
        cand, r = pdivmod(x, y)
        if not cand.m:
            # x itself may be below y
            if s.pr.quick(st.facts, le(0, x)) and s.pr.quick(st.facts, lt(x, y)):
                return ZERO, x
        else:
            for dq in (0, -1):
                q = cand + dq; rr = x - q * y
                if s.pr.quick(st.facts, le(0, rr)) and s.pr.quick(st.facts, lt(rr, y)):
                    return q, rr
        for q in s.hinted(x, y, 0):
            rr = x - q * y
            if s.pr.prove(st.facts, le(0, rr)) and s.pr.prove(st.facts, lt(rr, y)):
                return q, rr
        return None, None

    def hinted(s, x, y, up):
        """hinted quotients (rounded up if up) that fit the sample values"""
        if not s.hints:
            return []
        vals = []
        for env in s.envs:
            try:
                a, b = ev(x, env), ev(y, env)
            except EvalErr:
                continue
            if b > 0:
                vals.append((env, -((-a) // b) if up else a // b))
        if len(vals) < 5:
            return []
        out = []
        for h in s.hints:
            try:
                if all(ev(h, env) == v for env, v in vals):
                    out.append(h)
            except EvalErr:
                pass
        return out[:3]

    def assign(s, e, st, tr):
        op, lv, rhs = e.a[0], e.a[1], e.a[2]
        v = s.ev(rhs, st, tr)
        if op is not None:
            old = s.ev(lv, st, tr)
            ct = e.a[3] if len(e.a) > 3 else lv.t
            v = s.arith(op, old, v, ct, ct if ct in ('float', 'double') else lv.t, rhs.t, st)
            if ct in ('float', 'double') and lv.t == 'int':
                v = s.to_int(v, st)
        s.store(lv, v, st, tr)
        return v

    def store(s, lv, v, st, tr):
        if lv.k == 'var':
            st.env[lv.a[0]] = s.setv(v, lv.t, st)
            return
        if lv.k == 'mem':
            b = s.mbase(lv, st, tr)
            st.heap[(b, lv.a[1])] = s.setv(v, lv.t, st)
            tr.append(('fs', b, lv.a[1], v))
            return
        if lv.k == 'idx' or (lv.k == 'un' and lv.a[0] == '*'):
            p = s.addr(lv, st, tr) if lv.k == 'idx' else s.ev(lv.a[1], st, tr)
            if isinstance(p, LRef):
                if p.key[0] == 'l':
                    env = st.env
                    while env is not None:
                        if p.key[1] in env:
                            env[p.key[1]] = v
                            return
                        env = env.get('$up')
                raise Unsupported('store through reference')
            s.write(p, v, lv.t, st, tr)
            return
        raise Unsupported('assignment to ' + lv.k)

    def write(s, p, v, t, st, tr):
        if isinstance(p, PIte):
            t1, t2 = [], []
            s.write(p.a, v, t, st, t1); s.write(p.b, v, t, st, t2)
            tr.append(('if', p.c, t1)); tr.append(('if', neg(p.c), t2))
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through unknown pointer')
        if p.buf[0] == 'null':
            s.structural(False, 'store through a null pointer')
            return
        if p.buf[0] == 'arr':
            if s.opaque_arrays:
                return
            i = p.off.const()
            if i is None:
                raise Unsupported('local array index')
            d = st.env[p.buf[1]]
            if d[2] is not None:
                s.structural(0 <= i < d[2], 'local array index %d in bounds' % i) if not (0 <= i < d[2]) else None
            st.env[('cell', p.buf[1], i)] = v
            return
        if t == 'ptr':
            if isinstance(v, Ptr) and v.buf[0] == 'heap' and not v.off.m:
                # freshly allocated block stored in an array of pointers: named after its place
                for n in range(len(tr) - 1, -1, -1):
                    if tr[n][0] == 'alloc' and tr[n][1] == v.buf:
                        nb = ('elem',) + p.buf + (p.off,)
                        tr[n] = tr[n][:1] + (nb,) + tr[n][2:]
                        v = Ptr(nb)
                        break
            tr.append(('pw', p.buf, p.off, v))
            return
        tr.append(('w', p.buf, p.off, v, t))
        st.wrote[p.buf[0:1] + p.buf[1:2]] = 1
        s.wrote(st, p.buf[0])

    def addr(s, e, st, tr):
        if e.k == 'un' and e.a[0] == '*':
            return s.ev(e.a[1], st, tr)
        a, b = s.ev(e.a[0], st, tr), s.ev(e.a[1], st, tr)
        if isinstance(b, (Ptr,)) and isinstance(a, Poly):
            a, b = b, a
        if isinstance(a, PIte):
            return PIte(a.c, Ptr(a.a.buf, a.a.off + topoly(b)), Ptr(a.b.buf, a.b.off + topoly(b)))
        if not isinstance(a, Ptr):
            raise Unsupported('index of non-pointer')
        return Ptr(a.buf, a.off + topoly(b))

    def load(s, p, t, st, tr):
        if isinstance(p, PIte):
            t1, t2 = [], []
            a = s.load(p.a, t, st, t1); b = s.load(p.b, t, st, t2)
            if t1: tr.append(('if', p.c, t1))
            if t2: tr.append(('if', neg(p.c), t2))
            return s.mval(p.c, a, b)
        if isinstance(p, LRef):
            return s.deref(p, st)
        if not isinstance(p, Ptr):
            raise Unsupported('load through unknown pointer')
        if p.buf[0] == 'null':
            s.structural(False, 'load through a null pointer')
            raise Unsupported('null load')
        if p.buf[0] == 'arr':
            if s.opaque_arrays:
                s.ncell = getattr(s, 'ncell', 0) + 1
                return V('cell%d' % s.ncell)
            i = p.off.const()
            v = st.env.get(('cell', p.buf[1], i)) if i is not None else None
            if v is None or v is UNDEF:
                raise Unsupported('local array read')
            return v
        if p.buf[0] == 'global':
            return s.global_elem(p, t, st)
        if t == 'ptr':
            return s.load_ptr(p, st, tr)
        if t in ('float', 'int', 'double', 'bool'):
            if s.track_reads:
                tr.append(('r', p.buf, p.off))
            ep = 0
            if st.wrote.get(('any', p.buf[0])):
                ep = 'w%d' % s.clock
            return P(atom('ld', p.buf, p.off, ep))
        raise Unsupported('load of ' + str(t))

    def load_ptr(s, p, st, tr):
        h = s.hooks.get('load_ptr')
        if h:
            r = h(s, p, st)
            if r is not None:
                return r
        return Ptr(('elem',) + p.buf + (p.off,))

    def global_elem(s, p, t, st):
        n = p.buf[1]
        if t == 'ptr':
            return Ptr(('global', n) + p.buf[2:] + (p.off,))
        g = s.prog.globals.get(n)
        if g and g[2] is not None and g[2].k == 'init':
            h = s.hooks.get('global')
            if h:
                r = h(s, n, p, st)
                if r is not None:
                    return r
            idx = list(p.buf[2:]) + [p.off]
            cs = [x.const() for x in idx]
            if None not in cs:
                v = g[2]
                for c in cs:
                    v = v.a[c]
                return s.ev(v, st, [])
        return fn('global_' + n, *[x for x in p.buf[2:]], p.off)

    def mbase(s, e, st, tr):
        b, f, arrow = e.a
        if arrow or b.t == 'ptr':
            p = s.ev(b, st, tr)
            if isinstance(p, Ptr):
                if p.buf[0] == 'null':
                    s.structural(False, 'member of a null pointer')
                    raise Unsupported('null member')
                return p.buf if not p.off.m else p.buf + (p.off,)
            if isinstance(p, LRef):
                return p.key
            raise Unsupported('member base')
        if b.k == 'var':
            return ('local', b.a[0])
        raise Unsupported('member base')

    def member(s, e, st, tr):
        b = s.mbase(e, st, tr)
        return s.fieldval(b, e.a[1], st)

    def fieldval(s, b, f, st):
        v = st.heap.get((b, f))
        if v is None:
            h = s.hooks.get('field')
            if h:
                v = h(s, b, f, st)
                if v is not None:
                    return v
            if b and b[0] == 'local' or f in ('tv_sec', 'tv_nsec'):
                return fn('clock_' + f)
            raise Unsupported('field %s.%s has no value' % (b, f))
        if v is UNDEF:
            raise Unsupported('field %s may be undefined' % f)
        return v

    # -------------------------------------------------------------- calls
    def call(s, e, st, tr):
        f, args = e.a
        if f.k == 'idx' or (f.k == 'un' and f.a[0] == '*'):
            # call through the kernel table
            t = f if f.k == 'idx' else f.a[1]
            fp = s.addr(t, st, tr) if t.k == 'idx' else s.ev(t, st, tr)
            if isinstance(fp, Ptr) and fp.buf[:2] == ('global', 'kernel_map'):
                idx = list(fp.buf[2:]) + [fp.off]
                vals = [s.ev(a, st, tr) for a in args]
                return s.ukernel(idx, vals, st, tr)
            raise Unsupported('indirect call')
        if f.k == 'var':
            v = s.ev(f, st, tr)
            if isinstance(v, Fn):
                name = v.n
            elif isinstance(v, Ptr) and v.buf[:2] == ('global', 'kernel_map'):
                return s.ukernel(list(v.buf[2:]) + [v.off], [s.ev(a, st, tr) for a in args], st, tr)
            else:
                raise Unsupported('indirect call')
        elif f.k == 'fref':
            name = f.a[0]
        else:
            raise Unsupported('call of ' + f.k)
        if name in IGNORED:
            for a in args:
                if a.k in ('asg', 'inc', 'call'):
                    s.ev(a, st, tr)
            s.externals.add(name)
            return ZERO
        if name == 'exit' or name == 'abort':
            return 'DEAD'
        vals = [s.ev(a, st, tr) for a in args]
        if name in s.contracts:
            s.used_contracts.add(name)
            return s.contracts[name](s, vals, st, tr)
        b = s.builtin(name, vals, args, st, tr)
        if b is not NotImplemented:
            s.externals.add(name)
            return b
        fd = s.prog.funcs.get(name)
        if fd is not None and fd.body is not None:
            s.used_inline.add(name)
            return s.inline_call(fd, vals, st, tr)
        raise Unsupported('call of %s %s' % (name, s.prog.unsupported.get(name, '')))

    def ukernel(s, idx, vals, st, tr):
        A, B, C, mr, nr, k = vals[:6]
        for p in (A, B, C):
            if not isinstance(p, Ptr):
                raise Unsupported('kernel operand')
        tr.append(('uk', A, B, C, topoly(mr), topoly(nr), topoly(k), tuple(idx)))
        s.wrote(st, C.buf[0])
        return None

    def builtin(s, name, v, args, st, tr):
        if name == 'memset':
            p, c, n = v
            if not isinstance(p, Ptr) or P(c) != ZERO:
                raise Unsupported('memset')
            m = exact_div(n, 4)
            if m is None:
                raise Unsupported('memset size')
            tr.append(('set0', p.buf, p.off, m))
            s.wrote(st, p.buf[0])
            return p
        if name == 'memcpy':
            raise Unsupported('memcpy')
        if name in ('malloc', 'calloc', 'aligned_alloc'):
            s.nheap += 1
            hid = ('heap', s.nheap, s.where()) + s.inloop()
            sz = topoly(v[0]) if name == 'malloc' else topoly(v[0]) * topoly(v[1]) if name == 'calloc' else topoly(v[1])
            tr.append(('alloc', hid, sz, name))
            return Ptr(hid)
        if name == 'posix_memalign':
            s.nheap += 1
            hid = ('heap', s.nheap, s.where()) + s.inloop()
            tr.append(('alloc', hid, topoly(v[2]), name, v[1]))
            r = v[0]
            if isinstance(r, LRef):
                if r.key[0] == 'l':
                    st.env[r.key[1]] = Ptr(hid)
                elif r.key[0] == 'h':
                    st.heap[(r.key[1], r.key[2])] = Ptr(hid)
                else:
                    raise Unsupported('posix_memalign target')
            elif isinstance(r, Ptr):
                s.write(r, Ptr(hid), 'ptr', st, tr)
            else:
                raise Unsupported('posix_memalign target')
            return ZERO
        if name == 'free':
            tr.append(('free', v[0]))
            return None
        if name in ('ceil', 'floor'):
            x = P(v[0])
            if isint(x):
                return x
            if name == 'ceil':
                return rceil(x, st, s)
            return rfloor(x, st, s)
        if name in ('sqrt', 'sqrtf', 'sqrtl'):
            return fn('sqrt', v[0])
        if name in ('roundf', 'round', 'rint', 'lround', 'lroundf'):
            x = P(v[0])
            return x if isint(x) else fn('real_round', x)
        if name in ('abs', 'labs'):
            return ite(le(0, topoly(v[0])), topoly(v[0]), -topoly(v[0]))
        if name in ('isnan', 'isinf', 'isfinite', '__isnanf', '__builtin_isnan', '__builtin_isinf', '__builtin_isfinite') and s.nan:
            return fn({'__isnanf': 'isnan'}.get(name, name.replace('__builtin_', '')), topoly(v[0]))
        if name in ('fabs', 'fabsf') and s.nan:
            x = topoly(v[0])
            return fn('fabs', x if next(iter(sorted(x.m.items(), key=lambda q: q[0])))[1] > 0 else -x)
        if name in ('fabs', 'fabsf'):
            return ite(ler(0, topoly(v[0])), topoly(v[0]), -topoly(v[0]))
        if name in ('min', 'fmin', 'fminf'):
            return minp(v[0], v[1])
        if name in ('max', 'fmax', 'fmaxf'):
            return maxp(v[0], v[1])
        if name == 'atoi':
            return fresh('atoi') if s.opaque_arrays else fn('atoi', )
        if name == 'omp_get_thread_num':
            return fresh('tid')
        r = vecop(s, name, v, st, tr)
        return r

    def inloop(s):
        return tuple(P(T.get(t)) for t, _n, _d in getattr(s, 'loopvars', []))


def base0(st):
    return st.facts


def v_inv(c, n):
    """index of the last iteration in program order of a loop indexed backwards when c"""
    if isinstance(c, bool):
        return ZERO if c else n - 1
    return ite0(c, ZERO, n - 1)


def opaque(v):
    if isinstance(v, Ptr):
        return Ptr(v.buf, fresh('bad'))
    if isinstance(v, Vec):
        return Vec([fresh('bad') for _ in v.l])
    if v is UNDEF:
        return UNDEF
    return fresh('bad')


def is_c(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and T.is_cond(v))


def topoly(v):
    if isinstance(v, Poly):
        return v
    if is_c(v):
        return ite(v, ONE, ZERO)
    if isinstance(v, int):
        return P(v)
    raise Unsupported('not a number: %r' % (v,))


def nonnull(v):
    if isinstance(v, Ptr):
        if v.buf[0] == 'null':
            return False
        if v.buf[0] == 'maybe':
            return ('b', 'nonnull_' + v.buf[1])
        return True
    if isinstance(v, PIte):
        return citec(v.c, nonnull(v.a), nonnull(v.b))
    if isinstance(v, (Str, Fn, LRef)):
        return True
    raise Unsupported('null test')


def tocond(v):
    if is_c(v):
        return v
    if isinstance(v, Poly):
        a = v.single()
        if a is not None and a.k == 'ite' and a.key[2].const() is not None and a.key[3].const() is not None:
            x, y = a.key[2].const() != 0, a.key[3].const() != 0
            return citec(a.key[1], x, y)
        if len(v.m) == 1 and isinstance(list(v.m)[0], tuple):
            return ne(v, 0)
        return ne(v, 0)
    if isinstance(v, (Ptr, PIte, LRef, Str)):
        return nonnull(v)
    raise Unsupported('condition %r' % (v,))


tocond_any = tocond


def ptreq(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if b.buf[0] == 'null':
            return neg(nonnull(a))
        if a.buf[0] == 'null':
            return neg(nonnull(b))
        if a.buf == b.buf:
            return eq(a.off, b.off)
        return False
    if isinstance(a, PIte):
        return citec(a.c, ptreq(a.a, b), ptreq(a.b, b))
    if isinstance(b, PIte):
        return ptreq(b, a)
    raise Unsupported('pointer comparison')


def isint(p):
    for k, c in p.m.items():
        if isinstance(c, Fraction):
            return False
        for i in k:
            a = T.get(i)
            if a.k == 'rdiv' or (a.k == 'fn' and a.key[1] in ('sqrt',) or a.k == 'fn' and a.key[1].startswith('real_')):
                return False
            if a.k == 'ite' and not (isint(a.key[2]) and isint(a.key[3])):
                return False
            if a.k == 'v' and a.key[1].startswith('real:'):
                return False
    return True


def rsplit(v):
    """v = I + X with I integer valued, X real"""
    I, X = {}, {}
    for k, c in v.m.items():
        (I if isint(Poly({k: c})) else X)[k] = c
    return Poly(I), Poly(X)


def rfloor(v, st, ex):
    I, X = rsplit(v)
    if not X.m:
        return I
    if len(X.m) == 1:
        (k, c), = X.m.items()
        if c == 1 and len(k) == 1:
            a = T.get(k[0])
            if a.k == 'rdiv' and isint(a.key[1]) and isint(a.key[2]):
                ex.oblige(st, gt(a.key[2], 0), 'divisor positive (floor)')
                ex.oblige(st, le(0, a.key[1]), 'value not negative (truncation)')
                return I + div(a.key[1], a.key[2])
    d = 1
    for c in X.m.values():
        d = d * Fraction(c).denominator // __import__('math').gcd(d, Fraction(c).denominator)
    Y = X * d
    if isint(Y) and d > 1:
        ex.oblige(st, le(0, Y + I * d), 'value not negative (truncation)')
        return I + div(Y, d)
    return I + fn('floor', X)


def rceil(v, st, ex):
    I, X = rsplit(v)
    if len(X.m) == 1:
        (k, c), = X.m.items()
        if c == 1 and len(k) == 1:
            a = T.get(k[0])
            if a.k == 'rdiv' and isint(a.key[1]) and isint(a.key[2]):
                ex.oblige(st, gt(a.key[2], 0), 'divisor positive (ceil)')
                num, den = a.key[1], a.key[2]
                e = exact_div(num, den)
                if e is not None:
                    return I + e
                # multiples of den plus 1..den
                q, r = pdivmod(num, den)
                if ex.pr.quick(st.facts, le(1, r)) and ex.pr.quick(st.facts, le(r, den)):
                    return I + q + 1
                for q in ex.hinted(num, den, 1):
                    if ex.pr.prove(st.facts, lt(den * (q - 1), num)) and ex.pr.prove(st.facts, le(num, den * q)):
                        return I + q
                return I + div(num + den - 1, den)
    d = 1
    for c in X.m.values():
        d = d * Fraction(c).denominator // __import__('math').gcd(d, Fraction(c).denominator)
    Y = X * d
    if isint(Y) and d > 1:
        return I + div(Y + (d - 1), d)
    return I + fn('ceil', X)


def merge_ites(p):
    """one if-then-else instead of several with the same condition"""
    if not isinstance(p, Poly):
        return p
    for _ in range(4):
        cs = {}
        for m in p.m:
            for i in m:
                a = T.get(i)
                if a.k == 'ite':
                    cs.setdefault(a.key[1], set()).add(m)
                    cs.setdefault(neg(a.key[1]), set()).add(m)
        c = next((c for c, ms in cs.items() if len(ms) > 1 or len([1 for m in ms if len(m) > 1])), None)
        if c is None:
            a = None
            if len([1 for m in p.m for i in m if T.get(i).k == 'ite']) == 1 and len(p.m) > 1:
                a = next(T.get(i) for m in p.m for i in m if T.get(i).k == 'ite')
                return ite0(a.key[1], assume(p, a.key[1]), assume(p, neg(a.key[1])))
            return p
        if c[0] in ('ne', 'nb', 'or'):
            c = neg(c)
        q = ite0(c, merge_ites(assume(p, c)), merge_ites(assume(p, neg(c))))
        if q == p:
            return p
        p = q
        if p.single() is not None:
            return p
    return p


def mksum(d, t, n):
    """sum of d over the first n iterations; a formal sum for memory contents"""
    tid = t.single().id
    reg, frm = {}, {}
    for k, c in d.m.items():
        if any((T.get(i).k in ('ld', 'fn') or T.get(i).k == 'ite' and any(T.get(j).k in ('ld', 'fn') for j in cvs(T.get(i).key[1]))) and tid in T.get(i).vs for i in k):
            frm[k] = c
        else:
            reg[k] = c
    r = psum(Poly(reg), t.single(), n)
    if frm:
        b = fresh('sum')
        r = r + P(atom('fn', 'SUM', b, n, subst(Poly(frm), {tid: b})))
    return r


def fcmp(op, x, y):
    if op in ('>', '>='):
        op, x, y = {'>': '<', '>=': '<='}[op], y, x
    if op in ('==', '!='):
        d = x - y
        if d.m and next(iter(sorted(d.m.items(), key=lambda q: q[0])))[1] < 0:
            x, y = y, x
        c = le(1, fn('f==', x, y))
        return c if op == '==' else neg(c)
    return le(1, fn('f' + op, x, y))


def flagform(p, hid):
    """p = K if cond else h  ->  (cond, K)"""
    if not isinstance(p, Poly):
        return None
    a = p.single()
    if a is not None and a.id == hid:
        return False, None
    if p.const() is not None:
        return True, p
    if a is not None and a.k == 'ite':
        x, y = flagform(a.key[2], hid), flagform(a.key[3], hid)
        c = a.key[1]
        if x is None or y is None or hid in cvs(c) or (x[1] is not None and y[1] is not None and x[1] != y[1]):
            return None
        return disj(conj(c, x[0]), conj(neg(c), y[0])), x[1] if x[1] is not None else y[1]
    return None


def evars(e):
    out = set()
    def ex(x):
        if isinstance(x, E):
            if x.k == 'var':
                out.add(x.a[0])
            for y in x.a if isinstance(x.a, (tuple, list)) else ():
                if isinstance(y, E):
                    ex(y)
                elif isinstance(y, (list, tuple)):
                    for z in y:
                        ex(z)
    ex(e)
    return out


def trvs(tr):
    out = set()
    for n in tr:
        if n[0] == 'loop':
            out |= n[1].n.vs() | trvs(n[1].body)
        elif n[0] == 'if':
            out |= cvs(n[1]) | trvs(n[2])
        else:
            for x in n[1:]:
                out |= tvs(x)
                if isinstance(x, tuple) and not T.is_cond(x):
                    for y in x:
                        out |= tvs(y)
    return out


def vload(s, p, st, tr, n=8):
    return Vec([s.load(Ptr(p.buf, p.off + i), 'float', st, tr) for i in range(n)])


def vecop(s, name, v, st, tr):
    n = name
    if n.startswith('_mm256_') or n.startswith('_mm_'):
        w = 8 if n.startswith('_mm256_') else 4
        o = n.split('_', 2)[2] if n.startswith('_mm_') else n[len('_mm256_'):]
        if o in ('loadu_ps', 'load_ps'):
            if o == 'load_ps':
                s.oblige(st, eq(mod(v[0].off, w), 0), 'aligned load: offset a multiple of %d floats' % w)
            return vload(s, v[0], st, tr, w)
        if o in ('storeu_ps', 'store_ps'):
            if o == 'store_ps':
                s.oblige(st, eq(mod(v[0].off, w), 0), 'aligned store: offset a multiple of %d floats' % w)
            for i, x in enumerate(v[1].l):
                s.write(Ptr(v[0].buf, v[0].off + i), x, 'float', st, tr)
            return None
        if o == 'broadcast_ss':
            x = s.load(v[0], 'float', st, tr)
            return Vec([x] * w)
        if o in ('set1_ps', 'set_ps1'):
            return Vec([topoly(v[0])] * w)
        if o == 'setzero_ps':
            return Vec([ZERO] * w)
        if o == 'fmadd_ps':
            return Vec([a * b + c for a, b, c in zip(v[0].l, v[1].l, v[2].l)])
        if o == 'fmsub_ps':
            return Vec([a * b - c for a, b, c in zip(v[0].l, v[1].l, v[2].l)])
        if o == 'fnmadd_ps':
            return Vec([c - a * b for a, b, c in zip(v[0].l, v[1].l, v[2].l)])
        if o == 'mul_ps':
            return Vec([a * b for a, b in zip(v[0].l, v[1].l)])
        if o == 'add_ps':
            return Vec([a + b for a, b in zip(v[0].l, v[1].l)])
        if o == 'sub_ps':
            return Vec([a - b for a, b in zip(v[0].l, v[1].l)])
        if w == 8 and o in ('unpacklo_ps', 'unpackhi_ps'):
            a, b = v[0].l, v[1].l
            h = 2 if 'hi' in o else 0
            return Vec([x for q in (0, 4) for x in (a[q + h], b[q + h], a[q + h + 1], b[q + h + 1])])
        if w == 8 and o == 'shuffle_ps':
            a, b, im = v[0].l, v[1].l, int(topoly(v[2]).const())
            out = []
            for q in (0, 4):
                out += [a[q + (im & 3)], a[q + ((im >> 2) & 3)], b[q + ((im >> 4) & 3)], b[q + ((im >> 6) & 3)]]
            return Vec(out)
        if w == 8 and o == 'permute2f128_ps':
            a, b, im = v[0].l, v[1].l, int(topoly(v[2]).const())
            def half(c):
                if c & 8:
                    return (ZERO,) * 4
                src = (a, a, b, b)[c & 3]
                return src[0:4] if (c & 1) == 0 else src[4:8]
            return Vec(half(im & 15) + half((im >> 4) & 15))
        raise Unsupported('intrinsic ' + n)
    return NotImplemented


def trread(tr):
    out = set()
    for n in tr:
        if n[0] == 'loop':
            out |= trread(n[1].body)
        elif n[0] == 'if':
            out |= trread(n[2])
        elif n[0] == 'r':
            out.add(n[1][0])
    return out


def minus(p, h):
    """p - h, pushed into if-then-else"""
    hid = h.single().id
    a = p.single()
    if a is not None and a.k == 'ite' and hid in a.vs and hid not in cvs(a.key[1]):
        return ite(a.key[1], minus(a.key[2], h), minus(a.key[3], h))
    return p - h


def multiple(pr, F, v, unit):
    """v is a multiple of unit in every branch"""
    a = v.single()
    if a is not None and a.k == 'ite':
        c, x, y = a.key[1:]
        return (pr.prove(F, neg(c)) or multiple(pr, F + [c], x, unit)) and (pr.prove(F, c) or multiple(pr, F + [neg(c)], y, unit))
    it = pr._fi(v)
    if it is not None:
        n = neg(it)
        return (pr.prove(F, n) or multiple(pr, F + [it], assume(v, it), unit)) and (pr.prove(F, it) or multiple(pr, F + [n], assume(v, n), unit))
    # x - x % unit
    sub = {}
    for i in v.vs():
        x = T.get(i)
        if x.k == 'mod' and x.key[2] == unit:
            sub[x.id] = x.key[1] - unit * fresh('quot')
    w = subst(v, sub) if sub else v
    if exact_div(w, unit) is not None:
        return True
    return pr.prove(F, eq(mod(v, unit), 0))
