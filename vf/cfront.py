"""Front end: clang's JSON AST of the staged sources -> a small AST.

Nothing is rewritten: every statement and expression of a function body is kept.  What is dropped: source
locations, value categories, parentheses, lvalue-to-rvalue and array-decay casts, attributes."""
import json, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


class NoReturn(Unsupported):
    """a call that ends the program"""


class E:
    __slots__ = ('k', 'a', 't')
    def __init__(s, k, a, t):
        s.k, s.a, s.t = k, a, t
    def __repr__(s):
        return '%s%r' % (s.k, tuple(s.a))


class S:
    __slots__ = ('k', 'a', 'line')
    def __init__(s, k, *a):
        s.k, s.a, s.line = k, a, None
    def __repr__(s):
        return '%s%r' % (s.k, s.a)


class Func:
    def __init__(s, name, params, body, file, ret):
        s.name, s.params, s.body, s.file, s.ret = name, params, body, file, ret   # params: [(id, name, cat)]


INTT = {'int', 'long', 'short', 'char', 'unsigned', 'signed', 'bool', 'size_t', 'unsigned int', 'unsigned long', 'long long', 'unsigned char',
        'unsigned long long', 'unsigned short', 'signed char', 'time_t', '_Bool', 'ssize_t', 'ptrdiff_t', 'uint32_t', 'uint64_t', 'int32_t', 'int64_t', 'intptr_t', 'uintptr_t'}


def cat(ty):
    """type category of a clang type dict"""
    q = ty.get('desugaredQualType') or ty.get('qualType') or ''
    q0 = ty.get('qualType') or ''
    for s in (q, q0):
        s = re.sub(r'\b(const|volatile|__restrict|register|static)\b', '', s).strip()
        s = re.sub(r'\s+', ' ', s).strip()
        if 'vector_size' in s or s in ('__m256', '__m128') or 'ext_vector' in s:
            return 'vec' if not s.endswith('*') and '[' not in s else 'ptr'
        if s.endswith('&'):
            return 'ref'
        if s.endswith('*') or s.endswith(']') or '(*)' in s or s.endswith('* '):
            return 'ptr'
        if s.startswith('enum ') or s == 'sched':
            return 'int'
        if s == 'bool' or s == '_Bool':
            return 'bool'
        if s in INTT:
            return 'int'
        if s == 'float':
            return 'float'
        if s in ('double', 'long double'):
            return 'double'
        if s == 'void':
            return 'void'
        if '(' in s:
            return 'func'
    return 'struct'


SIZES = {'float': 4, 'double': 8, 'int': 4, 'char': 1, 'unsigned char': 1, 'bool': 1, 'long': 8, 'unsigned long': 8, 'unsigned int': 4, 'size_t': 8}


def sizeof(q):
    q = q.replace('const', '').strip()
    if q.endswith('*'):
        return 8
    return SIZES.get(q)


class TU:
    def __init__(self, path, js):
        self.path = path
        self.file = path
        self.funcs, self.globals, self.enums, self.structs = {}, {}, {}, {}
        self.src = {}
        self.unsupported = {}
        self.curfn = None
        self._annot(js)
        for d in js.get('inner', []):
            self.top(d)

    # -- locations: clang prints a file name only when it changes, in dump order
    def _annot(self, n):
        st = [None]
        def loc(l):
            if not isinstance(l, dict):
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    loc(l[k])
            if 'file' in l:
                st[0] = l['file']
        def rec(n):
            if not isinstance(n, dict):
                return
            loc(n.get('loc'))
            r = n.get('range')
            if r:
                loc(r.get('begin')); f = st[0]; loc(r.get('end'))
                k = n.get('kind') or ''
                if k.startswith('OMP') or k == 'FunctionDecl':
                    n['_file'] = f
            for c in n.get('inner', []) or []:
                rec(c)
        import sys
        sys.setrecursionlimit(20000)
        rec(n)

    def text(self, f, a, b):
        if f not in self.src:
            try:
                self.src[f] = open(f, 'rb').read()
            except OSError:
                self.src[f] = b''
        return self.src[f][a:b].decode('utf8', 'replace')

    def top(self, d):
        k = d.get('kind')
        if k == 'LinkageSpecDecl':
            for c in d.get('inner', []):
                self.top(c)
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for x in c.get('inner', []) or []:
                        if 'value' in x:
                            v = int(x['value'])
                    self.enums[c['id']] = v
                    self.enums[c['name']] = v
        elif k == 'CXXRecordDecl':
            self.structs[d.get('name')] = [(c['name'], cat(c['type'])) for c in d.get('inner', []) if c.get('kind') == 'FieldDecl']
        elif k == 'VarDecl':
            init = [c for c in d.get('inner', []) or [] if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            try:
                self.globals[d['id']] = (d['name'], cat(d['type']), self.expr(init[0]) if init else None, d['type'].get('qualType'))
            except Unsupported:
                self.globals[d['id']] = (d['name'], cat(d['type']), None, d['type'].get('qualType'))
        elif k == 'FunctionDecl':
            ps, body = [], None
            for c in d.get('inner', []) or []:
                if c.get('kind') == 'ParmVarDecl':
                    ini = [x for x in c.get('inner', []) or [] if 'kind' in x]
                    ps.append((c['id'], c.get('name', '_'), cat(c['type'])))
                elif c.get('kind') == 'CompoundStmt':
                    body = c
            if body is None:
                return
            self.curfn = d['name']
            try:
                b = self.stmt(body)
            except Unsupported as e:
                self.unsupported[d['name']] = str(e)
                b = None
            self.funcs[d['name']] = Func(d['name'], ps, b, d.get('_file') or self.path, cat({'qualType': d['type']['qualType'].split('(')[0].strip()}))

    # -- statements
    def stmt(self, n):
        if not n or 'kind' not in n:
            return S('null')
        k = n['kind']; inn = n.get('inner', []) or []
        if k == 'CompoundStmt':
            return S('block', [self.stmt(c) for c in inn])
        if k == 'DeclStmt':
            out = []
            for c in inn:
                if c.get('kind') == 'VarDecl':
                    init = [x for x in c.get('inner', []) or [] if x.get('kind') and not x['kind'].endswith(('Attr', 'Type'))]
                    static = c.get('storageClass') == 'static'
                    if static:
                        raise Unsupported('static local ' + c.get('name', ''))
                    ini = None
                    if init and c.get('init') and init[-1].get('kind') != 'CXXConstructExpr':
                        ini = self.expr(init[-1])
                    out.append(S('decl', c['id'], c.get('name'), cat(c['type']), ini, c['type'].get('qualType', '')))
                elif c.get('kind') in ('TypedefDecl', 'CXXRecordDecl', 'EnumDecl', 'FunctionDecl'):
                    pass
                else:
                    raise Unsupported('declaration ' + str(c.get('kind')))
            return S('block', out) if len(out) != 1 else out[0]
        if k == 'IfStmt':
            if n.get('hasInit') or n.get('hasVar'):
                raise Unsupported('if with init')
            c = self.expr(inn[0])
            return S('if', c, self.stmt(inn[1]), self.stmt(inn[2]) if len(inn) > 2 else S('null'))
        if k == 'ForStmt':
            i, _v, c, inc, b = inn[0], inn[1], inn[2], inn[3], inn[4]
            return S('for', self.stmt(i) if i and 'kind' in i else S('null'), self.expr(c) if c and 'kind' in c else None,
                     self.expr(inc) if inc and 'kind' in inc else None, self.stmt(b), None)
        if k == 'WhileStmt':
            return S('for', S('null'), self.expr(inn[0]), None, self.stmt(inn[1]), None)
        if k == 'DoStmt':
            return S('do', self.stmt(inn[0]), self.expr(inn[1]))
        if k == 'ReturnStmt':
            return S('return', self.expr(inn[0]) if inn else None)
        if k == 'BreakStmt':
            return S('break')
        if k == 'ContinueStmt':
            return S('continue')
        if k == 'NullStmt':
            return S('null')
        if k == 'SwitchStmt':
            return S('switch', self.expr(inn[0]), self.cases(inn[1]))
        if k in ('OMPParallelForDirective', 'OMPParallelForSimdDirective'):
            r = n.get('range', {})
            b, e = r.get('begin', {}), r.get('end', {})
            b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
            txt = ''
            if 'offset' in b and 'offset' in e:
                txt = self.text(n.get('_file') or self.path, b['offset'], e['offset'] + e.get('tokLen', 1) + 200)
                txt = re.split(r'(?<!\\)\n', txt)[0]
            cap = [c for c in inn if c.get('kind') == 'CapturedStmt']
            if not cap:
                raise Unsupported('omp without captured statement')
            body = cap[0]['inner'][0]['inner'][0]
            st = self.stmt(body)
            if st.k != 'for':
                raise Unsupported('omp parallel for without a loop')
            cl = self.clauses(txt)
            decls = {}
            # private clauses: resolve names through the DeclRefExprs clang attaches to the clauses
            for c in inn:
                if c.get('kind') is None:
                    for x in c.get('inner', []) or []:
                        if x.get('kind') == 'DeclRefExpr':
                            decls[x['referencedDecl']['name']] = x['referencedDecl']['id']
            priv = set()
            for nm in cl['private']:
                if nm not in decls:
                    raise Unsupported('private clause on ' + nm)
                priv.add(decls[nm])
            return S('for', st.a[0], st.a[1], st.a[2], st.a[3], dict(private=priv, clauses=cl))
        if k.startswith('OMP'):
            raise Unsupported(k)
        if k in ('LabelStmt', 'GotoStmt', 'GCCAsmStmt', 'CXXForRangeStmt', 'CXXTryStmt'):
            raise Unsupported(k)
        return S('expr', self.expr(n))

    def clauses(self, txt):
        d = {'private': [], 'text': txt.strip()}
        t = re.sub(r'^.*?parallel\s+for(\s+simd)?', '', txt.replace('\\\n', ' '), count=1)
        t = re.split(r'//|/\*', t)[0]
        for m in re.finditer(r'([a-z_]+)\s*(\(([^()]*)\))?', t):
            w, a = m.group(1), m.group(3) or ''
            if w in ('private', 'firstprivate'):
                d['private'] += [x.strip() for x in a.split(',') if x.strip()]
                if w == 'firstprivate':
                    raise Unsupported('firstprivate')
            elif w in ('schedule', 'num_threads', 'proc_bind', 'shared', 'default'):
                if w == 'default' and 'shared' not in a:
                    raise Unsupported('default clause')
            else:
                raise Unsupported('omp clause ' + w)
        return d

    def cases(self, n):
        """[(values|None, [stmts])] in order; fallthrough is resolved by the executor"""
        out = []
        def unwrap(c, vals):
            if c['kind'] == 'CaseStmt':
                ii = c['inner']
                vals.append(self.expr(ii[0]))
                unwrap(ii[1], vals)
            elif c['kind'] == 'DefaultStmt':
                vals.append(None)
                unwrap(c['inner'][0], vals)
            else:
                out.append((vals, [self.stmt(c)]))
        for c in n.get('inner', []) or []:
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                unwrap(c, [])
            else:
                if not out:
                    raise Unsupported('statement before case')
                out[-1][1].append(self.stmt(c))
        return out

    # -- expressions
    def expr(self, n):
        k = n['kind']; inn = [c for c in (n.get('inner', []) or [])]
        t = cat(n['type']) if 'type' in n else None
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr'):
            return self.expr(inn[0])
        if k == 'IntegerLiteral':
            return E('num', (int(n['value']),), 'int')
        if k == 'CXXBoolLiteralExpr':
            return E('num', (1 if n['value'] in (True, 'true') else 0,), 'bool')
        if k == 'CharacterLiteral':
            return E('num', (int(n['value']),), 'int')
        if k == 'FloatingLiteral':
            return E('fnum', (n['value'],), t)
        if k == 'StringLiteral':
            return E('str', (n.get('value', ''),), 'ptr')
        if k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr'):
            return E('null', (), 'ptr')
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                return E('num', (self.enums[r['id']] if r['id'] in self.enums else self.enums[r['name']],), 'int')
            if r['kind'] == 'FunctionDecl':
                return E('fref', (r['name'],), 'func')
            return E('var', (r['id'], r['name']), cat(r['type']))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'):
            ck = n.get('castKind')
            x = [c for c in inn if c.get('kind') and not c['kind'].endswith('Type')]
            e = self.expr(x[0])
            if ck in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BitCast', 'NullToPointer', 'BuiltinFnToFnPtr'):
                return e
            if ck in ('IntegralCast',):
                s = x[0].get('type', {}); 
                return E('cast', (e, ck, n['type'].get('qualType', '')), t)
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'ToVoid'):
                return E('cast', (e, ck, n['type'].get('qualType', '')), t)
            raise Unsupported('cast ' + str(ck))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return E('inc', (op, bool(n.get('isPostfix')), self.expr(inn[0])), t)
            if op == '__extension__':
                return self.expr(inn[0])
            return E('un', (op, self.expr(inn[0])), t)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = self.expr(inn[0]), self.expr(inn[1])
            if op == '=':
                return E('asg', (None, a, b), t)
            return E('bin', (op, a, b), t)
        if k == 'CompoundAssignOperator':
            ct = n.get('computeResultType')
            return E('asg', (n['opcode'][:-1], self.expr(inn[0]), self.expr(inn[1]), cat(ct) if ct else t), t)
        if k == 'ConditionalOperator':
            return E('cond', tuple(self.expr(c) for c in inn), t)
        if k == 'ArraySubscriptExpr':
            a, b = self.expr(inn[0]), self.expr(inn[1])
            return E('idx', (a, b), t)
        if k == 'MemberExpr':
            return E('mem', (self.expr(inn[0]), n['name'], bool(n.get('isArrow'))), t)
        if k == 'CallExpr':
            f = self.expr(inn[0])
            return E('call', (f, [self.expr(c) for c in inn[1:]]), t)
        if k == 'CXXDefaultArgExpr':
            return E('defarg', (), t)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') != 'sizeof':
                raise Unsupported(n.get('name'))
            at = n.get('argType') or (inn[0].get('type') if inn else None)
            q = (at or {}).get('desugaredQualType') or (at or {}).get('qualType', '')
            return E('sizeof', (q, sizeof(q)), 'int')
        if k == 'InitListExpr':
            return E('init', [self.expr(c) for c in inn if c.get('kind')], t)
        if k == 'ImplicitValueInitExpr':
            return E('num', (0,), t)
        raise Unsupported('expression ' + k)


def clang_args(stg):
    return ['clang++', '-fsyntax-only', '-w', '-nostdinc', '-nostdinc++', '-isystem', VERIF + '/vf/shim', '-I' + stg.dir + '/include', '-fopenmp',
            '-mavx', '-mfma', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK', '-Xclang', '-ast-dump=json']


class Program:
    """All functions with a body, over every translation unit that is part of the build."""
    def __init__(self, stg, files=None):
        self.funcs, self.globals, self.enums, self.structs, self.errors, self.unsupported = {}, {}, {}, {}, {}, {}
        files = files or (stg.lib + stg.kern)
        def one(f):
            r = subprocess.run(clang_args(stg) + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                return f, None, r.stderr.decode()[-800:]
            return f, r.stdout, None
        self.hash = hashlib.sha256()
        with ThreadPoolExecutor(8) as ex:
            for f, out, err in ex.map(one, files):
                if err:
                    self.errors[os.path.basename(f)] = err
                    continue
                tu = TU(f, json.loads(out))
                for k, v in tu.funcs.items():
                    if k not in self.funcs or self.funcs[k].body is None:
                        self.funcs[k] = v
                self.unsupported.update(tu.unsupported)
                for gid, g in tu.globals.items():
                    if g[0] not in self.globals or self.globals[g[0]][2] is None:
                        self.globals[g[0]] = g
                self.enums.update({k: v for k, v in tu.enums.items()})
                self.structs.update(tu.structs)


if __name__ == '__main__':
    import sys, time
    class St: pass
    s = St(); s.dir = sys.argv[1]
    import glob
    s.lib = [f for f in sorted(glob.glob(s.dir + '/src/*.cpp')) if not f.endswith(('linear.cpp', 'autotune_sa.cpp'))]
    s.kern = [s.dir + '/src/kernels/haswell/dense.cpp', s.dir + '/src/kernels/haswell/transpose_haswell.cpp']
    t = time.time()
    p = Program(s)
    print(time.time() - t, len(p.funcs), p.errors, p.unsupported)
    print(sorted(p.funcs))
    if len(sys.argv) > 2:
        print(p.funcs[sys.argv[2]].body)
    print(p.globals)
