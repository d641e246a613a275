"""Front end: clang's JSON AST of the real sources in /repo -> a small expression/statement IR.

Nothing is hand-copied: the IR is produced from the AST that clang builds from /repo's current files.
What the extraction drops is listed in DROPPED (and in DESIGN.md).
"""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('NMPCV_REPO', '/repo')
INC = ['-I/usr/include/eigen3', f'-I{REPO}/nmpc_ddp/include', f'-I{REPO}/nmpc_fmpc/include', f'-I{REPO}/nmpc_cgmres/include']
UNITS = {
    'ddp': ('nmpc_ddp', '#include <unordered_map>\n#include <iostream>\n#include <nmpc_ddp/DDPSolver.h>\n'),
    'fmpc': ('nmpc_fmpc', '#include <unordered_map>\n#include <iostream>\n#include <nmpc_fmpc/FmpcSolver.h>\n'),
    'cgmres': ('nmpc_cgmres', f'#include <cassert>\n#include <iostream>\n#include "{REPO}/nmpc_cgmres/src/CgmresSolver.cpp"\n'),
}
DROPPED = [
    'stream output (statements whose leftmost operand is std::cout/std::cerr or an ofstream) and its arguments',
    'std::chrono time stamps and calcDuration (durations become unconstrained reals)',
    'assert() statements (the library is analysed as built with NDEBUG)',
    'text of exception messages and of string literals',
    'EIGEN_MAKE_ALIGNED_OPERATOR_NEW, alignment and allocation (no out-of-memory)',
]


class FrontError(Exception):
    pass


class E:
    """expression: kind k, operands in attributes"""
    __slots__ = ('k', 'a', 'ty', 'line', 'name')

    def __init__(s, k, a=(), ty=None, line=None, name=None):
        s.k, s.a, s.ty, s.line, s.name = k, list(a), ty, line, name

    def __repr__(s):
        return f"{s.k}{':' + str(s.name) if s.name is not None else ''}({', '.join(map(repr, s.a))})"


class S:
    __slots__ = ('k', 'a', 'line')

    def __init__(s, k, a=(), line=None):
        s.k, s.a, s.line = k, list(a), line

    def __repr__(s):
        return f"{s.k}[{', '.join(map(repr, s.a))}]"


class Var:
    __slots__ = ('id', 'name', 'ty', 'ref', 'init', 'line', 'const')

    def __init__(s, id, name, ty, ref, init, line, const=False):
        s.id, s.name, s.ty, s.ref, s.init, s.line, s.const = id, name, ty, ref, init, line, const

    def __repr__(s):
        return f"{s.name}:{s.ty}{'&' if s.ref else ''}={s.init!r}"


class Func:
    def __init__(s, cls, name, params, body, inits, ret, line, file, kind, virtual=False):
        s.cls, s.name, s.params, s.body, s.inits, s.ret, s.line, s.file, s.kind, s.virtual = cls, name, params, body, inits, ret, line, file, kind, virtual

    @property
    def key(s):
        return f'{s.cls}::{s.name}' if s.cls else s.name


class Cls:
    def __init__(s, name):
        s.name = name
        s.fields = []  # Var
        s.aliases = {}
        s.enums = {}
        s.bases = []


def docs(txt):
    d = json.JSONDecoder()
    i, n = 0, len(txt)
    while i < n:
        while i < n and txt[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(txt, i)
        yield o


def run_clang(unit, workdir):
    filt, src = UNITS[unit]
    tu = os.path.join(workdir, f'{unit}.cpp')
    with open(tu, 'w') as f:
        f.write(src)
    outs = []
    for fl in filt.split('|'):
        cmd = ['clang++-18', '-std=c++17'] + INC + ['-fsyntax-only', '-w', '-DNDEBUG', '-Xclang', '-ast-dump=json', '-Xclang', f'-ast-dump-filter={fl}', tu]
        if not os.path.exists('/usr/bin/clang++-18'):
            cmd[0] = 'clang++'
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise FrontError('clang failed: ' + p.stderr[:2000])
        outs.append(p.stdout)
    return outs


TRANSPARENT = {'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr',
               'FullExpr'}


def split_targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<':
            d += 1
        if c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Front:
    def __init__(self, unit, workdir):
        self.unit = unit
        self.classes = {}
        self.funcs = {}  # key -> [Func]
        self.enumconst = {}  # id -> (enum, name, val)
        self.record_name = {}  # record id -> simple name
        self.files = {}
        self.ndecl = 0
        seen = set()
        self.alld = []
        for txt in run_clang(unit, workdir):
            for d in docs(txt):
                if d.get('id') in seen:
                    continue
                seen.add(d.get('id'))
                self.cur_file = None
                self.cur_line = None
                self.annotate(d)
                self.alld.append(d)
        for d in self.alld:
            self.scan_records(d, None)
        for d in self.alld:
            self.collect(d, None)

    # ---- location annotation (clang's JSON omits repeated file/line)
    def annotate(self, n):
        def loc(l):
            if not isinstance(l, dict):
                return
            if 'spellingLoc' in l or 'expansionLoc' in l:
                loc(l.get('spellingLoc'))
                loc(l.get('expansionLoc'))
                return
            if 'file' in l:
                self.cur_file = l['file']
            if 'line' in l:
                self.cur_line = l['line']
        stack_done = None
        if 'loc' in n:
            loc(n['loc'])
        if 'range' in n:
            loc(n['range'].get('begin'))
            n['_line'], n['_file'] = self.cur_line, self.cur_file
            loc(n['range'].get('end'))
        else:
            n['_line'], n['_file'] = self.cur_line, self.cur_file
        for key in ('inner', 'array_filler'):
            for c in n.get(key, ()) or ():
                if isinstance(c, dict):
                    self.annotate(c)

    def text(self, n):
        b = n['range']['begin']
        e = n['range']['end']
        if 'expansionLoc' in b or 'spellingLoc' in b:
            b = b.get('spellingLoc', b)
        if 'expansionLoc' in e or 'spellingLoc' in e:
            e = e.get('spellingLoc', e)
        f = b.get('file') or n['_file']
        if f not in self.files:
            self.files[f] = open(f, 'rb').read()
        return self.files[f][b['offset']:e['offset'] + e.get('tokLen', 0)].decode('utf8', 'replace')

    # ---- declarations
    def scan_records(self, n, parent):
        k = n.get('kind')
        if k in ('ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            return
        if k == 'CXXRecordDecl' and n.get('name') and not n.get('isImplicit'):
            nm = (parent + '::' if parent else '') + n['name']
            self.record_name[n['id']] = nm
            c = self.classes.setdefault(nm, Cls(nm))
            for b in n.get('bases', ()):
                c.bases.append(b['type']['qualType'])
            parent = nm
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.scan_records(c, parent)

    def in_repo(self, n):
        return n.get('_file') is None or str(n.get('_file', '')).startswith(REPO)

    def collect(self, n, cls):
        k = n.get('kind')
        if k in ('ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            return
        if k == 'CXXRecordDecl' and n.get('name') and not n.get('isImplicit'):
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    self.collect(c, self.record_name[n['id']])
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', ()):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    self.collect(c, cls)
                    break
            return
        if k in ('TypeAliasDecl', 'TypedefDecl') and cls:
            self.classes[cls].aliases[n['name']] = n['type']['qualType']
            return
        if k == 'FieldDecl' and cls:
            init = None
            for c in n.get('inner', ()):
                if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')):
                    try:
                        init = self.expr(c)
                    except FrontError:
                        init = E('opaque')
            self.classes[cls].fields.append(Var(n['id'], n.get('name'), n['type']['qualType'], n['type']['qualType'].endswith('&'), init, n['_line'],
                                                n['type']['qualType'].startswith('const ')))
            return
        if k == 'EnumDecl':
            v = 0
            vals = {}
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    for cc in c.get('inner', ()):
                        x = self.find_value(cc)
                        if x is not None:
                            v = int(x)
                    vals[c['name']] = v
                    self.enumconst[c['id']] = (n.get('name'), c['name'], v)
                    v += 1
            if cls:
                self.classes[cls].enums[n.get('name')] = vals
            return
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'FunctionDecl'):
            pc = n.get('parentDeclContextId')
            if pc and pc in self.record_name:
                cls = self.record_name[pc]
            body = None
            inits = []
            params = []
            for c in n.get('inner', ()):
                ck = c.get('kind')
                if ck == 'ParmVarDecl':
                    params.append(self.parm(c))
                elif ck in ('CompoundStmt', 'CXXTryStmt'):
                    body = c
                elif ck == 'CXXCtorInitializer':
                    inits.append(c)
            if body is None or n.get('isImplicit') or n.get('explicitlyDefaulted'):
                if n.get('virtual') or n.get('pure'):
                    self.funcs.setdefault(f'{cls}::{n["name"]}', [])
                return
            rt = n['type']['qualType'].split('(')[0].strip()
            f = Func(cls, n['name'] if k != 'CXXConstructorDecl' else '<ctor>', params, None, [], rt, n['_line'], n['_file'], k, n.get('virtual', False))
            f._body, f._inits = body, inits
            self.funcs.setdefault(f.key, []).append(f)
            return
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.collect(c, cls)

    def get(self, key):
        """all overloads with body, IR built lazily"""
        out = []
        for f in self.funcs.get(key, []):
            if f.body is None:
                f.inits = []
                for c in f._inits:
                    ai = c.get('anyInit')
                    args = [self.expr(x) for x in c.get('inner', ())]
                    if ai:
                        f.inits.append((ai.get('name'), args))
                f.body = self.stmt(f._body)
            out.append(f)
        return out

    def find_value(self, n):
        if 'value' in n:
            return n['value']
        for c in n.get('inner', ()):
            v = self.find_value(c)
            if v is not None:
                return v
        return None

    def parm(self, c):
        q = c['type']['qualType']
        d = None
        for x in c.get('inner', ()):
            if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')):
                try:
                    d = self.expr(x)
                except FrontError:
                    d = None
        return Var(c['id'], c.get('name', ''), q, q.rstrip().endswith('&'), d, c['_line'], 'const' in q)

    # ---- statements
    def stmt(self, n):
        k = n.get('kind')
        ln = n.get('_line')
        I = n.get('inner', [])
        if k == 'CompoundStmt':
            return S('block', [self.stmt(c) for c in I], ln)
        if k == 'DeclStmt':
            out = []
            for c in I:
                if c['kind'] == 'VarDecl':
                    out.append(S('decl', [self.vardecl(c)], ln))
                elif c['kind'] in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                    if c['kind'] in ('TypeAliasDecl', 'TypedefDecl'):
                        self.classes.setdefault('<local>', Cls('<local>')).aliases[c['name']] = c['type']['qualType']
                    continue
                else:
                    raise FrontError(f'declaration {c["kind"]} at line {ln}')
            return out[0] if len(out) == 1 else S('seq', out, ln)
        if k == 'IfStmt':
            I2 = list(I)
            pre = []
            if n.get('hasInit'):
                pre.append(self.stmt(I2.pop(0)))
            if n.get('hasVar'):
                v = I2.pop(0)
                pre.append(self.stmt(v))
            c = self.expr(I2[0])
            t = self.stmt(I2[1])
            e = self.stmt(I2[2]) if len(I2) > 2 else None
            r = S('if', [c, t, e, bool(n.get('isConstexpr'))], ln)
            return S('block', pre + [r], ln) if pre else r
        if k == 'ForStmt':
            init, cv, cond, inc, body = I
            return S('for', [self.stmt(init) if init.get('kind') else None, self.expr(cond) if cond.get('kind') else None,
                             self.expr(inc) if inc.get('kind') else None, self.stmt(body)], ln)
        if k == 'WhileStmt':
            if n.get('hasVar'):
                raise FrontError('while with declaration')
            return S('for', [None, self.expr(I[0]), None, self.stmt(I[1])], ln)
        if k == 'DoStmt':
            return S('do', [self.stmt(I[0]), self.expr(I[1])], ln)
        if k == 'CXXForRangeStmt':
            rng = var = None
            body = I[-1]
            decls = [c for c in I if isinstance(c, dict) and c.get('kind') == 'DeclStmt']
            for d in decls:
                v = d['inner'][0]
                if v.get('name', '').startswith('__range'):
                    rng = self.expr(v['inner'][0])
            v = decls[-1]['inner'][0]
            q = v['type']['qualType']
            var = Var(v['id'], v.get('name'), q, '&' in q, None, ln, 'const' in q)
            return S('forrange', [var, rng, self.stmt(body)], ln)
        if k == 'ReturnStmt':
            return S('return', [self.expr(I[0]) if I else None], ln)
        if k == 'BreakStmt':
            return S('break', [], ln)
        if k == 'ContinueStmt':
            return S('continue', [], ln)
        if k == 'NullStmt':
            return S('block', [], ln)
        if k == 'CXXTryStmt':
            raise FrontError(f'try statement at line {ln}')
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'AttributedStmt':
            return self.stmt(I[-1])
        e = self.expr(n)
        return S('expr', [e], ln)

    def switch(self, n):
        I = [c for c in n['inner'] if isinstance(c, dict) and c.get('kind')]
        cond = self.expr(I[-2])
        body = I[-1]
        items = []  # (label or 'default' | None, stmt)
        def flat(c):
            k = c['kind']
            if k == 'CaseStmt':
                items.append(('case', self.expr(c['inner'][0])))
                flat(c['inner'][-1])
            elif k == 'DefaultStmt':
                items.append(('default', None))
                flat(c['inner'][0])
            else:
                items.append(('stmt', self.stmt(c)))
        for c in body['inner']:
            flat(c)
        return S('switch', [cond, items], n['_line'])

    def vardecl(self, c):
        q = c['type']['qualType']
        init = None
        for x in c.get('inner', ()):
            if isinstance(x, dict) and x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')):
                init = self.expr(x)
        return Var(c['id'], c.get('name'), q, '&' in q.split('<')[-1].split('>')[-1] or q.rstrip().endswith('&'), init, c['_line'], q.startswith('const'))

    # ---- expressions
    def expr(self, n):
        k = n.get('kind')
        ln = n.get('_line')
        I = n.get('inner', [])
        ty = n.get('type', {}).get('qualType')
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('UserDefinedConversion',):
            return self.expr(I[0])
        if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr') and k != 'CXXFunctionalCastExpr':
            if n.get('castKind') in ('FloatingToIntegral',):
                return E('ftoi', [self.expr(I[0])], ty, ln)
            if n.get('castKind') == 'Dependent' and ty in ('int', 'size_t', 'Eigen::Index'):
                return E('icast', [self.expr(I[0])], ty, ln)
            return self.expr(I[0])
        if k in TRANSPARENT:
            return self.expr(I[0])
        if k == 'CXXFunctionalCastExpr':
            x = self.expr(I[0])
            if x.k == 'construct':
                return x
            return E('construct', [x], ty, ln)
        if k in ('IntegerLiteral',):
            return E('int', name=int(n['value']), ty=ty, line=ln)
        if k == 'FloatingLiteral':
            # exact source text, so 1e-3 is the decimal 1/1000
            return E('real', name=self.flt(n), ty=ty, line=ln)
        if k == 'CXXBoolLiteralExpr':
            return E('bool', name=bool(n['value']), ty=ty, line=ln)
        if k in ('StringLiteral', 'CharacterLiteral'):
            return E('str', name=n.get('value'), ty=ty, line=ln)
        if k == 'CXXNullPtrLiteralExpr':
            return E('nullptr', line=ln)
        if k == 'CXXThisExpr':
            return E('this', line=ln)
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                en = self.enumconst.get(r['id'])
                if en is None:
                    return E('qual', name=r.get('name'), line=ln)
                return E('enum', name=en[2], ty=en[0], line=ln)
            if r['kind'] == 'NonTypeTemplateParmDecl':
                return E('tparam', name=r['name'], ty='int', line=ln)
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'FunctionTemplateDecl'):
                return E('fname', name=r['name'], line=ln, ty=self.qual(n))
            return E('var', [r['id']], ty, ln, r.get('name'))
        if k == 'UnresolvedLookupExpr':
            return E('fname', name=n.get('name'), line=ln, ty=self.qual(n))
        if k == 'DependentScopeDeclRefExpr':
            return E('qual', name=self.text(n), line=ln)
        if k == 'MemberExpr':
            nm = n.get('name', '')
            return E('member', [self.expr(I[0])] if I else [E('this')], ty, ln, nm)
        if k == 'CXXDependentScopeMemberExpr':
            if not I and '::' in self.text(n):
                return E('qual', name=self.text(n), line=ln)
            base = self.expr(I[0]) if I else E('this', line=ln)
            nm = n.get('member')
            if n.get('hasExplicitTemplateArgs') or 'template' in self.text(n):
                m = re.search(r'(\w+)\s*<([^<>]*)>\s*$', self.text(n))
                if m and m.group(1) == nm:
                    nm = nm + '<' + m.group(2).strip() + '>'
            return E('member', [base], ty, ln, nm)
        if k == 'UnresolvedMemberExpr':
            t = self.text(n)
            nm = re.split(r'->|\.|::', t)[-1].strip()
            nm = re.sub(r'^template\s+', '', nm)
            if I:
                return E('member', [self.expr(I[0])], ty, ln, nm)
            return E('member', [E('this', line=ln)], ty, ln, nm)
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            f = self.expr(I[0])
            args = [self.expr(c) for c in I[1:] if c.get('kind') != 'CXXDefaultArgExpr' or True]
            return E('call', [f] + args, ty, ln)
        if k == 'CXXDefaultArgExpr':
            return self.expr(I[0]) if I else E('defarg', line=ln, ty=ty)
        if k == 'CXXOperatorCallExpr':
            f = self.expr(I[0])
            op = (f.name or '').replace('operator', '')
            args = [self.expr(c) for c in I[1:]]
            if op == '()':
                return E('call', args, ty, ln)
            if op == '[]':
                return E('index', args, ty, ln)
            if op == '->' or (op == '*' and len(args) == 1):
                return E('deref', args, ty, ln)
            if op in ('=',):
                return E('assign', args, ty, ln)
            if op in ('+=', '-=', '*=', '/='):
                return E('cassign', args, ty, ln, op[0])
            if len(args) == 1:
                if op in ('++', '--'):
                    return E('incdec', args, ty, ln, op)
                return E('unop', args, ty, ln, op)
            return E('binop', args, ty, ln, op)
        if k == 'ArraySubscriptExpr':
            return E('index', [self.expr(c) for c in I], ty, ln)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = self.expr(I[0]), self.expr(I[1])
            if op == '=':
                return E('assign', [a, b], ty, ln)
            return E('binop', [a, b], ty, ln, op)
        if k == 'CompoundAssignOperator':
            return E('cassign', [self.expr(I[0]), self.expr(I[1])], ty, ln, n['opcode'][:-1])
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return E('incdec', [self.expr(I[0])], ty, ln, op)
            if op == '*':
                return E('deref', [self.expr(I[0])], ty, ln)
            return E('unop', [self.expr(I[0])], ty, ln, op)
        if k == 'ConditionalOperator':
            return E('cond', [self.expr(c) for c in I], ty, ln)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXUnresolvedConstructExpr', 'CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            args = [self.expr(c) for c in I if c.get('kind') != 'CXXDefaultArgExpr']
            return E('construct', args, ty, ln)
        if k in ('ParenListExpr', 'InitListExpr', 'CXXStdInitializerListExpr'):
            args = [self.expr(c) for c in I]
            return E('initlist', args, ty, ln, k)
        if k == 'LambdaExpr':
            rec = I[0]
            op = None
            for c in rec.get('inner', ()):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    op = c
            if op is None:
                for c in rec.get('inner', ()):
                    if c.get('kind') == 'FunctionTemplateDecl':
                        raise FrontError(f'generic lambda at line {ln}')
            params = [self.parm(c) for c in op.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            body = [c for c in I if c.get('kind') == 'CompoundStmt'][-1]
            return E('lambda', [params, self.stmt(body)], ty, ln)
        if k == 'CXXThrowExpr':
            return E('throw', [self.expr(I[0])] if I else [], ty, ln)
        if k == 'CXXDefaultInitExpr':
            return E('definit', ty=ty, line=ln)
        if k == 'CXXNewExpr':
            raise FrontError(f'new expression at line {ln}')
        if k == 'UnaryExprOrTypeTraitExpr':
            return E('opaque', line=ln)
        if k == 'RecoveryExpr':
            raise FrontError('recovery expression')
        if k == 'PackExpansionExpr':
            raise FrontError('pack expansion')
        raise FrontError(f'expression {k} at {n.get("_file")}:{ln}')

    def qual(self, n):
        t = self.text(n)
        return t

    def flt(self, n):
        t = self.text(n).strip()
        m = re.match(r'^[-+]?[0-9.]+([eE][-+]?[0-9]+)?', t)
        if m and m.group(0):
            return m.group(0)
        return n['value']
