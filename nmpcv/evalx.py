"""Expressions, calls and the Eigen / std library semantics."""
import re
from .exec import *
from .exec import THROWN
from .terms import sinv

FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)
ONE_I = z3.IntVal(1)
MAXD = z3.RealVal('179769313486231570000000000000000000000')   # any huge positive constant: numeric_limits<double>::max()
MIND = z3.RealVal('1/100000000000000000000000000000000000000')  # any tiny positive constant: numeric_limits<double>::min()
EPSD = z3.RealVal('1/4503599627370496')
VIEWS = {'array', 'matrix', 'noalias', 'eval', 'derived', 'col', 'row', 'head', 'tail', 'segment', 'diagonal', 'transpose', 'block',
         'leftCols', 'topRows', 'topLeftCorner', 'middleCols', 'topLeftCorner', 'get'}


class Eval(Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.this_stack = []
        self.ret_ref = []
        self.fcalls = {}

    # ------------------------------------------------------------ helpers
    def args_list(self, st, exprs):
        """list of (st, [vals]) with sequencing left to right"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s0, vs in res:
                if vs and vs[-1] is THROWN:
                    nxt.append((s0, vs))
                    continue
                for s1, v in self.ev(s0, e):
                    nxt.append((s1, vs + [v]))
            res = nxt
        return res

    def ev_args(self, st, exprs):
        return self.args_list(st, exprs)

    def ev_args_loc(self, st, exprs):
        """values as (loc, val, expr)"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s0, vs in res:
                for s1, (loc, v) in self.evl(s0, e):
                    nxt.append((s1, vs + [(loc, v, e)]))
            res = nxt
        return res

    def ev_cond(self, st, c):
        for s1, v in self.ev(st, c):
            if v is THROWN:
                yield s1, THROWN
            else:
                yield s1, self.truth(v)

    def truth(self, v):
        if isinstance(v, Num):
            if z3.is_bool(v.t):
                return v.t
            return v.t != 0
        if isinstance(v, Obj) and 'nonnull' in v.d:
            return v.d['nonnull']
        raise Unsupported(f'truth value of {v}')

    def loc_step(self, loc, *steps):
        return (loc[0], tuple(loc[1]) + tuple(steps))

    # ------------------------------------------------------------ lvalues
    def evl(self, st, e):
        """yields (st, (loc|None, val)); val may be None when loc is given"""
        k = e.k
        if k == 'var':
            if e.a[0] not in st.mem:
                v = self.spec.global_var(self, st, e)
                yield st, (None, v)
                return
            yield st, ((e.a[0], ()), None)
            return
        if k == 'this':
            yield st, (self.this_stack[-1], None)
            return
        if k == 'member':
            for s1, (loc, v) in self.evl(st, e.a[0]):
                if v is THROWN:
                    yield s1, (None, THROWN)
                    continue
                if loc is not None:
                    cur = self.read(s1, loc)
                    if isinstance(cur, Obj) and cur.k == 'ptrto':
                        loc = cur.d['loc']
                        cur = self.read(s1, loc)
                    if isinstance(cur, Obj) and cur.k == 'ptr':
                        yield s1, (None, self.spec.obj_field(self, s1, cur, e.name))
                        continue
                    yield s1, (self.loc_step(loc, ('f', e.name)), None)
                else:
                    if isinstance(v, Struct):
                        yield s1, (None, v.f[e.name])
                    elif isinstance(v, Obj):
                        yield s1, (None, self.spec.obj_field(self, s1, v, e.name))
                    else:
                        raise Unsupported(f'member {e.name} of {v}')
            return
        if k == 'deref':
            for s1, (loc, v) in self.evl(st, e.a[0]):
                if loc is not None:
                    cur = self.read(s1, loc)
                else:
                    cur = v
                if isinstance(cur, Obj) and cur.k == 'ptrto':
                    yield s1, (cur.d['loc'], None)
                elif isinstance(cur, Obj) and cur.k == 'box':
                    yield s1, (None, cur.d['v'])
                elif isinstance(cur, Obj) and cur.k == 'map':
                    # a live view of the elements of a matrix, in storage order
                    if cur.d['loc'] is None:
                        raise Unsupported('view of unknown data')
                    m = self.read(s1, cur.d['loc'])
                    yield s1, (None, Mat(VECM(m.t, icanon(cur.d['n'])), cur.d['n'], ONE_I, False, True))
                else:
                    yield s1, (loc, v)
            return
        if k == 'index':
            for s1, (loc, v) in self.evl(st, e.a[0]):
                if v is THROWN:
                    yield s1, (None, THROWN)
                    continue
                for s2, iv in self.ev(s1, e.a[1]):
                    yield from self.index(s2, loc, v, [iv], e.line)
            return
        if k == 'construct' and len(e.a) == 1:
            # reference wrappers (Eigen::Ref, std::function copies)
            ty = self.types.parse(e.ty, self.cls_ctx()) if e.ty else ('auto',)
            if e.ty and 'Ref<' in e.ty:
                yield from self.evl(st, e.a[0])
                return
            if ty[0] in ('fn', 'auto'):
                yield from self.evl(st, e.a[0])
                return
        if k == 'call':
            yield from self.call(st, e, True)
            return
        if k == 'assign' or k == 'cassign' or (k == 'incdec'):
            for s1, v in self.ev(st, e):
                if v is THROWN:
                    yield s1, (None, v)
                else:
                    for s2, lv in self.evl(s1, e.a[0]):
                        yield s2, lv
            return
        if k == 'cond':
            for s1, c in self.ev_cond(st, e.a[0]):
                for val, br in ((True, e.a[1]), (False, e.a[2])):
                    cc = c if val else z3not(c)
                    if self.feas(s1, cc):
                        yield from self.evl(s1.assume_branch(cc), br)
            return
        for s1, v in self.ev(st, e):
            yield s1, (None, v)

    def index(self, st, loc, v, idx, line):
        base = self.read(st, loc) if loc is not None else v
        if any(i is THROWN for i in idx):
            yield st, (None, THROWN)
            return
        ts = [i.t for i in idx]
        if isinstance(base, Obj) and base.k == 'ptr' or isinstance(base, Fn):
            raise Unsupported('index of object')
        if isinstance(base, Obj):
            yield st, (None, self.spec.obj_index(self, st, base, idx))
            return
        self.bound(st, base, ts, line)
        if isinstance(base, (Lst, Tup)):
            step = ('i', ts[0])
        elif len(ts) == 1:
            step = ('e', ts[0]) if not (isinstance(base, Mat) and not base.vec) else ('e2', ZERO_I, ts[0])
        else:
            step = ('e2', ts[0], ts[1])
        if loc is not None:
            yield st, (self.loc_step(loc, step), None)
        else:
            yield st, (None, self.read_steps(st, base, (step,)))

    def bound(self, st, base, ts, line):
        """memory safety: every index within the container"""
        if self.dry or not ('idx' in self.tags_on or 'lidx' in self.tags_on):
            return
        if isinstance(base, Lst):
            self.oblige(st, f'index of list within [0, size)', z3.And(ts[0] >= 0, ts[0] < base.n), 'idx' if 'idx' in self.tags_on else 'lidx', line)
        elif 'idx' not in self.tags_on:
            return
        elif isinstance(base, BArr):
            self.oblige(st, f'index of array within [0, size)', z3.And(ts[0] >= 0, ts[0] < base.n), 'idx', line)
        elif isinstance(base, Mat) and base.rows is not None:
            if len(ts) == 1:
                n = base.rows if base.vec else None
                if n is not None:
                    self.oblige(st, f'index of vector within [0, size)', z3.And(ts[0] >= 0, ts[0] < n), 'idx', line)
            else:
                self.oblige(st, f'indices of matrix within its dimensions', z3.And(ts[0] >= 0, ts[0] < base.rows, ts[1] >= 0, ts[1] < base.cols), 'idx', line)

    # ------------------------------------------------------------ rvalues
    def ev(self, st, e, want_loc=False):
        k = e.k
        if k in ('var', 'member', 'index', 'deref', 'this'):
            for s1, (loc, v) in self.evl(st, e):
                if loc is not None:
                    if want_loc:
                        yield s1, RefV(self.resolve(s1, loc))
                    else:
                        yield s1, self.read(s1, loc)
                else:
                    yield s1, v
            return
        if k == 'int':
            yield st, Num(z3.IntVal(e.name))
            return
        if k == 'real':
            yield st, Num(z3.RealVal(e.name))
            return
        if k == 'bool':
            yield st, Num(z3.BoolVal(e.name))
            return
        if k == 'enum':
            yield st, Num(z3.IntVal(e.name))
            return
        if k in ('str', 'opaque', 'defarg'):
            yield st, Obj('opaque')
            return
        if k == 'nullptr':
            yield st, Obj('null', nonnull=FALSE)
            return
        if k == 'pyexpr':
            yield st, e.a[0](self, st)
            return
        if k == 'pystmt':
            yield e.a[0](self, st), VOID
            return
        if k == 'tparam':
            yield st, Num(self.spec.tparam(self, e.name))
            return
        if k == 'qual':
            yield st, self.qualified(e)
            return
        if k == 'fname':
            yield st, Fn(None, e.name)
            return
        if k == 'icast':
            for s1, v in self.ev(st, e.a[0]):
                if isinstance(v, Num) and z3.is_bool(v.t):
                    v = Num(z3.If(v.t, ONE_I, ZERO_I))
                elif isinstance(v, Num) and not z3.is_int(v.t):
                    v = self.ftoi(v)
                yield s1, v
            return
        if k == 'ftoi':
            for s1, v in self.ev(st, e.a[0]):
                yield s1, self.ftoi(v)
            return
        if k == 'throw':
            yield st, THROWN
            return
        if k == 'assign':
            yield from self.assign(st, e)
            return
        if k == 'cassign':
            yield from self.cassign(st, e)
            return
        if k == 'incdec':
            for s1, (loc, v) in self.evl(st, e.a[0]):
                old = self.read(s1, loc)
                d = 1 if '+' in e.name else -1
                new = Num(icanon(old.t + d)) if z3.is_int(old.t) else Num(scanon(old.t + d))
                yield self.write(s1, loc, new), new
            return
        if k == 'unop':
            for s1, v in self.ev(st, e.a[0]):
                if v is THROWN:
                    yield s1, v
                    continue
                if e.name == '!':
                    yield s1, Num(z3not(self.truth(v)))
                elif e.name == '-':
                    yield s1, self.arith('*', Num(z3.RealVal(-1) if not (isinstance(v, Num) and z3.is_int(v.t)) else z3.IntVal(-1)), v)
                elif e.name == '+':
                    yield s1, v
                elif e.name == '&':
                    yield s1, v
                else:
                    raise Unsupported('unary ' + e.name)
            return
        if k == 'binop':
            yield from self.binop(st, e)
            return
        if k == 'cond':
            for s1, c in self.ev_cond(st, e.a[0]):
                if c is THROWN:
                    yield s1, THROWN
                    continue
                # pure branches are merged
                outs = []
                for val, br in ((True, e.a[1]), (False, e.a[2])):
                    cc = c if val else z3not(c)
                    if self.feas(s1, cc):
                        outs.append((cc, list(self.ev(s1.assume_branch(cc), br))))
                if len(outs) == 2 and all(len(o[1]) == 1 and isinstance(o[1][0][1], Num) and self.same_mem(o[1][0][0], s1) for o in outs):
                    a, b = outs[0][1][0][1], outs[1][1][0][1]
                    at, bt = a.t, b.t
                    if at.sort() != bt.sort():
                        at, bt = self.to_real(at), self.to_real(bt)
                    nan = None
                    if a.nan is not None or b.nan is not None:
                        nan = z3.If(c, a.nan if a.nan is not None else FALSE, b.nan if b.nan is not None else FALSE)
                    yield s1, Num(z3.If(c, at, bt), nan)
                else:
                    for cc, o in outs:
                        yield from o
            return
        if k == 'construct':
            ty = self.types.parse(e.ty, self.cls_ctx())
            if e.ty and 'Ref<' in e.ty and len(e.a) == 1:
                yield from self.ev(st, e.a[0])
                return
            if ty[0] in ('struct', 'vec', 'mat', 'list', 'dec', 'barr'):
                yield from self.construct(st, ty, e.a)
                return
            if ty[0] in ('real', 'int', 'bool'):
                if not e.a:
                    yield st, Num({'real': z3.RealVal(0), 'int': ZERO_I, 'bool': FALSE}[ty[0]])
                    return
                for s1, v in self.ev(st, e.a[0]):
                    if ty[0] == 'int' and isinstance(v, Num) and z3.is_real(v.t):
                        v = self.ftoi(v)
                    yield s1, (v if v is THROWN else self.convert(s1, v, ty))
                return
            if len(e.a) == 1:
                yield from self.ev(st, e.a[0])
                return
            if ty[0] == 'array':
                for s1, vs in self.ev_args(st, e.a):
                    yield s1, Tup(vs)
                return
            yield st, Obj('opaque')
            return
        if k == 'initlist':
            if len(e.a) == 1:
                yield from self.ev(st, e.a[0])
                return
            for s1, vs in self.ev_args(st, e.a):
                yield s1, Tup(vs)
            return
        if k == 'lambda':
            yield st, self.closure_(e)
            return
        if k == 'call':
            for s1, (loc, v) in self.call(st, e, want_loc):
                if loc is not None and v is None:
                    if want_loc:
                        yield s1, RefV(self.resolve(s1, loc))
                        continue
                    v = self.read(s1, loc)
                yield s1, v
            return
        raise Unsupported('expression ' + k)

    def ftoi(self, v):
        n = self.fresh('trunc', I)
        return Num(n)

    def closure_(self, e):
        params, body = e.a
        this = self.this_stack[-1] if self.this_stack else None

        def f(eng, st, args):
            fn = Func(eng.cls_ctx(), '<lambda>', params, body, [], '', e.line, None, 'lambda')
            return eng.call_func(st, fn, this, args)
        return Fn(f, '<lambda>')

    def qualified(self, e):
        n = e.name.strip().split('::')[-1]
        if n in ('Dynamic',):
            return Num(z3.IntVal(-1))
        if n in ('Success', 'NumericalIssue', 'NoConvergence', 'InvalidInput'):
            return Obj('info', v=n)
        for c in self.fr.classes.values():
            for en, vals in c.enums.items():
                if n in vals:
                    return Num(z3.IntVal(vals[n]))
        return Fn(None, e.name)

    # ------------------------------------------------------------ assignment
    def assign(self, st, e):
        lhs, rhs = e.a
        for s1, v in self.ev(st, rhs):
            if v is THROWN:
                yield s1, v
                continue
            if isinstance(v, BArr) and v.arr is None:
                s1, v = self.store_barr(s1, v)
            for s2, (loc, lv) in self.evl(s1, lhs):
                if loc is None:
                    if isinstance(lv, Obj) and lv.k == 'opaque':
                        yield s2, v
                        continue
                    raise Unsupported('assignment to rvalue')
                self.alias_check(s2, e, lhs, rhs, loc)
                old = self.read(s2, loc)
                if isinstance(old, Mat) and isinstance(v, Num) and not old.vec:
                    raise Unsupported('scalar to matrix assignment')
                s3 = self.write(s2, loc, v)
                self.size_check(s3, old, v, e.line)
                yield s3, v

    def size_check(self, st, old, v, line):
        pass

    def alias_check(self, st, e, lhs, rhs, loc):
        """Eigen aliasing: x.noalias() = ...x..., x = ...x.transpose() (not inside a product)"""
        if self.dry or 'alias' not in self.tags_on:
            return
        no = lhs.k == 'call' and lhs.a[0].k == 'member' and lhs.a[0].name == 'noalias'
        root, steps = self.resolve(st, loc)
        key = (root, tuple((s[0], s[1] if s[0] == 'f' else (z3.simplify(s[1]).sexpr() if len(s) > 1 and z3.is_expr(s[1]) else None)) for s in steps if s[0] in ('f', 'i')))

        def same(x):
            try:
                rs = list(self.evl(st, x))
            except Unsupported:
                return False
            for _, (l2, _) in rs:
                if l2 is None:
                    continue
                r2, s2 = self.resolve(st, l2)
                k2 = (r2, tuple((s[0], s[1] if s[0] == 'f' else (z3.simplify(s[1]).sexpr() if len(s) > 1 and z3.is_expr(s[1]) else None)) for s in s2 if s[0] in ('f', 'i')))
                if k2 == key:
                    return True
            return False

        bad = []

        def walk(x, inprod, evald):
            if not isinstance(x, E) or evald:
                return
            if x.k == 'call' and x.a[0].k == 'member':
                m = x.a[0].name
                if m == 'eval':
                    return
                if m in ('transpose', 'adjoint') and not inprod and same(x.a[0].a[0]):
                    old = self.read(st, loc)
                    if isinstance(old, Mat) and not old.vec:
                        bad.append('transpose of the assigned matrix read while it is written')
                walk(x.a[0].a[0], inprod, False)
                for a in x.a[1:]:
                    walk(a, False, False)
                return
            if x.k == 'binop' and x.name == '*':
                if no:
                    for a in x.a:
                        if x_is_mat(a) and same(strip(a)):
                            bad.append('noalias() assignment of a product that reads its target')
                for a in x.a:
                    walk(a, True, False)
                return
            if x.k in ('binop', 'unop', 'construct', 'cond', 'icast'):
                for a in x.a:
                    walk(a, inprod and x.k == 'binop', False)

        def strip(x):
            while x.k == 'call' and x.a[0].k == 'member' and x.a[0].name in ('transpose', 'array', 'matrix', 'col', 'row', 'head', 'tail', 'segment'):
                x = x.a[0].a[0]
            return x

        def x_is_mat(x):
            return x.k in ('var', 'member', 'index', 'call', 'deref')
        walk(rhs, False, False)
        if bad:
            self.oblige(st, bad[0], FALSE, 'alias', e.line)

    def cassign(self, st, e):
        lhs, rhs = e.a
        for s1, v in self.ev(st, rhs):
            if v is THROWN:
                yield s1, v
                continue
            for s2, (loc, lv) in self.evl(s1, lhs):
                if loc is None:
                    if isinstance(lv, Obj):
                        yield s2, lv
                        continue
                    raise Unsupported('compound assignment to rvalue')
                old = self.read(s2, loc)
                if isinstance(old, Obj) or isinstance(v, Obj):
                    yield s2, old
                    continue
                if isinstance(old, Mat) and isinstance(v, Num) and e.name in '+-' and not old.arr:
                    raise Unsupported('scalar added to matrix')
                new = self.arith(e.name, old, v)
                yield self.write(s2, loc, new), new

    # ------------------------------------------------------------ operators
    def binop(self, st, e):
        op = e.name
        if op in ('&&', '||'):
            for s1, a in self.ev(st, e.a[0]):
                if a is THROWN:
                    yield s1, a
                    continue
                if isinstance(a, BArr):
                    for s2, b in self.ev(s1, e.a[1]):
                        f = (lambda i, a=a, b=b: z3.And(a.f(i), b.f(i))) if op == '&&' else (lambda i, a=a, b=b: z3.Or(a.f(i), b.f(i)))
                        yield s2, BArr(a.n, f)
                    continue
                ta = self.truth(a)
                short = z3not(ta) if op == '&&' else ta
                go = z3not(short)
                if z3.is_true(short) or not self.feas(s1, go):
                    yield s1, Num(z3.BoolVal(op == '||'))
                    continue
                # evaluate the right side under the guard; keep merged if pure
                rs = list(self.ev(s1.assume_branch(go), e.a[1]))
                if len(rs) == 1 and isinstance(rs[0][1], Num) and self.same_mem(rs[0][0], s1):
                    tb = self.truth(rs[0][1])
                    n0 = len(s1.facts) + 1
                    extra = [z3.Implies(go, f) for f in rs[0][0].facts[n0:] if not isinstance(f, Forall)]
                    extra += [Forall(f.vs, z3.And(go, f.guard), f.body, f.name) for f in rs[0][0].facts[n0:] if isinstance(f, Forall)]
                    yield s1.with_fact(*extra), Num(z3.And(ta, tb) if op == '&&' else z3.Or(ta, tb))
                else:
                    if self.feas(s1, short):
                        yield s1.assume_branch(short), Num(z3.BoolVal(op == '||'))
                    for s2, b in rs:
                        yield s2, (b if b is THROWN else Num(self.truth(b)))
            return
        if op in (',', '<<'):
            x, parts = e, []
            while x.k == 'binop' and x.name == ',':
                parts.insert(0, x.a[1])
                x = x.a[0]
            while x.k in ('paren', 'icast') and len(x.a) == 1:
                x = x.a[0]
            if x.k == 'binop' and x.name == '<<':
                hit = False
                for s1, (loc, m) in list(self.evl(st, x.a[0])):
                    v = m if loc is None else self.read(s1, loc)
                    if isinstance(v, Mat):
                        if loc is None:
                            raise Unsupported('comma initializer of a temporary')
                        hit = True
                        yield from self.comma_init(s1, loc, v, [x.a[1]] + parts, e)
                    elif hit:
                        raise Unsupported('operator <<')
                if hit:
                    return
        if op == ',':
            for s1, _ in self.ev(st, e.a[0]):
                yield from self.ev(s1, e.a[1])
            return
        for s1, vs in self.args_list(st, e.a):
            if any(v is THROWN for v in vs):
                yield s1, THROWN
                continue
            a, b = vs
            if op in ('+', '-', '*', '/', '%'):
                yield s1, self.arith(op, a, b)
            elif op in ('<', '<=', '>', '>=', '==', '!='):
                yield s1, self.compare(op, a, b)
            elif op in ('<<', '>>'):
                if isinstance(a, (Num, Mat, BArr)):
                    raise Unsupported('operator ' + op)
                yield s1, Obj('opaque')
            else:
                raise Unsupported('operator ' + op)

    def comma_init(self, st, loc, v, parts, e):
        """Eigen's x << a, b, ...: consecutive parts of a vector"""
        if not v.vec:
            raise Unsupported('comma initializer of a matrix')
        for s1, vs in self.args_list(st, parts):
            if any(w is THROWN for w in vs):
                yield s1, THROWN
                continue
            off = ZERO_I
            for w in vs:
                if isinstance(w, Num):
                    s1 = self.write(s1, (loc[0], loc[1] + (('e', off),)), w)
                    n = ONE_I
                elif isinstance(w, Mat) and w.vec and w.rows is not None:
                    n = w.rows
                    s1 = self.write(s1, (loc[0], loc[1] + (('seg', off, n),)), w)
                else:
                    raise Unsupported('part of a comma initializer')
                off = icanon(off + n)
            if 'idx' in self.tags_on and not self.dry and v.rows is not None:
                self.oblige(s1, 'comma initializer fills the vector', off == v.rows, 'idx', e.line)
            yield s1, Obj('opaque')

    def nanor(self, a, b, extra=None):
        if not self.ieee:
            return None
        xs = [x for x in (a.nan, b.nan, extra) if x is not None]
        return z3or(*xs) if xs else None

    def arith(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return Obj('opaque')
        if isinstance(a, Num) and isinstance(b, Num):
            at, bt = a.t, b.t
            if z3.is_bool(at):
                at = z3.If(at, ONE_I, ZERO_I)
            if z3.is_bool(bt):
                bt = z3.If(bt, ONE_I, ZERO_I)
            if z3.is_int(at) and z3.is_int(bt):
                if op == '+':
                    return Num(icanon(at + bt))
                if op == '-':
                    return Num(icanon(at - bt))
                if op == '*':
                    return Num(icanon(at * bt))
                if op == '/':
                    return Num(at / bt)
                if op == '%':
                    return Num(at % bt)
            at, bt = self.to_real(at), self.to_real(bt)
            if op == '+':
                return Num(scanon(at + bt), self.nanor(a, b))
            if op == '-':
                return Num(scanon(at - bt), self.nanor(a, b))
            if op == '*':
                return Num(scanon(at * bt), self.nanor(a, b))
            if op == '/':
                if self.ieee and not z3.is_rational_value(bt):
                    q = z3.If(bt == 0, DIVZ(at), at / bt)
                    return Num(q, self.nanor(a, b, z3.And(at == 0, bt == 0)))
                return Num(scanon(at / bt), self.nanor(a, b))
            raise Unsupported('real ' + op)
        if isinstance(a, Num) and isinstance(b, Mat):
            x = self.to_real(a.t)
            if op == '*':
                return Mat(mscale(x, b.t), b.rows, b.cols, b.arr, b.vec)
            if b.arr:
                if op == '+':
                    return Mat(madd(b.t, mscale(x, ONES)), b.rows, b.cols, True, b.vec)
                if op == '-':
                    return Mat(madd(mscale(x, ONES), b.t, -1), b.rows, b.cols, True, b.vec)
                if op == '/':
                    return Mat(mscale(x, vinv(b.t)), b.rows, b.cols, True, b.vec)
            raise Unsupported(f'scalar {op} matrix')
        if isinstance(a, Mat) and isinstance(b, Num):
            x = self.to_real(b.t)
            if op == '*':
                return Mat(mscale(x, a.t), a.rows, a.cols, a.arr, a.vec)
            if op == '/':
                return Mat(mscale(srender(sinv(spoly(x))), a.t), a.rows, a.cols, a.arr, a.vec)
            if a.arr:
                if not a.vec:
                    raise Unsupported('array matrix plus scalar')
                if op == '+':
                    return Mat(madd(a.t, mscale(x, ONES)), a.rows, a.cols, True, a.vec)
                if op == '-':
                    return Mat(madd(a.t, mscale(x, ONES), -1), a.rows, a.cols, True, a.vec)
            raise Unsupported(f'matrix {op} scalar')
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in '+-':
                return Mat(madd(a.t, b.t, 1 if op == '+' else -1), a.rows if a.rows is not None else b.rows, a.cols if a.cols is not None else b.cols, a.arr, a.vec or b.vec)
            if op == '*':
                if a.arr and b.arr:
                    if not a.vec:
                        raise Unsupported('coefficient-wise product of matrices')
                    return Mat(hadamard(a.t, b.t), a.rows, a.cols, True, True)
                # row vectors are transposed column vectors
                t = mul(a.t, b.t)
                return Mat(t, a.rows, b.cols, False, b.vec and not self.is_row(a))
            if op == '/' and a.arr and b.arr and a.vec:
                return Mat(hadamard(a.t, vinv(b.t)), a.rows, a.cols, True, True)
        raise Unsupported(f'{op} of {a} and {b}')

    def is_row(self, a):
        return a.rows is not None and z3.is_int_value(a.rows) and a.rows.as_long() == 1 and not a.vec and False

    def compare(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj):
                for x, y in ((a, b), (b, a)):
                    if x.k == 'decinfo' and y.k == 'info':
                        c = x.d['succ'] if y.d['v'] == 'Success' else (z3not(x.d['succ']) if y.d['v'] == 'NumericalIssue' else FALSE)
                        return Num(c if op == '==' else z3not(c))
                    if y.k == 'null' and 'nonnull' in x.d:
                        return Num(z3not(x.d['nonnull']) if op == '==' else x.d['nonnull'])
            return Num(self.fresh('cmp', B))
        if isinstance(a, (BArr,)) or isinstance(b, BArr):
            if isinstance(a, BArr) and isinstance(b, BArr):
                return BArr(a.n, (lambda i: a.f(i) == b.f(i)) if op == '==' else (lambda i: a.f(i) != b.f(i)))
            raise Unsupported('comparison of boolean array')
        if isinstance(a, Mat) or isinstance(b, Mat):
            A = a if isinstance(a, Mat) else b
            if not A.arr:
                raise Unsupported('comparison of matrices')
            ea = (lambda i: deep(elem(a.t, i))) if isinstance(a, Mat) else (lambda i: self.to_real(a.t))
            eb = (lambda i: deep(elem(b.t, i))) if isinstance(b, Mat) else (lambda i: self.to_real(b.t))
            return BArr(A.rows, lambda i: self.cmp(op, ea(i), eb(i)))
        at, bt = a.t, b.t
        if z3.is_bool(at) and z3.is_bool(bt):
            if op == '==':
                return Num(at == bt)
            if op == '!=':
                return Num(z3.Xor(at, bt))
        if z3.is_bool(at):
            at = z3.If(at, ONE_I, ZERO_I)
        if z3.is_bool(bt):
            bt = z3.If(bt, ONE_I, ZERO_I)
        if at.sort() != bt.sort():
            at, bt = self.to_real(at), self.to_real(bt)
        c = self.cmp(op, at, bt)
        nn = self.nanor(a, b)
        if nn is not None and not z3.is_false(nn):
            c = z3.Or(nn, c) if op == '!=' else z3.And(z3not(nn), c)
        return Num(c)

    def cmp(self, op, a, b):
        c = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s):
            return s
        return c

    # ------------------------------------------------------------ calls
    def call(self, st, e, want_loc=False):
        callee, args = e.a[0], e.a[1:]
        if callee.k == 'member':
            base = callee.a[0]
            name = callee.name
            if base.k == 'this' or (base.k == 'deref' and base.a[0].k == 'this'):
                cls = self.this_class(st)
                r = self.method_or_none(st, cls, name, args, self.this_stack[-1], e)
                if r is not None:
                    yield from r
                    return
                # std::function member: this->f_(x)
            yield from self.method(st, callee, args, e)
            return
        if callee.k == 'fname':
            yield from self.free_call(st, callee, args, e)
            return
        if callee.k in ('qual',):
            yield from self.static_call(st, callee, args, e)
            return
        # calling a value: std::function, lambda, or Eigen operator()
        for s1, (loc, v) in self.evl(st, callee):
            base = self.read(s1, loc) if loc is not None else v
            if isinstance(base, Fn):
                yield from self.call_fn(s1, base, args, e)
            elif isinstance(base, (Mat, BArr, Lst)):
                for s2, vs in self.ev_args(s1, args):
                    yield from self.index(s2, loc, v, vs, e.line)
            else:
                raise Unsupported(f'call of {base}')

    def this_class(self, st):
        v = self.read(st, self.this_stack[-1])
        return v.cls if isinstance(v, Struct) else None

    def call_fn(self, st, fn, args, e):
        for s1, vs in self.ev_args_loc(st, args):
            if fn.f is None:
                raise Unsupported('call of ' + str(fn.name))
            for o in fn.f(self, s1, vs):
                if o[0] == 'throw':
                    yield o[1], (None, THROWN)
                elif isinstance(o[2], RefV):
                    yield o[1], (o[2].loc, None)
                else:
                    yield o[1], (None, o[2] if o[2] is not None else VOID)

    def method_or_none(self, st, cls, name, args, loc, e):
        nm0 = re.sub(r'<.*>$', '', name)
        fs = self.lookup_method(cls, nm0, len(args))
        if not fs:
            return None
        return self.invoke(st, fs, args, loc, e)

    def lookup_method(self, cls, name, n):
        if cls is None:
            return []
        fs = [f for f in self.fr.get(f'{cls}::{name}') if len([p for p in f.params if p.init is None]) <= n <= len(f.params)]
        if not fs and cls in self.fr.classes:
            for b in self.fr.classes[cls].bases:
                bn = strip_targs(b).split('::')[-1]
                fs = self.lookup_method(bn, name, n)
                if fs:
                    break
        return fs

    def invoke(self, st, fs, args, loc, e):
        f = fs[0]
        if len(fs) > 1:
            # const overloads: same body expected; otherwise choose by parameter count
            ex = [x for x in fs if len(x.params) == len(args)]
            fs = ex or fs
            f = fs[0]
        for s1, vs in self.ev_args_loc(st, args):
            if len(fs) > 1:
                # overloads: a callback argument selects the overload with a callback parameter
                isf = lambda a: isinstance(a[1] if a[1] is not None else self.read(s1, a[0]), Fn) if (a[0] is not None or a[1] is not None) else None
                kinds = [isf(a) for a in vs]
                m = [x for x in fs if all(k is None or k == (self.types.parse(p.ty, x.cls)[0] == 'fn') for k, p in zip(kinds, x.params))]
                f = (m or fs)[0]
            if any(v is THROWN for _, v, _ in vs):
                yield s1, (None, THROWN)
                continue
            for o in self.call_func(s1, f, loc, vs):
                if o[0] == 'throw':
                    yield o[1], (None, THROWN)
                elif isinstance(o[2], RefV):
                    yield o[1], (o[2].loc, None)
                else:
                    yield o[1], (None, o[2] if o[2] is not None else VOID)

    def call_func(self, st, f, this_loc, args):
        """args: list of (loc|None, val|None, expr). returns outcomes [('return'|'throw', st, val)]"""
        con = self.spec.contract(self, f.key, len(f.params)) if f.name != '<lambda>' else None
        if con is not None:
            return con.apply(self, st, f, this_loc, args)
        if any(x is f for x in self.stack if f.name != '<lambda>'):
            raise Unsupported('recursion in ' + f.key)
        if len(self.stack) > 12:
            raise Unsupported('call depth')
        if f.name != '<lambda>':
            self.inlined.add(f.key)
        return self.run_func(st, f, this_loc, args)

    def run_func(self, st, f, this_loc, args):
        before = st.mem
        st, vals = self.bind_params(st, f, args)
        if this_loc is not None:
            this_loc = self.resolve(st, this_loc)
        self.stack.append(f)
        self.this_stack.append(this_loc)
        rt = (f.ret or '').strip()
        self.ret_ref.append(rt.endswith('&'))
        try:
            outs = [('normal', st, None)]
            if f.name == '<ctor>':
                st = self.ctor_inits(st, f, this_loc)
                outs = [('normal', st, None)]
            res = []
            for o in self.block(outs[0][1], [f.body]):
                if o[0] == 'normal':
                    res.append(('return', o[1], VOID))
                elif o[0] in ('return', 'throw'):
                    v = o[2]
                    if o[0] == 'return' and rt and not rt.endswith('&') and v is not VOID and f.name not in ('<ctor>', '<lambda>'):
                        ty = self.types.parse(rt, f.cls)
                        if ty[0] in ('real', 'int', 'bool', 'vec', 'mat'):
                            v = self.convert(o[1], v, ty)
                    res.append((o[0], o[1], v))
                else:
                    raise Unsupported('break outside loop')
            if len(self.stack) > 1 and f.name != '<lambda>':
                # locals and parameters of an inlined call end with it
                out = []
                for o in res:
                    keep = {o[2].loc[0]} if isinstance(o[2], RefV) else set()
                    m = {r: x for r, x in o[1].mem.items() if r in before or r in keep}
                    out.append((o[0], State(m, o[1].facts, o[1].branch), o[2]))
                res = out
            return res
        finally:
            self.stack.pop()
            self.this_stack.pop()
            self.ret_ref.pop()

    def ctor_inits(self, st, f, this_loc):
        for name, args in f.inits:
            if name is None or (len(args) == 1 and getattr(args[0], 'k', None) == 'definit'):
                continue        # default member initializers were applied when the object was created
            ty = None
            for v in self.fr.classes[f.cls].fields:
                if v.name == name:
                    ty = self.types.parse(v.ty, f.cls)
            if ty is None:
                continue
            if len(args) == 1:
                rs = list(self.ev_init(st, ty, args[0], name))
            else:
                rs = list(self.construct(st, ty, args, name)) if ty[0] in ('vec', 'mat', 'struct', 'list') else []
            if len(rs) != 1 or rs[0][1] is THROWN:
                if ty[0] in ('opaque', 'ptr', 'fn'):
                    continue
                raise Unsupported('member initialiser ' + name)
            st = self.write(rs[0][0], self.loc_step(this_loc, ('f', name)), rs[0][1])
        return st

    def bind_params(self, st, f, args):
        vals = []
        for n, p in enumerate(f.params):
            if n < len(args):
                loc, v, ex = args[n]
            else:
                if p.init is None:
                    raise Unsupported('missing argument')
                (st, v), = list(self.ev(st, p.init))
                loc = None
            ty = self.types.parse(p.ty, f.cls)
            isref = p.ty.rstrip().endswith('&') or 'Ref<' in p.ty
            if isref and loc is not None:
                cur = self.read(st, loc)
                if p.const and not ('Ref<' in p.ty and 'const' not in p.ty) and isinstance(cur, Num) and ty[0] == 'real' and z3.is_int(cur.t):
                    st = st.set(p.id, self.convert(st, cur, ty))
                else:
                    r = self.resolve(st, loc)
                    if r == (p.id, ()):
                        continue
                    st = st.set(p.id, RefV(r))
            else:
                if v is None:
                    v = self.read(st, loc)
                st = st.set(p.id, self.convert(st, v, ty))
        return st, vals

    # ------------------------------------------------------------ methods on values
    def method(self, st, callee, args, e):
        base, name = callee.a[0], callee.name
        for s1, (loc, v) in self.evl(st, base):
            if v is THROWN:
                yield s1, (None, THROWN)
                continue
            obj = self.read(s1, loc) if loc is not None else v
            if isinstance(obj, Obj) and obj.k == 'ptrto':
                loc, obj = obj.d['loc'], self.read(s1, obj.d['loc'])
            if isinstance(obj, Obj) and obj.k == 'box':
                obj = obj.d['v']
                loc = None
            if isinstance(obj, Struct):
                fld = obj.f.get(name)
                if fld is not None and isinstance(fld, Fn):
                    yield from self.call_fn(s1, fld, args, e)
                    continue
                if fld is not None and isinstance(fld, (Mat, BArr, Lst)):
                    l2 = self.loc_step(loc, ('f', name)) if loc is not None else None
                    for s2, vs in self.ev_args(s1, args):
                        yield from self.index(s2, l2, fld if loc is None else None, vs, e.line)
                    continue
                if loc is None:
                    self.cnt += 1
                    loc = (f'tmp:{self.cnt}', ())
                    s1 = s1.set(loc[0], obj)
                r = self.method_or_none(s1, obj.cls, name, args, loc, e)
                if r is None:
                    raise Unsupported(f'method {obj.cls}::{name}')
                yield from r
                continue
            if isinstance(obj, Fn) and name in ('operator()',):
                yield from self.call_fn(s1, obj, args, e)
                continue
            if isinstance(obj, Obj) and obj.k == 'ptr':
                yield from self.spec.ptr_call(self, s1, obj, name, args, e)
                continue
            if isinstance(obj, Obj):
                yield from self.obj_method(s1, loc, obj, name, args, e)
                continue
            if isinstance(obj, Lst):
                yield from self.lst_method(s1, loc, obj, name, args, e)
                continue
            if isinstance(obj, (Mat, BArr)):
                yield from self.mat_method(s1, loc, obj, name, args, e)
                continue
            raise Unsupported(f'method {name} of {obj}')

    def obj_method(self, st, loc, obj, name, args, e):
        if obj.k == 'dec':
            G = obj.d['G']
            if name == 'info':
                succ = z3not(LLTFAIL(G.t)) if obj.d['kind'] == 'LLT' else LDLTOK(G.t)
                yield st, (None, Obj('decinfo', succ=succ))
                return
            if name == 'solve':
                for s1, vs in self.ev_args(st, args):
                    s2, v = self.dec_solve(s1, obj, vs[0], e.line)
                    yield s2, (None, v)
                return
            if name == 'compute':
                for s1, vs in self.ev_args(st, args):
                    o = Obj('dec', kind=obj.d['kind'], G=vs[0])
                    yield (self.write(s1, loc, o) if loc is not None else s1), (None, o)
                return
        if obj.k == 'tri':
            if name == 'solve':
                for s1, vs in self.ev_args(st, args):
                    s2, v = self.dec_solve(s1, Obj('dec', kind='tri', G=obj.d['G'], mode=obj.d.get('mode')), vs[0], e.line)
                    yield s2, (None, v)
                return
        if obj.k in ('opaque', 'stream', 'null'):
            if name in ('count', 'at', 'str', 'c_str', 'size', 'open', 'close', 'what', 'get'):
                for s1, vs in self.ev_args(st, args):
                    yield s1, (None, Obj('opaque'))
                return
        if obj.k == 'limits':
            yield st, (None, obj)
            return
        raise Unsupported(f'method {name} of object {obj.k}')

    def dec_solve(self, st, obj, rhs, line):
        """X = G^{-1} rhs.  G X = rhs holds when the factorization succeeded (LLT/LDLT: G symmetric)"""
        G = obj.d['G']
        vec = rhs.vec
        fs = []
        kind_ = obj.d['kind']
        if kind_ == 'HouseholderQR':
            f = QRSOLVE
            X = f(G.t, rhs.t)
            return st, Mat(X, G.cols, rhs.cols, False, vec)
        f = SOLVEV if vec else SOLVE
        g, b = canon(G.t), canon(rhs.t)
        p = mpoly(b)
        X = f(g, b)
        if kind_ == 'tri':
            if obj.d.get('mode') not in (None, '2'):
                X = self.uf(f'trisolve{obj.d["mode"]}', 'v' if vec else 'm', R, R, R)(g, b)      # not the upper triangle
            return st, Mat(X, G.cols, rhs.cols, False, vec)
        if kind_ in ('LLT', 'LDLT'):
            self.oblige(st, f'{kind_} is applied to a symmetric matrix', deep(G.t == transpose(G.t)), 'symdec', line)
            ok = z3not(LLTFAIL(G.t)) if kind_ == 'LLT' else LDLTOK(G.t)
        else:
            ok = TRUE
        eq = mul(g, X) == b
        fs.append(eq if z3.is_true(ok) else z3.Implies(ok, eq))
        self.trusted.add(f'Eigen::{kind_}::solve returns X with G X = rhs (exact arithmetic) whenever info()==Success')
        return st.with_fact(*fs), Mat(X, G.cols, rhs.cols, False, vec)

    # ------------------------------------------------------------ std::vector
    def fill(self, l, lo, hi, v, fs):
        """list with elements in [lo,hi) equal to v"""
        leaves = {}
        j = fresh_int('f')
        for path, lf in l.leaves.items():
            if lf['k'] == 'opaque':
                leaves[path] = lf
                continue
            x = v
            for p in path:
                x = x.f[p] if isinstance(x, Struct) else x
            nl = dict(lf)
            for q in ('t', 'r', 'c', 'nan'):
                if q not in lf or lf[q].decl().kind() == z3.Z3_OP_CONST_ARRAY and q != 't':
                    continue
                if isinstance(x, Obj):
                    continue
                val = {'t': lambda: (x.t if lf['k'] != 'real' else self.to_real(x.t)) if not isinstance(x, BArr) else x.arr, 'r': lambda: x.rows if isinstance(x, Mat) else x.n, 'c': lambda: x.cols,
                       'nan': lambda: x.nan if x.nan is not None else FALSE}[q]()
                if val is None:
                    nl[q] = self.fresh('filled', lf[q].sort(), 's')
                    continue
                kd = KIND.get(tm.arr_base(lf[q]), 's') if q == 't' else 's'
                if lf['k'] in ('vec', 'mat') and q == 't':
                    kd = 'v' if lf['k'] == 'vec' else 'm'
                a = self.fresh('filled', lf[q].sort(), kd)
                fs.append(Forall([j], z3.And(j >= lo, j < hi), [z3.Select(a, j) == val], 'fill'))
                fs.append(Forall([j], z3.Or(j < lo, j >= hi), [z3.Select(a, j) == z3.Select(lf[q], j)], 'fill-frame'))
                nl[q] = a
            leaves[path] = nl
        return Lst(l.ety, hi, leaves)

    def lst_method(self, st, loc, l, name, args, e):
        if name in ('size',):
            yield st, (None, Num(l.n))
            return
        if name == 'empty':
            yield st, (None, Num(l.n == 0))
            return
        if name == 'at':
            for s1, vs in self.ev_args(st, args):
                ok = z3.And(vs[0].t >= 0, vs[0].t < l.n)
                if self.feas(s1, z3not(ok)):
                    yield s1.assume_branch(z3not(ok)), (None, THROWN)
                if self.feas(s1, ok):
                    s2 = s1.assume_branch(ok)
                    step = ('i', vs[0].t)
                    yield s2, ((self.loc_step(loc, step), None) if loc is not None else (None, self.read_steps(s2, l, (step,))))
            return
        if name in ('front', 'back'):
            i = ZERO_I if name == 'front' else icanon(l.n - 1)
            self.bound(st, l, [i], e.line)
            step = ('i', i)
            yield st, ((self.loc_step(loc, step), None) if loc is not None else (None, self.read_steps(st, l, (step,))))
            return
        if name == 'clear':
            yield self.write_lst(st, loc, Lst(l.ety, ZERO_I, l.leaves)), (None, VOID)
            return
        if name in ('reserve', 'shrink_to_fit'):
            yield st, (None, VOID)
            return
        if name == 'pop_back':
            self.bound(st, l, [icanon(l.n - 1)], e.line)
            yield self.write_lst(st, loc, Lst(l.ety, icanon(l.n - 1), l.leaves)), (None, VOID)
            return
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back':
                gen = self.construct(st, l.ety, args) if l.ety[0] in ('struct', 'vec', 'mat') else self.ev(st, args[0])
            else:
                gen = self.ev_init(st, l.ety, args[0], 'elem')
            for s1, v in gen:
                if v is THROWN:
                    yield s1, (None, THROWN)
                    continue
                cur = self.read(s1, loc)
                v = self.convert(s1, v, l.ety)
                nl = self.lst_set(Lst(cur.ety, icanon(cur.n + 1), cur.leaves), cur.n, (), v)
                yield self.write_lst(s1, loc, nl), (self.loc_step(loc, ('i', cur.n)), None)
            return
        if name == 'resize':
            for s1, vs in self.ev_args(st, args):
                n = vs[0].t
                cur = self.read(s1, loc)
                fs = []
                if len(vs) > 1:
                    nl = self.fill(cur, cur.n, n, vs[1], fs)
                    # when shrinking nothing is filled
                    nl = Lst(cur.ety, n, nl.leaves)
                else:
                    # new elements are unspecified: keep the array (values beyond the old size are unconstrained)
                    leaves = {}
                    j = fresh_int('f')
                    for path, lf in cur.leaves.items():
                        d = dict(lf)
                        for q in ('t', 'r', 'c', 'nan'):
                            if q not in lf or not z3.is_expr(lf[q]) or lf[q].decl().kind() == z3.Z3_OP_CONST_ARRAY:
                                continue
                            kd = ('v' if lf['k'] == 'vec' else 'm' if lf['k'] == 'mat' else 's') if q == 't' else 's'
                            a = self.fresh('resized', lf[q].sort(), kd)
                            fs.append(Forall([j], z3.And(j >= 0, j < cur.n, j < n), [z3.Select(a, j) == z3.Select(lf[q], j)], 'resize'))
                            d[q] = a
                        leaves[path] = d
                    nl = Lst(cur.ety, n, leaves)
                    if cur.ety[0] == 'real':
                        pass
                s1 = s1.with_fact(*fs)
                yield self.write_lst(s1, loc, nl), (None, VOID)
            return
        if name == 'assign':
            for s1, vs in self.ev_args(st, args):
                fs = []
                nl = self.fill(Lst(l.ety, vs[0].t, l.leaves), ZERO_I, vs[0].t, vs[1], fs)
                yield self.write_lst(s1.with_fact(*fs), loc, nl), (None, VOID)
            return
        raise Unsupported('std::vector::' + name)

    def write_lst(self, st, loc, v):
        if loc is None:
            raise Unsupported('mutation of temporary list')
        return self.write(st, loc, v)

    # ------------------------------------------------------------ Eigen members
    def mat_method(self, st, loc, m, name, args, e):
        ps = name.split('<')[0]
        for s1, vs in self.ev_args(st, args):
            if any(v is THROWN for v in vs):
                yield s1, (None, THROWN)
                continue
            yield from self.mat_method1(s1, loc, m, ps, name, vs, e)

    def view(self, st, loc, m, step):
        if loc is not None:
            return st, (self.loc_step(loc, step), None)
        return st, (None, self.mat_view(m, step))

    def mat_method1(self, st, loc, m, ps, name, vs, e):
        out = lambda v: (st, (None, v))
        if isinstance(m, BArr):
            if ps in ('any', 'all'):
                yield self.barr_quant(st, m, ps)
                return
            if ps in ('size', 'rows'):
                yield out(Num(m.n))
                return
            if ps == 'select':
                a, b = vs
                fa = (lambda i: self.truth(a)) if isinstance(a, Num) and z3.is_bool(a.t) else None
                if fa and isinstance(b, BArr):
                    yield out(BArr(m.n, lambda i: z3.If(m.f(i), fa(i), b.f(i))))
                    return
                if isinstance(a, BArr) and isinstance(b, BArr):
                    yield out(BArr(m.n, lambda i: z3.If(m.f(i), a.f(i), b.f(i))))
                    return
                if isinstance(a, BArr) and isinstance(b, Num):
                    yield out(BArr(m.n, lambda i: z3.If(m.f(i), a.f(i), self.truth(b))))
                    return
                ea = (lambda i: deep(elem(a.t, i))) if isinstance(a, Mat) else (lambda i: self.to_real(a.t))
                eb = (lambda i: deep(elem(b.t, i))) if isinstance(b, Mat) else (lambda i: self.to_real(b.t))
                arr = self.fresh('select_el', AR)
                j = fresh_int('e')
                s1 = st.with_fact(Forall([j], TRUE, [z3.Select(arr, j) == z3.If(m.f(j), ea(j), eb(j))], 'select'))
                yield s1, (None, Mat(VOF(arr, m.n), m.n, ONE_I, True, True))
                return
            if ps in ('setConstant', 'setZero', 'setOnes', 'fill'):
                n = m.n
                val = FALSE if ps == 'setZero' else TRUE
                if ps in ('setConstant', 'fill'):
                    val = self.truth(vs[-1])
                    if len(vs) > 1:
                        n = vs[0].t
                elif vs:
                    n = vs[0].t
                v = BArr(n, arr=z3.K(I, val))
                yield self.write(st, loc, v), (loc, None)
                return
            if ps in ('array', 'matrix', 'eval', 'noalias', 'derived'):
                yield st, (loc, m if loc is None else None)
                return
            if ps == 'resize':
                yield self.write(st, loc, BArr(vs[0].t, arr=self.fresh('flags', AB))), (None, VOID)
                return
            if ps == 'count':
                yield out(Num(self.fresh('count', I)))
                return
            if ps == 'cast':
                a = self.fresh('cast_el', AR)
                j = fresh_int('e')
                yield st.with_fact(Forall([j], TRUE, [z3.Select(a, j) == z3.If(m.f(j), z3.RealVal(1), z3.RealVal(0))])), (None, Mat(VOF(a, m.n), m.n, ONE_I, True, True))
                return
            raise Unsupported('boolean array method ' + name)
        t = m.t
        if ps in ('noalias', 'derived', 'eval'):
            yield st, (loc if ps != 'eval' else None, m if (loc is None or ps == 'eval') else None)
            return
        if ps in ('array', 'matrix'):
            yield self.view(st, loc, m, ('arr', ps == 'array'))
            return
        if ps == 'transpose':
            if loc is not None and not m.vec:
                yield st, (None, self.mat_view(m, ('T',)))
                return
            yield out(self.mat_view(m, ('T',)))
            return
        if ps in ('col', 'row'):
            i = vs[0].t
            self.bound(st, Mat(t, m.cols if ps == 'col' else m.rows, ONE_I, m.arr, True), [i], e.line) if (m.cols if ps == 'col' else m.rows) is not None else None
            if m.vec and ps == 'col':
                yield st, (loc, m if loc is None else None)
                return
            yield self.view(st, loc, m, (ps, i))
            return
        if ps in ('head', 'tail', 'segment'):
            if ps == 'head':
                off, n = ZERO_I, vs[0].t
            elif ps == 'tail':
                off, n = icanon(m.rows - vs[0].t), vs[0].t
            else:
                off, n = vs[0].t, vs[1].t
            if 'idx' in self.tags_on and not self.dry and m.rows is not None:
                self.oblige(st, 'segment within vector', z3.And(off >= 0, n >= 0, off + n <= m.rows), 'idx', e.line)
            yield self.view(st, loc, m, ('seg', off, n))
            return
        if ps == 'diagonal':
            yield self.view(st, loc, m, ('diag',))
            return
        if ps in ('block', 'topLeftCorner', 'leftCols', 'topRows', 'middleCols'):
            if ps == 'block':
                b = [v.t for v in vs]
            elif ps == 'topLeftCorner':
                b = [ZERO_I, ZERO_I, vs[0].t, vs[1].t]
            elif ps == 'leftCols':
                b = [ZERO_I, ZERO_I, m.rows, vs[0].t]
            elif ps == 'topRows':
                b = [ZERO_I, ZERO_I, vs[0].t, m.cols]
            else:
                b = [ZERO_I, vs[0].t, m.rows, vs[1].t]
            if 'idx' in self.tags_on and not self.dry and m.rows is not None:
                self.oblige(st, 'block within matrix', z3.And(b[0] >= 0, b[1] >= 0, b[2] >= 0, b[3] >= 0, b[0] + b[2] <= m.rows, b[1] + b[3] <= m.cols), 'idx', e.line)
            yield self.view(st, loc, m, tuple(['block'] + b))
            return
        if ps == 'size':
            yield out(Num(m.size if m.size is not None else self.fresh('size', I)))
            return
        if ps == 'rows':
            yield out(Num(m.rows if m.rows is not None else self.fresh('rows', I)))
            return
        if ps == 'cols':
            yield out(Num(m.cols if m.cols is not None else self.fresh('cols', I)))
            return
        if ps == 'dot':
            yield out(Num(dot(t, vs[0].t)))
            return
        if ps == 'squaredNorm':
            if not m.vec:
                raise Unsupported('squaredNorm of a matrix')
            q = dot(t, t)
            yield st.with_fact(q >= 0), (None, Num(q))
            return
        if ps == 'norm':
            s1, v = self.norm(st, m)
            yield s1, (None, v)
            return
        if ps == 'lpNorm':
            p = name[name.index('<') + 1:-1]
            if p.strip() == '1' and m.vec:
                v = L1(canon(t), ZERO_I)
                yield st.with_fact(v >= 0), (None, Num(v))
                return
            if p.strip().endswith('Infinity') and m.vec:
                yield self.maxc(st, Mat(CABS(canon(t)), m.rows, ONE_I, m.arr, True), 'max', e.line)
                return
            if p.strip() == '2' and m.vec:
                s1, v = self.norm(st, m)
                yield s1, (None, v)
                return
            raise Unsupported('lpNorm ' + p)
        if ps == 'sum':
            yield self.vsum(st, m)
            return
        if ps in ('maxCoeff', 'minCoeff'):
            if vs:
                raise Unsupported(ps + ' with index')
            yield self.maxc(st, m, ps[:3], e.line)
            return
        if ps in ('cwiseMax', 'cwiseMin', 'max', 'min'):
            b = vs[0]
            bt = b.t if isinstance(b, Mat) else mscale(self.to_real(b.t), ONES)
            if not m.vec:
                raise Unsupported(ps + ' of a matrix')
            f = CMAX if ps.lower().endswith('max') else CMIN
            yield out(Mat(f(canon(t), canon(bt)), m.rows, m.cols, m.arr, True))
            return
        if ps in ('cwiseAbs', 'abs'):
            yield out(Mat(CABS(canon(t)), m.rows, m.cols, m.arr, m.vec))
            return
        if ps in ('cwiseInverse',) or (ps == 'inverse' and m.arr):
            yield out(Mat(vinv(t), m.rows, m.cols, m.arr, True))
            return
        if ps == 'log':
            yield out(Mat(VLOG(canon(t)), m.rows, m.cols, m.arr, True))
            return
        if ps == 'square' or ps == 'abs2' or ps == 'cwiseAbs2':
            yield out(Mat(hadamard(t, t), m.rows, m.cols, m.arr, True))
            return
        if ps == 'cwiseProduct':
            if not m.vec:
                raise Unsupported('cwiseProduct of matrices')
            yield out(Mat(hadamard(t, vs[0].t), m.rows, m.cols, m.arr, True))
            return
        if ps == 'cwiseQuotient':
            yield out(Mat(hadamard(t, vinv(vs[0].t)), m.rows, m.cols, m.arr, True))
            return
        if ps == 'asDiagonal':
            yield out(Mat(diag(t), m.rows, m.rows, False, False))
            return
        if ps == 'normalized':
            yield out(Mat(NORMED(canon(t)), m.rows, m.cols, m.arr, True))
            return
        if ps in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'resize', 'conservativeResize', 'setRandom'):
            yield self.mat_set(st, loc, m, ps, vs), (loc, None)
            return
        if ps in ('allFinite', 'hasNaN'):
            f = NANANY(canon(t))
            yield out(Num(f if ps == 'hasNaN' else z3not(f)))
            return
        if ps in ('householderQr', 'colPivHouseholderQr'):
            yield out(Obj('dec', kind='HouseholderQR', G=m))
            return
        if ps in ('llt', 'ldlt', 'fullPivLu', 'partialPivLu'):
            yield out(Obj('dec', kind={'llt': 'LLT', 'ldlt': 'LDLT', 'fullPivLu': 'FullPivLU', 'partialPivLu': 'PartialPivLU'}[ps], G=m))
            return
        if ps == 'triangularView':
            md = re.search(r'TriangularView<.*,\s*(\d+)\s*>', (e.ty or '') if e is not None else '')
            yield out(Obj('tri', G=m, mode=md.group(1) if md else None))
            return
        if ps == 'data':
            yield out(Obj('data', loc=loc, m=m))
            return
        if ps == 'coeff' or ps == 'coeffRef':
            yield from self.index(st, loc, m, vs, e.line)
            return
        if ps == 'value' or ps == 'x':
            yield out(Num(elem(t, ZERO_I)) if ps == 'x' else Num(srender(scal(mpoly(t)))))
            return
        if ps in ('format',):
            yield out(Obj('opaque'))
            return
        if ps in ('isNaN', 'isInf', 'isFinite') and (m.nan is None or not m.vec):
            # finiteness tests are unconstrained (over-approximation: over the reals they could be decided)
            yield out(BArr(m.rows if m.vec else self.fresh('cells', I), arr=self.fresh(ps, AB)))
            return
        if ps in ('hasNaN', 'allFinite') and (m.nan is None or not m.vec):
            yield out(Num(self.fresh(ps, B)))
            return
        if ps in ('selfadjointView',):
            raise Unsupported(ps)
        raise Unsupported('Eigen method ' + name)

    def norm(self, st, m):
        if not m.vec:
            raise Unsupported('norm of a matrix')
        q = dot(m.t, m.t)
        v = NORM(canon(m.t))
        return st.with_fact(v >= 0, v * v == q, q >= 0), Num(v)

    def vec_sum(self, m):
        v = self.vsum(None, m)[1][1]
        return v.t, (v.nan if v.nan is not None else FALSE)

    def vsum(self, st, m):
        if not m.vec:
            raise Unsupported('sum of a matrix')
        p = mpoly(m.t)
        # linear: sum of a linear combination
        r = {}
        n = m.rows if m.rows is not None else self.fresh('n', I)
        for (mo, w), c in p.items():
            wt = wrender(w)
            if w == ((aid(ONES), False),):
                q = spoly(z3.ToReal(n))
            else:
                q = spoly(VSUM(wt, icanon(n)))
            r = s_add(r, s_mul({mo: c}, q))
        nan = NANSUM(m.nan, n) if (self.ieee and m.nan is not None) else None
        return st, (None, Num(srender(r), nan))

    def maxc(self, st, m, which, line):
        f = MAXC if which == 'max' else MINC
        n = m.rows
        if n is None:
            n = self.fresh('n', I)
        if not m.vec:
            raise Unsupported(which + 'Coeff of a matrix')
        if 'idx' in self.tags_on and not self.dry:
            self.oblige(st, f'{which}Coeff of a non-empty vector', n > 0, 'idx', line)
        v = f(canon(m.t), icanon(n))
        j = fresh_int('e')
        w = self.fresh('arg' + which, I)
        x = elem(m.t, j)
        fs = [Forall([j], z3.And(j >= 0, j < n), [x <= v if which == 'max' else x >= v], which + 'Coeff')]
        fs.append(z3.Implies(n > 0, z3.And(w >= 0, w < n, elem(m.t, w) == v)))
        return st.with_fact(*fs), (None, Num(v))

    def barr_quant(self, st, m, ps):
        n = m.n if m.n is not None else self.fresh('n', I)
        b = self.fresh(ps, B)
        j = fresh_int('e')
        w = self.fresh('w' + ps, I)
        fj, fw = m.f(j), m.f(w)
        if ps == 'any':
            fs = [z3.Implies(b, z3.And(w >= 0, w < n, fw)), Forall([j], z3.And(z3.Not(b), j >= 0, j < n), [z3.Not(fj)], 'any')]
        else:
            fs = [z3.Implies(z3.Not(b), z3.And(w >= 0, w < n, z3.Not(fw))), Forall([j], z3.And(b, j >= 0, j < n), [fj], 'all')]
        return st.with_fact(*fs), (None, Num(b))

    def store_barr(self, st, v):
        if v.arr is not None:
            return st, v
        a = self.fresh('flags', AB)
        j = fresh_int('e')
        return st.with_fact(Forall([j], TRUE, [z3.Select(a, j) == v.f(j)], 'flags')), BArr(v.n, arr=a)

    def mat_set(self, st, loc, m, ps, vs):
        if loc is None:
            raise Unsupported(ps + ' of a temporary')
        r, c = m.rows, m.cols
        ints = [v for v in vs if isinstance(v, Num) and z3.is_int(v.t)]
        if ps in ('setConstant', 'fill'):
            dims, val = vs[:-1], vs[-1]
        else:
            dims, val = vs, None
        if m.vec:
            if dims:
                r = dims[0].t
        elif len(dims) == 2:
            r, c = dims[0].t, dims[1].t
        elif len(dims) == 1:
            raise Unsupported('matrix resize with one argument')
        if ps == 'setZero':
            t = z3.RealVal(0)
            if m.vec:
                nan = None
                if m.t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(m.t) == 'vecof':
                    t = VOF(z3.K(I, z3.RealVal(0)), r)
                return self.write(st, loc, Mat(z3.RealVal(0) if t is None else t, r, c, m.arr, True))
            return self.write(st, loc, Mat(t, r, c, m.arr, False))
        if ps in ('setConstant', 'fill', 'setOnes'):
            if not m.vec:
                raise Unsupported(ps + ' of a matrix')
            x = z3.RealVal(1) if val is None else self.to_real(val.t)
            return self.write(st, loc, Mat(mscale(x, ONES), r, c, m.arr, True))
        if ps == 'setIdentity':
            return self.write(st, loc, Mat(ID, r, c, m.arr, False))
        # resize: contents unspecified
        kd = 'v' if m.vec else 'm'
        if ps == 'conservativeResize':
            raise Unsupported(ps)
        if self.ieee and m.vec and m.t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(m.t) == 'vecof':
            return self.write(st, loc, Mat(VOF(self.fresh('resized_el', AR), r), r, c, m.arr, True, self.fresh('resized_nan', AB)))
        same = self.dims_equal(st, m, r, c)
        if same:
            return st
        return self.write(st, loc, Mat(self.fresh('resized', R, kd), r, c, m.arr, m.vec))

    def dims_equal(self, st, m, r, c):
        if m.rows is None or r is None:
            return False
        if diffconst(m.rows, r) == 0 and (m.vec or (m.cols is not None and c is not None and diffconst(m.cols, c) == 0)):
            return True
        return False

    # ------------------------------------------------------------ free and static functions
    def free_call(self, st, callee, args, e):
        name = re.sub(r'<.*>$', '', callee.name or '')
        q = (callee.ty or callee.name or '')
        base = q.replace(' ', '')
        if base.startswith('std::') or name in ('to_string', 'bind', 'move', 'max', 'min') or base.startswith('Eigen::'):
            m = re.match(r'^(.*)::(\w+)$', re.sub(r'^std::', '', base))
            if 'numeric_limits' in base:
                yield st, (None, self.limits(name))
                return
            if self.is_static_eigen(base, name):
                yield from self.eigen_static(st, base, name, args, e)
                return
            yield from self.std_call(st, name, base, args, e)
            return
        if 'numeric_limits' in base:
            yield st, (None, self.limits(name))
            return
        cls = self.this_class(st) if self.this_stack and self.this_stack[-1] is not None else None
        if '::' not in base and cls:
            r = self.method_or_none(st, cls, name, args, self.this_stack[-1], e)
            if r is not None:
                yield from r
                return
        fs = [f for k in (name,) for f in self.fr.get(k) if len([p for p in f.params if p.init is None]) <= len(args) <= len(f.params)]
        if name == 'calcDuration':
            yield st, (None, Num(self.fresh('duration', R)))
            return
        if fs:
            yield from self.invoke(st, fs, args, None, e)
            return
        if '::' in base:
            yield from self.eigen_static(st, base, name, args, e)
            return
        yield from self.std_call(st, name, base, args, e)

    def is_static_eigen(self, base, name):
        return name in ('Zero', 'Ones', 'Identity', 'Constant', 'Random', 'Unit', 'Map', 'UnitX')

    def limits(self, name):
        return {'max': Num(MAXD), 'min': Num(MIND), 'lowest': Num(z3.RealVal('-179769313486231570000000000000000000000')), 'epsilon': Num(EPSD),
                'infinity': Num(MAXD), 'quiet_NaN': Num(self.fresh('nan', R), TRUE if self.ieee else None)}.get(name) or self._uns('numeric_limits ' + name)

    def _uns(self, x):
        raise Unsupported(x)

    def static_call(self, st, callee, args, e):
        q = callee.name.replace(' ', '').replace('typename', '')
        q = re.sub(r'\btemplate\b', '', q)
        name = q.split('::')[-1]
        name = re.sub(r'<.*>$', '', name)
        if 'numeric_limits' in q:
            yield st, (None, self.limits(name))
            return
        if 'chrono' in q:
            yield st, (None, Obj('opaque'))
            return
        yield from self.eigen_static(st, q, name, args, e)

    def eigen_static(self, st, q, name, args, e):
        tyname = q[:-(len(name) + 2)] if q.endswith('::' + name) else re.sub(r'::' + name + r'(<.*>)?$', '', q)
        if 'chrono' in q:
            yield st, (None, Obj('opaque'))
            return
        ty = self.types.parse(tyname, self.cls_ctx())
        for s1, vs in self.ev_args(st, args):
            if name == 'Map' or ty[0] == 'opaque':
                raise Unsupported('static call ' + q)
            if ty[0] == 'barr':
                n = vs[0].t if vs else self.fresh('n', I)
                v = TRUE if name == 'Ones' else (self.truth(vs[-1]) if name == 'Constant' else FALSE)
                yield s1, (None, BArr(n, arr=z3.K(I, v)))
                continue
            if ty[0] == 'vec':
                r = self.dimterm(ty[1])
                k = 0
                if name in ('Zero', 'Ones', 'Random') and vs:
                    r = vs[0].t
                if name == 'Constant' and len(vs) > 1:
                    r = vs[0].t
                if r is None:
                    r = self.tydim(ty[1])
                if name == 'Zero':
                    yield s1, (None, Mat(z3.RealVal(0), r, ONE_I, ty[2], True))
                elif name == 'Ones':
                    yield s1, (None, Mat(ONES, r, ONE_I, ty[2], True))
                elif name == 'Constant':
                    yield s1, (None, Mat(mscale(self.to_real(vs[-1].t), ONES), r, ONE_I, ty[2], True))
                else:
                    raise Unsupported('static ' + q)
                continue
            if ty[0] == 'mat':
                r, c = self.dimterm(ty[1]), self.dimterm(ty[2])
                r = self.tydim(ty[1]) if r is None else r
                c = self.tydim(ty[2]) if c is None else c
                if len(vs) >= 2:
                    r, c = vs[0].t, vs[1].t
                if name == 'Zero':
                    yield s1, (None, Mat(z3.RealVal(0), r, c, ty[3], False))
                elif name == 'Identity':
                    yield s1, (None, Mat(ID, r, c, ty[3], False))
                else:
                    raise Unsupported('static ' + q)
                continue
            raise Unsupported('static call ' + q)

    def tydim(self, d):
        return z3.Int(d) if re.match(r'^[A-Za-z]\w*$', d or '') else None

    def smax(self, a, b, op):
        """std::max(a,b) = (a<b)?b:a ; std::min(a,b) = (b<a)?b:a"""
        at, bt = a.t, b.t
        if at.sort() != bt.sort():
            at, bt = self.to_real(at), self.to_real(bt)
        c = self.compare('<', Num(at, a.nan), Num(bt, b.nan)).t if op == 'max' else self.compare('<', Num(bt, b.nan), Num(at, a.nan)).t
        nan = None
        if self.ieee and (a.nan is not None or b.nan is not None):
            nan = z3.If(c, b.nan if b.nan is not None else FALSE, a.nan if a.nan is not None else FALSE)
        t = z3.If(c, bt, at)
        if z3.is_true(c):
            t = bt
        if z3.is_false(c):
            t = at
        return Num(t, nan)

    def std_call(self, st, name, q, args, e):
        if name == 'to_string':
            yield st, (None, Obj('opaque'))
            return
        if 'chrono' in q or name == 'now' or name == 'duration_cast':
            yield st, (None, Obj('opaque'))
            return
        if name in ('move', 'forward', 'ref', 'cref', 'as_const'):
            yield from self.evl(st, args[0])
            return
        if name == 'bind':
            yield from self.bind(st, args, e)
            return
        if name in ('make_unique', 'make_shared'):
            m = re.search(r'<(.*)>$', q)
            tyq = m.group(1) if m else ''
            ty = self.types.parse(tyq, self.cls_ctx())
            if 'Map<' in tyq:
                for s1, vs in self.ev_args(st, args):
                    d = vs[0]
                    if not (isinstance(d, Obj) and d.k == 'data'):
                        raise Unsupported('Map of unknown data')
                    yield s1, (None, Obj('map', loc=self.resolve(s1, d.d['loc']), n=vs[1].t, nonnull=TRUE))
                return
            for s1, v in self.construct(st, ty, args):
                if v is THROWN:
                    yield s1, (None, v)
                    continue
                yield s1, (None, Obj('box', v=v, nonnull=TRUE))
            return
        for s1, vs in self.ev_args(st, args):
            if any(v is THROWN for v in vs):
                yield s1, (None, THROWN)
                continue
            if name in ('max', 'min') and len(vs) == 2 and all(isinstance(v, Num) for v in vs):
                yield s1, (None, self.smax(vs[0], vs[1], name))
            elif name == 'clamp':
                # (v<lo)?lo:(hi<v)?hi:v
                v, lo, hi = vs
                c1 = self.compare('<', v, lo).t
                c2 = self.compare('<', hi, v).t
                nan = None
                if self.ieee and v.nan is not None:
                    nan = z3.If(c1, lo.nan or FALSE, z3.If(c2, hi.nan or FALSE, v.nan))
                ts = [v.t, lo.t, hi.t]
                if any(z3.is_real(x) for x in ts):
                    ts = [self.to_real(x) for x in ts]
                yield s1, (None, Num(z3.If(c1, ts[1], z3.If(c2, ts[2], ts[0])), nan))
            elif name in ('abs', 'fabs') and isinstance(vs[0], Num):
                x = vs[0].t
                yield s1, (None, Num(z3.If(x >= 0, x, -x), vs[0].nan))
            elif name == 'sqrt':
                x = self.to_real(vs[0].t)
                v = SQRT(scanon(x))
                yield s1.with_fact(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x))), (None, Num(v))
            elif name == 'pow':
                x, p = self.to_real(vs[0].t), vs[1].t
                if (z3.is_int_value(p) or z3.is_rational_value(p)) and float(p.as_fraction() if z3.is_rational_value(p) else p.as_long()) in (2.0, 3.0, 1.0):
                    n = int(p.as_fraction() if z3.is_rational_value(p) else p.as_long())
                    r = x
                    for _ in range(n - 1):
                        r = scanon(r * x)
                    yield s1, (None, Num(r))
                else:
                    yield s1, (None, Num(POW(x, self.to_real(p))))
            elif name in ('exp', 'log'):
                yield s1, (None, Num((EXP if name == 'exp' else LOG)(scanon(self.to_real(vs[0].t)))))
            elif name in ('isnan',):
                yield s1, (None, Num(vs[0].nan if vs[0].nan is not None else (FALSE if not self.ieee else FALSE)))
            elif name in ('isfinite',):
                yield s1, (None, Num(z3not(vs[0].nan) if vs[0].nan is not None else TRUE))
            elif name == 'isinf':
                yield s1, (None, Num(FALSE))
            elif name == 'hypot':
                a, b = self.to_real(vs[0].t), self.to_real(vs[1].t)
                x = scanon(a * a + b * b)
                v = SQRT(x)
                yield s1.with_fact(v >= 0, v * v == x), (None, Num(v))
            elif name in ('runtime_error', 'invalid_argument', 'logic_error', 'out_of_range', 'domain_error'):
                yield s1, (None, Obj('opaque'))
            elif name == 'swap':
                locs = [list(self.evl(s1, a))[0][1][0] for a in args]
                a, b = [self.read(s1, l) for l in locs]
                yield self.write(self.write(s1, locs[0], b), locs[1], a), (None, VOID)
            elif name == 'sin' or name == 'cos' or name == 'tan':
                yield s1, (None, Num(self.uf(name, 's', R, R)(scanon(self.to_real(vs[0].t)))))
            else:
                raise Unsupported('function ' + (q or name))

    def bind(self, st, args, e):
        """std::bind(&C::m, obj, placeholders...)"""
        f = args[0]
        if f.k == 'unop' and f.name == '&':
            f = f.a[0]
        if f.k not in ('fname', 'qual', 'member', 'var'):
            raise Unsupported('std::bind of ' + f.k)
        mname = (f.name or '').split('::')[-1]
        for s1, (loc, v) in self.evl(st, args[1]):
            tgt = self.read(s1, loc) if loc is not None else v
            if isinstance(tgt, Obj) and tgt.k == 'ptr':
                fn = self.spec.ptr_method(self, s1, tgt, mname)
                yield s1, (None, fn)
            else:
                l2 = self.resolve(s1, loc)
                cls = tgt.cls

                def g(eng, st_, a, l2=l2, cls=cls, mname=mname):
                    fs = eng.lookup_method(cls, mname, len(a))
                    if not fs:
                        raise Unsupported('bound method ' + mname)
                    return eng.call_func(st_, fs[0], l2, a)
                yield s1, (None, Fn(g, f'{cls}::{mname}'))

    tags_on = frozenset()
