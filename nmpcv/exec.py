"""Statements and expressions."""
from .engine import *
from .engine import Engine as _Engine

NANSUM = z3.Function('nansum', AB, I, B)
MAXC = decl('maxc', 's', R, I, R)
MINC = decl('minc', 's', R, I, R)
NANANY = z3.Function('has_nan', R, B)
DIAGNOSTIC = {'cout', 'cerr', 'endl', 'clog'}


def z3and(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else (a[0] if len(a) == 1 else z3.And(*a))


def z3or(*a):
    a = [x for x in a if x is not None and not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else (a[0] if len(a) == 1 else z3.Or(*a))


def z3not(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


class Exec(_Engine):
    # ---------------------------------------------------------------- statements
    # outcomes: (kind, state, value)  kind in normal/break/continue/return/throw
    def block(self, st, stmts):
        outs = [('normal', st, None)]
        for s in stmts:
            nxt = []
            for o in outs:
                if o[0] != 'normal':
                    nxt.append(o)
                else:
                    nxt.extend(self.stmt(o[1], s))
            outs = nxt
            if self.light and len(outs) > 1:
                outs = self.merge_light(st, outs)
            if len(outs) > self.maxpaths:
                raise Unsupported('too many paths')
        return outs

    light = False
    varnames = {}

    def merge_light(self, ref, outs):
        groups = {}
        for o in outs:
            groups.setdefault(o[0], []).append(o)
        res = []
        for k, os_ in groups.items():
            if len(os_) == 1 or k == 'return':
                res += os_
                continue
            m = self.join([o[1] for o in os_])
            if m is None:
                res += os_
            else:
                res.append((k, m, None))
        return res

    def stmt(self, st, s):
        k = s.k
        if k in ('block', 'seq'):
            return self.block(st, s.a)
        if k == 'decl':
            return self.decl(st, s.a[0])
        if k == 'expr':
            e = s.a[0]
            if self.is_print(e):
                return [('normal', st, None)]
            if e.k == 'throw':
                return [('throw', st, None)]
            return self.lift(self.ev(st, e))
        if k == 'if':
            return self.if_(st, s)
        if k == 'for':
            return self.for_(st, s)
        if k == 'do':
            body, cond = s.a
            # do body while(cond): first iteration then while loop
            outs = []
            for o in self.stmt(st, body):
                if o[0] in ('normal', 'continue'):
                    outs.extend(self.loop(o[1], cond, None, body, s.line))
                elif o[0] == 'break':
                    outs.append(('normal', o[1], None))
                else:
                    outs.append(o)
            return outs
        if k == 'forrange':
            return self.forrange(st, s)
        if k == 'return':
            if s.a[0] is None:
                return [('return', st, VOID)]
            e = s.a[0]
            out = []
            for r in self.ev(st, e, want_loc=self.ret_ref[-1] if self.ret_ref else False):
                st1, v = r
                if st1 is None:
                    continue
                if v is THROWN:
                    out.append(('throw', st1, None))
                else:
                    out.append(('return', st1, v))
            return out
        if k == 'break':
            return [('break', st, None)]
        if k == 'continue':
            return [('continue', st, None)]
        if k == 'switch':
            return self.switch(st, s)
        raise Unsupported('statement ' + k)

    ret_ref = []

    def lift(self, it):
        out = []
        for st1, v in it:
            if v is THROWN:
                out.append(('throw', st1, None))
            else:
                out.append(('normal', st1, None))
        return out

    def is_print(self, e):
        x = e
        while x.k == 'binop' and x.name == '<<':
            x = x.a[0]
        if x is e:
            return False
        if x.k == 'var' and (x.name in DIAGNOSTIC or (x.ty and 'stream' in x.ty)):
            return True
        if x.k == 'member' and x.ty and 'stream' in x.ty:
            return True
        if x.k in ('fname', 'qual') and x.name and x.name.split('::')[-1] in DIAGNOSTIC:
            return True
        if x.k == 'member' and x.name.startswith('ofs'):
            return True
        return False

    def decl(self, st, v):
        ty = self.types.parse(v.ty, self.cls_ctx())
        self.varnames[v.id] = v.name
        if v.init is None:
            facts = []
            val = self.default_val(ty, v.name, facts)
            return [('normal', st.set(v.id, val).with_fact(*facts), None)]
        isref = '&' in v.ty and not v.ty.strip().startswith('std::function')
        init = v.init
        if init.k == 'initlist' and len(init.a) == 1 and init.name == 'ParenListExpr':
            pass
        if isref:
            out = []
            for st1, (loc, val) in self.evl(st, init):
                if val is THROWN:
                    out.append(('throw', st1, None))
                    continue
                if loc is not None:
                    out.append(('normal', st1.set(v.id, RefV(self.resolve(st1, loc))), None))
                else:
                    out.append(('normal', st1.set(v.id, self.convert(st1, val, ty)), None))
            return out
        out = []
        for st1, val in self.ev_init(st, ty, init, v.name):
            if val is THROWN:
                out.append(('throw', st1, None))
            else:
                out.append(('normal', st1.set(v.id, val), None))
        return out

    def cls_ctx(self):
        return self.stack[-1].cls if self.stack else None

    def default_val(self, ty, name, facts, st=None):
        """default construction: Eigen matrices indeterminate, vectors empty"""
        k = ty[0]
        if k == 'list':
            return Lst(ty[1], ZERO_I, self.fresh_leaves(ty[1], name, facts))
        if k == 'vec':
            r = self.dimterm(ty[1])
            if r is None:
                r = self.fresh(name + '_n', I) if not ty[1] in ('-1',) else ZERO_I
                facts.append(r >= 0)
            return Mat(self.fresh(name, R, 'v'), r, z3.IntVal(1), ty[2], True)
        if k == 'struct':
            return self.default_struct(ty[1], name, facts)
        return self.fresh_val(ty, name, st, facts)

    def default_struct(self, cn, name, facts):
        f = {}
        for v in self.fr.classes[cn].fields:
            t = self.types.parse(v.ty, cn)
            if v.init is not None and v.init.k not in ('opaque', 'initlist'):
                st0 = State({}, [], [])
                try:
                    (st1, val), = list(self.ev_init(st0, t, v.init, v.name))
                    f[v.name] = val
                    continue
                except Exception:
                    pass
            f[v.name] = self.default_val(t, f'{name}.{v.name}', facts)
        return Struct(cn, f)

    def ev_init(self, st, ty, init, name=''):
        """value of type ty initialised from expression"""
        k = ty[0]
        if init.k == 'initlist':
            args = init.a
            if k in ('struct', 'vec', 'mat', 'list', 'dec', 'barr') and not (k == 'list' and init.name != 'ParenListExpr'):
                yield from self.construct(st, ty, args, name)
                return
            if len(args) == 1:
                init = args[0]
            elif k == 'array':
                for st1, vs in self.ev_args(st, args):
                    yield st1, Tup(vs)
                return
            else:
                raise Unsupported('initializer list for ' + str(ty))
        if init.k == 'construct':
            ity = self.types.parse(init.ty, self.cls_ctx()) if init.ty else ty
            if ity[0] in ('auto', 'opaque'):
                ity = ty
            if k == 'auto':
                ty = ity
                k = ty[0]
            if len(init.a) == 1 and init.a[0].k == 'construct':
                yield from self.ev_init(st, ty, init.a[0], name)
                return
            if ity[0] in ('struct', 'vec', 'mat', 'list', 'dec', 'barr'):
                yield from self.construct(st, ity, init.a, name)
                return
            if len(init.a) == 0:
                fs = []
                v = self.default_val(ty, name, fs)
                yield st.with_fact(*fs), v
                return
            if len(init.a) == 1:
                init = init.a[0]
        for st1, v in self.ev(st, init):
            yield st1, (v if v is THROWN else self.convert(st1, v, ty))

    def convert(self, st, v, ty):
        k = ty[0]
        if isinstance(v, Num):
            if k == 'real' and not z3.is_real(v.t):
                return Num(self.to_real(v.t))
            if k == 'int' and z3.is_bool(v.t):
                return Num(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            if k == 'int' and z3.is_real(v.t):
                raise Unsupported('real to int conversion')
            if k == 'bool' and not z3.is_bool(v.t):
                return Num(v.t != 0)
        if isinstance(v, Mat) and k in ('vec', 'mat'):
            return Mat(v.t, v.rows, v.cols, ty[-1], v.vec or k == 'vec', v.nan)
        if isinstance(v, Mat) and k == 'real':
            return Num(srender(scal(mpoly(v.t))))
        if isinstance(v, BArr) and v.arr is None and k in ('barr', 'auto'):
            return v
        return v

    def construct(self, st, ty, args, name=''):
        k = ty[0]
        if k in ('vec', 'mat'):
            if not args:
                fs = []
                v = self.default_val(ty, name or 'm', fs)
                yield st.with_fact(*fs), v
                return
            for st1, vs in self.ev_args(st, args):
                if any(v is THROWN for v in vs):
                    yield st1, THROWN
                    continue
                if len(vs) == 1 and isinstance(vs[0], Mat):
                    yield st1, self.convert(st1, vs[0], ty)
                elif k == 'vec' and len(vs) == 1 and isinstance(vs[0], Num) and z3.is_int(vs[0].t):
                    yield st1, Mat(self.fresh(name or 'v', R, 'v'), vs[0].t, z3.IntVal(1), ty[2], True)
                elif k == 'mat' and len(vs) == 2 and all(isinstance(x, Num) and z3.is_int(x.t) for x in vs):
                    yield st1, Mat(self.fresh(name or 'm', R, 'm'), vs[0].t, vs[1].t, ty[3], False)
                elif k == 'vec' and all(isinstance(x, Num) for x in vs):
                    a = z3.K(I, z3.RealVal(0))
                    for i, x in enumerate(vs):
                        a = z3.Store(a, z3.IntVal(i), self.to_real(x.t))
                    n = z3.IntVal(len(vs))
                    yield st1, Mat(VOF(a, n), n, z3.IntVal(1), ty[2], True)
                else:
                    raise Unsupported(f'construct {ty} from {vs}')
            return
        if k == 'barr':
            for st1, vs in self.ev_args(st, args):
                if len(vs) == 1 and isinstance(vs[0], BArr):
                    yield self.store_barr(st1, vs[0])
                elif not vs:
                    yield st1, BArr(self.fresh('n', I), arr=self.fresh('flags', AB))
                else:
                    yield st1, BArr(vs[0].t, arr=self.fresh('flags', AB))
            return
        if k == 'list':
            for st1, vs in self.ev_args(st, args):
                if len(vs) == 1 and isinstance(vs[0], Lst):
                    yield st1, vs[0]
                elif not vs:
                    yield st1, Lst(ty[1], ZERO_I, self.fresh_leaves(ty[1], name))
                elif isinstance(vs[0], Num):
                    fs = []
                    l = Lst(ty[1], vs[0].t, self.fresh_leaves(ty[1], name, fs))
                    if len(vs) > 1:
                        l = self.fill(l, ZERO_I, vs[0].t, vs[1], fs)
                    yield st1.with_fact(*fs), l
                else:
                    raise Unsupported('vector construction')
            return
        if k == 'dec':
            for st1, vs in self.ev_args(st, args):
                yield st1, Obj('dec', kind=ty[1], G=vs[0])
            return
        if k == 'struct':
            yield from self.construct_struct(st, ty[1], args, name)
            return
        raise Unsupported(f'construct {ty}')

    def construct_struct(self, st, cn, args, name):
        # copy construction
        if len(args) == 1:
            e = args[0]
            done = False
            try:
                rs = list(self.ev(st, e))
                done = all(isinstance(v, Struct) and v.cls == cn for _, v in rs)
            except Unsupported:
                if self.fr.funcs.get(f'{cn}::<ctor>') is None:
                    raise
            if done:
                yield from rs
                return
        ctors = self.fr.get(f'{cn}::<ctor>')
        fs = []
        obj = self.default_struct(cn, name or cn, fs)
        st = st.with_fact(*fs)
        cand = [c for c in ctors if len([p for p in c.params if p.init is None]) <= len(args) <= len(c.params)]
        if not cand:
            if not args:
                yield st, obj
                return
            raise Unsupported(f'no constructor of {cn} with {len(args)} arguments')
        if len(cand) > 1:
            exact = [c for c in cand if len(c.params) == len(args)]
            cand = exact or cand
        c = cand[0]
        self.cnt += 1
        root = f'tmp:{self.cnt}'
        st = st.set(root, obj)
        for st1, vs in self.ev_args_loc(st, args):
            con = self.spec.contract(self, f'{cn}::<ctor>', len(c.params))
            for kind_, st2, _ in self.call_func(st1, c, (root, ()), vs):
                if kind_ == 'throw':
                    yield st2, THROWN
                else:
                    yield st2, st2.mem[root]

    def if_(self, st, s):
        c, t, e, cx = s.a
        outs = []
        for st1, cv in self.ev_cond(st, c):
            if cv is THROWN:
                outs.append(('throw', st1, None))
                continue
            cond = cv
            if z3.is_true(cond):
                outs.extend(self.stmt(st1, t))
                continue
            if z3.is_false(cond):
                outs.extend(self.stmt(st1, e) if e is not None else [('normal', st1, None)])
                continue
            o1, o2 = [], []
            f1 = self.feas(st1, cond)
            f2 = self.feas(st1, z3not(cond))
            if f1:
                s1 = st1.assume_branch(cond)
                o1 = self.stmt(s1, t)
            if f2:
                s2 = st1.assume_branch(z3not(cond))
                o2 = self.stmt(s2, e) if e is not None else [('normal', s2, None)]
            alls = o1 + o2
            if alls and all(o[0] == 'normal' and self.same_mem(o[1], st1) for o in alls):
                outs.append(('normal', st1, None))
            else:
                outs.extend(alls)
        return outs

    def same_mem(self, a, b):
        for k, v in b.mem.items():
            if a.mem.get(k) is not v:
                return False
        return True

    def feas(self, st, cond):
        cs = z3.simplify(cond)
        if z3.is_false(cs):
            return False
        if z3.is_true(cs):
            return True
        n = z3not(cond)
        for f in st.facts:
            if not isinstance(f, Forall):
                if f.eq(n):
                    return False
                if f.eq(cond):
                    return True
        return feasible(st.facts + [cond])

    def switch(self, st, s):
        cond, items = s.a
        outs = []
        for st1, v in self.ev(st, cond):
            if v is THROWN:
                outs.append(('throw', st1, None))
                continue
            labels = [(i, it) for i, it in enumerate(items) if it[0] in ('case', 'default')]
            rest = st1
            default = None
            for i, it in labels:
                if it[0] == 'default':
                    default = i
                    continue
                (_, lv), = list(self.ev(rest, it[1]))
                c = v.t == lv.t
                if self.feas(rest, c):
                    outs.extend(self.case(rest.assume_branch(c), items, i))
                rest = rest.assume_branch(z3not(c))
            if feasible(rest.facts):
                if default is not None:
                    outs.extend(self.case(rest, items, default))
                else:
                    outs.append(('normal', rest, None))
        return outs

    def case(self, st, items, i):
        body = [it[1] for it in items[i:] if it[0] == 'stmt']
        res = []
        for o in self.block(st, body):
            res.append(('normal', o[1], None) if o[0] == 'break' else o)
        return res

    def for_(self, st, s):
        init, cond, inc, body = s.a
        outs = [('normal', st, None)] if init is None else self.stmt(st, init)
        res = []
        for o in outs:
            if o[0] != 'normal':
                res.append(o)
            else:
                res.extend(self.loop(o[1], cond, inc, body, s.line))
        return res

    def forrange(self, st, s):
        var, rng, body = s.a
        res = []
        for st1, (loc, val) in self.evl(st, rng):
            if val is THROWN:
                res.append(('throw', st1, None))
                continue
            if loc is None:
                self.cnt += 1
                loc = (f'tmp:{self.cnt}', ())
                st1 = st1.set(loc[0], val)
            loc = self.resolve(st1, loc)
            l = self.read(st1, loc)
            if not isinstance(l, Lst):
                raise Unsupported('range-for over ' + str(l))
            self.cnt += 1
            idx = f'idx:{self.cnt}'
            st2 = st1.set(idx, Num(ZERO_I))
            ty = self.types.parse(var.ty, self.cls_ctx())
            bs = S('rangebody', [var, loc, idx, body, '&' in var.ty], s.line)
            cond = E('pyexpr', [lambda eng, st_: Num(st_.mem[idx].t < eng.read(st_, loc).n)])
            inc = E('pystmt', [lambda eng, st_: st_.set(idx, Num(icanon(st_.mem[idx].t + 1)))])
            res.extend(self.loop(st2, cond, inc, bs, s.line))
        return res

    def exec_body(self, st, body):
        if body.k == 'rangebody':
            var, loc, idx, b, isref = body.a
            i = st.mem[idx].t
            el = (loc[0], tuple(loc[1]) + (('i', i),))
            if isref:
                st = st.set(var.id, RefV(el))
            else:
                st = st.set(var.id, self.read(st, el))
            return self.stmt(st, b)
        return self.stmt(st, body)


class _Thrown:
    pass


THROWN = _Thrown()
