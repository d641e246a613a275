"""Symbolic execution of the IR, verification-condition generation."""
import re, itertools
import z3
from . import terms as tm
from .terms import *
from .values import *
from .front import E, S, Var, Func, FrontError
from .prove import Forall, prove, prove_split, feasible, deep, diffconst, fresh_int, subterms

ZERO_I = z3.IntVal(0)
PASS_VIEWS = {'noalias', 'array', 'matrix', 'eval', 'derived', 'template'}


class State:
    __slots__ = ('mem', 'facts', 'branch')

    def __init__(s, mem, facts, branch):
        s.mem, s.facts, s.branch = mem, facts, branch

    def copy(s):
        return State(dict(s.mem), list(s.facts), list(s.branch))

    def with_fact(s, *fs):
        n = State(s.mem, s.facts + [f for f in fs if not (not isinstance(f, Forall) and z3.is_true(f))], s.branch)
        return n

    def assume_branch(s, c):
        return State(s.mem, s.facts + [c], s.branch + [c])

    def set(s, root, v):
        m = dict(s.mem)
        m[root] = v
        return State(m, s.facts, s.branch)


class Obligation:
    def __init__(s, name, fn, tag, line, res, formula):
        s.name, s.fn, s.tag, s.line, s.res, s.formula = name, fn, tag, line, res, formula


class Engine:
    def __init__(self, front, spec, prop):
        self.fr = front
        self.types = Types(front)
        self.spec = spec          # object with contracts / hooks
        self.prop = prop          # property id being decided
        self.obls = []
        self.dry = 0
        self.outer = []
        self.cnt = 0
        self.stack = []
        self.inlined = set()
        self.trusted = set()
        self.tags = {prop}        # obligation tags that are on
        self.ieee = False
        self.cur = None
        self.loops = []
        self.maxpaths = 600
        self.notes = []
        self.hist = {}            # name of H array -> info

    # ---------------------------------------------------------------- fresh symbols
    def fresh(self, name, sort, knd='s'):
        self.cnt += 1
        nm_ = f'{name}~{self.cnt}'
        KIND[nm_] = knd
        if self.outer:
            f = z3.Function(nm_, *([o.sort() for o in self.outer] + [sort]))
            return f(*self.outer)
        return z3.Const(nm_, sort)

    def dimterm(self, d, name='n'):
        if d is None or d in ('?', '-1', 'Eigen::Dynamic'):
            return None
        if re.match(r'^\d+$', d):
            return z3.IntVal(int(d))
        if d == 'StateDim':
            return z3.Int('StateDim')
        return None

    def fresh_val(self, ty, name, st=None, facts=None):
        k = ty[0]
        if k == 'real':
            return Num(self.fresh(name, R))
        if k == 'int':
            return Num(self.fresh(name, I))
        if k == 'bool':
            return Num(self.fresh(name, B))
        if k == 'vec':
            r = self.dimterm(ty[1])
            if r is None:
                r = self.fresh(name + '_n', I)
                if facts is not None:
                    facts.append(r >= 0)
            if self.ieee and ty[1] == '-1':
                return Mat(VOF(self.fresh(name + '_el', AR), r), r, z3.IntVal(1), ty[2], True, self.fresh(name + '_nan', AB))
            return Mat(self.fresh(name, R, 'v'), r, z3.IntVal(1), ty[2], True)
        if k == 'mat':
            r, c = self.dimterm(ty[1]), self.dimterm(ty[2])
            r = self.fresh(name + '_r', I) if r is None else r
            c = self.fresh(name + '_c', I) if c is None else c
            if facts is not None:
                facts += [r >= 0, c >= 0]
            return Mat(self.fresh(name, R, 'm'), r, c, ty[3], False)
        if k == 'barr':
            n = self.fresh(name + '_n', I)
            return BArr(n, arr=self.fresh(name, AB))
        if k == 'struct':
            cls = self.fr.classes[ty[1]]
            return Struct(ty[1], {v.name: self.fresh_val(self.types.parse(v.ty, ty[1]), f'{name}.{v.name}', st, facts) for v in cls.fields})
        if k in ('list', 'array'):
            n = self.fresh(name + '.len', I) if k == 'list' else z3.IntVal(ty[2])
            if facts is not None and k == 'list':
                facts.append(n >= 0)
            return Lst(ty[1], n, self.fresh_leaves(ty[1], name, facts))
        if k == 'ptr':
            return self.spec.fresh_ptr(self, ty[1], name)
        if k == 'fn':
            return self.spec.fresh_fn(self, ty[1], name)
        return Obj('opaque')

    def leafdesc(self, ty, path=()):
        """list of (path, kind, kinddecl) for element type"""
        k = ty[0]
        if k == 'real':
            return [(path, 'real', None)]
        if k == 'int':
            return [(path, 'int', None)]
        if k == 'bool':
            return [(path, 'bool', None)]
        if k == 'vec':
            return [(path, 'vec', ty)]
        if k == 'mat':
            return [(path, 'mat', ty)]
        if k == 'barr':
            return [(path, 'barr', None)]
        if k == 'struct':
            out = []
            for v in self.fr.classes[ty[1]].fields:
                t = self.types.parse(v.ty, ty[1])
                if t[0] in ('list', 'array'):
                    # nested list with scalar/matrix elements: only length-tracked opaque
                    out.append((path + (v.name,), 'opaque', None))
                else:
                    out += self.leafdesc(t, path + (v.name,))
            return out
        if k in ('list', 'array'):
            return [(path, 'opaque', None)]
        return [(path, 'opaque', None)]

    def fresh_leaves(self, ety, name, facts=None):
        out = {}
        for path, k, ty in self.leafdesc(ety):
            nm_ = name + '[].' + '.'.join(path)
            if k == 'real':
                out[path] = {'k': k, 't': self.fresh(nm_, AR)}
                if self.ieee:
                    out[path]['nan'] = self.fresh(nm_ + '_nan', AB)
            elif k == 'int':
                out[path] = {'k': k, 't': self.fresh(nm_, AI)}
            elif k == 'bool':
                out[path] = {'k': k, 't': self.fresh(nm_, AB)}
            elif k in ('vec', 'mat'):
                d = {'k': k, 'ty': ty, 't': self.fresh(nm_, AR, 'v' if k == 'vec' else 'm')}
                fixed_r, fixed_c = self.dimterm(ty[1]), (z3.IntVal(1) if k == 'vec' else self.dimterm(ty[2]))
                d['r'] = z3.K(I, fixed_r) if fixed_r is not None else self.fresh(nm_ + '_r', AI)
                d['c'] = z3.K(I, fixed_c) if fixed_c is not None else self.fresh(nm_ + '_c', AI)
                for q in ('r', 'c'):
                    if facts is not None and d[q].decl().kind() != z3.Z3_OP_CONST_ARRAY:
                        v = fresh_int('d')
                        facts.append(Forall([v], z3.BoolVal(True), [z3.Select(d[q], v) >= 0], 'dim>=0'))
                out[path] = d
            elif k == 'barr':
                out[path] = {'k': k, 't': self.fresh(nm_, z3.ArraySort(I, AB)), 'r': self.fresh(nm_ + '_n', AI)}
            else:
                out[path] = {'k': 'opaque'}
        return out

    def sel(self, a, i):
        return deep(z3.Select(a, i))

    def leaf_read(self, lf, i):
        k = lf['k']
        if k == 'real':
            return Num(self.sel(lf['t'], i), self.sel(lf['nan'], i) if 'nan' in lf else None)
        if k in ('int', 'bool'):
            return Num(self.sel(lf['t'], i))
        if k == 'vec':
            return Mat(self.sel(lf['t'], i), self.sel(lf['r'], i), z3.IntVal(1), lf['ty'][2], True)
        if k == 'mat':
            return Mat(self.sel(lf['t'], i), self.sel(lf['r'], i), self.sel(lf['c'], i), lf['ty'][3], False)
        if k == 'barr':
            return BArr(self.sel(lf['r'], i), arr=z3.Select(lf['t'], i))
        return Obj('opaque')

    def leaf_write(self, lf, i, v):
        k = lf['k']
        d = dict(lf)
        if k == 'opaque':
            return lf
        if k in ('real', 'int', 'bool'):
            if not isinstance(v, Num):
                raise Unsupported(f'writing {v} to scalar element')
            t = v.t
            if k == 'real':
                t = self.to_real(t)
                if 'nan' in d:
                    d['nan'] = z3.Store(d['nan'], i, v.nan if v.nan is not None else z3.BoolVal(False))
                elif v.nan is not None and not z3.is_false(v.nan):
                    d['nan'] = z3.Store(z3.K(I, z3.BoolVal(False)), i, v.nan)
            d['t'] = z3.Store(d['t'], i, t)
            return d
        if k in ('vec', 'mat'):
            if not isinstance(v, Mat):
                raise Unsupported(f'writing {v} to matrix element')
            d['t'] = z3.Store(d['t'], i, v.t)
            for q, dim in (('r', v.rows), ('c', v.cols)):
                if d[q].decl().kind() != z3.Z3_OP_CONST_ARRAY:
                    d[q] = z3.Store(d[q], i, dim if dim is not None else self.fresh('dim', I))
            return d
        if k == 'barr':
            arr = v.arr
            if arr is None:
                raise Unsupported('storing unevaluated boolean array')
            d['t'] = z3.Store(d['t'], i, arr)
            d['r'] = z3.Store(d['r'], i, v.n)
            return d
        raise Unsupported(k)

    # element of list as value / functional element write
    def lst_get(self, l, i, path=()):
        if path in l.leaves:
            return self.leaf_read(l.leaves[path], i)
        ty = l.ety
        for p in path:
            ty = self.field_type(ty, p)
        if ty[0] == 'struct':
            return Struct(ty[1], {v.name: self.lst_get(l, i, path + (v.name,)) for v in self.fr.classes[ty[1]].fields})
        return Obj('opaque')

    def field_type(self, ty, name):
        if ty[0] != 'struct':
            raise Unsupported(f'field {name} of {ty}')
        for v in self.fr.classes[ty[1]].fields:
            if v.name == name:
                return self.types.parse(v.ty, ty[1])
        raise Unsupported(f'no field {name} in {ty}')

    def lst_set(self, l, i, path, v):
        if path in l.leaves:
            nl = dict(l.leaves)
            nl[path] = self.leaf_write(l.leaves[path], i, v)
            return Lst(l.ety, l.n, nl)
        if isinstance(v, Struct):
            for fn, fv in v.f.items():
                l = self.lst_set(l, i, path + (fn,), fv)
            return l
        if isinstance(v, (Obj, Lst)):
            return l
        raise Unsupported(f'list element write {path} {v}')

    # ---------------------------------------------------------------- locations
    def resolve(self, st, loc):
        root, steps = loc
        v = st.mem.get(root)
        n = 0
        while isinstance(v, RefV):
            root, s0 = v.loc
            steps = tuple(s0) + tuple(steps)
            v = st.mem.get(root)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return root, tuple(steps)

    def read(self, st, loc):
        root, steps = self.resolve(st, loc)
        if root not in st.mem:
            raise Unsupported(f'unknown variable {root}')
        return self.read_steps(st, st.mem[root], steps)

    def read_steps(self, st, v, steps):
        i = 0
        while i < len(steps):
            s = steps[i]
            if s[0] == 'f':
                if isinstance(v, Obj) and v.k == 'ptrto':
                    v = self.read(st, v.d['loc'])
                    continue
                if not isinstance(v, Struct):
                    if isinstance(v, Obj):
                        r = self.spec.obj_field(self, st, v, s[1])
                        v = r
                        i += 1
                        continue
                    raise Unsupported(f'field {s[1]} of {v}')
                if s[1] not in v.f:
                    raise Unsupported(f'no field {s[1]} in {v.cls}')
                v = v.f[s[1]]
            elif s[0] == 'i':
                if isinstance(v, Lst):
                    path = []
                    j = i + 1
                    while j < len(steps) and steps[j][0] == 'f' and tuple(path) not in v.leaves:
                        path.append(steps[j][1])
                        j += 1
                    v = self.lst_get(v, s[1], tuple(path))
                    i = j
                    continue
                if isinstance(v, Tup):
                    if z3.is_int_value(s[1]):
                        v = v.a[s[1].as_long()]
                    else:
                        raise Unsupported('symbolic tuple index')
                elif isinstance(v, (Mat, BArr)):
                    v = self.mat_view(v, ('e', s[1]))
                else:
                    raise Unsupported(f'index of {v}')
            else:
                v = self.mat_view(v, s)
            i += 1
        return v

    def mat_view(self, v, s):
        k = s[0]
        if isinstance(v, BArr):
            if k == 'e':
                return Num(v.f(s[1]))
            if k == 'arr':
                return v
            raise Unsupported('boolean array view')
        if not isinstance(v, Mat):
            raise Unsupported(f'matrix view {k} of {v}')
        if k == 'e':
            return Num(deep(elem(v.t, s[1])), deep(z3.Select(v.nan, s[1])) if v.nan is not None else None)
        if k == 'e2':
            if v.vec:
                return Num(elem(v.t, s[1]))
            return Num(deep(elem2(v.t, s[1], s[2])))
        if k == 'col':
            return Mat(col(v.t, s[1]), v.rows, z3.IntVal(1), v.arr, True)
        if k == 'row':
            return Mat(transpose(row(v.t, s[1])), z3.IntVal(1), v.cols, v.arr, False)
        if k == 'seg':
            if v.t.decl().name() == 'zero':
                return v
            if z3.is_rational_value(v.t):
                return Mat(z3.RealVal(0), s[2], z3.IntVal(1), v.arr, True)
            return Mat(SEG(v.t, s[1], s[2]), s[2], z3.IntVal(1), v.arr, True)
        if k == 'arr':
            return Mat(v.t, v.rows, v.cols, s[1], v.vec, v.nan)
        if k == 'T':
            return Mat(transpose(v.t), v.cols, v.rows, v.arr, False)
        if k == 'diag':
            return Mat(self.uf('diagof', 'v', R, R)(v.t), v.rows, z3.IntVal(1), v.arr, True)
        if k == 'block':
            return Mat(self.uf('block', 'm', R, I, I, I, I, R)(v.t, *s[1:]), s[3], s[4], v.arr, False)
        raise Unsupported(f'view {k}')

    def uf(self, name, knd, *sorts):
        KIND[name] = knd
        return z3.Function(name, *sorts)

    def write(self, st, loc, val):
        root, steps = self.resolve(st, loc)
        if root not in st.mem:
            raise Unsupported(f'write to unknown variable {root}')
        fs = []
        nv = self.write_steps(st, st.mem[root], steps, val, fs)
        st = st.set(root, nv)
        if fs:
            st = st.with_fact(*fs)
        return st

    def write_steps(self, st, v, steps, val, fs):
        if not steps:
            return self.coerce_assign(v, val)
        s = steps[0]
        if s[0] == 'f':
            if isinstance(v, Obj) and v.k == 'ptrto':
                raise Unsupported('write through pointer')
            if not isinstance(v, Struct):
                raise Unsupported(f'write field {s[1]} of {v}')
            return v.upd(s[1], self.write_steps(st, v.f[s[1]], steps[1:], val, fs))
        if s[0] == 'i' and isinstance(v, Lst):
            path = []
            j = 1
            while j < len(steps) and steps[j][0] == 'f' and tuple(path) not in v.leaves:
                path.append(steps[j][1])
                j += 1
            path = tuple(path)
            if j < len(steps):
                old = self.lst_get(v, s[1], path)
                val = self.write_steps(st, old, steps[j:], val, fs)
            else:
                old = self.lst_get(v, s[1], path)
                val = self.coerce_assign(old, val)
            return self.lst_set(v, s[1], path, val)
        if s[0] == 'i' and isinstance(v, Tup):
            a = list(v.a)
            a[s[1].as_long()] = self.write_steps(st, a[s[1].as_long()], steps[1:], val, fs)
            return Tup(a)
        if s[0] == 'i':
            s = ('e', s[1])
        if s[0] == 'arr':
            inner = self.write_steps(st, v, steps[1:], val, fs)
            if isinstance(inner, Mat) and isinstance(v, Mat):
                return Mat(inner.t, inner.rows, inner.cols, v.arr, v.vec)
            return inner
        if len(steps) > 1:
            inner_old = self.mat_view(v, s)
            val = self.write_steps(st, inner_old, steps[1:], val, fs)
        return self.mat_write(v, s, val, fs)

    def coerce_assign(self, old, val):
        if isinstance(old, Num) and isinstance(val, Num):
            if z3.is_real(old.t) and z3.is_int(val.t):
                return Num(self.to_real(val.t), None)
            if z3.is_bool(old.t) and not z3.is_bool(val.t):
                return Num(val.t != 0)
            if z3.is_int(old.t) and z3.is_real(val.t):
                raise Unsupported('real to int conversion')
            if z3.is_int(old.t) and z3.is_bool(val.t):
                return Num(z3.If(val.t, z3.IntVal(1), z3.IntVal(0)))
            return val
        if isinstance(old, Mat) and isinstance(val, Mat):
            r = Mat(val.t, val.rows, val.cols, old.arr, old.vec or val.vec, val.nan)
            return r
        if isinstance(old, BArr) and isinstance(val, BArr):
            return val
        if isinstance(old, Num) and isinstance(val, Mat):
            # 1x1 product to scalar
            return Num(srender(scal(mpoly(val.t))))
        return val

    def as_vecof(self, v, fs, name='v'):
        """vector value with explicit element array"""
        t = v.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == 'vecof':
            return t.arg(0)
        if z3.is_rational_value(t):
            return z3.K(I, z3.RealVal(0))
        a = self.fresh(name + '_el', AR)
        j = fresh_int('e')
        fs.append(Forall([j], z3.BoolVal(True), [z3.Select(a, j) == elem(t, j)], 'elements'))
        return a

    def mat_write(self, v, s, val, fs):
        k = s[0]
        if isinstance(v, BArr):
            a = v.arr
            if k != 'e' or a is None:
                raise Unsupported('boolean array write')
            return BArr(v.n, arr=z3.Store(a, s[1], val.t))
        if not isinstance(v, Mat):
            raise Unsupported(f'matrix write to {v}')
        if k == 'e' or (k == 'e2' and v.vec):
            a = self.as_vecof(v, fs)
            n = v.rows if v.rows is not None else self.fresh('n', I)
            nan = None
            if v.nan is not None or val.nan is not None:
                nan = z3.Store(v.nan if v.nan is not None else z3.K(I, z3.BoolVal(False)), s[1], val.nan if val.nan is not None else z3.BoolVal(False))
            return Mat(VOF(z3.Store(a, s[1], self.to_real(val.t)), n), n, z3.IntVal(1), v.arr, True, nan)
        if k == 'e2':
            t = v.t
            r = v.rows if v.rows is not None else self.fresh('n', I)
            c = v.cols if v.cols is not None else self.fresh('n', I)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == 'matof':
                a = t.arg(0)
            elif z3.is_rational_value(t):
                a = z3.K(I, z3.K(I, z3.RealVal(0)))
            else:
                a = self.fresh('m_el', A2)
                i_, j_ = fresh_int('a'), fresh_int('b')
                fs.append(Forall([i_, j_], z3.BoolVal(True), [z3.Select(z3.Select(a, i_), j_) == elem2(t, i_, j_)], 'elements'))
            a = z3.Store(a, s[1], z3.Store(z3.Select(a, s[1]), s[2], self.to_real(val.t)))
            return Mat(MOF(a, r, c), r, c, v.arr, False)
        if k in ('col', 'row'):
            t = v.t
            ctor = COLSOF if k == 'col' else ROWSOF
            cn = 'colsof' if k == 'col' else 'rowsof'
            n = v.cols if k == 'col' else v.rows
            if n is None:
                n = self.fresh('n', I)
            KIND_A = 'v'
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == cn:
                a = t.arg(0)
            elif z3.is_rational_value(t):
                a = z3.K(I, z3.RealVal(0))
            else:
                a = self.fresh('m_' + k + 's', AR, 'v')
                j = fresh_int('e')
                fs.append(Forall([j], z3.BoolVal(True), [z3.Select(a, j) == (col(t, j) if k == 'col' else row(t, j))], k + 's'))
            vt = val.t if k == 'col' else (transpose(val.t) if not val.vec else val.t)
            a = z3.Store(a, s[1], vt)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                pass
            r = Mat(ctor(a, n), v.rows, v.cols, v.arr, False)
            return r
        if k == 'diag':
            # only "+= scalar" pattern arrives here as full new diagonal: old diag + x
            p = mpoly(val.t)
            dg = mpoly(self.uf('diagof', 'v', R, R)(v.t))
            diff = s_add(p, dg, -1)
            # diff must be c*ones
            ok = all(w == ((aid(ONES), False),) for (m, w) in diff)
            if not ok:
                raise Unsupported('write to diagonal')
            add = {}
            for (m, w), c in diff.items():
                add = s_add(add, {(m, ()): c})
            return Mat(mrender(s_add(mpoly(v.t), add)), v.rows, v.cols, v.arr, False)
        if k == 'seg':
            # element-wise: new array equal to val inside, old outside
            a = self.fresh('seg_el', AR)
            j = fresh_int('e')
            off, n = s[1], s[2]
            fs.append(Forall([j], z3.And(j >= off, j < off + n), [z3.Select(a, j) == elem(val.t, icanon(j - off))], 'seg-in'))
            fs.append(Forall([j], z3.Not(z3.And(j >= off, j < off + n)), [z3.Select(a, j) == elem(v.t, j)], 'seg-out'))
            res = VOF(a, v.rows)
            segeq = SEG(res, off, n) == val.t
            fs.append(segeq)
            # other segments already known stay (disjointness decided by the solver)
            for f0, o2, n2 in self.segs_of(v.t):
                fs.append(z3.Implies(z3.Or(o2 + n2 <= off, o2 >= off + n), SEG(res, o2, n2) == SEG(v.t, o2, n2)))
            self.segwrites.setdefault(res.get_id(), (res, self.segs_of(v.t) + [(res, off, n)]))
            return Mat(res, v.rows, z3.IntVal(1), v.arr, True)
        raise Unsupported(f'matrix write {k}')

    segwrites = {}

    def segs_of(self, t):
        e = self.segwrites.get(t.get_id())
        return e[1] if e else []

    def to_real(self, t):
        if z3.is_int(t):
            if z3.is_int_value(t):
                return z3.RealVal(t.as_long())
            return scanon(z3.ToReal(t))
        if z3.is_bool(t):
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return t

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, tag, line=None, closure_rounds=2):
        if self.dry or tag not in self.tags:
            return True
        r = prove(st.facts, goal, closure_rounds=closure_rounds)
        if not r:
            r = prove_split(st.facts, goal, r, closure_rounds)
        self.obls.append(Obligation(name, self.cur, tag, line, r, goal))
        return bool(r)
