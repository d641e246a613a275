"""C12: malformed initial guesses are rejected, well-formed ones accepted, and all sequence accesses stay in bounds."""
from . import ddp as dd, fmpc as fm
from .ddp import *

DYN = -1


class Guard:
    """contracts of the variants that start from a well-formed guess are proved with the callees in line"""

    def contract(self, eng, key, nparams):
        if self.wf and key in self.inline_wf:
            return None
        return super().contract(eng, key, nparams)

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim'] + (['eff', 'frame'] if self.wf else []) + (['push', 'mono'] if self.pushes else []))


class C12D(Guard, dd.DDPSpec):
    tags = ('idx',)
    ignore = frozenset(['computation_duration_'])
    inline_wf = frozenset()
    wf = False
    pushes = True
    LISTS = [('control_data_', 'x_list', 1), ('control_data_', 'u_list', 0), ('candidate_control_data_', 'x_list', 1), ('candidate_control_data_', 'u_list', 0)]

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['BoxQP::solve'] = Contract('BoxQP::solve', 5, ensures=self.qp_post, mods={('this', ()): True}, may_throw=False, verify=False, note='BoxQP::solve: free indices in range, size of the exposed factorization (proved under C08)')
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', requires=self.pre, ensures=self.post, throws=self.only_second, step=True)
        C['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', requires=self.pre, ensures=self.post, step=True)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.po_pre, ensures=self.po_post, throws=self.only_second, step=True)
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.so_pre, ensures=self.so_post, step=True)
        C['DDPSolver::solve (well-formed guess)'] = Contract('DDPSolver::solve', requires=self.wf_pre, throws=self.no_throw, step=True)

    def global_facts(self, eng):
        return [z3.Int('VarDim') == DYN]        # backwardPass uses BoxQP<Eigen::Dynamic>

    def sized(self, v):
        N = Nof(v)
        return [('sizes', z3.And(N >= 0, *[v.n(a, b) == N + k for a, b, k in self.LISTS], *[v.v(w, 'cost_list').rows == N + 1 for w in ('control_data_', 'candidate_control_data_')],
                                 v.n('k_list_') == N, v.n('K_list_') == N, v.n('derivative_list_') == N))]

    SECOND = ('config_', 'use_state_eq_second_derivative')

    def ddims(self, v):
        """the derivative matrices of a step agree in the input dimension"""
        j = fresh_int('j')
        D = lambda f: v.el(('derivative_list_',), j, f)
        return ('derivative dimensions', Forall([j], z3.And(j >= 0, j < v.n('derivative_list_')), [D('Lxu').cols == D('Fu').cols, D('Luu').cols == D('Fu').cols, D('Luu').rows == D('Fu').cols], 'derivative dims'))

    def qp_post(self, c):
        lst = c.n.v('free_idxs_')
        lf = next(iter(lst.leaves.values()))
        arr = lf['t'] if isinstance(lf, dict) else lf
        a = fresh_int('a')
        e = z3.Select(arr, a)
        G = c.n.v('llt_free_').d['v'].d['G']
        return [('free indices in range', Forall([a], z3.And(a >= 0, a < lst.n), [z3.And(e >= 0, e < c.n.t('var_dim_'))], 'free')),
                ('size of the factorization', z3.Implies(z3.And(c.n.t('retval_') >= 0, lst.n > 0), z3.And(G.rows == lst.n, G.cols == lst.n))), ('dimension', z3.And(c.ret.rows == c.n.t('var_dim_'), c.n.t('var_dim_') == c.o.t('var_dim_')))]

    def pre(self, c):
        return self.sized(c.o) + [self.ddims(c.o)]

    def only_second(self, c):
        return [('the only exception is the unimplemented second derivative', c.o.t(*self.SECOND))]

    def post(self, c):
        return self.sized(c.n) + [self.ddims(c.n)] + [('kept', self.keep(c.o, c.n)), ('records kept', c.o.n('trace_data_list_') == c.n.n('trace_data_list_'))]

    def keep(self, a, b):
        return z3.And(Nof(a) == Nof(b), a.t('current_t_') == b.t('current_t_'), a.t(*self.SECOND) == b.t(*self.SECOND))

    def po_pre(self, c):
        return self.pre(c) + [('a first record exists', c.o.n('trace_data_list_') >= 1)]

    def po_post(self, c):
        return self.sized(c.n) + [self.ddims(c.n)] + [('kept', self.keep(c.o, c.n)), ('a record per iteration', c.n.n('trace_data_list_') == c.o.n('trace_data_list_') + 1)]

    def wellformed(self, c):
        f = c.f.params[2].id
        n = c.arg(2).n
        j = fresh_int('j')
        u = c.eng.read(c.old, (f, (('i', j),)))
        N = Nof(c.o)
        return [('length of the guess', n == N), ('dimension of every element of the guess', Forall([j], z3.And(z3.Int('InputDim') == DYN, j >= 0, j < N), [u.rows == INPUTDIM(tm_at(c.arg(0).t, j))], 'guess'))]

    def so_pre(self, c):
        self.f = c.f
        dd = self.ddims(c.o)[1]
        return [('horizon', Nof(c.o) >= 0), ('fixed-size matrices have their template dimensions', Forall(dd.vs, z3.And(dd.guard, z3.Int('InputDim') != DYN), dd.body, 'types'))]

    def wf_pre(self, c):
        self.wf = True
        return self.so_pre(c) + self.wellformed(c) + [('second derivatives disabled', z3.Not(c.o.t(*self.SECOND)))]

    def no_throw(self, c):
        return [('a well-formed guess is accepted without exception', z3.BoolVal(False))]

    def so_post(self, c):
        return self.wellformed(c)

    def loop_invariants(self, eng, st0):
        if not eng.this_stack or len(eng.outer) > 1:
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        if 'trace_data_list_' not in eng.read(st0, this).f:
            return []
        out = [('sizes', lambda st: [self.sized(V(st))[0][1]]), ('configuration kept', lambda st: [self.keep(V(st0), V(st))]),
               ('records only added', lambda st: [V(st).n('trace_data_list_') >= V(st0).n('trace_data_list_')])]
        out.append(('derivative dimensions', lambda st: [self.ddims(V(st))[1]]))
        if eng.cur == 'DDPSolver::solve':
            ch = {k[0] for k in eng.cand_cells}
            for iv in [r for r, x in st0.mem.items() if r in ch and isinstance(x, Num) and z3.is_int(x.t)]:
                def ck(st, iv=iv):
                    j = fresh_int('j')
                    u = eng.read(eng.entry_state, (self.f.params[2].id, (('i', j),)))
                    return [Forall([j], z3.And(j >= 0, j < st.mem[iv].t), [u.rows == INPUTDIM(tm_at(V(st).t('current_t_'), j))])]
                out.append(('checked dimensions', ck))
        out.append(('records kept', lambda st: [V(st).n('trace_data_list_') == V(st0).n('trace_data_list_')]))
        return out


class C12F(Guard, fm.FMPCSpec):
    tags = ('lidx',)
    ignore = frozenset(['computation_duration_'])
    inline_wf = frozenset(['FmpcSolver::checkSequence', 'FmpcSolver::checkVariable'])
    wf = False
    pushes = True

    def __init__(self):
        super().__init__()
        C = self.contracts
        k = lambda n: 'FmpcSolver::' + n
        C[k('Variable::<ctor>')] = Contract(k('Variable::<ctor>'), 1, requires=lambda c: [('horizon', c.arg(0).t >= 0)], ensures=self.ctor_post, step=True)
        C[k('checkSequence')] = Contract(k('checkSequence'), ensures=self.cs_post, step=True)
        C[k('checkVariable')] = Contract(k('checkVariable'), ensures=self.cv_post, step=True)
        C[k('checkVariable (well-formed)')] = Contract(k('checkVariable'), requires=self.cv_wf, throws=self.no_throw, step=True)
        for n in ('backwardPass', 'forwardPass', 'setupMeritFunc', 'updateVariables', 'calcKktError'):
            C[k(n)] = Contract(k(n), requires=self.pre, ensures=self.post, step=True)
        C[k('calcMeritFunc')] = Contract(k('calcMeritFunc'), requires=self.me_pre, ensures=self.post, step=True)
        C[k('procOnce')] = Contract(k('procOnce'), requires=self.pre, ensures=self.post, step=True)
        C[k('solve')] = Contract(k('solve'), requires=self.so_pre, ensures=self.so_post, step=True)
        C[k('solve (well-formed)')] = Contract(k('solve'), requires=self.so_wf, throws=self.no_throw, step=True)

    def no_throw(self, c):
        return [('a well-formed guess is accepted without exception', z3.BoolVal(False))]

    def lens(self, get, N):
        return z3.And(*[get(l) == N + (1 if l in ('x_list', 'lambda_list') else 0) for l in fm.FIELDS])

    def sized(self, v):
        N = Nof(v)
        return z3.And(N >= 0, *[self.lens(lambda l, w=w: v.n(w, l), N) for w in ('variable_', 'delta_variable_')], v.n('coeff_list_') == N + 1)

    def ctor_post(self, c):
        return [('sequences have the length of the horizon', z3.And(self.lens(lambda l: c.n.n(l), c.arg(0).t), c.n.t('horizon_steps') == c.arg(0).t))]

    def inv(self, v):
        h = v.t('delta_variable_', 'horizon_steps')
        return ('search direction sized for its own horizon', z3.And(h >= 0, self.lens(lambda l: v.n('delta_variable_', l), h)))

    def keep(self, a, b):
        return z3.And(Nof(a) == Nof(b), a.t('current_t_') == b.t('current_t_'), a.t('delta_variable_', 'horizon_steps') == b.t('delta_variable_', 'horizon_steps'))

    def pre(self, c):
        return [('sizes', self.sized(c.o))]

    def me_pre(self, c):
        p = c.f.params[0].id
        return self.pre(c) + [('argument sizes', self.lens(lambda l: c.eng.read(c.old, (p, (('f', l),))).n, Nof(c.o)))]

    def post(self, c):
        return [('sizes', self.sized(c.n)), ('kept', self.keep(c.o, c.n))]

    def udims(self, v, get):
        j = fresh_int('j')
        return Forall([j], z3.And(z3.Int('InputDim') == DYN, j >= 0, j < Nof(v)), [get('u_list', j).rows == INPUTDIM(tm_at(v.t('current_t_'), j))], 'input dims')

    def cdims(self, v, get, l):
        j = fresh_int('j')
        return Forall([j], z3.And(z3.Int('IneqDim') == DYN, j >= 0, j < Nof(v)), [get(l, j).rows == INEQDIM(tm_at(v.t('current_t_'), j))], 'ineq dims')

    def nonneg(self, v, get, l):
        j, k = fresh_int('j'), fresh_int('k')
        return Forall([j, k], z3.And(j >= 0, j < Nof(v), k >= 0, k < get(l, j).rows), [elem(get(l, j).t, k) >= 0], 'non-negative')

    def mine(self, v):
        return lambda l, j: v.el(('variable_', l), j)

    def seq(self, v, get, n):
        return [('sequence lengths', self.lens(n, Nof(v))), ('input dimensions', self.udims(v, get))]

    def full(self, v, get, n):
        return self.seq(v, get, n) + [(f'{l} dimensions', self.cdims(v, get, l)) for l in ('s_list', 'nu_list')] + [(f'{l} non-negative', self.nonneg(v, get, l)) for l in ('s_list', 'nu_list')]

    def cs_post(self, c):
        return self.seq(c.o, self.mine(c.o), lambda l: c.o.n('variable_', l))

    def cv_post(self, c):
        return self.full(c.o, self.mine(c.o), lambda l: c.o.n('variable_', l))

    def cv_wf(self, c):
        self.wf = True
        return self.cv_post(c)

    def arg_get(self, c):
        p = c.f.params[2].id
        return lambda l, j: c.eng.read(c.old, (p, (('f', l), ('i', j)))), lambda l: c.eng.read(c.old, (p, (('f', l),))).n

    def so_pre(self, c):
        self.f = c.f
        self.wf = False
        return [('horizon', Nof(c.o) >= 0), self.inv(c.o)]

    def guess(self, c, all_=True):
        """well-formedness of the given guess, at the given time"""
        get, n = self.arg_get(c)

        class V:
            t = staticmethod(lambda *p: c.arg(0).t if p == ('current_t_',) else c.o.t(*p))
        fs = self.full(V, get, n) if all_ else self.seq(V, get, n)
        return fs

    def so_post(self, c):
        on = c.o.t('config_', 'init_complementary_variable')
        out = self.guess(c, False)
        out += [(nm + ' (given slacks and multipliers used)', Forall(f.vs, z3.And(f.guard, z3.Not(on)), f.body)) for nm, f in self.guess(c)[2:]]
        return out + [self.inv(c.n)]

    def so_wf(self, c):
        r = self.so_pre(c) + self.guess(c)
        self.wf = True
        return r

    def loop_invariants(self, eng, st0):
        if not eng.this_stack:
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        me = eng.read(st0, this)
        if not isinstance(me, Struct):
            return []
        if 'coeff_list_' not in me.f:
            return []
        out = []
        ch = {k[0] for k in eng.cand_cells}
        N = lambda st: Nof(V(st))
        out.append(('sizes', lambda st: [self.sized(V(st))]))
        out.append(('variable sizes', lambda st: [self.lens(lambda l: V(st).n('variable_', l), N(st))]))
        out.append(('configuration kept', lambda st: [self.keep(V(st0), V(st))]))
        for r, x in st0.mem.items():
            if isinstance(x, Struct) and r != 'this' and r in ch and all(l in x.f for l in fm.FIELDS):
                out.append((f'{eng.vname(r)} sizes', (lambda r: lambda st: [self.lens(lambda l: st.mem[r].f[l].n, N(st))])(r)))
        if eng.cur.endswith('checkSequence') or eng.cur.endswith('checkVariable'):
            fs = [f for _, f in self.full(V(st0), self.mine(V(st0)), lambda l: V(st0).n('variable_', l)) if isinstance(f, Forall)]
            for iv in [r for r, x in st0.mem.items() if r in ch and isinstance(x, Num) and z3.is_int(x.t)]:
                for f in fs:
                    out.append(('checked so far: ' + f.name, (lambda f, iv: lambda st: [Forall(f.vs, z3.And(f.guard, f.vs[0] < st.mem[iv].t), f.body, f.name)])(f, iv)))
        if self.wf and eng.cur.endswith('::solve') and any(p[:1] == ('variable_',) for _, p in eng.cand_cells):
            for iv in [r for r, x in st0.mem.items() if r in ch and isinstance(x, Num) and z3.is_int(x.t)]:
                def setup(st, l, mk, iv=iv):
                    f = mk(V(st), self.mine(V(st)), l)
                    return [Forall(f.vs, z3.And(f.guard, f.vs[0] < st.mem[iv].t), f.body, f.name)]
                for l in ('s_list', 'nu_list'):
                    out.append((l + ' initialized dimensions', lambda st, l=l, s=setup: s(st, l, self.cdims)))
                    out.append((l + ' initialized non-negative', lambda st, l=l, s=setup: s(st, l, self.nonneg)))
        return out


SPEC = [C12D, C12F]
