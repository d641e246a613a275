"""C18: barrier parameter and complementarity initialization of the FMPC solver."""
from .fmpc import *

MUB = '$barrier parameter used by the iteration'


class C18(FMPCSpec):
    ignore = frozenset(['computation_duration_', 'delta_variable_', 'coeff_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        for n in ('backwardPass', 'forwardPass'):
            k = 'FmpcSolver::' + n
            C[k] = Contract(k, ensures=self.keepv, light=True, ghost=lambda c, st: st.set(MUB, Num(c.n.t('barrier_eps_'))))
        k = 'FmpcSolver::updateVariables'
        C[k] = Contract(k, ensures=self.keep, light=True)
        C['FmpcSolver::calcKktError'] = Contract('FmpcSolver::calcKktError', ensures=self.keepv, light=True)
        C['FmpcSolver::procOnce'] = Contract('FmpcSolver::procOnce', requires=self.po_pre, ensures=self.po_post, step=True)
        C['FmpcSolver::checkSequence'] = Contract('FmpcSolver::checkSequence', ensures=self.cs_post)
        C['FmpcSolver::solve'] = Contract('FmpcSolver::solve', requires=self.so_pre, ensures=self.so_post, step=True)
        self.seen = False

    def ghosts(self):
        return {MUB: Num(z3.Real('ghost.mu'))}

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'sum', 'eff', 'frame'])

    def keep(self, c):
        return [('barrier parameter, configuration and time kept', z3.And(c.o.t('barrier_eps_') == c.n.t('barrier_eps_'), Nof(c.o) == Nof(c.n), c.o.t('current_t_') == c.n.t('current_t_'), *[c.o.n('variable_', l) == c.n.n('variable_', l) for l in FIELDS]))]

    def keepv(self, c):
        return self.keep(c) + self.same_lists(c.o, c.n, 'variable_', ('s_list', 'nu_list'))

    def cs_post(self, c):
        return [('lengths', z3.Implies(Nof(c.o) >= 0, sizes(c.n)))]

    def po_pre(self, c):
        return [('sizes', sizes(c.o))]

    def po_post(self, c):
        o, n = c.o, c.n
        N = Nof(o)
        j = fresh_int('q')
        tot = bigsum(dot(var(o, 's_list', j), var(o, 'nu_list', j)), j, ZERO_I, N)
        j = fresh_int('q')
        cnt = bigsum(z3.ToReal(o.el(('variable_', 's_list'), j).rows), j, ZERO_I, N)
        lo, hi = num('1/100000000'), num(1000000)
        mu = n.t('barrier_eps_')
        h = mu * 2
        clamp = lambda a: z3.And(z3.Implies(z3.And(a >= 2 * lo, a <= 2 * hi), h == a), z3.Implies(a < 2 * lo, mu == lo), z3.Implies(a > 2 * hi, mu == hi))
        up = o.t('config_', 'update_barrier_eps')
        a = z3.Real('average')
        out = [('barrier within its range', z3.Implies(up, z3.And(mu >= lo, mu <= hi))),
               ('half the average complementarity product, clamped', z3.Implies(z3.And(up, cnt > 0), clamp(tot / cnt))),
               ('no division by zero without inequality constraints', z3.Implies(z3.And(up, cnt <= 0), clamp(tot))),
               ('kept when updating is disabled', z3.Implies(z3.Not(up), mu == o.t('barrier_eps_')))]
        return out + [('configuration and time kept', z3.And(Nof(c.o) == Nof(c.n), c.o.t('current_t_') == c.n.t('current_t_'), *[c.o.n('variable_', l) == c.n.n('variable_', l) for l in FIELDS]))]

    def so_pre(self, c):
        self.sof = c.f
        return [('horizon', Nof(c.o) >= 0)]

    def loop_invariants(self, eng, st0):
        if eng.cur != 'FmpcSolver::solve':
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        return [('sizes', lambda st: [sizes(V(st))])]

    def so_post(self, c):
        if not self.seen:
            raise Unsupported('the optimization loop of solve was not found')
        return []

    def loop_step(self, eng, st0, head, end, line):
        if eng.cur != 'FmpcSolver::solve':
            return []
        this = ('this', ())
        a, b = View(eng, head, this), View(eng, end, this)
        if same_val(a.v('trace_data_list_'), b.v('trace_data_list_')):
            return []
        self.seen = True
        v = View(eng, st0, this)
        e = eng.entry_state
        init = View(eng, e, this)
        on = init.t('config_', 'init_complementary_variable')
        N, t0 = Nof(v), eng.read(e, (self.sof.params[0].id, ())).t
        p0 = self.sof.params[2].id
        given = lambda l, j: eng.read(e, (p0, (('f', l), ('i', j))))
        out = []
        j, k = fresh_int('j'), fresh_int('k')
        x, u = given('x_list', j).t, given('u_list', j).t
        g = INEQ(tm_at(t0, j), x, u)
        s, nu = v.el(('variable_', 's_list'), j), v.el(('variable_', 'nu_list'), j)
        r = num('101/100')
        m = num('1/100')
        mu = num('1/10000')
        mx = lambda a, b: z3.If(a >= b, a, b)
        sk, nk = elem(s.t, k), elem(nu.t, k)
        rng = z3.And(on, j >= 0, j < N, k >= 0)
        d = INEQDIM(tm_at(t0, j))
        want = scanon(r * mx(scanon(-elem(g, k)), m))
        out.append(('initial slacks are the enlarged constraint margins', Forall([j, k], z3.And(rng, k < d), [sk == want])))
        out.append(('initial slacks are positive', Forall([j, k], z3.And(rng, k < d), [sk > 0])))
        out.append(('initial multipliers are the enlarged barrier over slack', Forall([j, k], z3.And(rng, k < d), [z3.Or(z3.And(nk * sk == r * mu, mu >= m * sk), z3.And(nk == r * m, mu <= m * sk))])))
        out.append(('initial multipliers are positive', Forall([j, k], z3.And(rng, k < d), [nk > 0])))
        out.append(('their dimension is that of the constraints', Forall([j], z3.And(on, j >= 0, j < N), [s.rows == d, nu.rows == d])))
        for l in ('x_list', 'u_list', 'lambda_list'):
            out.append((f'{l} starts as given', Forall([j], z3.And(j >= 0, j < N), [var(v, l, j) == given(l, j).t])))
        for l in ('s_list', 'nu_list'):
            out.append((f'{l} starts as given without initialization', Forall([j], z3.And(z3.Not(on), j >= 0, j < N), [var(v, l, j) == given(l, j).t])))
        out.append(('barrier parameter starts at its initial value, or is carried over', v.t('barrier_eps_') == z3.If(on, mu, init.t('barrier_eps_'))))
        return out


SPEC = C18
