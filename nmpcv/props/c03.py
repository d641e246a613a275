"""C03: success flag, iteration budget and regularization discipline of the DDP solver."""
from .ddp import *

GL = '$lambda at the last backward pass'
GR = '$value returned by the last iteration'


class C03(DDPSpec):
    ignore = frozenset(['derivative_list_', 'computation_duration_', 'K_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', ensures=self.bw_post, light=True, ghost=self.snap)
        C['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', ensures=self.fw_post, light=True)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.po_pre, ensures=self.po_post, ghost=self.snapr)
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.so_pre, ensures=self.so_post)

    def ghosts(self):
        return {GL: Num(z3.Real('ghost.lambda0')), GR: Num(z3.Int('ghost.ret0'))}

    def snap(self, c, st):
        return st.set(GL, Num(c.n.t('lambda_')))

    def snapr(self, c, st):
        return st.set(GR, Num(c.ret.t))

    def cfgf(self, v):
        g = lambda n: v.t('config_', n)
        return [('horizon >= 0', Nof(v) >= 0), ('lambda_factor > 1', g('lambda_factor') > 1), ('lambda_min > 0', g('lambda_min') > 0),
                ('initial regularization', z3.And(g('initial_lambda') >= 0, g('initial_dlambda') > 0, g('initial_lambda') <= g('lambda_max')))]

    def keep(self, c, *names):
        return [(f'{n} unchanged', c.o.t(*n) == c.n.t(*n)) for n in names]

    def frame(self, c):
        return self.keep(c, ('current_t_',)) + [('configuration unchanged', z3.And(*[c.o.t('config_', n) == c.n.t('config_', n) for n in
            ('horizon_steps', 'max_iter', 'lambda_factor', 'lambda_min', 'lambda_max', 'k_rel_norm_thre', 'lambda_thre', 'cost_update_thre')]))]

    def bw_post(self, c):
        return self.frame(c) + self.keep(c, ('lambda_',), ('dlambda_',)) + self.same(c, 'control_data_')

    def fw_post(self, c):
        return self.frame(c) + self.keep(c, ('lambda_',), ('dlambda_',)) + self.same(c, 'control_data_') + self.kept_k(c)

    def kept_k(self, c):
        j = fresh_int('j')
        return [('feedforward gains unchanged', Forall([j], TRUE, [c.o.el(('k_list_',), j).t == c.n.el(('k_list_',), j).t]))]

    def same(self, c, which):
        out = []
        for l in ('x_list', 'u_list'):
            j = fresh_int('j')
            out.append((f'{which}.{l} unchanged', Forall([j], TRUE, [c.o.el((which, l), j).t == c.n.el((which, l), j).t])))
        a, b = c.o.v(which, 'cost_list'), c.n.v(which, 'cost_list')
        out.append((f'{which}.cost_list unchanged', z3.And(a.t == b.t, a.rows == b.rows)))
        return out

    def reg(self, v):
        return [('regularization non-negative', v.t('lambda_') >= 0), ('regularization rate positive', v.t('dlambda_') > 0),
                ('regularization within maximum', v.t('lambda_') <= v.t('config_', 'lambda_max'))]

    def po_pre(self, c):
        return self.cfgf(c.o) + self.reg(c.o)

    def total(self, v, which='control_data_'):
        x = v.v(which, 'cost_list')
        return VSUM(x.t, x.rows)

    def conv(self, o, n):
        """a documented convergence criterion holds between the states before and after the last iteration"""
        j = fresh_int('j')
        N = Nof(n)
        rel = NORM(n.el(('k_list_',), j).t) / (NORM(n.el(('control_data_', 'u_list'), j).t) + 1)
        return Forall([j], z3.And(j >= 0, j < N), [rel < n.t('config_', 'k_rel_norm_thre')]), \
            n.t('lambda_') < n.t('config_', 'lambda_thre'), self.total(o) - self.total(n) < n.t('config_', 'cost_update_thre')

    def po_post(self, c):
        o, n = c.o, c.n
        r = c.ret.t
        lam, f, lmin = n.t('lambda_'), n.t('config_', 'lambda_factor'), n.t('config_', 'lambda_min')
        lb = c.new.mem[GL].t
        grad, small, dcost = self.conv(o, n)
        acc = z3.And(lam * f <= lb, z3.Implies(lb < lmin, lam == 0))
        rej = z3.And(lam >= lb * f, lam >= lmin)
        unch = self.total(o) == self.total(n)
        out = self.frame(c)
        out += [('return value is -1, 0 or 1', z3.Or(r == -1, r == 0, r == 1)),
                ('regularization non-negative', lam >= 0), ('regularization rate positive', n.t('dlambda_') > 0),
                ('failure exactly when the regularization exceeds its maximum', (r == -1) == (lam > n.t('config_', 'lambda_max'))),
                ('continuing: step accepted and regularization lowered, or rejected and raised', z3.Implies(r == 0, z3.Or(acc, z3.And(rej, unch)))),
                ('success: converged gradient or small accepted improvement', z3.Implies(r == 1, z3.Or(z3.And(lam == lb, small, unch), z3.And(acc, dcost)))),
                ('success without an accepted step needs every relative feedforward norm below the threshold',
                 Forall(grad.vs, z3.And(r == 1, z3.Not(z3.And(acc, dcost)), grad.guard), grad.body)),
                ]
        # one record per iteration, carrying its number and the regularization
        m = n.v('trace_data_list_')
        k = o.v('trace_data_list_').n
        last = lambda nm: n.el(('trace_data_list_',), k, nm).t
        out += [('one trace record appended', m.n == k + 1), ('record carries the iteration number', last('iter') == c.arg(0).t),
                ('record of a decided iteration carries the regularization', z3.Implies(z3.Or(r == 0, z3.And(r == 1, acc, dcost, z3.Not(z3.And(lam == lb, small, unch)))), last('lambda') == lam))]
        return out

    def so_pre(self, c):
        return self.cfgf(c.o) + [('max_iter >= 0', c.o.t('config_', 'max_iter') >= 0)]

    def so_post(self, c):
        n = c.n
        lam = n.t('lambda_')
        m = n.v('trace_data_list_').n
        grad, small, _ = self.conv(n, n)
        return [('regularization non-negative', lam >= 0),
                ('at most max_iter iterations', z3.And(m >= 1, m <= n.t('config_', 'max_iter') + 1)),
                ('true is returned exactly when the last iteration returned 1 (converged)', c.ret.t == z3.And(m >= 2, c.new.mem[GR].t == 1)),
                ('success excludes a failed iteration', z3.Implies(c.ret.t, z3.And(lam <= n.t('config_', 'lambda_max'), m >= 2))),
                ('stops with failure once the regularization exceeds its maximum', z3.Implies(lam > n.t('config_', 'lambda_max'), z3.Not(c.ret.t)))]

    def loop_invariants(self, eng, st0):
        this = eng.root_this

        def mk(n):
            def fn(st):
                return [self.reg(View(eng, st, this))[n][1]]
            return fn

        def raised(st):
            v, v0 = View(eng, st, this), View(eng, st0, this)
            f = v.t('config_', 'lambda_factor')
            return [z3.And(v.t('dlambda_') > 0, v.t('lambda_') >= 0)]
        return [(f'regularization {n}', mk(n)) for n in range(3)] + [('raised', raised)]

    def loop_step(self, eng, st0, head, end, line):
        """a loop iteration that changes the regularization without running a whole iteration is a backward-pass retry"""
        this = eng.root_this
        if this is None or eng.cur != 'DDPSolver::procOnce' or len(eng.stack) != 1:
            return []
        a, b = View(eng, head, this), View(eng, end, this)
        if a.t('lambda_').eq(b.t('lambda_')):
            return []
        f = a.t('config_', 'lambda_factor')
        return [('a failed backward pass raises the regularization by at least the factor and to at least the minimum (variant of the retry loop)',
                 z3.And(b.t('lambda_') >= f * a.t('lambda_'), b.t('lambda_') >= a.t('config_', 'lambda_min')))]


SPEC = C03
