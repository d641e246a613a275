"""C01: the reported trajectory is an exact rollout."""
from .ddp import *


class C01(DDPSpec):
    ignore = frozenset(['derivative_list_', 'computation_duration_', 'trace_data_list_', 'k_list_', 'K_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', ensures=self.bw_post, light=True)
        C['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', requires=self.fw_pre, ensures=self.fw_post)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.po_pre, ensures=self.po_post)
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.so_pre, ensures=self.so_post)

    def cfg(self, v):
        return [('horizon >= 0', Nof(v) >= 0)]

    def frame(self, c):
        same = lambda *p: c.o.t(*p) == c.n.t(*p)
        return [('horizon and current time unchanged', z3.And(same('config_', 'horizon_steps'), same('current_t_')))]

    def sized(self, v):
        N = Nof(v)
        return [('candidate sizes', z3.And(v.n('candidate_control_data_', 'x_list') == N + 1, v.n('candidate_control_data_', 'u_list') == N,
                                           v.v('candidate_control_data_', 'cost_list').rows == N + 1))]

    def bw_post(self, c):
        return self.frame(c) + [(n, f) for n, f in self.same_traj(c)]

    def same_traj(self, c, which='control_data_'):
        a, b = c.o, c.n
        out = [('trajectory sizes unchanged', z3.And(a.n(which, 'x_list') == b.n(which, 'x_list'), a.n(which, 'u_list') == b.n(which, 'u_list'),
                                                     a.v(which, 'cost_list').rows == b.v(which, 'cost_list').rows))]
        for l in ('x_list', 'u_list'):
            j = fresh_int('j')
            out.append((l + ' unchanged', Forall([j], TRUE, [a.el((which, l), j).t == b.el((which, l), j).t])))
        out.append(('cost_list unchanged', a.v(which, 'cost_list').t == b.v(which, 'cost_list').t))
        return out

    def fw_pre(self, c):
        return self.cfg(c.o) + rollout(c.o) + self.sized(c.o)

    def fw_post(self, c):
        x0 = c.o.el(('control_data_', 'x_list'), ZERO_I).t
        return self.frame(c) + rollout(c.n, 'candidate_control_data_', x0) + self.same_traj(c)

    def po_pre(self, c):
        return self.fw_pre(c)

    def po_post(self, c):
        x0 = c.o.el(('control_data_', 'x_list'), ZERO_I).t
        return self.frame(c) + rollout(c.n, 'control_data_', x0) + self.sized(c.n)

    def so_pre(self, c):
        return self.cfg(c.o)

    def so_post(self, c):
        return [('current time stored', c.n.t('current_t_') == c.arg(0).t)] + rollout(c.n, 'control_data_', c.arg(1).t)

    def loop_invariants(self, eng, st0):
        this = eng.root_this

        def mk(which, n):
            def fn(st):
                v = View(eng, st, this)
                x0 = View(eng, st0, this).el(('control_data_', 'x_list'), ZERO_I).t
                return [rollout(v, which, x0)[n][1]]
            return fn
        return [(f'{w} rollout {n}', mk(w, n)) for w in ('control_data_', 'candidate_control_data_') for n in range(5)]


SPEC = C01
