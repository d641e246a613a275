"""C02: the DDP solver never makes the total cost worse; the trace records it (NaN tracked explicitly)."""
from .ddp import *


class C02(DDPSpec):
    ieee = True
    ignore = frozenset(['derivative_list_', 'computation_duration_', 'k_list_', 'K_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', ensures=self.bw_post, light=True)
        C['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', requires=self.fw_pre, ensures=self.bw_post, light=True)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.po_pre, ensures=self.po_post)
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.so_pre, ensures=self.so_post)

    def total(self, eng, v, which='control_data_'):
        """(value, is-NaN) of the sum of a cost list"""
        x = v.v(which, 'cost_list')
        return eng.vec_sum(x)

    def frame(self, c):
        same = lambda *p: c.o.t(*p) == c.n.t(*p)
        return [('configuration unchanged', z3.And(same('config_', 'horizon_steps'), same('config_', 'cost_update_ratio_thre'), same('config_', 'max_iter')))]

    def sized(self, v):
        N = Nof(v)
        return [('cost list sizes', z3.And(v.v('candidate_control_data_', 'cost_list').rows == N + 1, v.v('control_data_', 'cost_list').rows == N + 1))]

    def same_traj(self, c):
        out = []
        for l in ('x_list', 'u_list'):
            j = fresh_int('j')
            out.append((f'{l} unchanged', Forall([j], TRUE, [c.o.el(('control_data_', l), j).t == c.n.el(('control_data_', l), j).t])))
        a, b = c.o.v('control_data_', 'cost_list'), c.n.v('control_data_', 'cost_list')
        out.append(('cost_list unchanged', z3.And(a.t == b.t, a.rows == b.rows, *([a.nan == b.nan] if a.nan is not None and b.nan is not None else []))))
        return out

    def bw_post(self, c):
        return self.frame(c) + self.same_traj(c) + [('cost list size', c.n.v('candidate_control_data_', 'cost_list').rows == c.o.v('candidate_control_data_', 'cost_list').rows)]

    def fw_pre(self, c):
        return [('horizon >= 0', Nof(c.o) >= 0)] + self.sized(c.o)

    def po_pre(self, c):
        return [('horizon >= 0', Nof(c.o) >= 0), ('acceptance threshold not negative', c.o.t('config_', 'cost_update_ratio_thre') >= 0)] + self.sized(c.o)

    def po_post(self, c):
        e = c.eng
        a, an = self.total(e, c.o)
        b, bn = self.total(e, c.n)
        unch = z3.And(*[g for _, g in self.same_traj(c) if not isinstance(g, Forall)])
        k = c.o.v('trace_data_list_').n
        last = lambda nm: c.n.el(('trace_data_list_',), k, nm)
        r = c.ret.t
        lc = last('cost')
        lcn = lc.nan if lc.nan is not None else FALSE
        return self.frame(c) + self.sized(c.n) + [
            ('total cost not larger and not NaN, or trajectory unchanged', z3.Or(unch, z3.And(b <= a, z3.Not(bn), z3.Not(an)))),
            ('one trace record appended', c.n.v('trace_data_list_').n == k + 1),
            ('record carries the iteration number', last('iter').t == c.arg(0).t),
            ('a decided iteration records the total cost of the kept trajectory', z3.Implies(r == 0, z3.And(lc.t == b, lcn == bn))),
        ] + self.hist(c, k)

    def hist(self, c, k):
        j = fresh_int('j')
        rng = z3.And(j >= 0, j < k)
        eq = []
        for nm in ('iter', 'cost'):
            x, y = c.o.el(('trace_data_list_',), j, nm), c.n.el(('trace_data_list_',), j, nm)
            eq.append(x.t == y.t)
            if x.nan is not None and y.nan is not None:
                eq.append(x.nan == y.nan)
        return [('earlier records unchanged', Forall([j], rng, eq))]

    def so_pre(self, c):
        return [('horizon >= 0', Nof(c.o) >= 0), ('acceptance threshold not negative', c.o.t('config_', 'cost_update_ratio_thre') >= 0), ('max_iter >= 0', c.o.t('config_', 'max_iter') >= 0)]

    def so_post(self, c):
        n = c.n
        b, bn = self.total(c.eng, n)
        rec = lambda i, nm: n.el(('trace_data_list_',), i, nm)
        j = fresh_int('j')
        m = n.v('trace_data_list_').n
        f = rec(ZERO_I, 'cost')
        fn = f.nan if f.nan is not None else FALSE
        N = Nof(n)
        return [('final total cost never exceeds the initial one (and is NaN only if that was)', z3.And(z3.Implies(z3.Not(fn), z3.And(z3.Not(bn), b <= f.t)))),
                ('first record is iteration 0', z3.And(m >= 1, rec(ZERO_I, 'iter').t == 0)),
                ('record k has iteration number k', Forall([j], z3.And(j >= 0, j < m), [rec(j, 'iter').t == j]))]

    def loop_invariants(self, eng, st0):
        this = eng.root_this
        out = []

        def mk(n):
            return lambda st: [self.sized(View(eng, st, this))[n][1]]
        out.append(('sizes', mk(0)))

        def cost(st):
            v, v0 = View(eng, st, this), View(eng, st0, this)
            b, bn = self.total(eng, v)
            a, an = self.total(eng, v0)
            return [z3.Implies(z3.Not(an), z3.And(z3.Not(bn), b <= a))]

        def trace(st):
            v = View(eng, st, this)
            j = fresh_int('j')
            m = v.v('trace_data_list_').n
            return [Forall([j], z3.And(j >= 0, j < m), [v.el(('trace_data_list_',), j, 'iter').t == j])]

        def first(st):
            v, v0 = View(eng, st, this), View(eng, st0, this)
            x, y = v.el(('trace_data_list_',), ZERO_I, 'cost'), v0.el(('trace_data_list_',), ZERO_I, 'cost')
            fs = [x.t == y.t]
            if x.nan is not None and y.nan is not None:
                fs.append(x.nan == y.nan)
            return fs
        return out + [('cost not above start', cost), ('trace numbering', trace), ('first record kept', first)]


SPEC = C02
