"""C07: the return code of the box QP tells the truth."""
from .boxqp import *


class C07(BoxSpec):
    ignore = frozenset([])

    def __init__(self):
        super().__init__()
        self.contracts['BoxQP::solve'] = Contract('BoxQP::solve', 5, requires=self.pre, ensures=self.post, step=True)

    def kinds_for(self, fn, depth):
        return frozenset(['dim']) if depth == 1 else frozenset(['dim', 'push', 'termbound', 'bound'])

    def pre(self, c):
        self.f = c.f
        return self.solve_pre(c) + [('positive iteration limit', c.o.t('config_', 'max_iter') >= 1)]

    def held(self, x, g, lo, hi, j):
        a = elem(x, j)
        return z3.Or(z3.And(a == elem(lo, j), elem(g, j) > 0), z3.And(a == elem(hi, j), elem(g, j) < 0))

    def post(self, c):
        n = c.o.t('var_dim_')
        lo, hi, H, g = c.arg(P_LO).t, c.arg(P_HI).t, c.arg(P_H).t, c.arg(P_G).t
        rv = c.n.t('retval_')
        x = c.ret.t
        gr = madd(g, mul(H, x))
        j, k = fresh_int('j'), fresh_int('j')
        thr = c.o.t('config_', 'grad_thre')
        rng = lambda j: z3.And(j >= 0, j < n)
        m = c.n.v('trace_data_list_').n
        mx = c.o.t('config_', 'max_iter')
        e = elem(gr, k)
        return [('all-clamped code: every coordinate is held at a bound the gradient pushes against', Forall([j], z3.And(rv == 6, rng(j)), [self.held(x, gr, lo, hi, j)])),
                ('small-gradient code: every coordinate is held at a bound or has a gradient component below the tolerance',
                 Forall([k], z3.And(rv == 5, rng(k)), [z3.Or(self.held(x, gr, lo, hi, k), e * e < thr * thr)])),
                ('a documented code other than not-finished', z3.Or(*[rv == q for q in (-2, -1, 1, 2, 4, 5, 6)])),
                ('at most the configured number of iterations', z3.And(m >= 2, m <= mx + 1)),
                ('the iteration-limit code means that all iterations were made', z3.Implies(rv == 1, m == mx + 1))]

    def loop_invariants(self, eng, st0):
        if eng.cur != 'BoxQP::solve' or len(eng.outer) > 1:
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        ch = {k[0] for k in eng.cand_cells}
        n = V(st0).t('var_dim_')
        out = [('still running', lambda st: [V(st).t('retval_') == 0]),
               ('iterations within the limit', lambda st: [z3.And(V(st).v('trace_data_list_').n >= 1, V(st).v('trace_data_list_').n <= V(st).t('config_', 'max_iter'))])]
        for r, x in st0.mem.items():
            if r != 'this' and r in ch and isinstance(x, Num) and z3.is_int(x.t):
                out.append((f'{eng.vname(r)} counts the records', (lambda r: lambda st: [V(st).v('trace_data_list_').n == st.mem[r].t])(r)))
            if r != 'this' and r in ch and isinstance(x, (Mat, BArr)):
                out.append((f'{eng.vname(r)} has the dimension', (lambda r: lambda st: [(st.mem[r].n if isinstance(st.mem[r], BArr) else st.mem[r].rows) == n])(r)))
        return out


SPEC = C07
