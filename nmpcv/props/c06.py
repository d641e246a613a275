"""C06: every point of the box QP lies in the box."""
from .boxqp import *


class C06(BoxSpec):
    ignore = frozenset(['llt_free_', 'free_idxs_'])

    def __init__(self):
        super().__init__()
        self.contracts['BoxQP::solve'] = Contract('BoxQP::solve', 5, requires=self.pre, ensures=self.post, step=True, mods={('this', ()): True})
        self.contracts['BoxQP::solve (no guess)'] = Contract('BoxQP::solve', 4, requires=self.pre4, ensures=self.post4)
        self.contracts['BoxQP::<ctor>'] = Contract('BoxQP::<ctor>', 1, ensures=self.ct_post, throws=self.ct_throws)

    def ct_ok(self, c):
        n, V = c.arg(0).t, self.tparam(c.eng, 'VarDim')
        return z3.And(n > 0, z3.Or(V == -1, n == V))

    def ct_post(self, c):
        return [('a constructed solver has a positive dimension consistent with the template', z3.And(self.ct_ok(c), c.n.t('var_dim_') == c.arg(0).t))]

    def ct_throws(self, c):
        return [('only a bad dimension is rejected', z3.Not(self.ct_ok(c)))]

    def pre4(self, c):
        return self.solve_pre(c, 4)

    def post4(self, c):
        return self.post(c)[:2]

    def kinds_for(self, fn, depth):
        return frozenset(['dim'])

    def pre(self, c):
        self.f = c.f
        return self.solve_pre(c)

    def trace(self, eng, v, lo, hi, upto):
        n = v.t('var_dim_')
        r, j = fresh_int('r'), fresh_int('j')
        x = v.el(('trace_data_list_',), r, 'x')
        e = elem(x.t, j)
        return Forall([r, j], z3.And(r >= 0, r < upto, j >= 0, j < n), [elem(lo, j) <= e, e <= elem(hi, j)], 'recorded points in box')

    def post(self, c):
        n = c.o.t('var_dim_')
        lo, hi = c.arg(P_LO).t, c.arg(P_HI).t
        m = c.n.v('trace_data_list_').n
        rv = c.n.t('retval_')
        last = self.trace(c.eng, c.n, lo, hi, m)
        return [('the returned point lies in the box', inbox(c.eng, c.ret.t, lo, hi, n)),
                ('the returned point has the right dimension', c.ret.rows == n),
                ('recorded points before the last record lie in the box', self.trace(c.eng, c.n, lo, hi, m - 1)),
                ('the last record lies in the box when its iteration took a step', Forall(last.vs, z3.And(last.guard, z3.Or(rv == 1, rv == 2)), last.body))]

    def loop_invariants(self, eng, st0):
        if eng.cur != 'BoxQP::solve':
            return []
        this = eng.root_this
        n = View(eng, st0, this).t('var_dim_')
        lo, hi = self.param(eng, P_LO).t, self.param(eng, P_HI).t
        out = []
        ch = {k[0] for k in eng.cand_cells}
        for r in box_roots(eng, st0, n):
            if r not in ch:
                continue
            out.append((f'{eng.vname(r)} in box', (lambda r: lambda st: [inbox(eng, st.mem[r].t, lo, hi, n)])(r)))
            out.append((f'{eng.vname(r)} has the dimension', (lambda r: lambda st: [st.mem[r].rows == n])(r)))
        if len(eng.outer) > 1:
            return out
        out.append(('records in box', lambda st: [self.trace(eng, View(eng, st, this), lo, hi, View(eng, st, this).v('trace_data_list_').n)]))
        out.append(('still running', lambda st: [View(eng, st, this).t('retval_') == 0]))
        return out


SPEC = C06
