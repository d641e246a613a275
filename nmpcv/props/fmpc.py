"""shared vocabulary for the FMPC solver"""
from ..spec import *
from .ddp import tm_at

FIELDS = ('x_list', 'u_list', 'lambda_list', 's_list', 'nu_list')


def Nof(v):
    return v.t('config_', 'horizon_steps')


def var(v, l, j, which='variable_'):
    return v.el((which, l), j).t


def co(v, j, n):
    return v.el(('coeff_list_',), j, n).t


def com(v, j, n):
    return v.el(('coeff_list_',), j, n)


def sizes(v, which='variable_'):
    N = Nof(v)
    return z3.And(N >= 0, v.n(which, 'x_list') == N + 1, v.n(which, 'lambda_list') == N + 1, *[v.n(which, l) == N for l in ('u_list', 's_list', 'nu_list')])


def positive(v, which='variable_', N=None):
    """all slacks and multipliers are strictly positive"""
    j, k = fresh_int('j'), fresh_int('k')
    N = Nof(v) if N is None else N
    out = []
    for l in ('s_list', 'nu_list'):
        j, k = fresh_int('j'), fresh_int('k')
        m = v.el((which, l), j)
        out.append((f'{l} positive', Forall([j, k], z3.And(j >= 0, j < N, k >= 0, k < m.rows), [elem(m.t, k) > 0], l + ' positive')))
    return out


def dims(v, which='variable_', other='delta_variable_'):
    j = fresh_int('j')
    N = Nof(v)
    eqs = [v.el((which, l), j).rows == v.el((other, l), j).rows for l in ('s_list', 'nu_list')] + [v.el((which, 's_list'), j).rows == v.el((which, 'nu_list'), j).rows]
    return ('slack and multiplier dimensions agree', Forall([j], z3.And(j >= 0, j < N), eqs, 'dims'))


class FMPCSpec(Spec):
    unit = 'fmpc'

    def __init__(self):
        super().__init__()
        for k in ('Variable', 'Coefficient'):
            n = f'FmpcSolver::{k}::containsNaN'
            self.contracts[n] = Contract(n, ensures=self.pure, light=True)

    def pure(self, c):
        return []

    def same_lists(self, a, b, which, fields=FIELDS):
        out = []
        for l in fields:
            j = fresh_int('j')
            out.append((f'{which}.{l} unchanged', Forall([j], TRUE, [a.el((which, l), j).t == b.el((which, l), j).t])))
            out.append((f'{which}.{l} size unchanged', a.n(which, l) == b.n(which, l)))
        return out

    def moved_invariants(self, eng, st0, v0, fields):
        """loop invariants: the first elements of these sequences have moved by r along the search direction"""
        this = eng.root_this
        ch = {k[0] for k in eng.cand_cells}
        loc = [(r, x) for r, x in st0.mem.items() if r != 'this' and isinstance(x, Num)]
        cint = [r for r, x in loc if z3.is_int(x.t) and r in ch]
        out = []
        if len(eng.outer) == 1 and any(k[0] == 'this' and k[1][:1] == ('variable_',) for k in eng.cand_cells):
            for l in fields:
                seen = set()
                for r, x in loc:
                    if z3.is_real(x.t) and r not in ch and not z3.is_rational_value(z3.simplify(x.t)) and x.t.get_id() not in seen:
                        seen.add(x.t.get_id())
                        for i in cint:
                            def f(st, l=l, r=r, i=i):
                                j = fresh_int('j')
                                new = View(eng, st, this)
                                return [Forall([j], z3.And(j >= 0, j < st.mem[i].t, *([] if l in ('x_list', 'lambda_list') else [j < Nof(v0)])),
                                               [var(new, l, j) == madd(var(v0, l, j), mscale(st.mem[r].t, v0.el(('delta_variable_', l), j).t)),
                                                new.el(('variable_', l), j).rows == v0.el(('variable_', l), j).rows])]
                            out.append((f'{l} moved by {eng.vname(r)} so far', f))
        return out
