"""shared vocabulary for the box QP solver"""
from ..spec import *

P_H, P_G, P_LO, P_HI, P_X0 = range(5)


def box_roots(eng, st0, n):
    """local vectors of the verified function (candidates for the current point)"""
    return [r for r, x in st0.mem.items() if isinstance(x, Mat) and x.vec and r != 'this']


def inbox(eng, x, lo, hi, n, nm=''):
    j = fresh_int('j')
    e = elem(x, j)
    return Forall([j], z3.And(j >= 0, j < n), [elem(lo, j) <= e, e <= elem(hi, j)], nm or 'in box')


class BoxSpec(Spec):
    unit = 'ddp'

    def solve_pre(self, c, n=5):
        ks = [k for k in (P_G, P_LO, P_HI, P_X0) if k < n]
        n = c.o.t('var_dim_')
        lo, hi = c.arg(P_LO), c.arg(P_HI)
        j = fresh_int('j')
        return [('dimension positive', n > 0),
                ('arguments have the dimension', z3.And(*[c.arg(k).rows == n for k in ks], c.arg(P_H).rows == n, c.arg(P_H).cols == n)),
                ('consistent bounds', Forall([j], z3.And(j >= 0, j < n), [elem(lo.t, j) <= elem(hi.t, j)], 'bounds'))]

    def param(self, eng, k):
        return eng.read(eng.entry_state, (self.f.params[k].id, ()))
