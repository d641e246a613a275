"""shared vocabulary for the DDP solver"""
from ..spec import *


def tm_at(t0, j):
    return scanon(t0 + z3.ToReal(j) * DT)


def Nof(c):
    return c.t('config_', 'horizon_steps')


def rollout(v, which='control_data_', x0=None, nomsg=False):
    """v: View. The trajectory stored in `which` is a rollout of the problem from its own x[0]."""
    N = Nof(v)
    t0 = v.t('current_t_')
    j = fresh_int('j')
    X = lambda i: v.el((which, 'x_list'), i).t
    U = lambda i: v.el((which, 'u_list'), i).t
    cl = v.v(which, 'cost_list')
    C = lambda i: elem(cl.t, i)
    rng = z3.And(j >= 0, j < N)
    t = tm_at(t0, j)
    out = [
        ('sizes', z3.And(v.n(which, 'x_list') == N + 1, v.n(which, 'u_list') == N, cl.rows == N + 1)),
        ('dynamics', Forall([j], rng, [X(icanon(j + 1)) == STATEEQ(t, X(j), U(j))], which + ' dynamics')),
        ('running costs', Forall([j], rng, [C(j) == RUNCOST(t, X(j), U(j))], which + ' running costs')),
        ('terminal cost', C(N) == TERMCOST(tm_at(t0, N), X(N))),
    ]
    if x0 is not None:
        out.append(('initial state', X(ZERO_I) == x0))
    return out


class DDPSpec(Spec):
    unit = 'ddp'

    def __init__(self):
        super().__init__()
        # the box QP is a separate object: here only its frame matters (it may change nothing but itself)
        self.contracts['BoxQP::solve'] = Contract('BoxQP::solve', 5, mods={('this', ()): True}, verify=False, note='frame only: BoxQP::solve changes only its own object')
