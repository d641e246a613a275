"""C16: Euler and Runge-Kutta steps compute the textbook update."""
from ..spec import *

FDOT = UF('ode.f', 'v', R, R, R, R)


def state_eq(eng, st, args):
    sp = eng.spec
    t = sp.re(eng, sp.argval(eng, st, args[0]))
    x = sp.argval(eng, st, args[1])
    u = sp.argval(eng, st, args[2])
    old = eng.read(st, args[3][0])
    eng.trusted.add('state_eq callback is a deterministic function of (t,x,u) that writes every element of its output')
    return [('return', eng.write(st, args[3][0], Mat(mcanon(FDOT(t, x.t, u.t)), old.rows, ONE_I, False, True)), VOID)]


class C16(Spec):
    unit = 'cgmres'

    def __init__(self):
        super().__init__()
        for k, e in (('EulerOdeSolver::solve', self.euler), ('RungeKuttaOdeSolver::solve', self.rk)):
            self.contracts[k] = Contract(k, None, self.pre, e)

    def fresh_fn(self, eng, ty, name):
        return Fn(state_eq, 'state_eq')

    def vals(self, c):
        t, x, u, dt = c.arg(1).t, c.arg(2), c.arg(3), c.arg(4).t
        return t, x.t, u.t, dt, c.eng.read(c.new, (c.f.params[5].id, ())).t

    def pre(self, c):
        x, ret = c.arg(2), c.arg(5)
        return [('ret has the size of x', ret.rows == x.rows)]

    def euler(self, c):
        t, x, u, dt, r = self.vals(c)
        return [('ret == x + dt f(t,x,u)', r == x + dt * FDOT(t, x, u))] + self.frame(c)

    def rk(self, c):
        t, x, u, dt, r = self.vals(c)
        h = dt / 2
        k1 = FDOT(t, x, u)
        k2 = FDOT(t + h, x + h * k1, u)
        k3 = FDOT(t + h, x + h * k2, u)
        k4 = FDOT(t + dt, x + dt * k3, u)
        return [('ret == x + dt/6 (k1 + 2 k2 + 2 k3 + k4)', r == x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))] + self.frame(c)

    def frame(self, c):
        rd = lambda st, i: c.eng.read(st, (c.f.params[i].id, ())).t
        return [('x and u unchanged', z3.And(rd(c.old, 2) == rd(c.new, 2), rd(c.old, 3) == rd(c.new, 3)))]


SPEC = C16
