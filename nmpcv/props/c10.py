"""C10: 'Succeeded' means that the KKT conditions hold to tolerance."""
from .fmpc import *

GB, GF, GU = '$result of the last backward pass', '$result of the last forward pass', '$result of the last update'
SUCC, EFWD, EBWD, EUPD, MAXIT, CONT = 1, 2, 3, 4, 5, 6


class C10(FMPCSpec):
    ignore = frozenset(['computation_duration_', 'delta_variable_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['FmpcSolver::calcKktError'] = Contract('FmpcSolver::calcKktError', requires=self.ke_pre, ensures=self.ke_post)
        C['FmpcSolver::backwardPass'] = Contract('FmpcSolver::backwardPass', ensures=self.keep, light=True, ghost=lambda c, st: st.set(GB, Num(c.ret.t)))
        C['FmpcSolver::forwardPass'] = Contract('FmpcSolver::forwardPass', ensures=self.keep, light=True, ghost=lambda c, st: st.set(GF, Num(c.ret.t)))
        C['FmpcSolver::updateVariables'] = Contract('FmpcSolver::updateVariables', ensures=self.keep, light=True, ghost=lambda c, st: st.set(GU, Num(c.ret.t)))
        C['FmpcSolver::procOnce'] = Contract('FmpcSolver::procOnce', requires=self.po_pre, ensures=self.po_post, step=True)
        C['FmpcSolver::solve'] = Contract('FmpcSolver::solve', requires=self.so_pre, ensures=self.so_post, step=True)

    def ghosts(self):
        return {g: Num(z3.Bool('ghost.' + g)) for g in (GB, GF, GU)}

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'eff', 'frame', 'push'])

    def keep(self, c):
        tr = lambda v: v.v('trace_data_list_')
        out = [('configuration, time and state kept', z3.And(Nof(c.o) == Nof(c.n), c.o.t('current_t_') == c.n.t('current_t_'), c.o.t('current_x_') == c.n.t('current_x_'),
                c.o.t('config_', 'max_iter') == c.n.t('config_', 'max_iter'), c.o.t('config_', 'kkt_error_thre') == c.n.t('config_', 'kkt_error_thre'), tr(c.o).n == tr(c.n).n,
                c.o.n('coeff_list_') == c.n.n('coeff_list_'), *[c.o.n('variable_', l) == c.n.n('variable_', l) for l in FIELDS]))]
        for f in ('iter', 'kkt_error'):
            j = fresh_int('j')
            out.append((f'trace {f} kept', Forall([j], TRUE, [c.o.el(('trace_data_list_',), j, f).t == c.n.el(('trace_data_list_',), j, f).t])))
        return out

    def ke_pre(self, c):
        return [('sizes', z3.And(sizes(c.o), c.o.n('coeff_list_') == Nof(c.o) + 1))]

    def err(self, v, mu):
        """Euclidean norm of the KKT residual, in terms of the stored residual blocks"""
        N = Nof(v)
        j = fresh_int('q')
        sq = lambda t: dot(t, t)
        comp = CMAX(madd(hadamard(var(v, 's_list', j), var(v, 'nu_list', j)), mscale(mu, ONES), -1), mcanon(mscale(num(0), ONES)))
        e = scanon(sq(co(v, j, 'x_bar')) + sq(co(v, j, 'g_bar')) + sq(co(v, j, 'Lx_bar')) + sq(co(v, j, 'Lu_bar')) + sq(comp))
        e0 = madd(v.t('current_x_'), var(v, 'x_list', ZERO_I), -1)
        return SQRT(scanon(sq(e0) + bigsum(e, j, ZERO_I, N) + sq(co(v, N, 'Lx_bar'))))

    def ke_post(self, c):
        return [('the Euclidean norm of all residual blocks', c.ret.t == self.err(c.n, c.arg(0).t))] + self.keep(c)

    def blocks(self, v):
        """the stored residual blocks are those of the problem at the current variables"""
        N, t0 = Nof(v), v.t('current_t_')
        j = fresh_int('j')
        j1 = icanon(j + 1)
        t = tm_at(t0, j)
        x, u, l, x1, l1, s, nu = var(v, 'x_list', j), var(v, 'u_list', j), var(v, 'lambda_list', j), var(v, 'x_list', j1), var(v, 'lambda_list', j1), var(v, 's_list', j), var(v, 'nu_list', j)
        d = lambda n, k: UF(n, k, R, R, R, R)(t, x, u)
        T_ = transpose
        eq = [('dynamics defect', co(v, j, 'x_bar') == madd(STATEEQ(t, x, u), x1, -1)),
              ('constraint residual', co(v, j, 'g_bar') == madd(INEQ(t, x, u), s)),
              ('stationarity in the state', co(v, j, 'Lx_bar') == madd(madd(mscale(DT, d('p.Lx', 'v')), l, -1), madd(mul(T_(d('p.Fx', 'm')), l1), mul(T_(d('p.gx', 'm')), nu)))),
              ('stationarity in the input', co(v, j, 'Lu_bar') == madd(mscale(DT, d('p.Lu', 'v')), madd(mul(T_(d('p.Fu', 'm')), l1), mul(T_(d('p.gu', 'm')), nu))))]
        xN = var(v, 'x_list', N)
        return [(n, Forall([j], z3.And(j >= 0, j < N), [f], n)) for n, f in eq] + \
            [('stationarity in the terminal state', co(v, N, 'Lx_bar') == madd(UF('p.phix', 'v', R, R, R)(tm_at(t0, N), xN), var(v, 'lambda_list', N), -1))]

    def po_pre(self, c):
        return self.ke_pre(c)

    def succ(self, c, ok):
        v = c.n
        out = []
        for n, f in self.blocks(v):
            out.append(('success: ' + n + ' evaluated from the problem at the returned variables', Forall(f.vs, z3.And(ok, f.guard), f.body) if isinstance(f, Forall) else z3.Implies(ok, f)))
        out.append(('success: KKT error within tolerance', z3.Implies(ok, self.err(v, num(0)) <= v.t('config_', 'kkt_error_thre'))))
        return out

    def po_post(self, c):
        r = c.ret.t
        k = c.o.v('trace_data_list_').n
        last = lambda f: c.n.el(('trace_data_list_',), k, f).t
        g = lambda n: c.new.mem[n].t
        out = self.succ(c, r == SUCC)
        out += [('one trace record per iteration', c.n.v('trace_data_list_').n == k + 1), ('the record carries the iteration number', last('iter') == c.arg(0).t),
                ('the recorded error decides success', (r == SUCC) == (last('kkt_error') <= c.n.t('config_', 'kkt_error_thre'))),
                ('success leaves the variables of the iteration start', z3.Implies(r == SUCC, last('kkt_error') == self.err(c.n, num(0)))),
                ('the status names the failed phase', z3.And(z3.Implies(r == EBWD, z3.Not(g(GB))), z3.Implies(r == EFWD, z3.And(g(GB), z3.Not(g(GF)))), z3.Implies(r == EUPD, z3.And(g(GB), g(GF), z3.Not(g(GU)))),
                                                             z3.Implies(r == CONT, z3.And(g(GB), g(GF), g(GU))))),
                ('a status of an iteration', z3.Or(*[r == q for q in (SUCC, EFWD, EBWD, EUPD, CONT)]))]
        same = [n for n in self.keep(c)[:1]]
        return out + [('configuration kept', z3.And(Nof(c.o) == Nof(c.n), c.o.t('current_t_') == c.n.t('current_t_'), c.o.t('current_x_') == c.n.t('current_x_'), c.o.t('config_', 'max_iter') == c.n.t('config_', 'max_iter'),
                       c.o.t('config_', 'kkt_error_thre') == c.n.t('config_', 'kkt_error_thre'), c.o.n('coeff_list_') == c.n.n('coeff_list_'), *[c.o.n('variable_', l) == c.n.n('variable_', l) for l in FIELDS]))]

    def so_pre(self, c):
        return [('max_iter >= 0', z3.And(c.o.t('config_', 'max_iter') >= 0, Nof(c.o) >= 0))]

    def so_post(self, c):
        r = c.ret.t
        m, mx = c.n.v('trace_data_list_').n, c.n.t('config_', 'max_iter')
        return self.succ(c, r == SUCC) + [
            ('problem data of this call', z3.And(c.n.t('current_t_') == c.arg(0).t, c.n.t('current_x_') == c.arg(1).t)),
            ('at most the configured number of iterations', m <= mx),
            ('a final status', z3.Or(*[r == q for q in (SUCC, EFWD, EBWD, EUPD, MAXIT)], z3.And(r == 0, mx == 0))),
            ('the iteration limit is reported only when it was reached', z3.Implies(r == MAXIT, m == mx))]

    def loop_invariants(self, eng, st0):
        if eng.cur != 'FmpcSolver::solve' or len(eng.outer) != 1:
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        ch = {k[0] for k in eng.cand_cells}
        out = [('sizes', lambda st: [z3.And(sizes(V(st)), V(st).n('coeff_list_') == Nof(V(st)) + 1)]),
               ('call data', lambda st: [z3.And(V(st).t('current_t_') == V(st0).t('current_t_'), V(st).t('current_x_') == V(st0).t('current_x_'), Nof(V(st)) == Nof(V(st0)), V(st).t('config_', 'max_iter') == V(st0).t('config_', 'max_iter'))])]
        for r, x in st0.mem.items():
            if r != 'this' and r in ch and isinstance(x, Num) and z3.is_int(x.t):
                n = lambda st: V(st).v('trace_data_list_').n
                for d in (0, 1):
                    out.append((f'{eng.vname(r)} counts the records', lambda st, r=r, d=d: [n(st) == st.mem[r].t - d]))
                out.append((f'{eng.vname(r)} is the status', lambda st, r=r: [z3.Or(z3.And(st.mem[r].t == 0, n(st) == 0), z3.And(st.mem[r].t == CONT, n(st) > 0))]))
        return out


SPEC = C10
