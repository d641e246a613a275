"""C13: one merit function for the stored value and the trial points, and its true slope."""
from .fmpc import *

HELP = 'l1NormDirectionalDeriv'
L1D = UF('p.l1deriv', 's', R, R, R, R)
RUN, TERM = UF('p.runningCost', 's', R, R, R, R), UF('p.terminalCost', 's', R, R, R)
GP, GM = '$trial point of the last merit evaluation', '$last merit evaluation'
KEY = 'FmpcSolver::updateVariables'


class C13(FMPCSpec):
    nest_rounds = True
    free_functions = True
    ignore = frozenset(['computation_duration_', 'trace_data_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C[HELP] = Contract(HELP, requires=self.l1_pre, ensures=self.l1_post, value=lambda c: Num(L1D(*[canon(c.arg(i).t) for i in range(3)])))
        C['FmpcSolver::setupMeritFunc'] = Contract('FmpcSolver::setupMeritFunc', requires=self.pre, ensures=self.setup_post, step=True)
        C['FmpcSolver::calcMeritFunc'] = Contract('FmpcSolver::calcMeritFunc', requires=self.cpre, ensures=self.calc_post, step=True,
                                                  ghost=lambda c, st: st.set(GP, c.arg(0)).set(GM, c.ret))
        C[KEY] = Contract(KEY, requires=self.pre, ensures=self.up_post, step=True)

    def ghosts_for(self, eng, mem):
        return {GP: mem['this'].f['variable_'], GM: Num(z3.Real('ghost.merit'))} if 'this' in mem and 'variable_' in mem['this'].f else {}

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'eff', 'frame', 'sum'])

    # ---- directional derivative of the L1 norm
    def argel(self, c, i, l, j):
        return c.eng.read(c.old, (c.f.params[i].id, (('f', l), ('i', j))))

    def l1_pre(self, c):
        self.l1f = c.f
        return []

    def l1_post(self, c):
        f, J, d = c.arg(0), c.arg(1), c.arg(2)
        eng = c.eng
        if eng.cur != HELP:
            return []      # the opaque symbol L1D names this sum
        return [('sum of the directional derivatives of the absolute values', c.ret.t == self.l1_sum(f, J, d, f.rows))]

    def l1_sum(self, f, J, d, n):
        j = fresh_int('q')
        fj, p = elem(f.t, j), dot(ROW(canon(J.t), j), d.t)
        return bigsum(z3.If(fj > 0, p, z3.If(fj < 0, -p, z3.If(p >= 0, p, -p))), j, ZERO_I, n)

    def loop_invariants(self, eng, st0):
        ch = {k[0] for k in eng.cand_cells}
        loc = [(r, x) for r, x in st0.mem.items() if r != 'this' and isinstance(x, Num) and r in ch]
        reals, ints = [r for r, x in loc if z3.is_real(x.t)], [r for r, x in loc if z3.is_int(x.t)]
        out = []
        if eng.cur == HELP and len(eng.outer) == 1:
            f, J, d = [eng.read(eng.entry_state, (p.id, ())) for p in self.l1f.params]
            for r in reals:
                for i in ints:
                    out.append((f'{eng.vname(r)} is the partial sum', lambda st, r=r, i=i: [st.mem[r].t == self.l1_sum(f, J, d, st.mem[i].t)]))
        if eng.cur == 'FmpcSolver::setupMeritFunc' and len(eng.outer) == 1:
            V = lambda st: View(eng, st, eng.root_this)
            W_ = [('merit_const_scale_', lambda st: V(st).t('merit_const_scale_'))] + [(eng.vname(r), lambda st, r=r: st.mem[r].t) for r in reals]
            for n, w in W_:
                out.append((f'{n} at least the minimum', lambda st, w=w: [w(st) >= num('1/1000')]))
                for i in ints:
                    for l in ('lambda_list', 'nu_list'):
                        out.append((f'{n} bounds {l} so far', lambda st, w=w, i=i, l=l: [self.bounds(V(st), l, w(st), st.mem[i].t)]))
        if eng.cur == KEY and len(eng.stack) == 1:
            out += self.moved_invariants(eng, st0, View(eng, eng.entry_state, eng.root_this), ('x_list',))
        return out

    def flag_invariants(self, eng, st0):
        """an 'accepted' flag implies the acceptance condition at the current step length and trial point"""
        if eng.cur != KEY or len(eng.outer) != 1 or GM not in st0.mem:
            return []
        out = []
        v0 = View(eng, eng.entry_state, eng.root_this)
        for r in [r for r, x in st0.mem.items() if r not in ('this', GM) and isinstance(x, Num) and z3.is_real(x.t) and not z3.is_rational_value(z3.simplify(x.t))]:
            def suff(st, r=r):
                v = View(eng, st, eng.root_this)
                return [st.mem[GM].t < v.t('merit_func_') + num('1/1000') * st.mem[r].t * v.t('merit_deriv_')]
            out.append((f'sufficient decrease at step {eng.vname(r)}', suff))
            for l in ('x_list', 'u_list', 's_list'):
                def at(st, r=r, l=l):
                    j = fresh_int('j')
                    return [Forall([j], z3.And(j >= 0, j <= Nof(v0) if l == 'x_list' else j < Nof(v0)),
                                   [eng.read(st, (GP, (('f', l), ('i', j)))).t == madd(var(v0, l, j), mscale(st.mem[r].t, var(v0, l, j, 'delta_variable_')))])]
                out.append((f'trial {l} at step {eng.vname(r)}', at))
        return out

    def bounds(self, v, l, w, n=None):
        j, k = fresh_int('j'), fresh_int('k')
        N = Nof(v)
        m = v.el(('variable_', l), j)
        e = elem(m.t, k)
        return Forall([j, k], z3.And(j >= 0, j <= N if l == 'lambda_list' else j < N, k >= 0, k < m.rows, *([j < n] if n is not None else [])), [e <= w, -e <= w], f'penalty scale bounds {l}')

    def pre(self, c):
        return [('sizes', z3.And(sizes(c.o), sizes(c.o, 'delta_variable_'), c.o.n('coeff_list_') == Nof(c.o) + 1))]

    def cpre(self, c):
        return [('sizes', z3.And(Nof(c.o) >= 0))]

    def merit(self, v, el):
        """objective and constraint parts of the merit function of the point el(l, j)"""
        N, t0 = Nof(v), v.t('current_t_')
        j = fresh_int('q')
        j1 = icanon(j + 1)
        t = tm_at(t0, j)
        x, u, s, x1 = el('x_list', j), el('u_list', j), el('s_list', j), el('x_list', j1)
        mu = v.t('barrier_eps_')
        obj = scanon(RUN(t, x.t, u.t) * DT - mu * VSUM(canon(VLOG(canon(s.t))), s.rows))
        con = scanon(L1(canon(madd(STATEEQ(t, x.t, u.t), x1.t, -1)), ZERO_I) + L1(canon(madd(INEQ(t, x.t, u.t), s.t)), ZERO_I))
        x0 = el('x_list', ZERO_I)
        xN = el('x_list', N)
        o = scanon(bigsum(obj, j, ZERO_I, N) + TERM(tm_at(t0, N), xN.t))
        k = scanon(bigsum(con, j, ZERO_I, N) + L1(canon(madd(v.t('current_x_'), x0.t, -1)), ZERO_I))
        return o, k

    def slope(self, v):
        N = Nof(v)
        j = fresh_int('q')
        j1 = icanon(j + 1)
        t = tm_at(v.t('current_t_'), j)
        X = lambda l, k: var(v, l, k)
        D = lambda l, k: var(v, l, k, 'delta_variable_')
        mu = v.t('barrier_eps_')
        x, u, s = X('x_list', j), X('u_list', j), X('s_list', j)
        obj = scanon(dot(co(v, j, 'Lx'), D('x_list', j)) * DT + dot(co(v, j, 'Lu'), D('u_list', j)) * DT - mu * dot(vinv(s), D('s_list', j)))
        f, g = canon(madd(STATEEQ(t, x, u), X('x_list', j1), -1)), canon(madd(INEQ(t, x, u), s))
        l = lambda f, J, d: L1D(canon(f), canon(J), canon(d))
        mI, I_ = mscale(num(-1), ID), ID
        con = scanon(l(f, co(v, j, 'A'), D('x_list', j)) + l(f, co(v, j, 'B'), D('u_list', j)) + l(f, mI, D('x_list', j1)) +
                     l(g, co(v, j, 'C'), D('x_list', j)) + l(g, co(v, j, 'D'), D('u_list', j)) + l(g, I_, D('s_list', j)))
        o = scanon(bigsum(obj, j, ZERO_I, N) + dot(co(v, N, 'Lx'), D('x_list', N)))
        k = scanon(bigsum(con, j, ZERO_I, N) + l(madd(v.t('current_x_'), X('x_list', ZERO_I), -1), mI, D('x_list', ZERO_I)))
        return o, k

    def up_post(self, c):
        eng, o, n = c.eng, c.o, c.n
        ok = c.ret.t
        if z3.is_false(z3.simplify(ok)):
            return []
        ls = z3.And(ok, o.t('config_', 'enable_line_search'))
        reals = [x.t for r, x in c.new.mem.items() if r != 'this' and isinstance(x, Num) and z3.is_real(x.t)]
        trial = lambda l, j: eng.read(c.new, (GP, (('f', l), ('i', j)))).t
        GMv = c.new.mem[GM].t
        small = lambda r: r < num('1/10000000000')
        suff = lambda r: GMv < n.t('merit_func_') + num('1/1000') * r * n.t('merit_deriv_')
        best = None
        for r in reals:
            def at(l, r=r):
                j = fresh_int('j')
                return Forall([j], z3.And(ls, j >= 0, j <= Nof(o) if l == 'x_list' else j < Nof(o), z3.Not(small(r))), [trial(l, j) == madd(var(o, l, j), mscale(r, var(o, l, j, 'delta_variable_')))])

            def moved(l, r=r):
                j = fresh_int('j')
                return Forall([j], z3.And(ok, j >= 0, j <= Nof(o)), [var(n, l, j) == madd(var(o, l, j), mscale(r, var(o, l, j, 'delta_variable_')))])
            out = [('the states move by the accepted step', moved('x_list'))]
            out += [('accepted only with sufficient decrease, or negligible', z3.Implies(ls, z3.Or(small(r), suff(r))))]
            out += [(f'the merit was evaluated at the accepted {l}', at(l)) for l in ('x_list', 'u_list', 's_list')]
            k = 0
            for _, g in out:
                if not prove(c.new.facts, g, timeout=3000):
                    break
                k += 1
            if best is None or k > best[0]:
                best = (k, out)
        if best is None:
            raise Unsupported('no step length found in the update')
        return best[1]

    def setup_post(self, c):
        n = c.n
        o, k = self.merit(n, lambda l, j: n.el(('variable_', l), j))
        do, dk = self.slope(n)
        w = n.t('merit_const_scale_')
        ex = []
        for l in ('lambda_list', 'nu_list'):
            b = self.bounds(n, l, w)
            ex.append((f'penalty scale taken from the multipliers bounds {l}', Forall(b.vs, z3.And(n.t('config_', 'merit_const_scale_from_lagrange_multipliers'), b.guard), b.body)))
        return ex + self.same_lists(c.o, c.n, 'variable_') + self.same_lists(c.o, c.n, 'delta_variable_') + [('horizon kept', Nof(c.o) == Nof(n)), ('stored merit value', n.t('merit_func_') == scanon(o + w * k)), ('stored slope', n.t('merit_deriv_') == scanon(do + w * dk)), ('penalty scale at least its minimum', w >= num('1/1000'))]

    def calc_post(self, c):
        n = c.n
        if c.eng.cur not in ('FmpcSolver::calcMeritFunc', 'FmpcSolver::setupMeritFunc'):
            return []      # callers only need to know at which point it was evaluated (ghost state)
        o, k = self.merit(n, lambda l, j: self.argel(c, 0, l, j))
        return [('merit value of the trial point', c.ret.t == scanon(o + n.t('merit_const_scale_') * k))]


SPEC = C13
