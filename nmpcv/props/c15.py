"""C15: the horizon residual of C/GMRES and the control update built from it."""
from ..spec import *

ODEX = UF('ode.state', 'v', R, R, R, R, R)             # (t, x, u, dt): the integrator applied to the state equation
ODEL = UF('ode.costate', 'v', R, R, R, R, R, R)        # (t, lmd, x, u, dt): the integrator applied to the costate equation
DPHI = UF('p.DphiDx', 'v', R, R, R)
DHDU = UF('p.DhDu', 'v', R, R, R, R, R)
RES = UF('residual', 'm', R, R, R, R)                  # (t, x, u_list): the residual list characterized by the contract of calcDhDuList
NX, NU = z3.Int('p.dim_x_'), z3.Int('p.dim_uc_')


def pure(eng):
    eng.trusted.add('calcDphiDx, calcDhDu, the state and costate equations and the ODE solver are deterministic functions of their arguments that write every element of their output')


SOL = UF('gmres.solution', 'v', R, R, I, R)            # (b, initial guess, iteration limit), for the operator checked at the call


class GmresCall(Contract):
    """a call of Gmres::solve: the operator is applied to an arbitrary vector and must be the one the property names; what its last
    application leaves in the solver is kept, and the unknown is replaced by the solution of the equation"""

    def apply(self, eng, st, f, this_loc, args):
        val = lambda i: eng.spec.argval(eng, st, args[i])
        op, b, x, k = val(0), val(1), val(2), val(3)
        if not isinstance(op, Fn) or op.f is None:
            raise Unsupported('operator of gmres')
        KIND['gmres.v'] = 'v'
        v = Mat(eng.fresh('gmres.v', R, 'v'), x.rows, ONE_I, False, True)
        eng.oblige(st, 'the right-hand side has the size of the unknown', b.rows == x.rows, eng.prop, f.line)
        outs = op.f(eng, st, [(None, v, None)])
        if len(outs) != 1 or outs[0][0] != 'return':
            raise Unsupported('operator with several outcomes')
        s1 = outs[0][1]
        for nm, g in eng.spec.operator(eng, st, s1, v, outs[0][2]):
            eng.oblige(s1, 'operator of the linear equation: ' + nm, g, eng.prop, f.line)
        r = eng.fresh('solution', R, 'v')
        s1 = eng.write(s1, args[2][0], Mat(r, x.rows, ONE_I, False, True)).with_fact(r == SOL(b.t, x.t, k.t))
        return [('return', s1, VOID)]


class C15(Spec):
    unit = 'cgmres'

    def __init__(self):
        super().__init__()
        C = self.contracts
        K = 'CgmresSolver::calcDhDuList'
        C[K] = Contract(K, requires=self.dl_pre, ensures=self.dl_post, mods={('this', ('x_list_',)): True, ('this', ('lmd_list_',)): True, (3, ()): True}, may_throw=False)
        K = 'CgmresSolver::eqAmulFunc'
        C[K] = Contract(K, requires=self.am_pre, ensures=self.am_post)
        K = 'CgmresSolver::calcControlInput'
        C[K] = Contract(K, requires=self.ci_pre, ensures=self.ci_post)
        K = 'CgmresSolver::setup'
        C[K] = Contract(K, requires=self.su_pre, ensures=self.su_post)
        C['Gmres::solve'] = GmresCall('Gmres::solve', 5, verify=False, note='Gmres::solve: the result is a function of the operator, the right-hand side, the initial guess and the limits (C14)')

    # ---- models of the problem and of the integrator
    def ptr_method(self, eng, st, obj, name):
        return Fn(None, name)

    def ptr_call(self, eng, st, obj, name, args, e):
        if name == 'get':
            yield st, (None, obj)
            return
        pure(eng)
        for s1, vs in eng.ev_args_loc(st, args):
            val = lambda i: self.argval(eng, s1, vs[i])
            if obj.d['cls'] == 'ode' and name == 'solve':
                t, x, u, h = self.re(eng, val(1)), val(2), val(3), self.re(eng, val(4))
                which = val(0).name if isinstance(val(0), Fn) else None
                if which == 'stateEquation':
                    r = ODEX(t, x.t, u.t, h)
                elif which == 'costateEquation':
                    g = lambda o, n: eng.mat_view(u, ('seg', o, n)).t
                    r = ODEL(t, x.t, g(z3.IntVal(0), NX), g(NX, NU), h)
                else:
                    raise Unsupported('integration of ' + str(which))
                out = vs[5][0]
            elif name == 'calcDphiDx':
                r, out = DPHI(self.re(eng, val(0)), val(1).t), vs[2][0]
            elif name == 'calcDhDu':
                r, out = DHDU(self.re(eng, val(0)), val(1).t, val(2).t, val(3).t), vs[4][0]
            else:
                raise Unsupported('virtual call ' + name)
            old = eng.read(s1, out)
            yield eng.write(s1, out, Mat(mcanon(r), old.rows, ONE_I, False, True)), (None, VOID)

    # ---- calcDhDuList
    def N(self, v):
        return v.t('horizon_divide_num_')

    def h(self, v, t):
        return v.t('steady_horizon_duration_') * (1 - EXP(-v.t('horizon_increase_ratio_') * t)) / z3.ToReal(self.N(v))

    def dl_pre(self, c):
        if (c.eng.verifying or 'calcDhDuList').endswith('calcDhDuList'):
            self.f = c.f
        return [('at least one interval', self.N(c.o) >= 1), ('dimensions', z3.And(NX >= 1, NU >= 1)),
                ('list sizes', z3.And(c.o.v('x_list_').rows == NX, c.o.v('lmd_list_').rows == NX, c.arg(2).rows == NU))]

    def dl_post(self, c):
        v = c.n
        p = c.f.params
        rd = lambda i: c.eng.read(c.new, (p[i].id, ()))
        t, x, u, D = c.arg(0).t, c.arg(1), c.arg(2), rd(3)
        X, L, N, h = v.v('x_list_').t, v.v('lmd_list_').t, self.N(c.o), self.h(c.o, t)
        j = fresh_int('j')
        tj = t + h * z3.ToReal(j)
        g = z3.And(j >= 0, j < N)
        return [('the first state is the given one', col(X, z3.IntVal(0)) == x.t),
                ('states integrated forward', Forall([j], g, [col(X, icanon(j + 1)) == ODEX(tj, col(X, j), col(u.t, j), h)], 'states')),
                ('terminal costate', col(L, N) == DPHI(t + h * z3.ToReal(N), col(X, N))),
                ('costates integrated backward', Forall([j], g, [col(L, j) == ODEL(tj + h, col(L, icanon(j + 1)), col(X, j), col(u.t, j), -h)], 'costates')),
                ('Hamiltonian gradients', Forall([j], g, [col(D.t, j) == DHDU(tj, col(X, j), col(u.t, j), col(L, icanon(j + 1)))], 'gradients')),
                ('list sizes kept', z3.And(v.v('x_list_').rows == NX, v.v('lmd_list_').rows == NX)), ('inputs kept', rd(2).t == u.t), ('state kept', rd(1).t == x.t)] + self.dl_use(c, t, x, u, D)

    def dl_use(self, c, t, x, u, D):
        """at call sites: the relations above determine the columns of the residual list (by induction over the nodes), which is named RES"""
        if (c.eng.verifying or 'calcDhDuList').endswith('calcDhDuList'):
            return []
        old = c.arg(3)
        return [('residual', z3.And(D.t == RES(t, x.t, u.t), D.rows == old.rows, D.cols == old.cols))]

    def fresh_ptr(self, eng, ty, name):
        r = super().fresh_ptr(eng, ty, name)
        m = {'DhDu_vec_': 'DhDu_list_', 'DhDu_vec_with_delta_': 'DhDu_list_with_delta_', 'DhDu_vec_Amul_func_': 'DhDu_list_Amul_func_'}.get(name.split('.')[-1])
        if r.k == 'map' and m:
            return Obj('map', loc=('this', (('f', m),)), n=r.d['n'], nonnull=r.d['nonnull'])
        return r

    # ---- the operator of the continuation equation
    LISTS = ('u_list_', 'u_list_Amul_func_', 'DhDu_list_', 'DhDu_list_with_delta_', 'DhDu_list_Amul_func_')

    def sized(self, v):
        N = self.N(v)
        return [('at least one interval', N >= 1), ('dimensions', z3.And(NX >= 1, NU >= 1)),
                ('list sizes', z3.And(*[z3.And(v.v(l).rows == NU, v.v(l).cols == N) for l in self.LISTS], v.v('x_list_').rows == NX, v.v('lmd_list_').rows == NX)), ('solution size', v.v('delta_u_vec_').rows == N * NU)]

    def am_pre(self, c):
        m = c.o.v('DhDu_vec_with_delta_')
        ok = m.k == 'map' and m.d['loc'] == ('this', (('f', 'DhDu_list_with_delta_'),))
        sz = c.o.v('DhDu_list_with_delta_')
        return self.sized(c.o) + [('reference residual is the view of DhDu_list_with_delta_', z3.And(z3.BoolVal(ok), m.d['n'] == sz.rows * sz.cols) if ok else FALSE), ('operand size', c.arg(0).rows == self.N(c.o) * NU)]

    def vec(self, v, l):
        m = v.v(l)
        return VECM(m.t, icanon(m.rows * m.cols))

    def am_post(self, c):
        o, n = c.o, c.n
        W = n.v('u_list_Amul_func_')
        d = o.t('finite_diff_delta_')
        j = fresh_int('j')
        seg = SEG(c.arg(0).t, icanon(j * NU), NU)
        r = RES(o.t('t_with_delta_'), o.v('x_with_delta_').t, W.t)
        sz = icanon(W.rows * W.cols)
        return [('perturbed inputs', Forall([j], z3.And(j >= 0, j < self.N(o)), [col(W.t, j) == col(o.v('u_list_').t, j) + d * seg], 'perturbed inputs')),
                ('finite difference at the perturbed time and state', c.ret.t == (VECM(r, sz) - self.vec(o, 'DhDu_list_with_delta_')) / d)] + self.sized(n)

    # ---- the control update
    def ci_pre(self, c):
        self.f = c.f
        return self.sized(c.o)

    def ci_terms(self, eng, o):
        rd = lambda i: eng.read(eng.entry_state, (self.f.params[i].id, ())).t
        t, x, nx = rd(0), rd(1), rd(2)
        d, dt, z = o.t('finite_diff_delta_'), o.t('dt_'), o.t('eq_zeta_')
        td, xd = t + d, (1 - d / dt) * x + (d / dt) * nx
        ul = o.v('u_list_').t
        sz = icanon(NU * self.N(o))
        D0, D1 = VECM(RES(t, x, ul), sz), VECM(RES(td, xd, ul), sz)
        return d, td, xd, ul, sz, D1, ((1 - z * d) * D0 - D1) / d

    def operator(self, eng, st, s1, v, r):
        if eng.verifying.endswith('setup'):
            return self.su_operator(eng, st, s1, v, r)
        this = eng.root_this
        o, n = View(eng, eng.entry_state, this), View(eng, s1, this)
        d, td, xd, ul, sz, D1, b = self.ci_terms(eng, o)
        W = n.v('u_list_Amul_func_').t
        j = fresh_int('j')
        return [('inputs perturbed along the operand', Forall([j], z3.And(j >= 0, j < self.N(o)), [col(W, j) == col(ul, j) + d * SEG(v.t, icanon(j * NU), NU)], 'perturbed')),
                ('finite difference of the residual at the perturbed time and state', r.t == (VECM(RES(td, xd, W), sz) - D1) / d)]

    def ci_post(self, c):
        o, n = c.o, c.n
        d, td, xd, ul, sz, D1, b = self.ci_terms(c.eng, o)
        du = n.v('delta_u_vec_').t
        U = n.v('u_list_').t
        j = fresh_int('j')
        u = c.eng.read(c.new, (c.f.params[3].id, ())).t
        return [('the update solves the continuation equation', du == SOL(b, o.v('delta_u_vec_').t, o.t('k_max_'))),
                ('every input advances by its segment', Forall([j], z3.And(j >= 0, j < self.N(o)), [col(U, j) == col(ul, j) + o.t('dt_') * SEG(du, icanon(j * NU), NU)], 'advance')),
                ('the first input is returned', u == col(U, z3.IntVal(0)))] + self.sized(n)

    # ---- setup
    def su_pre(self, c):
        return [('at least one interval', self.N(c.o) >= 1), ('dimensions', z3.And(NX >= 1, NU >= 1))]

    def su_operator(self, eng, st, s1, v, r):
        o = View(eng, st, eng.root_this)
        d, x, u = o.t('finite_diff_delta_'), o.v('x_').t, o.v('u_').t
        x0 = z3.Const('p.x_initial_', R)
        t0 = z3.RealVal(0)
        g = lambda w: DHDU(t0, x0, w, DPHI(t0, x0))
        return [('finite difference of the Hamiltonian gradient', r.t == (g(u + d * v.t) - g(u)) / d)]

    def su_post(self, c):
        n = c.n
        j = fresh_int('j')
        return [('starts at the initial state', n.v('x_').t == z3.Const('p.x_initial_', R)),
                ('constant input sequence', Forall([j], z3.And(j >= 0, j < self.N(c.o)), [col(n.v('u_list_').t, j) == n.v('u_').t], 'constant')),
                ('zero initial guess of the update', n.v('delta_u_vec_').t == 0)] + self.sized(n)

    def ci_inv(self, eng, st0):
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        o = View(eng, eng.entry_state, this)
        ch = {k[0] for k in eng.cand_cells}
        ul = o.v('u_list_').t
        out = []
        for iv in [r for r, v in st0.mem.items() if r in ch and isinstance(v, Num) and z3.is_int(v.t)]:
            for side in (1, -1):
                def done(st, iv=iv, side=side):
                    j, i = fresh_int('j'), st.mem[iv].t
                    du = V(st).v('delta_u_vec_').t
                    return [Forall([j], z3.And(j >= 0, j < self.N(o), j < i if side > 0 else j > i), [col(V(st).v('u_list_').t, j) == col(ul, j) + o.t('dt_') * SEG(du, icanon(j * NU), NU)], 'advanced')]

                def todo(st, iv=iv, side=side):
                    j, i = fresh_int('j'), st.mem[iv].t
                    return [Forall([j], z3.And(j >= 0, j < self.N(o), j >= i if side > 0 else j <= i), [col(V(st).v('u_list_').t, j) == col(ul, j)], 'not yet advanced')]
                w = 'below' if side > 0 else 'above'
                out += [(f'advanced {w} {eng.vname(iv)}', done), (f'not yet advanced, complement of {w} {eng.vname(iv)}', todo)]
        return out

    def loop_invariants(self, eng, st0):
        if len(eng.outer) > 1:
            return []
        if eng.cur.endswith('calcControlInput'):
            return self.ci_inv(eng, st0)
        if not eng.cur.endswith('calcDhDuList'):
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        f, e = self.f, eng.entry_state
        rd = lambda i, st: eng.read(st, (f.params[i].id, ()))
        o = View(eng, e, this)
        t, x, u = rd(0, e).t, rd(1, e).t, rd(2, e).t
        N, h = self.N(o), self.h(o, t)
        X, L, D = lambda st: V(st).v('x_list_').t, lambda st: V(st).v('lmd_list_').t, lambda st: rd(3, st).t
        ch = {k[0] for k in eng.cand_cells}
        tj = lambda j: t + h * z3.ToReal(j)
        out = [('first state', lambda st: [col(X(st), z3.IntVal(0)) == x]), ('terminal costate', lambda st: [col(L(st), N) == DPHI(tj(N), col(X(st), N))])]
        all_ = {'states': lambda st, j: col(X(st), icanon(j + 1)) == ODEX(tj(j), col(X(st), j), col(u, j), h),
                'costates': lambda st, j: col(L(st), j) == ODEL(tj(j) + h, col(L(st), icanon(j + 1)), col(X(st), j), col(u, j), -h),
                'gradients': lambda st, j: col(D(st), j) == DHDU(tj(j), col(X(st), j), col(u, j), col(L(st), icanon(j + 1)))}
        ivs = [r for r, v in st0.mem.items() if r in ch and isinstance(v, Num) and z3.is_int(v.t)]
        rvs = [r for r, v in st0.mem.items() if r in ch and isinstance(v, Num) and z3.is_real(v.t)]
        for nm, g in all_.items():
            for iv in ivs:
                for side in (1, -1):
                    for d in (0, 1):
                        def inv(st, iv=iv, g=g, side=side, d=d, nm=nm):
                            j = fresh_int('j')
                            i = st.mem[iv].t
                            return [Forall([j], z3.And(j >= 0, j < N, j < i - d if side > 0 else j >= i + d), [g(st, j)], nm)]
                        out.append((f'{nm} {"below" if side > 0 else "from"} {eng.vname(iv)}{" shifted" if d else ""}', inv))
            def whole(st, g=g, nm=nm):
                j = fresh_int('j')
                return [Forall([j], z3.And(j >= 0, j < N), [g(st, j)], nm)]
            out.append((nm, whole))
        for r in rvs:
            for iv in ivs:
                for d in (0, 1):
                    out.append((f'{eng.vname(r)} is the time of node {eng.vname(iv)}{"+1" if d else ""}', lambda st, r=r, iv=iv, d=d: [st.mem[r].t == t + h * (z3.ToReal(st.mem[iv].t) + d)]))
        return out


SPEC = C15
