"""C04: the DDP gains and the propagated value function satisfy the regularized Bellman recursion.

The recursion is stated per iteration of the backward pass (loop_step): for an arbitrary iteration, with the
value function (v, V) held by the loop before it, the gains written at that step's index and the value function
held after it satisfy the Bellman equations.  (v, V) are identified as the state that equals the terminal cost
derivatives when the loop is entered, so the induction over the horizon is the loop rule itself."""
from .ddp import *


def writes_at(a, b):
    """the single index at which array b differs (syntactically) from a"""
    w = store_idx(b, a)
    if w is None or not w:
        return None
    ids = {x.get_id(): x for x, _ in w}
    if len(ids) != 1:
        return None
    return list(ids.values())[0]


class C04(DDPSpec):
    ignore = frozenset(['computation_duration_'])

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'eff', 'frame'] if fn.endswith('procOnce') else ['bound', 'dim'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', requires=self.bw_pre, ensures=self.bw_post, step=True)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.po_pre, step=True)
        self.contracts['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', requires=self.fw_pre, ensures=self.fw_post, step=True)
        self.loops_seen = {}

    def D(self, v, i, n):
        return v.el(('derivative_list_',), i, n)

    def deriv_ok(self, v):
        N = Nof(v)
        j = fresh_int('j')
        D = lambda n: self.D(v, j, n)
        m = D('Fu').cols
        t = tm_at(v.t('current_t_'), j)
        return [('sizes', z3.And(N >= 0, v.n('derivative_list_') == N, v.n('k_list_') == N, v.n('K_list_') == N))]

    def bw_pre(self, c):
        return self.deriv_ok(c.o) + self.at_traj(c.o) + [('no input constraint', z3.Not(c.o.t('config_', 'with_input_constraint')))]

    def fw_pre(self, c):
        self.fwf = c.f
        return [('no input constraint', z3.Not(c.o.t('config_', 'with_input_constraint'))), ('sizes', Nof(c.o) >= 0)]

    def bw_keep(self, c):
        same = lambda *p: c.o.t(*p) == c.n.t(*p)
        return [('horizon, time, configuration kept', z3.And(same('config_', 'horizon_steps'), same('current_t_'), same('config_', 'with_input_constraint'))),
                ('sizes kept', z3.And(*[c.o.n(l) == c.n.n(l) for l in ('k_list_', 'K_list_', 'derivative_list_')]))]

    def bw_post(self, c):
        if c.eng.cur != 'DDPSolver::backwardPass':
            return self.bw_keep(c)
        L = self.loops_seen.get(c.eng.cur)
        if L is None:
            if c.eng.verifying is None and c.eng.cur == 'DDPSolver::backwardPass' and not c.eng.dry:
                raise Unsupported('no backward recursion loop found')
            return []
        return [('a successful backward pass has processed every horizon step', z3.Implies(c.ret.t, L['idx'] < 0))] + self.bw_keep(c)

    def loop_step(self, eng, st0, head, end, line):
        if eng.cur == 'DDPSolver::forwardPass' and len(eng.stack) == 1 and not eng.outer:
            return self.fw_step(eng, st0, head, end)
        if eng.cur != 'DDPSolver::backwardPass' or len(eng.stack) != 1 or eng.outer:
            return []
        this = eng.root_this
        a, b, s = View(eng, head, this), View(eng, end, this), View(eng, st0, this)
        ka, kb = a.v('k_list_'), b.v('k_list_')
        lp = next(iter(ka.leaves))
        idx = writes_at(ka.leaves[lp]['t'], kb.leaves[lp]['t'])
        if idx is None:
            raise Unsupported('gains of one iteration are not written at a single step')
        Ka, Kb = a.v('K_list_'), b.v('K_list_')
        lq = next(iter(Ka.leaves))
        idx2 = writes_at(Ka.leaves[lq]['t'], Kb.leaves[lq]['t'])
        L = eng.curloop
        N = Nof(s)
        i, step = L['i'], L['step']
        first = z3.substitute(idx, (i, L['i0']))
        nxt = z3.substitute(idx, (i, icanon(i + step)))
        self.loops_seen[eng.cur] = dict(idx=idx)
        out = [('the recursion starts at the last step and goes back one step per iteration', z3.And(first == N - 1, nxt == idx - 1)),
               ('feedforward and feedback gains belong to the same step', idx2 == idx if idx2 is not None else FALSE)]
        # value function carried by the loop
        vx0, vxx0 = s.t('last_Vx_'), s.t('last_Vxx_')
        vr = [r for r, x in st0.mem.items() if isinstance(x, Mat) and x.t.eq(vx0) and not same_val(head.mem[r], end.mem[r])]
        Vr = [r for r, x in st0.mem.items() if isinstance(x, Mat) and x.t.eq(vxx0) and not same_val(head.mem[r], end.mem[r])]
        if not vr or not Vr:
            raise Unsupported('value function state of the backward loop not identified')
        if len(vr) > 1 or len(Vr) > 1:
            raise Unsupported('value function state of the backward loop is ambiguous')
        v, V = head.mem[vr[0]].t, head.mem[Vr[0]].t
        vn, Vn = end.mem[vr[0]].t, end.mem[Vr[0]].t
        d = lambda n: self.D(a, idx, n).t
        Fx, Fu, Lx, Lu, Lxx, Luu, Lxu = (d(n) for n in ('Fx', 'Fu', 'Lx', 'Lu', 'Lxx', 'Luu', 'Lxu'))
        m = self.D(a, idx, 'Fu').cols
        lam, rt = a.t('lambda_'), a.t('config_', 'reg_type')
        Qu, Qx = madd(Lu, mul(transpose(Fu), v)), madd(Lx, mul(transpose(Fx), v))
        q = lambda l, A, M, Bm: madd(l, mul(mul(transpose(A), M), Bm))
        Qux, Quu, Qxx = q(transpose(Lxu), Fu, V, Fx), q(Luu, Fu, V, Fu), q(Lxx, Fx, V, Fx)
        k, K = b.el(('k_list_',), idx), b.el(('K_list_',), idx)
        k_, K_ = k.t, K.t
        pos = m > 0
        G, H = {}, {}
        one = ID
        for ty in (0, 1, 2):
            Vr_ = madd(V, mscale(lam, one)) if ty == 2 else V
            g = q(Luu, Fu, Vr_, Fu)
            G[ty] = madd(g, mscale(lam, one)) if ty == 1 else g
            H[ty] = q(transpose(Lxu), Fu, Vr_, Fx)
        for ty in (1, 2):
            nme = {1: 'regularized input Hessian', 2: 'regularized value Hessian'}[ty]
            out += [(f'({nme}) Quu_F k = -Qu', z3.Implies(z3.And(pos, rt == ty), mul(G[ty], k_) == mscale(num(-1), Qu))),
                    (f'({nme}) Quu_F K = -Qux_reg', z3.Implies(z3.And(pos, rt == ty), mul(G[ty], K_) == mscale(num(-1), H[ty])))]
        out += [('inputs of dimension zero get empty gains', z3.Implies(m == 0, z3.And(k.rows == 0, K.rows == 0)))]
        Kt = transpose(K_)
        half = num('1/2')
        vexp = madd(madd(Qx, mul(mul(Kt, Quu), k_)), madd(mul(Kt, Qu), mul(transpose(Qux), k_)))
        Vexp = madd(madd(Qxx, mul(mul(Kt, Quu), K_)), madd(mul(Kt, Qux), mul(transpose(Qux), K_)))
        out += [('value gradient of the step', z3.Implies(pos, vn == vexp)),
                ('value Hessian of the step', z3.Implies(pos, Vn == mscale(half, madd(Vexp, transpose(Vexp))))),
                ('value gradient of a step without inputs', z3.Implies(m == 0, vn == Qx)),
                ('value Hessian of a step without inputs', z3.Implies(m == 0, Vn == mscale(half, madd(Qxx, transpose(Qxx)))))]
        dv = lambda w, n: elem(w.t('dV_'), z3.IntVal(n))
        out += [('expected linear cost change accumulates k . Qu', z3.Implies(pos, dv(b, 0) == scanon(dv(a, 0) + dot(k_, Qu)))),
                ('expected quadratic cost change accumulates k . Quu k / 2', z3.Implies(pos, dv(b, 1) == scanon(dv(a, 1) + half * dot(k_, mul(Quu, k_))))),
                ('a step without inputs changes no expectation', z3.Implies(m == 0, z3.And(dv(b, 0) == dv(a, 0), dv(b, 1) == dv(a, 1)))),
                ('the accumulation starts at zero', z3.And(dv(s, 0) == 0, dv(s, 1) == 0)),
                ('the loop starts from the terminal cost derivatives', z3.And(st0.mem[vr[0]].t == vx0, st0.mem[Vr[0]].t == vxx0))]
        j = fresh_int('j')
        out.append(('gains of the other steps, derivatives and regularization are untouched',
                    Forall([j], j != idx, [a.el(('k_list_',), j).t == b.el(('k_list_',), j).t, a.el(('K_list_',), j).t == b.el(('K_list_',), j).t])))
        out.append(('regularization untouched', z3.And(a.t('lambda_') == b.t('lambda_'), a.t('config_', 'reg_type') == b.t('config_', 'reg_type'))))
        return out

    # ---- the derivatives the recursion uses are those of the problem at the current trajectory
    def at_traj(self, v):
        N, t0 = Nof(v), v.t('current_t_')
        j = fresh_int('j')
        x, u = v.el(('control_data_', 'x_list'), j).t, v.el(('control_data_', 'u_list'), j).t
        eqs = []
        for n, fn, kd in (('Fx', 'p.Fx', 'm'), ('Fu', 'p.Fu', 'm'), ('Lx', 'p.Lx', 'v'), ('Lu', 'p.Lu', 'v'), ('Lxx', 'p.Lxx', 'm'), ('Luu', 'p.Luu', 'm'), ('Lxu', 'p.Lxu', 'm')):
            eqs.append(self.D(v, j, n).t == UF(fn, kd, R, R, R, R)(tm_at(t0, j), x, u))
        xN = v.el(('control_data_', 'x_list'), N).t
        tN = tm_at(t0, N)
        return [('derivatives are those of the problem along the current trajectory', Forall([j], z3.And(j >= 0, j < N), eqs, 'derivatives')),
                ('terminal derivatives', z3.And(v.t('last_Vx_') == UF('p.phix', 'v', R, R, R)(tN, xN), v.t('last_Vxx_') == UF('p.phixx', 'm', R, R, R)(tN, xN)))]

    def po_pre(self, c):
        return self.deriv_ok(c.o) + [('no input constraint', z3.Not(c.o.t('config_', 'with_input_constraint')))]

    def loop_invariants(self, eng, st0):
        this = eng.root_this
        if eng.cur != 'DDPSolver::procOnce':
            return []
        return [(n, (lambda k: lambda st: [(self.deriv_ok(View(eng, st, this)) + self.at_traj(View(eng, st, this)))[k][1]])(k))
                for k, n in enumerate(('sizes', 'derivatives', 'terminal derivatives'))]

    def fw_post(self, c):
        return []

    def fw_step(self, eng, st0, head, end):
        this = eng.root_this
        a, b = View(eng, head, this), View(eng, end, this)
        ua, ub = a.v('candidate_control_data_', 'u_list'), b.v('candidate_control_data_', 'u_list')
        lp = next(iter(ua.leaves))
        i = writes_at(ua.leaves[lp]['t'], ub.leaves[lp]['t'])
        if i is None:
            raise Unsupported('input of one iteration is not written at a single step')
        alpha = eng.read(eng.entry_state, (self.fwf.params[0].id, ())).t
        u = a.el(('control_data_', 'u_list'), i).t
        dx = madd(b.el(('candidate_control_data_', 'x_list'), i).t, a.el(('control_data_', 'x_list'), i).t, -1)
        k, K = a.el(('k_list_',), i).t, a.el(('K_list_',), i).t
        return [('the new input is the old one plus alpha times the feedforward gain plus the feedback gain times the state change',
                 b.el(('candidate_control_data_', 'u_list'), i).t == madd(madd(u, mscale(alpha, k)), mul(K, dx)))]


SPEC = C04
