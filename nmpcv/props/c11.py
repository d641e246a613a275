"""C11: the FMPC search direction solves the linearized (perturbed) KKT system.

backwardPass is proved to establish, for every horizon step, the Riccati relations BW(j) between the stored
gains (k, K, s, P) and the coefficients; forwardPass, called with them, is proved to establish every block of
the linearized KKT system for the direction it stores."""
from .fmpc import *


class C11(FMPCSpec):
    ignore = frozenset(['computation_duration_', 'trace_data_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['FmpcSolver::backwardPass'] = Contract('FmpcSolver::backwardPass', requires=self.bw_pre, ensures=self.bw_post, step=True)
        C['FmpcSolver::forwardPass'] = Contract('FmpcSolver::forwardPass', requires=self.fw_pre, ensures=self.fw_post)

        C['FmpcSolver::procOnce'] = Contract('FmpcSolver::procOnce', requires=self.po_pre, step=True)
        C['FmpcSolver::updateVariables'] = Contract('FmpcSolver::updateVariables', verify=False, mods={('this', ()): True}, note='not used by this property (runs after the direction is complete)')
        C['FmpcSolver::calcKktError'] = Contract('FmpcSolver::calcKktError', light=True)

    def po_pre(self, c):
        v = c.o
        return [('sizes', z3.And(sizes(v), sizes(v, 'delta_variable_'), v.n('coeff_list_') == Nof(v) + 1))] + positive(v)

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim']) if fn.endswith('backwardPass') else frozenset(['bound', 'dim', 'eff', 'frame']) if fn.endswith('procOnce') else None

    def base(self, v):
        N = Nof(v)
        j = fresh_int('j')
        sym = lambda n: transpose(co(v, j, n)) == co(v, j, n)
        return [('sizes', z3.And(sizes(v), sizes(v, 'delta_variable_'), v.n('coeff_list_') == N + 1)),
                ('symmetric Hessians', Forall([j], z3.And(j >= 0, j <= N), [sym('Lxx'), z3.Implies(j < N, sym('Luu'))], 'symmetric Hessians'))] + positive(v)

    def bw_pre(self, c):
        return self.base(c.o)

    def model(self, v, j):
        """Q-function blocks of step j with the barrier terms eliminated"""
        A, Bm, C, D, Lxx, Luu, Lxu, xb, gb, Lxb, Lub = (co(v, j, n) for n in ('A', 'B', 'C', 'D', 'Lxx', 'Luu', 'Lxu', 'x_bar', 'g_bar', 'Lx_bar', 'Lu_bar'))
        s, nu, mu = var(v, 's_list', j), var(v, 'nu_list', j), v.t('barrier_eps_')
        si = vinv(s)
        ns = hadamard(nu, si)
        sub = madd(madd(hadamard(ns, gb), nu, -1), mscale(mu, si))
        E_ = diag(ns)
        P1, s1 = co(v, icanon(j + 1), 'P'), co(v, icanon(j + 1), 's')
        q = lambda L, X, Y, M, U, V: madd(madd(mscale(DT, L), mul(mul(transpose(X), E_), Y)), mul(mul(transpose(U), M), V))
        F = q(Lxx, C, C, P1, A, A)
        H = q(Lxu, C, D, P1, A, Bm)
        G = q(Luu, D, D, P1, Bm, Bm)
        lx, lu = madd(Lxb, mul(transpose(C), sub)), madd(Lub, mul(transpose(D), sub))
        r = madd(mul(P1, xb), s1, -1)
        Ht = q(transpose(Lxu), D, C, P1, Bm, A)
        return dict(F=F, H=H, Ht=Ht, G=G, lx=lx, lu=lu, r=r, A=A, B=Bm)

    def riccati(self, v, j):
        m = self.model(v, j)
        k, K, s, P = (co(v, j, n) for n in ('k', 'K', 's', 'P'))
        pos = com(v, j, 'B').cols > 0
        return [('feedforward gain', z3.Implies(pos, mul(m['G'], k) == mscale(num(-1), madd(mul(transpose(m['B']), m['r']), m['lu'])))),
                ('feedback gain', z3.Implies(pos, mul(m['G'], K) == mscale(num(-1), transpose(m['H'])))),
                ('value gradient', s == mscale(num(-1), madd(madd(mul(transpose(m['A']), m['r']), m['lx']), mul(m['H'], k)))),
                ('value Hessian', P == madd(m['F'], mul(m['H'], K))),
                ('value Hessian symmetric', transpose(P) == P),
                ('feedback gain, with the transposed cross term', z3.Implies(pos, mul(m['G'], K) == mscale(num(-1), m['Ht'])))]

    def ric_all(self, v, lo=None):
        N = Nof(v)
        out = []
        for n in range(6):
            j = fresh_int('j')
            nm_, f = self.riccati(v, j)[n]
            out.append((nm_ + ' of every step', Forall([j], z3.And(j >= (ZERO_I if lo is None else lo), j < N), [f], nm_)))
        return out + [('terminal value function', z3.And(co(v, N, 's') == mscale(num(-1), co(v, N, 'Lx_bar')), co(v, N, 'P') == co(v, N, 'Lxx')))]

    def bw_post(self, c):
        out = [(n, self.guard(c.ret.t, f)) for n, f in self.ric_all(c.n)]
        return out + self.kept(c)

    def guard(self, g, f):
        if isinstance(f, Forall):
            return Forall(f.vs, z3.And(g, f.guard), f.body, f.name)
        return z3.Implies(g, f)

    def kept(self, c):
        out = self.same_lists(c.o, c.n, 'variable_') + [('parameters unchanged', z3.And(c.o.t('barrier_eps_') == c.n.t('barrier_eps_'), Nof(c.o) == Nof(c.n), c.o.n('coeff_list_') == c.n.n('coeff_list_')))]
        for n in ('A', 'B', 'C', 'D', 'Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'x_bar', 'g_bar', 'Lx_bar', 'Lu_bar'):
            j = fresh_int('j')
            out.append((f'coefficient {n} unchanged', Forall([j], TRUE, [co(c.o, j, n) == co(c.n, j, n)])))
        return out

    def loop_invariants(self, eng, st0):
        if eng.cur != 'FmpcSolver::backwardPass' or len(eng.outer) != 1:
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        ch = {k[0] for k in eng.cand_cells}
        out = []
        ints = [r for r, x in st0.mem.items() if r != 'this' and r in ch and isinstance(x, Num) and z3.is_int(x.t)]
        mats = [r for r, x in st0.mem.items() if r != 'this' and r in ch and isinstance(x, Mat)]
        if 'this' not in ch:
            return []
        for r in ints:
            for form in (lambda st, r=r: icanon(st.mem[r].t + 1), lambda st, r=r: icanon(Nof(V(st)) - st.mem[r].t), lambda st, r=r: st.mem[r].t):
                for n in range(6):
                    out.append((f'step relation {n} for the processed steps', lambda st, n=n, form=form: [self.ric_all(V(st), form(st))[n][1]]))
                for m in mats:
                    for fld in (('s',) if st0.mem[m].vec else ('P',)):
                        out.append((f'{eng.vname(m)} is the stored {fld}', lambda st, m=m, fld=fld, form=form: [st.mem[m].t == co(V(st), form(st), fld)]))
                for fld in ('P',):
                    out.append((f'symmetric {fld}', lambda st, fld=fld, form=form: [transpose(co(V(st), form(st), fld)) == co(V(st), form(st), fld)]))
        for m in mats:
            if not st0.mem[m].vec:
                out.append((f'{eng.vname(m)} symmetric', lambda st, m=m: [transpose(st.mem[m].t) == st.mem[m].t]))
        out.append(('terminal', lambda st: [self.ric_all(V(st))[6][1]]))
        return out + self.frames(eng, st0, V)

    def frames(self, eng, st0, V):
        out = []
        for n in ('A', 'B', 'C', 'D', 'Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'x_bar', 'g_bar', 'Lx_bar', 'Lu_bar'):
            if ('this', (('f', 'coeff_list_'), ('f', n))) in eng.cand_cells or True:
                def fn(st, n=n):
                    j = fresh_int('j')
                    return [Forall([j], TRUE, [co(V(st0), j, n) == co(V(st), j, n)])]
                out.append((f'{n} kept', fn))
        return out

    # ---- forward pass
    def fw_pre(self, c):
        return self.base(c.o) + self.ric_all(c.o)

    def kkt(self, v, j):
        A, Bm, C, D, Lxx, Luu, Lxu, xb, gb, Lxb, Lub = (co(v, j, n) for n in ('A', 'B', 'C', 'D', 'Lxx', 'Luu', 'Lxu', 'x_bar', 'g_bar', 'Lx_bar', 'Lu_bar'))
        s, nu, mu = var(v, 's_list', j), var(v, 'nu_list', j), v.t('barrier_eps_')
        d = lambda l, i: var(v, l, i, 'delta_variable_')
        j1 = icanon(j + 1)
        dx, du, ds, dn, dl, dx1, dl1 = d('x_list', j), d('u_list', j), d('s_list', j), d('nu_list', j), d('lambda_list', j), d('x_list', j1), d('lambda_list', j1)
        S = lambda *ts: __import__('functools').reduce(madd, ts)
        t_ = transpose
        pos = com(v, j, 'B').cols > 0
        neg = lambda x: mscale(num(-1), x)
        return [('linearized dynamics', dx1 == S(mul(A, dx), mul(Bm, du), xb)),
                ('linearized inequality constraints', S(mul(C, dx), mul(D, du), ds) == neg(gb)),
                ('linearized complementarity', S(hadamard(s, dn), hadamard(nu, ds)) == madd(mscale(mu, ONES), hadamard(s, nu), -1)),
                ('stationarity in the state', S(mscale(DT, mul(Lxx, dx)), mscale(DT, mul(Lxu, du)), mul(t_(A), dl1), mul(t_(C), dn)) == madd(dl, Lxb, -1)),
                ('stationarity in the input', z3.Implies(pos, S(mscale(DT, mul(t_(Lxu), dx)), mscale(DT, mul(Luu, du)), mul(t_(Bm), dl1), mul(t_(D), dn)) == neg(Lub)))]

    def fw_post(self, c):
        v = c.n
        N = Nof(v)
        out = []
        d = lambda l, i: var(v, l, i, 'delta_variable_')
        for n in range(5):
            j = fresh_int('j')
            nm_, f = self.kkt(v, j)[n]
            out.append((nm_, Forall([j], z3.And(j >= 0, j < N), [f], nm_)))
        out += [('linearized initial state', d('x_list', ZERO_I) == madd(v.t('current_x_'), var(v, 'x_list', ZERO_I), -1)),
                ('stationarity in the terminal state', mul(co(v, N, 'Lxx'), d('x_list', N)) == madd(d('lambda_list', N), co(v, N, 'Lx_bar'), -1))]
        return out + self.kept(c)


SPEC = C11
