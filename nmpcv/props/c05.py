"""C05: DDP respects the input limits."""
from .ddp import *
from .c04 import writes_at
from .. import terms as tm

W_ = ('config_', 'with_input_constraint')


MEM = z3.Function('in_list', z3.ArraySort(I, I), I, I, B)     # any set that contains the listed indices


def row_writes(eng, r):
    """(index, value) of the rows of local matrix r that one iteration of the loop under inference writes"""
    out = []
    for cs in eng.cand_conts:
        a, b = eng.cand_head.mem.get(r), cs.mem.get(r)
        if isinstance(a, Mat) and isinstance(b, Mat) and all(z3.is_app(x.t) and tm.nm(x.t) == 'rowsof' for x in (a, b)):
            w = store_idx(b.t.arg(0), a.t.arg(0))
            if w and len(w) == 1:
                out.append(w[0])
    return out


class C05(DDPSpec):
    ignore = frozenset(['derivative_list_', 'computation_duration_', 'trace_data_list_'])
    nest_rounds = True

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['BoxQP::solve'] = Contract('BoxQP::solve', 5, requires=self.qp_pre, ensures=self.qp_post, mods={('this', ()): True}, verify=False, note='BoxQP::solve: point in the box (proved under C06)')
        C['DDPSolver::backwardPass'] = Contract('DDPSolver::backwardPass', requires=self.bw_pre, ensures=self.bw_post, step=True)
        C['DDPSolver::forwardPass'] = Contract('DDPSolver::forwardPass', requires=self.pre, ensures=self.fw_post, step=True)
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=self.pre, ensures=self.po_post, step=True)
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.so_pre, ensures=self.so_post, step=True)
        self.seen = False

    def kinds_for(self, fn, depth):
        if fn.endswith('backwardPass'):
            return frozenset(['bound', 'dim'])
        return frozenset(['bound', 'dim', 'eff', 'frame'])

    def consistent(self, N, t0):
        j, k = fresh_int('j'), fresh_int('k')
        t = tm_at(t0, j)
        return ('consistent limits', Forall([j, k], z3.And(j >= 0, j < N, k >= 0), [elem(LO(t), k) <= elem(HI(t), k)], 'limits'))

    def qp_pre(self, c):
        lo, hi = c.arg(2), c.arg(3)
        k = fresh_int('k')
        return [('consistent bounds', Forall([k], k >= 0, [elem(lo.t, k) <= elem(hi.t, k)], 'bounds'))]

    def qp_post(self, c):
        lo, hi = c.arg(2), c.arg(3)
        k = fresh_int('k')
        e = elem(c.ret.t, k)
        return [('in the box', Forall([k], z3.And(k >= 0, k < c.ret.rows), [elem(lo.t, k) <= e, e <= elem(hi.t, k)], 'in box')), ('dimension', c.ret.rows == c.n.t('var_dim_'))] + self.free_facts(c)

    def free_list(self, lst):
        lf = next(iter(lst.leaves.values()))
        return lf['t'] if isinstance(lf, dict) else lf, lst.n

    def free_facts(self, c):
        arr, n = self.free_list(c.n.v('free_idxs_'))
        a, b = fresh_int('a'), fresh_int('b')
        fa, fb = z3.Select(arr, a), z3.Select(arr, b)
        G = c.n.v('llt_free_').d['v'].d['G'].t
        return [('factorization of the free block succeeded', z3.Implies(z3.And(c.n.t('retval_') >= 0, n > 0), z3.Not(LLTFAIL(canon(G))))), ('free indices listed', Forall([a], z3.And(a >= 0, a < n), [z3.And(fa >= 0, fa < c.n.t('var_dim_'), MEM(arr, n, fa))], 'free')),
                ('free indices distinct', Forall([a, b], z3.And(a >= 0, b < n, a < b), [fa < fb], 'free increasing')), ('free count', n >= 0)]

    def inlim(self, v, which='control_data_', vs=None):
        j, k = fresh_int('j'), fresh_int('k')
        t = tm_at(v.t('current_t_'), j)
        u = v.el((which, 'u_list'), j)
        e = elem(u.t, k)
        return [j, k], z3.And(j >= 0, j < Nof(v), k >= 0, k < u.rows), [elem(LO(t), k) <= e, e <= elem(HI(t), k)]

    def sized(self, v):
        N = Nof(v)
        return [('sizes', z3.And(N >= 0, v.n('control_data_', 'u_list') == N, v.n('control_data_', 'x_list') == N + 1, v.n('candidate_control_data_', 'u_list') == N, v.n('candidate_control_data_', 'x_list') == N + 1))]

    def keep(self, c, traj=True):
        same = lambda *p: c.o.t(*p) == c.n.t(*p)
        out = [('configuration and time kept', z3.And(same('config_', 'horizon_steps'), same('current_t_'), same(*W_)))]
        sz = [c.o.n(w, l) == c.n.n(w, l) for w in ('control_data_', 'candidate_control_data_') for l in ('x_list', 'u_list')]
        out.append(('sizes kept', z3.And(*sz)))
        if traj:
            j = fresh_int('j')
            a, b = c.o.el(('control_data_', 'u_list'), j), c.n.el(('control_data_', 'u_list'), j)
            out.append(('current inputs kept', Forall([j], TRUE, [a.t == b.t, a.rows == b.rows])))
        return out

    def pre(self, c):
        return self.sized(c.o) + [self.consistent(Nof(c.o), c.o.t('current_t_')), ('input constraint', c.o.t(*W_))]

    def bw_pre(self, c):
        return self.pre(c)

    def bw_post(self, c):
        if c.eng.cur == 'DDPSolver::backwardPass' and c.eng.verifying is None and not c.eng.dry and not self.seen:
            raise Unsupported('no backward recursion loop found')
        return self.keep(c)

    def fw_post(self, c):
        vs, g, b = self.inlim(c.n, 'candidate_control_data_')
        return self.keep(c) + [('every candidate input is within the limits of its step', Forall(vs, g, b))]

    def either(self, v, same, same_vs, sguard):
        """all inputs within their limits, or all equal to the reference (one quantifier over both index sets)"""
        vs, g, b = self.inlim(v)
        return Forall(vs + same_vs, z3.And(g, sguard), [z3.Or(z3.And(*b), same)], 'in limits or unchanged')

    def vs_old(self, o, n):
        j = fresh_int('i')
        a, b = o.el(('control_data_', 'u_list'), j), n.el(('control_data_', 'u_list'), j)
        return self.either(n, z3.And(a.t == b.t, a.rows == b.rows), [j], z3.And(j >= 0, j < Nof(o)))

    def po_post(self, c):
        return self.keep(c, False) + [('the adopted inputs are all within their limits, or unchanged', self.vs_old(c.o, c.n))]

    def so_pre(self, c):
        self.sof = c.f
        return [('horizon', Nof(c.o) >= 0), self.consistent(Nof(c.o), c.arg(0).t), ('input constraint', c.o.t(*W_))]

    def given(self, eng, st, j):
        return eng.read(st, (self.sof.params[2].id, (('i', j),)))

    def vs_given(self, eng, st, v):
        j = fresh_int('i')
        a, b = self.given(eng, st, j), v.el(('control_data_', 'u_list'), j)
        return self.either(v, z3.And(a.t == b.t), [j], z3.And(j >= 0, j < Nof(v)))

    def so_post(self, c):
        return [('the reported inputs are all within their limits, or the initial inputs', self.vs_given(c.eng, c.old, c.n))]

    def loop_invariants(self, eng, st0):
        this = eng.root_this
        if this is None:
            return []
        V = lambda st: View(eng, st, this)
        kc = lambda st: z3.And(V(st).t('current_t_') == V(st0).t('current_t_'), Nof(V(st)) == Nof(V(st0)), V(st).t(*W_) == V(st0).t(*W_), self.sized(V(st))[0][1])
        out = []
        if eng.cur in ('DDPSolver::solve', 'DDPSolver::procOnce'):
            out.append(('configuration and sizes', lambda st: [kc(st)]))
        if eng.cur == 'DDPSolver::solve' and len(eng.outer) == 1:
            out.append(('in limits or initial', lambda st: [self.vs_given(eng, eng.entry_state, V(st))]))
        if eng.cur == 'DDPSolver::procOnce' and len(eng.outer) == 1:
            def same(st):
                j = fresh_int('j')
                a, b = V(st0).el(('control_data_', 'u_list'), j), V(st).el(('control_data_', 'u_list'), j)
                return [Forall([j], TRUE, [a.t == b.t, a.rows == b.rows])]
            out.append(('current inputs kept', same))
        if eng.cur == 'DDPSolver::backwardPass' and len(eng.outer) == 2:
            out += self.gather_scatter(eng, st0)
        return out

    def flag_invariants(self, eng, st0):
        if eng.cur != 'DDPSolver::procOnce' or len(eng.outer) != 1 or eng.root_this is None:
            return []

        def cand(st):
            vs, g, b = self.inlim(View(eng, st, eng.root_this), 'candidate_control_data_')
            return [Forall(vs, g, b)]
        return [('candidate inputs within limits', cand)]

    def qp_of(self, st):
        return next((x for r, x in st.mem.items() if isinstance(x, Struct) and 'free_idxs_' in x.f and not z3.is_int_value(x.f['free_idxs_'].n)), None)

    def gather_scatter(self, eng, st0):
        qp = self.qp_of(st0)
        if qp is None:
            return []
        arr, n = self.free_list(qp.f['free_idxs_'])
        ch = {k[0] for k in eng.cand_cells}
        mats = [(r, x) for r, x in st0.mem.items() if r != 'this' and isinstance(x, Mat) and not x.vec]
        ints = [r for r, x in st0.mem.items() if r in ch and isinstance(x, Num) and z3.is_int(x.t)]
        out = []
        for r, x in mats:
            if r not in ch:
                continue

            def zero(st, r=r):
                q = fresh_int('q')
                return [Forall([q], z3.And(q >= 0, z3.Not(MEM(arr, n, q))), [row(st.mem[r].t, q) == mcanon(num(0))])]
            out.append((f'{eng.vname(r)} zero in the held rows', zero))
            for w, val in row_writes(eng, r):
                def wr(st, r=r, w=w, val=val):
                    q = fresh_int('q')
                    return [Forall([q], z3.And(q >= 0, q < st.mem[ints[0]].t, q < n), [row(st.mem[r].t, z3.substitute(w, (eng_i, q))) == z3.substitute(val, (eng_i, q))])]
                eng_i = eng.cand_i
                if ints:
                    out.append((f'{eng.vname(r)} filled row by row', wr))
        return out

    def reduced(self, eng, a, b, end, idx, qp, arr, n, K):
        """G K_free = -Qux_free, where G is the factorized matrix of the subproblem, K_free the free rows of the gain and
        Qux_free the free rows of the regularized cross term (witnesses for both are looked up among the locals)"""
        dec = qp.f['llt_free_']
        dec = dec.d.get('v') if isinstance(dec, Obj) else None
        G = dec.d['G'].t if isinstance(dec, Obj) and 'G' in dec.d else None
        if G is None:
            return []
        D = lambda m: a.el(('derivative_list_',), idx, m).t
        Vr = [x.t for r, x in end.mem.items() if isinstance(x, Mat) and not x.vec and r != 'this']
        lam, rt = a.t('lambda_'), a.t('config_', 'reg_type')
        mats = [x.t for r, x in end.mem.items() if isinstance(x, Mat) and not x.vec and r != 'this']
        q = fresh_int('q')
        rng = z3.And(q >= 0, q < n)
        neg = lambda t: mscale(num(-1), t)
        for X in reversed(mats):
            if not prove(end.facts, Forall([q], rng, [row(K.t, z3.Select(arr, q)) == row(X, q)]), timeout=2000, use_closure=False):
                continue
            for Y in reversed(mats):
                if prove(end.facts, z3.Implies(n > 0, mul(G, X) == neg(Y)), timeout=2000):
                    return [('free rows of the gain solve the reduced problem', z3.Implies(n > 0, mul(G, X) == neg(Y))),
                            ('free rows of the gain', Forall([q], rng, [row(K.t, z3.Select(arr, q)) == row(X, q)])),
                            ('the right-hand side is the free part of the cross term', self.gathered(eng, a, b, end, idx, arr, n, Y))]
        return []

    def gathered(self, eng, a, b, end, idx, arr, n, Y):
        q = fresh_int('q')
        D = lambda m: a.el(('derivative_list_',), idx, m).t
        V = self.Vh
        lam, rt = a.t('lambda_'), a.t('config_', 'reg_type')
        pl = lambda M: madd(transpose(D('Lxu')), mul(mul(transpose(D('Fu')), M), D('Fx')))
        want = lambda ty: row(pl(madd(V, mscale(lam, ID)) if ty == 2 else V), z3.Select(arr, q))
        return Forall([q], z3.And(q >= 0, q < n), [z3.Implies(rt == 2, row(Y, q) == want(2)), z3.Implies(rt == 1, row(Y, q) == want(1))])

    def loop_step(self, eng, st0, head, end, line):
        if eng.cur != 'DDPSolver::backwardPass' or len(eng.stack) != 1 or eng.outer:
            return []
        this = eng.root_this
        a, b = View(eng, head, this), View(eng, end, this)
        ka, kb = a.v('k_list_'), b.v('k_list_')
        lp = next(iter(ka.leaves))
        idx = writes_at(ka.leaves[lp]['t'], kb.leaves[lp]['t'])
        if idx is None:
            raise Unsupported('gains of one iteration are not written at a single step')
        self.seen = True
        vxx0 = View(eng, st0, this).t('last_Vxx_')
        Vr = [r for r, x in st0.mem.items() if isinstance(x, Mat) and x.t.eq(vxx0) and r in head.mem and r in end.mem and not same_val(head.mem[r], end.mem[r])]
        self.Vh = head.mem[Vr[0]].t if len(Vr) == 1 else None
        u, k = a.el(('control_data_', 'u_list'), idx), b.el(('k_list_',), idx)
        q = fresh_int('k')
        e = elem(madd(u.t, k.t), q)
        t = tm_at(a.t('current_t_'), idx)
        L = eng.curloop
        i, step = L['i'], L['step']
        first, nxt = z3.substitute(idx, (i, L['i0'])), z3.substitute(idx, (i, icanon(i + step)))
        out = []
        qp = self.qp_of(end)
        K = b.el(('K_list_',), idx)
        if qp is not None:
            arr, n = self.free_list(qp.f['free_idxs_'])
            if self.Vh is not None:
                out += self.reduced(eng, a, b, end, idx, qp, arr, n, K)
            h = fresh_int('q')
            out.append(('inputs held by the subproblem get zero feedback rows', Forall([h], z3.And(h >= 0, h < K.rows, z3.Not(MEM(arr, n, h))), [row(K.t, h) == mcanon(num(0))])))
        return out + [('the feedforward step keeps the input within the limits of its step', Forall([q], z3.And(q >= 0, q < k.rows), [elem(LO(t), q) <= e, e <= elem(HI(t), q)])),
                ('the recursion goes over every step', z3.And(first == Nof(a) - 1, nxt == idx - 1))]


SPEC = C05
