"""C14: GMRES - Arnoldi process, plane rotations, recorded errors, termination and correction."""
from ..spec import *

OP = UF('gmres.A', 'v', R, R)


def operator(eng, st, args):
    v = eng.spec.argval(eng, st, args[0])
    eng.trusted.add('the operator callback is a deterministic function of its argument')
    return [('return', st, Mat(mcanon(OP(v.t)), v.rows, ONE_I, False, True))]


class Delegate(Contract):
    """the matrix overload hands the matrix over as an operator, with its own remaining arguments"""

    def apply(self, eng, st, f, this_loc, args):
        val = lambda i: eng.spec.argval(eng, st, args[i])
        op = val(0)
        if not isinstance(op, Fn) or op.f is None:
            raise Unsupported('operator of gmres')
        P = lambda i: eng.read(eng.entry_state, (eng.spec.f.params[i].id, ()))
        v = Mat(eng.fresh('v', R, 'v'), P(0).cols, ONE_I, False, True)
        for kind_, s1, r in op.f(eng, st, [(None, v, None)]):
            eng.oblige(s1, 'the operator multiplies by the given matrix', r.t == mul(P(0).t, v.t), eng.prop, f.line)
        eng.oblige(st, 'right-hand side, guess, limit and tolerance are handed over', z3.And(val(1).t == P(1).t, val(2).t == P(2).t, val(3).t == P(3).t, val(4).t == P(4).t, z3.BoolVal(args[2][0] is not None)), eng.prop, f.line)
        eng.spec.calls += 1
        return [('return', st, VOID)]


class C14(Spec):
    unit = 'cgmres'
    mat = False
    calls = 0

    def __init__(self):
        super().__init__()
        self.contracts['Gmres::solve'] = Contract('Gmres::solve', 5, self.pre, self.post, step=True, pick=lambda f: 'function' in f.params[0].ty or 'AmulFunc' in f.params[0].ty)

        self.contracts['Gmres::solve (matrix)'] = Contract('Gmres::solve', 5, self.mat_pre, self.mat_post, pick=lambda f: 'Matrix' in f.params[0].ty and 'function' not in f.params[0].ty and 'AmulFunc' not in f.params[0].ty)
        self.deleg = Delegate('Gmres::solve', 5, verify=False)

    def contract(self, eng, key, np):
        if self.mat and key == 'Gmres::solve':
            return self.deleg
        return super().contract(eng, key, np)

    def mat_pre(self, c):
        self.f, self.mat = c.f, True
        A, b, x = c.arg(0), c.arg(1), c.arg(2)
        return [('sizes', z3.And(A.rows == b.rows, A.cols == x.rows, b.rows == x.rows, x.rows >= 1))]

    def mat_post(self, c):
        return [('the equation is solved once', z3.BoolVal(self.calls == 1))]

    def fresh_fn(self, eng, ty, name):
        return Fn(operator, 'operator')

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'frame']) if depth > 1 else frozenset(['bound', 'dim'])

    def pre(self, c):
        self.f, self.mat = c.f, False
        b, x = c.arg(1), c.arg(2)
        return [('sizes', z3.And(b.rows == x.rows, x.rows >= 1)), ('iteration limit', c.arg(3).t >= 0)]

    # ---- values
    def P(self, eng, i, st=None):
        return eng.read(st or eng.entry_state, (self.f.params[i].id, ()))

    def K(self, eng):
        k, n = self.P(eng, 3).t, self.P(eng, 2).rows
        return z3.If(k <= n, k, n)

    def err(self, v, m):
        return v.el(('err_list_',), m).t

    def tol(self, eng):
        return self.P(eng, 4).t * NORM(self.P(eng, 1).t)

    def r0(self, eng):
        return NORM(mcanon(self.P(eng, 1).t - OP(self.P(eng, 2).t)))

    def counted(self, eng, v):
        k = v.n('err_list_') - 1
        j = fresh_int('m')
        return [('one error and one direction per iteration', z3.And(k >= 0, k <= self.K(eng), v.n('basis_') == k + 1)),
                ('the first error is the initial residual', self.err(v, z3.IntVal(0)) == self.r0(eng)),
                ('iterations continue only above the tolerance', Forall([j], z3.And(j >= 0, j < k), [self.err(v, j) > self.tol(eng)], 'above'))]

    def post(self, c):
        n = c.n
        k = n.n('err_list_') - 1
        return self.counted(c.eng, n) + [('stops at the tolerance or at the limit', z3.Or(k == self.K(c.eng), self.err(n, icanon(k)) <= self.tol(c.eng)))]

    def loop_invariants(self, eng, st0):
        V = lambda st: View(eng, st, eng.root_this)
        if len(eng.outer) == 2 and any(k_[0] == 'this' and k_[1][:1] == ('H_',) for k_ in eng.cand_cells):
            c = icanon(V(st0).n('err_list_') - 1)
            H0 = V(st0).v('H_').t
            return [('other columns kept', lambda st: [self.frame2(H0, V(st).v('H_').t, lambda p, q: q == c)]),
                    ('subdiagonal entry kept', lambda st: [elem2(V(st).v('H_').t, icanon(c + 1), c) == elem2(H0, icanon(c + 1), c)])]
        if len(eng.outer) != 1:
            return []
        ch = {k[0] for k in eng.cand_cells}
        names = [nm for nm, _ in self.counted(eng, V(st0))]
        out = [(nm, lambda st, n=n: [self.counted(eng, V(st))[n][1]]) for n, nm in enumerate(names)]
        K = self.K(eng)
        out.append(('sizes of the projected problem', lambda st: [V(st).v('H_').rows == K + 1, V(st).v('H_').cols == K, V(st).v('g_').rows == K + 1]))
        for r, x in st0.mem.items():
            if r in ch and isinstance(x, Num) and z3.is_int(x.t):
                out.append((f'{eng.vname(r)} counts iterations', lambda st, r=r: [st.mem[r].t == V(st).n('err_list_') - 1]))
            if r in ch and isinstance(x, Num) and z3.is_real(x.t):
                out.append((f'{eng.vname(r)} is the last error', lambda st, r=r: [st.mem[r].t == self.err(V(st), icanon(V(st).n('err_list_') - 1))]))
            if r in ch and isinstance(x, Lst) and len(x.leaves) == 1:
                out.append((f'{eng.vname(r)} has an entry per iteration', lambda st, r=r: [z3.Implies(V(st).t('make_triangular_'), st.mem[r].n == V(st).n('err_list_') - 1)]))
            if r in ch and isinstance(x, Mat) and x.vec:
                def sol(st, r=r):
                    TL, hd, y = self.lsq(eng, st, V)
                    return [z3.Implies(z3.And(z3.Not(V(st).t('make_triangular_')), V(st).n('err_list_') >= 2), st.mem[r].t == y)]
                out.append((f'{eng.vname(r)} is the least-squares solution', sol))
        return out

    # ---- one iteration
    def W(self, st0, head, end):
        """local vectors changed between two states"""
        return [r for r, x in head.mem.items() if isinstance(x, Mat) and x.vec and r in end.mem and not z3.eq(x.t, end.mem[r].t)]

    def Hchanged(self, V, a, b):
        return not z3.eq(V(a).v('H_').t, V(b).v('H_').t)

    def prior(self, eng, facts, want):
        """exit states of the loops executed before, on this path, most recent last"""
        out = []
        for line, s0, hd, exits, cells in eng.done_loops:
            for x in exits:
                n = len(x.facts)
                if n <= len(facts) and all(a is b for a, b in zip(x.facts, facts)) and want(cells):
                    out.append((s0, x))
        return out

    def local(self, eng, st, name):
        for r, x in st.mem.items():
            if eng.vname(r) == name:
                return x
        return None

    def frame2(self, a, b, keep):
        p, q = fresh_int('p'), fresh_int('q')
        return Forall([p, q], z3.And(p >= 0, q >= 0, z3.Not(keep(p, q))), [elem2(a, p, q) == elem2(b, p, q)], 'other entries')

    def loop_step(self, eng, st0, head, end, line):
        V = lambda st: View(eng, st, eng.root_this)
        ws = self.W(st0, head, end)
        i = eng.curloop['i']
        if eng.outer:
            c = icanon(V(st0).n('err_list_') - 1)      # column of this iteration
            if not self.Hchanged(V, head, end):
                return []
            Hh, He = V(head).v('H_').t, V(end).v('H_').t
            if len(ws) == 1:
                return self.arnoldi(eng, V, st0, head, end, ws[0], Hh, He, i, c)
            if not ws:
                return self.rotate(eng, V, head, Hh, He, i, c)
            return []
        if self.f.params[2].id in ws:
            return self.correct(eng, V, st0, head, end, i)
        if V(head).n('err_list_') is not V(end).n('err_list_'):
            return self.start(eng, V, st0) + self.iteration(eng, V, head, end)
        return []

    def arnoldi(self, eng, V, st0, head, end, w, Hh, He, j, c):
        wh, we, w0 = head.mem[w].t, end.mem[w].t, st0.mem[w].t
        vj = V(head).el(('basis_',), j).t
        hc, hh = elem2(He, j, c), elem2(Hh, j, c)
        d = dot(wh, vj)
        last = V(st0).el(('basis_',), icanon(V(st0).n('basis_') - 1)).t
        start = [w0 == OP(last)]
        if self.prior(eng, st0.facts, lambda cells: any(k[0] == w for k in cells)):
            start.append(z3.BoolVal(True))      # a second pass over the same vector
        return [('projection onto a basis vector is removed and recorded', z3.Or(z3.And(hc == d, we == wh - d * vj), z3.And(hc == hh + d, we == wh - d * vj))),
                ('only the entry of this column changes', self.frame2(Hh, He, lambda p, q: z3.And(p == j, q == c))),
                ('the new direction starts from the operator applied to the last one', z3.Or(*start))]

    def rotate(self, eng, V, head, Hh, He, i, c):
        cl, sl = self.local(eng, head, 'c_list'), self.local(eng, head, 's_list')
        if cl is None or sl is None:
            return []
        g = lambda l: z3.Select(next(iter(l.leaves.values()))['t'], i)
        co, si = g(cl), g(sl)
        i1 = icanon(i + 1)
        a, b = elem2(Hh, i, c), elem2(Hh, i1, c)
        return [('earlier rotation applied to the new column', z3.And(elem2(He, i, c) == co * a - si * b, elem2(He, i1, c) == si * a + co * b)),
                ('only the rotated entries change', self.frame2(Hh, He, lambda p, q: z3.And(z3.Or(p == i, p == i1), q == c)))]

    def iteration(self, eng, V, head, end):
        h, n = V(head), V(end)
        c = icanon(h.n('err_list_') - 1)
        k = icanon(c + 1)
        tri = n.t('make_triangular_')
        He, ge, gh = n.v('H_').t, n.v('g_').t, h.v('g_').t
        out = []
        er = self.err(n, k)
        loc = lambda cells: any(k_[0] != 'this' for k_ in cells)
        isH = lambda cells: any(k_[0] == 'this' and k_[1][:1] == ('H_',) for k_ in cells)
        W = []
        for s0, x in self.prior(eng, end.facts, isH):
            W += [(s0, x, r) for r in self.W(s0, s0, x)]
        if W:
            s0, x, r = W[0]
            w = x.mem[r].t
            hs = [V(s1).v('H_').t for s1, x1 in self.prior(eng, end.facts, isH) if s1 is not s0 and not self.W(s1, s1, x1)] or [He]
            out.append(('the subdiagonal entry is the norm of the new direction', elem2(hs[-1], k, c) == NORM(w)))
            s0, x, r = W[-1]
            w = x.mem[r].t
            v1 = n.el(('basis_',), k).t
            out.append(('the new direction is normalized', self.unit_(v1, w)))
        H = [(s0, x) for s0, x in self.prior(eng, end.facts, isH)]
        if H:
            s0, x = H[-1]
            HE = V(x).v('H_').t
            h0, h1 = elem2(HE, c, c), elem2(HE, k, c)
            g0, g1 = elem(gh, c), elem(gh, k)
            nu = elem2(He, c, c)
            out += [('the rotation annihilates the subdiagonal entry', z3.Implies(tri, z3.And(nu * nu == h0 * h0 + h1 * h1, nu >= 0, elem2(He, k, c) == 0))),
                    ('the right-hand side is rotated alike', z3.Implies(z3.And(tri, nu != 0), z3.And(nu * elem(ge, c) == h0 * g0 + h1 * g1, nu * elem(ge, k) == h0 * g1 - h1 * g0)))]
            cl, sl = self.local(eng, end, 'c_list'), self.local(eng, end, 's_list')
            if cl is not None and sl is not None:
                gg = lambda l: z3.Select(next(iter(l.leaves.values()))['t'], c)
                co, si = gg(cl), gg(sl)
                out += [('the recorded rotation is orthonormal', z3.Implies(z3.And(tri, nu != 0), co * co + si * si == 1)), ('the recorded rotation is the one applied', z3.Implies(z3.And(tri, nu != 0), z3.And(co * nu == h0, si * nu == -h1)))]
        out.append(('the error is the rotated residual', z3.Implies(tri, er == z3.If(elem(ge, k) >= 0, elem(ge, k), -elem(ge, k)))))
        q = fresh_int('q')
        out.append(('other right-hand side entries kept', Forall([q], z3.And(q >= 0, z3.Or(z3.Not(tri), z3.And(q != c, q != k))), [elem(ge, q) == elem(gh, q)], 'g kept')))
        out.append(('other columns kept', self.frame2(h.v('H_').t, He, lambda a, b: b == c)))
        TL, hd, y = self.lsq(eng, end, V)
        out.append(('the error is the least-squares residual', z3.Implies(z3.Not(tri), er == NORM(mcanon(hd - mul(TL, y))))))
        return out

    def unit_(self, v, w):
        return z3.Or(v == NORMED(canon(w)), v == mcanon((1 / NORM(w)) * w), z3.And(NORM(w) != 0, NORM(w) * v == w))

    def start(self, eng, V, st0):
        v = V(st0)
        r = mcanon(self.P(eng, 1).t - OP(self.P(eng, 2).t))
        g, H = v.v('g_').t, v.v('H_').t
        q = fresh_int('q')
        return [('the first direction is the normalized initial residual', self.unit_(v.el(('basis_',), ZERO_I).t, r)),
                ('the projected right-hand side starts as the residual norm', z3.And(elem(g, ZERO_I) == NORM(r), z3.BoolVal(True))),
                ('its other entries start at zero', Forall([q], q >= 1, [elem(g, q) == 0], 'zero'))]

    def lsq(self, eng, st, V):
        k = icanon(V(st).n('err_list_') - 1)
        k1 = icanon(k + 1)
        TL = eng.mat_view(V(st).v('H_'), ('block', ZERO_I, ZERO_I, k1, k)).t
        hd = eng.mat_view(V(st).v('g_'), ('seg', ZERO_I, k1)).t
        return TL, hd, QRSOLVE(TL, hd)

    def correct(self, eng, V, st0, head, end, i):
        k = icanon(V(st0).n('err_list_') - 1)
        p = self.f.params[2].id
        xh, xe = head.mem[p].t, end.mem[p].t
        vi = V(st0).el(('basis_',), i).t
        tri = V(st0).t('make_triangular_')
        G = eng.mat_view(V(st0).v('H_'), ('block', ZERO_I, ZERO_I, k, k)).t
        yt = SOLVEV(canon(G), canon(eng.mat_view(V(st0).v('g_'), ('seg', ZERO_I, k)).t))
        yq = self.lsq(eng, st0, V)[2]
        return [('the correction combines the basis with the least-squares coefficients', z3.And(z3.Implies(tri, xe == xh + AT(yt, i) * vi), z3.Implies(z3.Not(tri), xe == xh + AT(yq, i) * vi))),
                ('correction starts at the initial guess', st0.mem[p].t == self.P(eng, 2).t)]

    def loop_exit(self, eng, st0, head, end, how, line):
        p = self.f.params[2].id
        if eng.outer and how != 'break' and self.Hchanged(lambda s: View(eng, s, eng.root_this), st0, end):
            # loops over the basis vectors / over the earlier rotations cover all of them
            cl = eng.curloop
            c = View(eng, st0, eng.root_this).n('err_list_') - 1
            ws = self.W(st0, st0, end)
            last = c + 1 if ws else c
            nm = 'every basis vector is projected out' if ws else 'every earlier rotation is applied'
            if cl['step'] == 1:
                return [(nm, z3.And(cl['i0'] == 0, cl['i'] == last))]
            return [(nm, z3.And(cl['i0'] == last - 1, cl['i'] == -1))] if ws else []
        if eng.outer or z3.eq(end.mem[p].t, st0.mem[p].t):
            return []
        cl = eng.curloop
        V = View(eng, st0, eng.root_this)
        k = V.n('err_list_') - 1
        return [('every basis vector but the last is used once', z3.And(cl['i0'] == 0, cl['i'] == k) if cl['step'] == 1 else z3.And(cl['i0'] == k - 1, cl['i'] == -1))]


SPEC = C14
