"""C09: the FMPC iterates stay strictly inside the interior."""
from .fmpc import *

KEY = 'FmpcSolver::updateVariables'
PRIMAL, DUAL = ('x_list', 'u_list', 's_list'), ('lambda_list', 'nu_list')


class C09(FMPCSpec):
    nest_rounds = True
    ignore = frozenset(['computation_duration_', 'trace_data_list_', 'coeff_list_'])

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['FmpcSolver::setupMeritFunc'] = Contract('FmpcSolver::setupMeritFunc', ensures=self.keepall, light=True)
        C['FmpcSolver::calcMeritFunc'] = Contract('FmpcSolver::calcMeritFunc', ensures=self.keepall, light=True)
        C[KEY] = Contract(KEY, requires=self.pre, ensures=self.post, step=True)

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim', 'eff', 'frame'])

    def keepall(self, c):
        return self.same_lists(c.o, c.n, 'variable_') + self.same_lists(c.o, c.n, 'delta_variable_') + [('horizon kept', Nof(c.o) == Nof(c.n))]

    def pre(self, c):
        v = c.o
        return [('sizes', z3.And(sizes(v), sizes(v, 'delta_variable_')))] + positive(v) + [dims(v)]

    def fits(self, v0, l, r, guard):
        """s + r ds > 0 for the elements selected by guard(a, k)"""
        a, k = fresh_int('a'), fresh_int('k')
        s, d = v0.el(('variable_', l), a), v0.el(('delta_variable_', l), a)
        return Forall([a, k], z3.And(a >= 0, a < Nof(v0), k >= 0, k < s.rows, guard(a, k)), [scanon(elem(s.t, k) + r * elem(d.t, k)) > 0], f'{l} stays positive')

    def loop_invariants(self, eng, st0):
        if eng.cur != KEY or len(eng.outer) > 2:
            return []
        this = eng.root_this
        v0 = View(eng, eng.entry_state, this)
        ch = {k[0] for k in eng.cand_cells}
        loc = [(r, x) for r, x in st0.mem.items() if r != 'this' and isinstance(x, Num)]
        reals = [r for r, x in loc if z3.is_real(x.t) and r in ch]
        ints = [r for r, x in loc if z3.is_int(x.t)]
        cint = [r for r in ints if r in ch]
        out = []
        out += self.moved_invariants(eng, st0, v0, FIELDS)
        for r in reals:
            nm_ = eng.vname(r)
            out += [(f'{nm_} > 0', lambda st, r=r: [st.mem[r].t > 0]), (f'{nm_} <= 1', lambda st, r=r: [st.mem[r].t <= 1])]
            for q, _ in loc:
                if q != r and z3.is_real(st0.mem[q].t):
                    out.append((f'{nm_} <= {eng.vname(q)}', lambda st, r=r, q=q: [st.mem[r].t <= st.mem[q].t]))
            for l in ('s_list', 'nu_list'):
                out.append((f'step {nm_} keeps {l} positive', lambda st, r=r, l=l: [self.fits(v0, l, st.mem[r].t, lambda a, k: TRUE)]))
                for i in cint:
                    if len(eng.outer) == 1:
                        out.append((f'step {nm_} keeps {l} positive so far', lambda st, r=r, l=l, i=i: [self.fits(v0, l, st.mem[r].t, lambda a, k: a < st.mem[i].t)]))
                    else:
                        for o in ints:
                            if o not in ch:
                                out.append((f'step {nm_} keeps {l} positive so far', lambda st, r=r, l=l, i=i, o=o:
                                            [self.fits(v0, l, st.mem[r].t, lambda a, k: z3.Or(a < st.mem[o].t, z3.And(a == st.mem[o].t, k < st.mem[i].t)))]))
        return out

    def moved(self, c, l, r, q=None):
        j = fresh_int('j')
        N = Nof(c.o)
        up = z3.And(j >= 0, j <= N if l in ('x_list', 'lambda_list') else j < N)
        d = c.o.el(('delta_variable_', l), j).t
        return Forall([j], up, [var(c.n, l, j) == madd(var(c.o, l, j), mscale(r, d))])

    def post(self, c):
        eng = c.eng
        ok = c.ret.t
        g = lambda f: Forall(f.vs, z3.And(ok, f.guard), f.body, f.name)
        out = [(n, g(f)) for n, f in positive(c.n)]
        fail = [(n + ' when the update reports an error', Forall(f.vs, z3.And(z3.Not(ok), f.guard), f.body) if isinstance(f, Forall) else z3.Implies(z3.Not(ok), f)) for n, f in self.same_lists(c.o, c.n, 'variable_')]
        out += fail + [('sizes kept', z3.And(*[c.o.n('variable_', l) == c.n.n('variable_', l) for l in FIELDS], Nof(c.o) == Nof(c.n)))]
        if eng.cur != KEY or eng.verifying is not None or eng.dry or z3.is_false(z3.simplify(ok)):
            return out
        reals = [(r, x.t) for r, x in c.new.mem.items() if r != 'this' and isinstance(x, Num) and z3.is_real(x.t)]
        for what, ls in (('primal', PRIMAL), ('dual', DUAL)):
            wit = next((t for r, t in reversed(reals) if prove(c.new.facts, g(self.moved(c, ls[0], t)), timeout=3000)), None)
            if wit is None:
                out.append((f'a common {what} step length', z3.Not(ok)))
                continue
            out.append((f'{what} step length in (0,1]', z3.Implies(ok, z3.And(wit > 0, wit <= 1))))
            for l in ls:
                out.append((f'{l} moves by the {what} step', g(self.moved(c, l, wit))))
        return out


SPEC = C09
