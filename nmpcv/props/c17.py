"""C17: a solve starts from state that is determined by its arguments and the configuration, whatever earlier solves left in the object.

Two runs are compared: every symbol of the first run that is neither an argument, nor a part of the configuration, nor a function of the
problem is renamed to obtain the second run (so the two runs start from unrelated leftovers), and everything that is live where the
optimization loop starts is proved equal in both. Values computed by recurrence over the horizon are compared by induction."""
from . import ddp as dd, fmpc as fm, boxqp as bq
from .ddp import *
from ..prove import Result


class Rename:
    def __init__(self, shared):
        self.shared, self.cache, self.keep = shared, {}, set()

    def t(self, x):
        k = x.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r[1]
        if z3.is_app(x):
            ch = [self.t(c) for c in x.children()]
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and '~' in d.name() and d.name() not in self.shared and d.name() not in self.keep:
                nm = d.name() + "'"
                from .. import terms as T
                kd = KIND.get(d.name())
                if kd:
                    KIND[nm] = kd
                if d.name() in SYM:
                    SYM.add(nm)
                f = z3.Function(nm, *[d.domain(i) for i in range(d.arity())], d.range()) if d.arity() else z3.Const(nm, d.range())
                r = f(*ch) if d.arity() else f
            else:
                r = d(*ch) if ch else x
        else:
            raise Unsupported('renaming of a quantified term')
        self.cache[k] = (x, r)
        return r

    def f(self, g):
        if isinstance(g, Forall):
            return Forall(g.vs, self.t(g.guard), [self.t(b) for b in g.body], g.name)
        return self.t(g)


def consts(t, out):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())


def terms_of(v):
    """terms of a value: (name, term) of scalars and (name, array) of list leaves"""
    for path, x in deep_mem_keys(v):
        if isinstance(x, Num):
            yield path, 'scalar', x.t, None
            if x.nan is not None:
                yield path + ('nan',), 'scalar', x.nan, None
        elif isinstance(x, Mat):
            yield path, 'vector' if x.vec and x.rows is not None else 'scalar', x.t, x.rows if x.vec else None
            for q, d in (('rows', x.rows), ('cols', x.cols)):
                if d is not None:
                    yield path + (q,), 'scalar', d, None
        elif isinstance(x, BArr):
            if x.arr is not None:
                yield path, 'array', x.arr, x.n
        elif isinstance(x, dict):
            lst = get_path(v, path[:-1]) if path[:-1] else v
            for q in ('t', 'r', 'c', 'nan'):
                if q in x and x[q].decl().kind() != z3.Z3_OP_CONST_ARRAY:
                    yield path + (q,), 'array', x[q], lst.n


class Reuse:
    tags = ()
    pushes = True

    def kinds_for(self, fn, depth):
        return None

    def __init__(self):
        super().__init__()
        self.seen = []

    def guard(self, eng, a, path):
        """condition under which this part is live"""
        return None

    def relevant(self, eng, path):
        """is this part of the object live where the optimization loop starts?"""
        for p in self.dead:
            if path[:len(p)] == p:
                return len(path) > len(p) and path[len(p)] == ('len',)
        return not any(isinstance(x, str) and 'duration' in x or (isinstance(x, tuple) and 'duration' in str(x)) for x in path)

    def main_loop(self, eng, st0, end):
        this = eng.root_this
        a, b = eng.read(st0, this), eng.read(end, this)
        return isinstance(a, Struct) and 'trace_data_list_' in a.f and a.f['trace_data_list_'].n is not b.f['trace_data_list_'].n

    def loop_step(self, eng, st0, head, end, line):
        if eng.outer or not self.main_loop(eng, st0, end) or any(s is st0 for s in self.seen):
            return []
        self.seen.append(st0)
        if not self.first_only or len(self.seen) == 1:
            self.main_line = line
        for other in self.seen:
            self.compare(eng, st0, other, line)
        return []

    first_only = False

    def shared(self, eng):
        s = set()
        e = eng.entry_state
        for p in self.f.params:
            for _, _, t, n in terms_of(eng.read(e, (p.id, ()))):
                consts(t, s)
                if n is not None:
                    consts(n, s)
        me = eng.read(e, ('this', ()))
        for fld in self.fixed:
            if fld in me.f:
                for _, _, t, n in terms_of(me.f[fld]):
                    consts(t, s)
                    if n is not None:
                        consts(n, s)
        return s

    def compare(self, eng, a, b, line):
        R_ = Rename(self.shared(eng))
        facts = list(a.facts) + [R_.f(g) for g in b.facts]
        if prove(facts, z3.BoolVal(False), closure_rounds=0):
            return        # no pair of runs takes these two paths
        st = State(a.mem, facts, a.branch)
        roots = ['this'] + [r for r, v in a.mem.items() if r != 'this' and r in b.mem and not isinstance(v, (RefV, Obj, Fn)) and r not in {p.id for p in self.f.params} and not r.startswith('tmp:')]
        goals = []
        for r in roots:
            other = {p: (t, n) for p, k, t, n in terms_of(b.mem[r])}
            for p, k, t, n in terms_of(a.mem[r]):
                if not self.relevant(eng, p if r == 'this' else (eng.vname(r),) + p) or p not in other:
                    continue
                g = self.guard(eng, a, p) if r == 'this' else None
                if g is not None:
                    eng.oblige(st, f'independent of earlier solves where the optimization starts: {self.label(eng, r, p)}', z3.Implies(g, t == R_.t(other[p][0])), eng.prop, line)
                    continue
                goals.append((r, p, k, t, n, R_.t(other[p][0]), R_.t(other[p][1]) if other[p][1] is not None else None))
        goals.sort(key=lambda g: {'scalar': 0, 'array': 1, 'vector': 2}[g[2]])
        pend = goals
        for rnd in range(4):
            left = []
            for g in pend:
                r, p, k, t, n, t2, n2 = g
                nm = self.label(eng, r, p)
                ok = self.same(eng, st, k, t, t2, n)
                if ok is not None:
                    eng.obls.append(Obligation(f'independent of earlier solves where the optimization starts: {nm}', eng.cur, eng.prop, line, ok, None))
                    st = st.with_fact(*self.eqs(k, t, t2, n))
                else:
                    left.append(g)
            if not left or len(left) == len(pend):
                pend = left
                break
            pend = left
        for r, p, k, t, n, t2, n2 in pend:
            nm = self.label(eng, r, p)
            goal = t == t2 if k != 'array' else Forall([z3.Int('ix!sk')], z3.And(z3.Int('ix!sk') >= 0, z3.Int('ix!sk') < n), [z3.Select(t, z3.Int('ix!sk')) == z3.Select(t2, z3.Int('ix!sk'))])
            eng.oblige(st, f'independent of earlier solves where the optimization starts: {nm}', goal, eng.prop, line)

    def reached(self, c):
        if (c.eng.verifying or '').endswith('solve') and not self.seen:
            raise Unsupported('optimization loop not found')
        return []

    def label(self, eng, r, p):
        q = []
        for x in p:
            if isinstance(x, tuple):
                q += ['length'] if x[0] == 'len' else ['[]'] + list(map(str, x[1])) if x[0] == 'leaf' else [str(x[1])]
            elif x not in ('t',):
                q.append(x)
        return '.'.join(([] if r == 'this' else [eng.vname(r)]) + q)

    def eqs(self, k, t, t2, n):
        if k in ('scalar', 'vector'):
            return [t == t2] if not z3.eq(t, t2) else []
        if z3.eq(t, t2):
            return []
        j = fresh_int('j')
        return [Forall([j], z3.And(j >= 0, j < n), [z3.Select(t, j) == z3.Select(t2, j)], 'equal runs')]

    def same(self, eng, st, k, t, t2, n):
        if z3.eq(t, t2):
            return Result(True)
        if k == 'scalar':
            r = prove(st.facts, t == t2)
            return r if r else None
        if k == 'vector':
            r = prove(st.facts, t == t2)
            if r:
                return r
        j = fresh_int('j')
        g = (lambda i: z3.Select(t, i) == z3.Select(t2, i)) if k == 'array' else (lambda i: deep(elem(t, i)) == deep(elem(t2, i)))
        r = prove(st.facts, Forall([j], z3.And(j >= 0, j < n), [g(j)]))
        if r:
            return r
        # induction over the index
        r0 = prove(st.facts + [n > 0], g(ZERO_I))
        if not r0:
            return None
        m = eng.fresh('ind', I)
        i = fresh_int('i')
        r1 = prove(st.facts + [m >= 0, m + 1 < n, g(m), Forall([i], z3.And(i >= 0, i <= m), [g(i)], 'induction')], g(icanon(m + 1)))
        return r1 if r1 else None


class C17D(Reuse, dd.DDPSpec):
    dead = [('candidate_control_data_', 'x_list'), ('candidate_control_data_', 'u_list'), ('candidate_control_data_', 'cost_list'), ('k_list_',), ('K_list_',), ('derivative_list_',),
            ('last_Vx_',), ('last_Vxx_',), ('dV_',), ('computation_duration_',), ('config_',), ('problem_',), ('input_limits_func_',)]
    fixed = ('config_', 'problem_', 'input_limits_func_')

    def __init__(self):
        super().__init__()
        C = self.contracts
        C['DDPSolver::procOnce'] = Contract('DDPSolver::procOnce', requires=lambda c: [], ensures=lambda c: [], verify=False, note='an iteration may change everything (only the state before the first iteration matters here)')
        C['DDPSolver::solve'] = Contract('DDPSolver::solve', requires=self.pre, ensures=self.reached, step=True)

    def pre(self, c):
        self.f = c.f
        return [('horizon', Nof(c.o) >= 0)]


class C17F(Reuse, fm.FMPCSpec):
    dead = [('delta_variable_', l) for l in fm.FIELDS] + [('coeff_list_',), ('computation_duration_',), ('config_',), ('problem_',), ('delta_variable_', 'print_level'),
            ('merit_const_scale_',), ('merit_func_',), ('merit_deriv_',)]
    fixed = ('config_', 'problem_')

    def __init__(self):
        super().__init__()
        C = self.contracts
        for k in C:
            C[k].do_verify = False
        C['FmpcSolver::procOnce'] = Contract('FmpcSolver::procOnce', requires=lambda c: [], ensures=lambda c: [], verify=False, note='an iteration may change everything (only the state before the first iteration matters here)')
        C['FmpcSolver::solve'] = Contract('FmpcSolver::solve', requires=self.pre, ensures=self.reached, step=True)

    def pre(self, c):
        self.f = c.f
        v = c.o
        h = v.t('delta_variable_', 'horizon_steps')
        return [('horizon', Nof(c.o) >= 0),
                ('search direction sized for its own horizon (proved under C12)', z3.And(h >= 0, *[v.n('delta_variable_', l) == h + (1 if l in ('x_list', 'lambda_list') else 0) for l in fm.FIELDS]))]

    def guard(self, eng, a, path):
        # the barrier parameter is carried over unless it is initialized here (or updated by the first iteration before its use)
        return View(eng, eng.entry_state, ('this', ())).t('config_', 'init_complementary_variable') if path[:1] == ('barrier_eps_',) else None

    def main_loop(self, eng, st0, end):
        a, b = eng.read(st0, ('this', ())), eng.read(end, ('this', ()))
        return isinstance(a, Struct) and 'trace_data_list_' in a.f and a.f['trace_data_list_'].n is not b.f['trace_data_list_'].n


class C17Q(Reuse, bq.BoxSpec):
    dead = [('llt_free_',), ('config_',), ('retstr_',)]
    fixed = ('config_', 'var_dim_')

    def __init__(self):
        super().__init__()
        for k in list(self.contracts):
            del self.contracts[k]
        self.contracts['BoxQP::solve'] = Contract('BoxQP::solve', 5, requires=self.pre, ensures=self.reached, step=True)

    def kinds_for(self, fn, depth):
        return frozenset(['bound', 'dim'])

    def pre(self, c):
        self.f = c.f
        return [('dimension', c.o.t('var_dim_') >= 1)]


SPEC = [C17D, C17F, C17Q]
