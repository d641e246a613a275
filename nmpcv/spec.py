"""Contracts and models of the user-supplied problem (uninterpreted pure functions)."""
import z3
from .loop import *
from .loop import Looper

SYM_DECLS = ['p.Lxx', 'p.Luu', 'p.phixx']
for s_ in SYM_DECLS:
    SYM.add(s_)


def UF(name, knd, *sorts):
    KIND[name] = knd
    return z3.Function(name, *sorts)


STATEEQ = UF('p.stateEq', 'v', R, R, R, R)
RUNCOST = UF('p.runningCost', 's', R, R, R, R)
TERMCOST = UF('p.terminalCost', 's', R, R, R)
RUNCOSTN = z3.Function('p.runningCost_nan', R, R, R, B)
TERMCOSTN = z3.Function('p.terminalCost_nan', R, R, B)
INEQ = UF('p.ineqConst', 'v', R, R, R, R)
DT = z3.Real('p.dt')
INPUTDIM = z3.Function('p.inputDim', R, I)
INEQDIM = z3.Function('p.ineqDim', R, I)
STATEDIM = z3.Int('StateDim')
LO = UF('lim.lower', 'v', R, R)
HI = UF('lim.upper', 'v', R, R)

DERIV = {
    'calcStateEqDeriv': [('p.Fx', 'm'), ('p.Fu', 'm')],
    'calcRunningCostDeriv': [('p.Lx', 'v'), ('p.Lu', 'v'), ('p.Lxx', 'm'), ('p.Luu', 'm'), ('p.Lxu', 'm')],
    'calcTerminalCostDeriv': [('p.phix', 'v'), ('p.phixx', 'm')],
    'calcIneqConstDeriv': [('p.gx', 'm'), ('p.gu', 'm')],
}


class Contract:
    """requires/ensures: functions (c: Ctx) -> list of (name, formula)"""

    def __init__(self, key, nparams=None, requires=None, ensures=None, throws=None, verify=True, mods=None, may_throw=None, light=False, cost=1, note='', ghost=None, step=False, value=None, pick=None):
        self.pick = pick        # chooses among overloads with the same number of parameters
        self.ghost = ghost
        self.value = value      # result of a call as a term: must be implied by ensures (which the body is checked against)
        self.step = step
        self.cost = cost
        self.light = light
        self.mods, self.may_throw = mods, may_throw
        self.key, self.np, self.requires, self.ensures, self.throws, self.do_verify = key, nparams, requires, ensures, throws, verify
        self.note = note

    def apply(self, eng, st, f, this_loc, args):
        """call site: check requires, havoc what the callee modifies, assume ensures"""
        if self.mods is not None:
            summ = dict(mods=self.mods, returns=True, throws=f.name in eng.throwing() if self.may_throw is None else self.may_throw)
        else:
            summ = eng.summary(f, self)
        st1, _ = eng.bind_params(st, f, args)
        if this_loc is not None:
            this_loc = eng.resolve(st1, this_loc)
        c = Ctx(eng, f, st1, st1, this_loc, None)
        if self.requires:
            for name, g in self.requires(c):
                eng.oblige(st1, f'precondition of {f.key}: {name}', g, eng.prop, f.line)
        st2 = st1
        facts = []
        outs = []
        hv = {}
        for (which, path), mode in dict(summ['mods']).items():
            if which == 'this':
                loc = this_loc
            else:
                loc = eng.resolve(st2, (f.params[which].id, ()))
            root, steps = loc
            cur = eng.read(st2, loc)
            nv = havoc_path(eng, cur, path, f.key + '.' + str(path[-1] if path else which), facts)
            st2 = eng.write_raw(st2, loc, nv)
        rv = VOID
        rty = eng.types.parse(f.ret, f.cls) if f.ret else ('void',)
        if rty[0] not in ('void', 'auto', 'opaque'):
            rv = self.value(Ctx(eng, f, st1, st2, this_loc, None)) if self.value else eng.fresh_val(rty, 'ret.' + f.name, None, facts)
        st2 = st2.with_fact(*facts)
        c2 = Ctx(eng, f, st1, st2, this_loc, rv)
        res = []
        if self.ensures and summ['returns']:
            fs = [g for name, g in self.ensures(c2)]
            st3 = st2.with_fact(*fs)
        else:
            st3 = st2
        if self.ghost:
            st3 = self.ghost(c2, st3)
        if summ['returns']:
            st3 = eng.drop_locals(st3, f, st)
            res.append(('return', st3, rv))
        if summ['throws']:
            # after an exception only the exceptional postcondition (checked against the body) is assumed
            st4 = st2.with_fact(*[g for _, g in self.throws(Ctx(eng, f, st1, st2, this_loc, None))]) if self.throws else st2
            st4 = eng.drop_locals(st4, f, st)
            res.append(('throw', st4, None))
        return res


def havoc_path(eng, v, path, name, facts):
    if not path:
        return havoc_val(eng, v, name, facts)
    p = path[0]
    if isinstance(p, str):
        return v.upd(p, havoc_path(eng, v.f[p], path[1:], name, facts))
    if p[0] == 'len':
        n = eng.fresh(name + '.len', I)
        facts.append(n >= 0)
        return Lst(v.ety, n, v.leaves)
    if p[0] == 'leaf':
        lf = v.leaves[p[1]]
        nl = dict(lf)
        kd = {'vec': 'v', 'mat': 'm'}.get(lf['k'], 's')
        for q in ('t', 'r', 'c', 'nan'):
            if q in lf and (q == 't' or lf[q].decl().kind() != z3.Z3_OP_CONST_ARRAY):
                nl[q] = eng.fresh(name, lf[q].sort(), kd if q == 't' else 's')
                if q in 'rc':
                    j = fresh_int('d')
                    facts.append(Forall([j], TRUE, [z3.Select(nl[q], j) >= 0], 'dim>=0'))
        d = dict(v.leaves)
        d[p[1]] = nl
        return Lst(v.ety, v.n, d)
    if p[0] == 'tup':
        a = list(v.a)
        a[p[1]] = havoc_path(eng, a[p[1]], path[1:], name, facts)
        return Tup(a)
    raise Unsupported('havoc')


def havoc_val(eng, v, name, facts):
    if isinstance(v, Num):
        return Num(eng.fresh(name, v.t.sort()), eng.fresh(name + '_nan', B) if (eng.ieee and z3.is_real(v.t)) else None)
    if isinstance(v, Mat):
        r = eng.fresh(name + '_r', I) if v.vec or v.rows is None or not z3.is_int_value(v.rows) else v.rows
        c = v.cols if v.vec else eng.fresh(name + '_c', I)
        if v.vec and v.rows is not None and (z3.is_int_value(v.rows) or v.rows.eq(STATEDIM)):
            r = v.rows
        facts.append(r >= 0)
        if not v.vec:
            facts.append(c >= 0)
        if v.vec and (v.nan is not None or eng.ieee):
            return Mat(VOF(eng.fresh(name + '_el', AR), r), r, c, v.arr, True, eng.fresh(name + '_nan', AB))
        return Mat(eng.fresh(name, R, 'v' if v.vec else 'm'), r, c, v.arr, v.vec)
    if isinstance(v, BArr):
        return BArr(eng.fresh(name + '_n', I), arr=eng.fresh(name, AB))
    if isinstance(v, Obj):
        if v.k in ('box', 'null'):
            G = Mat(eng.fresh(name + '_G', R, 'm'), eng.fresh(name + '_Gr', I), eng.fresh(name + '_Gc', I), False, False)
            return Obj('box', v=Obj('dec', kind='LLT', G=G), nonnull=eng.fresh(name + '_ok', B))
        return Obj('opaque')
    if isinstance(v, (Struct, Lst, Tup)):
        for path, x in list(deep_mem_keys(v)):
            v = havoc_path(eng, v, path, name, facts)
        return v
    raise Unsupported(f'havoc of {v}')


class Ctx:
    """access to values for writing specifications"""

    def __init__(self, eng, f, old, new, this_loc, ret):
        self.eng, self.f, self.old, self.new, self.this, self.ret = eng, f, old, new, this_loc, ret

    def at(self, st):
        return View(self.eng, st, self.this)

    @property
    def o(self):
        return View(self.eng, self.old, self.this)

    @property
    def n(self):
        return View(self.eng, self.new, self.this)

    def arg(self, i, st=None):
        """parameter value at entry"""
        return self.eng.read(st or self.old, (self.f.params[i].id, ()))


class View:
    def __init__(self, eng, st, this):
        self.eng, self.st, self.this = eng, st, this

    def v(self, *path):
        """member value: v('config_','horizon_steps')"""
        return self.eng.read(self.st, (self.this[0], tuple(self.this[1]) + tuple(('f', p) for p in path)))

    def t(self, *path):
        return self.v(*path).t

    def el(self, path, i, *sub):
        """element i of a list member"""
        loc = (self.this[0], tuple(self.this[1]) + tuple(('f', p) for p in path) + (('i', i),) + tuple(('f', p) for p in sub))
        return self.eng.read(self.st, loc)

    def n(self, *path):
        x = self.v(*path)
        return x.n if isinstance(x, Lst) else x.rows


class Spec:
    unit = None
    ieee = False
    tags = ()
    ignore = frozenset()     # members whose loop invariants are irrelevant to the property (not inferred)

    def __init__(self):
        self.contracts = {}

    # ---- hooks used by the engine
    def contract(self, eng, key, nparams):
        c = self.contracts.get(key)
        if c is not None and (c.np is None or c.np == nparams) and not (eng.verifying == key and eng.verifying_np == nparams):
            return c
        return None

    def flag_invariants(self, eng, st0):
        """further facts worth trying under a boolean 'found' flag of the loop"""
        return []

    def loop_invariants(self, eng, st0):
        return []

    step_kinds = frozenset(['bound', 'dim'])

    def kinds_for(self, fn, depth):
        """kinds of inferred invariants wanted for loops of step contracts (None: all)"""
        return self.step_kinds if depth == 1 else None

    def loop_step(self, eng, st0, head, end, line):
        """obligations on one arbitrary iteration (head -> end) of every loop"""
        return []

    def loop_exit(self, eng, st0, head, end, how, line):
        """obligations on a partial iteration (head -> end) that leaves the loop"""
        return []

    def ghosts_for(self, eng, mem):
        return self.ghosts()

    def ghosts(self):
        """ghost variables: name -> initial Val"""
        return {}

    def global_facts(self, eng):
        return []

    def tparam(self, eng, name):
        return z3.Int(name)

    def global_var(self, eng, st, e):
        if e.name in ('Success', 'NumericalIssue', 'NoConvergence', 'InvalidInput'):
            return Obj('info', v=e.name)
        if e.name in ('Dynamic',):
            return Num(z3.IntVal(-1))
        if e.name in ('cout', 'cerr', 'endl'):
            return Obj('opaque')
        if e.name in ('_1', '_2', '_3', '_4', '_5', '_6'):
            return Obj('opaque')
        raise Unsupported('variable ' + str(e.name))

    def fresh_ptr(self, eng, ty, name):
        if 'LLT' in ty:
            G = Mat(eng.fresh(name + '_G', R, 'm'), eng.fresh(name + '_Gr', I), eng.fresh(name + '_Gc', I), False, False)
            return Obj('box', v=Obj('dec', kind='LLT', G=G), nonnull=eng.fresh(name + '_ok', B))
        if 'Map<' in ty:
            return Obj('map', loc=None, n=eng.fresh(name + '_n', I), nonnull=eng.fresh(name + '_ok', B))
        if 'Problem' in ty:
            return Obj('ptr', cls='problem', nonnull=TRUE)
        if 'OdeSolver' in ty:
            return Obj('ptr', cls='ode', nonnull=TRUE)
        return Obj('opaque')

    def fresh_fn(self, eng, ty, name):
        if 'array<' in ty and 'double' in ty:
            def lim(e, st, args):
                t = self.argval(e, st, args[0]).t
                r = e.fresh('lim_n', I)
                return [('return', st.with_fact(*self.limit_facts(e, t)), Tup([Mat(LO(t), None, ONE_I, False, True), Mat(HI(t), None, ONE_I, False, True)]))]
            return Fn(lim, 'input_limits')
        return Fn(None, name)

    def limit_facts(self, eng, t):
        return []

    def argval(self, eng, st, a):
        return a[1] if a[1] is not None else eng.read(st, a[0])

    def obj_field(self, eng, st, obj, name):
        if obj.k == 'ptr' and obj.d['cls'] == 'problem':
            if name in ('dim_x_', 'dim_uc_', 'dim_u_', 'dim_c_'):
                return Num(z3.Int('p.' + name))
            if name in ('x_initial_', 'u_initial_'):
                KIND['p.' + name] = 'v'
                return Mat(z3.Const('p.' + name, R), z3.Int('p.dim_x_' if name[0] == 'x' else 'p.dim_uc_'), ONE_I, False, True)
        if obj.k == 'opaque':
            return Obj('opaque')
        raise Unsupported(f'field {name} of {obj.k}')

    def obj_index(self, eng, st, obj, idx):
        raise Unsupported('index of ' + obj.k)

    def ptr_method(self, eng, st, obj, name):
        raise Unsupported('bind of problem method ' + name)

    def ptr_call(self, eng, st, obj, name, args, e):
        if name == 'get':
            yield st, (None, obj)
            return
        if obj.d['cls'] != 'problem':
            raise Unsupported('virtual call ' + name)
        eng.trusted.add('problem functions (stateEq, costs, constraints, their derivatives, input limits) are deterministic functions of their arguments without side effects on the solver; Hessians Lxx, Luu, Vxx(N) are symmetric')
        for s1, vs in eng.ev_args_loc(st, args):
            def val(i):
                return self.argval(eng, s1, vs[i])
            if name == 'dt':
                yield s1, (None, Num(DT))
            elif name == 'stateDim':
                yield s1, (None, Num(STATEDIM))
            elif name in ('inputDim', 'ineqDim'):
                f = INPUTDIM if name == 'inputDim' else INEQDIM
                if not vs:
                    yield s1, (None, Num(z3.Int('InputDim' if name == 'inputDim' else 'IneqDim')))
                else:
                    r = f(self.re(eng, val(0)))
                    yield s1.with_fact(r >= 0), (None, Num(r))
            elif name == 'stateEq':
                yield s1, (None, Mat(STATEEQ(self.re(eng, val(0)), val(1).t, val(2).t), STATEDIM, ONE_I, False, True))
            elif name == 'ineqConst':
                t = self.re(eng, val(0))
                yield s1, (None, Mat(INEQ(t, val(1).t, val(2).t), INEQDIM(t), ONE_I, False, True))
            elif name == 'runningCost':
                a = (self.re(eng, val(0)), val(1).t, val(2).t)
                yield s1, (None, Num(RUNCOST(*a), RUNCOSTN(*a) if eng.ieee else None))
            elif name == 'terminalCost':
                a = (self.re(eng, val(0)), val(1).t)
                yield s1, (None, Num(TERMCOST(*a), TERMCOSTN(*a) if eng.ieee else None))
            elif name in DERIV:
                outs = DERIV[name]
                nin = 2 if name == 'calcTerminalCostDeriv' else 3
                ins = [self.re(eng, val(0))] + [val(k).t for k in range(1, nin)]
                s2 = s1
                for k, (fn, kd) in enumerate(outs):
                    if nin + k >= len(vs):
                        break
                    f = UF(fn, kd, *([R] * nin + [R]))
                    loc = vs[nin + k][0]
                    if loc is None:
                        raise Unsupported('derivative output is not an lvalue')
                    old = eng.read(s2, loc)
                    s2 = eng.write(s2, loc, Mat(f(*ins), old.rows, old.cols, False, kd == 'v'))
                yield s2, (None, VOID)
            else:
                yield from self.problem_call(eng, s1, obj, name, vs, e)

    def re(self, eng, v):
        return scanon(eng.to_real(v.t))

    def problem_call(self, eng, st, obj, name, vs, e):
        raise Unsupported('problem function ' + name)


class Verifier(Looper):
    """function-by-function verification against a Spec"""

    def __init__(self, front, spec, prop):
        super().__init__(front, spec, prop)
        self.ieee = spec.ieee
        self.tags = {prop} | set(spec.tags)
        self.tags_on = frozenset(spec.tags)
        self.verifying = None
        self.summaries = {}
        self.ghist = []
        self.under_contract = {}

    # ---- raw write: replaces the value at a location without coercion
    def write_raw(self, st, loc, v):
        root, steps = loc
        if not steps:
            return st.set(root, v)
        return self.write(st, loc, v)

    def coerce_assign(self, old, val):
        return super().coerce_assign(old, val)

    def drop_locals(self, st, f, ref):
        ids = {p.id for p in f.params}
        return State({r: v for r, v in st.mem.items() if r not in ids or r in ref.mem}, st.facts, st.branch)

    def throwing(self):
        if self._throwing is None:
            calls, direct = {}, set()

            def walk(x, fn):
                if isinstance(x, (list, tuple)):
                    for y in x:
                        walk(y, fn)
                elif isinstance(x, (E, S)):
                    if x.k == 'throw':
                        direct.add(fn)
                    if isinstance(x, E) and x.name:
                        calls.setdefault(fn, set()).add(str(x.name).split('::')[-1])
                    walk(x.a, fn)
                elif isinstance(x, Var):
                    walk(x.init, fn)
            for key, fs in self.fr.funcs.items():
                for f in fs:
                    walk(f.body, f.name)
            ch = True
            while ch:
                ch = False
                for fn, cs in calls.items():
                    if fn not in direct and cs & direct:
                        direct.add(fn)
                        ch = True
            self._throwing = direct
        return self._throwing

    _throwing = None

    def find(self, key, np=None, pick=None):
        fs = [f for f in self.fr.get(key) if (np is None or len(f.params) == np) and (pick is None or pick(f))]
        return fs[0] if fs else None

    def entry(self, f, name='this'):
        """arbitrary object and arguments"""
        facts = [DT == DT]
        mem = {}
        this = None
        if f.cls and f.cls in self.fr.classes:
            mem['this'] = self.fresh_val(('struct', f.cls), 'this', None, facts)
            this = ('this', ())
        for p in f.params:
            ty = self.types.parse(p.ty, f.cls)
            mem[p.id] = self.fresh_val(ty, p.name, None, facts)
        mem.update(self.spec.ghosts_for(self, mem))
        facts += [STATEDIM > 0] + list(self.spec.global_facts(self))
        return State(mem, facts, []), this

    def summary(self, f, con):
        key = f.key
        if key in self.summaries:
            return self.summaries[key]
        # not verified yet: run now (dry) to obtain modifies / outcome kinds
        self.dry += 1
        sv = (self.outer, self.stack, self.this_stack, self.ret_ref, self.verifying, self.light, self.cur, self.verifying_np, getattr(self, 'entry_state', None))
        self.light = True
        self.outer, self.stack, self.this_stack, self.ret_ref = [], [], [], []
        try:
            self.run_verify(f, con, dry=True)
        finally:
            self.outer, self.stack, self.this_stack, self.ret_ref, self.verifying, self.light, self.cur, self.verifying_np, self.entry_state = sv
            self.dry -= 1
        return self.summaries[key]

    verifying_np = None

    def run_verify(self, f, con, dry=False):
        self.verifying = f.key
        self.verifying_np = len(f.params)
        self.cur = f.key
        if not dry:
            self.light = bool(con and con.light)
            self.stepmode = bool(con and con.step)
        st, this = self.entry(f)
        st_entry = st
        c0 = Ctx(self, f, st, st, this, None)
        if con and con.requires:
            fs = [g for _, g in con.requires(c0)]
            st = st.with_fact(*fs)
        self.entry_state = st
        outs = self.run_func(st, f, this, [((p.id, ()), None, None) for p in f.params])
        mods = {}
        for o in outs:
            s = o[1]
            if this is not None:
                for path, v in deep_mem_keys(s.mem['this']):
                    try:
                        v0 = get_path(st.mem['this'], path)
                    except Exception:
                        raise Unsupported('shape change of object')
                    if not same_val(v0, v):
                        mods[('this', path)] = True
            for n, p in enumerate(f.params):
                if p.ty.rstrip().endswith('&') or 'Ref<' in p.ty:
                    if s.mem[p.id] is st.mem[p.id]:
                        continue
                    for path, v in deep_mem_keys(s.mem[p.id]):
                        if not same_val(get_path(st.mem[p.id], path), v):
                            mods[(n, path)] = True
        rets = [o for o in outs if o[0] == 'return']
        ths = [o for o in outs if o[0] == 'throw']
        self.summaries[f.key] = dict(mods=mods, returns=bool(rets), throws=bool(ths))
        self.verifying = None
        if dry:
            return outs
        n0 = len(self.obls)
        for o in rets:
            c = Ctx(self, f, st, o[1], this, o[2])
            if con and con.ensures:
                for name, g in con.ensures(c):
                    self.oblige(o[1], f'postcondition of {f.key}: {name}', g, self.prop, f.line)
        for o in ths:
            c = Ctx(self, f, st, o[1], this, None)
            if con and con.throws:
                for name, g in con.throws(c):
                    self.oblige(o[1], f'exceptional postcondition of {f.key}: {name}', g, self.prop, f.line)
        # vacuity: the entry assumptions are satisfiable and some outcome is reachable
        if not feasible(st.facts, 3000):
            self.notes.append(f'VACUOUS precondition of {f.key}')
        if outs and not any(feasible(o[1].facts, 3000) for o in outs):
            self.notes.append(f'VACUOUS: no reachable outcome of {f.key}')
        self.under_contract[f.key] = dict(file=f.file, line=f.line, paths=len(outs), obligations=len(self.obls) - n0)
        return outs
