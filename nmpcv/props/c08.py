"""C08: free set, factorization, Newton step and line search of the box QP are consistent."""
from .boxqp import *
from .. import prove as pv, terms as tm
from ..prove import NCNT, count_lemmas

pv.USE_COUNT = True


def intarr(lst):
    lf = next(iter(lst.leaves.values()))
    return lf['t'] if isinstance(lf, dict) else lf


class C08(BoxSpec):
    ignore = frozenset([])
    nest_rounds = True

    def __init__(self):
        super().__init__()
        self.tmpl = {}
        self.part = 'a'
        self.seen = False
        self.contracts['BoxQP::solve'] = Contract('BoxQP::solve', 5, requires=self.pre, ensures=self.post, step=True)
        self.contracts['BoxQP::solve (step)'] = Contract('BoxQP::solve', 5, requires=self.pre_b, ensures=self.post_b, step=True)

    def kinds_for(self, fn, depth):
        return frozenset(['dim', 'bound']) if depth == 1 or self.part == 'a' else frozenset(['dim', 'bound', 'eff'])

    def pre(self, c):
        self.f = c.f
        cf = lambda n: c.o.t('config_', n)
        return self.solve_pre(c) + [('positive iteration limit', cf('max_iter') >= 1), ('step factor', z3.And(cf('step_factor') > 0, cf('step_factor') < 1)), ('minimum step', cf('min_step') > 0)]

    def pre_b(self, c):
        self.part = 'b'
        return self.pre(c)

    def post_b(self, c):
        if c.eng.verifying is None and not c.eng.dry and not self.seen:
            raise Unsupported('no iteration that takes a step found')
        return [('counting lemma: ' + n, z3.BoolVal(ok)) for n, ok in count_lemmas()]

    # ---- one iteration that takes a step
    def taken(self, eng, head, end):
        """the current point after the iteration (the changed local vector the record does not keep)"""
        this = eng.root_this
        a, b = View(eng, head, this), View(eng, end, this)
        x0 = b.el(('trace_data_list_',), a.v('trace_data_list_').n, 'x').t
        c = [r for r, x in end.mem.items() if r != 'this' and isinstance(x, Mat) and x.vec and r in head.mem and head.mem[r].t.eq(x0) and not x.t.eq(x0)]
        return c

    def step_obls(self, eng, st0, head, end):
        this = eng.root_this
        a, b = View(eng, head, this), View(eng, end, this)
        T = ('trace_data_list_',)
        m = a.v('trace_data_list_').n
        n = a.t('var_dim_')
        rec = lambda f: b.el(T, m, f)
        H, g, lo, hi = (self.param(eng, k).t for k in (P_H, P_G, P_LO, P_HI))
        x0, d = rec('x').t, rec('search_dir').t
        cur = self.taken(eng, head, end)
        if len(cur) != 1:
            raise Unsupported('current point not identified')
        x1 = end.mem[cur[0]].t
        self.seen = True
        q = fresh_int('q')
        out = [('recorded direction is zero on clamped coordinates', Forall([q], z3.And(q >= 0, q < n, self.held(eng, x0, q)), [elem(d, q) == 0]))]
        w = fresh_int('q')
        out.append(('recorded clamped flags are those of the recorded point', Forall([w], z3.And(w >= 0, w < n), [z3.Select(rec('clamped_flag').arr, w) == self.held(eng, x0, w)])))
        # the point taken: a sufficient decrease along the projected direction
        gr = madd(g, mul(H, x0))
        sdg = dot(d, gr)
        obj = lambda x: self.obj(eng, x)
        steps = [x.t for r, x in end.mem.items() if isinstance(x, Num) and z3.is_real(x.t) and r != 'this']
        ok = []
        for t in steps:
            pr = self.proj(eng, x1, x0, t, d, n)
            if prove(end.facts, pr, timeout=3000, use_closure=False):
                out.append(('the next point is the projection of a step along the recorded direction', pr))
                out.append(('the step length is positive', t > 0))
                out.append(('sufficient decrease, or the line search is reported as exhausted', z3.Or(b.t('retval_') == 2, sdg >= 0, obj(x1) - obj(x0) <= a.t('config_', 'armijo_param') * t * sdg)))
                break
        else:
            out.append(('the next point is the projection of a step along the recorded direction', z3.BoolVal(False)))
        return out + self.newton(eng, end, b, rec('clamped_flag').arr, x0, d, n)

    def newton(self, eng, end, b, flag, x0, d, n):
        """(H restricted to the free indices) (direction + point)_free = -(gradient vector_free + H_free,clamped point_clamped);
        the restricted vectors and matrices are looked up among the locals and pinned down element by element"""
        H, g = (self.param(eng, k).t for k in (P_H, P_G))
        G = self.G(b)
        fl = b.v('free_idxs_')
        f, m = intarr(fl), fl.n
        vecs = [x.t for r, x in end.mem.items() if r != 'this' and isinstance(x, Mat) and x.vec]
        mats = [x.t for r, x in end.mem.items() if r != 'this' and isinstance(x, Mat) and not x.vec]
        lists = [x for r, x in end.mem.items() if r != 'this' and isinstance(x, Lst) and len(x.leaves) == 1 and z3.is_int(z3.Select(intarr(x), ZERO_I))]
        k = fresh_int('k')
        S = lambda i: z3.Select(f, i)

        def find(pool, fa):
            for v in reversed(pool):
                w = fa(v)
                if prove(end.facts, w, timeout=1500, use_closure=False):
                    return v, w
            return None, None
        gat = lambda src, lst, cnt: lambda v: Forall([k], z3.And(k >= 0, k < cnt), [elem(v, k) == elem(src, z3.Select(lst, k))])
        s, ws = find(vecs, gat(d, f, m))
        xf, wx = find(vecs, gat(x0, f, m))
        gf, wg = find(vecs, gat(g, f, m))
        for c in lists:
            ca = intarr(c)
            xc, wc = find(vecs, gat(x0, ca, c.n))
            i, j = fresh_int('a'), fresh_int('b')
            M, wm = find(mats, lambda v: Forall([i, j], z3.And(i >= 0, i < m, j >= 0, j < c.n), [elem2(v, i, j) == elem2(H, z3.Select(f, i), z3.Select(ca, j))]))
            if any(q is None for q in (s, xf, gf, xc, M)):
                continue
            out = [('free part of the direction', ws), ('free part of the point', wx), ('free part of the gradient vector', wg), ('clamped part of the point', wc), ('free-clamped block of the Hessian', wm)]
            out += [(f'the clamped coordinates are listed ({n_})', q) for n_, q in enumerate(self.listed(ca, c.n, flag, n, True))]
            out.append(('the direction is the Newton step of the reduced problem', mul(G.t, madd(s, xf)) == mscale(num(-1), madd(gf, mul(M, xc)))))
            return out
        raise Unsupported('restricted vectors of the Newton step not identified')

    def loop_step(self, eng, st0, head, end, line):
        if self.part != 'b' or len(eng.stack) != 1 or eng.outer:
            return []
        return self.step_obls(eng, st0, head, end)

    def loop_exit(self, eng, st0, head, end, how, line):
        if self.part != 'b' or len(eng.stack) != 1 or eng.outer:
            return []
        rv = View(eng, end, eng.root_this).t('retval_')
        if self.taken(eng, head, end):
            return self.step_obls(eng, st0, head, end)
        return [('the loop is left without a step only with a code that says so', z3.And(rv != 1, rv != 2, rv != 0))]

    # ---- vocabulary
    def held(self, eng, x, j):
        H, g, lo, hi = (self.param(eng, k).t for k in (P_H, P_G, P_LO, P_HI))
        gr = madd(g, mul(H, x))
        a = elem(x, j)
        return z3.Or(z3.And(a == elem(lo, j), elem(gr, j) > 0), z3.And(a == elem(hi, j), elem(gr, j) < 0))

    def listed(self, arr, m, flag, upto, neg=False):
        """the list enumerates the (un)flagged indices below upto in increasing order"""
        k, p = fresh_int('k'), fresh_int('p')
        R_ = (lambda q: q - NCNT(flag, q)) if neg else (lambda q: NCNT(flag, q))
        F = lambda q: z3.Select(flag, q) if neg else z3.Not(z3.Select(flag, q))
        e = z3.Select(arr, k)
        return [m == R_(upto), Forall([k], z3.And(k >= 0, k < m), [z3.And(e >= 0, e < upto, F(e), R_(e) == k)], 'listed')]

    def G(self, v):
        o = v.v('llt_free_')
        return o.d['v'].d['G'] if isinstance(o, Obj) and isinstance(o.d.get('v'), Obj) and 'G' in o.d['v'].d else None

    def factor(self, eng, v):
        G = self.G(v)
        if G is None:
            return None
        H = self.param(eng, P_H).t
        arr, m = intarr(v.v('free_idxs_')), v.v('free_idxs_').n
        a, b = fresh_int('a'), fresh_int('b')
        return [Forall([a, b], z3.And(a >= 0, a < m, b >= 0, b < m), [elem2(G.t, a, b) == elem2(H, z3.Select(arr, a), z3.Select(arr, b))], 'factor'),
                G.rows == m, z3.Not(LLTFAIL(canon(G.t)))]

    def post(self, c):
        out = [('counting lemma: ' + n, z3.BoolVal(ok)) for n, ok in count_lemmas()]
        n, rv = c.o.t('var_dim_'), c.n.t('retval_')
        m = c.n.v('trace_data_list_').n
        l = c.n.v('free_idxs_')
        arr = intarr(l)
        rec = lambda k: c.n.el(('trace_data_list_',), k, 'x').t
        flags = [x.arr for r, x in c.new.mem.items() if isinstance(x, BArr)]
        for nm_, when, x in (('gradient tolerance or all clamped', z3.Or(rv == 5, rv == 6), c.ret.t), ('step taken last', z3.Or(rv == 1, rv == 2), rec(m - 1)), ('no improvement', rv == 4, rec(m - 2))):
            k, p = fresh_int('k'), fresh_int('p')
            e = z3.Select(arr, k)
            out.append((f'every free index is in range and not clamped at the last gradient evaluation ({nm_})', Forall([k], z3.And(when, k >= 0, k < l.n), [z3.And(e >= 0, e < n, z3.Not(self.held(c.eng, x, e)))])))
            if flags:
                w = [z3.And(NCNT(f, p) < l.n, z3.Select(arr, NCNT(f, p)) == p) for f in flags]
                out.append((f'every coordinate not clamped at the last gradient evaluation is listed ({nm_})', Forall([p], z3.And(when, p >= 0, p < n, z3.Not(self.held(c.eng, x, p))), [z3.Or(*w)])))
            else:
                raise Unsupported('no clamped flags found')
        a, b = fresh_int('a'), fresh_int('b')
        out.append(('free indices increase', Forall([a, b], z3.And(rv > 0, a >= 0, a < b, b < l.n), [z3.Select(arr, a) < z3.Select(arr, b)])))
        fa = self.factor(c.eng, c.n)
        if fa is None:
            raise Unsupported('factorization object not found')
        for nm_, f in zip(('entries of the factorized matrix', 'size of the factorized matrix', 'the factorization succeeded'), fa):
            g = z3.And(rv > 0, l.n > 0)
            z = fresh_int('z')      # any member of the (non-empty) list; members are in range by the obligation above
            mem = z3.And(g, z >= 0, z < l.n, z3.Select(arr, z) < n)
            out.append(('exposed factorization: ' + nm_, Forall(f.vs, z3.And(f.guard, g), f.body) if isinstance(f, Forall) else Forall([z], mem, [f])))
        return out

    # ---- invariants
    def loop_invariants(self, eng, st0):
        if eng.cur != 'BoxQP::solve':
            return []
        this = eng.root_this
        V = lambda st: View(eng, st, this)
        ch = {k[0] for k in eng.cand_cells}
        n = V(st0).t('var_dim_')
        out = []
        flags = [r for r, x in st0.mem.items() if isinstance(x, BArr) and r != 'this']
        if len(eng.outer) == 1:
            started = lambda st: V(st).v('trace_data_list_').n >= 2
            for r, x in st0.mem.items():
                if r != 'this' and r in ch and isinstance(x, (Mat, BArr)):
                    out.append((f'{eng.vname(r)} has the dimension', (lambda r: lambda st: [(st.mem[r].n if isinstance(st.mem[r], BArr) else st.mem[r].rows) == n])(r)))
                if r != 'this' and r in ch and isinstance(x, Num) and z3.is_int(x.t):
                    out.append((f'{eng.vname(r)} counts the records', (lambda r: lambda st: [V(st).v('trace_data_list_').n == st.mem[r].t])(r)))
            out.append(('still running', lambda st: [V(st).t('retval_') == 0]))
            if self.part == 'b':
                for t, y in st0.mem.items():
                    for c, x in st0.mem.items():
                        if t != 'this' and c != 'this' and t in ch and c in ch and isinstance(y, Num) and z3.is_real(y.t) and isinstance(x, Mat) and x.vec:
                            out.append((f'{eng.vname(t)} is the objective of {eng.vname(c)}', (lambda t, c: lambda st: [st.mem[t].t == self.obj(eng, st.mem[c].t)])(t, c)))
            for r in flags:
                if r not in ch:
                    continue

                def li(st, r=r):
                    l = V(st).v('free_idxs_')
                    fs = self.listed(intarr(l), l.n, st.mem[r].arr, n)
                    return [z3.Implies(started(st), f) if not isinstance(f, Forall) else Forall(f.vs, z3.And(f.guard, started(st)), f.body, f.name) for f in fs]
                out.append((f'free set lists the complement of {eng.vname(r)}', li))

                def fl(st, r=r):
                    q = fresh_int('q')
                    x = V(st).el(('trace_data_list_',), V(st).v('trace_data_list_').n - 1, 'x').t
                    return [Forall([q], z3.And(started(st), q >= 0, q < n), [z3.Select(st.mem[r].arr, q) == self.held(eng, x, q)], 'flags')]
                out.append((f'{eng.vname(r)} marks the clamped coordinates of the last record', fl))
            if self.part == 'b':
                out.append(('the factorization succeeded', lambda st: [z3.Implies(started(st), z3.Not(LLTFAIL(canon(self.G(V(st)).t))))] if self.G(V(st)) is not None else []))
            elif self.G(V(st0)) is not None:
                def fa(st):
                    fs = self.factor(eng, V(st))
                    return [z3.Implies(started(st), f) if not isinstance(f, Forall) else Forall(f.vs, z3.And(f.guard, started(st)), f.body, f.name) for f in fs]
                out.append(('factorization of the free block', fa))
        else:
            ints = [r for r, x in st0.mem.items() if r in ch and isinstance(x, Num) and z3.is_int(x.t)]
            lists = [(k[0], k[1][:-1]) for k in eng.cand_cells if k[1] and k[1][-1] == ('len',)]
            for r in flags:
                if r in ch:
                    continue
                for iv in ints:
                    for (lr, lp) in lists:
                        for neg in (False, True):
                            if not self.plausible(eng, lr, lp, r, neg):
                                continue

                            def li(st, r=r, iv=iv, lr=lr, lp=lp, neg=neg):
                                l = get_path(st.mem[lr], lp)
                                return self.listed(intarr(l), l.n, st.mem[r].arr, st.mem[iv].t, neg)
                            out.append((f'{eng.vname(lr)} lists {"the flagged" if neg else "the free"} {eng.vname(r)}', li))
            out += self.gathers(eng, st0, ch, ints)
            if self.part == 'b':
                out += self.scatter(eng, st0, ch, ints, flags)
                out += self.search(eng, st0, ch, n)
        return out

    def scatter(self, eng, st0, ch, ints, flags):
        """vector filled through an index list: entries off the list keep zero, listed entries are as written"""
        out = []
        for r, x in st0.mem.items():
            if r == 'this' or r not in ch or not isinstance(x, Mat) or not x.vec or not ints:
                continue
            ws = vec_writes(eng, r)
            for w, val in ws:
                if w.eq(eng.cand_i):
                    continue
                ic = eng.cand_i

                def wr(st, r=r, w=w, val=val, ic=ic):
                    k = fresh_int('k')
                    S = lambda t: z3.substitute(t, (ic, k))
                    return [Forall([k], z3.And(k >= 0, k < st.mem[ints[0]].t), [elem(st.mem[r].t, S(w)) == S(val)], 'scattered')]
                out.append((f'{eng.vname(r)} filled through the index list', wr))
                for f in flags:
                    def zero(st, r=r, f=f):
                        q = fresh_int('q')
                        return [Forall([q], z3.And(q >= 0, z3.Select(st.mem[f].arr, q)), [elem(st.mem[r].t, q) == 0], 'zero')]
                    out.append((f'{eng.vname(r)} zero where {eng.vname(f)}', zero))
        return out

    def proj(self, eng, x1, x0, t, d, n):
        lo, hi = (self.param(eng, k).t for k in (P_LO, P_HI))
        p = fresh_int('q')
        v = elem(madd(x0, mscale(t, d)), p)
        l, h = elem(lo, p), elem(hi, p)
        return Forall([p], z3.And(p >= 0, p < n), [elem(x1, p) == z3.If(v > h, h, z3.If(v < l, l, v))], 'projected')

    def obj(self, eng, x):
        H, g = (self.param(eng, k).t for k in (P_H, P_G))
        return scanon(dot(x, g) + z3.RealVal('1/2') * dot(x, mul(H, x)))

    def search(self, eng, st0, ch, n):
        """backtracking loop: the candidate is the projected step for the current step length, with its objective"""
        out = []
        vecs = [r for r, x in st0.mem.items() if r != 'this' and isinstance(x, Mat) and x.vec]
        reals = [r for r, x in st0.mem.items() if r != 'this' and r in ch and isinstance(x, Num) and z3.is_real(x.t)]
        if not reals:
            return []
        out.append(('still running', lambda st: [View(eng, st, eng.root_this).t('retval_') == 0]))
        for t in reals:
            out.append((f'{eng.vname(t)} positive', (lambda t: lambda st: [st.mem[t].t > 0])(t)))
        for c in vecs:
            if c not in ch:
                continue
            rel = related(st0.facts, st0.mem[c].t)
            for t in reals:
                out.append((f'{eng.vname(t)} is the objective of {eng.vname(c)}', (lambda t, c: lambda st: [st.mem[t].t == self.obj(eng, st.mem[c].t)])(t, c)))
                for x in vecs:
                    for d in vecs:
                        if x in ch or d in ch or x == d or not (mentions(rel, st0.mem[x].t) and mentions(rel, st0.mem[d].t)):
                            continue
                        fn = (lambda c, x, t, d: lambda st: [self.proj(eng, st.mem[c].t, st.mem[x].t, st.mem[t].t, st.mem[d].t, n)])(c, x, t, d)
                        if prove(st0.facts, fn(st0)[0], timeout=1500, use_closure=False):
                            out.append((f'{eng.vname(c)} is the projected step', fn))
        return out

    def plausible(self, eng, lr, lp, r, neg):
        """some iteration that appends to the list does so under the (un)set flag"""
        h = eng.cand_head
        f = z3.Select(h.mem[r].arr, eng.cand_i)
        for cs in eng.cand_conts:
            if not get_path(cs.mem[lr], lp).n.eq(get_path(h.mem[lr], lp).n):
                if not quick_prove(cs.facts, f if neg else z3.Not(f)):
                    return False
        return True

    def gathers(self, eng, st0, ch, ints):
        """element-by-element filling of a matrix by (nested) loops: templates from the observed writes"""
        out = []
        for r, x in st0.mem.items():
            if r == 'this' or r not in ch or not isinstance(x, Mat) or x.vec or (self.part == 'a') != (x.rows.eq(x.cols)):
                continue
            for w1, w2, val in elem_writes(eng, r):
                ic = eng.cand_i
                self.tmpl[r] = (w1, w2, val, ic)

                def row_(st, r=r, w1=w1, w2=w2, val=val, ic=ic):
                    b, a, c = fresh_int('b'), fresh_int('a'), fresh_int('c')
                    S = lambda t, k: z3.substitute(t, (ic, k))
                    return [Forall([b], z3.And(b >= 0, b < st.mem[ints[0]].t), [elem2(st.mem[r].t, S(w1, b), S(w2, b)) == S(val, b)]),
                            Forall([a, c], a != w1, [elem2(st.mem[r].t, a, c) == elem2(st0.mem[r].t, a, c)], 'other rows')]
                if ints:
                    out.append((f'{eng.vname(r)} row filled', row_))
            if r in self.tmpl and not elem_writes(eng, r) and ints:
                w1, w2, val, ic = self.tmpl[r]
                oc = eng.cand_i

                def all_(st, r=r, w1=w1, w2=w2, val=val, ic=ic, oc=oc):
                    a, b = fresh_int('a'), fresh_int('b')
                    S = lambda t: z3.substitute(t, (oc, a), (ic, b))
                    return [Forall([a, b], z3.And(a >= 0, a < st.mem[ints[0]].t, b >= 0, b < st.mem[r].cols), [elem2(st.mem[r].t, S(w1), S(w2)) == S(val)])]
                out.append((f'{eng.vname(r)} filled up to the current row', all_))
        return out


def related(facts, t):
    """ids of the terms in the quantified facts about t, and in t itself"""
    out = set()
    for f in facts:
        if isinstance(f, Forall):
            l = pv.subnodes([f.guard] + list(f.body))
            ids = {x.id for x in l}
            if pv.node(t).id in ids or (t.num_args() and pv.node(t.arg(0)).id in ids):
                out |= ids
    return out | {x.id for x in pv.subnodes([t])}


def mentions(rel, t):
    return pv.node(t).id in rel or (t.num_args() > 0 and tm.nm(t) == 'vecof' and pv.node(t.arg(0)).id in rel)


def vec_writes(eng, r):
    out = []
    for cs in eng.cand_conts:
        a, b = eng.cand_head.mem.get(r), cs.mem.get(r)
        if isinstance(a, Mat) and isinstance(b, Mat) and all(z3.is_app(x.t) and tm.nm(x.t) == 'vecof' for x in (a, b)):
            w = store_idx(b.t.arg(0), a.t.arg(0))
            if w and len(w) == 1:
                out.append(w[0])
    return out


def elem_writes(eng, r):
    out = []
    for cs in eng.cand_conts:
        a, b = eng.cand_head.mem.get(r), cs.mem.get(r)
        if isinstance(a, Mat) and isinstance(b, Mat) and all(z3.is_app(x.t) and tm.nm(x.t) == 'matof' for x in (a, b)):
            w = store_idx(b.t.arg(0), a.t.arg(0))
            if w and len(w) == 1:
                i, rowarr = w[0]
                w2 = store_idx(rowarr, z3.Select(a.t.arg(0), i))
                if w2 and len(w2) == 1:
                    out.append((i, w2[0][0], w2[0][1]))
    return out


SPEC = C08
