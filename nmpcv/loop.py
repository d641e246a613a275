"""Loop rule: invariants are inferred from the body's own symbolic effect (candidates), filtered by Houdini
(initiation + consecution, each a discharged proof obligation), then the body is verified once from an
arbitrary iteration under the surviving invariant."""
import time
from .evalx import *
from .evalx import Eval as _Eval
from . import prove as pv
from .prove import quick_prove

HOUDINI_TIMEOUT = 2500
import os
TRACE = os.environ.get('NMPCV_TRACE')
DBG = os.environ.get('NMPCV_DEBUG')


class Cell:
    __slots__ = ('key', 'mode', 'H', 'A', 'd', 'extra', 'sym')

    def __init__(s, key):
        s.key, s.mode, s.H, s.A, s.d, s.extra, s.sym = key, None, None, None, None, {}, False


def has(t, ids):
    return has_any(t, frozenset(ids))


_ha = {}


def has_any(t, ids):
    k = (t.get_id(), ids)
    if k in _ha:
        return _ha[k][0]
    r = t.get_id() in ids or any(has_any(c, ids) for c in t.children())
    _ha[k] = (r, t)
    return r


def deep_mem_keys(v, path=()):
    if isinstance(v, Struct):
        for n, x in v.f.items():
            yield from deep_mem_keys(x, path + (n,))
    elif isinstance(v, Lst):
        yield path + (('len',),), Num(v.n)
        for lp, lf in v.leaves.items():
            if lf['k'] != 'opaque':
                yield path + (('leaf', lp),), lf
    elif isinstance(v, Tup):
        for n, x in enumerate(v.a):
            yield from deep_mem_keys(x, path + (('tup', n),))
    else:
        yield path, v


def same_val(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, Num):
        return a.t.eq(b.t) and ((a.nan is None) == (b.nan is None)) and (a.nan is None or a.nan.eq(b.nan))
    if isinstance(a, Mat):
        return a.t.eq(b.t) and eqt(a.rows, b.rows) and eqt(a.cols, b.cols) and eqt(a.nan, b.nan)
    if isinstance(a, BArr):
        return a.arr is not None and b.arr is not None and a.arr.eq(b.arr) and eqt(a.n, b.n)
    if isinstance(a, dict):
        return all(eqt(a.get(q), b.get(q)) for q in ('t', 'r', 'c', 'nan'))
    if isinstance(a, Obj):
        if a.k == b.k == 'box':
            return same_val(a.d['v'], b.d['v'])
        if a.k == b.k == 'dec':
            return same_val(a.d['G'], b.d['G'])
        return a.k == b.k and a.k in ('opaque', 'void', 'null')
    return False


def eqt(a, b):
    if a is None or b is None:
        return a is b
    return a.eq(b)


def get_path(v, path):
    for p in path:
        if isinstance(p, str):
            v = v.f[p]
        elif p[0] == 'len':
            return Num(v.n)
        elif p[0] == 'leaf':
            return v.leaves[p[1]]
        elif p[0] == 'tup':
            v = v.a[p[1]]
    return v


def set_path(v, path, x):
    if not path:
        return x
    p = path[0]
    if isinstance(p, str):
        return v.upd(p, set_path(v.f[p], path[1:], x))
    if p[0] == 'len':
        return Lst(v.ety, x.t, v.leaves)
    if p[0] == 'leaf':
        d = dict(v.leaves)
        d[p[1]] = x
        return Lst(v.ety, v.n, d)
    if p[0] == 'tup':
        a = list(v.a)
        a[p[1]] = set_path(a[p[1]], path[1:], x)
        return Tup(a)


def store_idx(a, base, out=None):
    """indices stored on top of base array, or None when not store-over-base"""
    out = []
    while not a.eq(base):
        if a.decl().kind() != z3.Z3_OP_STORE:
            return None
        out.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
    return list(reversed(out))


class Cand:
    __slots__ = ('name', 'f', 'fn', 'kind', 'bel')

    def __init__(s, name, f=None, fn=None, kind='', bel=False):
        s.name, s.f, s.fn, s.kind, s.bel = name, f, fn, kind, bel


class Looper(_Eval):
    use_contract_inv = True
    stepmode = False
    disc = 0
    cand_cells = ()
    done_loops = []     # loops executed so far: (line, entry state, head, exit states, changed cells)
    curloop = None
    ghist = ()        # completed loops with their ghost histories (witnesses for existential postconditions)
    light = False     # no invariants: only which cells change (used for modifies sets and frame-only contracts)

    def one_iter(self, head, cond, inc, body):
        conts, exits, rets = [], [], []
        if cond is None:
            starts = [(head, TRUE)]
        else:
            starts = list(self.ev_cond(head, cond))
        for s1, c in starts:
            if c is THROWN:
                rets.append(('throw', s1, None))
                continue
            if not z3.is_true(c) and self.feas(s1, z3not(c)):
                exits.append(('cond', s1.assume_branch(z3not(c))))
            if z3.is_false(c) or not self.feas(s1, c):
                continue
            s2 = s1.assume_branch(c) if not z3.is_true(c) else s1
            for o in self.exec_body(s2, body):
                if o[0] in ('normal', 'continue'):
                    if inc is None:
                        conts.append(o[1])
                    else:
                        for s3, v in self.ev(o[1], inc):
                            conts.append(s3)
                elif o[0] == 'break':
                    exits.append(('break', o[1]))
                else:
                    rets.append(o)
        return conts, exits, rets

    def loop(self, st0, cond, inc, body, line):
        t_start = time.time()
        if TRACE:
            print('>>' + '  ' * len(self.outer), 'loop', self.stack[-1].key if self.stack else '', line, 'dry', self.dry, flush=True)
        i = self.fresh('i', I)
        cells = {}
        self.outer.append(i)
        self.dry += 1
        self.disc += 1
        try:
            # ---- discover changed cells, affine cells, modes (inner loops without invariants here)
            for rnd in range(8):
                head, _ = self.make_head(st0, cells, i)
                conts, exits, rets = self.one_iter(head, cond, inc, body)
                changed = False
                for cs in conts:
                    for root, v0 in st0.mem.items():
                        v1 = cs.mem.get(root)
                        vh = head.mem[root]
                        if v1 is vh:
                            continue
                        if isinstance(vh, RefV) or isinstance(v1, RefV):
                            raise Unsupported('reference rebinding in loop')
                        hm = dict(deep_mem_keys(vh))
                        n1 = dict(deep_mem_keys(v1))
                        if set(hm) != set(n1):
                            raise Unsupported('shape change in loop')
                        for path, x1 in n1.items():
                            if same_val(hm[path], x1):
                                continue
                            key = (root, path)
                            c = cells.get(key)
                            if c is None:
                                cells[key] = c = Cell(key)
                                changed = True
                            if self.refine_mode(c, get_path(st0.mem[root], path), hm[path], x1):
                                changed = True
                if not conts:
                    break
                if not changed:
                    # affine cells
                    ch2 = self.affine(st0, head, conts, cells, i, cond)
                    if not ch2:
                        break
            else:
                raise Unsupported('loop state does not stabilise')
        finally:
            self.disc -= 1
            self.dry -= 1
            self.outer.pop()
        if TRACE:
            print('  ' + '  ' * len(self.outer), 'stable', line, round(time.time() - t_start, 1), 'cells', [(self.vname(k[0]), k[1], c.mode) for k, c in cells.items()], 'conts', len(conts), 'exits', len(exits), 'rets', len(rets), flush=True)
        if not conts:
            # body never continues: at most one iteration, no invariant needed
            return self.finish(st0, st0, cond, inc, body, [], cells, i, line, None)
        prim = next((c for c in cells.values() if c.mode == 'prim'), None)
        step = prim.d if prim is not None else 1
        i0 = get_path(st0.mem[prim.key[0]], prim.key[1]).t if prim is not None else ZERO_I
        # ---- candidates
        head, hfacts = self.make_head(st0, cells, i)
        base = hfacts + [i >= i0 if step > 0 else i <= i0]
        head = head.with_fact(*base)
        if self.light or self.disc:
            return self.finish(st0, head, cond, inc, body, [], cells, i, line, step)
        self.outer.append(i)
        self.dry += 1
        try:
            conts, exits, rets = self.one_iter(head, cond, inc, body)
            conts = [self.hist_facts(c, head, cells, i, step) for c in conts]
            cands = self.candidates(st0, head, conts, cells, i, i0, step)
            kinds = self.spec.kinds_for(self.cur, len(self.outer)) if self.stepmode else None
            if kinds is not None:
                # the property of this loop is stated per iteration (loop_step); only simple invariants are inferred
                cands = [c for c in cands if c.kind in kinds or c.bel]   # element effects on flag arrays are always kept
            self.cand_conts, self.cand_i, self.cand_head = conts, i, head
            cc = self.contract_cands(st0, head, cells)
            if DBG:
                print('   cc', line, len(cc), type(body), kinds)
            good = None
            if cc and kinds is not None and self.nested_loops(body):
                # inner loops see the contract's invariants: assume all, execute, keep what is preserved, repeat
                cc = self.holds_at_entry(st0, head, cc, i)
                if DBG:
                    print('   entry', line, [c.name for c in cc])
                for _ in range(4):
                    ha = head.with_fact(*[f for c in cc for f in c.fn(head)])
                    c2, _e, _r = self.one_iter(ha, cond, inc, body)
                    c2 = [self.hist_facts(c, ha, cells, i, step) for c in c2]
                    cands2 = [c for c in self.candidates(st0, ha, c2, cells, i, i0, step) if c.kind in kinds or c.bel]
                    good = self.houdini(st0, head, c2, cands2 + cc, cells, i, i0, step)
                    left = [c for c in cc if any(c is g for g in good)]
                    if len(left) == len(cc):
                        break
                    cc = left
                else:
                    good = None
                    cc = []
            if good is None:
                good = self.houdini(st0, head, conts, cands + cc, cells, i, i0, step)
            if any(c.kind == 'again' for c in good) or self.has_inner(conts) or True:
                # second round: the surviving facts may enable more (contract calls, inner loops)
                h2 = head.with_fact(*[c.f if c.f is not None else None for c in good if c.f is not None])
                h2 = h2.with_fact(*[f for c in good if c.fn is not None for f in c.fn(head)])
                if self.rich_body(body):
                    c2, e2, r2 = self.one_iter(h2, cond, inc, body)
                    c2 = [self.hist_facts(c, h2, cells, i, step) for c in c2]
                    cands2 = self.candidates(st0, h2, c2, cells, i, i0, step)
                    names = {self.ckey(c) for c in good}
                    new = [c for c in cands2 if self.ckey(c) not in names]
                    good = self.houdini(st0, head, c2, good + new, cells, i, i0, step, assume_first=good)
        finally:
            self.dry -= 1
            self.outer.pop()
        if TRACE:
            print('<<' + '  ' * len(self.outer), 'loop', line, round(time.time() - t_start, 1), 'cands', len(cands), 'kept', len(good), flush=True)
        self.ghist.append(dict(fn=self.stack[-1].key if self.stack else '', line=line, cells=cells, st0=st0, i=i, i0=i0, step=step))
        self.loops.append(dict(fn=self.stack[-1].key if self.stack else '', line=line, cands=len(cands), kept=len(good), t=round(time.time() - t_start, 2),
                               inv=[c.name for c in good]))
        h = head.with_fact(*[c.f for c in good if c.f is not None])
        h = h.with_fact(*[f for c in good if c.fn is not None for f in c.fn(head)])
        return self.finish(st0, h, cond, inc, body, good, cells, i, line, step)

    def join(self, states):
        """light mode: one state covering all of them (differing cells become arbitrary)"""
        a = states[0]
        roots = set(a.mem)
        for b in states[1:]:
            roots &= set(b.mem)
        mem, facts = {}, []
        for r in roots:
            v = a.mem[r]
            for b in states[1:]:
                w = b.mem[r]
                if w is v:
                    continue
                if isinstance(v, RefV) or isinstance(w, RefV):
                    if isinstance(v, RefV) and isinstance(w, RefV) and str(v.loc) == str(w.loc):
                        continue
                    return None
                kv, kw = dict(deep_mem_keys(v)), dict(deep_mem_keys(w))
                if set(kv) != set(kw):
                    return None
                for path, x in kw.items():
                    y = get_path(v, path)
                    if same_val(y, x):
                        continue
                    if isinstance(x, Obj) or isinstance(y, Obj):
                        if path:
                            v = set_path(v, path, Obj('opaque'))
                        else:
                            v = Obj('opaque')
                    else:
                        from .spec import havoc_path, havoc_val
                        v = havoc_path(self, v, path, 'j', facts) if path else havoc_val(self, v, 'j', facts)
            mem[r] = v
        ids = None
        for b in states:
            d = {id(f): f for f in b.facts}
            ids = d if ids is None else {k: f for k, f in ids.items() if k in d}
        bl = a.branch
        for b in states[1:]:
            n = 0
            while n < min(len(bl), len(b.branch)) and bl[n] is b.branch[n]:
                n += 1
            bl = bl[:n]
        return State(mem, list(ids.values()) + facts, bl)

    def rich_body(self, body):
        return False

    def nested_loops(self, body):
        """loops in the body, directly or (conservatively) in functions it calls"""
        if getattr(self.spec, 'nest_rounds', False):
            return True
        todo = [body]
        while todo:
            n = todo.pop()
            if isinstance(n, (list, tuple)):
                todo += n
            elif isinstance(n, S):
                if n.k in ('for', 'do', 'range'):
                    return True
                todo += n.a
        return False

    def has_inner(self, conts):
        return False

    def ckey(self, c):
        return (c.name, str(c.f) if c.f is not None else id(c.fn))

    def finish(self, st0, head, cond, inc, body, good, cells, i, line, step):
        self.outer.append(i)
        try:
            conts, exits, rets = self.one_iter(head, cond, inc, body)
        finally:
            self.outer.pop()
        self.done_loops.append((line, st0, head, [s for _, s in exits], cells))
        outs = []
        if conts and not self.dry and not self.light:
            prim = next((c for c in cells.values() if c.mode == 'prim'), None)
            self.curloop = dict(i=i, step=step, i0=get_path(st0.mem[prim.key[0]], prim.key[1]).t if prim is not None else ZERO_I, cells=cells, line=line, exits=exits)
            for n, cs in enumerate(conts):
                for name, g in self.spec.loop_step(self, st0, head, cs, line):
                    self.oblige(cs, f'loop step: {name}', g, self.prop, line)
        if not self.dry and not self.light:
            for k, s in exits:
                for name, g in self.spec.loop_exit(self, st0, head, s, k, line):
                    self.oblige(s, f'loop exit: {name}', g, self.prop, line)
        for k, s in exits:
            m = {r: v for r, v in s.mem.items() if r in st0.mem}
            outs.append(('normal', State(m, s.facts, s.branch), None))
        for o in rets:
            outs.append(o)
        return outs

    # ---------------------------------------------------------------- cell handling
    def refine_mode(self, c, v0, vh, v1):
        """choose havoc mode from an observed update; True when it changes"""
        old = c.mode
        if isinstance(v1, Num):
            c.mode = c.mode or 'num'
        elif isinstance(v1, Mat):
            m = 'whole'
            t = v1.t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) in ('vecof', 'colsof', 'rowsof', 'matof'):
                a = t.arg(0)
                while a.decl().kind() == z3.Z3_OP_STORE:
                    a = a.arg(0)
                if isinstance(vh, Mat):
                    # element-wise update of the head value
                    ht = vh.t
                    hb = None
                    if z3.is_app(ht) and ht.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(ht) == tm.nm(t):
                        hb = ht.arg(0)
                    if hb is not None and a.eq(hb):
                        m = tm.nm(t)
                    elif hb is None and t.arg(0).decl().kind() == z3.Z3_OP_STORE and old in (None, tm.nm(t)):
                        # first observation: head value had no element form
                        m = tm.nm(t)
                    elif old == tm.nm(t):
                        m = 'whole'
            if old is None or (old != m and old != 'whole'):
                c.mode = m
            if not (eqt(vh.rows, v1.rows)) and not c.extra.get('rows'):
                c.extra['rows'] = True
                return True
            if not (eqt(vh.cols, v1.cols)) and not c.extra.get('cols'):
                c.extra['cols'] = True
                return True
            if v1.nan is not None or vh.nan is not None:
                if not c.extra.get('nan'):
                    c.extra['nan'] = True
                    return True
        elif isinstance(v1, BArr):
            m = 'belem' if store_idx(v1.arr, vh.arr) is not None else 'bwhole'
            if old == 'bwhole':
                m = 'bwhole'
            c.mode = m
        elif isinstance(v1, dict):
            c.mode = 'leaf'
        elif isinstance(v1, Obj):
            if v1.k == 'box' and isinstance(v1.d['v'], Obj) and v1.d['v'].k == 'dec':
                c.mode = 'box'
                c.extra['kind'] = v1.d['v'].d['kind']
                c.extra['G'] = v1.d['v'].d['G']
            elif v1.k == 'dec':
                c.mode = 'dec'
                c.extra['kind'] = v1.d['kind']
            else:
                c.mode = 'opaque'
        else:
            raise Unsupported(f'loop changes {v1}')
        return c.mode != old

    def make_head(self, st0, cells, i):
        # cell symbols depend on the enclosing loops' counters, not on this loop's own
        sv = self.outer
        self.outer = [o for o in sv if not o.eq(i)]
        try:
            return self.make_head_(st0, cells, i)
        finally:
            self.outer = sv

    def make_head_(self, st0, cells, i):
        facts = []
        mem = dict(st0.mem)
        prim = next((c for c in cells.values() if c.mode == 'prim'), None)
        i0 = get_path(st0.mem[prim.key[0]], prim.key[1]).t if prim is not None else ZERO_I
        pstep = prim.d if prim is not None else 1
        it = icanon((i - i0) * pstep)
        for key, c in cells.items():
            root, path = key
            v0 = get_path(st0.mem[root], path)
            name = f'{root if isinstance(root, str) and not root.startswith("0x") else "v"}.{".".join(map(str, path))}'
            name = str(path[-1]) if path else self.vname(root)
            if c.mode == 'prim':
                x = Num(i)
            elif c.mode == 'aff':
                if z3.is_int(v0.t):
                    x = Num(icanon(v0.t + it * c.d))
                else:
                    x = Num(scanon(v0.t + z3.ToReal(it) * c.d), v0.nan)
            elif c.mode == 'num':
                if c.H is None:
                    c.H = self.fresh('H_' + name, z3.ArraySort(I, v0.t.sort()))
                    if self.ieee and z3.is_real(v0.t):
                        c.extra['Hn'] = self.fresh('Hn_' + name, AB)
                x = Num(z3.Select(c.H, i), z3.Select(c.extra['Hn'], i) if 'Hn' in c.extra else None)
                facts.append(z3.Select(c.H, i0) == v0.t)
                if 'Hn' in c.extra:
                    facts.append(z3.Select(c.extra['Hn'], i0) == (v0.nan if v0.nan is not None else FALSE))
            elif c.mode in ('whole', 'vecof', 'colsof', 'rowsof', 'matof'):
                x = self.head_mat(c, v0, i, i0, name, facts)
            elif c.mode == 'bwhole':
                if c.H is None:
                    c.H = self.fresh('Hb_' + name, z3.ArraySort(I, AB))
                    c.extra['n'] = self.fresh('Hbn_' + name, AI)
                x = BArr(z3.Select(c.extra['n'], i), arr=z3.Select(c.H, i))
                if v0.arr is not None:
                    facts.append(z3.Select(c.H, i0) == v0.arr)
                facts.append(z3.Select(c.extra['n'], i0) == v0.n)
            elif c.mode == 'belem':
                if c.A is None:
                    c.A = self.fresh('Ab_' + name, AB)
                x = BArr(v0.n, arr=c.A)
            elif c.mode == 'leaf':
                if c.A is None:
                    c.A = {}
                    kd = {'vec': 'v', 'mat': 'm'}.get(v0['k'], 's')
                    for q in ('t', 'r', 'c', 'nan'):
                        if q in v0 and v0[q].decl().kind() != z3.Z3_OP_CONST_ARRAY or (q == 't'):
                            if q in v0:
                                c.A[q] = self.fresh('A_' + name + q, v0[q].sort(), kd if q == 't' else 's')
                x = dict(v0)
                x.update(c.A)
                if 'nan' in c.extra and 'nan' not in x:
                    pass
            elif c.mode in ('box', 'dec'):
                if c.H is None:
                    c.H = self.fresh('HG_' + name, AR, 'm')
                    c.extra['Hr'] = self.fresh('HGr_' + name, AI)
                    c.extra['Hok'] = self.fresh('HGok_' + name, AB)
                rr = z3.Select(c.extra['Hr'], i)
                G = Mat(z3.Select(c.H, i), rr, rr, False, False)
                o = Obj('dec', kind=c.extra['kind'], G=G)
                if c.mode == 'box':
                    x = Obj('box', v=o, nonnull=z3.Select(c.extra['Hok'], i))
                    if isinstance(v0, Obj) and v0.k == 'null':
                        facts.append(z3.Not(z3.Select(c.extra['Hok'], i0)))
                else:
                    x = o
            else:
                x = Obj('opaque')
            mem[root] = set_path(mem[root], path, x)
        return State(mem, st0.facts, st0.branch).with_fact(*facts), []

    def vname(self, root):
        n = self.varnames.get(root)
        return n or str(root)[-6:]


    def head_mat(self, c, v0, i, i0, name, facts):
        rows, cols = v0.rows, v0.cols
        if c.extra.get('rows'):
            if 'Hr' not in c.extra:
                c.extra['Hr'] = self.fresh('Hr_' + name, AI)
            if rows is not None:
                facts.append(z3.Select(c.extra['Hr'], i0) == rows)
            rows = z3.Select(c.extra['Hr'], i)
        if c.extra.get('cols'):
            if 'Hc' not in c.extra:
                c.extra['Hc'] = self.fresh('Hc_' + name, AI)
            if cols is not None:
                facts.append(z3.Select(c.extra['Hc'], i0) == cols)
            cols = z3.Select(c.extra['Hc'], i)
        if c.mode == 'whole':
            if c.H is None:
                c.H = self.fresh('H_' + name, AR, 'v' if v0.vec else 'm')
            facts.append(z3.Select(c.H, i0) == v0.t)
            nan = None
            if c.extra.get('nan'):
                if 'Hn' not in c.extra:
                    c.extra['Hn'] = self.fresh('Hn_' + name, z3.ArraySort(I, AB))
                nan = z3.Select(c.extra['Hn'], i)
            return Mat(z3.Select(c.H, i), rows, cols, v0.arr, v0.vec, nan)
        fs = []
        if c.A is None:
            kd = {'vecof': 's', 'colsof': 'v', 'rowsof': 'v', 'matof': 's'}[c.mode]
            c.A = self.fresh('A_' + name, A2 if c.mode == 'matof' else AR, kd)
        if 'A0' not in c.extra:
            c.extra['A0'] = self.elems0(c.mode, v0, facts)
        if c.mode == 'vecof':
            nan = None
            if c.extra.get('nan'):
                if 'An' not in c.extra:
                    c.extra['An'] = self.fresh('An_' + name, AB)
                nan = c.extra['An']
            return Mat(VOF(c.A, rows), rows, cols, v0.arr, True, nan)
        if c.mode == 'matof':
            return Mat(MOF(c.A, rows, cols), rows, cols, v0.arr, False)
        return Mat((COLSOF if c.mode == 'colsof' else ROWSOF)(c.A, cols if c.mode == 'colsof' else rows), rows, cols, v0.arr, False)

    def elems0(self, mode, v0, facts):
        """element array of the pre-loop value"""
        t = v0.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == mode:
            return t.arg(0)
        if z3.is_rational_value(t):
            return z3.K(I, z3.RealVal(0)) if mode != 'matof' else z3.K(I, z3.K(I, z3.RealVal(0)))
        j = fresh_int('e')
        if mode == 'matof':
            a = self.fresh('el0', A2)
            j2 = fresh_int('e')
            facts.append(Forall([j, j2], TRUE, [z3.Select(z3.Select(a, j), j2) == elem2(t, j, j2)], 'elements'))
            return a
        a = self.fresh('el0', AR, {'vecof': 's', 'colsof': 'v', 'rowsof': 'v'}[mode])
        facts.append(Forall([j], TRUE, [z3.Select(a, j) == {'vecof': elem, 'colsof': col, 'rowsof': row}[mode](t, j)], 'elements'))
        return a

    def affine(self, st0, head, conts, cells, i, cond):
        """turn num cells with constant increments into closed forms; returns True if something changed"""
        ch = False
        has_prim = any(c.mode == 'prim' for c in cells.values())
        cand = []
        for key, c in cells.items():
            if c.mode != 'num' or c.extra.get('notaff'):
                continue
            d = None
            okk = True
            h = get_path(head.mem[key[0]], key[1])
            for cs in conts:
                x = get_path(cs.mem[key[0]], key[1])
                if z3.is_bool(x.t):
                    okk = False
                    break
                dd = (irender(s_add(ipoly(x.t), ipoly(h.t), -1)) if z3.is_int(x.t) else srender(s_add(spoly(x.t), spoly(h.t), -1)))
                if d is not None and not d.eq(dd):
                    okk = False
                    break
                d = dd
            if okk and d is not None and self.loop_invariant_term(d, cells, i):
                cand.append((c, d))
        ints = [(c, d) for c, d in cand if z3.is_int_value(d) and abs(d.as_long()) == 1]
        if ints and not has_prim:
            # prefer a variable that is a plain local over a member/list length
            ints.sort(key=lambda cd: (len(cd[0].key[1]) > 0, str(cd[0].key)))
            c, d = ints[0]
            c.mode, c.d = 'prim', d.as_long()
            return True
        for c, d in cand:
            if c.mode == 'num':
                if z3.is_int(d) and not z3.is_int_value(d):
                    continue
                c.mode = 'aff'
                c.d = d
                ch = True
        return ch

    def loop_invariant_term(self, d, cells, i):
        ids = {i.get_id()}
        for c in cells.values():
            for a in self.cell_syms(c):
                ids.add(a.get_id())
        # fresh functions of i also vary
        return not has(d, ids)

    def cell_syms(self, c):
        out = []
        if c.H is not None:
            out.append(c.H)
        if isinstance(c.A, dict):
            out += list(c.A.values())
        elif c.A is not None:
            out.append(c.A)
        for q in ('Hr', 'Hc', 'Hn', 'An', 'n', 'Hok'):
            if q in c.extra and z3.is_expr(c.extra[q]):
                out.append(c.extra[q])
        return out

    def hist_facts(self, cs, head, cells, i, step):
        """ghost history: H[i+step] = value at the end of this path"""
        fs = []
        nx = icanon(i + step)
        for key, c in cells.items():
            if key[1] and key[1][0] in self.spec.ignore:
                continue
            x = get_path(cs.mem[key[0]], key[1])
            if c.mode == 'num':
                fs.append(z3.Select(c.H, nx) == x.t)
                if 'Hn' in c.extra:
                    fs.append(z3.Select(c.extra['Hn'], nx) == (x.nan if x.nan is not None else FALSE))
            elif c.mode == 'whole':
                fs.append(z3.Select(c.H, nx) == x.t)
                if 'Hr' in c.extra and x.rows is not None:
                    fs.append(z3.Select(c.extra['Hr'], nx) == x.rows)
                if 'Hc' in c.extra and x.cols is not None:
                    fs.append(z3.Select(c.extra['Hc'], nx) == x.cols)
                if 'Hn' in c.extra and x.nan is not None:
                    fs.append(z3.Select(c.extra['Hn'], nx) == x.nan)
            elif c.mode in ('vecof', 'colsof', 'rowsof', 'matof'):
                if 'Hr' in c.extra and x.rows is not None:
                    fs.append(z3.Select(c.extra['Hr'], nx) == x.rows)
                if 'Hc' in c.extra and x.cols is not None:
                    fs.append(z3.Select(c.extra['Hc'], nx) == x.cols)
            elif c.mode == 'bwhole':
                fs.append(z3.Select(c.H, nx) == x.arr)
                fs.append(z3.Select(c.extra['n'], nx) == x.n)
            elif c.mode in ('box', 'dec'):
                d = x.d['v'] if c.mode == 'box' else x
                if isinstance(d, Obj) and d.k == 'dec':
                    fs.append(z3.Select(c.H, nx) == d.d['G'].t)
                    if d.d['G'].rows is not None:
                        fs.append(z3.Select(c.extra['Hr'], nx) == d.d['G'].rows)
                    if c.mode == 'box':
                        fs.append(z3.Select(c.extra['Hok'], nx) == x.d['nonnull'])
        return cs.with_fact(*fs)

    def next_pairs(self, cs, cells, i, step):
        """substitution head symbols -> values at the end of path cs"""
        ps = []
        for key, c in cells.items():
            x = get_path(cs.mem[key[0]], key[1])
            if c.mode == 'leaf':
                for q, a in c.A.items():
                    ps.append((a, x[q]))
            elif c.mode in ('vecof', 'colsof', 'rowsof', 'matof'):
                ps.append((c.A, self.elems_of(c.mode, x)))
                if 'An' in c.extra and x.nan is not None:
                    ps.append((c.extra['An'], x.nan))
            elif c.mode == 'belem':
                ps.append((c.A, x.arr))
        ps.append((i, icanon(i + step)))
        return ps

    def elems_of(self, mode, x):
        t = x.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == mode:
            return t.arg(0)
        if z3.is_rational_value(t):
            return z3.K(I, z3.RealVal(0)) if mode != 'matof' else z3.K(I, z3.K(I, z3.RealVal(0)))
        raise Unsupported('element form lost in loop')

    def entry_pairs(self, st0, cells, i, i0):
        ps = []
        for key, c in cells.items():
            v0 = get_path(st0.mem[key[0]], key[1])
            if c.mode == 'leaf':
                for q, a in c.A.items():
                    if q in v0:
                        ps.append((a, v0[q]))
            elif c.mode in ('vecof', 'colsof', 'rowsof', 'matof'):
                ps.append((c.A, c.extra['A0']))
                if 'An' in c.extra:
                    ps.append((c.extra['An'], v0.nan if v0.nan is not None else z3.K(I, FALSE)))
            elif c.mode == 'belem':
                ps.append((c.A, v0.arr))
        ps.append((i, i0))
        return ps

    # ---------------------------------------------------------------- candidates
    def subst_f(self, f, pairs):
        if isinstance(f, Forall):
            return f.subst(pairs)
        return z3.substitute(f, *pairs)

    def candidates(self, st0, head, conts, cells, i, i0, step):
        out = []
        j = fresh_int('j')
        proc = z3.And(j >= i0, j < i) if step > 0 else z3.And(j <= i0, j > i)
        arrs = {}
        ign = self.spec.ignore
        for key, c in cells.items():
            if key[1] and key[1][0] in ign:
                continue
            if c.mode == 'leaf':
                v0 = get_path(st0.mem[key[0]], key[1])
                for q, a in c.A.items():
                    arrs[a.get_id()] = (a, v0[q], c, q)
            elif c.mode in ('vecof', 'colsof', 'rowsof', 'matof'):
                arrs[c.A.get_id()] = (c.A, c.extra['A0'], c, None)
            elif c.mode == 'belem':
                v0 = get_path(st0.mem[key[0]], key[1])
                arrs[c.A.get_id()] = (c.A, v0.arr, c, None)
        # write indices per array
        writes = {}
        for cs in conts:
            np_ = self.next_pairs(cs, cells, i, step)
            for a, x in np_:
                if a.get_id() in arrs:
                    w = store_idx(x, a)
                    writes.setdefault(a.get_id(), []).append((cs, w))
        multi = len(conts) > 1
        nb, nf = len(head.branch), len(head.facts)
        for pi, cs in enumerate(conts):
            br = cs.branch[nb:]
            guard = z3.And(*br) if br else TRUE
            facts = list(cs.facts[nf:])
            if not multi:
                guard = TRUE
            else:
                facts = [f for f in facts if not any((not isinstance(f, Forall)) and f.eq(b) for b in br)]
            # write effects
            for aid_, lst in writes.items():
                a = arrs[aid_][0]
                for cs2, w in lst:
                    if cs2 is not cs or not w:
                        continue
                    for n, (idx, val) in enumerate(w):
                        later = [x for x, _ in w[n + 1:]]
                        if any(diffconst(x, idx) == 0 for x in later):
                            continue
                        if z3.is_array(val):
                            # matrix element writes: row arrays
                            rw = val
                            while rw.decl().kind() == z3.Z3_OP_STORE:
                                facts.append(('eff', z3.Select(z3.Select(a, idx), rw.arg(1)) == rw.arg(2), False))
                                rw = rw.arg(0)
                        else:
                            facts.append(('eff', z3.Select(a, idx) == val, arrs[aid_][2].mode == 'belem'))
            for f in facts:
                eff = bel = False
                if isinstance(f, tuple):
                    eff, f, bel = True, f[1], f[2]
                for variant in self.variants(f, eff, arrs, writes, i, step):
                    b = self.subst_f(variant, [(i, j)])
                    g = z3.And(proc, z3.substitute(guard, (i, j))) if not z3.is_true(guard) else proc
                    if isinstance(b, Forall):
                        cf = Forall([j] + b.vs, z3.And(g, b.guard), b.body, b.name)
                        nm_ = 'each iteration: ' + (b.name or 'fact')
                    else:
                        cf = Forall([j], g, [b], '')
                        nm_ = ('effect: ' if eff else 'fact: ') + str(b)[:100].replace('\n', ' ')
                    out.append(Cand(nm_, cf, kind='eff' if eff else 'fact', bel=bel))
        if multi:
            gs = []
            for cs in conts:
                br = cs.branch[nb:]
                gs.append(z3.And(*br) if br else TRUE)
            d = z3.substitute(z3.Or(*gs), (i, j))
            out.append(Cand('one of the paths', Forall([j], proc, [d]), kind='path', bel=any(c.mode == 'belem' for c in cells.values())))
        # previous condition held (bound on i); ground
        for cs in conts[:1]:
            pass
        common = None
        for cs in conts:
            s = {f.get_id(): f for f in cs.branch[nb:]}
            common = s if common is None else {k: v for k, v in common.items() if k in s}
        for f in (common or {}).values():
            if not has(f, set(arrs)):
                out.append(Cand('bound', z3.Or(i == i0, z3.substitute(f, (i, icanon(i - step)))), kind='bound'))
        self.push_cands(out, st0, head, conts, cells, i, i0, step)
        # frames
        for aid_, (a, a0, c, q) in arrs.items():
            fr = self.frame(a, a0, writes.get(aid_, []), i, i0, step)
            if fr is not None:
                out.append(Cand('frame ' + str(a), fr, kind='frame', bel=c.mode == 'belem'))
        # numeric cells
        out = self.dedupe(out, len(conts), proc)
        cells = {k: c for k, c in cells.items() if not (k[1] and k[1][0] in ign)}
        for key, c in cells.items():
            if c.mode == 'num' and not z3.is_bool(get_path(st0.mem[key[0]], key[1]).t):
                v0 = get_path(st0.mem[key[0]], key[1]).t
                v = z3.Select(c.H, i)
                out.append(Cand('not below start', v >= v0, kind='mono'))
                out.append(Cand('not above start', v <= v0, kind='mono'))
                if z3.is_real(v):
                    out.append(Cand('positive', v > 0, kind='mono'))
                    out.append(Cand('nonneg', v >= 0, kind='mono'))
                if z3.is_int(v):
                    out.append(Cand('counter', v == v0 + (i - i0) * step, kind='mono'))
                    out.append(Cand('counter bound', v <= v0 + (i - i0) * step, kind='mono'))
                j2 = fresh_int('m')
                rng = z3.And(j2 >= i0, j2 <= i) if step > 0 else z3.And(j2 <= i0, j2 >= i)
                out.append(Cand('increasing', Forall([j2], rng, [z3.Select(c.H, j2) <= v]), kind='mono'))
                out.append(Cand('decreasing', Forall([j2], rng, [z3.Select(c.H, j2) >= v]), kind='mono'))
                self.sum_cand(out, st0, head, conts, cells, c, key, arrs, i, i0, step)
                self.term_cand(out, head, conts, c, key, i, i0, step)
            if c.mode == 'whole':
                pass
            # list leaf dims keep their pre-loop value
        for key, c in cells.items():
            if c.mode == 'whole' and not get_path(st0.mem[key[0]], key[1]).vec:
                v = z3.Select(c.H, i)
                out.append(Cand('symmetric', v == T(v), kind='sym'))
            if c.mode == 'bwhole' or c.mode == 'num' and z3.is_bool(get_path(st0.mem[key[0]], key[1]).t):
                v0 = get_path(st0.mem[key[0]], key[1])
                if c.mode == 'num':
                    out.append(Cand('flag unchanged', z3.Select(c.H, i) == v0.t, kind='mono'))
            for q in ('Hr', 'Hc', 'n'):
                if q in c.extra and z3.is_expr(c.extra[q]):
                    out.append(Cand('dimension kept', z3.Select(c.extra[q], i) == z3.Select(c.extra[q], i0), kind='dim'))
                    out.append(Cand('dimension >= 0', z3.Select(c.extra[q], i) >= 0, kind='dim'))
        return out

    def dedupe(self, out, npaths, proc):
        """a fact established on every path needs no path guard"""
        if npaths < 2:
            return out
        cnt = {}
        for c in out:
            if c.kind in ('eff', 'fact') and len(c.f.vs) == 1:
                cnt.setdefault(c.f.body[0].get_id(), []).append(c)
        res, done = [], set()
        for c in out:
            if c.kind in ('eff', 'fact') and len(c.f.vs) == 1:
                l = cnt[c.f.body[0].get_id()]
                if len(l) >= npaths:
                    if c.f.body[0].get_id() not in done:
                        done.add(c.f.body[0].get_id())
                        res.append(Cand(c.name, Forall(c.f.vs, proc, c.f.body, c.f.name), kind=c.kind, bel=c.bel))
                    continue
            res.append(c)
        return res

    def push_cands(self, out, st0, head, conts, cells, i, i0, step):
        """lists that grow conditionally: rank function (history of the length), contents, order"""
        nb = len(head.branch)
        for key, c in cells.items():
            if c.mode != 'leaf' or len(key[1]) < 1:
                continue
            lk = (key[0], key[1][:-1] + (('len',),))
            lc = cells.get(lk)
            if lc is None or lc.mode != 'num':
                continue
            L = lambda t: z3.Select(lc.H, t)
            L0 = get_path(st0.mem[key[0]], lk[1]).t
            for q, a in c.A.items():
                gs = []
                for cs in conts:
                    x = get_path(cs.mem[key[0]], key[1])[q]
                    w = store_idx(x, a)
                    br = cs.branch[nb:]
                    g = z3.And(*br) if len(br) != 1 else br[0]
                    if w is None:
                        gs = None
                        break
                    if not w:
                        gs.append((g, None))
                    elif len(w) == 1 and w[0][0].eq(L(i)):
                        gs.append((g, w[0][1]))
                    else:
                        gs = None
                        break
                if not gs or all(v is None for _, v in gs):
                    continue
                j, p, r = fresh_int('j'), fresh_int('p'), fresh_int('r')
                proc = z3.And(j >= i0, j < i) if step > 0 else z3.And(j <= i0, j > i)
                at = lambda t, k: z3.substitute(t, (i, k))
                for g, v in gs:
                    if v is None:
                        out.append(Cand('not pushed', Forall([j], z3.And(proc, at(g, j)), [L(icanon(j + step)) == L(j)]), kind='push'))
                    else:
                        out.append(Cand('pushed', Forall([j], z3.And(proc, at(g, j)), [L(icanon(j + step)) == L(j) + 1, z3.Select(a, L(j)) == at(v, j)]), kind='push'))
                out.append(Cand('length monotone', Forall([j], z3.And(j >= i0, j <= i) if step > 0 else z3.And(j <= i0, j >= i), [L(j) <= L(i), L(j) >= L0]), kind='push'))
                vs = [v for _, v in gs if v is not None]
                if q == 't' and step == 1 and all(v.eq(i) for v in vs):
                    rng = z3.And(p >= L0, p < L(i))
                    e = z3.Select(a, p)
                    out.append(Cand('pushed values in range', Forall([p], rng, [e >= i0, e < i]), kind='push'))
                    g = z3.Or(*[g for g, v in gs if v is not None]) if len(vs) > 1 else [g for g, v in gs if v is not None][0]
                    out.append(Cand('pushed values satisfy the guard', Forall([p], rng, [z3.substitute(g, (i, e))]), kind='push'))
                    out.append(Cand('rank of pushed values', Forall([p], rng, [L(e) == p]), kind='push'))
                    out.append(Cand('pushed values increase', Forall([p, r], z3.And(p >= L0, p < r, r < L(i)), [z3.Select(a, p) < z3.Select(a, r)]), kind='push'))

    def term_cand(self, out, head, conts, c, key, i, i0, step):
        """a sum of non-negative terms bounds each of them"""
        if len(conts) != 1:
            return
        h = get_path(head.mem[key[0]], key[1])
        if not z3.is_real(h.t) or self.ieee:
            return
        d = srender(s_add(spoly(get_path(conts[0].mem[key[0]], key[1]).t), spoly(h.t), -1))
        if has(d, {c.H.get_id()}) or z3.is_rational_value(d) or not has(d, {i.get_id()}):
            return
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(d < 0)
        if s.check() != z3.unsat:
            return
        conts[0] = conts[0].with_fact(d >= 0)
        j = fresh_int('j')
        proc = z3.And(j >= i0, j < i) if step > 0 else z3.And(j <= i0, j > i)
        out.append(Cand('each term bounded by the sum', Forall([j], proc, [z3.substitute(d, (i, j)) <= z3.Select(c.H, i)]), kind='termbound'))
        out.append(Cand('sum non-negative', z3.Select(c.H, i) >= 0, kind='termbound'))

    def sum_cand(self, out, st0, head, conts, cells, c, key, arrs, i, i0, step):
        h = get_path(head.mem[key[0]], key[1])
        isint = z3.is_int(h.t)
        if not (z3.is_real(h.t) or isint) or self.ieee:
            return
        nb = len(head.branch)
        ds = []
        for cs in conts:
            x = get_path(cs.mem[key[0]], key[1])
            d = icanon(x.t - h.t) if isint else srender(s_add(spoly(x.t), spoly(h.t), -1))
            if has(d, {c.H.get_id()}):
                return
            br = cs.branch[nb:]
            ds.append((z3.And(*br) if len(br) != 1 else br[0], d) if br else (TRUE, d))
        e = ds[-1][1]
        for g, d in reversed(ds[:-1]):
            if not d.eq(e):
                e = z3.If(g, d, e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return
        j = fresh_int('s')
        es = z3.substitute(e, (i, j))
        v0 = get_path(st0.mem[key[0]], key[1]).t
        if isint:
            es, v0 = z3.ToReal(es), z3.ToReal(v0)
        if step > 0:
            s = bigsum(es, j, i0, i)
        else:
            s = bigsum(es, j, icanon(i + 1), icanon(i0 + 1))
        hs = z3.Select(c.H, i)
        out.append(Cand('sum', (z3.ToReal(hs) if isint else hs) == scanon(v0 + s), kind='sum'))

    def variants(self, f, eff, arrs, writes, i, step):
        """choose, for every read of an array that the loop writes, the current or the pre-loop array"""
        ids = frozenset(arrs)
        ts = [f.guard] + f.body if isinstance(f, Forall) else [f]
        if not any(has_any(t, ids) for t in ts):
            yield f
            return
        pairs = []
        seen = set()
        lhs = f.arg(0) if eff else None
        for x in subterms(ts).values():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).get_id() in arrs:
                if eff and (x.eq(lhs) or has(lhs, {x.get_id()})):
                    continue
                a, a0, c, q = arrs[x.arg(0).get_id()]
                idx = x.arg(1)
                ws = [w for _, wl in writes.get(a.get_id(), []) for w in (wl or [])]
                offs = [diffconst(w[0], i) for w in ws]
                ri = diffconst(idx, i)
                if ri is None or any(o is None for o in offs) or not offs:
                    continue
                notyet = all((ri >= o) if step > 0 else (ri <= o) for o in offs)
                if notyet:
                    pairs.append((x, z3.Select(a0, idx)))
        if pairs:
            # longest first so nested selects are replaced consistently
            pairs.sort(key=lambda p: -len(str(p[0])))
            if eff:
                yield lhs == z3.substitute(f.arg(1), *pairs)
            elif isinstance(f, Forall):
                yield f.subst(pairs)
            else:
                yield z3.substitute(f, *pairs)
        yield f

    def frame(self, a, a0, wl, i, i0, step):
        k = fresh_int('k')
        cs, consts, others = [], [], []
        for _, w in wl:
            if w is None:
                return None
            for idx, _ in w:
                d = diffconst(idx, i)
                if d is not None:
                    cs.append(int(d))
                elif not has(idx, {i.get_id()}):
                    consts.append(idx)
                else:
                    return None
        g = []
        if cs:
            lo, hi = min(cs), max(cs)
            if step > 0:
                g.append(z3.Or(k < i0 + lo, k >= i + hi, i == i0))
            else:
                g.append(z3.Or(k > i0 + hi, k <= i + lo, i == i0))
        for x in consts:
            g.append(k != x)
        gd = z3.And(*g) if g else TRUE
        return Forall([k], gd, [z3.Select(a, k) == z3.Select(a0, k)], 'frame')

    @property
    def root_this(self):
        """the object whose method is being verified, also inside inlined helpers"""
        return next((t for t in self.this_stack if t is not None), None)

    def contract_cands(self, st0, head, cells):
        out = []
        if self.root_this is None and not getattr(self.spec, 'free_functions', False):
            return out
        self.cand_cells = cells
        base = list(self.spec.loop_invariants(self, st0))
        for name, fn in base:
            out.append(Cand(name, fn=fn, kind='contract'))
        # the same facts under a boolean local that still has its initial value at loop entry ("found" flags)
        for r in dict.fromkeys(k[0] for k in cells if not k[1]):
            x = st0.mem.get(r)
            if not (isinstance(x, Num) and z3.is_bool(x.t) and (z3.is_true(x.t) or z3.is_false(x.t))):
                continue
            neg = z3.is_true(x.t)
            for name, fn in base + list(self.spec.flag_invariants(self, st0)):
                out.append(Cand(f'{name} once {self.vname(r)} is {"cleared" if neg else "set"}', fn=flagged(fn, r, neg), kind='contract'))
        return out

    def holds_at_entry(self, st0, head, cc, i):
        facts = st0.facts + [f for f in head.facts[len(st0.facts):] if not has_i(f, i)]
        out = []
        for c in cc:
            try:
                if all(prove(facts, f, timeout=HOUDINI_TIMEOUT) for f in c.fn(st0)):
                    out.append(c)
            except Unsupported:
                pass
        return out

    # ---------------------------------------------------------------- Houdini
    def houdini(self, st0, head, conts, cands, cells, i, i0, step, assume_first=()):
        ent = self.entry_pairs(st0, cells, i, i0)
        good = []
        entry_facts = head.facts[:]      # includes H[i0]=v0
        keep_entry = st0.facts + [f for f in head.facts[len(st0.facts):] if not has_i(f, i)]
        for c in cands:
            if c.fn is not None:
                try:
                    fs = c.fn(st0)
                except Unsupported:
                    continue
                if all(prove(keep_entry, f, timeout=HOUDINI_TIMEOUT) for f in fs):
                    good.append(c)
                continue
            if c.kind in ('eff', 'fact', 'path'):
                good.append(c)      # empty range at entry
                continue
            f0 = self.subst_f(c.f, ent)
            if prove(keep_entry, f0, timeout=HOUDINI_TIMEOUT, closure_rounds=1):
                good.append(c)
        nps = [self.next_pairs(cs, cells, i, step) for cs in conts]
        for rnd in range(12):
            drop = []
            hyp = [c.f for c in good if c.f is not None]
            for c in good:
                if c.fn is not None:
                    hyp = hyp + list(c.fn(head))
            nfh = len(head.facts)
            for c in good:
                ok = True
                for cs, np_ in zip(conts, nps):
                    facts = head.facts + hyp + cs.facts[nfh:]
                    path = [f for f in cs.facts[nfh:] if not isinstance(f, Forall)]
                    if not self.preserved(c, facts, cs, np_, i, step, path):
                        ok = False
                        break
                if not ok:
                    drop.append(c)
                    if DBG:
                        print('   drop', rnd, c.kind, c.name, '|', c.f)
            if not drop:
                break
            good = [c for c in good if not any(c is d for d in drop)]
        else:
            return []
        return good

    def quick(self, facts, goal):
        """cheap sufficient test: ground path facts only, no instantiation"""
        return quick_prove(list(facts), goal)

    def quick_own(self, path, old, new):
        """the instance of the candidate itself at the goal's skolem constants suffices"""
        sk = [fresh_int('q') for _ in new.vs]
        pn = list(zip(new.vs, sk))
        po = list(zip(old.vs, sk))
        sub = lambda t, p: z3.substitute(t, *p)
        facts = list(path) + [sub(new.guard, pn), z3.Implies(sub(old.guard, po), z3.And(*[sub(b, po) for b in old.body]))]
        return quick_prove(facts, z3.And(*[sub(b, pn) for b in new.body]))

    def preserved(self, c, facts, cs, np_, i, step, path=()):
        if c.fn is not None:
            return all(prove(facts, f, timeout=HOUDINI_TIMEOUT) for f in c.fn(cs))
        if c.kind in ('eff', 'fact', 'path'):
            j = c.f.vs[0]
            nx = c.f.subst([p for p in np_ if not p[0].eq(i)])
            # j = i
            g1 = z3.substitute(nx.guard, (i, icanon(i + step)), (j, i))
            b1 = [z3.substitute(b, (j, i)) for b in nx.body]
            rest = [v for v in nx.vs if not v.eq(j)]
            goal1 = Forall(rest, g1, b1) if rest else z3.Implies(g1, z3.And(*b1) if len(b1) != 1 else b1[0])
            if not self.quick(path, goal1) and not prove(facts, goal1, timeout=HOUDINI_TIMEOUT, closure_rounds=1):
                return False
            if same_formula(nx, c.f):
                return True
            goal2 = nx   # range j < i unchanged: old guard
            if self.quick_own(path, c.f, nx):
                return True
            return bool(prove(facts, goal2, timeout=HOUDINI_TIMEOUT, closure_rounds=1))
        f = self.subst_f(c.f, np_)
        if isinstance(f, Forall) and self.quick_own(path, c.f, f):
            return True
        return self.quick(path, f) or bool(prove(facts, f, timeout=HOUDINI_TIMEOUT, closure_rounds=1))


def same_formula(a, b):
    return a.guard.eq(b.guard) and all(x.eq(y) for x, y in zip(a.body, b.body))


def flagged(fn, r, neg):
    def g(st):
        b = st.mem[r].t
        b = z3.Not(b) if neg else b
        return [Forall(f.vs, z3.And(b, f.guard), f.body, f.name) if isinstance(f, Forall) else z3.Implies(b, f) for f in fn(st)]
    return g


def has_i(f, i):
    if isinstance(f, Forall):
        return has(f.guard, {i.get_id()}) or any(has(b, {i.get_id()}) for b in f.body)
    return has(f, {i.get_id()})
